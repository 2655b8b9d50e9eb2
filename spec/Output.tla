------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* A run and the place its output goes.  The run makes its output piece by *)
(* piece into a buffer; the buffer drains into a sink in steps of any      *)
(* size.  The sink takes at most room bytes: then it fails, and the run    *)
(* ends with an error (kind "full": no space, file too large) or quietly   *)
(* (kind "closed": the reader of a pipe went away).  No output is reported *)
(* as written that is not.                                                 *)
(*                                                                         *)
(* want    what the run makes when nothing fails: a sequence of pieces     *)
(* ends    how it ends then: "ok" or "err" (an unreadable line)            *)
(***************************************************************************)
EXTENDS Bytes

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ExitOf(ends) == IF ends = "ok" THEN 0 ELSE 2
\* what an observer may find: got in the sink, and the exit status
Allowed(kind, room, want, ends, got, exit) ==
  CASE kind = "none" -> got = want /\ exit = ExitOf(ends)
    [] kind = "full" ->
         /\ IsPrefixOf(got, want) /\ Len(got) <= room
         /\ IF Len(want) > room THEN exit = 2 ELSE got = want /\ exit = ExitOf(ends)
    \* a compressed file: how much room the output needs is not known
    [] kind = "fullgz" ->
         /\ IsPrefixOf(got, want)
         /\ \/ exit = 2
            \/ got = want /\ exit = ExitOf(ends)
    [] kind = "closed" ->
         IF Len(want) > room THEN got = SubSeq(want, 1, room) /\ exit \in {0, ExitOf(ends)}
         ELSE got = want /\ exit = ExitOf(ends)
    \* the output cannot be opened at all
    [] kind = "noout" -> got = <<>> /\ exit = 2

VARIABLES run,      \* [want, ends, kind, room]: never changes
          made,     \* pieces made so far
          sunk,     \* bytes the sink holds
          state     \* "run", "ending" (everything made), "done"
VARIABLE code
ovars == <<run, made, sunk, state, code>>

Made == Flat(Take(run.want, made))
Pending == Len(Made) - Len(sunk)
OutInit(R) == run \in R /\ made = 0 /\ sunk = <<>> /\ state = "run" /\ code = -1
Make == /\ state = "run" /\ made < Len(run.want)
        /\ made' = made + 1 /\ UNCHANGED <<run, sunk, state, code>>
EndOfInput == /\ state = "run" /\ made = Len(run.want)
              /\ state' = "ending" /\ UNCHANGED <<run, made, sunk, code>>
Drain(n) == /\ state \in {"run", "ending"} /\ n \in 1..Pending
            /\ run.kind # "none" => Len(sunk) + n <= run.room
            /\ sunk' = sunk \o SubSeq(Made, Len(sunk) + 1, Len(sunk) + n)
            /\ UNCHANGED <<run, made, state, code>>
SinkFails == /\ state \in {"run", "ending"} /\ run.kind # "none" /\ Pending > 0 /\ Len(sunk) = run.room
             /\ state' = "done" /\ code' = IF run.kind = "full" THEN 2 ELSE 0
             /\ UNCHANGED <<run, made, sunk>>
Close == /\ state = "ending" /\ Pending = 0
         /\ state' = "done" /\ code' = ExitOf(run.ends) /\ UNCHANGED <<run, made, sunk>>
OutNext == Make \/ EndOfInput \/ SinkFails \/ Close \/ \E n \in 1..Pending : Drain(n)
=============================================================================
