------------------------------- MODULE MCTee --------------------------------
(* A run that writes to two places (filter --tee, concat --tee): each has  *)
(* its own buffer and its own sink, which drain and fail on their own.     *)
(* What concat finds twice goes to the second place only.  All runs of up  *)
(* to two pieces.                                                          *)
EXTENDS Output
VARIABLES trun,     \* [want, both, ends, kind, room]: kind and room of each place
          tmade, tsunk, tstate, tcode
tvars == <<trun, tmade, tsunk, tstate, tcode>>
TPieces == {<<65>>, <<66, 10>>}
TRuns == UNION {[want : [1..n -> TPieces], both : [1..n -> BOOLEAN], ends : {"ok", "err"},
                 kind : [1..2 -> {"none", "full", "closed"}], room : [1..2 -> 0..3]] : n \in 0..2}
Parts(r, k, n) == Flat([i \in 1..n |-> IF k = 2 \/ r.both[i] THEN r.want[i] ELSE <<>>])
TMade(k) == Parts(trun, k, tmade)
TWant(k) == Parts(trun, k, Len(trun.want))
TPending(k) == Len(TMade(k)) - Len(tsunk[k])
TInit == trun \in {r \in TRuns : r.kind[2] # "closed"} /\ tmade = 0 /\ tsunk = [k \in 1..2 |-> <<>>] /\ tstate = "run" /\ tcode = -1
TMake == tstate = "run" /\ tmade < Len(trun.want) /\ tmade' = tmade + 1 /\ UNCHANGED <<trun, tsunk, tstate, tcode>>
TEnd == tstate = "run" /\ tmade = Len(trun.want) /\ tstate' = "ending" /\ UNCHANGED <<trun, tmade, tsunk, tcode>>
TDrain(k, n) == /\ tstate \in {"run", "ending"} /\ n \in 1..TPending(k)
                /\ trun.kind[k] # "none" => Len(tsunk[k]) + n <= trun.room[k]
                /\ tsunk' = [tsunk EXCEPT ![k] = @ \o SubSeq(TMade(k), Len(@) + 1, Len(@) + n)]
                /\ UNCHANGED <<trun, tmade, tstate, tcode>>
TFails(k) == /\ tstate \in {"run", "ending"} /\ trun.kind[k] # "none" /\ TPending(k) > 0 /\ Len(tsunk[k]) = trun.room[k]
             /\ tstate' = "done" /\ tcode' = (IF trun.kind[k] = "full" THEN 2 ELSE 0) /\ UNCHANGED <<trun, tmade, tsunk>>
TClose == /\ tstate = "ending" /\ \A k \in 1..2 : TPending(k) = 0
          /\ tstate' = "done" /\ tcode' = ExitOf(trun.ends) /\ UNCHANGED <<trun, tmade, tsunk>>
TNext == TMake \/ TEnd \/ TClose \/ \E k \in 1..2 : TFails(k) \/ \E n \in 1..TPending(k) : TDrain(k, n)
\* the variables of Output are not used here
Idle == run = 0 /\ made = 0 /\ sunk = <<>> /\ state = "idle" /\ code = 0
MCTSpec == (TInit /\ Idle) /\ [][TNext /\ UNCHANGED ovars]_<<tvars, ovars>> /\ WF_tvars(TNext)
TPrefix == \A k \in 1..2 : IsPrefixOf(tsunk[k], TWant(k))
TOver(k) == Len(TWant(k)) > trun.room[k]
\* one place takes everything and the other does not: no success
TNoSilentLoss == tstate = "done" /\ tcode = 0 => \/ \E k \in 1..2 : trun.kind[k] = "closed" /\ TOver(k)
                                                 \/ \A k \in 1..2 : tsunk[k] = TWant(k)
TFullIsError == tstate = "done" /\ (\E k \in 1..2 : trun.kind[k] = "full" /\ TOver(k)) /\ (\A k \in 1..2 : trun.kind[k] # "closed") => tcode = 2
TNoFalseAlarm == tstate = "done" /\ tcode = 2 => trun.ends = "err" \/ \E k \in 1..2 : trun.kind[k] = "full" /\ TOver(k)
TFinishes == <>(tstate = "done")
=============================================================================
