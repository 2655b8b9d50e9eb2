------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* The reader over a source that gives its bytes in pieces of any size,    *)
(* with interruptions, and may fail.  The answers depend on the bytes      *)
(* only, not on the pieces.                                                *)
(***************************************************************************)
EXTENDS Records
CONSTANTS Streams, Most
VARIABLES data, limit, at, buf, ready, answers, calls
vars == <<data, limit, at, buf, ready, answers, calls>>
Good == <<48, 49, 50, 65, 32, RS, NL>>
Odd == <<48, 49, 50, 65, 32, US, 97, 255, RS, NL>>
All == << <<>>, Good, Good \o Odd, Odd \o <<120, NL>> \o Good, Good \o Take(Good, 6), <<NL>> \o Good \o Odd, Good \o <<NL>>, <<120>> >>
\* buf: the line so far; ready: bytes fetched but not consumed
Init == /\ data \in {All[i] : i \in Streams} /\ limit \in -1..Len(data)
        /\ at = 0 /\ buf = <<>> /\ ready = <<>> /\ answers = <<>> /\ calls = <<>>
Sure == IF limit >= 0 THEN limit ELSE Len(data)
Failed == answers # <<>> /\ answers[Len(answers)].k = "io"
Asked == Len(calls) > Len(answers)
Ask == /\ ~Asked /\ ~Failed /\ Len(calls) < Most
       /\ \E w \in {"byte", "string"} : calls' = Append(calls, w)
       /\ buf' = <<>> /\ UNCHANGED <<data, limit, at, ready, answers>>
Give(a) == answers' = Append(answers, a)
EndLine(l) == LET d == Decode(l)
              IN Give(IF ~d.ok THEN [k |-> "parse"]
                      ELSE IF calls[Len(calls)] = "string" /\ ~IsUtf8Rec(d.rec) THEN [k |-> "utf8"]
                      ELSE [k |-> "rec", text |-> l])
Consume == /\ Asked /\ ready # <<>>
           /\ LET P == {i \in 1..Len(ready) : ready[i] = NL}
              IN IF P = {} THEN buf' = buf \o ready /\ ready' = <<>> /\ UNCHANGED answers
                 ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j
                      IN EndLine(buf \o Take(ready, i)) /\ ready' = Drop(ready, i) /\ buf' = <<>>
           /\ UNCHANGED <<data, limit, at, calls>>
\* an interruption changes nothing (a stuttering step)
Fetch == /\ Asked /\ ready = <<>> /\ at < Sure
         /\ \E k \in 1..(Sure - at) : ready' = SubSeq(data, at + 1, at + k) /\ at' = at + k
         /\ UNCHANGED <<data, limit, buf, answers, calls>>
Fail == /\ Asked /\ ready = <<>> /\ limit >= 0 /\ at = limit
        /\ Give([k |-> "io"]) /\ UNCHANGED <<data, limit, at, buf, ready, calls>>
Finish == /\ Asked /\ ready = <<>> /\ limit < 0 /\ at = Len(data)
          /\ (IF buf = <<>> THEN Give([k |-> "end"]) ELSE EndLine(buf))
          /\ buf' = <<>> /\ UNCHANGED <<data, limit, at, ready, calls>>
Next == Ask \/ Consume \/ Fetch \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars
OnlyBytesMatter == \A k \in 1..Len(answers) : answers[k] = AnswerTo(calls[k], k, LinesOf(data), limit)
Complete == LinesOf(data) = <<>> \/ Flat(LinesOf(data)) = data
=============================================================================
