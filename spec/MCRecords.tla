----------------------------- MODULE MCRecords ------------------------------
(***************************************************************************)
(* Records that remember the bytes they were read from.  Any history of    *)
(* reading, copying and changing - also through mutable access to the      *)
(* fields - leaves the remembered bytes either absent or up to date, so    *)
(* that writing and comparing by the bytes is writing and comparing the    *)
(* fields.  (With Forgets = FALSE, mutable access keeping the bytes, the   *)
(* invariant fails.)                                                       *)
(***************************************************************************)
EXTENDS Records
CONSTANTS MaxSteps, Forgets
VARIABLES st, n
vars == <<st, n>>
Rec1 == Decode(<<48, 49, 50, 65, 32, US, 97, 120, RS, NL>>).rec
Rec2 == Decode(<<48, 49, 50, 65, 47, 48, 49, 32, RS, 48, 48, 51, 64, 32, US, 48, 49, RS, NL>>).rec
Rec3 == Decode(<<50, 48, 51, 64, 47, 48, 49, 32, US, 48, 195, RS, 48, 49, 50, 65, 32, US, 97, 120, RS, NL>>).rec
Recs == {Rec1, Rec2, Rec3}
Tag1 == [k |-> "tag", tag |-> <<48, 49, 50, 65>>]
ListA == << [t |-> <<[k |-> "c", c |-> 48], [k |-> "any"], [k |-> "any"], [k |-> "any"]>>, o |-> [k |-> "none"]] >>
Top == st[Len(st)]
On(r, raw) == st' = [st EXCEPT ![Len(st)] = [rec |-> r, raw |-> raw]]
Spec1(r, s) == StepRec(<<[rec |-> r, str |-> FALSE]>>, s).st[1].rec
Load == Len(st) < 3 /\ \E r \in Recs : st' = Append(st, [rec |-> r, raw |-> Encode(r)])
New == Len(st) < 3 /\ \E r \in Recs : st' = Append(st, [rec |-> r, raw |-> <<>>])
Copy == Len(st) \in 1..2 /\ st' = Append(st, [rec |-> Top.rec, raw |-> <<>>])
Reducing == st # <<>> /\ \E op \in {"keep", "discard"}, l \in {<<>>, ListA} :
              On(Spec1(Top.rec, [op |-> op, list |-> l]), IF l = <<>> THEN Top.raw ELSE <<>>)
Retain == st # <<>> /\ \E p \in {Tag1, [k |-> "odd"], [k |-> "no"]} : On(Spec1(Top.rec, [op |-> "retain", pred |-> p]), <<>>)
Through == st # <<>> /\ \E p \in {Tag1, [k |-> "all"], [k |-> "odd"]} :
             On(Spec1(Top.rec, [op |-> "through", pred |-> p]), IF Forgets THEN <<>> ELSE Top.raw)
Swap == Len(st) >= 2 /\ st' = StepRec(st, [op |-> "swap"]).st
Init == st = <<>> /\ n = 0
Next == n < MaxSteps /\ n' = n + 1 /\ (Load \/ New \/ Copy \/ Reducing \/ Retain \/ Through \/ Swap)
Spec == Init /\ [][Next]_vars
Written(e) == IF e.raw # <<>> THEN e.raw ELSE Encode(e.rec)
Same(a, b) == IF a.raw # <<>> /\ b.raw # <<>> THEN a.raw = b.raw ELSE a.rec = b.rec
UpToDate == \A i \in 1..Len(st) : Written(st[i]) = Encode(st[i].rec)
Equality == \A i, j \in 1..Len(st) : /\ Same(st[i], st[j]) = (st[i].rec = st[j].rec)
                                     /\ Same(st[i], st[j]) = (Written(st[i]) = Written(st[j]))
\* what is written can be read again, unless nothing is left
ReadsBack == \A i \in 1..Len(st) : LET d == Decode(Written(st[i]))
                                   IN IF st[i].rec = <<>> THEN Written(st[i]) = <<>> ELSE d.ok /\ d.rec = st[i].rec
Formed == \A i \in 1..Len(st) : st[i].rec # <<>> => WellFormed(st[i].rec)
=============================================================================
