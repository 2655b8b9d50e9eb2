------------------------------ MODULE MCExplode ------------------------------
(***************************************************************************)
(* explode on records with level structure.  A behaviour builds a title     *)
(* record field by field: main fields, then holdings, each some local       *)
(* fields and items, each item some copy fields of one occurrence.  The     *)
(* parts must be exactly: title + holding (local), title + local fields of  *)
(* the holding + item (copy).                                               *)
(***************************************************************************)
EXTENDS Commands

CONSTANTS MaxFields
\* mains: number; hold: sequence of [l: number of local fields, items: seq of numbers of copy fields]
VARIABLES mains, hold, size
vars == <<mains, hold, size>>
Init == mains = 0 /\ hold = <<>> /\ size = 0
AddMain == hold = <<>> /\ mains < 2 /\ mains' = mains + 1 /\ size' = size + 1 /\ UNCHANGED hold
\* a holding starts with a local field, and is only seen to end after an item
NewHold == /\ hold # <<>> => hold[Len(hold)].items # <<>>
           /\ hold' = Append(hold, [l |-> 1, items |-> <<>>]) /\ size' = size + 1 /\ UNCHANGED mains
AddLocal == hold # <<>> /\ hold[Len(hold)].items = <<>> /\ hold[Len(hold)].l < 2
            /\ hold' = [hold EXCEPT ![Len(hold)].l = @ + 1] /\ size' = size + 1 /\ UNCHANGED mains
NewItem == hold # <<>> /\ hold' = [hold EXCEPT ![Len(hold)].items = Append(@, 1)] /\ size' = size + 1 /\ UNCHANGED mains
AddCopy == hold # <<>> /\ hold[Len(hold)].items # <<>>
           /\ LET n == Len(hold[Len(hold)].items)
              IN hold[Len(hold)].items[n] < 2 /\ hold' = [hold EXCEPT ![Len(hold)].items[n] = @ + 1]
           /\ size' = size + 1 /\ UNCHANGED mains
Next == size < MaxFields /\ (AddMain \/ NewHold \/ AddLocal \/ NewItem \/ AddCopy)
Spec == Init /\ [][Next]_vars

Fd(l, n, occ, id) == [tag |-> <<48 + l, 48, n, 64>>, occ |-> occ, sub |-> <<[c |-> 97, v |-> id]>>]
Main == [k \in 1..mains |-> Fd(0, 48, <<>>, <<k>>)]
Local(h) == [k \in 1..hold[h].l |-> Fd(1, 49, <<>>, <<h, k>>)]
Item(h, i) == [k \in 1..hold[h].items[i] |-> Fd(2, 50, <<48, 48 + i>>, <<h, i, k>>)]
Items(h) == FlatMap([i \in 1..Len(hold[h].items) |-> i], LAMBDA i : Item(h, i))
Holding(h) == Local(h) \o Items(h)
Hs == [h \in 1..Len(hold) |-> h]
Rec == Main \o FlatMap(Hs, Holding)
LocalIs == Parts(Rec, "local") = Map(Hs, LAMBDA h : Main \o Holding(h))
CopyIs == Parts(Rec, "copy") =
   FlatMap(Hs, LAMBDA h : Map([i \in 1..Len(hold[h].items) |-> i], LAMBDA i : Main \o Local(h) \o Item(h, i)))
MainIs == Parts(Rec, "main") = <<Rec>>
\* nothing is lost and nothing is invented
Covers == LET P == Parts(Rec, "local") IN hold # <<>> => UNION {Range1(p) : p \in Range1(P)} = Range1(Rec)
=============================================================================
