------------------------------ MODULE MCTables ------------------------------
(***************************************************************************)
(* Counting: rows arrive one at a time (frequency), records arrive one at   *)
(* a time (describe, count); the tables shown must be the true counts, in   *)
(* the promised order, cut where the options say.                           *)
(***************************************************************************)
EXTENDS Commands

CONSTANTS MaxRows
Vals == { <<>>, <<97>>, <<65>>, <<98>> }
RowSet == {<<v>> : v \in Vals} \cup {<<v, w>> : v \in {<<>>, <<97>>}, w \in {<<>>, <<98>>}}
VARIABLES rows, tab, width
vars == <<rows, tab, width>>
Init == rows = <<>> /\ tab = EmptyMap /\ width \in {1, 2}
Arrive == Len(rows) < MaxRows /\ \E r \in RowSet :
            /\ Len(r) = width /\ ~AllEmpty(r)
            /\ rows' = Append(rows, r) /\ tab' = Bump(tab, r) /\ UNCHANGED width
Next == Arrive
Spec == Init /\ [][Next]_vars

True(r) == Count(rows, LAMBDA x : x = r)
Opt == {[threshold |-> t, num |-> n, rev |-> v, nf |-> <<>>, delim |-> 44] : t \in 0..3, n \in 0..2, v \in BOOLEAN}
Counts == /\ DOMAIN tab = Range1(rows)
          /\ \A r \in Range1(rows) : tab[r] = True(r)
          /\ \A o \in Opt : o.threshold = 0 /\ o.num = 0 =>
               Sum(Map(FreqOrder(tab, o), LAMBDA k : tab[k])) = Len(rows)
Complete == \A o \in Opt : o.num = 0 =>
   LET s == FreqOrder(tab, o)
   IN Range1(s) = {r \in Range1(rows) : True(r) >= o.threshold} /\ Len(s) = Cardinality(Range1(s))
Sorted == \A o \in Opt :
   LET s == FreqOrder(tab, o)
   IN \A i \in 1..(Len(s) - 1) :
        \/ (IF o.rev THEN True(s[i]) < True(s[i + 1]) ELSE True(s[i]) > True(s[i + 1]))
        \/ True(s[i]) = True(s[i + 1]) /\ RowCmp(s[i], s[i + 1]) = -1
Prefix == \A o \in Opt : FreqOrder(tab, o) = (LET s == FreqOrder(tab, [o EXCEPT !.num = 0])
                                              IN IF o.num = 0 THEN s ELSE Take(s, o.num))
\* the order rows arrive in makes no difference
Bag == \A i \in 1..Len(rows) : \A o \in Opt :
   LET swapped == SubSeq(rows, i, Len(rows)) \o SubSeq(rows, 1, i - 1)
   IN FreqOrder(FoldLeft(Bump, EmptyMap, swapped), o) = FreqOrder(tab, o)
=============================================================================
