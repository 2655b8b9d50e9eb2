------------------------------- MODULE MCTags -------------------------------
(***************************************************************************)
(* Tag, occurrence and code matchers over all tags of a small alphabet and  *)
(* all occurrences: a class is the union of its members, "." is the class   *)
(* of everything, a range is the union of the occurrences in it, keeping    *)
(* and discarding split a record into two disjoint parts.                   *)
(***************************************************************************)
EXTENDS Commands

D2 == {<<48 + a, 48 + b>> : a, b \in {0, 1, 2, 9}}
D3 == {<<48 + a, 48 + b, 48 + c>> : a, b, c \in {0, 1}}
Occs == {<<>>} \cup D2 \cup D3
Tags == {<<a, b, 48, d>> : a \in {48, 50}, b \in {48, 49}, d \in {64, 90}}
PosSet == {[k |-> "any"]} \cup {[k |-> "c", c |-> c] : c \in {48, 50, 64, 90}}
          \cup {[k |-> "cls", r |-> <<<<48, 49>>>>], [k |-> "cls", r |-> <<<<64, 64>>, <<65, 90>>>>], [k |-> "cls", r |-> <<<<48, 57>>>>]}
Matchers == {[k |-> "none"], [k |-> "any"]} \cup {[k |-> "exact", a |-> o] : o \in Occs \ {<<>>, <<48, 48>>}}
            \cup {[k |-> "range", a |-> a, b |-> b] : a \in D2 \cup D3, b \in D2 \cup D3}

VARIABLES tag, occ, t, o
Init == tag \in Tags /\ occ \in Occs /\ o \in Matchers /\ t \in [1..4 -> {[k |-> "any"]}]
\* narrow one position of the tag matcher; matching can only be lost
Narrow == \E i \in 1..4, p \in PosSet : t[i].k = "any" /\ t' = [t EXCEPT ![i] = p] /\ UNCHANGED <<tag, occ, o>>
Next == (occ = <<>> /\ o.k = "any" /\ Narrow) \/ UNCHANGED <<tag, occ, t, o>>
Spec == Init /\ [][Next]_<<tag, occ, t, o>>

PosIsSet == TagMatch(t, tag) = \A i \in 1..4 : PosMatch(t[i], tag[i])
ClassIsUnion == \A i \in 1..4 : t[i].k = "cls" =>
   PosMatch(t[i], tag[i]) = \E c \in UNION {t[i].r[j][1]..t[i].r[j][2] : j \in 1..Len(t[i].r)} : PosMatch([k |-> "c", c |-> c], tag[i])
NarrowLoses == [][TagMatch(t', tag) => TagMatch(t, tag)]_<<tag, occ, t, o>>
AnyTakesAll == o.k = "any" => OccMatch(o, occ)
NoneIs00 == OccMatch([k |-> "none"], occ) = (occ = <<>> \/ occ = <<48, 48>>)
ExactIsOne == o.k = "exact" => (OccMatch(o, occ) <=> occ = o.a)
RangeIsUnion == o.k = "range" =>
   /\ OccMatch(o, occ) = \E x \in Occs \ {<<>>} : x = occ /\ Leq(o.a, x) /\ Leq(x, o.b)
   /\ Len(o.a) = Len(o.b) /\ Len(occ) = Len(o.a) => (OccMatch(o, occ) <=> Num(o.a) <= Num(occ) /\ Num(occ) <= Num(o.b))
Fld == [tag |-> tag, occ |-> occ, sub |-> <<>>]
Oth == [tag |-> <<48, 48, 48, 64>>, occ |-> <<>>, sub |-> <<>>]
Rec == <<Oth, Fld, Oth>>
P == <<[t |-> t, o |-> o]>>
Split2 == LET k == Reduce([keep |-> P, disc |-> <<>>], Rec)
              d == Reduce([keep |-> <<>>, disc |-> P], Rec)
          IN /\ Len(k) + Len(d) = Len(Rec)
             /\ Reduce([keep |-> P, disc |-> P], Rec) = <<>>
             /\ Has(k, Fld) # Has(d, Fld)
=============================================================================
