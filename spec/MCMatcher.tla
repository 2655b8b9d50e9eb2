----------------------------- MODULE MCMatcher -----------------------------
(***************************************************************************)
(* Laws of the filter language, exhaustively over small fields.  A         *)
(* behaviour builds a record subfield by subfield; every atom is asked of  *)
(* every record, and the answers have to respect the algebra users rely on *)
(* (quantifiers are duals, negative operators are complements, membership  *)
(* is a disjunction of equalities, case folding only adds matches, ...).   *)
(***************************************************************************)
EXTENDS Matcher

CONSTANTS MaxSubs, MaxSubs2

Codes == {97, 98}
Values == { <<>>, <<97>>, <<65>>, <<97, 98>>, <<195, 188>> }
VARIABLES rec
Init == rec \in { <<>>, <<[tag |-> <<48,49,50,65>>, occ |-> <<>>, sub |-> <<>>]>> }
NewSub == rec # <<>> /\ Len(rec[Len(rec)].sub) < (IF Len(rec) = 1 THEN MaxSubs ELSE MaxSubs2)
          /\ \E c \in Codes, v \in Values : rec' = [rec EXCEPT ![Len(rec)].sub = Append(@, [c |-> c, v |-> v])]
NewField == Len(rec) < 2 /\ \E o \in {<<>>, <<48, 49>>} :
              rec' = Append(rec, [tag |-> <<48,49,50,65>>, occ |-> o, sub |-> <<>>])
Next == NewSub \/ NewField
Spec == Init /\ [][Next]_rec

CS == {[all |-> FALSE, r |-> <<<<97, 97>>>>], [all |-> TRUE, r |-> <<>>]}
MO == {[ci |-> i, th |-> 75] : i \in BOOLEAN}
T == [i \in 1..4 |-> [k |-> "c", c |-> <<48,49,50,65>>[i]]]
OM == {[k |-> "none"], [k |-> "any"], [k |-> "exact", a |-> <<48, 49>>]}
A1(a) == <<[k |-> "atom", a |-> a]>>
Rel(q, cs, op, v) == [k |-> "rel", q |-> q, cs |-> cs, op |-> op, v |-> v]
Not(e) == <<[k |-> "not"]>> \o e
F(a, o, q) == A1([k |-> "sub", q |-> q, t |-> T, o |-> o, e |-> A1(a)])
Fields == Range1(rec)
Pairs == << <<"==", "!=">>, <<"=^", "!^">>, <<"=$", "!$">> >>

\* ALL x op v is NOT (ANY x complement-op v), at both levels
SubDual == \A f \in Fields, cs \in CS, v \in Values, mo \in MO, p \in Range1(Pairs) :
             SubAtom(Rel("ALL", cs, p[1], v), f, mo) = ~SubAtom(Rel("ANY", cs, p[2], v), f, mo)
FieldDual == \A o \in OM, cs \in CS, v \in Values, mo \in MO :
   Matches(F(Rel("ANY", cs, "==", v), o, "ALL"), rec, mo)
     = ~(\E i \in 1..Len(rec) : FieldSel(T, o, rec[i]) /\ ~SubAtom(Rel("ANY", cs, "==", v), rec[i], mo))
\* equality implies prefix, suffix, contains and full similarity
EqImplies == \A f \in Fields, cs \in CS, v \in Values, mo \in MO :
   SubAtom(Rel("ANY", cs, "==", v), f, mo) =>
     /\ SubAtom(Rel("ANY", cs, "=^", v), f, mo)
     /\ SubAtom(Rel("ANY", cs, "=$", v), f, mo)
     /\ SubAtom([k |-> "has", q |-> "ANY", cs |-> cs, vals |-> <<v>>], f, mo)
     /\ SubAtom(Rel("ANY", cs, "=*", v), f, mo)
\* membership is a disjunction of equalities; "not in" is its complement per value
InIsOr == \A f \in Fields, cs \in CS, v \in Values, w \in Values, mo \in MO :
   /\ SubAtom([k |-> "in", q |-> "ANY", cs |-> cs, inv |-> FALSE, vals |-> <<v, w>>], f, mo)
        = (SubAtom(Rel("ANY", cs, "==", v), f, mo) \/ SubAtom(Rel("ANY", cs, "==", w), f, mo))
   /\ SubAtom([k |-> "in", q |-> "ALL", cs |-> cs, inv |-> TRUE, vals |-> <<v, w>>], f, mo)
        = ~SubAtom([k |-> "in", q |-> "ANY", cs |-> cs, inv |-> FALSE, vals |-> <<v, w>>], f, mo)
\* ignoring case only adds matches to positive operators
FoldGrows == \A f \in Fields, cs \in CS, v \in Values, op \in {"==", "=^", "=$"} :
   SubAtom(Rel("ANY", cs, op, v), f, [ci |-> FALSE, th |-> 75])
     => SubAtom(Rel("ANY", cs, op, v), f, [ci |-> TRUE, th |-> 75])
\* existence is cardinality > 0
ExIsCard == \A f \in Fields, cs \in CS, mo \in MO :
   SubAtom([k |-> "ex", cs |-> cs], f, mo) = SubAtom([k |-> "card", cs |-> cs, op |-> ">", n |-> 0], f, mo)
FexIsCard == \A o \in OM, mo \in MO :
   Matches(A1([k |-> "fex", t |-> T, o |-> o]), rec, mo)
     = Matches(A1([k |-> "fcard", t |-> T, o |-> o, has |-> FALSE, e |-> <<>>, op |-> ">=", n |-> 1]), rec, mo)
\* comparisons partition the counts
Trichotomy == \A f \in Fields, cs \in CS, n \in 0..3, mo \in MO :
   Cardinality({op \in {"<", "==", ">"} : SubAtom([k |-> "card", cs |-> cs, op |-> op, n |-> n], f, mo)}) = 1
\* a wider occurrence matcher selects no less
OccWider == \A i \in 1..Len(rec) : \A o \in OM : OccMatch(o, rec[i].occ) => OccMatch([k |-> "any"], rec[i].occ)
\* matching never depends on fields the matcher does not select
Frame == \A cs \in CS, v \in Values, mo \in MO, q \in {"ANY", "ALL"} :
   LET e == F(Rel("ANY", cs, "==", v), [k |-> "none"], q)
   IN Matches(e, rec, mo) = Matches(e, SelectSeq(rec, LAMBDA f : FieldSel(T, [k |-> "none"], f)), mo)
=============================================================================
