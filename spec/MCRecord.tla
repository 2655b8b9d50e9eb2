------------------------------ MODULE MCRecord ------------------------------
(***************************************************************************)
(* Exhaustive model of the record grammar over a small byte alphabet.      *)
(* A behaviour edits a well-formed line byte by byte (Replace, Insert,     *)
(* Delete), so that every line within Depth edits of a record is visited,  *)
(* records and non-records alike.                                          *)
(***************************************************************************)
EXTENDS PicaRecord

CONSTANTS Depth, Alphabet

Seeds == { << <<48,48,51,64>>, <<>>, <<>> >>,
           << <<50,48,51,64>>, <<48,49>>, << <<48, <<120>>>> >> >>,
           << <<49,48,49,65>>, <<>>, << <<97, <<>>>>, <<98, <<32>>>> >> >> }
ToField(s) == [tag |-> s[1], occ |-> s[2], sub |-> [i \in 1..Len(s[3]) |-> [c |-> s[3][i][1], v |-> s[3][i][2]]]]

VARIABLES line, d
Init == /\ d = 0
        /\ \E a \in Seeds : line = Encode(<<ToField(a)>>)
Replace == \E p \in 1..Len(line), b \in Alphabet : line' = [line EXCEPT ![p] = b]
Insert1 == \E p \in 0..Len(line), b \in Alphabet : line' = SubSeq(line, 1, p) \o <<b>> \o SubSeq(line, p + 1, Len(line))
Delete == \E p \in 1..Len(line) : line' = SubSeq(line, 1, p - 1) \o SubSeq(line, p + 1, Len(line))
Next == d < Depth /\ d' = d + 1 /\ (Replace \/ Insert1 \/ Delete)
Spec == Init /\ [][Next]_<<line, d>>
View == line

\* a declarative reading of the grammar, independent of Decode's splitting
PosTag(l, k) == k + 3 <= Len(l) /\ IsTag(SubSeq(l, k, k + 3))
RECURSIVE SubsEnd(_, _), FieldsOk(_, _)
\* index after the run of subfields starting at k
SubsEnd(l, k) ==
  IF k > Len(l) THEN k
  ELSE IF l[k] # US THEN k
  ELSE IF k + 1 > Len(l) \/ ~IsAlnum(l[k + 1]) THEN 0
  ELSE LET E == {j \in (k + 2)..Len(l) : l[j] \in {US, RS}}
       IN IF E = {} THEN 0 ELSE SubsEnd(l, CHOOSE j \in E : \A i \in E : j <= i)
HeadEnd(l, k) ==
  IF ~PosTag(l, k) \/ k + 4 > Len(l) THEN 0
  ELSE IF l[k + 4] = SP THEN k + 5
  ELSE IF l[k + 4] # 47 THEN 0
  ELSE LET E == {n \in {2, 3} : /\ k + 5 + n <= Len(l)
                                /\ \A j \in 1..n : IsDigit(l[k + 4 + j])
                                /\ l[k + 5 + n] = SP}
       IN IF E = {} THEN 0 ELSE k + 6 + (CHOOSE n \in E : TRUE)
FieldsOk(l, k) ==
  LET h == HeadEnd(l, k)
      e == IF h = 0 THEN 0 ELSE SubsEnd(l, h)
  IN /\ e # 0 /\ e <= Len(l) /\ l[e] = RS
     /\ \/ e = Len(l) - 1 /\ l[Len(l)] = NL
        \/ e < Len(l) - 1 /\ FieldsOk(l, e + 1)

Agree == Decode(line).ok = FieldsOk(line, 1)
RoundTrip == Decode(line).ok =>
               LET r == Decode(line).rec
               IN WellFormed(r) /\ Encode(r) = line /\ Decode(Encode(r)).rec = r
=============================================================================
