------------------------------ MODULE MCRules ------------------------------
(***************************************************************************)
(* Design of the rules that are more than a lookup.                        *)
(*  - links: records arrive one by one; a checker that remembers what it   *)
(*    has seen and what it still misses reports exactly the dangling links *)
(*    of the whole input, so no order of the records matters;              *)
(*  - dates: walking through the calendar day by day, exactly the days of  *)
(*    the calendar are dates;                                              *)
(*  - ISNI: every number has one check digit, and no single wrong digit    *)
(*    and no swap of neighbours goes unnoticed.                            *)
(***************************************************************************)
EXTENDS Rules

CONSTANTS MaxRecs, Ids, LastYear      \* number of records, identifiers, last year of the walk

VARIABLES recs, seen, unseen, y, m, d, n
vars == <<recs, seen, unseen, y, m, d, n>>

\* a record: its identifier (or none), whether it may be a target, its links
Rec == [id : Ids \cup {0}, good : BOOLEAN, to : UNION {[1..k -> Ids] : k \in 0..2}]
TargetOf(r) == IF r.id # 0 /\ r.good THEN {r.id} ELSE {}

Init == recs = <<>> /\ seen = {} /\ unseen = <<>> /\ y = 1999 /\ m = 12 /\ d = 30 /\ n = 0
Arrive ==
  /\ Len(recs) < MaxRecs /\ n = 0
  /\ \E r \in Rec :
       /\ recs' = Append(recs, r)
       /\ seen' = seen \cup TargetOf(r)
       /\ unseen' = unseen \o Map(SelectSeq(r.to, LAMBDA v : v \notin seen'), LAMBDA v : <<r.id, v>>)
  /\ UNCHANGED <<y, m, d, n>>
NextDay ==
  /\ recs = <<>> /\ y <= LastYear
  /\ n' = n + 1
  /\ IF d < Days(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
  /\ UNCHANGED <<recs, seen, unseen>>
Next == Arrive \/ NextDay
Spec == Init /\ [][Next]_vars

AllTargets == UNION {TargetOf(recs[i]) : i \in 1..Len(recs)}
AllLinks == FlatMap(recs, LAMBDA r : Map(r.to, LAMBDA v : <<r.id, v>>))
\* what is reported at the end, however the input was ordered
OrderFree == Dangling(unseen, seen) = Dangling(AllLinks, AllTargets)

\* day number by the usual closed formula (years begin in March)
DayNo(yy, mm, dd) ==
  LET a == IF mm <= 2 THEN yy - 1 ELSE yy
      b == IF mm <= 2 THEN mm + 9 ELSE mm - 3
  IN 365 * a + (a \div 4) - (a \div 100) + (a \div 400) + ((153 * b + 2) \div 5) + dd
Pad(k, w) == LET t == Dec(k) IN [i \in 1..(w - Len(t)) |-> 48] \o t
Iso(yy, mm, dd) == Pad(yy, 4) \o <<45>> \o Pad(mm, 2) \o <<45>> \o Pad(dd, 2)
F == <<37, 70>>
Calendar ==
  /\ DayNo(y, m, d) = DayNo(1999, 12, 30) + n
  /\ IsDate(F, Iso(y, m, d))
  /\ d = Days(y, m) => \A x \in (d + 1)..33 : ~IsDate(F, Iso(y, m, x))
  /\ ~IsDate(F, Iso(y, m, 0))

Bases == {<<0,0,0,0,0,0,0,1,2,1,0,3,2,6,8>>, <<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5>>, <<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>,
          <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, <<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9>>}
Txt(b) == Map(b, LAMBDA x : x + 48)
Good(b) == Txt(b) \o <<48 + IsniCheck(b)>>
ASSUME \A b \in Bases :
  LET g == Good(b)
  IN /\ {c \in 33..126 : IsIsni(Txt(b) \o <<c>>)} = {g[16]}
     /\ \A i \in 1..15, x \in 48..57 : x # g[i] => ~IsIsni([g EXCEPT ![i] = x])
     /\ \A i \in 1..14 : g[i] # g[i + 1] => ~IsIsni([g EXCEPT ![i] = g[i + 1], ![i + 1] = g[i]])
     /\ \A i \in 1..15, x \in 58..126 : ~IsIsni([g EXCEPT ![i] = x])
ASSUME Cardinality(LanguageCodes) = 486 /\ \A x \in LanguageCodes : Len(x) = 3 /\ \A i \in 1..3 : IsLowerA(x[i])
ASSUME Cardinality(JelCodes) = 1003 /\ \A x \in JelCodes : Len(x) \in {2, 3} /\ IsUpperA(x[1]) /\ \A i \in 2..Len(x) : IsDigit(x[i])
=============================================================================
