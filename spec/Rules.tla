------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* Rule sets: what each kind of rule finds in one record.  A rule is a     *)
(* record  [id, level, hastags, tags, kind, ci, th, ...]; what it finds is *)
(* [hit, msgs], where msgs is the set of messages it may report (a message *)
(* that lists duplicates may list them in any order).                      *)
(***************************************************************************)
EXTENDS Query, CodeLists

Comma == <<44, SP>>
RuleOpts(r) == [ci |-> r.ci, th |-> r.th]
Found(vs) == [hit |-> vs # <<>>, msgs |-> {Join(Map(vs, Lossy), Comma)}]
Nothing == [hit |-> FALSE, msgs |-> {<<>>}]
Bad(r, rec, Good(_)) == Found(SelectSeq(PathValues(r.path, rec, RuleOpts(r)), LAMBDA v : ~Good(v)))

(*------------------------------ ISNI -------------------------------------*)
\* sixteen digits, the last a checksum modulo 11 written X for 10; what
\* lies below '0' (blanks, hyphens, dots) only groups them
IsniDigits(v) == Map(SelectSeq(v, LAMBDA b : b >= 48), LAMBDA b : b - 48)
IsniSum(ds) == FoldLeft(LAMBDA acc, d : (acc + d) * 2 % 11, 0, SubSeq(ds, 1, 15))
IsniCheck(ds) == LET c == (12 - IsniSum(ds)) % 11 IN IF c = 10 THEN 40 ELSE c
IsIsni(v) ==
  LET ds == IsniDigits(v)
  IN /\ Len(ds) = 16
     /\ \A i \in 1..15 : ds[i] <= 9
     /\ ds[16] = IsniCheck(ds)

(*------------------------------ dates ------------------------------------*)
IsWs(b) == b \in {9, 10, 12, 13, 32}
RECURSIVE SkipWs(_, _), NumEnd(_, _, _), ParseBy(_, _, _, _, _)
SkipWs(s, j) == IF j <= Len(s) /\ IsWs(s[j]) THEN SkipWs(s, j + 1) ELSE j
NumEnd(s, j, k) == IF k > 0 /\ j <= Len(s) /\ IsDigit(s[j]) THEN NumEnd(s, j + 1, k - 1) ELSE j
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
\* compound directives
Expand(fmt) ==
  LET sub(b) == CASE b = 70 -> <<37, 89, 45, 37, 109, 45, 37, 100>>      \* F
                  [] b = 84 -> <<37, 72, 58, 37, 77, 58, 37, 83>>        \* T
                  [] b = 82 -> <<37, 72, 58, 37, 77>>                    \* R
                  [] b = 68 -> <<37, 109, 47, 37, 100, 47, 37, 121>>     \* D
                  [] OTHER -> <<37, b>>
      go[i \in 1..(Len(fmt) + 1)] ==
        IF i > Len(fmt) THEN <<>>
        ELSE IF fmt[i] = 37 /\ i < Len(fmt) THEN sub(fmt[i + 1]) \o go[i + 2]
        ELSE <<fmt[i]>> \o go[i + 1]
  IN go[1]
Range2(d) == CASE d = 100 \/ d = 101 -> <<1, 31>> [] d = 109 -> <<1, 12>> [] d = 72 -> <<0, 23>>
               [] d = 77 -> <<0, 59>> [] d = 83 -> <<0, 60>> [] d = 121 -> <<0, 99>>
               [] d = 89 -> <<0, 9999>>
Part(d) == IF d = 101 THEN 100 ELSE IF d = 121 THEN 89 ELSE d
\* tm: parts read so far (by directive); "no" if the string does not fit
ParseBy(fmt, i, s, j, tm) ==
  IF i > Len(fmt) THEN IF j > Len(s) THEN [ok |-> TRUE, tm |-> tm] ELSE [ok |-> FALSE]
  ELSE IF IsWs(fmt[i]) THEN ParseBy(fmt, i + 1, s, SkipWs(s, j), tm)
  ELSE IF j > Len(s) THEN [ok |-> FALSE]
  ELSE IF fmt[i] # 37 \/ (i < Len(fmt) /\ fmt[i + 1] = 37)
  THEN IF s[j] = fmt[i] THEN ParseBy(fmt, i + (IF fmt[i] = 37 THEN 2 ELSE 1), s, j + 1, tm) ELSE [ok |-> FALSE]
  ELSE LET d == fmt[i + 1]
           sign == IF d = 89 /\ s[j] \in {43, 45} THEN 1 ELSE 0
           a == SkipWs(s, j + sign)
           e == NumEnd(s, a, IF d = 89 THEN 4 ELSE 2)
           n == Num(SubSeq(s, a, e - 1))
           v == CASE d = 89 -> (IF s[j] = 45 THEN -n ELSE n)
                  [] d = 121 -> (IF n <= 68 THEN 2000 + n ELSE 1900 + n)
                  [] OTHER -> n
       IN IF e = a \/ n < Range2(d)[1] \/ n > Range2(d)[2] THEN [ok |-> FALSE]
          ELSE ParseBy(fmt, i + 2, s, e, (Part(d) :> v) @@ tm)
\* a date is a year, a month and a day that exists in it; a time needs its hour
IsDate(fmt, s) ==
  LET p == ParseBy(Expand(fmt), 1, s, 1, [x \in {} |-> 0])
  IN /\ p.ok
     /\ {89, 109, 100} \subseteq DOMAIN p.tm
     /\ p.tm[100] <= Days(p.tm[89], p.tm[109])
     /\ 77 \in DOMAIN p.tm => 72 \in DOMAIN p.tm
     /\ 83 \in DOMAIN p.tm => 77 \in DOMAIN p.tm

(*------------------------------ duplicates -------------------------------*)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Duplicates(r, rec) ==
  LET rows == QueryRows(r.q, rec, [ci |-> r.ci, th |-> r.th, squash |-> FALSE, merge |-> FALSE, sep |-> <<124>>])
      keys == Map(SelectSeq(rows, LAMBDA row : \E i \in 1..Len(row) : row[i] # <<>>),
                  LAMBDA row : Join(Map(row, Lossy), r.sep))
      D == {k \in Range1(keys) : Count(keys, LAMBDA x : x = k) >= r.threshold}
  IN [hit |-> D # {}, msgs |-> IF D = {} THEN {<<>>} ELSE {Join(p, <<59, SP>>) : p \in Perms(D)}]

(*------------------------------ one rule, one record ----------------------*)
Finding(r, rec) ==
  CASE r.kind = "allow" -> Bad(r, rec, LAMBDA v : Has(r.list, v))
    [] r.kind = "datetime" -> Bad(r, rec, LAMBDA v : Len(v) > r.offset /\ IsDate(r.format, Drop(v, r.offset)))
    [] r.kind = "duplicates" -> Duplicates(r, rec)
    [] r.kind = "filter" -> [hit |-> Matches(r.e, rec, RuleOpts(r)) # r.inv, msgs |-> {<<>>}]
    [] r.kind = "isni" -> Bad(r, rec, LAMBDA v : (r.hasprefix /\ ~IsPre(r.prefix, v))
                                                \/ IsIsni(Drop(v, IF r.hasprefix THEN Len(r.prefix) ELSE 0)))
    [] r.kind = "iso639-2b" -> Bad(r, rec, LAMBDA v : v \in LanguageCodes)
    [] r.kind = "jelc" -> Bad(r, rec, LAMBDA v : v \in JelCodes)
    [] r.kind = "unicode" ->
         IF ~IsUtf8Rec(rec) THEN [hit |-> TRUE, msgs |-> {<<>>}]
         ELSE Found(FlatMap(rec, LAMBDA f : SelectSeq(Map(f.sub, LAMBDA s : s.v), LAMBDA v : Has(r.notnf, v))))
    [] OTHER -> Nothing

(*------------------------------ which rules apply -------------------------*)
\* -r keeps the rules whose name a pattern is found in, -t those that carry
\* one of the tags
Kept(o, r) ==
  /\ o.hasre => \E k \in 1..Len(o.res) : ReSearch(o.res[k], r.id, FALSE)
  /\ o.hastags => LET T == Map(Split(o.tags, 44), Trim)
                  IN r.hastags /\ \E k \in 1..Len(r.tags) : Has(T, r.tags[k])
InScope(rs, rec) == rs.hasscope => Matches(rs.scope, rec, DefOpts)
RulesOf(o, rs) == SelectSeq(rs.rules, LAMBDA r : Kept(o, r))

(*------------------------------ links ------------------------------------*)
\* values a link rule looks for, and values it accepts as targets
LinkTargets(r, rec) ==
  IF r.hasfilter => Matches(r.filter, rec, RuleOpts(r)) THEN Range1(PathValues(r.target, rec, RuleOpts(r))) ELSE {}
LinkSources(r, rec) == PathValues(r.source, rec, RuleOpts(r))
\* a link is dangling if no record of the whole input is its target,
\* wherever in the input that record stands
Dangling(links, targets) == SelectSeq(links, LAMBDA l : l[2] \notin targets)
=============================================================================
