------------------------------- MODULE Matcher -------------------------------
(***************************************************************************)
(* The filter language: which records a matcher expression selects.        *)
(* Expressions arrive as token sequences; this module says how tokens are  *)
(* grouped (precedence), what each atom means and how quantifiers work.    *)
(***************************************************************************)
EXTENDS PicaRecord

(*------------------------------ tags, occurrences ------------------------*)
\* a position is "any", a character, or a class of characters and ranges
PosMatch(p, b) ==
  CASE p.k = "any" -> TRUE
    [] p.k = "c" -> p.c = b
    [] p.k = "cls" -> \E i \in 1..Len(p.r) : p.r[i][1] <= b /\ b <= p.r[i][2]
TagMatch(t, tag) == \A i \in 1..4 : PosMatch(t[i], tag[i])
\* no occurrence and occurrence 00 are the same thing for a matcher that
\* names none; a range compares occurrences as strings
OccMatch(o, occ) ==
  CASE o.k = "any" -> TRUE
    [] o.k = "none" -> occ \in {<<>>, <<48, 48>>}
    [] o.k = "exact" -> occ = o.a
    [] o.k = "range" -> occ # <<>> /\ Leq(o.a, occ) /\ Leq(occ, o.b)
FieldSel(t, o, f) == TagMatch(t, f.tag) /\ OccMatch(o, f.occ)
CodeMatch(cs, c) ==
  cs.all \/ \E i \in 1..Len(cs.r) : cs.r[i][1] <= c /\ c <= cs.r[i][2]

(*------------------------------ similarity -------------------------------*)
RECURSIVE LevRow(_, _, _, _, _, _)
\* one row of the edit-distance table: j runs over b, left/diag are running
LevRow(prev, ca, b, j, left, acc) ==
  IF j > Len(b) THEN acc
  ELSE LET diag == prev[j] + (IF ca = b[j] THEN 0 ELSE 1)
           v == MinOf(diag, MinOf(left + 1, prev[j + 1] + 1))
       IN LevRow(prev, ca, b, j + 1, v, Append(acc, v))
Lev(a, b) ==
  LET r == FoldLeft(LAMBDA prev, i : LevRow(prev, a[i], b, 1, i, <<i>>),
                    [j \in 1..(Len(b) + 1) |-> j - 1], [i \in 1..Len(a) |-> i])
  IN r[Len(b) + 1]
\* normalised similarity strictly above th percent
Similar(x, y, th) ==
  LET a == Cps(x)
      b == Cps(y)
      m == MaxOf(Len(a), Len(b))
  IN IF m = 0 THEN TRUE ELSE (m - Lev(a, b)) * 100 > th * m

(*------------------------------ regular expressions ----------------------*)
(* End positions of matches of r in the code points u starting at i.       *)
\* letters that differ in case only: simple folding, one code point to one
CpLow(c) ==
  CASE c < 128 -> IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
    [] c = 181 -> 956
    [] c = 383 -> 115
    [] c = 962 -> 963
    [] OTHER -> LET l == LowerCp(c) IN IF Len(l) = 1 THEN l[1] ELSE c
CpUp(c) == IF c = 305 THEN c ELSE LET l == UpperCp(c) IN IF Len(l) = 1 THEN l[1] ELSE c
Kin(c) ==
  LET l == CpLow(c)
      more == CASE l = 107 -> {8490} [] l = 115 -> {383} [] l = 229 -> {8491} [] l = 969 -> {8486}
                [] l = 223 -> {7838} [] l = 963 -> {962} [] l = 956 -> {181} [] OTHER -> {}
  IN {c, l, CpUp(l)} \cup more
InRange(r, c) == \E k \in 1..Len(r) : r[k][1] <= c /\ c <= r[k][2]
ClsHas(r, c, ci) ==
  InRange(r, c) \/ (ci /\ \E d \in Kin(c) : InRange(r, d))
RECURSIVE Ends(_, _, _, _), CatEnds(_, _, _, _, _), RepEnds(_, _, _, _, _), BetweenEnds(_, _, _, _, _)
Ends(r, u, I, ci) ==
  CASE r.k = "c" -> {i + 1 : i \in {j \in I : j <= Len(u) /\ u[j] >= 0
                        /\ (u[j] = r.c \/ (ci /\ CpLow(u[j]) = CpLow(r.c)))}}
    [] r.k = "any" -> {i + 1 : i \in {j \in I : j <= Len(u) /\ u[j] >= 0 /\ u[j] # 10}}
    [] r.k = "cls" -> {i + 1 : i \in {j \in I : j <= Len(u) /\ u[j] >= 0
                        /\ (ClsHas(r.r, u[j], ci) # r.neg)}}
    [] r.k = "bol" -> {i \in I : i = 1}
    [] r.k = "eol" -> {i \in I : i = Len(u) + 1}
    [] r.k = "cat" -> CatEnds(r.xs, 1, u, I, ci)
    [] r.k = "alt" -> UNION {Ends(r.xs[k], u, I, ci) : k \in 1..Len(r.xs)}
    [] r.k = "opt" -> I \cup Ends(r.x, u, I, ci)
    [] r.k = "star" -> RepEnds(r.x, u, I, I, ci)
    [] r.k = "plus" -> LET E == Ends(r.x, u, I, ci) IN RepEnds(r.x, u, E, E, ci)
    [] r.k = "rep" -> CatEnds([k \in 1..r.n |-> r.x], 1, u, I, ci)
    [] r.k = "between" -> LET E == CatEnds([k \in 1..r.n |-> r.x], 1, u, I, ci) IN BetweenEnds(r.x, r.m - r.n, u, E, ci)
    \* (?i:x) and (?-i:x): letter case counts or not inside, whatever is asked for outside
    [] r.k = "ci" -> Ends(r.x, u, I, r.on)
CatEnds(xs, k, u, I, ci) ==
  IF k > Len(xs) THEN I ELSE CatEnds(xs, k + 1, u, Ends(xs[k], u, I, ci), ci)
RepEnds(x, u, seen, new, ci) ==
  LET more == Ends(x, u, new, ci) \ seen
  IN IF more = {} THEN seen ELSE RepEnds(x, u, seen \cup more, more, ci)
BetweenEnds(x, n, u, E, ci) == IF n = 0 THEN E ELSE E \cup BetweenEnds(x, n - 1, u, Ends(x, u, E, ci), ci)
ReSearch(r, v, ci) ==
  LET u == Map(Units(v), LAMBDA x : x.cp)
  IN Ends(r, u, 1..(Len(u) + 1), ci) # {}

(*------------------------------ boolean structure ------------------------*)
(* toks is a token sequence, vals[i] the value of the atom at i.  && binds *)
(* tighter than ^, which binds tighter than ||; ! applies to what follows. *)
Depth(toks, i, j) == Cardinality({k \in i..j : toks[k].k = "("})
                     - Cardinality({k \in i..j : toks[k].k = ")"})
\* top-level positions of connective op in i..j, in order
Tops(toks, i, j, op) ==
  SelectSeq([k \in 1..(j - i + 1) |-> i + k - 1],
            LAMBDA k : toks[k].k = op /\ Depth(toks, i, k) = 0)
\* the segments of i..j between those positions
Segs(i, j, P) ==
  [k \in 1..(Len(P) + 1) |->
     <<IF k = 1 THEN i ELSE P[k - 1] + 1, IF k = Len(P) + 1 THEN j ELSE P[k] - 1>>]
RECURSIVE EvalOr(_, _, _, _), EvalXor(_, _, _, _), EvalAnd(_, _, _, _), EvalNot(_, _, _, _)
EvalOr(toks, vals, i, j) ==
  LET S == Segs(i, j, Tops(toks, i, j, "or"))
  IN \E k \in 1..Len(S) : EvalXor(toks, vals, S[k][1], S[k][2])
EvalXor(toks, vals, i, j) ==
  LET S == Segs(i, j, Tops(toks, i, j, "xor"))
  IN Cardinality({k \in 1..Len(S) : EvalAnd(toks, vals, S[k][1], S[k][2])}) % 2 = 1
EvalAnd(toks, vals, i, j) ==
  LET S == Segs(i, j, Tops(toks, i, j, "and"))
  IN \A k \in 1..Len(S) : EvalNot(toks, vals, S[k][1], S[k][2])
EvalNot(toks, vals, i, j) ==
  CASE toks[i].k = "not" -> ~EvalNot(toks, vals, i + 1, j)
    [] toks[i].k = "(" -> EvalOr(toks, vals, i + 1, j - 1)
    [] OTHER -> vals[i]
Eval(toks, vals) == IF Len(toks) = 1 THEN vals[1] ELSE EvalOr(toks, vals, 1, Len(toks))

(*------------------------------ subfield atoms ---------------------------*)
Compare(n, op, m) ==
  CASE op = "==" -> n = m
    [] op = "!=" -> n # m
    [] op = ">=" -> n >= m
    [] op = ">" -> n > m
    [] op = "<=" -> n <= m
    [] op = "<" -> n < m
Relation(op, v, w, mo) ==
  LET x == Fold(v, mo.ci)
      y == Fold(w, mo.ci)
  IN CASE op = "==" -> x = y
       [] op = "!=" -> x # y
       [] op = "=^" -> IsPre(y, x)
       [] op = "!^" -> ~IsPre(y, x)
       [] op = "=$" -> IsSuf(y, x)
       [] op = "!$" -> ~IsSuf(y, x)
       [] op = "=*" -> Similar(x, y, mo.th)
\* the value predicate of an atom
ValueOk(a, v, mo) ==
  CASE a.k = "rel" -> Relation(a.op, v, a.v, mo)
    [] a.k = "has" -> \E i \in 1..Len(a.vals) : IsSub(Fold(a.vals[i], mo.ci), Fold(v, mo.ci))
    [] a.k = "in" -> (\E i \in 1..Len(a.vals) : Fold(v, mo.ci) = Fold(a.vals[i], mo.ci)) # a.inv
    [] a.k = "re" -> (\E i \in 1..Len(a.res) : ReSearch(a.res[i], v, mo.ci)) # a.inv
SubAtom(a, f, mo) ==
  LET S == {i \in 1..Len(f.sub) : CodeMatch(a.cs, f.sub[i].c)}
  IN CASE a.k = "ex" -> S # {}
       [] a.k = "card" -> Compare(Cardinality(S), a.op, a.n)
       [] OTHER -> IF a.q = "ALL" THEN \A i \in S : ValueOk(a, f.sub[i].v, mo)
                   ELSE \E i \in S : ValueOk(a, f.sub[i].v, mo)
\* does the field satisfy the subfield-level expression e
SubMatch(e, f, mo) ==
  Eval(e, [i \in 1..Len(e) |-> e[i].k = "atom" /\ SubAtom(e[i].a, f, mo)])

(*------------------------------ field atoms ------------------------------*)
FieldAtom(a, rec, mo) ==
  LET F == {i \in 1..Len(rec) : FieldSel(a.t, a.o, rec[i])}
  IN CASE a.k = "fex" -> F # {}
       [] a.k = "fcard" ->
            Compare(Cardinality({i \in F : ~a.has \/ SubMatch(a.e, rec[i], mo)}), a.op, a.n)
       [] a.k = "sub" -> IF a.q = "ALL" THEN \A i \in F : SubMatch(a.e, rec[i], mo)
                         ELSE \E i \in F : SubMatch(a.e, rec[i], mo)
Matches(e, rec, mo) ==
  Eval(e, [i \in 1..Len(e) |-> e[i].k = "atom" /\ FieldAtom(e[i].a, rec, mo)])

\* --where with its --and/--or/--not: ands and nots narrow, ors widen
Where(w, rec, mo) ==
  LET base == /\ Matches(w.e, rec, mo)
              /\ \A i \in 1..Len(w.and) : Matches(w.and[i], rec, mo)
      wide == base \/ \E i \in 1..Len(w.or) : Matches(w.or[i], rec, mo)
  IN wide /\ \A i \in 1..Len(w.not) : ~Matches(w.not[i], rec, mo)
=============================================================================
