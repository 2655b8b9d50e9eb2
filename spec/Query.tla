-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* Paths, format strings and queries: the values, strings and tables that  *)
(* are projected out of a record.                                          *)
(***************************************************************************)
EXTENDS Matcher

\* fields a path/format looks at
Sel(p, rec, mo) == SelectSeq(rec, LAMBDA f : /\ FieldSel(p.t, p.o, f)
                                             /\ p.has => SubMatch(p.m, f, mo))
InCodes(css, c) == \E k \in 1..Len(css) : CodeMatch(css[k], c)

\* all values a path denotes, in record order
PathValues(p, rec, mo) ==
  FlatMap(Sel(p, rec, mo), LAMBDA f :
    Map(SelectSeq(f.sub, LAMBDA s : InCodes(p.codes, s.c)), LAMBDA s : s.v))

PathOf(a, b, c, d, code) ==
  [t |-> <<[k |-> "c", c |-> a], [k |-> "c", c |-> b], [k |-> "c", c |-> c], [k |-> "c", c |-> d]>>,
   o |-> [k |-> "none"], codes |-> <<[all |-> FALSE, r |-> <<<<code, code>>>>]>>,
   has |-> FALSE, m |-> <<>>]
PpnPath == PathOf(48, 48, 51, 64, 48)    \* 003@.0
DefOpts == [ci |-> FALSE, th |-> 80]
Ppns(rec) == PathValues(PpnPath, rec, DefOpts)
HasPpn(rec) == Ppns(rec) # <<>>
Ppn(rec) == Ppns(rec)[1]

(*------------------------------ formats ----------------------------------*)
StripAt(v) == LET P == {i \in 1..Len(v) : v[i] = 64}
              IN IF P = {} THEN v
                 ELSE LET k == CHOOSE i \in P : \A j \in P : i <= j
                      IN SubSeq(v, 1, k - 1) \o SubSeq(v, k + 1, Len(v))
\* modifiers: o strip first @, t trim, w remove blanks, l lower, u upper,
\* always applied in this order
Modify(mod, v) ==
  LET v1 == IF Has(mod, "o") THEN StripAt(v) ELSE v
      v2 == IF Has(mod, "t") THEN Trim(v1) ELSE v1
      v3 == IF Has(mod, "w") THEN SelectSeq(v2, LAMBDA b : b # SP) ELSE v2
      v4 == IF Has(mod, "l") THEN Lower(v3) ELSE v3
  IN IF Has(mod, "u") THEN Upper(v4) ELSE v4
RECURSIVE FmtFrag(_, _), AndThen(_, _, _)
FmtFrag(x, f) ==
  CASE x.k = "val" ->
         LET S == SelectSeq(f.sub, LAMBDA s : CodeMatch(x.cs, s.c))
             B == IF x.n < 0 THEN S ELSE Take(S, x.n)
         IN Modify(x.mod, FlatMap(B, LAMBDA s : x.pre \o s.v \o x.suf))
    [] x.k = "grp" -> Modify(x.mod, FmtFrag(x.x, f))
    [] x.k = "cons" -> Flat(Map(x.xs, LAMBDA y : FmtFrag(y, f)))
    [] x.k = "then" -> AndThen(x.xs, 1, f)
\* stops at the first part that renders to nothing
AndThen(xs, k, f) ==
  IF k > Len(xs) THEN <<>>
  ELSE LET v == FmtFrag(xs[k], f)
       IN IF v = <<>> THEN <<>> ELSE v \o AndThen(xs, k + 1, f)
\* one string per selected field that renders to something
Format(fmt, rec, mo) ==
  SelectSeq(Map(Sel(fmt, rec, mo), LAMBDA f : FmtFrag(fmt.x, f)), LAMBDA v : v # <<>>)

(*------------------------------ queries ----------------------------------*)
\* cartesian product of two tables; the left one varies slowest
Product(A, B) ==
  IF A = <<>> THEN B ELSE IF B = <<>> THEN A
  ELSE FlatMap(A, LAMBDA x : Map(B, LAMBDA y : x \o y))
ProductAll(ts) == FoldLeft(LAMBDA acc, t : Product(acc, t), <<>>, ts)
Blank(n) == [i \in 1..n |-> <<>>]
\* the values of one code group of one field: a one-column table
Group(cs, f, qo) ==
  LET vs == Map(SelectSeq(f.sub, LAMBDA s : CodeMatch(cs, s.c)), LAMBDA s : s.v)
  IN IF vs = <<>> THEN << << <<>> >> >>
     ELSE IF qo.squash THEN << << Join(vs, qo.sep) >> >>
     ELSE Map(vs, LAMBDA v : <<v>>)
FragTable(q, rec, qo) ==
  CASE q.k = "lit" -> << <<q.v>> >>
    [] q.k = "fmt" -> LET vs == Format(q.f, rec, qo)
                      IN IF vs = <<>> THEN << << <<>> >> >> ELSE Map(vs, LAMBDA v : <<v>>)
    [] q.k = "path" ->
         LET rows == FlatMap(Sel(q.p, rec, qo), LAMBDA f :
                       ProductAll(Map(q.p.codes, LAMBDA cs : Group(cs, f, qo))))
         IN IF rows = <<>> THEN <<Blank(Len(q.p.codes))>> ELSE rows
\* --merge joins the rows of a fragment column by column
MergeRows(t, sep) ==
  << [i \in 1..Len(t[1]) |-> Join(Map(t, LAMBDA row : row[i]), sep)] >>
QueryRows(q, rec, qo) ==
  ProductAll(Map(q, LAMBDA x : LET t == FragTable(x, rec, qo)
                               IN IF qo.merge THEN MergeRows(t, qo.sep) ELSE t))
=============================================================================
