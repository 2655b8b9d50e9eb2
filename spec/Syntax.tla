------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The expression languages: which texts are expressions and what they     *)
(* mean.  A parser takes a text and a position and either fails or gives   *)
(* the next position and the meaning, in the form Matcher and Query read.  *)
(* Alternatives are ordered: the first that applies is taken.              *)
(***************************************************************************)
EXTENDS Query

OK(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
NO == [ok |-> FALSE]
Or(a, b) == IF a.ok THEN a ELSE b
\* go on after r, from the next position and what r gave
And(r, F(_, _)) == IF r.ok THEN F(r.i, r.v) ELSE NO
As(r, F(_)) == IF r.ok THEN OK(r.i, F(r.v)) ELSE NO
If(r, Test(_)) == IF r.ok /\ Test(r.v) THEN r ELSE NO
\* r, or nothing and v at position i
Else(r, i, v) == IF r.ok THEN r ELSE OK(i, v)
Lit(s, i, t) == IF i + Len(t) - 1 <= Len(s) /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]
                THEN OK(i + Len(t), t) ELSE NO
IsIn(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN OK(i + 1, s[i]) ELSE NO
\* from i on as often as possible
Many(s, i, P(_, _)) ==
  LET RECURSIVE Go(_, _)
      Go(j, acc) == LET r == P(s, j) IN IF r.ok THEN Go(r.i, Append(acc, r.v)) ELSE OK(j, acc)
  IN Go(i, <<>>)
Many1(s, i, P(_, _)) == If(Many(s, i, P), LAMBDA v : v # <<>>)
\* at least n, separated; a separator not followed by another is not taken
Sep(s, i, n, P(_, _), D(_, _)) ==
  LET RECURSIVE Go(_, _)
      Go(j, acc) == LET r == And(D(s, j), LAMBDA k, w : P(s, k))
                    IN IF r.ok THEN Go(r.i, Append(acc, r.v)) ELSE OK(j, acc)
  IN If(And(P(s, i), LAMBDA j, v : Go(j, <<v>>)), LAMBDA v : Len(v) >= n)

Blank4 == {9, 10, 13, 32}
RECURSIVE Sp(_, _)
Sp(s, i) == IF i <= Len(s) /\ s[i] \in Blank4 THEN Sp(s, i + 1) ELSE i
Sp1(s, i) == IF Sp(s, i) > i THEN OK(Sp(s, i), <<>>) ELSE NO
Pad(s, r) == IF r.ok THEN OK(Sp(s, r.i), r.v) ELSE NO
Ws(s, i, P(_, _)) == Pad(s, P(s, Sp(s, i)))
WsLit(s, i, t) == Pad(s, Lit(s, Sp(s, i), t))

(*------------------------------ small parts ------------------------------*)
DigitSet == 48..57
UpperSet == 65..90
LowerSet == 97..122
CodeSet == DigitSet \cup UpperSet \cup LowerSet
Code(s, i) == IsIn(s, i, CodeSet)
\* a range of characters of C, or one of them
CharRange(s, i, C) ==
  If(And(IsIn(s, i, C), LAMBDA j, a : And(Lit(s, j, <<45>>), LAMBDA k, w :
       As(IsIn(s, k, C), LAMBDA b : <<a, b>>))), LAMBDA v : v[1] < v[2])
CharOrRange(s, i, C) == Or(CharRange(s, i, C), As(IsIn(s, i, C), LAMBDA c : <<c, c>>))
ClassOf(s, i, C) ==
  And(Lit(s, i, <<91>>), LAMBDA j, w :
  And(Many1(s, j, LAMBDA t, k : CharOrRange(t, k, C)), LAMBDA k, rs :
  As(Lit(s, k, <<93>>), LAMBDA x : rs)))
Some(rs) == [all |-> FALSE, r |-> rs]
AllCodes == [all |-> TRUE, r |-> <<>>]
Star(s, i) == As(Lit(s, i, <<42>>), LAMBDA x : AllCodes)
Codes(s, i) == Or(As(ClassOf(s, i, CodeSet), Some),
               Or(As(Code(s, i), LAMBDA c : Some(<< <<c, c>> >>)), Star(s, i)))
\* after a dollar sign codes stand side by side
Codes2(s, i) == Or(As(Many1(s, i, Code), LAMBDA cs : Some(Map(cs, LAMBDA c : <<c, c>>))), Star(s, i))
Dollar(s, i) == And(WsLit(s, i, <<36>>), LAMBDA j, w : Ws(s, j, Codes2))
WsCodes(s, i) == Ws(s, i, Codes)
CodesOrDollar(s, i) == Or(WsCodes(s, i), Dollar(s, i))

TagFragment(s, i, C) ==
  Or(As(IsIn(s, i, C), LAMBDA c : [k |-> "c", c |-> c]),
  Or(As(Lit(s, i, <<46>>), LAMBDA w : [k |-> "any"]),
     As(ClassOf(s, i, C), LAMBDA rs : [k |-> "cls", r |-> rs])))
Tag(s, i) ==
  And(TagFragment(s, i, {48, 49, 50}), LAMBDA j, a :
  And(TagFragment(s, j, DigitSet), LAMBDA k, b :
  And(TagFragment(s, k, DigitSet), LAMBDA l, c :
   As(TagFragment(s, l, UpperSet \cup {64}), LAMBDA d : <<a, b, c, d>>))))

Digit(s, i) == IsIn(s, i, DigitSet)
\* two digits, three where there are three
OccDigits(s, i) ==
  And(Digit(s, i), LAMBDA j, a : And(Digit(s, j), LAMBDA k, b :
    Or(As(Digit(s, k), LAMBDA c : <<a, b, c>>), OK(k, <<a, b>>))))
OccRange(s, i) ==
  If(And(OccDigits(s, i), LAMBDA j, a : And(Lit(s, j, <<45>>), LAMBDA k, w :
       As(OccDigits(s, k), LAMBDA b : [k |-> "range", a |-> a, b |-> b]))),
     LAMBDA v : Len(v.a) = Len(v.b) /\ Less(v.a, v.b))
Occ(s, i) ==
  Else(And(Lit(s, i, <<47>>), LAMBDA j, w :
         Or(OccRange(s, j),
         Or(As(If(OccDigits(s, j), LAMBDA v : v # <<48, 48>>), LAMBDA v : [k |-> "exact", a |-> v]),
         Or(As(Lit(s, j, <<48, 48>>), LAMBDA x : [k |-> "none"]),
            As(Lit(s, j, <<42>>), LAMBDA x : [k |-> "any"]))))),
       i, [k |-> "none"])

Huge == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
RECURSIVE Stripped(_)
Stripped(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Stripped(Tail(d)) ELSE d
\* a decimal number below 2^64; the big ones are all the same here
Number(s, i) ==
  As(If(As(Many1(s, i, Digit), Stripped), LAMBDA d : Len(d) < 20 \/ (Len(d) = 20 /\ Leq(d, Huge))),
     LAMBDA d : IF Len(d) <= 9 THEN Num(d) ELSE 1000000000)

(*------------------------------ strings ----------------------------------*)
Escape(c, q) == CASE c = 110 -> <<10>>
                  [] c = 114 -> <<13>>
                  [] c = 116 -> <<9>>
                  [] c = 98 -> <<8>>
                  [] c = 102 -> <<12>>
                  [] c \in {92, 47, q} -> <<c>>
                  [] OTHER -> <<>>
RECURSIVE StrBody(_, _, _, _)
StrBody(s, i, q, acc) ==
  IF i > Len(s) THEN NO
  ELSE IF s[i] = q THEN OK(i + 1, acc)
  ELSE IF s[i] # 92 THEN StrBody(s, i + 1, q, Append(acc, s[i]))
  ELSE IF i = Len(s) THEN NO
  ELSE IF Escape(s[i + 1], q) # <<>> THEN StrBody(s, i + 2, q, acc \o Escape(s[i + 1], q))
  ELSE IF s[i + 1] \in Blank4 THEN StrBody(s, Sp(s, i + 1), q, acc)
  ELSE NO
Str(s, i) == And(IsIn(s, i, {39, 34}), LAMBDA j, q : StrBody(s, j, q, <<>>))
WsStr(s, i) == Ws(s, i, Str)
Comma(s, i) == WsLit(s, i, <<44>>)
\* '[' strings ']', with a trailing comma if one likes
StrList(s, i) ==
  And(WsLit(s, i, <<91>>), LAMBDA j, w :
  And(Sep(s, j, 1, Str, Comma), LAMBDA k, vs :
   As(WsLit(s, Else(Comma(s, k), k, <<>>).i, <<93>>), LAMBDA x : vs)))

(*------------------------------ regular expressions ----------------------*)
(* The part of the syntax whose meaning is given in Matcher.  Texts that   *)
(* use more of it have no meaning here: "unk".                             *)
Unk == [k |-> "unk"]
Plain == CodeSet \cup {32, 33, 34, 37, 39, 44, 45, 47, 58, 59, 60, 61, 62, 64, 95}
\* the inside of a class: an optional ^, characters and ranges
KnownClass(u, a, b) ==
  LET c == IF u[a] = 94 THEN a + 1 ELSE a
      mark(k) == u[k] = 45
  IN /\ c <= b
     /\ ~mark(c)
     /\ ~mark(b)
     /\ \A k \in c..b : u[k] \in CodeSet \/ mark(k)
     /\ \A k \in c..b : mark(k) => ~mark(k + 1) /\ (k + 2 <= b => ~mark(k + 2))
Known(u) ==
  \A i \in 1..Len(u) :
    CASE u[i] \in Plain \cup {46, 42, 43, 41, 124, 94, 36} -> TRUE
      [] u[i] = 40 -> (~(i < Len(u) /\ u[i + 1] = 63)) \/ (i + 2 <= Len(u) /\ u[i + 2] = 58)
      [] u[i] = 63 -> TRUE
      [] u[i] = 123 -> i + 2 <= Len(u) /\ IsDigit(u[i + 1]) /\ u[i + 2] = 125
      [] u[i] = 125 -> i > 2 /\ u[i - 2] = 123
      [] u[i] = 91 -> \E j \in (i + 2)..Len(u) : u[j] = 93 /\ KnownClass(u, i + 1, j - 1)
      [] u[i] = 93 -> \E j \in 1..(i - 1) : u[j] = 91 /\ \A k \in (j + 1)..(i - 1) : u[k] # 93
      [] OTHER -> FALSE
RECURSIVE ReAlt(_, _), ReQuant(_, _, _)
ReClass(u, i) ==
  LET neg == i <= Len(u) /\ u[i] = 94
      item(s, j) == Or(If(And(IsIn(s, j, CodeSet), LAMBDA k, a : And(Lit(s, k, <<45>>), LAMBDA l, w :
                            As(IsIn(s, l, CodeSet), LAMBDA b : <<a, b>>))), LAMBDA v : v[1] <= v[2]),
                       And(IsIn(s, j, CodeSet), LAMBDA k, a : IF Lit(s, k, <<45>>).ok THEN NO ELSE OK(k, <<a, a>>)))
  IN And(Many1(u, IF neg THEN i + 1 ELSE i, item), LAMBDA j, rs :
      As(Lit(u, j, <<93>>), LAMBDA w : [k |-> "cls", neg |-> neg, r |-> rs]))
ReAtom(u, i) ==
  IF i > Len(u) THEN NO
  ELSE CASE u[i] = 40 -> And(ReAlt(u, IF i < Len(u) /\ u[i + 1] = 63 THEN i + 3 ELSE i + 1), LAMBDA j, r :
                              As(Lit(u, j, <<41>>), LAMBDA w : r))
         [] u[i] = 46 -> OK(i + 1, [k |-> "any"])
         [] u[i] = 94 -> OK(i + 1, [k |-> "bol"])
         [] u[i] = 36 -> OK(i + 1, [k |-> "eol"])
         [] u[i] = 91 -> ReClass(u, i + 1)
         [] u[i] \in {41, 124, 42, 43, 63, 123, 125} -> NO
         [] OTHER -> OK(i + 1, [k |-> "c", c |-> u[i]])
\* repetitions after an atom; one that wants little matches the same texts
ReQuant(u, i, r) ==
  IF i > Len(u) THEN OK(i, r)
  ELSE LET lazy(j) == IF j <= Len(u) /\ u[j] = 63 THEN j + 1 ELSE j
       IN CASE u[i] = 42 -> ReQuant(u, lazy(i + 1), [k |-> "star", x |-> r])
            [] u[i] = 43 -> ReQuant(u, lazy(i + 1), [k |-> "plus", x |-> r])
            [] u[i] = 63 -> ReQuant(u, lazy(i + 1), [k |-> "opt", x |-> r])
            [] u[i] = 123 -> ReQuant(u, lazy(i + 3), [k |-> "rep", x |-> r, n |-> u[i + 1] - 48])
            [] OTHER -> OK(i, r)
ReOne(u, i) == And(ReAtom(u, i), LAMBDA j, r : ReQuant(u, j, r))
ReCat(u, i) == As(Many(u, i, ReOne), LAMBDA xs : [k |-> "cat", xs |-> xs])
ReBar(u, i) == Lit(u, i, <<124>>)
ReAlt(u, i) == As(Sep(u, i, 1, ReCat, ReBar), LAMBDA xs : IF Len(xs) = 1 THEN xs[1] ELSE [k |-> "alt", xs |-> xs])
\* the expression v stands for; "no" if it is none
Regex(v) == LET u == Cps(v)
            IN IF ~Known(u) THEN Unk
               ELSE LET r == ReAlt(u, 1) IN IF r.ok /\ r.i = Len(u) + 1 THEN r.v ELSE [k |-> "no"]
Regexes(vs) == Map(vs, Regex)
Compiles(rs) == \A k \in 1..Len(rs) : rs[k].k # "no"

(*------------------------------ subfield expressions ---------------------*)
QuantAll == <<65, 76, 76>>
QuantAny == <<65, 78, 89>>
Quant(s, i) == Or(As(Lit(s, i, QuantAll), LAMBDA w : "ALL"), As(Lit(s, i, QuantAny), LAMBDA w : "ANY"))
QuantSp(s, i) == And(Quant(s, i), LAMBDA j, q : As(Sp1(s, j), LAMBDA w : q))
OptQuant(s, i) == Else(Ws(s, i, Quant), i, "ANY")
OptQuantSp(s, i) == Else(Ws(s, i, QuantSp), i, "ANY")
Op(s, i, t, name) == As(Lit(s, i, t), LAMBDA w : name)
StrOp(s, i) == Or(Op(s, i, <<61, 61>>, "=="), Or(Op(s, i, <<33, 61>>, "!="), Or(Op(s, i, <<61, 94>>, "=^"),
               Or(Op(s, i, <<33, 94>>, "!^"), Or(Op(s, i, <<61, 36>>, "=$"), Or(Op(s, i, <<33, 36>>, "!$"),
                  Op(s, i, <<61, 42>>, "=*")))))))
NumOp(s, i) == Or(Op(s, i, <<61, 61>>, "=="), Or(Op(s, i, <<33, 61>>, "!="), Or(Op(s, i, <<62, 61>>, ">="),
               Or(Op(s, i, <<62>>, ">"), Or(Op(s, i, <<60, 61>>, "<="), Op(s, i, <<60>>, "<"))))))
ReOp(s, i) == Or(As(Lit(s, i, <<61, 126>>), LAMBDA w : FALSE), As(Lit(s, i, <<33, 126>>), LAMBDA w : TRUE))

AtomRel(s, i) ==
  And(OptQuantSp(s, i), LAMBDA j, q : And(CodesOrDollar(s, j), LAMBDA k, cs :
  And(Ws(s, k, StrOp), LAMBDA l, op :
   As(WsStr(s, l), LAMBDA v : [k |-> "rel", q |-> q, cs |-> cs, op |-> op, v |-> v]))))
AtomHas(s, i) ==
  And(OptQuant(s, i), LAMBDA j, q : And(CodesOrDollar(s, j), LAMBDA k, cs :
  And(WsLit(s, k, <<61, 63>>), LAMBDA l, w :
   As(Or(StrList(s, l), As(WsStr(s, l), LAMBDA v : <<v>>)),
      LAMBDA vs : [k |-> "has", q |-> q, cs |-> cs, vals |-> vs]))))
Chars(v) == Map(Units(v), LAMBDA u : SubSeq(v, u.p, u.p + u.n - 1))
AtomIn(s, i) ==
  And(OptQuant(s, i), LAMBDA j, q : And(WsCodes(s, j), LAMBDA k, cs :
  LET n == WsLit(s, k, <<110, 111, 116>>)
  IN And(WsLit(s, Else(n, k, <<>>).i, <<105, 110>>), LAMBDA l, w :
      As(Or(StrList(s, l), If(As(Str(s, l), Chars), LAMBDA vs : Len(vs) > 1)),
         LAMBDA vs : [k |-> "in", q |-> q, cs |-> cs, inv |-> n.ok, vals |-> vs]))))
AtomEx(s, i) == And(Codes(s, i), LAMBDA j, cs : As(Lit(s, j, <<63>>), LAMBDA w : [k |-> "ex", cs |-> cs]))
AtomCard(s, i) ==
  And(WsLit(s, i, <<35>>), LAMBDA j, w : And(WsCodes(s, j), LAMBDA k, cs :
  And(Ws(s, k, NumOp), LAMBDA l, op :
   As(Number(s, l), LAMBDA n : [k |-> "card", cs |-> cs, op |-> op, n |-> n]))))
AtomRe(s, i) ==
  And(OptQuant(s, i), LAMBDA j, q : And(WsCodes(s, j), LAMBDA k, cs :
  And(Ws(s, k, ReOp), LAMBDA l, inv :
   As(If(As(Or(StrList(s, l), As(Str(s, l), LAMBDA v : <<v>>)), Regexes), Compiles),
      LAMBDA rs : [k |-> "re", q |-> q, cs |-> cs, inv |-> inv, res |-> rs]))))
Atom(a) == << [k |-> "atom", a |-> a] >>
SubOne(s, i) == As(Or(AtomRel(s, i), Or(AtomHas(s, i), Or(AtomIn(s, i), Or(AtomEx(s, i),
                   Or(AtomCard(s, i), AtomRe(s, i)))))), Atom)

\* one level deeper; groups and negations are nested less than 256 deep
TOpen == <<[k |-> "("]>>
TClose == <<[k |-> ")"]>>
TNot == <<[k |-> "not"]>>
MaxDepth == 255
Chain(parts, op) == FlatMap([i \in 1..Len(parts) |-> i],
                            LAMBDA i : IF i = 1 THEN parts[1] ELSE <<[k |-> op]>> \o parts[i])
AndOp(s, i) == Lit(s, i, <<38, 38>>)
OrOp(s, i) == Lit(s, i, <<124, 124>>)
XorOp(s, i) == Or(Lit(s, i, <<94>>), Lit(s, i, <<88, 79, 82>>))
RECURSIVE SubOr(_, _, _), SubNot(_, _, _)
SubGroup(s, i, d) ==
  IF d >= MaxDepth THEN NO
  ELSE And(WsLit(s, i, <<40>>), LAMBDA j, w : And(SubOr(s, j, d + 1), LAMBDA k, e :
        As(WsLit(s, k, <<41>>), LAMBDA x : TOpen \o e \o TClose)))
SubNot(s, i, d) ==
  IF d >= MaxDepth THEN NO
  ELSE And(WsLit(s, i, <<33>>), LAMBDA j, w :
        As(Or(SubGroup(s, j, d + 1), Or(As(AtomEx(s, j), Atom), SubNot(s, j, d + 1))), LAMBDA e : TNot \o e))
SubAtomAt(s, i, d) == Ws(s, i, LAMBDA t, j : Or(SubGroup(t, j, d), Or(SubOne(t, j), SubNot(t, j, d))))
SubAnd(s, i, d) == As(Sep(s, i, 1, LAMBDA t, j : SubAtomAt(t, j, d), AndOp), LAMBDA v : Chain(v, "and"))
SubXor(s, i, d) == As(Sep(s, i, 1, LAMBDA t, j : SubAnd(t, j, d), XorOp), LAMBDA v : Chain(v, "xor"))
SubOr(s, i, d) == As(Sep(s, i, 1, LAMBDA t, j : SubXor(t, j, d), OrOp), LAMBDA v : Chain(v, "or"))
SubExpr(s, i) == SubOr(s, i, 0)

(*------------------------------ filters ----------------------------------*)
TagOcc(s, i) == And(Tag(s, i), LAMBDA j, t : As(Occ(s, j), LAMBDA o : <<t, o>>))
Braces(s, i) == And(WsLit(s, i, <<123>>), LAMBDA j, w : And(SubExpr(s, j), LAMBDA k, e :
                 As(WsLit(s, k, <<125>>), LAMBDA x : e)))
FieldEx(s, i) == And(Ws(s, i, TagOcc), LAMBDA j, v :
                  As(Lit(s, j, <<63>>), LAMBDA w : [k |-> "fex", t |-> v[1], o |-> v[2]]))
\* quantified field and a subfield expression behind it
FieldSub(s, i, Q(_, _), E(_, _)) ==
  And(Q(s, i), LAMBDA j, q : And(TagOcc(s, j), LAMBDA k, v :
   As(E(s, k), LAMBDA e : [k |-> "sub", q |-> q, t |-> v[1], o |-> v[2], e |-> e])))
Dotted(s, i) == And(Lit(s, i, <<46>>), LAMBDA j, w : SubOne(s, j))
Dollared(s, i) == And(Lit(s, i, <<36>>), LAMBDA j, w : SubOne(s, j))
FieldBraces(s, i) == FieldSub(s, i, OptQuant, Braces)
FieldCard(s, i) ==
  And(WsLit(s, i, <<35>>), LAMBDA j, w : And(Ws(s, j, Tag), LAMBDA k, t : And(Ws(s, k, Occ), LAMBDA l, o :
  LET b == Braces(s, l)
  IN And(Ws(s, Else(b, l, <<>>).i, NumOp), LAMBDA m, op :
      As(Number(s, m), LAMBDA n : [k |-> "fcard", t |-> t, o |-> o, has |-> b.ok,
                                   e |-> IF b.ok THEN b.v ELSE <<>>, op |-> op, n |-> n])))))
FieldOne(s, i) == Or(FieldEx(s, i), Or(FieldSub(s, i, OptQuant, Dotted),
                  Or(FieldBraces(s, i), FieldSub(s, i, OptQuant, Dollared))))
SubEx(s, i) == As(Or(And(WsLit(s, i, <<46>>), LAMBDA j, w : AtomEx(s, j)),
                     And(WsLit(s, i, <<36>>), LAMBDA j, w : AtomEx(s, j))), Atom)
FieldExists(s, i) == Or(FieldEx(s, i), FieldSub(s, i, OptQuant, SubEx))

WsAnd(s, i) == Ws(s, i, AndOp)
WsOr(s, i) == Ws(s, i, OrOp)
WsXor(s, i) == Ws(s, i, XorOp)
RECURSIVE FieldOr(_, _, _), FieldNot(_, _, _)
FieldGroup(s, i, d) ==
  IF d >= MaxDepth THEN NO
  ELSE And(WsLit(s, i, <<40>>), LAMBDA j, w : And(FieldOr(s, j, d + 1), LAMBDA k, e :
        As(WsLit(s, k, <<41>>), LAMBDA x : TOpen \o e \o TClose)))
FieldNot(s, i, d) ==
  IF d >= MaxDepth THEN NO
  ELSE And(WsLit(s, i, <<33>>), LAMBDA j, w :
        As(Or(FieldGroup(s, j, d + 1), Or(As(FieldBraces(s, j), Atom), Or(As(FieldExists(s, j), Atom), FieldNot(s, j, d + 1)))),
           LAMBDA e : TNot \o e))
FieldAtomAt(s, i, d) ==
  Ws(s, i, LAMBDA t, j :
    Or(FieldGroup(t, j, d), Or(As(FieldCard(t, j), Atom), Or(As(FieldOne(t, j), Atom),
    Or(FieldNot(t, j, d), As(FieldExists(t, j), Atom))))))
FieldAnd(s, i, d) == As(Sep(s, i, 1, LAMBDA t, j : FieldAtomAt(t, j, d), WsAnd), LAMBDA v : Chain(v, "and"))
FieldXor(s, i, d) == As(Sep(s, i, 1, LAMBDA t, j : FieldAnd(t, j, d), WsXor), LAMBDA v : Chain(v, "xor"))
FieldOr(s, i, d) == As(Sep(s, i, 1, LAMBDA t, j : FieldXor(t, j, d), WsOr), LAMBDA v : Chain(v, "or"))
Filter(s, i) == Ws(s, i, LAMBDA t, j : FieldOr(t, j, 0))

(*------------------------------ paths ------------------------------------*)
PathDot(s, i) == And(Lit(s, i, <<46>>), LAMBDA j, w : Codes(s, j))
PathSimple(s, i) ==
  Ws(s, i, LAMBDA t, j : And(TagOcc(t, j), LAMBDA k, v :
    As(Or(PathDot(t, k), Dollar(t, k)),
       LAMBDA cs : [t |-> v[1], o |-> v[2], codes |-> <<cs>>, has |-> FALSE, m |-> <<>>])))
PathCodes(s, i) == Or(Codes(s, i), Dollar(s, i))
CodesList(s, i) == Sep(s, i, 1, PathCodes, Comma)
CodesGroup(s, i) == And(WsLit(s, i, <<40>>), LAMBDA j, w : And(CodesList(s, j), LAMBDA k, cs :
                     As(WsLit(s, k, <<41>>), LAMBDA x : cs)))
\* '|' and a subfield expression, or nothing
Such(s, i) == Else(And(WsLit(s, i, <<124>>), LAMBDA j, w : As(SubExpr(s, j), LAMBDA e : [has |-> TRUE, e |-> e])),
                   i, [has |-> FALSE, e |-> <<>>])
PathCurly(s, i) ==
  Ws(s, i, LAMBDA t, j : And(TagOcc(t, j), LAMBDA k, v : And(WsLit(t, k, <<123>>), LAMBDA l, w :
    And(Or(CodesList(t, l), CodesGroup(t, l)), LAMBDA m, cs : And(Such(t, m), LAMBDA n, x :
     As(WsLit(t, n, <<125>>),
        LAMBDA y : [t |-> v[1], o |-> v[2], codes |-> cs, has |-> x.has, m |-> x.e]))))))
PathExpr(s, i) == Or(PathSimple(s, i), PathCurly(s, i))

(*------------------------------ formats ----------------------------------*)
ModName(c) == CASE c = 108 -> "l" [] c = 117 -> "u" [] c = 116 -> "t" [] c = 119 -> "w" [] OTHER -> "o"
Mods(s, i) ==
  Else(And(Lit(s, i, <<63>>), LAMBDA j, w :
         Many1(s, j, LAMBDA t, k : As(IsIn(t, k, {108, 117, 116, 119, 111}), ModName))), i, <<>>)
Bounds(s, i, none) ==
  Or(And(Lit(s, i, <<46, 46>>), LAMBDA j, w : Number(s, j)),
  Or(As(Lit(s, i, <<46, 46>>), LAMBDA w : -1), OK(i, none)))
FmtVal(s, i) ==
  And(Ws(s, i, Mods), LAMBDA j, mod :
  LET p == Else(WsStr(s, j), j, <<>>)
  IN And(Codes(s, p.i), LAMBDA k, cs : And(Bounds(s, k, 1), LAMBDA l, n :
     LET q == Else(WsStr(s, l), l, <<>>)
     IN OK(q.i, [k |-> "val", mod |-> mod, pre |-> p.v, cs |-> cs, n |-> n, suf |-> q.v]))))
ThenOp(s, i) == WsLit(s, i, <<60, 36, 62>>)
ConsOp(s, i) == WsLit(s, i, <<60, 42, 62>>)
MaxGroups == 31
RECURSIVE FmtGroup(_, _, _)
FmtThen(s, i, d) ==
  As(Sep(s, i, 2, LAMBDA t, j : Or(FmtGroup(t, j, d), FmtVal(t, j)), ThenOp), LAMBDA xs : [k |-> "then", xs |-> xs])
FmtCons(s, i, d) ==
  As(Sep(s, i, 2, LAMBDA t, j : Or(FmtThen(t, j, d), Or(FmtGroup(t, j, d), FmtVal(t, j))), ConsOp),
     LAMBDA xs : [k |-> "cons", xs |-> xs])
FmtList(s, i, d) == Or(FmtCons(s, i, d), FmtThen(s, i, d))
FmtGroup(s, i, d) ==
  IF d >= MaxGroups THEN NO
  ELSE And(WsLit(s, i, <<40>>), LAMBDA j, w : And(Mods(s, j), LAMBDA k, mod :
       And(Or(Ws(s, k, LAMBDA t, l : FmtList(t, l, d + 1)), Ws(s, k, FmtVal)), LAMBDA l, x :
       And(WsLit(s, l, <<41>>), LAMBDA m, y :
        As(Bounds(s, m, -1), LAMBDA n : [k |-> "grp", mod |-> mod, x |-> x])))))
FmtFrags(s, i) ==
  Or(Ws(s, i, LAMBDA t, j : FmtList(t, j, 0)),
  Or(Ws(s, i, LAMBDA t, j : FmtGroup(t, j, 0)), Ws(s, i, FmtVal)))
FormatExpr(s, i) ==
  And(TagOcc(s, i), LAMBDA j, v : And(WsLit(s, j, <<123>>), LAMBDA k, w :
  And(FmtFrags(s, k), LAMBDA l, x : And(Such(s, l), LAMBDA m, y :
   As(WsLit(s, m, <<125>>), LAMBDA z : [t |-> v[1], o |-> v[2], x |-> x, has |-> y.has, m |-> y.e])))))

(*------------------------------ queries ----------------------------------*)
QueryPart(s, i) ==
  Or(As(PathExpr(s, i), LAMBDA p : [k |-> "path", p |-> p]),
  Or(As(Str(s, i), LAMBDA v : [k |-> "lit", v |-> v]),
     As(FormatExpr(s, i), LAMBDA f : [k |-> "fmt", f |-> f])))
QueryExpr(s, i) == Sep(s, i, 1, QueryPart, Comma)

(*------------------------------ whole texts ------------------------------*)
\* a list of fields: tags with or without an occurrence, between commas
LastSlash(t) == LET P == {k \in 1..Len(t) : t[k] = 47} IN IF P = {} THEN 0 ELSE CHOOSE k \in P : \A j \in P : j <= k
WholeOf(r, s) == IF r.ok /\ r.i = Len(s) + 1 THEN r ELSE NO
FieldItem(t) ==
  LET k == LastSlash(t)
      tag(x) == WholeOf(Tag(x, 1), x)
      occ(x) == WholeOf(Occ(x, 1), x)
  IN IF k = 0 THEN As(tag(t), LAMBDA a : <<a, [k |-> "none"]>>)
     ELSE And(tag(SubSeq(t, 1, k - 1)), LAMBDA i, a : As(occ(Drop(t, k - 1)), LAMBDA o : <<a, o>>))
FieldList(s) ==
  LET items == SelectSeq(Map(Split(s, 44), Trim), LAMBDA t : t # <<>>)
      rs == Map(items, FieldItem)
  IN IF \A k \in 1..Len(rs) : rs[k].ok THEN OK(Len(s) + 1, Map(rs, LAMBDA r : r.v)) ELSE NO

Kinds == {"filter", "field", "sub", "path", "format", "query", "tag", "occ", "list"}
Parse(kind, s) ==
  LET r == CASE kind \in {"filter", "field"} -> Filter(s, 1)
             [] kind = "sub" -> SubExpr(s, 1)
             [] kind = "path" -> PathExpr(s, 1)
             [] kind = "format" -> FormatExpr(s, 1)
             [] kind = "query" -> QueryExpr(s, 1)
             [] kind = "tag" -> Tag(s, 1)
             [] kind = "occ" -> Occ(s, 1)
             [] kind = "list" -> FieldList(s)
  IN IF r.ok /\ r.i = Len(s) + 1 THEN r ELSE NO

\* a regular expression without a meaning here occurs in it
RECURSIVE ToksUnk(_)
ToksUnk(e) == \E i \in 1..Len(e) : e[i].k = "atom" /\
  CASE e[i].a.k = "re" -> \E k \in 1..Len(e[i].a.res) : e[i].a.res[k].k = "unk"
    [] e[i].a.k \in {"sub", "fcard"} -> ToksUnk(e[i].a.e)
    [] OTHER -> FALSE
IsUnk(kind, v) ==
  CASE kind \in {"filter", "field", "sub"} -> ToksUnk(v)
    [] kind \in {"path", "format"} -> ToksUnk(v.m)
    [] kind = "query" -> \E k \in 1..Len(v) : \/ v[k].k = "path" /\ ToksUnk(v[k].p.m)
                                              \/ v[k].k = "fmt" /\ ToksUnk(v[k].f.m)
    [] OTHER -> FALSE

\* what an expression makes of a record
Denote(kind, v, rec, qo) ==
  CASE kind \in {"filter", "field"} -> Matches(v, rec, qo)
    [] kind = "sub" -> Map(rec, LAMBDA f : SubMatch(v, f, qo))
    [] kind = "path" -> PathValues(v, rec, qo)
    [] kind = "format" -> Format(v, rec, qo)
    [] kind = "query" -> QueryRows(v, rec, qo)
    [] kind = "tag" -> Map(rec, LAMBDA f : TagMatch(v, f.tag))
    [] kind = "occ" -> Map(rec, LAMBDA f : OccMatch(v, f.occ))
=============================================================================
