------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences of integers 0..255.  This module holds the   *)
(* string vocabulary the rest of the specification is written in: search,  *)
(* order, UTF-8, letter case, decimal numbers and CSV/TSV cells.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NL == 10
US == 31   \* starts a subfield
RS == 30   \* ends a field
SP == 32

Map(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
RECURSIVE FlatIn(_, _, _)
FlatIn(ss, i, j) ==
  IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
  ELSE LET m == (i + j) \div 2 IN FlatIn(ss, i, m) \o FlatIn(ss, m + 1, j)
Flat(ss) == FlatIn(ss, 1, Len(ss))
FlatMap(s, Op(_)) == Flat(Map(s, Op))
Keep(s, Test(_)) == SelectSeq(s, Test)
AnyOf(s, Test(_)) == \E i \in 1..Len(s) : Test(s[i])
AllOf(s, Test(_)) == \A i \in 1..Len(s) : Test(s[i])
Count(s, Test(_)) == Cardinality({i \in 1..Len(s) : Test(s[i])})
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Range1(s) == {s[i] : i \in 1..Len(s)}
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Take(s, n) == SubSeq(s, 1, MinOf(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* first occurrences only
Dedup(s) == FoldLeft(LAMBDA acc, x : IF Has(acc, x) THEN acc ELSE Append(acc, x), <<>>, s)

IsPre(p, s) == /\ Len(p) <= Len(s)
               /\ \A k \in 1..Len(p) : s[k] = p[k]
IsSuf(p, s) == /\ Len(p) <= Len(s)
               /\ \A k \in 1..Len(p) : s[Len(s) - Len(p) + k] = p[k]
IsSub(p, s) == \E o \in 0..(Len(s) - Len(p)) : \A k \in 1..Len(p) : s[o + k] = p[k]

\* lexicographic order on bytes; -1, 0, 1
Cmp(a, b) ==
  LET n == MinOf(Len(a), Len(b))
      D == {k \in 1..n : a[k] # b[k]}
  IN IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) = Len(b) THEN 0 ELSE 1)
     ELSE LET k == CHOOSE k \in D : \A j \in D : k <= j
          IN IF a[k] < b[k] THEN -1 ELSE 1
Less(a, b) == Cmp(a, b) = -1
Leq(a, b) == Cmp(a, b) # 1

\* split at every occurrence of the byte c; n separators give n + 1 parts
Split(s, c) ==
  LET P == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)
      n == Len(P)
  IN TLCEval([k \in 1..(n + 1) |->
       SubSeq(s, IF k = 1 THEN 1 ELSE P[k - 1] + 1,
                 IF k = n + 1 THEN Len(s) ELSE P[k] - 1)])

Join(ss, sep) ==
  FlatMap([i \in 1..Len(ss) |-> i], LAMBDA i : IF i = 1 THEN ss[1] ELSE sep \o ss[i])

\* index of the first occurrence of p in s at or after position i, 0 if none
Find(s, p, i) ==
  LET O == {o \in i..(Len(s) - Len(p) + 1) : \A k \in 1..Len(p) : s[o + k - 1] = p[k]}
  IN IF O = {} THEN 0 ELSE CHOOSE o \in O : \A q \in O : o <= q
RECURSIVE SplitOnFrom(_, _, _)
SplitOnFrom(s, p, i) ==
  LET o == Find(s, p, i)
  IN IF o = 0 THEN <<SubSeq(s, i, Len(s))>>
     ELSE <<SubSeq(s, i, o - 1)>> \o SplitOnFrom(s, p, o + Len(p))
\* split at a non-empty separator string
SplitOn(s, p) == SplitOnFrom(s, p, 1)

IsDigit(b) == b >= 48 /\ b <= 57
IsUpperA(b) == b >= 65 /\ b <= 90
IsLowerA(b) == b >= 97 /\ b <= 122
IsAlnum(b) == IsDigit(b) \/ IsUpperA(b) \/ IsLowerA(b)
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Num(s) == FoldLeft(LAMBDA acc, b : acc * 10 + (b - 48), 0, s)

(***************************************************************************)
(* UTF-8.  Units(s) cuts s into its code points and, where s is not        *)
(* well-formed, into maximal ill-formed subparts (cp = -1).                *)
(***************************************************************************)
Cont(b) == b >= 128 /\ b <= 191
Second(a, b) ==
  CASE a = 224 -> b >= 160 /\ b <= 191
    [] a = 237 -> b >= 128 /\ b <= 159
    [] a = 240 -> b >= 144 /\ b <= 191
    [] a = 244 -> b >= 128 /\ b <= 143
    [] OTHER -> Cont(b)
SeqLen(a) == CASE a < 128 -> 1
               [] a >= 194 /\ a <= 223 -> 2
               [] a >= 224 /\ a <= 239 -> 3
               [] a >= 240 /\ a <= 244 -> 4
               [] OTHER -> 0
Unit(s, i) ==
  LET a == s[i]
      n == SeqLen(a)
      at(k) == IF i + k <= Len(s) THEN s[i + k] ELSE 0
  IN CASE n = 1 -> [n |-> 1, cp |-> a]
       [] n = 0 -> [n |-> 1, cp |-> -1]
       [] ~Second(a, at(1)) -> [n |-> 1, cp |-> -1]
       [] n = 2 -> [n |-> 2, cp |-> (a - 192) * 64 + (at(1) - 128)]
       [] ~Cont(at(2)) -> [n |-> 2, cp |-> -1]
       [] n = 3 -> [n |-> 3, cp |-> (a - 224) * 4096 + (at(1) - 128) * 64 + (at(2) - 128)]
       [] ~Cont(at(3)) -> [n |-> 3, cp |-> -1]
       [] OTHER -> [n |-> 4, cp |-> (a - 240) * 262144 + (at(1) - 128) * 4096
                                     + (at(2) - 128) * 64 + (at(3) - 128)]
RECURSIVE UnitsFrom(_, _, _), UnitsIn(_, _, _)
UnitsFrom(s, i, j) ==
  IF i > j THEN <<>>
  ELSE LET u == Unit(s, i) IN <<[p |-> i, n |-> u.n, cp |-> u.cp]>> \o UnitsFrom(s, i + u.n, j)
\* a byte that continues no sequence starts a unit: long strings are cut there
UnitsIn(s, i, j) ==
  LET C == {p \in ((i + j) \div 2)..(((i + j) \div 2) + 8) : p <= j /\ ~Cont(s[p])}
  IN IF j - i < 40 \/ C = {} THEN UnitsFrom(s, i, j)
     ELSE LET m == CHOOSE p \in C : \A q \in C : p <= q IN UnitsIn(s, i, m - 1) \o UnitsIn(s, m, j)
Units(s) == IF IsAscii(s) THEN Map([i \in 1..Len(s) |-> i], LAMBDA i : [p |-> i, n |-> 1, cp |-> s[i]])
            ELSE UnitsIn(s, 1, Len(s))
IsUtf8(s) == IsAscii(s) \/ \A u \in Range1(Units(s)) : u.cp >= 0

EncCp(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                  128 + ((c \div 64) % 64), 128 + (c % 64)>>
Replacement == <<239, 191, 189>>
\* code points, ill-formed parts replaced by U+FFFD
Cps(s) == Map(Units(s), LAMBDA u : IF u.cp < 0 THEN 65533 ELSE u.cp)
EncCps(cs) == FlatMap(cs, EncCp)
Lossy(s) == IF IsUtf8(s) THEN s
            ELSE FlatMap(Units(s), LAMBDA u : IF u.cp < 0 THEN Replacement
                                              ELSE SubSeq(s, u.p, u.p + u.n - 1))

(***************************************************************************)
(* Letter case for the part of Unicode the conformance drivers use: ASCII, *)
(* Latin-1, Latin Extended-A, Greek, Cyrillic, ligatures, and some code    *)
(* points whose other case has another length in UTF-8.                    *)
(***************************************************************************)
\* Latin Extended-A comes in pairs, the capital first
LatinPair(c) == (c \in 256..303) \/ (c \in 306..311) \/ (c \in 313..328) \/ (c \in 330..375) \/ (c \in 377..382)
LatinLower(c) == IF c \in 313..328 \/ c \in 377..382 THEN c % 2 = 0 ELSE c % 2 = 1
LowerCp(c) ==
  CASE c >= 65 /\ c <= 90 -> <<c + 32>>
    [] c >= 192 /\ c <= 222 /\ c # 215 -> <<c + 32>>
    [] c = 304 -> <<105, 775>>
    [] LatinPair(c) /\ ~LatinLower(c) -> <<c + 1>>
    [] c >= 913 /\ c <= 937 /\ c # 930 -> <<c + 32>>
    [] c >= 1040 /\ c <= 1071 -> <<c + 32>>
    [] c = 376 -> <<255>>
    [] c = 8490 -> <<107>>
    [] c = 7838 -> <<223>>
    [] c = 570 -> <<11365>>
    [] c = 574 -> <<11366>>
    [] c = 8486 -> <<969>>
    [] c = 8491 -> <<229>>
    [] c = 11362 -> <<619>>
    [] OTHER -> <<c>>
UpperCp(c) ==
  CASE c >= 97 /\ c <= 122 -> <<c - 32>>
    [] c = 223 -> <<83, 83>>
    [] c = 255 -> <<376>>
    [] c = 11365 -> <<570>>
    [] c = 11366 -> <<574>>
    [] c = 619 -> <<11362>>
    [] c = 962 -> <<931>>
    [] c >= 224 /\ c <= 254 /\ c # 247 -> <<c - 32>>
    [] c = 305 -> <<73>>
    [] c = 304 -> <<304>>
    [] LatinPair(c) /\ LatinLower(c) -> <<c - 1>>
    [] c = 329 -> <<700, 78>>
    [] c = 383 -> <<83>>
    [] c = 181 -> <<924>>
    [] c = 64256 -> <<70, 70>>
    [] c = 64257 -> <<70, 73>>
    [] c = 64258 -> <<70, 76>>
    [] c = 64259 -> <<70, 70, 73>>
    [] c = 64260 -> <<70, 70, 76>>
    [] c \in {64261, 64262} -> <<83, 84>>
    [] c >= 945 /\ c <= 969 /\ c # 962 -> <<c - 32>>
    [] c >= 1072 /\ c <= 1103 -> <<c - 32>>
    [] OTHER -> <<c>>
MapCase(s, F(_)) ==
  FlatMap(Units(s), LAMBDA u : IF u.cp < 0 THEN SubSeq(s, u.p, u.p + u.n - 1) ELSE EncCps(F(u.cp)))
Lower(s) == IF IsAscii(s) THEN Map(s, LAMBDA b : IF IsUpperA(b) THEN b + 32 ELSE b)
            ELSE MapCase(s, LowerCp)
Upper(s) == IF IsAscii(s) THEN Map(s, LAMBDA b : IF IsLowerA(b) THEN b - 32 ELSE b)
            ELSE MapCase(s, UpperCp)
Fold(s, ci) == IF ci THEN Lower(s) ELSE s

IsSpaceCp(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                \/ (c >= 8192 /\ c <= 8202)
Trim(s) ==
  LET U == Units(s)
      N == {i \in 1..Len(U) : ~IsSpaceCp(U[i].cp)}
  IN IF N = {} THEN <<>>
     ELSE LET a == CHOOSE i \in N : \A j \in N : i <= j
              b == CHOOSE i \in N : \A j \in N : i >= j
          IN SubSeq(s, U[a].p, U[b].p + U[b].n - 1)

(***************************************************************************)
(* One line of CSV (delim 44) or TSV (delim 9) output.                     *)
(***************************************************************************)
NeedsQuote(cell, delim) == \E i \in 1..Len(cell) : cell[i] \in {delim, 34, 10, 13}
Quoted(cell) == <<34>> \o FlatMap(cell, LAMBDA b : IF b = 34 THEN <<34, 34>> ELSE <<b>>) \o <<34>>
Cell(cell, delim) == IF NeedsQuote(cell, delim) THEN Quoted(cell) ELSE cell
\* a row whose only cell is empty is written as "" so that it stays a row
CsvRow(cells, delim) ==
  IF Len(cells) = 1 /\ cells[1] = <<>> THEN <<34, 34, NL>>
  ELSE Join(Map(cells, LAMBDA c : Cell(c, delim)), <<delim>>) \o <<NL>>

\* insertion sort by a strict order
Insert(s, x, Lt(_, _)) ==
  LET n == Count(s, LAMBDA y : ~Lt(x, y))
  IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
SortBy(s, Lt(_, _)) == FoldLeft(LAMBDA acc, x : Insert(acc, x, Lt), <<>>, s)
Sort(s) == SortBy(s, Less)
=============================================================================
