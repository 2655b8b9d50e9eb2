------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* What each command does with one selected record (Apply) and at the end  *)
(* of its input (Final).  A command state is a record                      *)
(*   out    lines written so far to the main output                        *)
(*   files  further outputs: name -> lines                                 *)
(*   sel    selected records so far (what --limit counts)                  *)
(*   pos    position counter of slice                                      *)
(*   stop   the command has what it needs, no more input is read           *)
(*   seen, tab, held   duplicates seen, counts, held-back records          *)
(***************************************************************************)
EXTENDS Rules

EmptyMap == [x \in {} |-> 0]
Bump(m, k) == IF k \in DOMAIN m THEN [m EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ m
Put(m, k, line) == IF k \in DOMAIN m THEN [m EXCEPT ![k] = Append(@, line)] ELSE (k :> <<line>>) @@ m

St0 == [out |-> <<>>, files |-> EmptyMap, sel |-> 0, pos |-> 0, stop |-> FALSE,
        seen |-> {}, tab |-> EmptyMap, held |-> <<>>, bad |-> FALSE]

(*------------------------------ selection --------------------------------*)
\* deny wins over allow; an allow list admits only records it names
InLists(o, rec) ==
  LET V == IF o.hasallow \/ o.hasdeny THEN Range1(PathValues(o.src, rec, DefOpts)) ELSE {}
  IN /\ o.hasdeny => V \cap Range1(o.deny) = {}
     /\ o.hasallow => V \cap Range1(o.allow) # {}
WhereOk(o, rec) == o.hasw => (Where(o.w, rec, o.mo) # o.inv)
Selected(o, rec) == InLists(o, rec) /\ WhereOk(o, rec)

\* keep / discard of fields
Hits(preds, f) == \E i \in 1..Len(preds) : FieldSel(preds[i].t, preds[i].o, f)
Reduce(o, rec) ==
  LET a == IF o.disc = <<>> THEN rec ELSE SelectSeq(rec, LAMBDA f : ~Hits(o.disc, f))
  IN IF o.keep = <<>> THEN a ELSE SelectSeq(a, LAMBDA f : Hits(o.keep, f))
Reduced(o, rec, line) == IF o.keep = <<>> /\ o.disc = <<>> THEN line ELSE Encode(Reduce(o, rec))

Translit(nf, v) ==
  LET w == Lossy(v)
      H == {i \in 1..Len(nf) : nf[i].a = w}
  IN IF H = {} THEN w ELSE nf[CHOOSE i \in H : TRUE].b

(*------------------------------ rendering --------------------------------*)
\* what the non-numeric quote style takes for a number
Sign == [k |-> "opt", x |-> [k |-> "cls", neg |-> FALSE, r |-> <<<<43, 43>>, <<45, 45>>>>]]
Digits(k) == [k |-> k, x |-> [k |-> "cls", neg |-> FALSE, r |-> <<<<48, 57>>>>]]
Chr(c) == [k |-> "c", c |-> c]
Cat(xs) == [k |-> "cat", xs |-> xs]
Alt(xs) == [k |-> "alt", xs |-> xs]
Word(s) == Cat(Map(s, Chr))
NumberRe ==
  Cat(<<[k |-> "bol"], Sign,
        Alt(<<Cat(<<Alt(<<Cat(<<Digits("plus"), [k |-> "opt", x |-> Cat(<<Chr(46), Digits("star")>>)]>>),
                          Cat(<<Chr(46), Digits("plus")>>)>>),
                    [k |-> "opt", x |-> Cat(<<Chr(101), Sign, Digits("plus")>>)]>>),
              Word(<<105, 110, 102>>), Word(<<105, 110, 102, 105, 110, 105, 116, 121>>),
              Word(<<110, 97, 110>>)>>),
        [k |-> "eol"]>>)
IsNumber(cell) == IsAscii(cell) /\ ReSearch(NumberRe, cell, TRUE)
\* CSV cell under a quote style
QCell(cell, delim, style, alone) ==
  CASE style = "never" -> cell
    [] style = "always" -> Quoted(cell)
    [] style = "non-numeric" -> IF IsNumber(cell) THEN cell ELSE Quoted(cell)
    [] OTHER -> IF alone /\ cell = <<>> THEN Quoted(cell) ELSE Cell(cell, delim)
Row(cells, delim, style) ==
  Join(Map(cells, LAMBDA x : QCell(x, delim, style, Len(cells) = 1)), <<delim>>) \o <<NL>>

OccText(f) == IF f.occ = <<>> THEN <<>> ELSE <<47>> \o f.occ
PrintRec(rec, nf) ==
  FlatMap(rec, LAMBDA f : f.tag \o OccText(f)
            \o FlatMap(f.sub, LAMBDA s : <<SP, 36, s.c, SP>> \o Translit(nf, s.v)) \o <<NL>>)
  \o <<NL>>

Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
JsonStr(v) ==
  <<34>> \o FlatMap(Lossy(v), LAMBDA b :
     CASE b = 34 -> <<92, 34>>
       [] b = 92 -> <<92, 92>>
       [] b = 10 -> <<92, 110>>
       [] b = 13 -> <<92, 114>>
       [] b = 9 -> <<92, 116>>
       [] b = 8 -> <<92, 98>>
       [] b = 12 -> <<92, 102>>
       [] b < 32 -> <<92, 117, 48, 48, Hex(b \div 16), Hex(b % 16)>>
       [] OTHER -> <<b>>) \o <<34>>
JsonList(xs) == <<91>> \o Join(xs, <<44>>) \o <<93>>
Null4 == <<110, 117, 108, 108>>
JsonRec(rec) ==
  JsonList(Map(rec, LAMBDA f :
    JsonList(<<JsonStr(f.tag), IF f.occ = <<>> THEN Null4 ELSE JsonStr(<<47>> \o f.occ)>>
             \o FlatMap(f.sub, LAMBDA s : <<JsonStr(<<s.c>>), JsonStr(s.v)>>))))

PlainRec(rec) ==
  FlatMap(rec, LAMBDA f : f.tag \o OccText(f) \o <<SP>>
    \o FlatMap(f.sub, LAMBDA s : <<36, s.c>> \o FlatMap(s.v, LAMBDA b : IF b = 36 THEN <<36, 36>> ELSE <<b>>))
    \o <<NL>>)
BinaryRec(rec) == FlatMap(rec, EncField) \o <<29>>
ImportRec(rec) ==
  <<39, 29, NL>> \o FlatMap(rec, LAMBDA f :
     <<RS>> \o f.tag \o OccText(f) \o <<SP>> \o FlatMap(f.sub, LAMBDA s : <<US, s.c>> \o s.v) \o <<NL>>)

XmlText(v) == FlatMap(v, LAMBDA b :
  CASE b = 60 -> <<38, 108, 116, 59>>
    [] b = 62 -> <<38, 103, 116, 59>>
    [] b = 38 -> <<38, 97, 109, 112, 59>>
    [] b = 39 -> <<38, 97, 112, 111, 115, 59>>
    [] b = 34 -> <<38, 113, 117, 111, 116, 59>>
    [] OTHER -> <<b>>)
\* the XML vocabulary comes with the case: o.x.<name> are byte strings
XmlRec(rec, x, withOcc) ==
  x.recOpen
  \o FlatMap(rec, LAMBDA f :
       x.fieldOpen \o f.tag \o <<34>>
       \o (IF withOcc /\ f.occ # <<>> THEN x.occ \o f.occ \o <<34>> ELSE <<>>) \o <<62>>
       \o FlatMap(f.sub, LAMBDA s : x.subOpen \o <<s.c, 34, 62>> \o XmlText(s.v) \o x.subClose)
       \o (IF f.sub = <<>> THEN x.fieldCloseEmpty ELSE x.fieldClose))
  \o x.recClose

(*------------------------------ explode ----------------------------------*)
Level(f) == CASE f.tag[1] = 48 -> "main" [] f.tag[1] = 49 -> "local" [] OTHER -> "copy"
\* Cuts a record into the parts that stand for one local or copy record.
\* m main fields so far, l local fields of the holding, k fields of the copy
RECURSIVE LocalParts(_, _, _, _), CopyParts(_, _, _, _, _, _)
LocalParts(rec, i, m, acc) ==
  IF i > Len(rec) THEN IF acc = <<>> THEN <<>> ELSE <<m \o acc>>
  ELSE LET f == rec[i]
           last == i < Len(rec) /\ Level(rec[i + 1]) = "local"
       IN CASE Level(f) = "main" -> LocalParts(rec, i + 1, Append(m, f), acc)
            [] Level(f) = "local" -> LocalParts(rec, i + 1, m, Append(acc, f))
            [] last -> <<m \o Append(acc, f)>> \o LocalParts(rec, i + 1, m, <<>>)
            [] OTHER -> LocalParts(rec, i + 1, m, Append(acc, f))
\* cur: occurrence of the copy being collected ("none" before the first)
CopyParts(rec, i, m, l, k, cur) ==
  IF i > Len(rec) THEN IF k = <<>> THEN <<>> ELSE <<m \o l \o k>>
  ELSE LET f == rec[i]
           last == i < Len(rec) /\ Level(rec[i + 1]) = "local"
           new == f.occ # cur
           k1 == IF new THEN <<f>> ELSE Append(k, f)
           done == IF new /\ k # <<>> THEN <<m \o l \o k>> ELSE <<>>
       IN CASE Level(f) = "main" -> CopyParts(rec, i + 1, Append(m, f), l, k, cur)
            [] Level(f) = "local" -> CopyParts(rec, i + 1, m, Append(l, f), k, cur)
            [] last -> done \o <<m \o l \o k1>> \o CopyParts(rec, i + 1, m, <<>>, <<>>, <<>>)
            [] OTHER -> done \o CopyParts(rec, i + 1, m, l, k1, f.occ)
Parts(rec, level) ==
  CASE level = "main" -> <<rec>>
    [] level = "local" -> LocalParts(rec, 1, <<>>, <<>>)
    [] level = "copy" -> CopyParts(rec, 1, <<>>, <<>>, <<>>, <<>>)

(*------------------------------ select, frequency ------------------------*)
AllEmpty(row) == \A i \in 1..Len(row) : row[i] = <<>>
SomeEmpty(row) == \E i \in 1..Len(row) : row[i] = <<>>
SelectRow(st, row, o) ==
  IF (o.noempty /\ SomeEmpty(row)) \/ AllEmpty(row) \/ (o.uniq /\ row \in st.seen) THEN st
  ELSE [st EXCEPT !.out = Append(@, Row(Map(row, LAMBDA v : IF o.hasnf THEN Translit(o.nf, v) ELSE v),
                                       o.delim, o.quote)),
                  !.seen = IF o.uniq THEN @ \cup {row} ELSE @]
FreqKeys(rows, o) ==
  LET R == SelectSeq(rows, LAMBDA r : ~AllEmpty(r))
  IN IF o.uniq THEN Dedup(R) ELSE R
RowCmp(a, b) ==
  LET D == {i \in 1..Len(a) : a[i] # b[i]}
  IN IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : \A j \in D : k <= j IN Cmp(a[k], b[k])
\* most frequent first (least with reverse), equal counts in ascending key order
FreqLess(t, rev, a, b) ==
  IF t[a] # t[b] THEN (IF rev THEN t[a] < t[b] ELSE t[a] > t[b]) ELSE RowCmp(a, b) = -1
FreqOrder(t, o) ==
  LET K == SetToSeq({k \in DOMAIN t : t[k] >= o.threshold})
      S == SortBy(K, LAMBDA a, b : FreqLess(t, o.rev, a, b))
  IN IF o.num > 0 THEN Take(S, o.num) ELSE S
FreqLines(st, o) ==
  Map(FreqOrder(st.tab, o), LAMBDA k : Row(Append(Map(k, LAMBDA v : Translit(o.nf, v)), Dec(st.tab[k])),
                                          o.delim, "necessary"))

(*------------------------------ describe ---------------------------------*)
DescribeTab(tab, rec) ==
  FoldLeft(LAMBDA acc, f :
     FoldLeft(LAMBDA acc2, s : Bump(acc2, <<f.tag, s.c>>),
              IF <<f.tag, 0>> \in DOMAIN acc THEN acc ELSE (<<f.tag, 0>> :> 0) @@ acc, f.sub),
     tab, rec)
DescribeLines(tab, delim) ==
  LET tags == Sort(SetToSeq({k[1] : k \in DOMAIN tab}))
      codes == SortBy(SetToSeq({k[2] : k \in {j \in DOMAIN tab : j[2] # 0}}), LAMBDA a, b : a < b)
      at(t, c) == IF <<t, c>> \in DOMAIN tab THEN tab[<<t, c>>] ELSE 0
  IN << Join(<< <<102, 105, 101, 108, 100>> >> \o Map(codes, LAMBDA c : <<c>>), <<delim>>) \o <<NL>> >>
     \o Map(tags, LAMBDA t : Join(<<t>> \o Map(codes, LAMBDA c : Dec(at(t, c))), <<delim>>) \o <<NL>>)

(*------------------------------ check ------------------------------------*)
(* A step is what one rule set reports about one record (or, at the end,   *)
(* about the links of all records): need lines, taken from alts, one per   *)
(* finding, in any order.                                                  *)
ReportLine1(o, id, level, ppn, msg) ==
  IF o.txt THEN Row(<<ppn>>, 44, "necessary") ELSE Row(<<ppn, id, level, msg>>, o.delim, "necessary")
PpnOf(rec) == IF HasPpn(rec) THEN Ppn(rec) ELSE <<>>
FindStep(o, rs, rec) ==
  LET R == SelectSeq(RulesOf(o, rs), LAMBDA r : Finding(r, rec).hit)
      n == IF InScope(rs, rec) THEN Len(R) ELSE 0
  IN [need |-> IF rs.fast THEN MinOf(1, n) ELSE n,
      alts |-> IF n = 0 THEN <<>>
               ELSE Map(R, LAMBDA r : {ReportLine1(o, r.id, r.level, PpnOf(rec), m) : m \in Finding(r, rec).msgs})]
LinkKeys(o) == {<<i, j>> \in (1..Len(o.rs)) \X (1..20) :
                  j <= Len(o.rs[i].rules) /\ o.rs[i].rules[j].kind = "link" /\ Kept(o, o.rs[i].rules[j])}
LinkTab(o, tab, rec) ==
  TLCEval([k \in DOMAIN tab |->
     LET rs == o.rs[k[1]]
         r == rs.rules[k[2]]
     IN [targets |-> tab[k].targets \cup LinkTargets(r, rec),
         links |-> tab[k].links \o (IF InScope(rs, rec) THEN Map(LinkSources(r, rec), LAMBDA v : <<PpnOf(rec), v>>) ELSE <<>>)]])
LinkStep(o, i, tab) ==
  LET K == SetToSeq({k \in DOMAIN tab : k[1] = i})
      A == FlatMap(K, LAMBDA k :
             LET r == o.rs[i].rules[k[2]]
                 D == Dangling(tab[k].links, tab[k].targets)
                 P == Dedup(Map(D, LAMBDA l : l[1]))
             IN Map(P, LAMBDA p : {ReportLine1(o, r.id, r.level, p,
                      Join(Map(SelectSeq(D, LAMBDA l : l[1] = p), LAMBDA l : Lossy(l[2])), Comma))}))
  IN [need |-> Len(A), alts |-> A]
HeaderLine(o) == Row(o.hdr, o.delim, "necessary")
\* consumes the lines of out step by step
RECURSIVE StepsOk(_, _, _, _)
StepsOk(steps, k, out, i) ==
  IF k > Len(steps) THEN i = Len(out) + 1
  ELSE LET s == steps[k]
           W == SubSeq(out, i, i + s.need - 1)
       IN /\ i + s.need - 1 <= Len(out)
          /\ \A x \in Range1(W) : \E a \in Range1(s.alts) : x \in a
          /\ s.need = Len(s.alts) =>
               \A a \in Range1(s.alts) : Count(W, LAMBDA x : x \in a) = Count(s.alts, LAMBDA b : b = a)
          /\ StepsOk(steps, k + 1, out, i + s.need)
CheckOk(o, steps, out) ==
  IF Sum(Map(steps, LAMBDA s : s.need)) = 0 THEN out = <<>>
  ELSE IF o.txt THEN StepsOk(steps, 1, out, 1)
  ELSE Len(out) > 0 /\ out[1] = HeaderLine(o) /\ StepsOk(steps, 1, out, 2)

\* the report where every step has its lines in the given order
CheckLines(o, steps) ==
  LET F == FlatMap(steps, LAMBDA s : Map(Take(s.alts, s.need), LAMBDA a : CHOOSE l \in a : TRUE))
  IN IF F = <<>> THEN <<>> ELSE (IF o.txt THEN <<>> ELSE <<HeaderLine(o)>>) \o F

(*------------------------------ one selected record ----------------------*)
\* count the record and stop at the limit
Tick(o, st) == [st EXCEPT !.sel = @ + 1, !.stop = @ \/ (o.limit > 0 /\ st.sel + 1 >= o.limit)]
\* a template is the texts around its placeholders; it may have none
FileName(o, x) == Join(o.tpl, x)
PartKeys(o, rec) == Sort(SetToSeq(Range1(PathValues(o.path, rec, o.mo))))
\* values share a file only if the template has no placeholder
PartNames(o, rec) == LET N == Map(PartKeys(o, rec), LAMBDA x : FileName(o, x))
                     IN IF Len(o.tpl) = 1 THEN Take(N, 1) ELSE N
\* what can be the name of a file in the output directory
NameOk(n) == /\ n \notin {<<>>, <<46>>, <<46, 46>>} /\ Len(n) <= 255
             /\ \A i \in 1..Len(n) : n[i] \notin {0, 47}
PartStep(o, st, name, line) ==
  IF st.stop THEN st
  ELSE IF ~NameOk(name) THEN [st EXCEPT !.stop = TRUE, !.bad = TRUE]
  ELSE Tick(o, [st EXCEPT !.files = Put(@, name, line)])
\* slice keeps positions start <= p < end
SliceEnd(o, st) == IF o.end > 0 THEN o.end
                   ELSE IF o.length > 0 THEN o.start + o.length + st.tab["grow"] ELSE -1
InSlice(o, st, p) == p >= o.start /\ (SliceEnd(o, st) = -1 \/ p < SliceEnd(o, st))

Apply(cmd, o, st, rec, line, where) ==
  CASE cmd = "filter" ->
         LET w == Reduced(o, rec, line)
         IN Tick(o, [st EXCEPT !.out = Append(@, w),
                               !.files = IF o.tee THEN Put(@, o.teename, w) ELSE @])
    [] cmd = "concat" ->
         LET key == CASE o.strategy = "idn" -> (IF HasPpn(rec) THEN Ppn(rec) ELSE <<>>)
                      [] OTHER -> line
         IN IF o.uniq /\ (key \in st.seen \/ key = <<>>) THEN st
            ELSE [st EXCEPT !.out = Append(@, line),
                            !.seen = IF o.uniq THEN @ \cup {key} ELSE @,
                            !.files = IF o.tee THEN Put(@, o.teename, line) ELSE @]
    [] cmd = "count" ->
         Tick(o, [st EXCEPT !.tab = [r |-> @.r + 1, f |-> @.f + Len(rec),
                                    s |-> @.s + Sum(Map(rec, LAMBDA f : Len(f.sub)))]])
    [] cmd = "hash" ->
         Tick(o, [st EXCEPT !.out = Append(@, Row(<<IF HasPpn(rec) THEN Lossy(Ppn(rec)) ELSE <<>>,
                                                   o.sha[where[1]][where[2]]>>, o.delim, "necessary"))])
    [] cmd = "print" -> Tick(o, [st EXCEPT !.out = Append(@, PrintRec(rec, o.nf))])
    [] cmd = "slice" ->
         IF InSlice(o, st, st.pos)
         THEN Tick(o, [st EXCEPT !.out = Append(@, line), !.pos = @ + 1])
         ELSE [st EXCEPT !.pos = @ + 1, !.stop = st.pos >= o.start]
    [] cmd = "split" ->
         Tick(o, [st EXCEPT !.files = Put(@, FileName(o, Dec(st.sel \div o.size)), line)])
    [] cmd = "partition" ->
         FoldLeft(LAMBDA s, n : PartStep(o, s, n, line), st, PartNames(o, rec))
    [] cmd = "explode" ->
         FoldLeft(LAMBDA s, p :
                    IF s.stop \/ ~Selected(o, p) THEN s
                    ELSE Tick(o, [s EXCEPT !.out = Append(@, Encode(Reduce(o, p)))]),
                  st, Parts(rec, o.level))
    [] cmd = "select" ->
         Tick(o, FoldLeft(LAMBDA s, row : SelectRow(s, row, o), st, QueryRows(o.q, rec, o.qo)))
    [] cmd = "frequency" ->
         Tick(o, [st EXCEPT !.tab = FoldLeft(Bump, @, FreqKeys(QueryRows(o.q, rec, o.qo), o))])
    [] cmd = "describe" -> Tick(o, [st EXCEPT !.tab = DescribeTab(@, Reduce(o, rec))])
    [] cmd = "sample" -> Tick(o, [st EXCEPT !.held = Append(@, line)])
    [] cmd = "check" ->
         Tick(o, [st EXCEPT !.held = @ \o SelectSeq(Map(o.rs, LAMBDA rs : FindStep(o, rs, rec)), LAMBDA s : s.need > 0),
                            !.tab = LinkTab(o, @, rec)])
    [] cmd = "convert" ->
         [st EXCEPT !.sel = @ + 1, !.out = Append(@,
           CASE o.to = "plus" -> line
             [] o.to = "plain" -> PlainRec(rec)
             [] o.to = "binary" -> BinaryRec(rec)
             [] o.to = "import" -> ImportRec(rec)
             [] o.to = "json" -> (IF st.sel > 0 THEN <<44>> ELSE <<>>) \o JsonRec(rec)
             [] o.to = "xml" -> XmlRec(rec, o.x, o.withocc))]

(*------------------------------ start and end of the input ---------------*)
Start(cmd, o) ==
  CASE cmd \in {"select", "hash"} ->
         IF o.hashdr THEN [St0 EXCEPT !.out = <<Row(o.hdr, o.delim, o.quote)>>] ELSE St0
    [] cmd = "count" -> [St0 EXCEPT !.tab = [r |-> 0, f |-> 0, s |-> 0]]
    [] cmd = "slice" -> [St0 EXCEPT !.tab = [grow |-> 0]]
    [] cmd = "check" -> [St0 EXCEPT !.tab = [k \in LinkKeys(o) |-> [targets |-> {}, links |-> <<>>]]]
    [] cmd = "split" -> [St0 EXCEPT !.files = (FileName(o, <<48>>) :> <<>>)]
    [] cmd \in {"filter", "concat"} ->
         IF o.tee THEN [St0 EXCEPT !.files = (o.teename :> <<>>)] ELSE St0
    [] cmd = "convert" ->
         CASE o.to = "json" -> [St0 EXCEPT !.out = << <<91>> >>]
           [] o.to = "xml" -> [St0 EXCEPT !.out = <<o.x.head>>]
           [] OTHER -> St0
    [] OTHER -> St0
\* a skipped invalid line still occupies a position of slice, and does not
\* count towards --length
Skip(cmd, o, st) ==
  CASE cmd = "slice" ->
         [st EXCEPT !.pos = @ + 1,
                    !.tab = IF o.length > 0 /\ InSlice(o, st, st.pos) THEN [grow |-> @.grow + 1] ELSE @]
    [] cmd = "invalid" -> st
    [] OTHER -> st

Text(o, k) == o.words[k]
CountLines(o, t) ==
  CASE o.mode = "records" -> <<Dec(t.r) \o <<NL>>>>
    [] o.mode = "fields" -> <<Dec(t.f) \o <<NL>>>>
    [] o.mode = "subfields" -> <<Dec(t.s) \o <<NL>>>>
    [] o.mode = "plain" -> [i \in 1..3 |-> o.words[i] \o <<58, SP>> \o Dec(<<t.r, t.f, t.s>>[i]) \o <<NL>>]
    [] OTHER -> (IF o.hdr THEN <<Join(o.words, <<o.delim>>) \o <<NL>>>> ELSE <<>>)
                \o <<Join(<<Dec(t.r), Dec(t.f), Dec(t.s)>>, <<o.delim>>) \o <<NL>>>>
Final(cmd, o, st) ==
  CASE cmd = "count" -> [st EXCEPT !.out = CountLines(o, st.tab)]
    [] cmd = "frequency" ->
         [st EXCEPT !.out = (IF o.hashdr THEN <<Row(o.hdr, o.delim, "necessary")>> ELSE <<>>) \o FreqLines(st, o)]
    [] cmd = "describe" -> [st EXCEPT !.out = DescribeLines(st.tab, o.delim)]
    [] cmd = "check" ->
         [st EXCEPT !.held = @ \o [i \in 1..Len(o.rs) |-> LinkStep(o, i, st.tab)]]
    [] cmd = "convert" ->
         CASE o.to = "json" -> [st EXCEPT !.out = Append(@, <<93>>)]
           [] o.to = "xml" -> [st EXCEPT !.out = Append(@, o.x.tail)]
           [] OTHER -> st
    [] OTHER -> st

(* A sample of size k after n records: slot s holds record s or a later    *)
(* record that replaced it, and no record is in two slots.                 *)
SampleOk(held, k, out) ==
  LET n == Len(held)
      m == MinOf(k, n)
  IN /\ Len(out) = m
     /\ n <= k => out = held
     /\ \A s \in 1..m : \E i \in 1..n : held[i] = out[s] /\ (i = s \/ i > k)
     /\ \A r \in Range1(out) : Count(out, LAMBDA x : x = r) <= Count(held, LAMBDA x : x = r)
=============================================================================
