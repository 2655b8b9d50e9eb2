------------------------------ MODULE Records -------------------------------
(***************************************************************************)
(* Records as values of the library.  A record is its fields; whatever     *)
(* history of steps led to it, what is written, hashed, compared and       *)
(* enumerated is determined by these fields alone.  A history works on a   *)
(* stack of records.                                                       *)
(*                                                                         *)
(* Also here: the constructors of the parts of a record, and the library   *)
(* reader as a machine that is asked for one record after the other.       *)
(***************************************************************************)
EXTENDS Matcher

(*------------------------------ parts ------------------------------------*)
IsValue(v) == \A i \in 1..Len(v) : v[i] \notin {US, RS}
IsSubfieldText(s) == Len(s) >= 2 /\ s[1] = US /\ IsAlnum(s[2]) /\ IsValue(Drop(s, 2))
IsFieldText(f) == LET n == Len(f)
                  IN n > 0 /\ f[n] = RS /\ (\A i \in 1..(n - 1) : f[i] # RS) /\ IsFieldBody(Take(f, n - 1))
Levels == << <<109, 97, 105, 110>>, <<108, 111, 99, 97, 108>>, <<99, 111, 112, 121>> >>
LevelOf(tag) == Levels[tag[1] - 47]
IsPart(kind, s) ==
  CASE kind = "tag" -> IsTag(s)
    [] kind = "occ" -> IsOcc(s)
    [] kind = "value" -> IsValue(s)
    [] kind = "subfield" -> IsSubfieldText(s)
    [] kind = "field" -> IsFieldText(s)
    [] kind = "record" -> Decode(s).ok
    [] kind = "code" -> Len(s) = 1 /\ IsAlnum(s[1])
    [] kind = "level" -> Has(Levels, s)
\* a field given by its parts
GivenOk(f) == /\ IsTag(f.tag) /\ (f.hasocc => IsOcc(f.occ))
              /\ \A i \in 1..Len(f.sub) : IsAlnum(f.sub[i].c) /\ IsValue(f.sub[i].v)
GivenField(f) == [tag |-> f.tag, occ |-> IF f.hasocc THEN f.occ ELSE <<>>, sub |-> f.sub]
Given(fs) == Map(fs, GivenField)

(*------------------------------ histories --------------------------------*)
HitsList(preds, f) == \E i \in 1..Len(preds) : FieldSel(preds[i].t, preds[i].o, f)
\* the predicates of retain used in the conformance runs
Retained(p, rec) ==
  CASE p.k = "tag" -> SelectSeq(rec, LAMBDA f : f.tag = p.tag)
    [] p.k = "code" -> SelectSeq(rec, LAMBDA f : \E i \in 1..Len(f.sub) : f.sub[i].c = p.c)
    [] p.k = "occ" -> SelectSeq(rec, LAMBDA f : f.occ # <<>>)
    [] p.k = "odd" -> LET I == SelectSeq([i \in 1..Len(rec) |-> i], LAMBDA i : i % 2 = 1)
                      IN Map(I, LAMBDA i : rec[i])
    [] p.k = "all" -> rec
    [] p.k = "no" -> <<>>
Bad == [ok |-> FALSE, st |-> <<>>]
StepRec(st, s) ==
  LET n == Len(st)
      on(r) == [ok |-> TRUE, st |-> [st EXCEPT ![n].rec = r]]
      push(r) == [ok |-> TRUE, st |-> Append(st, [rec |-> r, str |-> FALSE])]
      top == st[n].rec
  IN CASE s.op = "load" -> LET d == Decode(s.text) IN IF d.ok THEN push(d.rec) ELSE Bad
       [] s.op = "new" -> IF \A i \in 1..Len(s.fields) : GivenOk(s.fields[i]) THEN push(Given(s.fields)) ELSE Bad
       [] s.op = "keep" -> on(IF s.list = <<>> THEN top ELSE SelectSeq(top, LAMBDA f : HitsList(s.list, f)))
       [] s.op = "discard" -> on(IF s.list = <<>> THEN top ELSE SelectSeq(top, LAMBDA f : ~HitsList(s.list, f)))
       [] s.op \in {"retain", "through"} -> on(Retained(s.pred, top))
       [] s.op = "assign" -> IF \A i \in 1..Len(s.fields) : GivenOk(s.fields[i]) THEN on(Given(s.fields)) ELSE Bad
       [] s.op = "copy" -> push(top)
       [] s.op = "serde" -> [ok |-> TRUE, st |-> st]
       [] s.op = "string" -> IF IsUtf8Rec(top) THEN [ok |-> TRUE, st |-> [st EXCEPT ![n].str = TRUE]] ELSE Bad
       [] s.op = "swap" -> [ok |-> TRUE, st |-> [st EXCEPT ![n] = st[n - 1], ![n - 1] = st[n]]]
RunRecs(prog) == FoldLeft(LAMBDA z, s : IF z.ok THEN StepRec(z.st, s) ELSE z, [ok |-> TRUE, st |-> <<>>], prog)

\* what can be seen of a record
FirstOf(f, c) == LET I == {i \in 1..Len(f.sub) : f.sub[i].c = c}
                 IN f.sub[CHOOSE i \in I : \A j \in I : i <= j].v
FieldSeen(f) ==
  [tag |-> f.tag, occ |-> f.occ, sub |-> f.sub, level |-> LevelOf(f.tag),
   utf8 |-> \A j \in 1..Len(f.sub) : IsUtf8(f.sub[j].v), text |-> EncField(f), owned |-> EncField(f), same |-> TRUE,
   first |-> LET C == SetToSortSeq({f.sub[i].c : i \in 1..Len(f.sub)}, LAMBDA a, b : a < b)
             IN Map(C, LAMBDA c : [c |-> c, v |-> FirstOf(f, c)])]
RecSeen(rec) ==
  [text |-> Encode(rec), owned |-> Encode(rec), json |-> Encode(rec), same |-> TRUE, empty |-> rec = <<>>,
   utf8 |-> IsUtf8Rec(rec), fields |-> Map(rec, FieldSeen)]

(*------------------------------ reader -----------------------------------*)
\* the lines of a stream; only the last may lack its end
LinesOf(s) ==
  LET P == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = NL)
      m == Len(P)
      from(k) == IF k = 1 THEN 1 ELSE P[k - 1] + 1
      full == [k \in 1..m |-> SubSeq(s, from(k), P[k])]
      rest == SubSeq(s, from(m + 1), Len(s))
  IN IF rest = <<>> THEN full ELSE Append(full, rest)
\* the answer to the k-th call; limit: the source fails after so many bytes
AnswerTo(what, k, lines, limit) ==
  LET upto == IF k > Len(lines) THEN Sum(Map(lines, LAMBDA l : Len(l))) + 1 ELSE Sum(Map(Take(lines, k), LAMBDA l : Len(l)))
      open == k <= Len(lines) /\ lines[k][Len(lines[k])] # NL
  IN IF limit >= 0 /\ (upto > limit \/ (open /\ upto = limit)) THEN [k |-> "io"]
     ELSE IF k > Len(lines) THEN [k |-> "end"]
     ELSE LET d == Decode(lines[k])
          IN IF ~d.ok THEN [k |-> "parse"]
             ELSE IF what = "string" /\ ~IsUtf8Rec(d.rec) THEN [k |-> "utf8"]
             ELSE [k |-> "rec", text |-> lines[k]]
=============================================================================
