----------------------------- MODULE MCPipeline -----------------------------
(***************************************************************************)
(* Exhaustive model of the pipeline: every job over streams of three       *)
(* different lines (two records, one line that is no record) in up to two  *)
(* files, for several commands and every small option setting.  The        *)
(* invariants say what must come out without following the steps.          *)
(***************************************************************************)
EXTENDS Pipeline

CONSTANTS MaxLines, MaxLines2, Cmds

L1 == <<48,48,51,64,SP,US,48,49,RS,NL>>                       \* 003@ $01
L2 == <<48,48,51,64,SP,US,48,50,RS,48,49,50,65,SP,US,97,120,RS,NL>>  \* 003@ $02 012A $ax
LX == <<48,48,51,64,SP,US,48,49,NL>>
Lines == {L1, L2, LX}
Streams(n) == UNION {[1..k -> Lines] : k \in 0..n}

Tag(t) == [i \in 1..4 |-> [k |-> "c", c |-> t[i]]]
Atom == [k |-> "fex", t |-> Tag(<<48,49,50,65>>), o |-> [k |-> "none"]]
W == [e |-> <<[k |-> "atom", a |-> Atom]>>, and |-> <<>>, or |-> <<>>, not |-> <<>>]
Base == [skip |-> FALSE, limit |-> 0, mo |-> [ci |-> FALSE, th |-> 75], hasw |-> FALSE, w |-> W,
         inv |-> FALSE, src |-> PpnPath, hasallow |-> FALSE, allow |-> <<>>, hasdeny |-> FALSE,
         deny |-> <<>>, keep |-> <<>>, disc |-> <<>>, tee |-> FALSE, teename |-> <<>>,
         uniq |-> FALSE, strategy |-> "idn", start |-> 0, end |-> 0, length |-> 0, size |-> 1,
         tpl |-> <<<<>>, <<>>>>, path |-> PpnPath, mode |-> "records", words |-> <<>>, hdr |-> TRUE]
Opts(cmd) ==
  LET R(o, s, l, h, i) == [o EXCEPT !.skip = s, !.limit = l, !.hasw = h, !.inv = i]
      Sels == {R(Base, s, l, h, i) : s \in BOOLEAN, l \in 0..2, h \in BOOLEAN, i \in {FALSE}}
  IN CASE cmd = "filter" -> {R(Base, s, l, TRUE, i) : s \in BOOLEAN, l \in 0..3, i \in BOOLEAN}
       [] cmd = "invalid" -> {Base}
       [] cmd = "concat" -> {[Base EXCEPT !.skip = s, !.uniq = u] : s \in BOOLEAN, u \in BOOLEAN}
       [] cmd = "count" -> Sels
       [] cmd = "sample" -> {[o EXCEPT !.size = 1] : o \in Sels}
       [] cmd = "slice" -> {[Base EXCEPT !.skip = s, !.limit = l, !.start = a, !.end = e, !.length = n] :
                              s \in BOOLEAN, l \in {0, 1}, a \in 0..2, e \in {0, 1, 3}, n \in {0, 1, 2}}
       [] cmd = "split" -> {[o EXCEPT !.size = z] : o \in Sels, z \in 1..2}
       [] cmd = "partition" -> Sels

Init == \E cmd \in Cmds, f1 \in Streams(MaxLines), f2 \in Streams(MaxLines2) :
          \E o \in Opts(cmd) : InitJob([cmd |-> cmd, o |-> o, files |-> <<f1, f2>>])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------ declarative reading ----------------------*)
All == job.files[1] \o job.files[2]
Valid(l) == Decode(l).ok
\* the lines the run may look at: everything, or up to the first bad line
FirstBad == {k \in 1..Len(All) : ~Valid(All[k])}
Visible == IF job.o.skip \/ FirstBad = {} THEN All
           ELSE SubSeq(All, 1, (CHOOSE k \in FirstBad : \A j \in FirstBad : k <= j) - 1)
Chosen == SelectSeq(Visible, LAMBDA l : Valid(l) /\ Selected(job.o, Decode(l).rec))
Limited == IF job.o.limit > 0 THEN Take(Chosen, job.o.limit) ELSE Chosen
Out == Flat(st.out)
FileOf(n) == IF n \in DOMAIN st.files THEN st.files[n] ELSE <<>>
Ended == status # "run"
Stopped == job.o.limit > 0 /\ Len(Chosen) >= job.o.limit

\* safety: what has been written is a prefix of what will be written
OutPrefix == job.cmd \in {"filter"} => IsPre(Out, Flat(Limited))
FilterOut == job.cmd = "filter" /\ Ended => Out = Flat(Limited)
LimitHolds == job.o.limit > 0 /\ job.cmd # "partition" => st.sel <= job.o.limit
\* an error is reported exactly when a bad line is reached
ErrOk == Ended /\ job.cmd \in {"filter", "count", "split", "sample"} =>
           (status = "err" <=> (~job.o.skip /\ FirstBad # {} /\ ~Stopped))
ErrPos == status = "err" => ~Valid(job.files[cf][cl])
InvalidOut == job.cmd = "invalid" /\ Ended => Out = Flat(SelectSeq(All, LAMBDA l : ~Valid(l)))
ConcatAll == job.cmd = "concat" /\ ~job.o.uniq /\ Ended => Out = Flat(SelectSeq(Visible, Valid))
ConcatUnique == job.cmd = "concat" /\ job.o.uniq =>
                  \A a, b \in 1..Len(st.out) : a # b => Ppn(Decode(st.out[a]).rec) # Ppn(Decode(st.out[b]).rec)
ConcatCovers == job.cmd = "concat" /\ job.o.uniq /\ Ended =>
                  {Ppn(Decode(l).rec) : l \in Range1(st.out)} = {Ppn(Decode(l).rec) : l \in {x \in Range1(Visible) : Valid(x)}}
CountOk == job.cmd = "count" /\ status = "ok" => st.out = <<Dec(Len(Limited)) \o <<NL>>>>
SampleHeld == job.cmd = "sample" /\ status = "ok" => st.held = Limited
\* slice: positions are counted over all lines, valid or skipped
SliceOut ==
  job.cmd = "slice" /\ status = "ok" =>
    LET hi == IF job.o.end > 0 THEN job.o.end
              ELSE IF job.o.length > 0 THEN -2 ELSE -1
        from == SubSeq(All, job.o.start + 1, Len(All))
        span == CASE hi = -1 -> from
                  [] hi = -2 -> from
                  [] OTHER -> SubSeq(All, job.o.start + 1, MinOf(hi, Len(All)))
        v == SelectSeq(span, Valid)
        w == IF hi = -2 THEN Take(v, job.o.length) ELSE v
    IN Out = Flat(IF job.o.limit > 0 THEN Take(w, job.o.limit) ELSE w)
\* split: the chunks in order are the selected records, all but the last full
SplitCover ==
  job.cmd = "split" /\ Ended =>
    LET n == Cardinality(DOMAIN st.files)
        chunk(k) == FileOf(Dec(k - 1))
    IN /\ Flat([k \in 1..n |-> Flat(chunk(k))]) = Flat(Limited)
       /\ \A k \in 1..(n - 1) : Len(chunk(k)) = job.o.size
       /\ Len(chunk(n)) <= job.o.size
\* partition: a record is in the file of each of its values and nowhere else
PartitionCover ==
  job.cmd = "partition" /\ Ended /\ job.o.limit = 0 =>
    \A n \in DOMAIN st.files :
      st.files[n] = SelectSeq(Chosen, LAMBDA l : Has(PathValues(job.o.path, Decode(l).rec, job.o.mo), n))
PartitionAll ==
  job.cmd = "partition" /\ Ended /\ job.o.limit = 0 =>
    \A l \in Range1(Chosen) : \A v \in Range1(PathValues(job.o.path, Decode(l).rec, job.o.mo)) : v \in DOMAIN st.files
Terminates == <>Ended
=============================================================================
