------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* Selection: every command that has the selection options hands exactly   *)
(* the same records to its own work.  Jobs differ in command, allow and    *)
(* deny lists, where clause, limit and skipping; the invariants state the  *)
(* selected records without following the steps.                           *)
(***************************************************************************)
EXTENDS MCPipeline

I1 == <<48, 49>>
I2 == <<48, 50>>
Lists == {<<>>, <<I1>>, <<I2>>, <<I1, I2>>}
SelOpts == {[Base EXCEPT !.skip = s, !.limit = l, !.hasw = h, !.hasallow = ha, !.hasdeny = hd, !.allow = a, !.deny = d] :
              s \in BOOLEAN, l \in {0, 1, 2}, h \in BOOLEAN, ha \in BOOLEAN, hd \in BOOLEAN,
              a \in {<<>>, <<I2>>, <<I1, I2>>}, d \in {<<>>, <<I2>>}}
Sane(o) == (~o.hasallow => o.allow = <<>>) /\ (~o.hasdeny => o.deny = <<>>)
More == [sha |-> <<<<>>, <<>>>>, hashdr |-> FALSE, delim |-> 44, quote |-> "necessary", nf |-> <<>>, q |-> <<[k |-> "path", p |-> PpnPath]>>,
         qo |-> [squash |-> FALSE, merge |-> FALSE, sep |-> <<124>>, ci |-> FALSE, th |-> 75],
         noempty |-> FALSE, num |-> 0, threshold |-> 0, rev |-> FALSE, hasnf |-> FALSE, level |-> "main"]
SelInit == \E cmd \in {"filter", "count", "print", "select", "split", "sample", "frequency", "describe", "slice", "partition", "explode"},
             f1 \in Streams(MaxLines) :
             \E o \in {x \in SelOpts : Sane(x)} :
               InitJob([cmd |-> cmd, o |-> (IF cmd = "filter" THEN [o EXCEPT !.hasw = TRUE] ELSE o) @@ More, files |-> <<f1>>])
SelSpec == SelInit /\ [][Next]_vars

Id(l) == Ppn(Decode(l).rec)
All1 == job.files[1]
Vis1 == IF job.o.skip THEN SelectSeq(All1, Valid)
        ELSE LET B == {k \in 1..Len(All1) : ~Valid(All1[k])}
             IN IF B = {} THEN All1 ELSE SubSeq(All1, 1, (CHOOSE k \in B : \A j \in B : k <= j) - 1)
Good(l) == /\ job.o.hasdeny => Id(l) \notin Range1(job.o.deny)
           /\ job.o.hasallow => Id(l) \in Range1(job.o.allow)
           /\ job.o.hasw => l = L2
Want == LET w == SelectSeq(Vis1, Good) IN IF job.o.limit > 0 THEN Take(w, job.o.limit) ELSE w
SelCount == Ended => st.sel = Len(Want)
SelPrefix == st.sel <= Len(Want)
Exact ==
  Ended => CASE job.cmd \in {"filter", "explode"} -> Out = Flat(Want)
             [] job.cmd = "slice" -> Out = Flat(Want)
             [] job.cmd = "select" -> Len(st.out) = Len(Want)
             [] job.cmd = "count" -> status = "ok" => st.out = <<Dec(Len(Want)) \o <<NL>>>>
             [] job.cmd = "sample" -> st.held = Want
             [] OTHER -> TRUE
=============================================================================
