------------------------------- MODULE MCQuery -------------------------------
(***************************************************************************)
(* Laws of queries over small records: how many rows and columns there are, *)
(* what --merge and --squash may change, and that every value shown is a    *)
(* value of the record under the path that shows it.                        *)
(***************************************************************************)
EXTENDS Query

CONSTANTS MaxSubs
Tg(x) == [i \in 1..4 |-> [k |-> "c", c |-> x[i]]]
TA == <<48,49,50,65>>
TB == <<48,49,51,68>>
Vals == { <<>>, <<49>>, <<50, 51>> }
VARIABLES rec
Init == rec = <<>>
NewSub == rec # <<>> /\ Len(rec[Len(rec)].sub) < MaxSubs
          /\ \E c \in {97, 98}, v \in Vals : rec' = [rec EXCEPT ![Len(rec)].sub = Append(@, [c |-> c, v |-> v])]
NewField == Len(rec) < 2 /\ \E t \in {TA, TB} : rec' = Append(rec, [tag |-> t, occ |-> <<>>, sub |-> <<>>])
Next == NewSub \/ NewField
Spec == Init /\ [][Next]_rec

Cd(s) == [all |-> FALSE, r |-> [i \in 1..Len(s) |-> <<s[i], s[i]>>]]
Star == [all |-> TRUE, r |-> <<>>]
Pth(t, cs) == [t |-> Tg(t), o |-> [k |-> "none"], codes |-> cs, has |-> FALSE, m |-> <<>>]
Frags == { [k |-> "path", p |-> Pth(TA, <<Cd(<<97>>)>>)], [k |-> "path", p |-> Pth(TA, <<Cd(<<97>>), Cd(<<98>>)>>)],
           [k |-> "path", p |-> Pth(TB, <<Star>>)], [k |-> "path", p |-> Pth(TA, <<Cd(<<97, 98>>), Cd(<<97>>)>>)],
           [k |-> "lit", v |-> <<76>>] }
Queries == {<<f>> : f \in Frags} \cup {<<f, g>> : f, g \in Frags}
QO(s, m) == [squash |-> s, merge |-> m, sep |-> <<124>>, ci |-> FALSE, th |-> 75]
Width(q) == Sum(Map(q, LAMBDA f : IF f.k = "path" THEN Len(f.p.codes) ELSE 1))
Rows(q, s, m) == QueryRows(q, rec, QO(s, m))

Rectangular == \A q \in Queries, s, m \in BOOLEAN : \A r \in Range1(Rows(q, s, m)) : Len(r) = Width(q)
NeverNone == \A q \in Queries, s, m \in BOOLEAN : Rows(q, s, m) # <<>>
MergeIsOne == \A q \in Queries, s \in BOOLEAN : Len(Rows(q, s, TRUE)) = 1
\* the rows of two fragments are all combinations of their rows
ProductLaw == \A f, g \in Frags :
   /\ Len(Rows(<<f, g>>, FALSE, FALSE)) = Len(Rows(<<f>>, FALSE, FALSE)) * Len(Rows(<<g>>, FALSE, FALSE))
   /\ Range1(Rows(<<f, g>>, FALSE, FALSE)) = {x \o y : x \in Range1(Rows(<<f>>, FALSE, FALSE)), y \in Range1(Rows(<<g>>, FALSE, FALSE))}
\* a one-column path shows each of its values, in record order, and blanks otherwise
Column == \A f \in Frags : f.k = "path" /\ Len(f.p.codes) = 1 =>
   LET col == SelectSeq(Map(Rows(<<f>>, FALSE, FALSE), LAMBDA r : r[1]), LAMBDA v : v # <<>>)
   IN col = SelectSeq(PathValues(f.p, rec, QO(FALSE, FALSE)), LAMBDA v : v # <<>>)
\* squashing leaves one row per field
SquashRows == \A f \in Frags : f.k = "path" =>
   Len(Rows(<<f>>, TRUE, FALSE)) = MaxOf(1, Len(Sel(f.p, rec, QO(TRUE, FALSE))))
\* joining with the separator loses no value: undoing it gives the column back
Undo(v) == Split(v, 124)
SquashKeeps == \A f \in Frags : f.k = "path" /\ Len(f.p.codes) = 1 /\ PathValues(f.p, rec, QO(FALSE, FALSE)) # <<>> =>
   SelectSeq(FlatMap(Rows(<<f>>, TRUE, FALSE), LAMBDA r : Undo(r[1])), LAMBDA v : v # <<>>)
     = SelectSeq(PathValues(f.p, rec, QO(FALSE, FALSE)), LAMBDA v : v # <<>>)
=============================================================================
