------------------------------ MODULE MCFormat ------------------------------
(***************************************************************************)
(* Laws of format strings over small fields.                               *)
(***************************************************************************)
EXTENDS Query

CONSTANTS MaxSubs
Vals == { <<>>, <<97>>, <<64, 66>>, <<32, 99, 32>>, <<195, 188>> }
VARIABLES f
Init == f = [tag |-> <<48,50,56,65>>, occ |-> <<>>, sub |-> <<>>]
Next == Len(f.sub) < MaxSubs /\ \E c \in {97, 98}, v \in Vals : f' = [f EXCEPT !.sub = Append(@, [c |-> c, v |-> v])]
Spec == Init /\ [][Next]_f

Cd(c) == [all |-> FALSE, r |-> <<<<c, c>>>>]
Mods == {<<>>, <<"l">>, <<"u">>, <<"t">>, <<"w">>, <<"o">>, <<"o", "t", "w", "l", "u">>}
Val(c, pre, suf, n, mod) == [k |-> "val", cs |-> Cd(c), pre |-> pre, suf |-> suf, n |-> n, mod |-> mod]
Vs == {Val(c, p, s, n, m) : c \in {97, 98}, p \in {<<>>, <<60>>}, s \in {<<>>, <<62>>}, n \in {-1, 0, 1, 2}, m \in {<<>>, <<"l">>, <<"o">>}}
W(x) == FmtFrag(x, f)
RECURSIVE Iter(_, _)
Iter(m, v) == Modify(m, v)

\* modifiers other than strip-@ are projections: applying them twice changes nothing
Idempotent == \A m \in Mods : ~Has(m, "o") => \A s \in Range1(f.sub) : Modify(m, Modify(m, s.v)) = Modify(m, s.v)
\* the order modifiers are written in does not matter
OrderFree == \A s \in Range1(f.sub) : Modify(<<"l", "t", "o">>, s.v) = Modify(<<"o", "l", "t">>, s.v)
\* no bound shows at least what a bound shows, and a bound of n shows the first n
Bounds == \A c \in {97, 98} :
   LET all == W(Val(c, <<>>, <<62>>, -1, <<>>))
   IN \A n \in 0..3 : IsPre(W(Val(c, <<>>, <<62>>, n, <<>>)), all)
Zero == \A x \in Vs : x.n = 0 => W(x) = <<>>
\* concatenation is associative; "then" is concatenation up to the first empty part
ConsAssoc == \A x, y \in {Val(97, <<60>>, <<>>, -1, <<>>), Val(98, <<>>, <<>>, 1, <<"l">>), Val(98, <<>>, <<62>>, 1, <<>>)} :
   /\ W([k |-> "cons", xs |-> <<x, y>>]) = W(x) \o W(y)
   /\ W([k |-> "then", xs |-> <<x, y>>]) = (IF W(x) = <<>> THEN <<>> ELSE W(x) \o W(y))
   /\ W([k |-> "grp", mod |-> <<>>, x |-> x]) = W(x)
ThenIsPrefix == \A x, y, z \in {Val(97, <<60>>, <<>>, -1, <<>>), Val(98, <<>>, <<>>, 1, <<>>), Val(98, <<>>, <<62>>, 1, <<"o">>)} :
   IsPre(W([k |-> "then", xs |-> <<x, y, z>>]), W([k |-> "cons", xs |-> <<x, y, z>>]))
\* a field without the codes renders to nothing, whatever prefix and suffix say
NoValueNoText == \A x \in Vs : (\A s \in Range1(f.sub) : ~CodeMatch(x.cs, s.c)) => W(x) = <<>>
=============================================================================
