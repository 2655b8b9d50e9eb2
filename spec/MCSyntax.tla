------------------------------ MODULE MCSyntax ------------------------------
(***************************************************************************)
(* The expression languages as languages: texts are put together token by  *)
(* token, and for every text the properties a writer of expressions relies *)
(* on are checked, whether or not the text is an expression.               *)
(***************************************************************************)
EXTENDS Values
CONSTANTS MaxFilter, MaxSub, MaxPath, MaxFormat

FilterToks == {<<48, 49, 50, 65>>, <<47, 42>>, <<46>>, <<36>>, <<63>>, <<123>>, <<125>>, <<40>>, <<41>>, <<33>>, <<38, 38>>,
               <<124, 124>>, <<94>>, <<35>>, <<61, 61>>, <<49>>, <<97>>, <<39, 98, 39>>, <<32>>, QuantAll}
SubToks == {<<97>>, <<91, 97, 45, 99, 93>>, <<42>>, <<63>>, <<35>>, <<61, 61>>, <<33, 126>>, <<61, 63>>, <<62>>, <<49>>, <<39, 98, 39>>, <<105, 110>>,
            <<91>>, <<93>>, <<44>>, <<40>>, <<41>>, <<33>>, <<38, 38>>, <<124, 124>>, <<32>>, QuantAny}
PathToks == {<<48, 49, 50, 65>>, <<47, 42>>, <<46>>, <<36>>, <<123>>, <<125>>, <<40>>, <<41>>, <<44>>, <<97>>, <<98>>, <<124>>, <<97, 63>>, <<32>>}
FormatToks == {<<97>>, <<98>>, <<46, 46>>, <<50>>, <<63, 117>>, <<60, 42, 62>>, <<60, 36, 62>>, <<40>>, <<41>>, <<124>>, <<97, 63>>, <<32>>, <<39, 120, 39>>}
Toks == [filter |-> FilterToks, sub |-> SubToks, path |-> PathToks, format |-> FormatToks]
Start(kind) == IF kind = "format" THEN <<48, 49, 50, 65, 123>> ELSE <<>>
End(kind) == IF kind = "format" THEN <<125>> ELSE <<>>
MaxOfKind(kind) == CASE kind = "filter" -> MaxFilter [] kind = "sub" -> MaxSub [] kind = "path" -> MaxPath [] kind = "format" -> MaxFormat

VARIABLES kind, body, n
Init == kind \in {"filter", "sub", "path", "format"} /\ body = <<>> /\ n = 0
Next == /\ n < MaxOfKind(kind)
        /\ \E t \in Toks[kind] : body' = body \o t
        /\ n' = n + 1 /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, body, n>>

Text == Start(kind) \o body \o End(kind)
Probe == << [tag |-> <<48, 49, 50, 65>>, occ |-> <<>>, sub |-> <<[c |-> 97, v |-> <<98>>], [c |-> 98, v |-> <<>>]>>],
            [tag |-> <<48, 49, 50, 65>>, occ |-> <<48, 49>>, sub |-> <<[c |-> 97, v |-> <<97>>], [c |-> 97, v |-> <<98>>]>>],
            [tag |-> <<48, 49, 51, 65>>, occ |-> <<>>, sub |-> <<>>] >>
QO == [ci |-> FALSE, th |-> 80, squash |-> FALSE, merge |-> FALSE, sep |-> <<124>>]
\* a meaning per kind and text: what it makes of the probe, or "none"
Means(k, s) == LET r == Parse(k, s) IN [ok |-> r.ok, d |-> IF r.ok /\ ~IsUnk(k, r.v) THEN Denote(k, r.v, Probe, QO) ELSE <<>>]
Pl(s) == <<40>> \o s \o <<41>>
Sps == <<32>>
Accepted == Parse(kind, Text).ok
Whole == kind \in {"filter", "sub"}

\* blanks around a filter, a subfield expression or a path change nothing,
\* and none may stand before a format
Around == IF kind = "format" THEN ~Means(kind, Sps \o Text).ok /\ Means(kind, Text \o Sps) = Means(kind, Text)
          ELSE Means(kind, Sps \o Text \o Sps) = Means(kind, Text)
\* brackets change neither whether it is an expression nor what it means
Brackets == Whole => Means(kind, Pl(Text)) = Means(kind, Text)
Not(b) == IF kind = "filter" THEN ~b ELSE Map(b, LAMBDA x : ~x)
Negation == Whole /\ Accepted => /\ Means(kind, <<33>> \o Pl(Text)).ok
                                 /\ Means(kind, <<33>> \o Pl(Text)).d = Not(Means(kind, Text).d)
                                 /\ Means(kind, <<33, 33>> \o Pl(Text)) = Means(kind, Text)
\* the connectives join any two expressions; one more operator does not
Twice(op) == Means(kind, Pl(Text) \o op \o Pl(Text))
Joined == Whole => /\ Twice(<<38, 38>>) = Means(kind, Text)
                   /\ Twice(<<124, 124>>) = Means(kind, Text)
                   /\ ~Means(kind, Text \o <<38, 38>>).ok
                   /\ ~Means(kind, <<124, 124>> \o Text).ok
\* nothing may follow an expression
Closed == Accepted => ~Parse(kind, Text \o <<59>>).ok /\ ~Parse(kind, Text \o <<41>>).ok
\* a path or format is a query of its own, and a path is never read as a format
AsQuery == kind \in {"path", "format"} /\ Accepted =>
             LET q == Parse("query", Text)
                 p == Parse("path", Text)
             IN q.ok /\ Len(q.v) = 1 /\ q.v[1].k = (IF p.ok THEN "path" ELSE "fmt")
\* the filter language contains the subfield language between braces
InBraces == kind = "sub" => Parse("filter", <<48, 49, 50, 65, 123>> \o Text \o <<125>>).ok = Accepted
\* combining values is what putting texts together means
AsValues ==
  Whole /\ Accepted =>
    LET v == Parse(kind, Text).v
        d(x) == Denote(kind, x, Probe, QO)
    IN IsUnk(kind, v) \/
       /\ d(Negated(v)) = Means(kind, <<33>> \o Pl(Text)).d
       /\ d(Both("xor", v, v)) = Not(d(Both("or", v, Negated(v))))
       /\ d(Both("and", v, Negated(v))) = Not(d(Both("or", v, Negated(v))))
=============================================================================
