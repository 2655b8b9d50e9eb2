------------------------------ MODULE MCRender ------------------------------
(***************************************************************************)
(* Output formats lose nothing: whatever a value is, the rendering can be   *)
(* undone.  A behaviour appends one byte at a time to a value.              *)
(***************************************************************************)
EXTENDS Commands

CONSTANTS MaxLen
Alphabet == {9, 13, 32, 34, 36, 38, 39, 44, 60, 62, 92, 97, 46, 49, 195, 188}
VARIABLES v
Init == v = <<>>
Next == Len(v) < MaxLen /\ \E b \in Alphabet : v' = Append(v, b)
Spec == Init /\ [][Next]_v

(*------------------------------ readers ----------------------------------*)
RECURSIVE UnJson(_, _), UnXml(_, _), UnPlain(_, _), UnCsv(_, _)
UnJson(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 92 THEN <<s[i]>> \o UnJson(s, i + 1)
  ELSE LET c == CASE s[i + 1] = 110 -> 10 [] s[i + 1] = 114 -> 13 [] s[i + 1] = 116 -> 9
                  [] s[i + 1] = 98 -> 8 [] s[i + 1] = 102 -> 12 [] OTHER -> s[i + 1]
       IN <<c>> \o UnJson(s, i + 2)
Ents == { << <<38, 108, 116, 59>>, 60>>, << <<38, 103, 116, 59>>, 62>>, << <<38, 97, 109, 112, 59>>, 38>>,
          << <<38, 97, 112, 111, 115, 59>>, 39>>, << <<38, 113, 117, 111, 116, 59>>, 34>> }
UnXml(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 38 THEN <<s[i]>> \o UnXml(s, i + 1)
  ELSE LET e == CHOOSE e \in Ents : IsPre(e[1], SubSeq(s, i, Len(s))) IN <<e[2]>> \o UnXml(s, i + Len(e[1]))
UnPlain(s, i) ==
  IF i > Len(s) THEN <<>> ELSE <<s[i]>> \o UnPlain(s, IF s[i] = 36 THEN i + 2 ELSE i + 1)
UnCsv(s, i) ==
  IF i > Len(s) THEN <<>> ELSE <<s[i]>> \o UnCsv(s, IF s[i] = 34 THEN i + 2 ELSE i + 1)
Inner(s) == SubSeq(s, 2, Len(s) - 1)

Json == LET j == JsonStr(v) IN j[1] = 34 /\ j[Len(j)] = 34 /\ UnJson(Inner(j), 1) = Lossy(v)
JsonClosed == LET j == Inner(JsonStr(v))
              IN \A i \in 1..Len(j) : j[i] = 34 =>
                   Cardinality({k \in 1..(i - 1) : \A m \in k..(i - 1) : j[m] = 92}) % 2 = 1
Xml == UnXml(XmlText(v), 1) = v /\ \A i \in 1..Len(XmlText(v)) : XmlText(v)[i] \notin {60, 62, 34}
Rec == <<[tag |-> <<48,49,50,65>>, occ |-> <<>>, sub |-> <<[c |-> 97, v |-> v], [c |-> 98, v |-> <<>>]>>]>>
Plain == LET p == PlainRec(Rec)
             t == SubSeq(p, 8, Len(p) - 3)
         IN UnPlain(t, 1) = v
Csv == \A d \in {9, 44} : \A style \in {"necessary", "always", "non-numeric"} :
   LET q == QCell(v, d, style, TRUE)
   IN IF q # <<>> /\ q[1] = 34 /\ Len(q) > 1 /\ (v = <<>> \/ q # v) THEN UnCsv(Inner(q), 1) = v
      ELSE q = v /\ ~(\E i \in 1..Len(v) : v[i] \in {d, 34, 10, 13})
Necessary == \A d \in {9, 44} : Cell(v, d) # v => NeedsQuote(v, d)
AlwaysQuoted == QCell(v, 44, "always", FALSE) = Quoted(v)
BinaryIs == BinaryRec(Rec) = SubSeq(Encode(Rec), 1, Len(Encode(Rec)) - 1) \o <<29>>
=============================================================================
