------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* Histories of library calls on expressions.  Whatever is built, the      *)
(* result is the truth function of the parts; how it was put together and  *)
(* how often it was written out do not matter.                             *)
(***************************************************************************)
EXTENDS Values
CONSTANTS MaxSteps
A1 == <<97, 63>>                               \* a?
A2 == <<98, 63, 124, 124, 97, 63>>             \* b?||a?
A3 == <<33, 98, 63, 94, 97, 63, 38, 38, 98, 63>>  \* !b?^a?&&b?
Bad == <<97, 38, 38>>
Fields == {[tag |-> <<48, 49, 50, 65>>, occ |-> <<>>,
            sub |-> (IF x THEN <<[c |-> 97, v |-> <<>>]>> ELSE <<>>) \o (IF y THEN <<[c |-> 98, v |-> <<49>>]>> ELSE <<>>)]
           : x \in BOOLEAN, y \in BOOLEAN}
MO == [ci |-> FALSE, th |-> 80]
Truth(e) == {f \in Fields : SubMatch(e, f, MO)}

\* stack: the expressions; sets: the sets of fields they ought to select
VARIABLES stack, sets, failed, n
vvars == <<stack, sets, failed, n>>
Init == stack = <<>> /\ sets = <<>> /\ failed = FALSE /\ n = 0
HasCode(t, c) == \E i \in 1..Len(t.sub) : t.sub[i].c = c
SetOf(t) == CASE t = A1 -> {f \in Fields : HasCode(f, 97)}
              [] t = A2 -> {f \in Fields : HasCode(f, 97) \/ HasCode(f, 98)}
              [] t = A3 -> {f \in Fields : ~HasCode(f, 98) # (HasCode(f, 97) /\ HasCode(f, 98))}
              [] OTHER -> {}
Load(t) == LET r == Do("sub", stack, [op |-> "load", text |-> t])
           IN /\ Len(stack) < 3 /\ stack' = r.st /\ failed' = ~r.ok
              /\ sets' = IF r.ok THEN Append(sets, SetOf(t)) ELSE <<>>
WriteOut == stack # <<>> /\ stack' = Do("sub", stack, [op |-> "print"]).st /\ UNCHANGED <<sets, failed>>
Neg == /\ stack # <<>> /\ stack' = Do("sub", stack, [op |-> "not"]).st
       /\ sets' = [sets EXCEPT ![Len(sets)] = Fields \ @] /\ UNCHANGED failed
Combine(op) ==
  LET k == Len(sets)
      x == sets[k - 1]
      y == sets[k]
  IN /\ k >= 2 /\ stack' = Do("sub", stack, [op |-> op]).st
     /\ sets' = Append(SubSeq(sets, 1, k - 2), CASE op = "and" -> x \cap y
                                                 [] op = "or" -> x \cup y
                                                 [] op = "xor" -> (x \cup y) \ (x \cap y))
     /\ UNCHANGED failed
Next == /\ ~failed /\ n < MaxSteps /\ n' = n + 1
        /\ (\/ \E t \in {A1, A2, A3, Bad} : Load(t)
            \/ WriteOut \/ Neg
            \/ \E op \in {"and", "or", "xor"} : Combine(op))
Spec == Init /\ [][Next]_vvars
Meaning == Len(stack) = Len(sets) /\ \A i \in 1..Len(stack) : Truth(stack[i]) = sets[i]
FailsOnBad == failed => stack = <<>>
\* the builder: ands and nots narrow, ors widen what is there so far
Steps3 == {"and", "or", "not"}
Builder ==
  n = 0 => \A o1 \in Steps3, o2 \in Steps3 :
    LET fil(t) == <<48, 49, 50, 65, 123>> \o t \o <<125>>
        one(S, o, T) == CASE o = "and" -> S \cap T [] o = "or" -> S \cup T [] o = "not" -> S \ T
        r == Built([text |-> fil(A1), and |-> <<fil(A2)>>, or |-> <<fil(A3)>>, not |-> <<fil(A3)>>, order |-> <<o1, o2>>, upper |-> FALSE])
        T(o) == IF o = "and" THEN SetOf(A2) ELSE SetOf(A3)
    IN r.ok /\ {f \in Fields : Matches(r.v, <<f>>, MO)} = one(one(SetOf(A1), o1, T(o1)), o2, T(o2))
=============================================================================
