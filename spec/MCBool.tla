------------------------------- MODULE MCBool -------------------------------
(***************************************************************************)
(* Precedence.  Every boolean tree up to a depth, printed with as few      *)
(* parentheses as the precedence ! > && > ^ > || allows, and once with all *)
(* of them, must evaluate to the value of the tree under every assignment. *)
(***************************************************************************)
EXTENDS Matcher

CONSTANTS NAtoms

Leaves == {[op |-> "atom", i |-> i] : i \in 1..NAtoms}
Grow(S) == S \cup {[op |-> "not", a |-> x] : x \in S}
             \cup {[op |-> o, a |-> x, b |-> y] : o \in {"and", "or", "xor"}, x \in S, y \in S}
Small == Grow(Leaves)
Trees == Small \cup {[op |-> "not", a |-> x] : x \in Small}
               \cup {[op |-> o, a |-> x, b |-> y] : o \in {"and", "or", "xor"}, x \in Small, y \in Small}
Prec(op) == CASE op = "or" -> 1 [] op = "xor" -> 2 [] op = "and" -> 3 [] op = "not" -> 4 [] op = "atom" -> 5
Tok(k) == <<[k |-> k]>>
Par(s) == Tok("(") \o s \o Tok(")")
RECURSIVE Show(_, _)
Show(t, full) ==
  LET sub(x) == IF Prec(x.op) < Prec(t.op) \/ (full /\ x.op # "atom") THEN Par(Show(x, full)) ELSE Show(x, full)
  IN CASE t.op = "atom" -> <<[k |-> "atom", a |-> t.i]>>
       [] t.op = "not" -> Tok("not") \o sub(t.a)
       [] OTHER -> sub(t.a) \o Tok(t.op) \o sub(t.b)
RECURSIVE Truth(_, _)
Truth(t, v) ==
  CASE t.op = "atom" -> v[t.i]
    [] t.op = "not" -> ~Truth(t.a, v)
    [] t.op = "and" -> Truth(t.a, v) /\ Truth(t.b, v)
    [] t.op = "or" -> Truth(t.a, v) \/ Truth(t.b, v)
    [] t.op = "xor" -> Truth(t.a, v) # Truth(t.b, v)
ValuesOf(toks, v) == [i \in 1..Len(toks) |-> toks[i].k = "atom" /\ v[toks[i].a]]

VARIABLES tree, v
Init == tree \in Trees /\ v \in [1..NAtoms -> BOOLEAN]
Next == UNCHANGED <<tree, v>>
Spec == Init /\ [][Next]_<<tree, v>>
Agree(full) == LET s == Show(tree, full) IN Eval(s, ValuesOf(s, v)) = Truth(tree, v)
Minimal == Agree(FALSE)
Full == Agree(TRUE)
\* printing with few parentheses loses no token but parentheses
Pruned == LET strip(s) == SelectSeq(s, LAMBDA t : t.k \notin {"(", ")"})
          IN strip(Show(tree, FALSE)) = strip(Show(tree, TRUE))
=============================================================================
