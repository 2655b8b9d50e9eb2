------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Expressions as values: a library user reads them, combines them with    *)
(* the operators &, |, ^ and !, writes them out and reads them back.  A    *)
(* history of such steps works on a stack.                                 *)
(***************************************************************************)
EXTENDS Syntax

Both(op, x, y) == TOpen \o x \o TClose \o <<[k |-> op]>> \o TOpen \o y \o TClose
Negated(x) == TNot \o TOpen \o x \o TClose
\* the transformation given to the builder in the conformance runs
Transformed(step, t) == IF step.upper THEN Map(t, LAMBDA b : IF b = 126 THEN 97 ELSE b) ELSE t
RECURSIVE BuildList(_, _, _, _)
\* each of the texts widens or narrows the expression that is built
BuildList(e, what, ts, k) ==
  IF k > Len(ts) \/ ~e.ok THEN e
  ELSE LET r == Parse("filter", ts[k])
       IN IF ~r.ok THEN NO
          ELSE BuildList(OK(0, CASE what = "and" -> Both("and", e.v, r.v)
                                 [] what = "or" -> Both("or", e.v, r.v)
                                 [] what = "not" -> Both("and", e.v, Negated(r.v))), what, ts, k + 1)
Built(step) ==
  LET texts(what) == Map(CASE what = "and" -> step.and [] what = "or" -> step.or [] what = "not" -> step.not,
                         LAMBDA t : Transformed(step, t))
  IN FoldLeft(LAMBDA e, what : IF ~e.ok THEN e ELSE BuildList(e, what, texts(what), 1),
              Parse("filter", Transformed(step, step.text)), step.order)
\* stack is <<>> after a step that failed
Do(kind, stack, step) ==
  LET n == Len(stack)
      push(m, r) == IF r.ok THEN [ok |-> TRUE, st |-> Append(SubSeq(stack, 1, m), r.v)] ELSE [ok |-> FALSE, st |-> <<>>]
  IN CASE step.op = "load" -> push(n, Parse(kind, step.text))
       [] step.op = "print" -> [ok |-> TRUE, st |-> stack]
       [] step.op = "not" -> push(n - 1, OK(0, Negated(stack[n])))
       [] step.op = "build" -> push(n, Built(step))
       [] OTHER -> push(n - 2, OK(0, Both(step.op, stack[n - 1], stack[n])))
RunProg(kind, prog) ==
  FoldLeft(LAMBDA z, step : IF z.ok THEN Do(kind, z.st, step) ELSE z, [ok |-> TRUE, st |-> <<>>], prog)
=============================================================================
