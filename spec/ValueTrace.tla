----------------------------- MODULE ValueTrace -----------------------------
(* Recorded library histories: every one must be accepted or rejected as   *)
(* Values says, and its result must make of every probe record what the    *)
(* specification makes of it.                                              *)
EXTENDS Values, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, done
C == Cases[id]
Verdict ==
  LET z == RunProg(C.kind, C.prog)
      v == z.st[Len(z.st)]
      n == Len(C.recs)
      \* an expression keeps nothing from one question to the next
      want == TLCEval([k \in 1..(n * Len(C.os)) |-> Denote(C.kind, v, Decode(C.recs[((k - 1) % n) + 1]).rec, C.os[((k - 1) \div n) + 1])])
  IN CASE C.obs.panic -> "bad:panic"
       [] z.ok /\ IsUnk(C.kind, v) -> "skip"
       [] ~z.ok -> IF C.obs.acc THEN "bad:accepted" ELSE "no"
       [] ~C.obs.acc -> "bad:rejected"
       [] want # C.obs.res -> "bad:meaning"
       [] OTHER -> "ok"
\* the same of an expression on the command line: one that is none is
\* refused before anything is written
AtCli ==
  LET z == RunProg(C.kind, C.prog)
  IN CASE z.ok /\ IsUnk(C.kind, z.st[1]) -> "skip"
       [] ~z.ok -> IF C.cli.exit = 2 /\ C.cli.out = <<>> /\ ~C.cli.made THEN "no" ELSE "bad:accepted"
       [] C.cli.exit # 0 -> "bad:refused"
       [] OTHER -> "ok"
ValueInit == id \in 1..Len(Cases) /\ done = FALSE
ValueNext == /\ ~done /\ done' = TRUE /\ id' = id
             /\ PrintT(<<"V", id, IF "cli" \in DOMAIN C THEN AtCli ELSE Verdict>>)
ValueSpec == ValueInit /\ [][ValueNext]_<<id, done>>
=============================================================================
