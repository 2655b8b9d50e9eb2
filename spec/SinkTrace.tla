----------------------------- MODULE SinkTrace -----------------------------
(* Runs of which only the output and the exit status matter.               *)
EXTENDS Output, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE id
SinkInit == id \in 1..Len(Cases) /\ run = 0 /\ made = 0 /\ sunk = <<>> /\ state = "run" /\ code = 0
C == Cases[id]
SinkNext == /\ id > 0 /\ state = "run"
            /\ PrintT(<<"V", id, IF Allowed(C.kind, C.room, C.want, C.ends, C.got, C.exit) THEN "ok" ELSE "bad:fault">>)
            /\ id' = id /\ state' = "done" /\ UNCHANGED <<run, made, sunk, code>>
SinkSpec == SinkInit /\ [][SinkNext]_<<id, ovars>>
=============================================================================
