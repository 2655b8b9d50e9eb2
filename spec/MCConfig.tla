------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* All stores and all invocations.  With EMIT set, every transition is     *)
(* printed, and the check replays each of them in the real program.        *)
(***************************************************************************)
EXTENDS Config, IOUtils

View == store
Emit == \/ "EMIT" \notin DOMAIN IOEnv \/ IOEnv.EMIT # "1"
        \/ PrintT(<<"T", store.there, store.opt["skip-invalid"], store.opt["normalization"], answer'.op, answer'.name,
                    answer'.val, answer'.exit, answer'.out, store'.there, store'.opt["skip-invalid"], store'.opt["normalization"]>>)

TypeOk == store \in Stores
\* what the last invocation said is true of the store
GetTrue == answer.op = "get" /\ answer.exit = 0 => answer.out = <<store.opt[answer.name]>>
SetHolds == answer.op = "set" /\ answer.exit = 0 => store.there /\ store.opt[answer.name] = answer.val
UnsetHolds == answer.op = "unset" /\ answer.exit = 0 => store.opt[answer.name] = Default[answer.name]
\* an invocation changes the option it names and no other, and only a successful set or unset writes
OnlyNamed == [][\A n \in Names : store'.opt[n] # store.opt[n] => answer'.name = n /\ answer'.exit = 0 /\ answer'.op \in {"set", "unset"}]_cvars
OnlyWrites == [][store' # store => answer'.exit = 0 /\ answer'.op \in {"set", "unset"}]_cvars
NeverRemoved == [][store.there => store'.there]_cvars
\* the last write of an option decides
LastWrite == [][answer'.op = "set" /\ answer'.exit = 0 => store'.opt[answer'.name] = answer'.val]_cvars
=============================================================================
