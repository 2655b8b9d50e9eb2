------------------------------ MODULE MCOutput ------------------------------
(* All runs of up to three pieces of up to two bytes against all sinks.    *)
EXTENDS Output
Pieces == {<<>>, <<65>>, <<66, 10>>}
Runs == [want : UNION {[1..n -> Pieces] : n \in 0..3}, ends : {"ok", "err"}, kind : {"none", "full", "closed"}, room : 0..7]
MCInit == OutInit(Runs)
MCSpec == MCInit /\ [][OutNext]_ovars /\ WF_ovars(OutNext)
Want == Flat(run.want)
\* what is in the sink is always the beginning of what was to be written
Prefix == IsPrefixOf(sunk, Want)
Ends == state = "done" => Allowed(run.kind, run.room, Want, run.ends, sunk, code)
\* success means that everything is there, unless nobody reads it
NoSilentLoss == state = "done" /\ code = 0 => sunk = Want \/ run.kind = "closed"
NoFalseAlarm == state = "done" /\ code = 2 => run.ends = "err" \/ (run.kind = "full" /\ Len(Want) > run.room)
Finishes == <>(state = "done")
=============================================================================
