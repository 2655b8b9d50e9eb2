-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: every recorded run of the real program must be a behaviour *)
(* of Pipeline.  A case is a job together with what was observed; TLC      *)
(* replays the job through Pipeline's actions and compares.  One verdict   *)
(* is printed per case; the driver requires exactly one for every case.    *)
(***************************************************************************)
EXTENDS Pipeline, Json, IOUtils
Sink == INSTANCE Output WITH run <- 0, made <- 0, sunk <- 0, state <- 0, code <- 0

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLE id
tvars == <<vars, id>>
Obs == Cases[id].obs

TraceInit == \E c \in 1..Len(Cases) : id = c /\ InitJob(Cases[c])

ObsFiles == {<<Obs.files[k].name, Flat(Obs.files[k].lines)>> : k \in 1..Len(Obs.files)}
SpecFiles(s) == {<<n, Flat(s.files[n])>> : n \in DOMAIN s.files}
\* commands that only write at the end have written nothing when they fail
Late == {"count", "frequency", "describe", "sample"}
Whole == IF job.cmd = "check" THEN Flat(CheckLines(job.o, st.held)) ELSE Flat(st.out)
Shown == IF status \in {"err", "lost"} /\ job.cmd \in Late THEN <<>> ELSE Whole

OutOk(got) ==
  IF job.cmd = "sample" /\ status = "ok" THEN SampleOk(st.held, job.o.size, Obs.out)
  ELSE IF job.cmd = "check" THEN CheckOk(job.o, st.held, Obs.out)
  ELSE got = Flat(Obs.out)
(* A run with a fault: the main output and every further file is a sink   *)
(* of its own (kind "full"), or the main output is (kind "closed"), or the *)
(* further files are ("teefull", "teefullgz"), or the main output has no   *)
(* room at all while the further files do ("mainfull").                    *)
HasFault == "fault" \in DOMAIN Cases[id]
Fault == Cases[id].fault
Torn == \E k \in 1..Len(job.files) : EndOf(k) = "torn"
RunEnds == IF status = "ok" THEN "ok" ELSE "err"
Over(bytes) == Len(bytes) > Fault.room
FilePrefixes == \A f \in ObsFiles : \E g \in SpecFiles(st) : f[1] = g[1] /\ Sink!IsPrefixOf(f[2], g[2])
FileLimits == Fault.kind \in {"full", "teefull"} => \A f \in ObsFiles : Len(f[2]) <= Fault.room
Gave(got) == got = Shown /\ Obs.exit = Sink!ExitOf(RunEnds)
JudgeTee ==
  LET got == Flat(Obs.out)
      over == IF Fault.kind = "mainfull" THEN Shown # <<>> ELSE \E g \in SpecFiles(st) : Over(g[2])
  IN CASE ~FilePrefixes -> "bad:files"
       [] ~FileLimits -> "bad:room"
       [] Obs.exit = 0 /\ SpecFiles(st) # ObsFiles -> "bad:files"
       [] Fault.kind = "mainfull" -> IF got = <<>> /\ (IF over THEN Obs.exit = 2 ELSE Gave(got)) THEN "ok" ELSE "bad:fault"
       [] Fault.kind = "teefullgz" -> IF Sink!IsPrefixOf(got, Shown) /\ (Obs.exit = 2 \/ Gave(got)) THEN "ok" ELSE "bad:fault"
       [] OTHER -> IF (IF over THEN Sink!IsPrefixOf(got, Shown) /\ Obs.exit = 2 ELSE Gave(got)) THEN "ok" ELSE "bad:fault"
JudgeFault ==
  LET got == Flat(Obs.out)
      over == \/ Fault.kind = "full" /\ (Over(Shown) \/ \E g \in SpecFiles(st) : Over(g[2]))
              \/ Fault.kind = "closed" /\ Over(Shown) /\ DOMAIN st.files # {}
  IN CASE Fault.kind \in {"teefull", "teefullgz", "mainfull"} -> JudgeTee
       [] ~FilePrefixes -> "bad:files"
       [] ~FileLimits -> "bad:room"
       [] Obs.exit = 0 /\ Fault.kind # "closed" /\ SpecFiles(st) # ObsFiles -> "bad:files"
       [] over -> IF Sink!IsPrefixOf(got, Shown) /\ (Fault.kind = "full" => Len(got) <= Fault.room)
                     /\ (Fault.kind = "closed" => Len(got) = Fault.room)
                     /\ Obs.exit \in (IF Fault.kind = "full" THEN {2} ELSE {0, Sink!ExitOf(RunEnds)})
                  THEN "ok" ELSE "bad:fault"
       [] OTHER -> IF Sink!Allowed(Fault.kind, Fault.room, Shown, RunEnds, got, Obs.exit) THEN "ok" ELSE "bad:fault"
\* a file that breaks off: what was read of it may have been less than is there
JudgeTorn ==
  CASE ~FilePrefixes -> "bad:files"
    [] ~Sink!IsPrefixOf(Flat(Obs.out), Whole) -> "bad:out"
    [] Obs.exit = 2 -> "ok"
    [] status = "ok" /\ Obs.exit = 0 /\ Flat(Obs.out) = Shown -> "ok"
    [] OTHER -> "bad:exit"
Judge ==
  IF HasFault THEN JudgeFault ELSE IF Torn THEN JudgeTorn ELSE
  CASE status = "ok" /\ Obs.exit # 0 -> "bad:exit"
    [] status \in {"err", "refused", "lost"} /\ Obs.exit # 2 -> "bad:exit"
    [] status = "refused" /\ job.cmd # "partition" -> "ok"
    [] status = "err" /\ <<Obs.errline, Obs.errfile>> # <<cl, cf>> -> "bad:errline"
    [] ~OutOk(Shown) -> "bad:out"
    [] SpecFiles(st) # ObsFiles -> "bad:files"
    [] OTHER -> "ok"
Report ==
  /\ Done /\ id > 0
  /\ LET v == Judge
     IN /\ PrintT(<<"V", id, v>>)
        /\ v = "bad:out" => PrintT(<<"E", id, IF job.cmd = "check" THEN st.held ELSE Shown>>)
        /\ v = "bad:files" => PrintT(<<"E", id, SpecFiles(st)>>)
        /\ v = "bad:errline" => PrintT(<<"E", id, <<cl, cf>>>>)
  /\ id' = -id /\ UNCHANGED vars

TraceNext == (Next /\ UNCHANGED id) \/ Report
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<id, cf, cl, status, st.stop>>
=============================================================================
