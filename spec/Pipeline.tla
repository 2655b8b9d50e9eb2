------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The machine every record command is: it reads its input files line by   *)
(* line.  A line that is not a record is skipped or ends the run; a record *)
(* that passes the lists and the where clause is handed to the command;    *)
(* the run ends at the end of the input or when the command stops.         *)
(*                                                                         *)
(* The module is parameterised by nothing: the job (command, options,      *)
(* input lines per file) is itself a variable that never changes, so that  *)
(* one model run can cover many jobs.                                      *)
(***************************************************************************)
EXTENDS Commands

VARIABLES job,     \* [cmd, o, files]: constant during a behaviour
          cf, cl,  \* file and line being read next
          st,      \* command state
          status   \* "run", "ok", "err" (unreadable line), "lost" (unreadable file) or "refused"
vars == <<job, cf, cl, st, status>>

InitJob(j) == /\ job = j /\ cf = 1 /\ cl = 1
              /\ st = Start(j.cmd, j.o) /\ status = "run"

AtLine == status = "run" /\ ~st.stop /\ cf <= Len(job.files) /\ cl <= Len(job.files[cf])
Line == job.files[cf][cl]
Reading == Decode(Line)
\* explode selects among the parts, not among the records
SelectsHere(rec) == job.cmd \in {"concat", "convert", "explode"} \/ Selected(job.o, rec)

\* (guards are compared with TRUE so that TLC evaluates them as values
\* instead of enumerating their disjuncts)
Renders(rec) == job.cmd = "convert" /\ job.o.to = "xml" => IsUtf8Rec(rec)

TakeRecord ==
  /\ AtLine /\ job.cmd # "invalid"
  /\ LET d == Reading
     IN /\ d.ok
        /\ SelectsHere(d.rec) = TRUE
        /\ Renders(d.rec) = TRUE
        /\ st' = Apply(job.cmd, job.o, st, d.rec, Line, <<cf, cl>>)
  /\ cl' = cl + 1 /\ UNCHANGED <<job, cf, status>>
\* XML is text: a record that is not valid UTF-8 ends the run with an error
RefuseRecord ==
  /\ AtLine /\ job.cmd # "invalid"
  /\ LET d == Reading IN d.ok /\ SelectsHere(d.rec) = TRUE /\ Renders(d.rec) = FALSE
  /\ status' = "refused" /\ UNCHANGED <<job, cf, cl, st>>
DropRecord ==
  /\ AtLine /\ job.cmd # "invalid"
  /\ LET d == Reading IN d.ok /\ SelectsHere(d.rec) = FALSE
  /\ cl' = cl + 1 /\ UNCHANGED <<job, cf, st, status>>
SkipInvalid ==
  /\ AtLine /\ job.cmd # "invalid" /\ job.o.skip /\ ~Reading.ok
  /\ st' = Skip(job.cmd, job.o, st)
  /\ cl' = cl + 1 /\ UNCHANGED <<job, cf, status>>
StopAtInvalid ==
  /\ AtLine /\ job.cmd # "invalid" /\ ~job.o.skip /\ ~Reading.ok
  /\ status' = "err" /\ UNCHANGED <<job, cf, cl, st>>
\* the invalid command writes exactly the lines the others cannot read
ReportLine ==
  /\ AtLine /\ job.cmd = "invalid"
  /\ st' = IF Reading.ok THEN st ELSE [st EXCEPT !.out = Append(@, Line)]
  /\ cl' = cl + 1 /\ UNCHANGED <<job, cf, status>>
\* a file that is missing, or breaks off: job.ends[k] # "eof"
AtEnd == status = "run" /\ ~st.stop /\ cf <= Len(job.files) /\ cl > Len(job.files[cf])
EndOf(k) == IF "ends" \in DOMAIN job THEN job.ends[k] ELSE "eof"
LoseFile ==
  /\ AtEnd /\ EndOf(cf) # "eof"
  /\ status' = "lost" /\ UNCHANGED <<job, cf, cl, st>>
NextFile ==
  /\ AtEnd /\ EndOf(cf) = "eof"
  /\ cf' = cf + 1 /\ cl' = 1 /\ UNCHANGED <<job, st, status>>
Finish ==
  /\ status = "run" /\ (st.stop \/ cf > Len(job.files))
  /\ status' = (IF st.bad THEN "refused" ELSE "ok") /\ st' = Final(job.cmd, job.o, st) /\ UNCHANGED <<job, cf, cl>>

Next == TakeRecord \/ RefuseRecord \/ DropRecord \/ SkipInvalid \/ StopAtInvalid \/ ReportLine \/ LoseFile \/ NextFile \/ Finish
Done == status # "run"
=============================================================================
