------------------------------- MODULE MCLost -------------------------------
(* The pipeline over input files that are missing or break off.            *)
EXTENDS MCPipeline
LostInit == \E cmd \in Cmds, f1 \in Streams(MaxLines), f2 \in Streams(MaxLines2), e \in [1..2 -> {"eof", "lost"}] :
              \E o \in Opts(cmd) : InitJob([cmd |-> cmd, o |-> o, files |-> <<f1, f2>>, ends |-> e])
LostSpec == LostInit /\ [][Next]_vars /\ WF_vars(Next)
\* the lines that can be read: those up to the end of the first file that is lost
Readable == IF job.ends[1] = "lost" THEN job.files[1] ELSE All
Lost == job.ends[1] = "lost" \/ job.ends[2] = "lost"
RFirstBad == {k \in 1..Len(Readable) : ~Valid(Readable[k])}
RVisible == IF job.o.skip \/ RFirstBad = {} \/ job.cmd = "invalid" THEN Readable
            ELSE SubSeq(Readable, 1, (CHOOSE k \in RFirstBad : \A j \in RFirstBad : k <= j) - 1)
RChosen == SelectSeq(RVisible, LAMBDA l : Valid(l) /\ Selected(job.o, Decode(l).rec))
\* success is never claimed for input that was not read, unless it was not needed
NoSilentLoss == status = "ok" /\ Lost => st.stop
LostOnly == status = "lost" => Lost /\ ~st.stop
FilterLost == job.cmd = "filter" /\ status \in {"lost", "err"} => Out = Flat(IF job.o.limit > 0 THEN Take(RChosen, job.o.limit) ELSE RChosen)
InvalidLost == job.cmd = "invalid" /\ Ended => Out = Flat(SelectSeq(Readable, LAMBDA l : ~Valid(l)))
CountLost == job.cmd = "count" /\ status = "lost" => st.out = <<>>
=============================================================================
