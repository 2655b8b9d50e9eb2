----------------------------- MODULE SampleRuns -----------------------------
(***************************************************************************)
(* Judges many recorded samples of one input: the same seed gives the same *)
(* sample, every run is a possible sample, and over all runs every record  *)
(* was seen in a sample and seen left out of one.                          *)
(***************************************************************************)
EXTENDS Commands, Json, IOUtils

Case == ndJsonDeserialize(IOEnv.CASES)[1]
\* the records that may be drawn: --limit ends the input
Recs == IF Case.limit > 0 /\ Case.limit < Len(Case.records) THEN SubSeq(Case.records, 1, Case.limit) ELSE Case.records
K == Case.k
Runs == Case.runs
N == Len(Recs)
In(r) == {i \in 1..N : Has(r.out, Recs[i])}
Failed == {j \in 1..Len(Runs) : Runs[j].exit # 0 \/ ~SampleOk(Recs, K, Runs[j].out)}
Unstable == {j \in 1..Len(Runs) : \E m \in 1..(j - 1) : Runs[m].seed = Runs[j].seed /\ Runs[m].out # Runs[j].out}
Sets == {In(Runs[j]) : j \in 1..Len(Runs)}
NeverIn == {i \in 1..N : \A s \in Sets : i \notin s}
NeverOut == {i \in 1..N : \A s \in Sets : i \in s}
\* what the recorded finding explains: record 1 missing when k = 1 and
\* record k + 1 present unless a later one took its slot (k + 1 = n: always)
Explained == /\ NeverIn \subseteq (IF K = 1 THEN {1} ELSE {})
             /\ NeverOut \subseteq (IF K + 1 = N THEN {N} ELSE {})
             /\ NeverIn \cup NeverOut # {}
Verdict == IF Failed # {} THEN "wrong" ELSE IF Unstable # {} THEN "unstable"
           ELSE IF NeverIn \cup NeverOut = {} THEN "ok"
           ELSE IF Explained THEN "biased" ELSE "uncovered"
VARIABLE x
Init == x = 0 /\ PrintT(<<"S", Verdict, <<NeverIn, NeverOut, Failed, Unstable>> >>)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
