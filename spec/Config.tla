------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration: a file that holds two options, the invocations that  *)
(* read and write it, and the runs that obey it.                           *)
(*                                                                         *)
(* store is what the file says: whether there is one at all, and the value *)
(* of each option (an option the file does not mention has its default).   *)
(* answer is what the last invocation printed and how it ended.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Forms == {"nfc", "nfkc", "nfd", "nfkd"}
Names == {"skip-invalid", "normalization"}
None == "None"
Values == [n \in Names |-> IF n = "skip-invalid" THEN {"true", "false"} ELSE Forms]
Default == [n \in Names |-> IF n = "skip-invalid" THEN "false" ELSE None]
NoFile == [there |-> FALSE, opt |-> Default]
Stores == {NoFile} \cup [there : {TRUE},
                         opt : {f \in [Names -> {"true", "false", None} \cup Forms] :
                                  \A n \in Names : f[n] \in Values[n] \cup {Default[n]}}]

VARIABLES store, answer
cvars == <<store, answer>>
Idle == [op |-> "", name |-> "", val |-> "", exit |-> 0, out |-> <<>>]
Answers(op, name, val, exit, out) == answer' = [op |-> op, name |-> name, val |-> val, exit |-> exit, out |-> out]

ConfigInit == store \in Stores /\ answer = Idle

\* "config NAME", "config --get NAME"
Get(n) == /\ n \in Names
          /\ Answers("get", n, "", 0, <<store.opt[n]>>)
          /\ UNCHANGED store
\* "config NAME VALUE", "config --set NAME VALUE"
Set(n, v) == /\ n \in Names /\ v \in Values[n]
             /\ store' = [there |-> TRUE, opt |-> [store.opt EXCEPT ![n] = v]]
             /\ Answers("set", n, v, 0, <<>>)
\* "config --unset NAME"
Unset(n) == /\ n \in Names
            /\ store' = [there |-> TRUE, opt |-> [store.opt EXCEPT ![n] = Default[n]]]
            /\ Answers("unset", n, "", 0, <<>>)
\* an invocation that cannot write (or is killed while it does) leaves what was there
Fail(op, n, v) == /\ n \in Names /\ op \in {"set-fails", "set-killed", "unset-fails", "unset-killed"}
                  /\ Answers(op, n, v, IF op \in {"set-fails", "unset-fails"} THEN 2 ELSE -25, <<>>)
                  /\ UNCHANGED store
\* anything else is refused and leaves the file alone
BadForms == {"set-without-value", "get-with-value", "unset-with-value", "get-and-unset", "get-and-set", "set-and-unset", "no-name"}
Refused(op, n, v) == IF n \notin Names \/ op \in BadForms THEN TRUE ELSE op = "set" /\ v \notin Values[n]
Refuse(op, n, v) == /\ Refused(op, n, v)
                    /\ Answers(op, n, v, 2, <<>>)
                    /\ UNCHANGED store
(* A run over two texts: one record for each form a string can be in, then *)
(* a line that is no record.  The expression asks for the raw string: it   *)
(* finds the record of the form in force, and the run gets past the bad    *)
(* line if invalid lines are skipped, by the option or by the command line.*)
Run(flag) == /\ Answers("run", IF flag THEN "-s" ELSE "", "",
                        IF flag \/ store.opt["skip-invalid"] = "true" THEN 0 ELSE 2,
                        <<store.opt["normalization"]>>)
             /\ UNCHANGED store

BadNames == {"", "skip_invalid", "Skip-invalid", "normalisation", "path", "normalization "}
BadValues == {"", "TRUE", "1", "yes", "True", "NFC", "nfcd", "none", "None", " nfc", "null", "true "}

ConfigNext ==
  \/ \E n \in Names : Get(n) \/ Unset(n) \/ \E v \in Values[n] : Set(n, v)
  \/ \E n \in Names : \/ (\E op \in {"unset-fails", "unset-killed"} : Fail(op, n, ""))
                       \/ \E op \in {"set-fails", "set-killed"}, v \in Values[n] : Fail(op, n, v)
  \/ \E n \in BadNames : Refuse("get", n, "") \/ Refuse("set", n, "true") \/ Refuse("unset", n, "")
  \/ \E n \in Names, v \in BadValues : Refuse("set", n, v)
  \/ \E n \in Names : Refuse("set", n, CHOOSE v \in UNION {Values[m] : m \in Names \ {n}} : TRUE)
  \/ \E n \in Names, op \in BadForms : Refuse(op, n, CHOOSE v \in Values[n] : TRUE)
  \/ \E flag \in BOOLEAN : Run(flag)
ConfigSpec == ConfigInit /\ [][ConfigNext]_cvars
=============================================================================
