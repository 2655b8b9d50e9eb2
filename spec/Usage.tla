------------------------------- MODULE Usage --------------------------------
(***************************************************************************)
(* Command lines.  An invocation names a command and gives it options and  *)
(* arguments.  It is refused if the command does not have the option, an   *)
(* option is repeated or left without what it needs, two options           *)
(* contradict one another, or a value is none of those the option takes.   *)
(* A refused invocation changes nothing and prints nothing on its output;  *)
(* any other one writes the files it names and leaves the rest alone.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Record == {"check", "count", "describe", "explode", "frequency", "hash", "partition", "print", "sample", "select", "slice", "split"}
Commands == Record \cup {"concat", "convert", "filter", "invalid", "completions"}

\* the words for commands, letter by letter; config and help are not treated here
Words == [
  check |-> <<"c", "h", "e", "c", "k">>,
  completions |-> <<"c", "o", "m", "p", "l", "e", "t", "i", "o", "n", "s">>,
  concat |-> <<"c", "o", "n", "c", "a", "t">>,
  config |-> <<"c", "o", "n", "f", "i", "g">>,
  convert |-> <<"c", "o", "n", "v", "e", "r", "t">>,
  count |-> <<"c", "o", "u", "n", "t">>,
  describe |-> <<"d", "e", "s", "c", "r", "i", "b", "e">>,
  explode |-> <<"e", "x", "p", "l", "o", "d", "e">>,
  filter |-> <<"f", "i", "l", "t", "e", "r">>,
  frequency |-> <<"f", "r", "e", "q", "u", "e", "n", "c", "y">>,
  hash |-> <<"h", "a", "s", "h">>,
  help |-> <<"h", "e", "l", "p">>,
  invalid |-> <<"i", "n", "v", "a", "l", "i", "d">>,
  partition |-> <<"p", "a", "r", "t", "i", "t", "i", "o", "n">>,
  print |-> <<"p", "r", "i", "n", "t">>,
  sample |-> <<"s", "a", "m", "p", "l", "e">>,
  select |-> <<"s", "e", "l", "e", "c", "t">>,
  slice |-> <<"s", "l", "i", "c", "e">>,
  split |-> <<"s", "p", "l", "i", "t">>]
Begins(w, full) == Len(w) <= Len(full) /\ SubSeq(full, 1, Len(w)) = w
Meant(w) == {c \in DOMAIN Words : Begins(w, Words[c])}
\* a command may be shortened as long as one command begins so
Calls(w, c) == w # <<>> /\ (w = Words[c] \/ Meant(w) = {c})

\* --------------------------------------------------------------- options
Selecting == {"-s", "-l", "-i", "--strsim-threshold", "-A", "-D", "--filter-set-column", "--filter-set-source", "--where", "--and", "--or", "--not"}
Own == [
  check |-> {"-p", "-R", "-r", "-t tags", "-o"},
  completions |-> {"-o"},
  concat |-> {"-s", "-p", "--tee", "-u", "--unique-strategy", "--append", "-o"},
  convert |-> {"-s", "-f", "-t format", "-p", "-o"},
  count |-> {"--append", "-r records", "--fields", "--subfields", "--csv", "--tsv", "--no-header", "-p", "-o"},
  describe |-> {"-p", "-k", "-d", "-c", "-t", "-o"},
  explode |-> {"-g", "-k", "-d", "-p", "-o"},
  filter |-> (Selecting \ {"--where"}) \cup {"-v", "-k", "-d", "-F", "-g", "--append", "--tee", "-p", "-o"},
  frequency |-> {"--squash", "--merge", "--separator", "-u", "-r", "-n", "--threshold", "-H", "-t", "--translit", "-p", "-o"},
  hash |-> {"-H", "-t", "-p", "-o"},
  invalid |-> {"-p", "-o"},
  partition |-> {"-g", "-p", "-o dir", "-t template"},
  print |-> {"--translit", "-p", "-o"},
  sample |-> {"-g", "-p", "-o", "--seed"},
  select |-> {"--squash", "--merge", "--separator", "--no-empty-columns", "-u", "-t", "--quote-style", "--translit", "-H", "--append", "-p", "-o"},
  slice |-> {"--start", "--end", "--length", "-g", "-a", "-p", "-o"},
  split |-> {"-g", "-p", "--template", "-o dir"}]
\* as it is written: the same letter can be two different options
Text(o) == CASE o \in {"-t tags", "-t format", "-t template"} -> "-t" [] o = "-r records" -> "-r" [] o = "-o dir" -> "-o" [] OTHER -> o
Options(c) == Own[c] \cup (IF c \in Record THEN Selecting ELSE {})
AllOptions == UNION {Options(c) : c \in Commands}
\* what one command has as a letter another has as a word
Same == {{"-t", "--tsv"}, {"-a", "--append"}, {"-c", "--csv"}}
Foreign(c) == {o \in AllOptions : \A x \in Options(c) : Text(o) # Text(x) /\ {o, x} \notin Same}

\* the values an option takes, and some it does not
Nat32 == [good |-> {"1", "2", "4294967295"}, bad |-> {"0", "-1", "", "x", "1.5", "4294967296"}]
Nat64 == [good |-> {"0", "1", "7", "18446744073709551615"}, bad |-> {"-1", "", "x", "1.0", "18446744073709551616"}]
Forms == [good |-> {"nfc", "nfd", "nfkc", "nfkd"}, bad |-> {"nfx", "", "NFC"}]
Expr == [good |-> {"003@?", "003@.0 == '1'"}, bad |-> {"003@", "003@.0 ==", "(003@?", "003@.0 == 1", "003@? &&"}]
Preds == [good |-> {"003@", "003@,012A/*"}, bad |-> {"03@", "(", "003@;012A"}]
AnyText == [good |-> {"x", "a,b"}, bad |-> {}]
PathText == [good |-> {"003@.0", "012A{a | a?}"}, bad |-> {"", "003@", "((", "003@.", "012A{a"}]
QueryText == [good |-> {"003@.0", "003@{0}, 'x'"}, bad |-> {"", "((", "003@{0", "'x"}]
Values == [o \in AllOptions |->
  CASE o \in {"-l", "-n", "--threshold", "--start", "--end", "--length", "--seed"} -> Nat64
    [] o = "--strsim-threshold" -> [good |-> {"0", "1", "99"}, bad |-> {"100", "255", "256", "-1", "x", "", "7.5"}]
    [] o \in {"-A", "-D"} -> [good |-> {"list.csv"}, bad |-> {"nolist.csv"}]
    [] o = "--filter-set-source" -> PathText
    [] o = "--filter-set-column" -> [good |-> {"ppn"}, bad |-> {}]
    [] o \in {"--where", "--and", "--or", "--not"} -> Expr
    [] o \in {"-k", "-d"} -> Preds
    [] o = "-R" -> [good |-> {"rules.toml"}, bad |-> {"norules.toml", "bad.toml", "badrule.toml"}]
    [] o = "-r" -> [good |-> {"."}, bad |-> {"(", "[", "*"}]
    [] o = "-F" -> [good |-> {"expr.txt"}, bad |-> {"noexpr.txt", "badexpr.txt"}]
    [] o = "--unique-strategy" -> [good |-> {"idn", "hash"}, bad |-> {"", "ppn", "IDN"}]
    [] o = "-f" -> [good |-> {"plus"}, bad |-> {"binary", "import", "json", "plain", "xml", "x", "Plus"}]
    [] o = "-t format" -> [good |-> {"plus", "binary", "import", "json", "plain", "xml"}, bad |-> {"", "x", "JSON", "csv"}]
    [] o = "--quote-style" -> [good |-> {"always", "necessary", "non-numeric", "never"}, bad |-> {"", "x", "Always"}]
    [] o = "--translit" -> Forms
    [] o = "-o dir" -> [good |-> {"dir", "new/sub"}, bad |-> {}]
    [] o \in {"-t template", "--template"} -> [good |-> {"t{}.x", "one.dat"}, bad |-> {}]
    [] o = "-o" -> [good |-> {"out.old", "out.new"}, bad |-> {}]
    [] o = "--tee" -> [good |-> {"tee.old", "tee.new"}, bad |-> {}]
    [] o \in {"-t tags", "--separator", "-H"} -> AnyText
    [] OTHER -> [good |-> {}, bad |-> {}]]        \* a flag
IsFlag(c, o) == IF o = "-r" THEN c = "frequency" ELSE IF o = "-t" THEN TRUE ELSE Values[o].good = {}
TakesValue(c, o) == ~IsFlag(c, o)
\* options that may be given more than once
Many == {"-A", "-D", "--and", "--or", "--not", "-R"}
Repeats(c, o) == o \in Many \/ (c = "check" /\ o = "-r")
\* pairs that contradict one another
Contradictions(c) ==
  (IF "--or" \in Options(c) THEN {{"--or", "--and"}, {"--or", "--not"}} ELSE {}) \cup
  (CASE c = "count" -> {{"-r records", x} : x \in {"--fields", "--subfields"}} \cup {{"--fields", "--subfields"}, {"--csv", "--tsv"}}
                       \cup {{x, y} : x \in {"-r records", "--fields", "--subfields"}, y \in {"--csv", "--tsv", "--no-header"}}
     [] c = "filter" -> {{"--append", "-g"}, {"--tee", "-o"}}
     [] c \in {"select", "frequency"} -> {{"--squash", "--merge"}}
     [] c = "slice" -> {{"--end", "--length"}, {"-a", "-g"}}
     [] c = "describe" -> {{"-c", "-t"}}
     [] OTHER -> {})
\* an option that makes sense only with another
Needs(c) ==
  (IF "--where" \in Options(c) THEN {<<x, "--where">> : x \in {"--and", "--or", "--not"}} ELSE {}) \cup
  (IF "-o" \in Options(c) /\ "-p" \in Options(c) THEN {<<"-p", "-o">>} ELSE {}) \cup
  (CASE c = "concat" -> {<<"--unique-strategy", "-u">>}
     [] c = "describe" -> {<<"-c", "-o">>, <<"-t", "-o">>}
     [] OTHER -> {})
Must(c) == CASE c = "check" -> {"-R"} [] OTHER -> {}
\* the argument before the input files
Leads == [c \in Commands |->
  CASE c = "explode" -> [good |-> {"main", "local", "copy"}, bad |-> {"", "x", "Main"}]
    [] c \in {"frequency", "select"} -> QueryText
    [] c = "partition" -> PathText
    [] c \in {"sample", "split"} -> Nat32
    [] c = "filter" -> Expr
    [] c = "completions" -> [good |-> {"bash", "elvish", "fish", "powershell", "zsh"}, bad |-> {"", "x", "sh"}]
    [] OTHER -> [good |-> {}, bad |-> {}]]
HasLead(c) == Leads[c].good # {}

\* ---------------------------------------------------------- invocations
\* inv: [cmd, word: the command as written, opts: sequence of [o, v], lead: sequence of at most one argument]
Given(inv) == {inv.opts[k].o : k \in 1..Len(inv.opts)}
Valued(inv, o) == {inv.opts[k].v : k \in {k \in 1..Len(inv.opts) : inv.opts[k].o = o}}
Times(inv, o) == Cardinality({k \in 1..Len(inv.opts) : inv.opts[k].o = o})
\* an expression file takes the place of the expression
WantsLead(inv) == HasLead(inv.cmd) /\ ~(inv.cmd = "filter" /\ "-F" \in Given(inv))
\* what contradicts an option that is given is not asked for
Waived(inv, o) == \E p \in Contradictions(inv.cmd) : o \in p /\ p \ {o} \subseteq Given(inv)
Refused(inv) ==
  \/ ~Calls(inv.word, inv.cmd)
  \/ \E o \in Given(inv) : o \notin Options(inv.cmd)
  \/ \E o \in Given(inv) : Times(inv, o) > 1 /\ ~Repeats(inv.cmd, o)
  \/ \E p \in Contradictions(inv.cmd) : p \subseteq Given(inv)
  \/ \E n \in Needs(inv.cmd) : n[1] \in Given(inv) /\ n[2] \notin Given(inv) /\ ~Waived(inv, n[2])
  \/ ~(Must(inv.cmd) \subseteq Given(inv))
  \/ \E k \in 1..Len(inv.opts) : TakesValue(inv.cmd, inv.opts[k].o) /\ inv.opts[k].v \notin Values[inv.opts[k].o].good
  \/ WantsLead(inv) /\ (inv.lead = <<>> \/ inv.lead[1] \notin Leads[inv.cmd].good)

\* a header need not have as many names as there are columns: that comes out when rows are written
Loose(inv) == ~Refused(inv) /\ "-H" \in Given(inv)

\* ----------------------------------------------------------------- files
Inputs == {"in.dat", "list.csv", "rules.toml", "bad.toml", "badrule.toml", "expr.txt", "badexpr.txt"}
Old == {"out.old", "tee.old", "dir/keep.txt", "dir/0.dat", "0.dat", "keep.txt"}
Fill(t, v) == CASE t = "t{}.x" -> "t" \o v \o ".x" [] t = "one.dat" -> "one.dat"
\* the chunks or partitions of the input, which has one record with IDN 1
OutDir(inv) == IF Valued(inv, "-o dir") = {} THEN "" ELSE (CHOOSE d \in Valued(inv, "-o dir") : TRUE) \o "/"
PartName(inv, v) ==
  LET ts == Valued(inv, "-t template") \cup Valued(inv, "--template")
  IN OutDir(inv) \o (IF ts = {} THEN v \o (IF "-g" \in Given(inv) THEN ".dat.gz" ELSE ".dat") ELSE Fill(CHOOSE t \in ts : TRUE, v))
Targets(inv) ==
  Valued(inv, "-o") \cup Valued(inv, "--tee") \cup
  (CASE inv.cmd = "split" -> {PartName(inv, "0")}
     [] inv.cmd = "partition" -> {PartName(inv, "1")}
     [] OTHER -> {})
\* a partition exists only if a record belongs to it
Made(inv) == IF inv.cmd = "partition" THEN Targets(inv) \ {PartName(inv, "1")} ELSE Targets(inv)

\* -------------------------------------------------------------- machine
VARIABLES inv, fs, exit, said
uvars == <<inv, fs, exit, said>>
Before == [n \in Inputs \cup Old |-> "old"]
Names == DOMAIN Before \cup Targets(inv)
Refuse == /\ exit = -1 /\ Refused(inv) = TRUE /\ exit' = 2 /\ UNCHANGED <<inv, fs, said>>
Accept == /\ exit = -1 /\ Refused(inv) = FALSE /\ exit' \in (IF Loose(inv) THEN {0, 2} ELSE {0}) /\ said' \in BOOLEAN /\ UNCHANGED inv
          /\ \E some \in SUBSET (Targets(inv) \ Made(inv)) :
               fs' = [n \in DOMAIN fs \cup Made(inv) \cup some |-> IF n \in Made(inv) \cup some THEN "new" ELSE fs[n]]
UsageNext == Refuse \/ Accept
=============================================================================
