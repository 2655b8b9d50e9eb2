------------------------------ MODULE MCUsage -------------------------------
(* All invocations with at most two options beside those a command must    *)
(* have; each is printed and the check replays it in the real program.     *)
EXTENDS Usage, IOUtils
One(c, o) == IF o \notin Options(c) \/ IsFlag(c, o) THEN {[o |-> o, v |-> ""]}
             ELSE {[o |-> o, v |-> v] : v \in Values[o].good \cup Values[o].bad}
Places == {"-o", "-o dir", "--tee"}
\* in pairs, one good and one bad value stand for the others, but a place
\* that is there already is not one that is not
Some(c, o) == IF o \notin Options(c) \/ IsFlag(c, o) THEN {[o |-> o, v |-> ""]}
              ELSE IF o \in Places THEN {[o |-> o, v |-> v] : v \in Values[o].good}
              ELSE {[o |-> o, v |-> CHOOSE v \in S : TRUE] : S \in {Values[o].good, Values[o].bad} \ {{}}}
MustOpts(c) == CASE c = "check" -> <<[o |-> "-R", v |-> "rules.toml"]>>
                 [] c = "convert" -> <<[o |-> "-f", v |-> "plus"], [o |-> "-t format", v |-> "plain"]>>
                 [] OTHER -> <<>>
Lead(c) == IF HasLead(c) THEN <<CHOOSE v \in Leads[c].good : TRUE>> ELSE <<>>
Without(s, o) == SelectSeq(s, LAMBDA x : x.o # o)
PairsOf(c) == {{a, b} : a, b \in Options(c)} \ {{a} : a \in Options(c)}
Invs ==
  UNION {LET base == [cmd |-> c, word |-> Words[c], opts |-> MustOpts(c), lead |-> Lead(c)]
         IN {base}
            \cup {[base EXCEPT !.word = SubSeq(@, 1, n)] : n \in 1..Len(Words[c])}
            \cup {[base EXCEPT !.word = @ \o <<"s">>], [base EXCEPT !.word = Tail(@)], [base EXCEPT !.word = SubSeq(@, 1, Len(@) - 1) \o <<"q">>]}
            \cup {[base EXCEPT !.lead = <<v>>] : v \in Leads[c].good \cup Leads[c].bad}
            \cup {[base EXCEPT !.lead = <<>>]}
            \cup UNION {{[base EXCEPT !.lead = v, !.opts = Append(@, x)] : v \in {<<>>} \cup {<<l>> : l \in Leads[c].bad}, x \in Some(c, o)}
                        : o \in Places \cap Options(c)}
            \cup {[base EXCEPT !.opts = Without(@, o)] : o \in Must(c)}
            \cup UNION {{[base EXCEPT !.opts = Append(Without(@, o), x)] : x \in One(c, o)} : o \in Options(c) \cup Foreign(c)}
            \cup UNION {{[base EXCEPT !.opts = @ \o <<x, x>>] : x \in Some(c, o)} : o \in Options(c)}
            \cup UNION {LET a == CHOOSE o \in p : TRUE
                            b == CHOOSE o \in p \ {a} : TRUE
                        IN {[base EXCEPT !.opts = Without(Without(@, a), b) \o <<x, y>>] : x \in Some(c, a), y \in Some(c, b)}
                        : p \in PairsOf(c)}
         : c \in Commands}
UsageInit == inv \in Invs /\ fs = Before /\ exit = -1 /\ said = FALSE
UsageSpec == UsageInit /\ [][UsageNext]_uvars
Emit == \/ exit # -1 \/ "EMIT" \notin DOMAIN IOEnv \/ PrintT(<<"I", inv.cmd, inv.word, [k \in 1..Len(inv.opts) |-> <<inv.opts[k].o, inv.opts[k].v>>], inv.lead>>)

InputsKept == \A n \in Inputs : fs[n] = "old"
RefusalIsSilent == exit # -1 /\ Refused(inv) => fs = Before /\ ~said
OnlyNamed == \A n \in DOMAIN fs : fs[n] = "new" => exit # -1 /\ ~Refused(inv) /\ n \in Targets(inv)
NamesWritten == exit = 0 => \A n \in Valued(inv, "-o") \cup Valued(inv, "--tee") : fs[n] = "new"
\* more options never make a contradiction good
Stays == Refused(inv) => \A p \in Contradictions(inv.cmd) : p \subseteq Given(inv) =>
           \A o \in Options(inv.cmd) : Refused([inv EXCEPT !.opts = Append(@, [o |-> o, v |-> ""])])
=============================================================================
