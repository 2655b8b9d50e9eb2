----------------------------- MODULE UsageTrace ------------------------------
(* Observed invocations: exit status, whether anything was printed, which   *)
(* files were made or changed (and which removed).                          *)
EXTENDS Usage, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE id
UInit == id \in 1..Len(Cases) /\ inv = Cases[id].inv /\ fs = Before /\ exit = -1 /\ said = FALSE
Obs == Cases[id].obs
Changed == {Obs.changed[k] : k \in 1..Len(Obs.changed)}
Present == {Obs.present[k] : k \in 1..Len(Obs.present)}
Judge ==
  CASE exit # Obs.exit -> "bad:exit"
    [] Obs.gone # <<>> -> "bad:removed"
    [] Refused(inv) /\ Obs.said -> "bad:said"
    [] Refused(inv) /\ Changed # {} -> "bad:changed"
    [] ~Refused(inv) /\ ~(Made(inv) \subseteq Present) -> "bad:missing"
    [] ~Refused(inv) /\ ~(Changed \subseteq Targets(inv)) -> "bad:changed"
    [] OTHER -> "ok"
\* where the exit status is open, the one observed is followed
UNext == \/ UsageNext /\ (Loose(inv) => exit' = Obs.exit \/ Obs.exit \notin {0, 2}) /\ UNCHANGED id
         \/ /\ id > 0 /\ exit # -1 /\ PrintT(<<"V", id, Judge>>)
            /\ id' = -id /\ UNCHANGED uvars
USpec == UInit /\ [][UNext]_<<id, uvars>>
UView == <<id, exit # -1>>
=============================================================================
