------------------------------ MODULE MCSample ------------------------------
(***************************************************************************)
(* Reservoir sampling: k slots, records 1..n arrive one by one, record i    *)
(* (i > k) replaces the slot drawn from Draws(i), if that is a slot.        *)
(*                                                                         *)
(* With Draws(i) = 1..i every k-subset is reachable along equally many      *)
(* paths (a uniform sample); Uniform counts the paths.  pica-rs draws from  *)
(* 1..(i-1) (Skew = 1): record k+1 is always taken, and for k = 1 the first *)
(* record never survives a second one (recorded as a finding).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS K, N, Skew
VARIABLES i, slots, draws
vars == <<i, slots, draws>>
Init == i = 0 /\ slots = <<>> /\ draws = <<>>
Fill == i < K /\ i < N /\ slots' = Append(slots, i + 1) /\ i' = i + 1 /\ UNCHANGED draws
Replace == i >= K /\ i < N /\ \E d \in 1..(i + 1 - Skew) :
             /\ slots' = IF d <= K THEN [slots EXCEPT ![d] = i + 1] ELSE slots
             /\ draws' = Append(draws, d)
             /\ i' = i + 1
Next == Fill \/ Replace
Spec == Init /\ [][Next]_vars

Size == Len(slots) = IF i < K THEN i ELSE K
Distinct == \A a, b \in 1..Len(slots) : a # b => slots[a] # slots[b]
FromInput == \A a \in 1..Len(slots) : slots[a] \in 1..i
\* a slot holds its own record or a later one (what SampleOk relies on)
Slotwise == \A a \in 1..Len(slots) : slots[a] = a \/ slots[a] > K

\* number of draw sequences that end in the set S: must not depend on S
RECURSIVE Paths(_, _)
Paths(sl, j) ==
  IF j = N THEN (CHOOSE f \in [{1} -> {[s \in {{sl[a] : a \in 1..Len(sl)}} |-> 1]}] : TRUE)[1]
  ELSE LET D == 1..(j + 1 - Skew)
           next(d) == IF d <= K THEN [sl EXCEPT ![d] = j + 1] ELSE sl
           maps == [d \in D |-> Paths(next(d), j + 1)]
           keys == UNION {DOMAIN maps[d] : d \in D}
           RECURSIVE add(_, _)
           add(key, d) == IF d > j + 1 - Skew THEN 0
                          ELSE (IF key \in DOMAIN maps[d] THEN maps[d][key] ELSE 0) + add(key, d + 1)
       IN [key \in keys |-> add(key, 1)]
Subsets == {S \in SUBSET (1..N) : Cardinality(S) = K}
Uniform == i = K => LET P == Paths(slots, K)
                    IN /\ DOMAIN P = Subsets
                       /\ \A A, B \in Subsets : P[A] = P[B]
=============================================================================
