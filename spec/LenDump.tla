------------------------------- MODULE LenDump -------------------------------
(* Exports the lengths that LenMC shows to be enough, at their real scale. *)
EXTENDS Len, Json, TLC, FiniteSets, SequencesExt
M == INSTANCE LenMC WITH B <- 32, n <- 0
Real(p) == Add(Mul(Pow2(29), p[1]), Big(p[2]))
Ps(S) == LET q == SetToSeq(S) IN [k \in 1 .. Len(q) |-> [c |-> q[k][1], d |-> q[k][2], digits |-> Real(q[k])]]
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
        /\ JsonSerialize("len.json", [enc |-> Ps(M!EncProbes), dec |-> Ps(M!DecProbes), mega |-> Ps(M!Mega), megad |-> Ps(M!MegaD)])
Spec == Init /\ [][Next]_done
=============================================================================
