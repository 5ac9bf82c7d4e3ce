------------------------------ MODULE OmpPlans ------------------------------
(* Exports the orders in which the workers' calls can begin, run and end. *)
EXTENDS OmpRace, SequencesExt
VARIABLE written
DInit == Init /\ text = [i \in W |-> "data"] /\ written = FALSE
DNext == ~ written /\ JsonSerialize("plans.json", SetToSeq(Plans)) /\ written' = TRUE /\ UNCHANGED vars
DSpec == DInit /\ [][DNext]_<< vars, written >>
=============================================================================
