------------------------------ MODULE SelDump ------------------------------
(* Exports, for every combination of the force flags (bit 9 stands for the
   bits 9..15 that name nothing), what Stream.tla allows to be selected next. *)
EXTENDS Stream, FiniteSets, TLC, Json
VARIABLE done

Row(f) == [f |-> f, first |-> SetToSeq(Selectable("none", f)),
           keep |-> "KEEP" \in Selectable("KEEP", f), later |-> SetToSeq(Selectable("KEEP", f) \ {"KEEP"})]
Table == [rows |-> [f \in 1 .. 1024 |-> Row(f - 1)],
          bits |-> [i \in 1 .. Len(FlagOrder) |-> FlagOrder[i]]]
Init == SInit /\ done = FALSE
Next == ~ done /\ JsonSerialize("sel.json", Table) /\ done' = TRUE /\ UNCHANGED << hs, cur, last >>
Spec == Init /\ [][Next]_<< hs, cur, last, done >>
=============================================================================
