------------------------------ MODULE CliSched -------------------------------
(* Kernel schedules for replay: what happens to the first calls of a run.    *)
(* Each outcome is given meaning for a call that offers (asks for) n bytes;  *)
(* the driver applies it and logs what it returned for CliIOTrace.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC
CONSTANT Depth
WriteOut == {"all", "one", "half", "butone", "vec", "vec1", "intr", "zero", "eio", "nospc"}
ReadOut  == {"all", "one", "half", "intr", "eio"}
(* Outcomes after which a run need not succeed. *)
Hard == {"eio", "nospc"}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
(* Every other error number of the system, where the first or second call meets it. *)
Errnos == (1 .. 133) \ {4}
Errs == {"write", "partial", "read", "short"} \X Errnos
Data == [errors |-> SetToSeq(Errs), writes |-> SetToSeq(Seqs(WriteOut, Depth)), reads |-> SetToSeq(Seqs(ReadOut, 2)),
         both |-> SetToSeq(Seqs(ReadOut, 1) \X Seqs(WriteOut, 2))]
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ JsonSerialize("sched.json", Data) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
