-------------------------------- MODULE Dump --------------------------------
(* Exports the complete transducers of B64.tla (every state x every byte) as
   JSON; the conformance drivers step these tables next to the real code. *)
EXTENDS B64, Json, TLC, FiniteSets

ES == SetToSeq(EncStates)
DS == SetToSeq(DecStates)
Idx(seq, x) == CHOOSE i \in 1 .. Len(seq) : seq[i] = x
\* Numbering shared by all rows, so that look-ups are cheap.
EI == [x \in EncStates |-> Idx(ES, x) - 1]
DI == [x \in DecStates |-> Idx(DS, x) - 1]

EncRow(s) == [id    |-> EI[s], n |-> s.n, c |-> s.c,
              final |-> EncFinal(s),
              next  |-> [b \in 1 .. 256 |-> EI[EncNext(s, b - 1)]],
              out   |-> [b \in 1 .. 256 |-> EncOut(s, b - 1)]]
DecRow(s) == [id    |-> DI[s], k |-> s.k, n |-> s.n, c |-> s.c,
              terminal |-> Terminal(s), complete |-> Complete(s),
              ret   |-> [b \in 1 .. 256 |-> DecCall(s, << b - 1 >>).ret],
              ret0  |-> DecCall(s, << >>).ret,
              next  |-> [b \in 1 .. 256 |-> DI[DecNext(s, b - 1)]],
              out   |-> [b \in 1 .. 256 |-> DecOut(s, b - 1)]]

Tables == [enc_start |-> EI[EncStart], dec_start |-> DI[DecStart],
           dec_err   |-> DI[DecErr],
           alpha     |-> [i \in 1 .. 64 |-> Alpha[i - 1]],
           value     |-> [i \in 1 .. 256 |-> Value[i - 1]],
           enc       |-> [i \in 1 .. Len(ES) |-> EncRow(ES[i])],
           dec       |-> [i \in 1 .. Len(DS) |-> DecRow(DS[i])]]

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ JsonSerialize("tables.json", Tables) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
