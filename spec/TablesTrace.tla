---------------------------- MODULE TablesTrace ----------------------------
(* Walks through tables dumped from the implementation (trace.ndjson: one
   table per line, [name, origin, bytes]; alt: the characters for sextets 62
   and 63 it was generated for, when it was given some) and requires every entry to be what
   Tables.tla prescribes.  One state per entry. *)
EXTENDS Tables, Json

D == ndJsonDeserialize("trace.ndjson")
W == [k \in 1 .. Len(D) |-> Width(D[k].name)]
N == [k \in 1 .. Len(D) |-> Entries(D[k].name)]
VARIABLES t, i
Init == t = 1 /\ i = 0
Next == \/ i + 1 < N[t] /\ i' = i + 1 /\ t' = t
        \/ i + 1 = N[t] /\ t < Len(D) /\ t' = t + 1 /\ i' = 0
Spec == Init /\ [][Next]_<< t, i >>

Entry == SubSeq(D[t].bytes, i * W[t] + 1, (i + 1) * W[t])
Complete1 == i = 0 => Len(D[t].bytes) >= N[t] * W[t]
Right == IF "alt" \in DOMAIN D[t] THEN AltOK(AlphaOf(D[t].alt[1], D[t].alt[2]), D[t].name, i, Entry)
                                  ELSE EntryOK(D[t].name, i, Entry)
Marked == i = 0 /\ D[t].name = "dec_8bit" => PadMarked(D[t].bytes)
=============================================================================
