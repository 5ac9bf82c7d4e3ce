------------------------------ MODULE RoundTrip ------------------------------
(***************************************************************************)
(* The encoder's output fed straight into the decoder, one byte at a time, *)
(* for inputs of every length and content: the product of the two          *)
(* transducers is finite (513 states x 256 bytes), so TLC's search is a    *)
(* proof for all inputs.  `owed` is what the decoder has been given in     *)
(* encoded form but has not delivered yet.                                 *)
(***************************************************************************)
EXTENDS B64, TLC

VARIABLES es, ds, owed
vars == << es, ds, owed >>

Init == es = EncStart /\ ds = DecStart /\ owed = << >>

Feed(b) ==
  LET e == EncOut(es, b)
      d == DecFold(ds, e)
      o == Append(owed, b)
  IN /\ es' = EncNext(es, b)
     /\ ds' = d.st
     \* delivered in order, exactly once, unchanged
     /\ Assert(IsPrefix(d.out, o), << "round trip", es, ds, owed, b >>)
     /\ owed' = SubSeq(o, Len(d.out) + 1, Len(o))

Next == \E b \in Byte : Feed(b)
Spec == Init /\ [][Next]_vars

AtMostOneOwed == Len(owed) <= 1
NeverRejected == ds.k = "data"
(* Finalising at any point delivers what is owed and completes the text. *)
FinalCompletes == LET d == DecFold(ds, EncFinal(es)) IN
                  d.out = owed /\ Complete(d.st)
(* Without finalising, the text is recognised as incomplete. *)
OpenIsOpen == Complete(ds) <=> es.n = 0
=============================================================================
