------------------------------ MODULE OmpTrace ------------------------------
(* Trace validation of one-shot calls of the OpenMP build: every recorded
   answer must be one that Omp.tla allows (AllowedAnswer). *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
Lines == ndJsonDeserialize("trace.ndjson")
VARIABLES l, lastop
B == INSTANCE B64
\* AllowedAnswer does not depend on Omp's variables.
O == INSTANCE Omp WITH Texts <- {}, Threads <- {}, Side <- "dec", CheckMiddle <- TRUE,
       src <- << >>, nt <- 1, pc <- "", done <- {}, sum <- << >>, good <- << >>, ans <- << >>
E == Lines[l]
TInit == l = 2 /\ lastop = ""
Is(op) == l <= Len(Lines) /\ E.op = op /\ l' = l + 1 /\ lastop' = op
TNext == \/ Is("session")
         \/ Is("encode_once") /\ O!AllowedAnswer([out |-> B!EncOneShot(E.src), ret |-> 1], [out |-> E.out, ret |-> E.ret])
         \/ Is("decode_once") /\ O!AllowedAnswer(B!DecOneShot(E.src), [out |-> E.out, ret |-> E.ret])
TSpec == TInit /\ [][TNext]_<< l, lastop >>
Accepted == TLCGet("stats").diameter = Len(Lines)
=============================================================================
