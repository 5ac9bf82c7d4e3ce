------------------------------ MODULE FootTrace ------------------------------
(* What calls on the implementation were seen to touch (trace.ndjson): each
   has to keep to the contract of Footprint.tla.  `lo` and `hi` delimit the
   destination bytes that changed, relative to the destination. *)
EXTENDS Integers, Sequences, TLC, Json
F == INSTANCE Footprint WITH N <- 0, Weak <- 0, Leak <- {}, sh <- 0, n <- 0, p <- 0, pc <- "", k <- 0, first <- TRUE,
       pos <- 0, out <- 0, rlo <- 0, rhi <- 0, whi <- 0, own <- << >>, touched <- {}
Lines == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Lines[l]
Exact(x) == E.outlen = x /\ E.hi = x
AtMost(x) == E.outlen <= x /\ E.hi <= x /\ E.hi >= E.outlen
Allowed == /\ E.lo >= 0 /\ E.touched = << >>
           /\ CASE E.op = "encode" -> Exact(F!Room("enc", E.p, E.n))
                [] E.op = "final" -> Exact(F!FinalLen(E.p))
                [] E.op = "encode_once" -> Exact(F!OnceLen(E.n))
                [] E.op = "decode" -> AtMost(IF E.closed THEN 0 ELSE F!Room("dec", E.p, E.n))
                [] E.op = "decode_once" -> AtMost(F!DetD(E.n))
Init == l = 1
Next == l <= Len(Lines) /\ Allowed /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
