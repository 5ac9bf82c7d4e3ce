------------------------------- MODULE Theory -------------------------------
(* The transducers against the declarative definition of RFC 4648, on words
   grown one symbol at a time.  `Symbols` is a set of bytes or characters. *)
EXTENDS B64, TLC

CONSTANTS Symbols, MaxLen, Side        \* Side: "enc" or "dec"
VARIABLES w, st, out
vars == << w, st, out >>

Init == w = << >> /\ st = (IF Side = "enc" THEN EncStart ELSE DecStart) /\ out = << >>
Grow(b) == /\ Len(w) < MaxLen
           /\ w' = Append(w, b)
           /\ IF Side = "enc" THEN st' = EncNext(st, b) /\ out' = out \o EncOut(st, b)
              ELSE st' = DecNext(st, b) /\ out' = out \o DecOut(st, b)
Next == \E b \in Symbols : Grow(b)
Spec == Init /\ [][Next]_vars

EncodeIsRfc == Side = "enc" => out \o EncFinal(st) = RfcEncode(w)
AcceptIsWellFormed == Side = "dec" => (Complete(st) <=> WellFormed(w))
DecodeIsRfc == (Side = "dec" /\ WellFormed(w)) => out = RfcDecode(w)
(* The code is uniquely readable: different texts of different bytes. *)
ReadBack == Side = "enc" => LET d == DecOneShot(RfcEncode(w)) IN d.ret = 1 /\ d.out = w
=============================================================================
