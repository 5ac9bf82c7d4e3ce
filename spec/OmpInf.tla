------------------------------- MODULE OmpInf -------------------------------
(***************************************************************************)
(* The parallel decoder's verdict for any number of parts and texts of any *)
(* length (Apalache): parts of whole quanta, each decoded from a fresh     *)
(* state, ending where the splitter likes; a part that fails, or that ends *)
(* in padding with more text to come, spoils the call.  The verdict is the *)
(* serial decoder's (AcceptInf's steps), which runs along.                 *)
(* Inductive: Init => Inv, Inv /\ Next => Inv'.                            *)
(***************************************************************************)
EXTENDS DecClasses

VARIABLES
  \* @type: Int;
  left,         \* characters still to come
  \* @type: Int;
  at,           \* characters of the part so far
  \* @type: Str;
  ks,
  \* @type: Int;
  qs,
  \* @type: Int;
  os,           \* the serial decoder and what it has produced
  \* @type: Str;
  kp,
  \* @type: Int;
  qp,
  \* @type: Int;
  op,           \* the part's decoder; the sum of the parts' bytes
  \* @type: Bool;
  good
Accepts(kk, qq) == kk = "end" \/ (kk = "data" /\ qq = 0)

Inv == /\ left >= 0 /\ at >= 0 /\ ks \in Ks /\ kp \in Ks /\ qs \in 0 .. 3 /\ qp \in 0 .. 3 /\ os >= 0 /\ op >= 0
       /\ kp = "data" => qp = at % 4
       /\ kp = "pad" => at % 4 = 3
       /\ kp = "end" => at % 4 = 0
       /\ good => ks = kp /\ qs = qp /\ os = op
       /\ ~good => ks = "err" \/ (ks = "end" /\ left > 0)
       /\ (left = 0) => ((good /\ Accepts(kp, qp)) <=> Accepts(ks, qs))
Init == /\ \E n \in Nat : left = n
        /\ at = 0 /\ ks = "data" /\ qs = 0 /\ os = 0 /\ kp = "data" /\ qp = 0 /\ op = 0 /\ good = TRUE
IndInit == /\ ks \in Ks /\ kp \in Ks /\ qs \in 0 .. 3 /\ qp \in 0 .. 3 /\ good \in BOOLEAN
           /\ \E a \in Nat : left = a
           /\ \E a \in Nat : at = a
           /\ \E a \in Nat : os = a
           /\ \E a \in Nat : op = a
           /\ Inv
Read == /\ left > 0
        /\ \E c \in { "data", "pad", "other" } :
             /\ ks' = NextK(ks, qs, c) /\ qs' = NextQ(ks, qs, c) /\ os' = os + Bytes(ks, qs, c)
             /\ kp' = NextK(kp, qp, c) /\ qp' = NextQ(kp, qp, c) /\ op' = op + Bytes(kp, qp, c)
        /\ left' = left - 1 /\ at' = at + 1 /\ UNCHANGED good
Cut == /\ at % 4 = 0 /\ left > 0                        \* a part ends; with nothing left the last part stays open
       /\ good' = (good /\ kp = "data")
       /\ kp' = "data" /\ qp' = 0 /\ at' = 0
       /\ UNCHANGED << left, ks, qs, os, op >>
Next == Read \/ Cut
\* Not so: padding between parts taken for good (the code before 2c2d296) - as if the serial decoder had never ended.
Wrong == ks = "end" => left = 0
=============================================================================
