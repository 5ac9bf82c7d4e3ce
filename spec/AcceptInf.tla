------------------------------ MODULE AcceptInf ------------------------------
(***************************************************************************)
(* What the decoder accepts, for texts of every length (Apalache).  The    *)
(* decoder runs on classes of characters; the text is remembered only by   *)
(* its length, the place of its first character that is not data (0: none) *)
(* and whether everything from there on is padding - enough to say whether *)
(* it is well formed (WellFormed in B64), and whether it still can become  *)
(* so.  AcceptLink shows that the steps are B64's.                         *)
(* Inductive: Init => Inv, Inv /\ Next => Inv'.                            *)
(***************************************************************************)
EXTENDS DecClasses

VARIABLES
  \* @type: Str;
  k,            \* the decoder's state
  \* @type: Int;
  q,            \* characters of the open quantum
  \* @type: Int;
  len,
  \* @type: Int;
  odd,
  \* @type: Bool;
  pads,
  \* @type: Int;
  out           \* bytes produced


(* The text's grammar, from what is remembered of it. *)
NPads == IF odd > 0 /\ pads THEN len - odd + 1 ELSE 0
WellFormed == len % 4 = 0 /\ (odd = 0 \/ (pads /\ NPads <= 2))
(* Some continuation is well formed: nothing odd yet, or padding that sits in
   the last one or two places of its quantum and is not too much. *)
Possible == odd = 0 \/ (pads /\ odd % 4 \in { 3, 0 } /\ NPads <= (IF odd % 4 = 3 THEN 2 ELSE 1))

Inv == /\ k \in Ks /\ q \in 0 .. 3 /\ len >= 0 /\ odd >= 0 /\ odd <= len /\ out >= 0
       /\ k = "data" <=> odd = 0
       /\ odd = 0 => pads
       /\ k = "data" => q = len % 4 /\ out = (3 * len) \div 4
       /\ k # "data" => q = 0
       /\ k = "pad" <=> (odd > 0 /\ pads /\ odd = len /\ len % 4 = 3)
       /\ k = "end" <=> (odd > 0 /\ pads /\ len % 4 = 0 /\ (odd = len \/ odd = len - 1))
       /\ k = "pad" => out = 3 * (len \div 4) + 1
       /\ k = "end" => out = 3 * (len \div 4) - NPads
       /\ k # "err" <=> Possible                                      \* errors come when they must, and only then
       /\ (k = "end" \/ (k = "data" /\ q = 0)) <=> WellFormed         \* what a one-shot call accepts
       /\ (WellFormed => out = 3 * (len \div 4) - NPads)
Init == /\ k = "data" /\ q = 0 /\ len = 0 /\ odd = 0 /\ pads = TRUE /\ out = 0
IndInit == /\ k \in Ks /\ q \in 0 .. 3 /\ pads \in BOOLEAN
           /\ \E a \in Nat : len = a
           /\ \E a \in Nat : odd = a
           /\ \E a \in Nat : out = a
           /\ Inv
Next == \E c \in Classes :
  /\ k' = NextK(k, q, c) /\ q' = NextQ(k, q, c) /\ out' = out + Bytes(k, q, c)
  /\ len' = len + 1
  /\ odd' = IF odd = 0 /\ c # "data" THEN len + 1 ELSE odd
  /\ pads' = (pads /\ (c = "pad" \/ (odd = 0 /\ c = "data")))
\* Not so (a check that the checks can fail).
Wrong == k # "err" <=> odd = 0 \/ pads
=============================================================================
