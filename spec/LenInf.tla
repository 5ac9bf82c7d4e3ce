------------------------------- MODULE LenInf -------------------------------
(***************************************************************************)
(* Lengths of every size (Apalache: the integers are unbounded).  A stream *)
(* is fed chunks of any length; each is processed as head, any number of a *)
(* codec's rounds, and tail.  What comes out is what was determined,       *)
(* whichever number of rounds was run (`RoundsBenign` in LenMC, for all    *)
(* lengths), and finalising completes the one-shot length.                 *)
(* Inductive: Init => Inv, Inv /\ Next => Inv'.                            *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Bool;
  enc,
  \* @type: Int;
  group,        \* source bytes of a codec's round, in groups
  \* @type: Int;
  fed,          \* source bytes so far
  \* @type: Int;
  out,          \* what has come out
  \* @type: Int;
  pend,         \* bytes of the pending group
  \* @type: Int;
  fin           \* what finalising adds now
In == IF enc THEN 3 ELSE 4
Out == IF enc THEN 4 ELSE 3
Det(y) == IF enc THEN 4 * (y \div 3) + (y % 3) ELSE (3 * y) \div 4
Final(q) == IF ~enc \/ q = 0 THEN 0 ELSE IF q = 1 THEN 3 ELSE 2

Inv == /\ enc \in BOOLEAN /\ group \in { 1, 2, 4, 8, 16, 32 }
       /\ fed >= 0 /\ pend = fed % In /\ out = Det(fed) /\ fin = Final(pend)
       /\ enc => out + fin = 4 * ((fed + 2) \div 3)
Init == /\ enc \in BOOLEAN /\ group \in { 1, 2, 4, 8, 16, 32 }
        /\ fed = 0 /\ out = 0 /\ pend = 0 /\ fin = 0
IndInit == /\ enc \in BOOLEAN /\ group \in { 1, 2, 4, 8, 16, 32 }
           /\ \E f \in Nat : fed = f
           /\ pend = fed % In /\ out = Det(fed) /\ fin = Final(pend)
           /\ enc => out + fin = 4 * ((fed + 2) \div 3)

\* Bytes go one at a time through the plain code: b of them with q pending.
Plain(q, b) == Det(q + b) - Det(q)
Next == \E m \in Nat : \E k \in Nat :
  LET h0 == IF pend = 0 THEN 0 ELSE In - pend
      h == IF m < h0 THEN m ELSE h0
      ready == pend = 0 \/ h = h0
      rest == m - h
      used == IF ready THEN k * (In * 1) ELSE 0
      unit == CASE group = 1 -> 1 [] group = 2 -> 2 [] group = 4 -> 4 [] group = 8 -> 8 [] group = 16 -> 16 [] OTHER -> 32
  IN /\ used <= rest
     /\ ready => k % unit = 0               \* rounds of `group` groups each, k groups together
     /\ fed' = fed + m
     /\ out' = out + Plain(pend, h) + (IF ready THEN k * Out + Plain(0, rest - used) ELSE 0)
     /\ pend' = (IF ready THEN (rest - used) % In ELSE pend + h)
     /\ fin' = Final(IF ready THEN (rest - used) % In ELSE pend + h)
     /\ UNCHANGED << enc, group >>
\* Not so (a check that the checks can fail).
Wrong == enc => out + fin <= 4 * ((fed + 1) \div 3)
=============================================================================
