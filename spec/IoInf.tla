-------------------------------- MODULE IoInf --------------------------------
(***************************************************************************)
(* The tool's vectored output for vectors of any number and any lengths    *)
(* and a kernel that takes any part of what it is offered, interrupts or   *)
(* fails (Apalache).  The vectors still to be written are the current one  *)
(* (cur) and those after it (later); walk: what the last write took and is *)
(* not yet struck off.  Exit status 0 means everything was taken, and what *)
(* is offered is always exactly what has not been taken.                   *)
(* Inductive: Init => Inv, Inv /\ Next => Inv'.                            *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Str;
  pc,
  \* @type: Int;
  made,         \* output produced so far
  \* @type: Int;
  taken,        \* taken by the kernel
  \* @type: Int;
  cur,
  \* @type: Int;
  later,
  \* @type: Int;
  walk
Pcs == { "fill", "write", "walk", "ok", "failed" }
Inv == /\ pc \in Pcs
       /\ made >= 0 /\ taken >= 0 /\ cur >= 0 /\ later >= 0 /\ walk >= 0
       /\ taken <= made
       /\ pc \in { "fill", "ok" } => taken = made /\ cur = 0 /\ later = 0 /\ walk = 0
       /\ pc = "write" => walk = 0 /\ taken + cur + later = made         \* what is offered is what is left
       /\ pc = "walk" => walk <= cur + later /\ taken + cur + later - walk = made
Init == /\ pc = "fill" /\ made = 0 /\ taken = 0 /\ cur = 0 /\ later = 0 /\ walk = 0
IndInit == /\ pc \in Pcs
           /\ \E a \in Nat : made = a
           /\ \E a \in Nat : taken = a
           /\ \E a \in Nat : cur = a
           /\ \E a \in Nat : later = a
           /\ \E a \in Nat : walk = a
           /\ Inv
Fill == /\ pc = "fill"
        /\ \E a \in Nat : \E b \in Nat : made' = made + a + b /\ cur' = a /\ later' = b
        /\ pc' = "write" /\ UNCHANGED << taken, walk >>
Write == /\ pc = "write"
         /\ \/ \E r \in Nat : r <= cur + later /\ taken' = taken + r /\ walk' = r /\ pc' = "walk"
            \/ pc' = "write" /\ UNCHANGED << taken, walk >>              \* interrupted
            \/ pc' = "failed" /\ UNCHANGED << taken, walk >>
         /\ UNCHANGED << made, cur, later >>
Walk == /\ pc = "walk"
        /\ IF cur > walk
           THEN cur' = cur - walk /\ walk' = 0 /\ pc' = "write" /\ UNCHANGED later
           ELSE /\ walk' = walk - cur
                /\ \/ later = 0 /\ pc' = "fill" /\ cur' = 0 /\ later' = 0
                   \/ \E v \in Nat : v <= later /\ cur' = v /\ later' = later - v /\ pc' = "walk"
        /\ UNCHANGED << made, taken >>
End == /\ pc = "fill" /\ pc' = "ok" /\ UNCHANGED << made, taken, cur, later, walk >>
Next == Fill \/ Write \/ Walk \/ End
\* Not so (a check that the checks can fail).
Wrong == pc = "walk" => taken + cur + later = made
=============================================================================
