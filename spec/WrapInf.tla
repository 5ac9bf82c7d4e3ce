------------------------------ MODULE WrapInf -------------------------------
(***************************************************************************)
(* The tool's line breaking for every width and any number of blocks of    *)
(* any length (Apalache): a block is cut at the column carried over from   *)
(* the block before; no line but the last has another length than the      *)
(* width, none is empty, and no character is lost.                         *)
(* Inductive: Init => Inv, Inv /\ Next => Inv'.                            *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  w,
  \* @type: Int;
  todo,         \* left of the block
  \* @type: Int;
  given,        \* characters so far: to be written
  \* @type: Int;
  chars,        \* written
  \* @type: Int;
  nls,          \* newlines written
  \* @type: Int;
  full,         \* characters in the lines ended (w for each newline)
  \* @type: Int;
  col,          \* the column the code keeps
  \* @type: Bool;
  done
Init == /\ \E v \in Nat : w = v
        /\ w > 0
        /\ todo = 0 /\ given = 0 /\ chars = 0 /\ nls = 0 /\ full = 0 /\ col = 0 /\ done = FALSE
Inv == /\ w > 0
       /\ chars + todo = given
       /\ 0 <= col /\ col < w
       /\ ~done => full + col = chars          \* the column is the length of the open line
       /\ done => col = 0 /\ todo = 0 /\ chars = given /\ full <= chars /\ chars < full + w
IndInit == /\ \E a \in Nat : w = a
           /\ \E a \in Nat : todo = a
           /\ \E a \in Nat : given = a
           /\ \E a \in Nat : chars = a
           /\ \E a \in Nat : nls = a
           /\ \E a \in Nat : full = a
           /\ \E a \in Nat : col = a
           /\ done \in BOOLEAN
           /\ Inv
Read == /\ ~done /\ todo = 0
        /\ \E m \in Nat : todo' = m /\ given' = given + m
        /\ UNCHANGED << w, chars, nls, full, col, done >>
Slice == /\ ~done /\ todo > 0
         /\ LET n == IF todo < w - col THEN todo ELSE w - col IN
              /\ n > 0
              /\ chars' = chars + n /\ todo' = todo - n
              /\ col' = IF col + n = w THEN 0 ELSE col + n
              /\ nls' = IF col + n = w THEN nls + 1 ELSE nls
              /\ full' = IF col + n = w THEN full + w ELSE full
         /\ UNCHANGED << w, given, done >>
Trailer == /\ ~done /\ todo = 0
           /\ nls' = (IF col > 0 THEN nls + 1 ELSE nls) /\ col' = 0 /\ done' = TRUE
           /\ UNCHANGED << w, todo, given, chars, full >>
Next == Read \/ Slice \/ Trailer
\* Not so (a check that the checks can fail): a column of w - 1 is met.
Wrong == col < w - 1 \/ w = 1
=============================================================================
