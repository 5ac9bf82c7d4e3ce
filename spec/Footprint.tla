------------------------------ MODULE Footprint ------------------------------
(***************************************************************************)
(* What one call touches.  A codec is a loop over blocks of `inb` source   *)
(* bytes giving `outb` bytes, whose rounds load `ld` bytes and store `st`  *)
(* bytes (vector instructions load and store more than they use), after a  *)
(* head that completes the pending group and before a tail that goes byte  *)
(* by byte.  The guards (`min`, `slack`) have to keep the extra bytes      *)
(* inside the caller's buffers; nothing else of the caller's is touched.   *)
(*                                                                         *)
(* The shapes are those of the codecs.  The contract - Room, Frame - does  *)
(* not depend on them: it is what the implementation is held to (drv.c,    *)
(* FootTrace.tla), however its loops look.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,            \* longest chunk
          Weak,         \* by how much the loops' guards are too weak
          Leak          \* what a round does to the caller besides

-----------------------------------------------------------------------------
(* The contract. *)
DetE(x) == 4 * (x \div 3) + (x % 3)            \* characters determined by x bytes
DetD(x) == (3 * x) \div 4                      \* bytes determined by x characters
Det(dir, x) == IF dir = "enc" THEN DetE(x) ELSE DetD(x)
Group(dir) == IF dir = "enc" THEN 3 ELSE 4
Room(dir, q, m) == Det(dir, q + m) - Det(dir, q)   \* with q pending, m more
FinalLen(q) == CASE q = 0 -> 0 [] q = 1 -> 3 [] q = 2 -> 2
OnceLen(m) == 4 * ((m + 2) \div 3)
(* Everything of the caller's but the destination, the length and the state. *)
Others == {"source", "before the state", "registers", "floating-point registers", "errno", "floating-point modes",
           "direction flag", "x87 stack", "library variables", "heap"}

-----------------------------------------------------------------------------
S(name, dir, inb, outb, ld, off, st, min, slack) ==
  [name |-> name, dir |-> dir, inb |-> inb, outb |-> outb, ld |-> ld, off |-> off, st |-> st, min |-> min, slack |-> slack]
Shapes == { S("plain32", "enc", 3, 4, 4, 0, 4, 4, 1),       S("plain64", "enc", 6, 8, 8, 0, 8, 8, 2),
            S("ssse3", "enc", 12, 16, 16, 0, 16, 16, 4),    S("avx2", "enc", 24, 32, 32, -4, 32, 32, 4),
            S("avx512", "enc", 48, 64, 64, 0, 64, 64, 24),  S("neon", "enc", 48, 64, 48, 0, 64, 48, 0),
            S("plain32", "dec", 4, 3, 4, 0, 4, 8, 4),       S("ssse3", "dec", 16, 12, 16, 0, 16, 24, 8),
            S("avx2", "dec", 32, 24, 32, 0, 32, 45, 13),    S("neon", "dec", 64, 48, 64, 0, 48, 64, 0) }
Rounds(s, m, w) == LET sl == IF s.slack < w THEN 0 ELSE s.slack - w
                   IN IF m < s.min - w THEN 0 ELSE IF m < sl THEN 0 ELSE (m - sl) \div s.inb
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

VARIABLES sh, n, p,         \* the codec's loop, the chunk, what is pending
          pc, k, first,     \* where we are; rounds to do; none done yet
          pos, out,         \* source and destination offsets
          rlo, rhi, whi,    \* what has been read and written so far
          own,              \* what each destination byte holds
          touched
vars == << sh, n, p, pc, k, first, pos, out, rlo, rhi, whi, own, touched >>

Cap == Room(sh.dir, p, n)
Init == /\ sh \in Shapes /\ n \in 0 .. N /\ p \in 0 .. Group(sh.dir) - 1
        /\ pc = "head" /\ k = 0 /\ first = TRUE /\ pos = 0 /\ out = 0
        /\ rlo = 0 /\ rhi = 0 /\ whi = 0 /\ own = << >> /\ touched = {}

(* Laying bytes over what is there; past the end it grows. *)
Lay(o, at, len, what) == [i \in 1 .. Max(Len(o), at + len) |-> IF i > at /\ i <= at + len THEN what ELSE IF i <= Len(o) THEN o[i] ELSE "none"]
Bytes(m, q) == /\ pos' = pos + m /\ rhi' = Max(rhi, pos + m)     \* byte by byte: m source bytes, q pending before
               /\ LET d == Room(sh.dir, q, m) IN out' = out + d /\ whi' = Max(whi, out + d) /\ own' = Lay(own, out, d, "data")

Begin == /\ pc = "head"
        /\ LET m == IF p = 0 THEN 0 ELSE Min(n, Group(sh.dir) - p) IN
             /\ Bytes(m, p)
             /\ LET ready == p = 0 \/ m = Group(sh.dir) - p IN
                  /\ pc' = IF ready THEN "bulk" ELSE "done"
                  /\ k' = IF ready THEN Rounds(sh, n - m, Weak) ELSE 0
        /\ UNCHANGED << sh, n, p, first, rlo, touched >>
Round == /\ pc = "bulk" /\ k > 0
         /\ LET from == pos + (IF first THEN 0 ELSE sh.off) IN rlo' = Min(rlo, from) /\ rhi' = Max(rhi, from + sh.ld)
         /\ whi' = Max(whi, out + sh.st)
         /\ own' = Lay(Lay(own, out, sh.st, "spill"), out, sh.outb, "data")
         /\ pos' = pos + sh.inb /\ out' = out + sh.outb /\ k' = k - 1 /\ first' = FALSE
         /\ touched' = touched \cup Leak
         /\ UNCHANGED << sh, n, p, pc >>
Leave == /\ pc = "bulk" /\ (k = 0 \/ sh.dir = "dec")             \* a decoder may meet something odd
         /\ pc' = "tail" /\ k' = 0
         /\ UNCHANGED << sh, n, p, first, pos, out, rlo, rhi, whi, own, touched >>
Finish == /\ pc = "tail" /\ pc' = "done"
         /\ \E m \in (IF sh.dir = "enc" THEN {n - pos} ELSE 0 .. n - pos) : Bytes(m, 0)
         /\ UNCHANGED << sh, n, p, k, first, rlo, touched >>
Next == Begin \/ Round \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars

ReadsInside == rlo >= 0 /\ rhi <= n
WritesInside == whi <= Cap
(* Whatever spilled over has been overwritten where it matters; an encoder
   leaves nothing behind its output. *)
DataRight == pc = "done" => /\ \A i \in 1 .. out : own[i] = "data"
                            /\ sh.dir = "enc" => whi = out /\ out = Cap
Frame == touched = {}

-----------------------------------------------------------------------------
(* The lengths tried are enough: whatever guards a loop of these shapes is
   given, if it ever leaves the buffers it does so for a chunk of at most
   Tried bytes. *)
Tried == 120
Leaves(s, mn, sl, x) == LET r == IF x < mn \/ x < sl THEN 0 ELSE (x - sl) \div s.inb IN
  r > 0 /\ (\/ (r - 1) * s.inb + (IF r > 1 THEN s.off ELSE 0) + s.ld > x
            \/ (r - 1) * s.outb + s.st > Room(s.dir, 0, x))
ASSUME Adequate == \A s \in Shapes : \A mn \in 0 .. s.min : \A sl \in 0 .. s.slack :
           (\E x \in 0 .. 400 : Leaves(s, mn, sl, x)) => \E x \in 0 .. Tried : Leaves(s, mn, sl, x)
ASSUME \A s \in Shapes : \A x \in 0 .. 400 : ~Leaves(s, s.min, s.slack, x)
=============================================================================
