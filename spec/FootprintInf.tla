---------------------------- MODULE FootprintInf ----------------------------
(***************************************************************************)
(* Footprint's arithmetic for chunks of every length (Apalache, SMT).      *)
(***************************************************************************)
EXTENDS Integers

\* @type: (Str, Bool, Int, Int, Int, Int, Int, Int, Int) => { name: Str, enc: Bool, inb: Int, outb: Int, ld: Int, off: Int, st: Int, min: Int, slack: Int };
S(name, enc, inb, outb, ld, off, st, min, slack) ==
  [name |-> name, enc |-> enc, inb |-> inb, outb |-> outb, ld |-> ld, off |-> off, st |-> st, min |-> min, slack |-> slack]
Shapes == { S("plain32", TRUE, 3, 4, 4, 0, 4, 4, 1),       S("plain64", TRUE, 6, 8, 8, 0, 8, 8, 2),
            S("ssse3", TRUE, 12, 16, 16, 0, 16, 16, 4),    S("avx2", TRUE, 24, 32, 32, -4, 32, 32, 4),
            S("avx512", TRUE, 48, 64, 64, 0, 64, 64, 24),  S("neon", TRUE, 48, 64, 48, 0, 64, 48, 0),
            S("plain32d", FALSE, 4, 3, 4, 0, 4, 8, 4),     S("ssse3d", FALSE, 16, 12, 16, 0, 16, 24, 8),
            S("avx2d", FALSE, 32, 24, 32, 0, 32, 45, 13),  S("neond", FALSE, 64, 48, 64, 0, 48, 64, 0) }
Tried == 120

VARIABLES
  \* @type: { name: Str, enc: Bool, inb: Int, outb: Int, ld: Int, off: Int, st: Int, min: Int, slack: Int };
  sh,
  \* @type: Int;
  x,
  \* @type: Int;
  mn,
  \* @type: Int;
  sl,
  \* @type: Int;
  p
Det(e, y) == IF e THEN 4 * (y \div 3) + (y % 3) ELSE (3 * y) \div 4
Group(e) == IF e THEN 3 ELSE 4
Rounds(m, l, y) == IF y < m \/ y < l THEN 0 ELSE (y - l) \div sh.inb
Leaves(m, l, y, room) == LET r == Rounds(m, l, y) IN
  r > 0 /\ (\/ (r - 1) * sh.inb + (IF r > 1 THEN sh.off ELSE 0) + sh.ld > y
            \/ (r - 1) * sh.outb + sh.st > room)
Init == /\ \E s \in Shapes : /\ sh = s
                             /\ \E a \in 0 .. 64 : mn = a /\ a <= s.min
                             /\ \E b \in 0 .. 32 : sl = b /\ b <= s.slack
        /\ \E y \in Nat : x = y
        /\ \E q \in 0 .. 3 : p = q /\ q < Group(sh.enc)
Next == UNCHANGED << sh, x, mn, sl, p >>
\* The codecs' guards keep every chunk's loads and stores inside - also after p pending bytes and the bytes that complete them.
Inside == LET h == IF p = 0 THEN 0 ELSE Group(sh.enc) - p   \* consumed by the head
              room == Det(sh.enc, p + h + x) - Det(sh.enc, p + h) IN ~Leaves(sh.min, sh.slack, x, room)
\* Whatever the guards, a loop that ever leaves the buffers does so within Tried bytes.
Enough == Leaves(mn, sl, x, Det(sh.enc, x)) => \E y \in 0 .. Tried : Leaves(mn, sl, y, Det(sh.enc, y))
\* Not so (a check that the checks can fail).
Wrong == ~Leaves(sh.min, IF sh.slack = 0 THEN 0 ELSE sh.slack - 1, x, Det(sh.enc, x))
=============================================================================
