-------------------------------- MODULE LenMC --------------------------------
(***************************************************************************)
(* 1. The arithmetic of Len.tla agrees with integers, and its lengths with *)
(*    the transducers of B64.tla.                                          *)
(* 2. A text whose length is a multiple of the group leaves a transducer   *)
(*    where it started, so that repeating it repeats the output.           *)
(* 3. The lengths used against the implementation are enough: in a world   *)
(*    with B-bit "int"s, every way of cutting one quantity of the codecs'  *)
(*    length computation down to such a type is noticed at one of them.    *)
(***************************************************************************)
EXTENDS B64, TLC

CONSTANTS B                                    \* bits of the narrow type

VARIABLE n
Init == n \in 0 .. 2 ^ (B + 3) + 40
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

L == INSTANCE Len
Big(x) == L!Big(x)
Val(x) == L!Val(x)
Ones(k) == [i \in 1 .. k |-> (i * 37) % 256]
As(k) == [i \in 1 .. k |-> Alpha[(i * 11) % 64]]

Arith == LET x == n * 8191 + 5 IN
         /\ Val(Big(x)) = x
         /\ Val(L!Add(Big(x), Big(n))) = x + n
         /\ Val(L!Sub(Big(x), Big(n))) = x - n
         /\ Val(L!Mul(Big(x), 4)) = 4 * x
         /\ Val(L!Div(Big(x), 3)) = x \div 3 /\ L!Mod(Big(x), 3) = x % 3
         /\ L!Le(Big(n), Big(x)) /\ ~L!Le(Big(x), Big(n))
Lengths == n <= 70 =>
         /\ Val(L!CharsDone(Big(n))) = Len(EncCall(EncStart, Ones(n)).out)
         /\ Val(L!EncodedLen(Big(n))) = Len(EncOneShot(Ones(n)))
         /\ Val(L!BytesDone(Big(n))) = Len(DecCall(DecStart, As(n)).out)
         /\ \A k \in 0 .. 4 : LET t == Big(k) d == Big(n) IN
              /\ Val(L!EncCallLen(t, d)) = Len(EncCall(EncCall(EncStart, Ones(k)).st, Ones(n)).out)
              /\ Val(L!EncFinalLen(d)) = Len(EncFinal(EncCall(EncStart, Ones(n)).st))
              /\ LET txt == As(n) \o << 200 >> \o As(k) IN
                   /\ Val(L!DecCallLen(L!Zero, Big(Len(txt)), d)) = Len(DecCall(DecStart, txt).out)
                   /\ L!DecCallRet(L!Zero, Big(Len(txt)), d, TRUE) = DecCall(DecStart, txt).ret
                   /\ L!DecOnceRet(Big(Len(txt)), d, TRUE) = DecOneShot(txt).ret
              /\ L!DecOnceRet(d, d, FALSE) = DecOneShot(As(n)).ret
Periodic == n <= 40 /\ n % 12 = 0 =>
         /\ EncCall(EncStart, Ones(n)).st = EncStart
         /\ DecCall(DecStart, As(n)).st = DecStart

-----------------------------------------------------------------------------
(* The length computation of a codec: r rounds of `inb` bytes giving `outb`,
   what is left goes to the tail.  cut: which quantity lives in a narrow type. *)
Unsigned(x) == x % (2 ^ B)
Signed(x) == LET y == (x + 2 ^ (B - 1)) % (2 ^ B) IN y - 2 ^ (B - 1)
Pos0(x) == IF x < 0 THEN 0 ELSE x
Quant == {"none", "srclen", "rounds", "taken", "made", "outlen"}
Types == {"signed", "unsigned"}
C(q, ty, cut, x) == IF q # cut THEN x ELSE IF ty = "signed" THEN Signed(x) ELSE Unsigned(x)

Outcome(m, inb, outb, cut, ty) ==              \* << produced, length reported >>
  LET s == C("srclen", ty, cut, m)
      r == IF s < inb THEN 0 ELSE C("rounds", ty, cut, s \div inb)
      taken == C("taken", ty, cut, r * inb)
      made == C("made", ty, cut, r * outb)
      rest == s - taken
      tail == IF outb > inb THEN 4 * ((rest + 2) \div 3) ELSE 3 * (rest \div 4)
  IN IF r < 0 \/ rest < 0 \/ rest > Pos0(s) THEN << -1, -1 >>     \* runs away
     ELSE << r * outb + tail, C("outlen", ty, cut, made + tail) >>
Right(m, inb, outb) == LET k == IF outb > inb THEN 4 * ((m + 2) \div 3) ELSE 3 * (m \div 4) IN << k, k >>

(* The lengths: eighths of 2^B, plus a little. *)
EncProbes == {<< c, d >> : c \in {3, 4, 6, 8, 12}, d \in {1, 5}}
DecProbes == {<< c, d >> : c \in {4, 6, 8, 12, 16}, d \in {4, 8}}
AtScale(p) == (p[1] * 2 ^ (B - 3)) + p[2]
Mega == {<< 12, 1 >>}                          \* what every codec is given
MegaD == {<< 16, 8 >>, << 12, 8 >>}

NoCutRight == \A io \in {<< 3, 4 >>, << 6, 8 >>, << 12, 16 >>, << 4, 3 >>, << 8, 6 >>} :
                (io[2] > io[1] \/ n % 4 = 0) => Outcome(n, io[1], io[2], "none", "signed") = Right(n, io[1], io[2])
Noticed(P, inb, outb, cut, ty) == \E p \in P : Outcome(AtScale(p), inb, outb, cut, ty) # Right(AtScale(p), inb, outb)
Blocks == {<< 3, 4 >>, << 6, 8 >>, << 12, 16 >>, << 4, 3 >>, << 8, 6 >>, << 16, 12 >>}
(* A count of rounds that loses its high bits does no harm: what the loop
   leaves undone is left to the tail.  (A bug planted that way turned out not
   to be one.)  A negative one runs away, once there are enough rounds. *)
RoundsBenign == \A io \in Blocks : (io[2] > io[1] \/ n % 4 = 0) =>
                  Outcome(n, io[1], io[2], "rounds", "unsigned") = Right(n, io[1], io[2])
Harmful(inb) == {<< q, ty >> \in (Quant \ {"none"}) \X Types : q # "rounds" \/ (ty = "signed" /\ inb \in {3, 4})}
Adequate == n = 0 => \A io \in Blocks : \A x \in Harmful(io[1]) :
              Noticed(IF io[2] > io[1] THEN Mega ELSE MegaD, io[1], io[2], x[1], x[2])
=============================================================================
