--------------------------------- MODULE Len ---------------------------------
(***************************************************************************)
(* How long the output of a call is, for lengths far beyond 32 bits.       *)
(*                                                                         *)
(* Lengths are digit sequences in base 2^15 (TLC's integers have 32 bits). *)
(* The state of a session is the number of characters or bytes it has      *)
(* taken in so far; a call adds to it, and its output is the difference of *)
(* what is due after and before.  B64.tla gives the same numbers for short *)
(* inputs (LenMC checks that, and that the digit arithmetic is right).     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768
ND == 4                                        \* digits; least significant first

Zero == [k \in 1 .. ND |-> 0]
RECURSIVE FromInt(_, _)
FromInt(n, k) == IF k = 0 THEN << >> ELSE << n % Base >> \o FromInt(n \div Base, k - 1)
Big(n) == FromInt(n, ND)
RECURSIVE Val(_)                               \* only for small ones
Val(d) == IF d = << >> THEN 0 ELSE d[1] + Base * Val(Tail(d))

RECURSIVE AddC(_, _, _)
AddC(x, y, c) == IF x = << >> THEN << >>
                 ELSE LET s == x[1] + y[1] + c IN << s % Base >> \o AddC(Tail(x), Tail(y), s \div Base)
Add(x, y) == AddC(x, y, 0)
RECURSIVE SubB(_, _, _)
SubB(x, y, b) == IF x = << >> THEN << >>
                 ELSE LET s == x[1] - y[1] - b IN << s % Base >> \o SubB(Tail(x), Tail(y), IF s < 0 THEN 1 ELSE 0)
Sub(x, y) == SubB(x, y, 0)                     \* x >= y
RECURSIVE MulC(_, _, _)
MulC(x, k, c) == IF x = << >> THEN << >>
                 ELSE LET s == x[1] * k + c IN << s % Base >> \o MulC(Tail(x), k, s \div Base)
Mul(x, k) == MulC(x, k, 0)                     \* k < 2^15
RECURSIVE DivR(_, _, _)                        \* from the most significant digit down: << quotient digits, remainder >>
DivR(x, k, r) == IF x = << >> THEN << << >>, r >>
                 ELSE LET t == r * Base + x[Len(x)]
                          rest == DivR(SubSeq(x, 1, Len(x) - 1), k, t % k)
                      IN << Append(rest[1], t \div k), rest[2] >>
Div(x, k) == DivR(x, k, 0)[1]
Mod(x, k) == DivR(x, k, 0)[2]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN Big(1) ELSE Mul(Pow2(k - 1), 2)

(* Characters written once n bytes are in, without and with the end. *)
CharsDone(n) == Add(Mul(Div(n, 3), 4), Big(Mod(n, 3)))
EncodedLen(n) == Mul(Div(Add(n, Big(2)), 3), 4)
(* Bytes written once n characters of the alphabet are in. *)
BytesDone(n) == LET r == Mod(n, 4) IN Add(Mul(Div(n, 4), 3), Big(IF r > 1 THEN r - 1 ELSE 0))

(* Calls.  t: taken in before the call; n: offered; data: how many of all the
   characters of the session are of the alphabet before padding or a character
   outside it; bad: whether such a character follows them. *)
Le(x, y) == LET RECURSIVE Cmp(_)
                Cmp(k) == IF k = 0 THEN TRUE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE Cmp(k - 1)
            IN Cmp(ND)
Min(x, y) == IF Le(x, y) THEN x ELSE y
EncCallLen(t, n) == Sub(CharsDone(Add(t, n)), CharsDone(t))
EncFinalLen(t) == Sub(EncodedLen(t), CharsDone(t))
DecCallLen(t, n, data) == Sub(BytesDone(Min(Add(t, n), data)), BytesDone(Min(t, data)))
DecCallRet(t, n, data, bad) == IF bad /\ ~Le(Add(t, n), data) THEN 0 ELSE 1
DecOnceRet(n, data, bad) == IF bad \/ Mod(n, 4) # 0 THEN 0 ELSE 1
=============================================================================
