------------------------------ MODULE SplitProof ------------------------------
(***************************************************************************)
(* Cutting the input anywhere changes nothing, for inputs of any length:   *)
(* a call on a \o b is a call on a followed by one on b.  By induction on  *)
(* b, checked by the TLA+ proof system (tlapm SplitProof.tla).             *)
(***************************************************************************)
EXTENDS B64, TLAPS, SequenceTheorems, SequencesExtTheorems

(* What the two transducers do with a sequence, one symbol at a time. *)
LEMMA EncEmpty == ASSUME NEW s PROVE EncCall(s, << >>) = [st |-> s, out |-> << >>]
<1> DEFINE op(acc, b) == [st |-> EncNext(acc.st, b), out |-> acc.out \o EncOut(acc.st, b)]
<1> DEFINE base == [st |-> s, out |-> << >>]
<1>1 EncCall(s, << >>) = FoldLeft(op, base, << >>)
  BY DEF EncCall
<1> HIDE DEF op, base
<1>2 FoldLeft(op, base, << >>) = base
  BY FoldLeftEmpty, Isa
<1> QED BY <1>1, <1>2 DEF base

LEMMA EncAppend == ASSUME NEW s, NEW d \in Seq(Byte), NEW x \in Byte
                   PROVE EncCall(s, Append(d, x)) = [st  |-> EncNext(EncCall(s, d).st, x),
                                                     out |-> EncCall(s, d).out \o EncOut(EncCall(s, d).st, x)]
<1> DEFINE op(acc, b) == [st |-> EncNext(acc.st, b), out |-> acc.out \o EncOut(acc.st, b)]
<1> DEFINE base == [st |-> s, out |-> << >>]
<1>1 EncCall(s, Append(d, x)) = FoldLeft(op, base, Append(d, x)) /\ EncCall(s, d) = FoldLeft(op, base, d)
  BY DEF EncCall
<1> HIDE DEF op, base
<1>2 FoldLeft(op, base, Append(d, x)) = op(FoldLeft(op, base, d), x)
  BY FoldLeftAppend, Isa
<1>3 EncCall(s, Append(d, x)) = op(EncCall(s, d), x)
  BY <1>1, <1>2
<1> QED BY <1>3 DEF op

LEMMA DecEmpty == ASSUME NEW s PROVE DecFold(s, << >>) = [st |-> s, out |-> << >>]
<1> DEFINE op(acc, b) == [st |-> DecNext(acc.st, b), out |-> acc.out \o DecOut(acc.st, b)]
<1> DEFINE base == [st |-> s, out |-> << >>]
<1>1 DecFold(s, << >>) = FoldLeft(op, base, << >>)
  BY DEF DecFold
<1> HIDE DEF op, base
<1>2 FoldLeft(op, base, << >>) = base
  BY FoldLeftEmpty, Isa
<1> QED BY <1>1, <1>2 DEF base

LEMMA DecAppend == ASSUME NEW s, NEW d \in Seq(Byte), NEW x \in Byte
                   PROVE DecFold(s, Append(d, x)) = [st  |-> DecNext(DecFold(s, d).st, x),
                                                     out |-> DecFold(s, d).out \o DecOut(DecFold(s, d).st, x)]
<1> DEFINE op(acc, b) == [st |-> DecNext(acc.st, b), out |-> acc.out \o DecOut(acc.st, b)]
<1> DEFINE base == [st |-> s, out |-> << >>]
<1>1 DecFold(s, Append(d, x)) = FoldLeft(op, base, Append(d, x)) /\ DecFold(s, d) = FoldLeft(op, base, d)
  BY DEF DecFold
<1> HIDE DEF op, base
<1>2 FoldLeft(op, base, Append(d, x)) = op(FoldLeft(op, base, d), x)
  BY FoldLeftAppend, Isa
<1>3 DecFold(s, Append(d, x)) = op(DecFold(s, d), x)
  BY <1>1, <1>2
<1> QED BY <1>3 DEF op

-----------------------------------------------------------------------------
(* States stay states, outputs are sequences of bytes. *)
LEMMA AlphaT == \A v \in Sextet : Alpha[v] \in Byte
  BY DEF Alpha, Sextet, Byte

LEMMA EncT == ASSUME NEW s \in EncStates, NEW b \in Byte
              PROVE  EncNext(s, b) \in EncStates /\ EncOut(s, b) \in Seq(Byte)
<1>1 EncNext(s, b) \in EncStates
  BY DEF EncStates, EncNext, EncStart, Byte
<1>2 CASE s.n = 0
  <2>1 b \div 4 \in Sextet BY DEF Byte, Sextet
  <2> QED BY <1>2, <2>1, <1>1, AlphaT DEF EncOut
<1>3 CASE s.n = 1
  <2>1 s.c \in 0 .. 3 BY <1>3 DEF EncStates, EncStart
  <2>2 s.c * 16 + b \div 16 \in Sextet BY <2>1 DEF Byte, Sextet
  <2> QED BY <1>3, <2>2, <1>1, AlphaT DEF EncOut
<1>4 CASE s.n = 2
  <2>1 s.c \in 0 .. 15 BY <1>4 DEF EncStates, EncStart
  <2>2 s.c * 4 + b \div 64 \in Sextet /\ b % 64 \in Sextet BY <2>1 DEF Byte, Sextet
  <2> QED BY <1>4, <2>2, <1>1, AlphaT DEF EncOut
<1> QED BY <1>2, <1>3, <1>4 DEF EncStates, EncStart

LEMMA EncCallT == ASSUME NEW s \in EncStates
                  PROVE  \A d \in Seq(Byte) : EncCall(s, d).st \in EncStates /\ EncCall(s, d).out \in Seq(Byte)
<1> DEFINE P(d) == EncCall(s, d).st \in EncStates /\ EncCall(s, d).out \in Seq(Byte)
<1>1 P(<< >>)
  BY EncEmpty
<1>2 ASSUME NEW d \in Seq(Byte), NEW x \in Byte, P(d) PROVE P(Append(d, x))
  <2>1 EncNext(EncCall(s, d).st, x) \in EncStates /\ EncOut(EncCall(s, d).st, x) \in Seq(Byte)
    BY <1>2, EncT
  <2> QED BY <1>2, <2>1, EncAppend
<1> HIDE DEF P
<1>3 \A d \in Seq(Byte) : P(d)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

LEMMA EncShape == ASSUME NEW s
                  PROVE  \A d \in Seq(Byte) : EncCall(s, d) = [st |-> EncCall(s, d).st, out |-> EncCall(s, d).out]
<1> DEFINE P(d) == EncCall(s, d) = [st |-> EncCall(s, d).st, out |-> EncCall(s, d).out]
<1>1 P(<< >>)
  BY EncEmpty
<1>2 ASSUME NEW d \in Seq(Byte), NEW x \in Byte PROVE P(Append(d, x))
  BY EncAppend
<1> HIDE DEF P
<1>3 \A d \in Seq(Byte) : P(d)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

THEOREM EncSplit ==
  ASSUME NEW s \in EncStates, NEW a \in Seq(Byte)
  PROVE  \A b \in Seq(Byte) :
           EncCall(s, a \o b) = [st  |-> EncCall(EncCall(s, a).st, b).st,
                                 out |-> EncCall(s, a).out \o EncCall(EncCall(s, a).st, b).out]
<1> DEFINE m == EncCall(s, a).st
           P(b) == EncCall(s, a \o b) = [st |-> EncCall(m, b).st, out |-> EncCall(s, a).out \o EncCall(m, b).out]
<1>0 m \in EncStates /\ EncCall(s, a).out \in Seq(Byte)
  BY EncCallT
<1>1 P(<< >>)
  <2>1 a \o << >> = a /\ EncCall(m, << >>) = [st |-> m, out |-> << >>]
    BY EncEmpty
  <2>2 EncCall(s, a).out \o << >> = EncCall(s, a).out
    BY <1>0
  <2>3 EncCall(s, a) = [st |-> EncCall(s, a).st, out |-> EncCall(s, a).out]
    BY EncShape
  <2> QED BY <2>1, <2>2, <2>3
<1>2 ASSUME NEW b \in Seq(Byte), NEW x \in Byte, P(b) PROVE P(Append(b, x))
  <2> DEFINE r == EncCall(m, b)
  <2>1 a \o Append(b, x) = Append(a \o b, x) /\ a \o b \in Seq(Byte)
    OBVIOUS
  <2>2 r.st \in EncStates /\ r.out \in Seq(Byte)
    BY <1>0, EncCallT
  <2>3 EncOut(r.st, x) \in Seq(Byte)
    BY <2>2, EncT
  <2>4 EncCall(s, a \o b).st = r.st /\ EncCall(s, a \o b).out = EncCall(s, a).out \o r.out
    BY <1>2
  <2>5 EncCall(s, Append(a \o b, x)) = [st |-> EncNext(r.st, x), out |-> (EncCall(s, a).out \o r.out) \o EncOut(r.st, x)]
    BY <2>1, <2>4, EncAppend
  <2>6 EncCall(m, Append(b, x)) = [st |-> EncNext(r.st, x), out |-> r.out \o EncOut(r.st, x)]
    BY EncAppend
  <2>7 (EncCall(s, a).out \o r.out) \o EncOut(r.st, x) = EncCall(s, a).out \o (r.out \o EncOut(r.st, x))
    BY <1>0, <2>2, <2>3, ConcatAssociative, Isa
  <2> QED BY <2>1, <2>5, <2>6, <2>7
<1> HIDE DEF P
<1>3 \A b \in Seq(Byte) : P(b)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P
-----------------------------------------------------------------------------
LEMMA ValueT == \A c \in Byte : Value[c] \in Sextet \cup {Pad, Invalid}
<1> SUFFICES ASSUME NEW c \in Byte PROVE Value[c] \in Sextet \cup {Pad, Invalid}
  OBVIOUS
<1>1 CASE \E v \in Sextet : Alpha[v] = c
  <2>1 (CHOOSE v \in Sextet : Alpha[v] = c) \in Sextet
    BY <1>1
  <2> QED BY <2>1, <1>1 DEF Value
<1>2 CASE ~ \E v \in Sextet : Alpha[v] = c
  BY <1>2 DEF Value
<1> QED BY <1>1, <1>2

LEMMA DecT == ASSUME NEW s \in DecStates, NEW b \in Byte
              PROVE  DecNext(s, b) \in DecStates /\ DecOut(s, b) \in Seq(Byte)
<1> DEFINE v == Value[b]
<1>0 v \in Sextet \cup {Pad, Invalid}
  BY ValueT
<1> HIDE DEF v
<1>1 /\ s.k \in {"data", "pad", "end", "err"} /\ s.n \in 0 .. 3
     /\ s.n = 1 => s.c \in 0 .. 63
     /\ s.n = 2 => s.c \in 0 .. 15
     /\ s.n = 3 => s.c \in 0 .. 3
  BY DEF DecStates, DecStart, DecPad, DecEnd, DecErr
<1>2 DecNext(s, b) \in DecStates
  <2>1 CASE s.k = "data" /\ v < 64
    <3>1 v \in 0 .. 63 /\ v % 16 \in 0 .. 15 /\ v % 4 \in 0 .. 3
      BY <1>0, <2>1 DEF Sextet, Pad, Invalid
    <3>0 v # Pad
      BY <3>1 DEF Pad
    <3>3 CASE s.n = 0
      <4>1 DecNext(s, b) = [k |-> "data", n |-> 1, c |-> v] BY <2>1, <3>0, <3>3 DEF DecNext, v
      <4> QED BY <3>1, <4>1 DEF DecStates
    <3>4 CASE s.n = 1
      <4>1 DecNext(s, b) = [k |-> "data", n |-> 2, c |-> v % 16] BY <2>1, <3>0, <3>4 DEF DecNext, v
      <4> QED BY <3>1, <4>1 DEF DecStates
    <3>5 CASE s.n = 2
      <4>1 DecNext(s, b) = [k |-> "data", n |-> 3, c |-> v % 4] BY <2>1, <3>0, <3>5 DEF DecNext, v
      <4> QED BY <3>1, <4>1 DEF DecStates
    <3>6 CASE s.n = 3
      <4>1 DecNext(s, b) = DecStart BY <2>1, <3>0, <3>6 DEF DecNext, v
      <4> QED BY <4>1 DEF DecStates
    <3> QED BY <1>1, <3>3, <3>4, <3>5, <3>6
  <2>2 CASE ~ (s.k = "data" /\ v < 64)
    <3>1 DecNext(s, b) \in {DecErr, DecEnd, DecPad}
      BY <1>0, <1>1, <2>2 DEF DecNext, v, Pad, Invalid, Sextet
    <3> QED BY <3>1 DEF DecStates
  <2> QED BY <2>1, <2>2
<1>3 DecOut(s, b) \in Seq(Byte)
  <2>1 CASE s.k = "data" /\ v < 64
    <3>1 v \in 0 .. 63
      BY <1>0, <2>1 DEF Sextet, Pad, Invalid
    <3>2 DecOut(s, b) = CASE s.n = 0 -> << >>
                          [] s.n = 1 -> << s.c * 4 + v \div 16 >>
                          [] s.n = 2 -> << s.c * 16 + v \div 4 >>
                          [] s.n = 3 -> << s.c * 64 + v >>
      BY <2>1 DEF DecOut, v
    <3>3 CASE s.n = 0 BY <3>2, <3>3
    <3>4 CASE s.n = 1
      <4>1 s.c * 4 + v \div 16 \in Byte BY <1>1, <3>1, <3>4 DEF Byte
      <4> QED BY <3>2, <3>4, <4>1
    <3>5 CASE s.n = 2
      <4>1 s.c * 16 + v \div 4 \in Byte BY <1>1, <3>1, <3>5 DEF Byte
      <4> QED BY <3>2, <3>5, <4>1
    <3>6 CASE s.n = 3
      <4>1 s.c * 64 + v \in Byte BY <1>1, <3>1, <3>6 DEF Byte
      <4> QED BY <3>2, <3>6, <4>1
    <3> QED BY <1>1, <3>3, <3>4, <3>5, <3>6
  <2>2 CASE ~ (s.k = "data" /\ v < 64)
    BY <2>2 DEF DecOut, v
  <2> QED BY <2>1, <2>2
<1> QED BY <1>2, <1>3

LEMMA DecFoldT == ASSUME NEW s \in DecStates
                  PROVE  \A d \in Seq(Byte) : DecFold(s, d).st \in DecStates /\ DecFold(s, d).out \in Seq(Byte)
<1> DEFINE P(d) == DecFold(s, d).st \in DecStates /\ DecFold(s, d).out \in Seq(Byte)
<1>1 P(<< >>)
  BY DecEmpty
<1>2 ASSUME NEW d \in Seq(Byte), NEW x \in Byte, P(d) PROVE P(Append(d, x))
  <2>1 DecNext(DecFold(s, d).st, x) \in DecStates /\ DecOut(DecFold(s, d).st, x) \in Seq(Byte)
    BY <1>2, DecT
  <2> QED BY <1>2, <2>1, DecAppend
<1> HIDE DEF P
<1>3 \A d \in Seq(Byte) : P(d)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

LEMMA DecShape == ASSUME NEW s
                  PROVE  \A d \in Seq(Byte) : DecFold(s, d) = [st |-> DecFold(s, d).st, out |-> DecFold(s, d).out]
<1> DEFINE P(d) == DecFold(s, d) = [st |-> DecFold(s, d).st, out |-> DecFold(s, d).out]
<1>1 P(<< >>)
  BY DecEmpty
<1>2 ASSUME NEW d \in Seq(Byte), NEW x \in Byte PROVE P(Append(d, x))
  BY DecAppend
<1> HIDE DEF P
<1>3 \A d \in Seq(Byte) : P(d)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

THEOREM DecFoldSplit ==
  ASSUME NEW s \in DecStates, NEW a \in Seq(Byte)
  PROVE  \A b \in Seq(Byte) :
           DecFold(s, a \o b) = [st  |-> DecFold(DecFold(s, a).st, b).st,
                                 out |-> DecFold(s, a).out \o DecFold(DecFold(s, a).st, b).out]
<1> DEFINE m == DecFold(s, a).st
           P(b) == DecFold(s, a \o b) = [st |-> DecFold(m, b).st, out |-> DecFold(s, a).out \o DecFold(m, b).out]
<1>0 m \in DecStates /\ DecFold(s, a).out \in Seq(Byte)
  BY DecFoldT
<1>1 P(<< >>)
  <2>1 a \o << >> = a /\ DecFold(m, << >>) = [st |-> m, out |-> << >>]
    BY DecEmpty
  <2>2 DecFold(s, a).out \o << >> = DecFold(s, a).out
    BY <1>0
  <2>3 DecFold(s, a) = [st |-> DecFold(s, a).st, out |-> DecFold(s, a).out]
    BY DecShape
  <2> QED BY <2>1, <2>2, <2>3
<1>2 ASSUME NEW b \in Seq(Byte), NEW x \in Byte, P(b) PROVE P(Append(b, x))
  <2> DEFINE r == DecFold(m, b)
  <2>1 a \o Append(b, x) = Append(a \o b, x) /\ a \o b \in Seq(Byte)
    OBVIOUS
  <2>2 r.st \in DecStates /\ r.out \in Seq(Byte)
    BY <1>0, DecFoldT
  <2>3 DecOut(r.st, x) \in Seq(Byte)
    BY <2>2, DecT
  <2>4 DecFold(s, a \o b).st = r.st /\ DecFold(s, a \o b).out = DecFold(s, a).out \o r.out
    BY <1>2
  <2>5 DecFold(s, Append(a \o b, x)) = [st |-> DecNext(r.st, x), out |-> (DecFold(s, a).out \o r.out) \o DecOut(r.st, x)]
    BY <2>1, <2>4, DecAppend
  <2>6 DecFold(m, Append(b, x)) = [st |-> DecNext(r.st, x), out |-> r.out \o DecOut(r.st, x)]
    BY DecAppend
  <2>7 (DecFold(s, a).out \o r.out) \o DecOut(r.st, x) = DecFold(s, a).out \o (r.out \o DecOut(r.st, x))
    BY <1>0, <2>2, <2>3, ConcatAssociative, Isa
  <2> QED BY <2>1, <2>5, <2>6, <2>7
<1> HIDE DEF P
<1>3 \A b \in Seq(Byte) : P(b)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P
-----------------------------------------------------------------------------
(* Calls of the decoder: what a stream delivers does not depend on the cuts,
   and the whole is refused exactly when one of its parts is. *)
LEMMA Dead == ASSUME NEW s \in DecStates, Terminal(s)
              PROVE  \A b \in Seq(Byte) : DecFold(s, b) = [st |-> IF b = << >> THEN s ELSE DecErr, out |-> << >>]
<1> DEFINE P(b) == DecFold(s, b) = [st |-> IF b = << >> THEN s ELSE DecErr, out |-> << >>]
<1>1 P(<< >>)
  BY DecEmpty
<1>2 ASSUME NEW b \in Seq(Byte), NEW x \in Byte, P(b) PROVE P(Append(b, x))
  <2> DEFINE q == DecFold(s, b).st
  <2>1 q.k \in {"end", "err"} /\ DecFold(s, b).out = << >>
    BY <1>2 DEF Terminal, DecErr
  <2>2 DecNext(q, x) = DecErr /\ DecOut(q, x) = << >>
    BY <2>1 DEF DecNext, DecOut
  <2>3 Append(b, x) # << >>
    OBVIOUS
  <2> QED BY <2>1, <2>2, <2>3, DecAppend
<1> HIDE DEF P
<1>3 \A b \in Seq(Byte) : P(b)
  BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

THEOREM DecSplit ==
  ASSUME NEW s \in DecStates, NEW a \in Seq(Byte), NEW b \in Seq(Byte), b # << >>
  PROVE  LET f == DecCall(s, a)  g == DecCall(f.st, b)  w == DecCall(s, a \o b) IN
         /\ w.out = f.out \o g.out
         /\ w.ret = 1 <=> f.ret = 1 /\ g.ret = 1
         /\ w.ret = 1 => w.st = g.st
<1> DEFINE m == DecFold(s, a).st
<1>0 a \o b \in Seq(Byte) /\ m \in DecStates /\ DecFold(s, a).out \in Seq(Byte)
  BY DecFoldT
<1>1 DecFold(s, a \o b) = [st |-> DecFold(m, b).st, out |-> DecFold(s, a).out \o DecFold(m, b).out]
  BY DecFoldSplit
<1>2 CASE Terminal(s)
  BY <1>2 DEF DecCall
<1>3 CASE ~ Terminal(s) /\ Terminal(m)
  <2>1 DecFold(m, b) = [st |-> DecErr, out |-> << >>]
    BY <1>0, <1>3, Dead
  <2>2 DecFold(s, a).out \o << >> = DecFold(s, a).out
    BY <1>0
  <2> QED BY <1>1, <1>3, <2>1, <2>2 DEF DecCall, DecErr
<1>4 CASE ~ Terminal(s) /\ ~ Terminal(m)
  BY <1>1, <1>4 DEF DecCall, Terminal
<1> QED BY <1>2, <1>3, <1>4
=============================================================================
