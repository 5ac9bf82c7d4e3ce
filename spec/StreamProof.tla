----------------------------- MODULE StreamProof -----------------------------
(***************************************************************************)
(* Stream for any number of streams, any data, any flags, calls in any     *)
(* order: streams do not influence one another, a copy is the same value,  *)
(* initialising forgets the past and a closed stream answers the same      *)
(* for ever.  Checked by the TLA+ proof system (tlapm StreamProof.tla).    *)
(***************************************************************************)
EXTENDS Stream, TLAPS

CONSTANTS Datas, Flags

SNext == \/ \E h \in Handles, f \in Flags : EncodeInit(h, f) \/ DecodeInit(h, f)
         \/ \E h \in Handles, d \in Datas : Encode(h, d) \/ Decode(h, d)
         \/ \E h \in Handles : EncodeFinal(h)
         \/ \E g, h \in Handles : Copy(g, h)
         \/ \E d \in Datas, f \in Flags : EncodeOnce(d, f) \/ DecodeOnce(d, f)
SSpec == SInit /\ [][SNext]_svars

(* A stream's value: nothing, or of one of the three kinds with a state. *)
Shape == /\ hs = [h \in Handles |-> hs[h]]
         /\ \A h \in Handles : hs[h] = [k |-> hs[h].k, st |-> hs[h].st]
         /\ \A h \in Handles : hs[h].k \in {"none", "enc", "dec", "fin"}

THEOREM ShapeStart == SInit => Shape
  BY DEF SInit, Shape, None

THEOREM ShapeStep == Shape /\ [SNext]_svars => Shape'
<1> SUFFICES ASSUME Shape, [SNext]_svars PROVE Shape'
  OBVIOUS
<1>1 ASSUME NEW h \in Handles, NEW f \in Flags, EncodeInit(h, f) PROVE Shape'
  BY <1>1 DEF EncodeInit, Shape
<1>2 ASSUME NEW h \in Handles, NEW f \in Flags, DecodeInit(h, f) PROVE Shape'
  BY <1>2 DEF DecodeInit, Shape
<1>3 ASSUME NEW h \in Handles, NEW d \in Datas, Encode(h, d) PROVE Shape'
  BY <1>3 DEF Encode, Shape
<1>4 ASSUME NEW h \in Handles, NEW d \in Datas, Decode(h, d) PROVE Shape'
  BY <1>4 DEF Decode, Shape
<1>5 ASSUME NEW h \in Handles, EncodeFinal(h) PROVE Shape'
  BY <1>5 DEF EncodeFinal, Shape
<1>6 ASSUME NEW g \in Handles, NEW h \in Handles, Copy(g, h) PROVE Shape'
  BY <1>6 DEF Copy, Shape
<1>7 ASSUME NEW d \in Datas, NEW f \in Flags, EncodeOnce(d, f) \/ DecodeOnce(d, f) PROVE Shape'
  BY <1>7 DEF EncodeOnce, DecodeOnce, Shape
<1>8 CASE UNCHANGED svars
  BY <1>8 DEF svars, Shape
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF SNext

-----------------------------------------------------------------------------
(* One call changes at most one stream. *)
Others(h) == \A g \in Handles \ {h} : hs'[g] = hs[g]
THEOREM Isolated == Shape /\ SNext => hs' = hs \/ \E h \in Handles : Others(h)
<1> SUFFICES ASSUME Shape, SNext PROVE hs' = hs \/ \E h \in Handles : Others(h)
  OBVIOUS
<1>1 ASSUME NEW h \in Handles, NEW f \in Flags, EncodeInit(h, f) \/ DecodeInit(h, f) PROVE Others(h)
  BY <1>1 DEF EncodeInit, DecodeInit, Shape, Others
<1>3 ASSUME NEW h \in Handles, NEW d \in Datas, Encode(h, d) PROVE Others(h)
  BY <1>3 DEF Encode, Shape, Others
<1>4 ASSUME NEW h \in Handles, NEW d \in Datas, Decode(h, d) PROVE Others(h)
  BY <1>4 DEF Decode, Shape, Others
<1>5 ASSUME NEW h \in Handles, EncodeFinal(h) PROVE Others(h)
  BY <1>5 DEF EncodeFinal, Shape, Others
<1>6 ASSUME NEW g \in Handles, NEW h \in Handles, Copy(g, h) PROVE Others(h)
  BY <1>6 DEF Copy, Shape, Others
<1>7 ASSUME NEW d \in Datas, NEW f \in Flags, EncodeOnce(d, f) \/ DecodeOnce(d, f) PROVE hs' = hs
  BY <1>7 DEF EncodeOnce, DecodeOnce
<1> QED BY <1>1, <1>3, <1>4, <1>5, <1>6, <1>7 DEF SNext

(* What a call does depends on its own stream and the selection alone: in two
   worlds that agree on these, it answers the same and leaves the same state. *)
EncAns(s, c, d) == IF Usable(c) THEN [st |-> EncCall(s, d).st, out |-> EncCall(s, d).out, ret |-> 1]
                   ELSE [st |-> s, out |-> << >>, ret |-> 1]
DecAns(s, c, d) == IF Usable(c) THEN [st |-> DecCall(s, d).st, out |-> DecCall(s, d).out, ret |-> DecCall(s, d).ret]
                   ELSE [st |-> s, out |-> << >>, ret |-> -1]
THEOREM Own == ASSUME Shape, NEW h \in Handles, NEW d
               PROVE  /\ Encode(h, d) => LET a == EncAns(hs[h].st, cur, d) IN
                           hs'[h] = [k |-> "enc", st |-> a.st] /\ last' = [out |-> a.out, ret |-> a.ret]
                      /\ Decode(h, d) => LET a == DecAns(hs[h].st, cur, d) IN
                           hs'[h] = [k |-> "dec", st |-> a.st] /\ last' = [out |-> a.out, ret |-> a.ret]
                      /\ EncodeFinal(h) => last'.out = EncFinal(hs[h].st)
<1>1 hs[h] = [k |-> hs[h].k, st |-> hs[h].st] /\ hs = [x \in Handles |-> hs[x]]
  BY DEF Shape
<1>2 Encode(h, d) => LET a == EncAns(hs[h].st, cur, d) IN
        hs'[h] = [k |-> "enc", st |-> a.st] /\ last' = [out |-> a.out, ret |-> a.ret]
  BY <1>1 DEF Encode, EncAns
<1>3 Decode(h, d) => LET a == DecAns(hs[h].st, cur, d) IN
        hs'[h] = [k |-> "dec", st |-> a.st] /\ last' = [out |-> a.out, ret |-> a.ret]
  BY <1>1 DEF Decode, DecAns
<1>4 EncodeFinal(h) => last'.out = EncFinal(hs[h].st)
  BY DEF EncodeFinal
<1> QED BY <1>2, <1>3, <1>4

(* A copy is the value it was made of; initialising forgets everything. *)
THEOREM Values == ASSUME Shape, NEW g \in Handles, NEW h \in Handles, NEW f
                  PROVE  /\ Copy(g, h) => hs'[h] = hs[g] /\ hs'[g] = hs[g]
                         /\ EncodeInit(h, f) => hs'[h] = [k |-> "enc", st |-> EncStart]
                         /\ DecodeInit(h, f) => hs'[h] = [k |-> "dec", st |-> DecStart]
<1>0 hs = [x \in Handles |-> hs[x]]
  BY DEF Shape
<1>1 Copy(g, h) => hs'[h] = hs[g] /\ hs'[g] = hs[g]
  BY <1>0 DEF Copy
<1>2 EncodeInit(h, f) => hs'[h] = [k |-> "enc", st |-> EncStart]
  BY <1>0 DEF EncodeInit
<1>3 DecodeInit(h, f) => hs'[h] = [k |-> "dec", st |-> DecStart]
  BY <1>0 DEF DecodeInit
<1> QED BY <1>1, <1>2, <1>3

-----------------------------------------------------------------------------
(* A finished or failed stream stays as it is, whatever is called, until it is
   initialised or overwritten; offered anything, it answers 0 with nothing
   (-1 if the codec is not there). *)
Closed(h) == hs[h].k = "dec" /\ Terminal(hs[h].st)
THEOREM Stays == ASSUME Shape, SNext, NEW h \in Handles, Closed(h)
                 PROVE  \/ hs'[h] = hs[h]
                        \/ hs'[h] \in { [k |-> "enc", st |-> EncStart], [k |-> "dec", st |-> DecStart] }
                        \/ \E g \in Handles : hs'[h] = hs[g] /\ g # h
<1> DEFINE Q == \/ hs'[h] = hs[h]
                \/ hs'[h] \in { [k |-> "enc", st |-> EncStart], [k |-> "dec", st |-> DecStart] }
                \/ \E g \in Handles : hs'[h] = hs[g] /\ g # h
<1>0 hs[h] = [k |-> hs[h].k, st |-> hs[h].st] /\ hs = [x \in Handles |-> hs[x]]
  BY DEF Shape
<1>1 ASSUME NEW i \in Handles, NEW f \in Flags, EncodeInit(i, f) \/ DecodeInit(i, f) PROVE Q
  BY <1>1, <1>0 DEF EncodeInit, DecodeInit
<1>3 ASSUME NEW i \in Handles, NEW d \in Datas, Encode(i, d) PROVE Q
  BY <1>3, <1>0 DEF Encode, Closed
<1>4 ASSUME NEW i \in Handles, NEW d \in Datas, Decode(i, d) PROVE Q
  <2>1 CASE i = h
    <3>1 DecCall(hs[h].st, d).st = hs[h].st
      BY DEF DecCall, Closed
    <3> QED BY <1>4, <1>0, <2>1, <3>1 DEF Decode
  <2>2 CASE i # h
    BY <1>4, <1>0, <2>2 DEF Decode
  <2> QED BY <2>1, <2>2
<1>5 ASSUME NEW i \in Handles, EncodeFinal(i) PROVE Q
  BY <1>5, <1>0 DEF EncodeFinal, Closed
<1>6 ASSUME NEW g \in Handles, NEW i \in Handles, Copy(g, i) PROVE Q
  BY <1>6, <1>0 DEF Copy
<1>7 ASSUME NEW d \in Datas, NEW f \in Flags, EncodeOnce(d, f) \/ DecodeOnce(d, f) PROVE Q
  BY <1>7 DEF EncodeOnce, DecodeOnce
<1> QED BY <1>1, <1>3, <1>4, <1>5, <1>6, <1>7 DEF SNext

THEOREM Refuses == ASSUME Shape, NEW h \in Handles, NEW d, Closed(h), Decode(h, d)
                   PROVE  last'.out = << >> /\ last'.ret \in {0, -1} /\ hs'[h] = hs[h]
<1>0 hs[h] = [k |-> hs[h].k, st |-> hs[h].st] /\ hs = [x \in Handles |-> hs[x]]
  BY DEF Shape
<1>1 DecCall(hs[h].st, d) = [st |-> hs[h].st, out |-> << >>, ret |-> 0]
  BY DEF DecCall, Closed
<1> QED BY <1>0, <1>1 DEF Decode

THEOREM Always == SSpec => []Shape
  BY ShapeStart, ShapeStep, PTL DEF SSpec
=============================================================================
