-------------------------------- MODULE B64 --------------------------------
(***************************************************************************)
(* The base64 code of RFC 4648 section 4, twice:                           *)
(*                                                                         *)
(*  - declaratively (RfcEncode, WellFormed, RfcDecode): what the text of a *)
(*    byte string is, which texts are well formed, what they stand for;    *)
(*  - operationally (EncStep, EncFinal, DecStep): byte-at-a-time           *)
(*    transducers whose state is what a streaming codec has to remember.   *)
(*                                                                         *)
(* EncCall and DecCall lift the transducers to calls of the library's      *)
(* streaming API (one call = one linearization point).  The transducers    *)
(* are the single source of truth: Theory.tla checks them against the      *)
(* declarative half, Dump.tla exports them as complete tables which the    *)
(* conformance drivers step next to the real code, and Trace.tla uses the  *)
(* very same operators to validate recorded traces.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Byte   == 0 .. 255
Sextet == 0 .. 63
PadCh  == 61                                   \* '='

-----------------------------------------------------------------------------
(* The alphabet. *)
Alpha == [v \in Sextet |->
            CASE v < 26 -> 65 + v              \* 'A'..'Z'
              [] v < 52 -> 97 + (v - 26)       \* 'a'..'z'
              [] v < 62 -> 48 + (v - 52)       \* '0'..'9'
              [] v = 62 -> 43                  \* '+'
              [] OTHER  -> 47]                 \* '/'

Invalid == 255
Pad     == 254
(* Class of a character: a sextet, Pad or Invalid. *)
Value == [c \in Byte |->
            IF c = PadCh THEN Pad
            ELSE IF \E v \in Sextet : Alpha[v] = c
                 THEN CHOOSE v \in Sextet : Alpha[v] = c
                 ELSE Invalid]

-----------------------------------------------------------------------------
(* Declarative half. *)

(* The 3-byte group starting at position i (1-based), padded with zero bits. *)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
GroupText(s, i) ==
  LET a == At(s, i)  b == At(s, i + 1)  c == At(s, i + 2)
      have == Len(s) - i + 1
      \* 24-bit group as a number, cut into four sextets
      n == a * 65536 + b * 256 + c
      t == << Alpha[n \div 262144], Alpha[(n \div 4096) % 64],
              Alpha[(n \div 64) % 64], Alpha[n % 64] >>
  IN CASE have >= 3 -> t
       [] have = 2  -> << t[1], t[2], t[3], PadCh >>
       [] have = 1  -> << t[1], t[2], PadCh, PadCh >>

NGroups(n) == (n + 2) \div 3
EncodedLen(n) == 4 * NGroups(n)
RfcEncode(s) == [k \in 1 .. EncodedLen(Len(s)) |->
                   GroupText(s, 3 * ((k - 1) \div 4) + 1)[((k - 1) % 4) + 1]]

IsData(c) == Value[c] < 64
(* Well-formed text: whole quanta, data everywhere except that the very last
   quantum may end in one or two '='.  (The padding bits are not required to
   be zero: RFC 4648 section 3.5 leaves that check to the implementation, and
   this one does not make it.) *)
NPad(t) == IF Len(t) >= 1 /\ t[Len(t)] = PadCh
           THEN IF Len(t) >= 2 /\ t[Len(t) - 1] = PadCh THEN 2 ELSE 1
           ELSE 0
WellFormed(t) ==
  /\ Len(t) % 4 = 0
  /\ \A i \in 1 .. Len(t) - NPad(t) : IsData(t[i])

Sx(t, i) == IF Value[t[i]] < 64 THEN Value[t[i]] ELSE 0
DecodedLen(t) == 3 * (Len(t) \div 4) - NPad(t)
RfcDecode(t) ==                                \* for well-formed t
  [k \in 1 .. DecodedLen(t) |->
     LET q == 4 * ((k - 1) \div 3)
         n == Sx(t, q + 1) * 262144 + Sx(t, q + 2) * 4096
              + Sx(t, q + 3) * 64 + Sx(t, q + 4)
     IN CASE (k - 1) % 3 = 0 -> n \div 65536
          [] (k - 1) % 3 = 1 -> (n \div 256) % 256
          [] OTHER           -> n % 256]

-----------------------------------------------------------------------------
(* Encoder transducer.  n: bytes consumed of the current group; c: the bits
   of the last byte that have not been written yet. *)
EncStart  == [n |-> 0, c |-> 0]
EncStates == {EncStart} \cup [n : {1}, c : 0 .. 3] \cup [n : {2}, c : 0 .. 15]

EncNext(s, b) == CASE s.n = 0 -> [n |-> 1, c |-> b % 4]
                   [] s.n = 1 -> [n |-> 2, c |-> b % 16]
                   [] s.n = 2 -> EncStart
EncOut(s, b)  == CASE s.n = 0 -> << Alpha[b \div 4] >>
                   [] s.n = 1 -> << Alpha[s.c * 16 + b \div 16] >>
                   [] s.n = 2 -> << Alpha[s.c * 4 + b \div 64], Alpha[b % 64] >>
EncFinal(s)   == CASE s.n = 0 -> << >>
                   [] s.n = 1 -> << Alpha[s.c * 16], PadCh, PadCh >>
                   [] s.n = 2 -> << Alpha[s.c * 4], PadCh >>

(* A whole call: [st, out]. *)
EncCall(s, data) ==
  FoldLeft(LAMBDA acc, b : [st  |-> EncNext(acc.st, b),
                            out |-> acc.out \o EncOut(acc.st, b)],
           [st |-> s, out |-> << >>], data)

-----------------------------------------------------------------------------
(* Decoder transducer.  k = "data": n characters of the current quantum have
   been consumed, c holds the bits not yet delivered.  "pad": "xx=" seen, one
   more '=' is due.  "end": the padding is complete.  "err": malformed. *)
DecStart  == [k |-> "data", n |-> 0, c |-> 0]
DecPad    == [k |-> "pad",  n |-> 0, c |-> 0]
DecEnd    == [k |-> "end",  n |-> 0, c |-> 0]
DecErr    == [k |-> "err",  n |-> 0, c |-> 0]
DecStates == {DecStart, DecPad, DecEnd, DecErr}
             \cup [k : {"data"}, n : {1}, c : 0 .. 63]
             \cup [k : {"data"}, n : {2}, c : 0 .. 15]
             \cup [k : {"data"}, n : {3}, c : 0 .. 3]
Terminal(s)  == s.k \in {"end", "err"}

DecNext(s, ch) ==
  LET v == Value[ch] IN
  CASE s.k = "err" -> DecErr
    [] s.k = "end" -> DecErr
    [] s.k = "pad" -> IF v = Pad THEN DecEnd ELSE DecErr
    [] s.k = "data" /\ v < 64 ->
         (CASE s.n = 0 -> [k |-> "data", n |-> 1, c |-> v]
            [] s.n = 1 -> [k |-> "data", n |-> 2, c |-> v % 16]
            [] s.n = 2 -> [k |-> "data", n |-> 3, c |-> v % 4]
            [] s.n = 3 -> DecStart)
    [] s.k = "data" /\ v = Pad ->
         (CASE s.n = 2 -> DecPad
            [] s.n = 3 -> DecEnd
            [] OTHER   -> DecErr)
    [] OTHER -> DecErr

DecOut(s, ch) ==
  LET v == Value[ch] IN
  IF s.k = "data" /\ v < 64
  THEN CASE s.n = 0 -> << >>
         [] s.n = 1 -> << s.c * 4 + v \div 16 >>
         [] s.n = 2 -> << s.c * 16 + v \div 4 >>
         [] s.n = 3 -> << s.c * 64 + v >>
  ELSE << >>

(* A whole call of the streaming decoder: [st, out, ret].  A stream that is
   finished or has failed answers 0 and writes nothing, whatever is offered
   (also nothing).  Otherwise the answer is 1 exactly when the characters so
   far can still be, or are, well-formed text; output produced before an
   error in the same call is delivered and counted. *)
DecFold(s, data) ==
  FoldLeft(LAMBDA acc, ch : [st  |-> DecNext(acc.st, ch),
                             out |-> acc.out \o DecOut(acc.st, ch)],
           [st |-> s, out |-> << >>], data)
DecCall(s, data) ==
  IF Terminal(s) THEN [st |-> s, out |-> << >>, ret |-> 0]
  ELSE LET r == DecFold(s, data) IN
       [st |-> r.st, out |-> r.out, ret |-> IF r.st.k = "err" THEN 0 ELSE 1]

(* One-shot decoding: a fresh stream, one call, and no quantum left open. *)
Complete(s) == s.k = "end" \/ (s.k = "data" /\ s.n = 0)
DecOneShot(data) ==
  LET r == DecCall(DecStart, data) IN
  [out |-> r.out, ret |-> IF Complete(r.st) THEN r.ret ELSE 0]

EncOneShot(data) ==
  LET r == EncCall(EncStart, data) IN r.out \o EncFinal(r.st)
=============================================================================
