------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The library's C interface as a state machine.  One action per public    *)
(* call; the call's return is its linearization point (the library is      *)
(* sequential, Select.tla and Omp.tla look inside).                        *)
(*                                                                         *)
(* State: any number of caller-owned stream states (handles), each a value *)
(* that may be copied or overwritten by initialisation, and the process-   *)
(* wide codec selection `cur`.  `last` is the answer of the latest call.   *)
(*                                                                         *)
(* Deliberately modelled as the code behaves:                              *)
(*  - the selection is process-wide and sticky: initialising with flags    *)
(*    that name a codec re-selects for every stream, open ones included,   *)
(*    and initialising with flags 0 keeps what is selected;                *)
(*  - flags that name several codecs select one of them; flags with none   *)
(*    of them but another of the low 16 bits set either keep the selection *)
(*    or go back to the automatic one (the interface promises neither);    *)
(*    higher bits do nothing;                                              *)
(*  - a call through a codec that is not compiled in writes nothing, says  *)
(*    0 bytes (and -1 when decoding) and leaves the stream as it was;      *)
(*  - finalising does not go through the codec.                            *)
(***************************************************************************)
EXTENDS B64

CONSTANTS Handles, Avail      \* Avail: names of the codecs that are compiled in

VARIABLES hs, cur, last
svars == << hs, cur, last >>

(* Codec names with their flag's bit number. *)
FlagOrder == << [name |-> "avx2",   bit |-> 0], [name |-> "neon32", bit |-> 1],
                [name |-> "neon64", bit |-> 2], [name |-> "plain",  bit |-> 3],
                [name |-> "ssse3",  bit |-> 4], [name |-> "sse41",  bit |-> 5],
                [name |-> "sse42",  bit |-> 6], [name |-> "avx",    bit |-> 7],
                [name |-> "avx512", bit |-> 8] >>
CodecNames == { FlagOrder[i].name : i \in 1 .. Len(FlagOrder) }
FlagOf(name) == LET e == CHOOSE x \in ToSet(FlagOrder) : x.name = name IN 2 ^ e.bit

HasBit(f, b) == (f \div (2 ^ b)) % 2 = 1
Named(f) == { FlagOrder[i].name : i \in { j \in 1 .. Len(FlagOrder) : HasBit(f, FlagOrder[j].bit) } }
Unknown(f) == (f % 65536) \div 512 # 0        \* one of bits 9..15, which name nothing
(* What may be selected after flags f were passed while c was selected. *)
Selectable(c, f) == IF Named(f) # {} THEN Named(f)
                 ELSE IF c = "none" THEN {"auto"}
                 ELSE IF Unknown(f) THEN {c, "auto"}
                 ELSE {c}
Usable(c) == c = "auto" \/ c \in Avail

None == [k |-> "none", st |-> EncStart]
NoAnswer == [out |-> << >>, ret |-> 1]

SInit == /\ hs = [h \in Handles |-> None]
         /\ cur = "none"
         /\ last = NoAnswer

EncodeInit(h, f) ==
  /\ cur' \in Selectable(cur, f)
  /\ hs' = [hs EXCEPT ![h] = [k |-> "enc", st |-> EncStart]]
  /\ last' = NoAnswer

DecodeInit(h, f) ==
  /\ cur' \in Selectable(cur, f)
  /\ hs' = [hs EXCEPT ![h] = [k |-> "dec", st |-> DecStart]]
  /\ last' = NoAnswer

Encode(h, d) ==
  /\ hs[h].k = "enc"
  /\ IF Usable(cur)
     THEN LET r == EncCall(hs[h].st, d) IN
          /\ hs' = [hs EXCEPT ![h].st = r.st]
          /\ last' = [out |-> r.out, ret |-> 1]
     ELSE /\ hs' = hs
          /\ last' = [out |-> << >>, ret |-> 1]
  /\ cur' = cur

EncodeFinal(h) ==
  /\ hs[h].k = "enc"
  /\ hs' = [hs EXCEPT ![h].k = "fin"]
  /\ last' = [out |-> EncFinal(hs[h].st), ret |-> 1]
  /\ cur' = cur

Decode(h, d) ==
  /\ hs[h].k = "dec"
  /\ IF Usable(cur)
     THEN LET r == DecCall(hs[h].st, d) IN
          /\ hs' = [hs EXCEPT ![h].st = r.st]
          /\ last' = [out |-> r.out, ret |-> r.ret]
     ELSE /\ hs' = hs
          /\ last' = [out |-> << >>, ret |-> -1]
  /\ cur' = cur

Copy(g, h) ==
  /\ g # h
  /\ hs[g].k # "none"
  /\ hs' = [hs EXCEPT ![h] = hs[g]]
  /\ last' = NoAnswer
  /\ cur' = cur

EncodeOnce(d, f) ==
  \E c \in Selectable(cur, f) :
  /\ cur' = c
  /\ hs' = hs
  /\ last' = [out |-> IF Usable(c) THEN EncOneShot(d) ELSE << >>, ret |-> 1]

DecodeOnce(d, f) ==
  \E c \in Selectable(cur, f) :
  /\ cur' = c
  /\ hs' = hs
  /\ last' = IF Usable(c) THEN DecOneShot(d) ELSE [out |-> << >>, ret |-> -1]
=============================================================================
