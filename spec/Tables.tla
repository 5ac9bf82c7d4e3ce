------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* What every look-up table of lib/tables has to contain, entry by entry,  *)
(* as a consequence of B64.tla.  Entries are given as the bytes they       *)
(* occupy in memory, so that one definition serves both byte orders.       *)
(*                                                                         *)
(*  enc_6bit   sextet -> character                                         *)
(*  enc_12bit  two sextets -> the two characters, in text order            *)
(*  dec_8bit   character -> sextet; not a sextet for any other character,  *)
(*             and '=' has a mark of its own                               *)
(*  dec_32bit_dJ  character in position J of a quantum -> the bits it      *)
(*             contributes to the three bytes; the fourth byte is zero for *)
(*             a character of the alphabet and only for those              *)
(***************************************************************************)
EXTENDS B64, Bitwise, TLC

Names == {"enc_6bit", "enc_12bit", "dec_8bit", "dec_32bit_d0", "dec_32bit_d1", "dec_32bit_d2", "dec_32bit_d3"}
Entries(n) == CASE n = "enc_6bit" -> 64 [] n = "enc_12bit" -> 4096 [] OTHER -> 256
Width(n)   == CASE n = "enc_12bit" -> 2 [] n \in {"enc_6bit", "dec_8bit"} -> 1 [] OTHER -> 4
Pos(n)     == CASE n = "dec_32bit_d0" -> 0 [] n = "dec_32bit_d1" -> 1 [] n = "dec_32bit_d2" -> 2 [] n = "dec_32bit_d3" -> 3

(* The bits sextet v contributes to the three bytes of its group. *)
Share(j, v) == CASE j = 0 -> << v * 4, 0, 0 >>
                 [] j = 1 -> << v \div 16, (v % 16) * 16, 0 >>
                 [] j = 2 -> << 0, v \div 4, (v % 4) * 64 >>
                 [] j = 3 -> << 0, 0, v >>

(* e: the bytes of entry i in memory order. *)
EntryOK(n, i, e) ==
  CASE n = "enc_6bit"  -> e = << Alpha[i] >>
    [] n = "enc_12bit" -> e = << Alpha[i \div 64], Alpha[i % 64] >>
    [] n = "dec_8bit"  -> IF IsData(i) THEN e = << Value[i] >> ELSE e[1] >= 64
    [] OTHER -> IF IsData(i) THEN SubSeq(e, 1, 3) = Share(Pos(n), Value[i]) /\ e[4] = 0
                             ELSE e[4] # 0

(* The generator can be given characters for sextets 62 and 63: the decoding *)
(* tables of that alphabet.                                                *)
AlphaOf(x, y) == [Alpha EXCEPT ![62] = x, ![63] = y]
AltOK(A, n, i, e) ==
  /\ n \in {"dec_32bit_d0", "dec_32bit_d1", "dec_32bit_d2", "dec_32bit_d3"}
  /\ IF \E v \in Sextet : A[v] = i
     THEN SubSeq(e, 1, 3) = Share(Pos(n), CHOOSE v \in Sextet : A[v] = i) /\ e[4] = 0
     ELSE e[4] # 0

(* '=' is told apart from every other character. *)
PadMarked(tab) == \A c \in Byte \ {PadCh} : tab[c + 1] # tab[PadCh + 1]
=============================================================================
