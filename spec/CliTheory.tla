------------------------------ MODULE CliTheory ------------------------------
(* The tool's meaning on words grown one symbol at a time: wrapping against
   its declarative definition; a decoding run of a wrapped text gives the text
   back for any width; chopping an input anywhere changes nothing. *)
EXTENDS Cli, TLC
CONSTANTS Symbols, MaxLen, Widths
VARIABLES s
Init == s = << >>
Next == \E c \in Symbols : Len(s) < MaxLen /\ s' = Append(s, c)
Spec == Init /\ [][Next]_s

WrapIsWrap == \A w \in Widths : IsWrapping(w, EncOneShot(s), EncodeRun(w, s).out)
ThereAndBack == \A w \in Widths, m \in {"strip", "ignore"} :
                   DecodeRun(m, EncodeRun(w, s).out) = [out |-> s, ok |-> TRUE]
RawBack == DecodeRun("none", EncodeRun(0, s).out) = [out |-> s, ok |-> TRUE]
(* Feeding the filtered pieces one after another is feeding the filtered whole. *)
Pieces == \A m \in Modes, k \in 0 .. Len(s) :
            Filtered(m, SubSeq(s, 1, k)) \o Filtered(m, SubSeq(s, k + 1, Len(s))) = Filtered(m, s)
(* More input never changes what has been decoded already. *)
Monotone == \A m \in Modes : \A k \in 0 .. Len(s) : IsPrefix(DecodeRun(m, SubSeq(s, 1, k)).out, DecodeRun(m, s).out)
=============================================================================
