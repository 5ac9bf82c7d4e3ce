------------------------------- MODULE FlagMC -------------------------------
(***************************************************************************)
(* C17 on the specification: the process-wide selection under every        *)
(* sequence of calls and flags, for one stream of each kind, builds that   *)
(* lack codecs included.                                                   *)
(***************************************************************************)
EXTENDS Stream, FiniteSets, TLC

CONSTANTS Flags

Chunks == { << >>, << 81 >>, << 61 >> }

VARIABLE flag               \* flag: what the step passed (-1: nothing)
vars == << svars, flag >>

Init == SInit /\ flag = -1
Passing(f) == flag' = f
Next == \/ \E h \in Handles, f \in Flags : (EncodeInit(h, f) \/ DecodeInit(h, f)) /\ Passing(f)
        \/ \E h \in Handles, d \in Chunks : (Encode(h, d) \/ Decode(h, d)) /\ Passing(-1)
        \/ \E h \in Handles : EncodeFinal(h) /\ Passing(-1)
        \/ \E d \in Chunks, f \in Flags : (EncodeOnce(d, f) \/ DecodeOnce(d, f)) /\ Passing(f)
Spec == Init /\ [][Next]_vars

Single(f) == f >= 0 /\ Cardinality(Named(f)) = 1
(* A flag that names a codec selects that codec, whatever was selected. *)
Obeyed == [][flag' >= 0 /\ Named(flag') # {} => cur' \in Named(flag')]_vars
(* It stays selected until another flag is passed. *)
Sticky == [][flag' = -1 \/ (flag' % 65536 = 0) => cur' = cur \/ (cur = "none" /\ cur' = "auto")]_vars
(* Once selected there is always a selection. *)
NeverUnset == [][cur # "none" => cur' # "none"]_vars
(* A missing codec gives nothing and leaves every open stream as it was. *)
MissingIsInert ==
  [][(cur' # "none" /\ ~ Usable(cur') /\ flag' = -1)
       => \A h \in Handles : hs'[h] = hs[h] \/ hs'[h].k = "fin"]_vars
MissingAnswers ==
  (cur # "none" /\ ~ Usable(cur) /\ last.ret # 1) => last.ret = -1 /\ last.out = << >>
=============================================================================
