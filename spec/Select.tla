------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Inside initialisation: the process-wide selection is a pair of          *)
(* pointers that every initialising call may write, one at a time and      *)
(* without synchronisation, and every other call reads once.  Each atomic  *)
(* step is one memory access.  Streams are private to their threads, so    *)
(* all that threads can do to one another goes through the two pointers.   *)
(*                                                                         *)
(* A thread runs one program: an initialisation (for encoding or decoding, *)
(* with flag "0", "x" or "y" - two different forced codecs) followed by    *)
(* one call (the one-shot functions) or two (a stream in two chunks).  The *)
(* library may have a past: a selection made before the threads start; a   *)
(* stream may then be open already, and its thread only goes on with it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Flags, Calls, Variant, Pasts, Opens
Kinds == {"enc", "dec"}
Progs == {p \in [kind : Kinds, calls : Calls, flag : Flags, open : Opens] : p.open => p.flag = "0"}
Codec(f) == IF f = "0" THEN "auto" ELSE f

VARIABLES past,     \* "null", or what was selected before
          ptr,      \* [enc |-> codec or "null", dec |-> ...]
          prog, pc, todo, entered
vars == << past, ptr, prog, pc, todo, entered >>

Init == /\ past \in Pasts
        /\ ptr = [k \in Kinds |-> past]
        /\ prog \in [Threads -> Progs]
        /\ \A t \in Threads : prog[t].open => past # "null"
        /\ pc = [t \in Threads |-> IF prog[t].open THEN "call" ELSE "check"]
        /\ todo = [t \in Threads |-> {}]
        /\ entered = [t \in Threads |-> << >>]

(* base64_stream_*_init reads its own pointer and the flags. *)
Check(t) ==
  /\ pc[t] = "check"
  /\ LET looked == IF Variant = "checkenc" THEN "enc" ELSE prog[t].kind IN
     IF prog[t].flag # "0" \/ ptr[looked] = "null"
     THEN /\ pc' = [pc EXCEPT ![t] = IF Variant = "reset" THEN "reset" ELSE "choose"]
          /\ todo' = [todo EXCEPT ![t] = Kinds]
     ELSE /\ pc' = [pc EXCEPT ![t] = "call"] /\ UNCHANGED todo
  /\ UNCHANGED << past, ptr, prog, entered >>

Reset(t) ==  \* a broken design: clear first, then fill in
  /\ pc[t] = "reset"
  /\ ptr' = [k \in Kinds |-> "null"]
  /\ pc' = [pc EXCEPT ![t] = "choose"]
  /\ UNCHANGED << past, prog, todo, entered >>

(* codec_choose stores the two pointers, in whichever order. *)
Store(t) ==
  /\ pc[t] = "choose"
  /\ \E k \in todo[t] :
       /\ ptr' = [ptr EXCEPT ![k] = Codec(prog[t].flag)]
       /\ todo' = [todo EXCEPT ![t] = @ \ {k}]
       /\ pc' = [pc EXCEPT ![t] = IF todo[t] = {k} THEN "call" ELSE "choose"]
  /\ UNCHANGED << past, prog, entered >>

(* A call reads its pointer once and goes through it. *)
Call(t) ==
  /\ pc[t] = "call"
  /\ entered' = [entered EXCEPT ![t] = Append(@, ptr[prog[t].kind])]
  /\ pc' = [pc EXCEPT ![t] = IF Len(entered[t]) + 1 = prog[t].calls THEN "done" ELSE "call"]
  /\ UNCHANGED << past, ptr, prog, todo >>

Next == \E t \in Threads : Check(t) \/ Reset(t) \/ Store(t) \/ Call(t)
Spec == Init /\ [][Next]_vars

Passed == (IF past = "null" THEN {} ELSE {past})
          \cup { Codec(prog[t].flag) : t \in {u \in Threads : prog[u].flag # "0" \/ past = "null"} }
NeverThroughNull == \A t \in Threads : \A i \in 1 .. Len(entered[t]) : entered[t][i] # "null"
(* Whatever is entered is a selection some thread asked for. *)
Legal == \A t \in Threads : \A i \in 1 .. Len(entered[t]) : entered[t][i] \in Passed
(* A thread that is alone with its flag gets exactly what it asked for. *)
Agreement == Cardinality(Passed) = 1 => \A t \in Threads : \A i \in 1 .. Len(entered[t]) : {entered[t][i]} = Passed
(* What a thread forces is what it enters, unless somebody else forces too. *)
Forced == \A t \in Threads :
            (prog[t].flag # "0" /\ \A u \in Threads \ {t} : prog[u].flag = prog[t].flag \/ (prog[u].flag = "0" /\ past # "null"))
            => \A i \in 1 .. Len(entered[t]) : entered[t][i] = prog[t].flag
Finished == \A t \in Threads : pc[t] = "done"
(* Export of every possible outcome (SelectOut.cfg, two threads). *)
Outcome == Finished => PrintT(<< "OUT", past, prog[1].kind, prog[1].calls, prog[1].flag, IF prog[1].open THEN 1 ELSE 0, prog[2].kind, prog[2].calls, prog[2].flag, IF prog[2].open THEN 1 ELSE 0, entered[1], entered[2] >>)
=============================================================================
