------------------------------ MODULE DecClasses ------------------------------
(***************************************************************************)
(* The decoder on classes of characters: its state (k, and q characters of *)
(* the open quantum) and how many bytes a character produces.  AcceptLink  *)
(* shows that it is B64's.                                                 *)
(***************************************************************************)
EXTENDS Integers
Ks == { "data", "pad", "end", "err" }
Classes == { "data", "pad", "other" }
NextK(kk, qq, c) == CASE kk = "data" /\ c = "data" -> "data"
                      [] kk = "data" /\ c = "pad" /\ qq = 2 -> "pad"
                      [] kk = "data" /\ c = "pad" /\ qq = 3 -> "end"
                      [] kk = "pad" /\ c = "pad" -> "end"
                      [] OTHER -> "err"
NextQ(kk, qq, c) == IF kk = "data" /\ c = "data" THEN (qq + 1) % 4 ELSE 0
Bytes(kk, qq, c) == IF kk = "data" /\ c = "data" /\ qq > 0 THEN 1 ELSE 0
===============================================================================
