-------------------------------- MODULE CliIO --------------------------------
(***************************************************************************)
(* A run of the tool as seen at the system-call boundary.  total: length   *)
(* of the correct result (for malformed input: of what is decoded before   *)
(* the error); ok: the input can be accepted; w: bytes the kernel has      *)
(* accepted; fault: a call has failed for good; status: -1 while running.  *)
(*                                                                         *)
(* Every write must offer the next bytes of the correct result (off = w),  *)
(* whatever became of the writes before it.  The kernel may take all or    *)
(* any part of them, be interrupted, or fail.                              *)
(***************************************************************************)
EXTENDS Integers
VARIABLES total, ok, w, fault, status
iovars == << total, ok, w, fault, status >>

EINTR == -4
IOInit(t, o) == total = t /\ ok = o /\ w = 0 /\ fault = FALSE /\ status = -1

Write(off, len, ret) ==
  /\ status = -1
  /\ off = w /\ len > 0 /\ w + len <= total
  /\ ret <= len
  /\ w' = IF ret > 0 THEN w + ret ELSE w
  /\ fault' = (fault \/ (ret < 0 /\ ret # EINTR))
  /\ UNCHANGED << total, ok, status >>

(* An interrupted read may be retried or taken as a failure. *)
Read(ret) ==
  /\ status = -1
  /\ fault' = (fault \/ ret < 0)
  /\ UNCHANGED << total, ok, w, status >>

NoMemory ==
  /\ status = -1
  /\ fault' = TRUE
  /\ UNCHANGED << total, ok, w, status >>

Exit(st) ==
  /\ status = -1
  /\ st \in 0 .. 255
  /\ st = 0 => ok /\ w = total
  /\ (ok /\ ~fault) => st = 0
  /\ (~ok /\ ~fault) => st = 1
  /\ status' = st
  /\ UNCHANGED << total, ok, w, fault >>

(* Never a wrong byte, and success only with everything delivered. *)
Honest == /\ w <= total
          /\ status = 0 => ok /\ w = total
=============================================================================
