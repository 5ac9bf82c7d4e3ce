------------------------------ MODULE CliTrace -------------------------------
(* Trace validation of whole runs of the tool: one line per run. *)
EXTENDS Cli, TLC, Json
Lines == ndJsonDeserialize("trace.ndjson")
VARIABLES l
E == Lines[l]
TInit == l = 2
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ Allowed(Run([decode |-> E.decode, mode |-> E.mode, w |-> E.w], E.in), E.out, E.status)
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter = Len(Lines)
=============================================================================
