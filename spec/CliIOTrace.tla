------------------------------ MODULE CliIOTrace -----------------------------
(* Trace validation of the system calls of whole runs against CliIO. *)
EXTENDS Integers, Sequences, TLC, Json
Lines == ndJsonDeserialize("trace.ndjson")
VARIABLES total, ok, w, fault, status, l
INSTANCE CliIO
E == Lines[l]
Is(op) == l <= Len(Lines) /\ E.op = op /\ l' = l + 1
TInit == IOInit(0, TRUE) /\ l = 2
Start == /\ Is("start")
         /\ total' = E.total /\ ok' = E.ok /\ w' = 0 /\ fault' = FALSE /\ status' = -1
TNext == \/ Start
         \/ Is("write") /\ Write(E.off, E.len, E.ret)
         \/ Is("read")  /\ Read(E.ret)
         \/ Is("nomem") /\ NoMemory
         \/ Is("exit")  /\ Exit(E.status)
TSpec == TInit /\ [][TNext]_<< total, ok, w, fault, status, l >>
Accepted == TLCGet("stats").diameter = Len(Lines)
=============================================================================
