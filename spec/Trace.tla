-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: trace.ndjson holds calls recorded from the real       *)
(* library (arguments and answers); each must be an enabled action of      *)
(* Stream.tla with exactly that answer.  Fully logged, so the search is    *)
(* linear.  The first line is {"op":"config","avail":[...]}.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

Lines == ndJsonDeserialize("trace.ndjson")
TraceAvail == LET a == Lines[1].avail IN { a[i] : i \in 1 .. Len(a) }
TraceHandles == 0 .. 5

VARIABLES hs, cur, last, l
INSTANCE Stream WITH Handles <- TraceHandles, Avail <- TraceAvail

tvars == << hs, cur, last, l >>
E == Lines[l]
Is(op) == l <= Len(Lines) /\ E.op = op /\ l' = l + 1
Answer == /\ last'.out = E.out
          /\ last'.ret = E.ret
(* The codec function that was entered, where the harness could see it. *)
Through == E.codec = "" \/ cur' = "auto" \/ E.codec = cur'

TInit == SInit /\ l = 2
(* Sessions come from different processes: `cur` is what its process had
   selected by then. *)
TSession == /\ Is("session")
            /\ hs' = [h \in TraceHandles |-> None]
            /\ cur' = E.cur
            /\ last' = NoAnswer
TNext == \/ TSession
         \/ Is("encode_init")  /\ EncodeInit(E.h, E.flags)
         \/ Is("decode_init")  /\ DecodeInit(E.h, E.flags)
         \/ Is("encode")       /\ Encode(E.h, E.src) /\ Answer /\ Through
         \/ Is("decode")       /\ Decode(E.h, E.src) /\ Answer /\ Through
         \/ Is("final")        /\ EncodeFinal(E.h) /\ Answer
         \/ Is("copy")         /\ Copy(E.h, E.h2)
         \/ Is("encode_once")  /\ EncodeOnce(E.src, E.flags) /\ Answer /\ Through
         \/ Is("decode_once")  /\ DecodeOnce(E.src, E.flags) /\ Answer /\ Through
TSpec == TInit /\ [][TNext]_tvars

(* One state per consumed line, the first line being consumed by TInit. *)
Accepted == TLCGet("stats").diameter = Len(Lines)
=============================================================================
