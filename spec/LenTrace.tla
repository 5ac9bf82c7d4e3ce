------------------------------- MODULE LenTrace -------------------------------
(* The lengths recorded from the implementation (trace.ndjson, one session per
   line) are those of Len.tla.  State: the session, the call, and how much of
   the input has been taken in. *)
EXTENDS Len, Json

D == ndJsonDeserialize("trace.ndjson")
VARIABLES s, c, t
Init == s = 1 /\ c = 1 /\ t = Zero
Next == \/ c < Len(D[s].calls) /\ c' = c + 1 /\ s' = s /\ t' = Add(t, D[s].calls[c].n)
        \/ c = Len(D[s].calls) /\ s < Len(D) /\ s' = s + 1 /\ c' = 1 /\ t' = Zero
Spec == Init /\ [][Next]_<< s, c, t >>

E == D[s]
K == D[s].calls[c]
Last == c = Len(E.calls)
WantLen == CASE E.op = "encode_once" -> EncodedLen(K.n)
             [] E.op = "encode" /\ Last -> EncFinalLen(t)
             [] E.op = "encode" -> EncCallLen(t, K.n)
             [] OTHER -> DecCallLen(t, K.n, E.data)
WantRet == CASE E.op = "decode_once" -> DecOnceRet(K.n, E.data, E.bad)
             [] E.op = "decode" -> DecCallRet(t, K.n, E.data, E.bad)
             [] OTHER -> 1
(* Omp.tla: an error may be answered with nothing delivered. *)
LengthRight == K.outlen = WantLen \/ (E.omp /\ E.op = "decode_once" /\ K.ret = 0 /\ K.outlen = Zero)
AnswerRight == K.ret = WantRet
=============================================================================
