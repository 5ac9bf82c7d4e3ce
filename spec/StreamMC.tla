------------------------------ MODULE StreamMC ------------------------------
(* Stream.tla with small constants and a per-handle history (what went in
   since initialisation, what came out), against which the properties are
   stated.  `phase` keeps the enumeration to one kind of activity. *)
EXTENDS Stream, TLC

CONSTANTS Bytes,        \* bytes / characters offered
          MaxChunk,     \* longest chunk
          MaxTotal,     \* longest input per stream
          Flags,        \* flags used for initialisation
          Kinds         \* subset of {"enc","dec","copy","once"}

VARIABLE hist
vars == << svars, hist >>

Chunks == UNION { [1 .. n -> Bytes] : n \in 0 .. MaxChunk }
Empty == [in |-> << >>, out |-> << >>, rets |-> << >>, live |-> TRUE]

MCInit == SInit /\ hist = [h \in Handles |-> Empty]

Log(h, d) == hist' = [hist EXCEPT
    ![h].in   = IF last'.ret = (-1) \/ ~ Usable(cur) THEN @ ELSE @ \o d,
    ![h].out  = @ \o last'.out,
    ![h].live = @ /\ last'.ret # 0]

AEncodeInit  == \E h \in Handles, f \in Flags : "enc" \in Kinds /\ EncodeInit(h, f) /\ hist' = [hist EXCEPT ![h] = Empty]
ADecodeInit  == \E h \in Handles, f \in Flags : "dec" \in Kinds /\ DecodeInit(h, f) /\ hist' = [hist EXCEPT ![h] = Empty]
AEncode      == \E h \in Handles, d \in Chunks :
                  Len(hist[h].in) + Len(d) <= MaxTotal /\ Encode(h, d) /\ Log(h, d)
AEncodeFinal == \E h \in Handles : EncodeFinal(h) /\ hist' = [hist EXCEPT ![h].out = @ \o last'.out]
ADecode      == \E h \in Handles, d \in Chunks :
                  /\ Len(hist[h].in) + Len(d) <= MaxTotal
                  /\ Decode(h, d)
                  \* what is offered to a closed stream is not part of its text
                  /\ IF Terminal(hs[h].st) THEN hist' = [hist EXCEPT ![h].live = @ /\ last'.ret # 0]
                     ELSE Log(h, d)
ACopy        == \E g, h \in Handles : "copy" \in Kinds /\ Copy(g, h) /\ hist' = [hist EXCEPT ![h] = hist[g]]
AEncodeOnce  == \E d \in Chunks, f \in Flags : "once" \in Kinds /\ EncodeOnce(d, f) /\ hist' = hist
                  /\ Assert(Usable(cur') => last'.out = RfcEncode(d), <<"once", d>>)
ADecodeOnce  == \E d \in Chunks, f \in Flags : "once" \in Kinds /\ DecodeOnce(d, f) /\ hist' = hist
                  /\ Assert(Usable(cur') => ((last'.ret = 1) <=> WellFormed(d)), <<"once", d>>)

MCNext == AEncodeInit \/ ADecodeInit \/ AEncode \/ AEncodeFinal \/ ADecode \/ ACopy \/ AEncodeOnce \/ ADecodeOnce
MCSpec == MCInit /\ [][MCNext]_vars
View == << hs, cur, hist >>

-----------------------------------------------------------------------------
(* However the input was cut, the text so far is the prefix of its RFC 4648
   encoding that is already determined; after finalising it is the encoding. *)
EncodedIsDetermined ==
  \A h \in Handles : hs[h].k \in {"enc", "fin"} =>
    LET i == hist[h].in  o == hist[h].out  n == Len(i) IN
    IF hs[h].k = "fin" THEN o = RfcEncode(i)
    ELSE /\ Len(o) = 4 * (n \div 3) + (n % 3)
         /\ IsPrefix(o, RfcEncode(i \o << 0, 0 >>))

(* A text can still become well formed. *)
Viable(t) == \E m \in 0 .. 3 : \E np \in 0 .. 2 :
                np <= m /\ WellFormed(t \o [k \in 1 .. m |-> IF k > m - np THEN PadCh ELSE 65])
(* What is decodable of a prefix: each complete octet. *)
DataPrefix(t) == LET bad == { k \in 1 .. Len(t) : ~ IsData(t[k]) } IN
                 IF bad = {} THEN t ELSE SubSeq(t, 1, (CHOOSE k \in bad : \A j \in bad : k <= j) - 1)
Octets(t) == LET n == Len(t) IN (3 * n) \div 4
DecodedIsDetermined ==
  \A h \in Handles : hs[h].k = "dec" =>
    LET i == hist[h].in  o == hist[h].out  d == DataPrefix(i)
        full == d \o [k \in 1 .. (4 - (Len(d) % 4)) % 4 |-> 65] IN
    /\ o = SubSeq(RfcDecode(full), 1, Octets(d))
    /\ (hs[h].st.k = "err" \/ ~ hist[h].live) \/ Viable(i)
    /\ hs[h].st.k = "err" => ~ Viable(i)
    /\ Complete(hs[h].st) <=> (WellFormed(i) /\ hs[h].st.k # "err")

(* Closed streams answer 0 with nothing, and stay closed until initialised. *)
StaysClosed ==
  [][\A h \in Handles :
       (hs[h].k = "dec" /\ Terminal(hs[h].st)) =>
          \/ hs'[h] = hs[h]
          \/ hs'[h].st \in {EncStart, DecStart}              \* initialised
          \/ \E g \in Handles : hs'[h] = hs[g]]_vars         \* overwritten

(* A call on one stream touches no other. *)
Isolated == [][\E h \in Handles : \A g \in Handles \ {h} : hs'[g] = hs[g] /\ hist'[g] = hist[g]]_vars

SelectionLegal == cur \in {"none", "auto"} \cup CodecNames
=============================================================================
