----------------------------- MODULE AcceptLink -----------------------------
(***************************************************************************)
(* DecClasses' decoder is B64's, seen through classes of characters; and   *)
(* AcceptInf's grammar is B64's, seen through what it remembers of a text.         *)
(***************************************************************************)
EXTENDS B64, DecClasses, TLC
VARIABLE x
A(kk, qq, l, o, p, n) == INSTANCE AcceptInf WITH k <- kk, q <- qq, len <- l, odd <- o, pads <- p, out <- n
Class(ch) == IF Value[ch] < 64 THEN "data" ELSE IF Value[ch] = Pad THEN "pad" ELSE "other"
ASSUME \A s \in DecStates : \A ch \in Byte :
  /\ DecNext(s, ch).k = NextK(s.k, s.n, Class(ch))
  /\ DecNext(s, ch).n = NextQ(s.k, s.n, Class(ch))
  /\ Len(DecOut(s, ch)) = Bytes(s.k, s.n, Class(ch))
Words == UNION { [1 .. m -> { 65, 61, 33 }] : m \in 0 .. 9 }
Odd(t) == IF \A i \in 1 .. Len(t) : IsData(t[i]) THEN 0 ELSE CHOOSE i \in 1 .. Len(t) : ~IsData(t[i]) /\ \A j \in 1 .. i - 1 : IsData(t[j])
AllPad(t) == LET o == Odd(t) IN o = 0 \/ \A i \in o .. Len(t) : t[i] = PadCh
WF(t) == A("", 0, Len(t), Odd(t), AllPad(t), 0)!WellFormed
NP(t) == A("", 0, Len(t), Odd(t), AllPad(t), 0)!NPads
Poss(t) == A("", 0, Len(t), Odd(t), AllPad(t), 0)!Possible
Ends == UNION { [1 .. m -> { 65, 61 }] : m \in 0 .. 4 }
SameGrammar == \A t \in Words :
                        /\ WellFormed(t) <=> WF(t)
                        /\ WellFormed(t) => DecodedLen(t) = 3 * (Len(t) \div 4) - NP(t)
                        /\ Poss(t) <=> \E u \in Ends : WellFormed(t \o u)
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
