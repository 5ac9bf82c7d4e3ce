--------------------------------- MODULE Omp ---------------------------------
(***************************************************************************)
(* The OpenMP one-shot calls: the input is cut into one part per thread,   *)
(* each a whole number of groups, the parts are processed independently    *)
(* from a fresh state and in any order, then the remainder is processed by *)
(* one thread.  Checked against the serial calls of B64.tla.               *)
(*                                                                         *)
(* `CheckMiddle` = FALSE is the code before commit 2c2d296: a part that    *)
(* ends in padding was taken for good wherever it was.                     *)
(***************************************************************************)
EXTENDS B64, TLC, FiniteSets

CONSTANTS Texts,          \* the inputs explored
          Threads,        \* the thread counts explored
          Side,           \* "enc" or "dec"
          CheckMiddle

VARIABLES src, nt, pc, done, sum, good, ans
vars == << src, nt, pc, done, sum, good, ans >>
(* done: parts processed; sum: part -> its output; good: part -> verdict;
   ans: the call's answer once it has returned. *)

Group == IF Side = "enc" THEN 3 ELSE 4
PartLen(n, t) == (n \div (t * Group)) * Group
Part(s, t, i) == LET l == PartLen(Len(s), t) IN SubSeq(s, i * l + 1, (i + 1) * l)
Rest(s, t)    == SubSeq(s, t * PartLen(Len(s), t) + 1, Len(s))
None == [out |-> << >>, ret |-> 2]

Init == /\ src \in Texts
        /\ nt \in Threads
        /\ pc = "split"
        /\ done = {}
        /\ sum = << >>
        /\ good = << >>
        /\ ans = None

Split == /\ pc = "split"
         /\ pc' = "parts"
         /\ sum' = [i \in 0 .. nt - 1 |-> << >>]
         /\ good' = [i \in 0 .. nt - 1 |-> 0]
         /\ UNCHANGED << src, nt, done, ans >>

(* One thread processes its part; parts complete in any order. *)
DoPart(i) ==
  /\ pc = "parts"
  /\ i \notin done
  /\ LET p == Part(src, nt, i) IN
     IF Side = "enc"
     THEN LET r == EncCall(EncStart, p) IN
          /\ sum' = [sum EXCEPT ![i] = r.out]
          /\ good' = [good EXCEPT ![i] = 1]
     ELSE LET r == DecCall(DecStart, p)
              last == (i + 1) * PartLen(Len(src), nt) = Len(src) IN
          /\ sum' = [sum EXCEPT ![i] = r.out]
          /\ good' = [good EXCEPT ![i] =
               IF CheckMiddle /\ r.st.k = "end" /\ ~ last THEN 0 ELSE r.ret]
  /\ done' = done \cup {i}
  /\ UNCHANGED << src, nt, pc, ans >>

RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN << >> ELSE Cat(f, n - 1) \o f[n - 1]

Join ==
  /\ pc = "parts"
  /\ done = 0 .. nt - 1
  /\ pc' = "returned"
  /\ IF Side = "enc"
     THEN LET r == EncCall(EncStart, Rest(src, nt)) IN
          ans' = [out |-> Cat(sum, nt) \o r.out \o EncFinal(r.st), ret |-> 1]
     ELSE IF \E i \in 0 .. nt - 1 : good[i] = 0
          THEN ans' = [out |-> << >>, ret |-> 0]
          ELSE LET r == DecCall(DecStart, Rest(src, nt)) IN
               ans' = [out |-> Cat(sum, nt) \o r.out,
                       ret |-> IF Complete(r.st) THEN r.ret ELSE 0]
  /\ UNCHANGED << src, nt, done, sum, good >>

Next == Split \/ (\E i \in 0 .. nt - 1 : DoPart(i)) \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Serial == IF Side = "enc" THEN [out |-> EncOneShot(src), ret |-> 1] ELSE DecOneShot(src)
(* What a caller may see: the serial answer, except that a refused text may be
   reported without the data in front of the damage. *)
AllowedAnswer(serial, a) ==
  /\ a.ret = serial.ret
  /\ a.out = serial.out \/ (a.ret = 0 /\ a.out = << >>)
SameAsSerial == pc = "returned" => AllowedAnswer(Serial, ans)

(* Parts never write into each other's output: part i owns the octets that
   its characters stand for. *)
PartsFit == pc = "parts" =>
   \A i \in done : LET l == PartLen(Len(src), nt)
                       own == IF Side = "enc" THEN (l \div 3) * 4 ELSE (l \div 4) * 3 IN
                   Len(sum[i]) <= own
Returns == <>(pc = "returned")
=============================================================================
