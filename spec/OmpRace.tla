------------------------------- MODULE OmpRace -------------------------------
(***************************************************************************)
(* Omp.tla treats a part as one step.  Here the workers' accesses are       *)
(* separate steps, so that what the parts may share shows: each worker      *)
(*                                                                         *)
(*   begin  calls the codec; from then on its length is undefined          *)
(*   run    the codec reads the stream state, stores length and state       *)
(*   end    returns to the worker, which reads length, verdict and state    *)
(*   add    adds to the totals (a read and a write, unless they are the     *)
(*          worker's own until the join)                                    *)
(*                                                                         *)
(* Parts are lists of one verdict and one length each; the last may end in  *)
(* padding.  `Own` says what every worker has of its own; a design that      *)
(* shares any of them is refused.  The complete sequences of begin, run and *)
(* end are exported (`plan`) and replayed in the code by holding the codec's *)
(* calls back.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT, Own        \* Own: subset of {"len", "state", "total"}
VARIABLES text, pc, len, st, total, tmp, plan, answer
vars == << text, pc, len, st, total, tmp, plan, answer >>

W == 0 .. NT - 1
Junk == -99
None == -7
Cell(x, i) == IF x \in Own THEN i ELSE 0
(* a text: for every part whether it is damaged, and whether it ends in padding *)
Texts == { t \in [W -> {"data", "bad", "padded"}] : TRUE }
OutLen(k) == CASE k = "data" -> 3 [] k = "bad" -> 1 [] OTHER -> 2
Good(t) == \A i \in W : t[i] = "data" \/ (t[i] = "padded" /\ i = NT - 1)
RECURSIVE SumOf(_, _)
SumOf(t, n) == IF n = 0 THEN 0 ELSE SumOf(t, n - 1) + OutLen(t[n - 1])

Zero == [sum |-> 0, good |-> 0]
Init == /\ text \in Texts
        /\ pc = [i \in W |-> "idle"]
        /\ len = [i \in W |-> Junk]
        /\ st = [i \in W |-> "start"]
        /\ total = [i \in W |-> Zero]
        /\ tmp = [i \in W |-> [ret |-> 0, old |-> Zero, add |-> Zero]]
        /\ plan = << >>
        /\ answer = None

Begin(i) ==
  /\ pc[i] = "idle"
  /\ pc' = [pc EXCEPT ![i] = "called"]
  /\ len' = [len EXCEPT ![Cell("len", i)] = Junk]
  /\ plan' = Append(plan, << i, 0 >>)
  /\ UNCHANGED << text, st, total, tmp, answer >>

Run(i) ==
  /\ pc[i] = "called"
  /\ pc' = [pc EXCEPT ![i] = "ran"]
  /\ LET c == Cell("state", i)
         open == st[c] = "start" IN
     /\ len' = [len EXCEPT ![Cell("len", i)] = IF open THEN OutLen(text[i]) ELSE 0]
     /\ st' = [st EXCEPT ![c] = IF open /\ text[i] = "data" THEN "start" ELSE "eof"]
     /\ tmp' = [tmp EXCEPT ![i].ret = IF open /\ text[i] # "bad" THEN 1 ELSE 0]
  /\ plan' = Append(plan, << i, 1 >>)
  /\ UNCHANGED << text, total, answer >>

End(i) ==
  /\ pc[i] = "ran"
  /\ pc' = [pc EXCEPT ![i] = "back"]
  /\ LET eof == st[Cell("state", i)] = "eof"
         ok == IF eof /\ i < NT - 1 THEN 0 ELSE tmp[i].ret IN
     tmp' = [tmp EXCEPT ![i].add = [sum |-> len[Cell("len", i)], good |-> ok]]
  /\ plan' = Append(plan, << i, 2 >>)
  /\ UNCHANGED << text, len, st, total, answer >>

AddRead(i) ==
  /\ pc[i] = "back"
  /\ pc' = [pc EXCEPT ![i] = "adding"]
  /\ tmp' = [tmp EXCEPT ![i].old = total[Cell("total", i)]]
  /\ UNCHANGED << text, len, st, total, plan, answer >>
AddWrite(i) ==
  /\ pc[i] = "adding"
  /\ pc' = [pc EXCEPT ![i] = "done"]
  /\ total' = [total EXCEPT ![Cell("total", i)] =
       [sum |-> tmp[i].old.sum + tmp[i].add.sum, good |-> tmp[i].old.good + tmp[i].add.good]]
  /\ UNCHANGED << text, len, st, tmp, plan, answer >>

RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE Total(f, n - 1) + total[n - 1][f]
Join ==
  /\ \A i \in W : pc[i] = "done"
  /\ answer = None
  /\ answer' = IF Total("good", NT) = NT THEN Total("sum", NT) ELSE -1
  /\ UNCHANGED << text, pc, len, st, total, tmp, plan >>

Next == Join \/ \E i \in W : Begin(i) \/ Run(i) \/ End(i) \/ AddRead(i) \/ AddWrite(i)
Spec == Init /\ [][Next]_vars
View == << text, pc, len, st, total, tmp, answer >>      \* the model proper, without the history

Right == answer # None => answer = IF Good(text) THEN SumOf(text, NT) ELSE -1

-----------------------------------------------------------------------------
(* The plans: every order of the workers' three calls.  `PlanKnown` (checked
   with the history in the state) says that they are exactly what runs show. *)
Orders == { f \in [1 .. 3 * NT -> W] : \A i \in W : Cardinality({ k \in 1 .. 3 * NT : f[k] = i }) = 3 }
PlanOf(f) == [k \in 1 .. 3 * NT |-> << f[k], Cardinality({ j \in 1 .. k - 1 : f[j] = f[k] }) >>]
Plans == { PlanOf(f) : f \in Orders }
PlanKnown == Len(plan) = 3 * NT => plan \in Plans
=============================================================================
