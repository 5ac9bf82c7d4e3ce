----------------------------- MODULE SelectProof -----------------------------
(***************************************************************************)
(* Select for any number of threads, any flags, programs of any length:    *)
(* checked by the TLA+ proof system (tlapm SelectProof.tla).               *)
(***************************************************************************)
EXTENDS Select, TLAPS

ASSUME Designed == /\ Variant = "code"
                   /\ Flags \subseteq STRING /\ "null" \notin Flags /\ "auto" \notin Flags
                   /\ Pasts \subseteq STRING
                   /\ Opens \subseteq BOOLEAN
                   /\ Calls \subseteq Nat

Pcs == {"check", "choose", "call", "done"}
TypeOK == /\ past \in STRING
          /\ ptr \in [Kinds -> STRING]
          /\ prog \in [Threads -> Progs]
          /\ pc \in [Threads -> Pcs]
          /\ todo \in [Threads -> SUBSET Kinds]
          /\ entered \in [Threads -> Seq(STRING)]
Safe == /\ past # "null" => \A k \in Kinds : ptr[k] # "null"
        /\ \A k \in Kinds : ptr[k] = "null" \/ ptr[k] \in Passed
        /\ \A t \in Threads : pc[t] = "call" => ptr[prog[t].kind] # "null"
        /\ \A t \in Threads : pc[t] = "choose" =>
              /\ \A k \in Kinds \ todo[t] : ptr[k] # "null"
              /\ prog[t].flag # "0" \/ past = "null"
        /\ \A t \in Threads : prog[t].open => past # "null"
        /\ \A t \in Threads : \A i \in 1 .. Len(entered[t]) : entered[t][i] # "null" /\ entered[t][i] \in Passed
Inv == TypeOK /\ Safe

LEMMA ProgT == \A t \in Threads : prog \in [Threads -> Progs] => prog[t].kind \in Kinds /\ prog[t].flag \in Flags
  BY DEF Progs, Kinds

THEOREM Start == Init => Inv
  BY Designed DEF Init, Inv, TypeOK, Safe, Pcs, Kinds, Progs, Passed

THEOREM Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Designed DEF Kinds, Pcs, Codec
<1>0 CASE UNCHANGED vars
  BY <1>0 DEF vars, Inv, TypeOK, Safe, Passed
<1>1 ASSUME NEW t \in Threads, Check(t) PROVE Inv'
  <2>1 TypeOK'
    BY <1>1 DEF Check, Inv, TypeOK
  <2>2 Safe'
    BY <1>1, ProgT DEF Check, Inv, TypeOK, Safe, Passed
  <2> QED BY <2>1, <2>2 DEF Inv
<1>2 ASSUME NEW t \in Threads, Reset(t) PROVE Inv'
  BY <1>2 DEF Reset, Inv, TypeOK
<1>3 ASSUME NEW t \in Threads, Store(t) PROVE Inv'
  <2>1 PICK k \in todo[t] : /\ ptr' = [ptr EXCEPT ![k] = Codec(prog[t].flag)]
                            /\ todo' = [todo EXCEPT ![t] = @ \ {k}]
                            /\ pc' = [pc EXCEPT ![t] = IF todo[t] = {k} THEN "call" ELSE "choose"]
    BY <1>3 DEF Store
  <2>2 k \in Kinds /\ pc[t] = "choose" /\ UNCHANGED << past, prog, entered >>
    BY <1>3, <2>1 DEF Store, Inv, TypeOK
  <2>3 Codec(prog[t].flag) # "null" /\ Codec(prog[t].flag) \in STRING
    BY ProgT DEF Inv, TypeOK
  <2>4 Codec(prog[t].flag) \in Passed /\ Passed' = Passed
    BY <2>2 DEF Passed, Inv, Safe
  <2>5 TypeOK'
    BY <2>1, <2>2, <2>3 DEF Inv, TypeOK
  <2>6 \A j \in Kinds : ptr'[j] = ptr[j] \/ (j = k /\ ptr'[j] = Codec(prog[t].flag))
    BY <2>1, <2>2 DEF Inv, TypeOK
  <2>7 \A j \in Kinds : ptr[j] # "null" => ptr'[j] # "null"
    BY <2>3, <2>6
  <2>8 \A j \in Kinds \ todo'[t] : ptr'[j] # "null"
    BY <2>1, <2>2, <2>3, <2>6, <2>7 DEF Inv, TypeOK, Safe
  <2>9 pc'[t] = "call" => todo'[t] = {}
    BY <2>1, <2>2 DEF Inv, TypeOK
  <2>10 Safe'
    <3>1 (past # "null" => \A j \in Kinds : ptr[j] # "null")'
      BY <2>2, <2>7 DEF Inv, Safe
    <3>2 (\A j \in Kinds : ptr[j] = "null" \/ ptr[j] \in Passed)'
      BY <2>4, <2>6 DEF Inv, Safe
    <3>3 (\A u \in Threads : pc[u] = "call" => ptr[prog[u].kind] # "null")'
      BY <2>1, <2>2, <2>7, <2>8, <2>9, ProgT DEF Inv, TypeOK, Safe
    <3>4 (\A u \in Threads : pc[u] = "choose" => (/\ \A j \in Kinds \ todo[u] : ptr[j] # "null"
                                                  /\ prog[u].flag # "0" \/ past = "null"))'
      BY <2>1, <2>2, <2>7, <2>8 DEF Inv, TypeOK, Safe
    <3>5 (\A u \in Threads : prog[u].open => past # "null")'
      BY <2>2 DEF Inv, Safe
    <3>6 (\A u \in Threads : \A i \in 1 .. Len(entered[u]) : entered[u][i] # "null" /\ entered[u][i] \in Passed)'
      BY <2>2, <2>4 DEF Inv, Safe
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Safe
  <2> QED BY <2>5, <2>10 DEF Inv
<1>4 ASSUME NEW t \in Threads, Call(t) PROVE Inv'
  <2>1 ptr[prog[t].kind] # "null" /\ ptr[prog[t].kind] \in Passed /\ ptr[prog[t].kind] \in STRING
    BY <1>4, ProgT DEF Call, Inv, TypeOK, Safe
  <2>2 Passed' = Passed
    BY <1>4 DEF Call, Passed
  <2>3 TypeOK'
    BY <1>4, <2>1 DEF Call, Inv, TypeOK
  <2>4 \A u \in Threads : \A i \in 1 .. Len(entered'[u]) : entered'[u][i] # "null" /\ entered'[u][i] \in Passed
    BY <1>4, <2>1 DEF Call, Inv, TypeOK, Safe
  <2>5 Safe'
    BY <1>4, <2>2, <2>4, ProgT DEF Call, Inv, TypeOK, Safe
  <2> QED BY <2>3, <2>5 DEF Inv
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4 DEF Next

THEOREM Always == Spec => []Inv
  BY Start, Step, PTL DEF Spec

-----------------------------------------------------------------------------
(* A forced codec is what its thread enters, unless others force others. *)
Mine(t) == prog[t].flag # "0" /\ \A u \in Threads \ {t} : prog[u].flag = prog[t].flag \/ (prog[u].flag = "0" /\ past # "null")
Own == \A t \in Threads : Mine(t) =>
         /\ pc[t] = "choose" => \A k \in Kinds \ todo[t] : ptr[k] = prog[t].flag
         /\ pc[t] \in {"call", "done"} => \A k \in Kinds : ptr[k] = prog[t].flag
         /\ pc[t] = "check" => entered[t] = << >>
         /\ pc[t] = "choose" => entered[t] = << >>
         /\ \A i \in 1 .. Len(entered[t]) : entered[t][i] = prog[t].flag

THEOREM OwnStart == Init => Own
  BY Designed DEF Init, Own, Mine, Progs

THEOREM OwnStep == Inv /\ Own /\ [Next]_vars => Own'
<1> SUFFICES ASSUME Inv, Own, [Next]_vars PROVE Own'
  OBVIOUS
<1> USE Designed DEF Kinds, Pcs, Codec
<1>0 CASE UNCHANGED vars
  BY <1>0 DEF vars, Own, Mine
<1>1 ASSUME NEW s \in Threads, Check(s) PROVE Own'
  <2>1 (\A t \in Threads : Mine(t)') => \A t \in Threads : Mine(t)
    BY <1>1 DEF Check, Mine
  <2>2 \A t \in Threads : Mine(t)' => Mine(t)
    BY <1>1 DEF Check, Mine
  <2>3 UNCHANGED << past, ptr, prog, entered >>
    BY <1>1 DEF Check
  <2> QED BY <1>1, <2>2, <2>3 DEF Check, Inv, TypeOK, Own, Mine
<1>2 ASSUME NEW s \in Threads, Reset(s) PROVE Own'
  BY <1>2 DEF Reset, Inv, TypeOK
<1>3 ASSUME NEW s \in Threads, Store(s) PROVE Own'
  <2>1 PICK k \in todo[s] : /\ ptr' = [ptr EXCEPT ![k] = Codec(prog[s].flag)]
                            /\ todo' = [todo EXCEPT ![s] = @ \ {k}]
                            /\ pc' = [pc EXCEPT ![s] = IF todo[s] = {k} THEN "call" ELSE "choose"]
    BY <1>3 DEF Store
  <2>2 k \in Kinds /\ pc[s] = "choose" /\ UNCHANGED << past, prog, entered >>
    BY <1>3, <2>1 DEF Store, Inv, TypeOK
  <2>3 \A t \in Threads : Mine(t)' => Mine(t)
    BY <2>2 DEF Mine
  <2>4 \A j \in Kinds : ptr'[j] = ptr[j] \/ (j = k /\ ptr'[j] = Codec(prog[s].flag))
    BY <2>1, <2>2 DEF Inv, TypeOK
  <2>5 \A t \in Threads : Mine(t) => prog[s].flag = prog[t].flag
    BY <2>2 DEF Mine, Inv, Safe
  <2>6 \A t \in Threads : Mine(t) => Codec(prog[s].flag) = prog[t].flag
    BY <2>5 DEF Mine
  <2>7 \A t \in Threads : Mine(t) => \A j \in Kinds : ptr[j] = prog[t].flag => ptr'[j] = prog[t].flag
    BY <2>4, <2>6
  <2>8 ptr'[k] = Codec(prog[s].flag)
    BY <2>1, <2>2 DEF Inv, TypeOK
  <2>9 \A t \in Threads : todo'[t] = IF t = s THEN todo[s] \ {k} ELSE todo[t]
    BY <2>1 DEF Inv, TypeOK
  <2>10 \A t \in Threads : pc'[t] = IF t = s THEN (IF todo[s] = {k} THEN "call" ELSE "choose") ELSE pc[t]
    BY <2>1 DEF Inv, TypeOK
  <2>11 SUFFICES ASSUME NEW t \in Threads, Mine(t)
                 PROVE  /\ pc'[t] = "choose" => \A j \in Kinds \ todo'[t] : ptr'[j] = prog[t].flag
                        /\ pc'[t] \in {"call", "done"} => \A j \in Kinds : ptr'[j] = prog[t].flag
                        /\ pc'[t] = "check" => entered[t] = << >>
                        /\ pc'[t] = "choose" => entered[t] = << >>
                        /\ \A i \in 1 .. Len(entered[t]) : entered[t][i] = prog[t].flag
    BY <2>2, <2>3 DEF Own
  <2>12 CASE t # s
    BY <2>12, <2>7, <2>9, <2>10, <2>11 DEF Own
  <2>13 CASE t = s
    <3>1 \A j \in Kinds \ todo'[s] : ptr'[j] = prog[s].flag
      BY <2>2, <2>6, <2>7, <2>8, <2>9, <2>11, <2>13 DEF Own
    <3>2 pc'[s] # "choose" => todo'[s] = {}
      BY <2>9, <2>10
    <3> QED BY <3>1, <3>2, <2>2, <2>10, <2>11, <2>13 DEF Own
  <2> QED BY <2>12, <2>13
<1>4 ASSUME NEW s \in Threads, Call(s) PROVE Own'
  <2>1 \A t \in Threads : Mine(t)' => Mine(t)
    BY <1>4 DEF Call, Mine
  <2>2 UNCHANGED << past, ptr, prog, todo >> /\ pc[s] = "call"
    BY <1>4 DEF Call
  <2>3 SUFFICES ASSUME NEW t \in Threads, Mine(t)
                PROVE  /\ pc'[t] = "choose" => \A k \in Kinds \ todo[t] : ptr[k] = prog[t].flag
                       /\ pc'[t] \in {"call", "done"} => \A k \in Kinds : ptr[k] = prog[t].flag
                       /\ pc'[t] = "check" => entered'[t] = << >>
                       /\ pc'[t] = "choose" => entered'[t] = << >>
                       /\ \A i \in 1 .. Len(entered'[t]) : entered'[t][i] = prog[t].flag
    BY <2>1, <2>2 DEF Own
  <2>4 CASE t # s
    BY <1>4, <2>3, <2>4 DEF Call, Own, Inv, TypeOK
  <2>5 CASE t = s
    <3>1 ptr[prog[s].kind] = prog[s].flag /\ pc'[s] \in {"call", "done"}
      BY <1>4, <2>2, <2>3, <2>5, ProgT DEF Call, Own, Inv, TypeOK
    <3>2 entered'[s] = Append(entered[s], prog[s].flag)
      BY <1>4, <3>1 DEF Call, Inv, TypeOK
    <3>3 \A i \in 1 .. Len(entered'[s]) : entered'[s][i] = prog[s].flag
      BY <3>1, <3>2, <2>3, <2>5 DEF Own, Inv, TypeOK
    <3> QED BY <3>1, <3>3, <2>2, <2>3, <2>5 DEF Own
  <2> QED BY <2>4, <2>5
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4 DEF Next

THEOREM OwnAlways == Spec => []Own
  BY Start, Step, OwnStart, OwnStep, PTL DEF Spec

THEOREM Safety == Spec => [](NeverThroughNull /\ Legal /\ Forced)
<1>1 Inv /\ Own => NeverThroughNull /\ Legal /\ Forced
  BY DEF Inv, Safe, Own, Mine, NeverThroughNull, Legal, Forced
<1> QED BY <1>1, Always, OwnAlways, PTL
=============================================================================
