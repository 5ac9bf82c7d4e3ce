------------------------------- MODULE CpuMC -------------------------------
(* Instances of CpuChoose.tla, and the export of its decision table. *)
EXTENDS CpuChoose, Json
AllBuilds == SUBSET { Simd[i] : i \in 1 .. 6 }
Chain == { {}, {1}, {1, 2}, {1, 2, 5, 6, 7} }            \* what hardware lets XCR0 be
AllXcr0s == SUBSET Zmm
FewBuilds == { { Simd[i] : i \in 1 .. 6 }, {"avx512"}, {"avx2"}, {"avx", "ssse3"}, {"sse42", "sse41", "ssse3"} }

SetSum(S) == FoldSet(LAMBDA a, b : a + b, 0, S)
VSeq == SetToSeq(Vectors)
BitOf(x) == 2 ^ x
VRow(p) == << p.lvl, IF p.vl THEN 1 ELSE 0, IF p.vbmi THEN 1 ELSE 0, IF p.osx THEN 1 ELSE 0,
             SetSum({ 2 ^ x : x \in p.xcr }), p.max >>
BSeq == SetToSeq(Builds)
Table == LET v == VSeq IN
         [vectors |-> [i \in 1 .. Len(v) |-> VRow(v[i])],
          builds  |-> [j \in 1 .. Len(BSeq) |-> [have |-> SetToSeq(BSeq[j]),
                       best |-> [i \in 1 .. Len(v) |-> Rank(Best(BSeq[j], v[i]))]]]]
VARIABLE done
DumpInit == /\ done = FALSE /\ cpu = 0 /\ build = {} /\ pc = "dump" /\ maxl = 0 /\ l1 = 0 /\ l7 = 0 /\ xcr = {} /\ chosen = "none" /\ bad = FALSE
DumpNext == ~ done /\ JsonSerialize("cpu.json", Table) /\ done' = TRUE /\ UNCHANGED vars
DumpSpec == DumpInit /\ [][DumpNext]_<< vars, done >>
MCInit == Init /\ done = FALSE
MCSpec == MCInit /\ [][Next /\ done' = done]_<< vars, done >> /\ WF_vars(Next /\ done' = done)
=============================================================================
