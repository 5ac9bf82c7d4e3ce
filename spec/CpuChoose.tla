----------------------------- MODULE CpuChoose -----------------------------
(***************************************************************************)
(* The automatic choice of a codec on x86 (lib/codec_choose.c) as a        *)
(* process that asks the CPU one question at a time, against a declarative *)
(* statement of what it must find.                                         *)
(*                                                                         *)
(* A CPU is: the highest CPUID leaf, how far up the chain SSSE3 < SSE4.1 < *)
(* SSE4.2 < AVX < AVX2 it goes, AVX512VL and AVX512VBMI on top, whether    *)
(* the operating system has enabled XSAVE (OSXSAVE), and the register      *)
(* state it saves (XCR0: 1 XMM, 2 YMM, 5 OPMASK, 6 ZMM, 7 HIGH_ZMM).       *)
(* Asking a leaf beyond the highest returns garbage (every bit set here),  *)
(* and XGETBV without OSXSAVE is an illegal instruction.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Simd == << "ssse3", "sse41", "sse42", "avx", "avx2", "avx512" >>
Rank(c) == IF c = "plain" THEN 0 ELSE CHOOSE i \in 1 .. 6 : Simd[i] = c
Ymm == {1, 2}
Zmm == {1, 2, 5, 6, 7}

CONSTANTS Builds,          \* sets of compiled-in SIMD codecs
          MaxLeaves,       \* highest CPUID leaves
          Xcr0s,           \* sets of saved register states
          Variant          \* "code", or a broken variant that TLC must refute

Cpus == { [lvl |-> l, vl |-> v, vbmi |-> b, osx |-> o, xcr |-> x, max |-> m] :
            l \in 0 .. 5, v \in BOOLEAN, b \in BOOLEAN, o \in BOOLEAN, x \in Xcr0s, m \in MaxLeaves }
Consistent(p) == /\ (p.vl \/ p.vbmi) => p.lvl = 5
                 /\ ~ p.osx => p.xcr = {}
Vectors == { p \in Cpus : Consistent(p) }

-----------------------------------------------------------------------------
(* What CPU and operating system support, as they report it. *)
OsYmm(p) == p.max >= 1 /\ p.osx /\ Ymm \subseteq p.xcr
OsZmm(p) == p.max >= 1 /\ p.osx /\ Zmm \subseteq p.xcr
Supports(p, c) == CASE c = "plain"  -> TRUE
                    [] c = "ssse3"  -> p.max >= 1 /\ p.lvl >= 1
                    [] c = "sse41"  -> p.max >= 1 /\ p.lvl >= 2
                    [] c = "sse42"  -> p.max >= 1 /\ p.lvl >= 3
                    [] c = "avx"    -> p.max >= 1 /\ p.lvl >= 4 /\ OsYmm(p)
                    [] c = "avx2"   -> p.max >= 7 /\ p.lvl >= 5 /\ OsYmm(p)
                    [] c = "avx512" -> p.max >= 7 /\ p.vl /\ p.vbmi /\ OsZmm(p)
Candidates(build, p) == { c \in build \cup {"plain"} : Supports(p, c) }
Best(build, p) == CHOOSE c \in Candidates(build, p) : \A d \in Candidates(build, p) : Rank(d) <= Rank(c)

-----------------------------------------------------------------------------
(* The detection code, one question per step. *)
VARIABLES cpu, build, pc, maxl, l1, l7, xcr, chosen, bad
vars == << cpu, build, pc, maxl, l1, l7, xcr, chosen, bad >>

Garbage1 == [lvl |-> 5, osx |-> TRUE]
Garbage7 == [avx2 |-> TRUE, vl |-> TRUE, vbmi |-> TRUE]
Leaf1 == IF cpu.max >= 1 THEN [lvl |-> cpu.lvl, osx |-> cpu.osx] ELSE Garbage1
Leaf7 == IF cpu.max >= 7 THEN [avx2 |-> cpu.lvl = 5, vl |-> cpu.vl, vbmi |-> cpu.vbmi] ELSE Garbage7

Init == /\ cpu \in Vectors /\ build \in Builds
        /\ pc = "max" /\ maxl = 0 /\ l1 = [lvl |-> 0, osx |-> FALSE]
        /\ l7 = [avx2 |-> FALSE, vl |-> FALSE, vbmi |-> FALSE] /\ xcr = {} /\ chosen = "none" /\ bad = FALSE
Keep(S) == /\ ("maxl" \in S \/ maxl' = maxl) /\ ("l1" \in S \/ l1' = l1) /\ ("l7" \in S \/ l7' = l7)
           /\ ("xcr" \in S \/ xcr' = xcr) /\ ("chosen" \in S \/ chosen' = chosen) /\ ("bad" \in S \/ bad' = bad)
           /\ UNCHANGED << cpu, build >>
Pick(c) == chosen' = c /\ pc' = "done" /\ Keep({"chosen"})
Goto(l) == pc' = l /\ Keep({})

AskMax   == pc = "max" /\ maxl' = cpu.max /\ Keep({"maxl"})
            /\ pc' = IF build = {} THEN "plain" ELSE IF build \cap {"avx", "avx2", "avx512"} # {} THEN "leaf1" ELSE "sse"
AskLeaf1 == pc = "leaf1" /\ (IF maxl >= 1 \/ Variant = "nomax1" THEN l1' = Leaf1 /\ pc' = "osx" /\ Keep({"l1"}) ELSE Goto("sse"))
Osx      == pc = "osx" /\ (IF l1.osx \/ Variant = "noosx" THEN Goto("xgetbv") ELSE Goto("sse"))
AskXcr   == pc = "xgetbv" /\ xcr' = cpu.xcr /\ bad' = (bad \/ ~ cpu.osx) /\ pc' = "ymm" /\ Keep({"xcr", "bad"})
YmmSaved == pc = "ymm" /\ (IF (IF Variant = "ymmany" THEN Ymm \cap xcr # {} ELSE Ymm \subseteq xcr) THEN Goto("leaf7a") ELSE Goto("sse"))
Leaf7a   == pc = "leaf7a" /\ (IF /\ "avx512" \in build /\ maxl >= 7
                                 /\ (IF Variant = "zmmany" THEN Zmm \cap xcr # {} ELSE Zmm \subseteq xcr)
                              THEN l7' = Leaf7 /\ pc' = "avx512" /\ Keep({"l7"}) ELSE Goto("leaf7b"))
Avx512   == pc = "avx512" /\ (IF l7.vl /\ (l7.vbmi \/ Variant = "novbmi") THEN Pick("avx512") ELSE Goto("leaf7b"))
Leaf7b   == pc = "leaf7b" /\ (IF "avx2" \in build /\ (maxl >= 7 \/ Variant = "nomax7") THEN l7' = Leaf7 /\ pc' = "avx2" /\ Keep({"l7"}) ELSE Goto("avx"))
Avx2     == pc = "avx2" /\ (IF l7.avx2 THEN Pick("avx2") ELSE Goto("avx"))
Avx      == pc = "avx" /\ (IF "avx" \in build /\ l1.lvl >= 4 THEN Pick("avx") ELSE Goto("sse"))
(* CPUID leaf 1 is asked again for each of the SSE codecs. *)
Sse(c)   == IF c = "ssse3" THEN "plain" ELSE IF c = "sse41" THEN "ssse3" ELSE "sse41"
TrySse(c, l) == pc = l /\ (IF c \in build /\ maxl >= 1 THEN l1' = Leaf1 /\ pc' = c \o "?" /\ Keep({"l1"}) ELSE Goto(Sse(c)))
Got(c)   == pc = c \o "?" /\ (IF l1.lvl >= Rank(c) THEN Pick(c) ELSE Goto(Sse(c)))
Plain    == pc = "plain" /\ Pick("plain")
Next == \/ AskMax \/ AskLeaf1 \/ Osx \/ AskXcr \/ YmmSaved \/ Leaf7a \/ Avx512 \/ Leaf7b \/ Avx2 \/ Avx
        \/ TrySse("sse42", "sse") \/ TrySse("sse41", "sse41") \/ TrySse("ssse3", "ssse3")
        \/ Got("sse42") \/ Got("sse41") \/ Got("ssse3") \/ Plain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Safe == pc = "done" => Supports(cpu, chosen) /\ chosen \in build \cup {"plain"}
IsBest == pc = "done" => chosen = Best(build, cpu)
NoIllegalInstruction == ~ bad
Decides == <>(pc = "done")
=============================================================================
