------------------------------- MODULE CliPipe -------------------------------
(***************************************************************************)
(* How the tool does it: input in blocks, encoded blocks cut into lines    *)
(* with the column carried over, vectors flushed when the array is full,   *)
(* partial and interrupted writes retried from where they stopped; when    *)
(* decoding, blocks cut into tokens at skipped characters, the output of a *)
(* block written at its end.  The kernel is nondeterministic.              *)
(*                                                                         *)
(* Checked: what the kernel has accepted is always a prefix of the meaning *)
(* given in Cli.tla; success means all of it; the run ends if faults do;   *)
(* and every behaviour is one of CliIO (refinement).  `Bug` selects broken *)
(* variants that TLC must refuse.                                          *)
(***************************************************************************)
EXTENDS Cli, TLC
CONSTANTS Cfgs, Inputs(_), Blk, IovMax, Budget, Bug
VARIABLES cfg, inp, pos, st, col, blk, iov, pc, then, obuf, last, rerr, outk, status, fault, budget
vars == << cfg, inp, pos, st, col, blk, iov, pc, then, obuf, last, rerr, outk, status, fault, budget >>

Min2(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Flat(v) == FoldLeft(LAMBDA a, x : a \o x, << >>, v)
RECURSIVE DropVec(_, _)
DropVec(v, k) ==                     \* remove k characters from the vectors
  IF v = << >> THEN << >>
  ELSE IF Len(v[1]) > k
       THEN << IF Bug = "resend" THEN v[1] ELSE Drop(v[1], k) >> \o Tail(v)
       ELSE DropVec(Tail(v), k - Len(v[1]))
AfterPartial(v, k) ==
  IF Bug = "skipvec" /\ Flat(v) # << >> /\ k < Len(v[1]) THEN Tail(v) ELSE DropVec(v, k)

Result == Run(cfg, inp)

Init == /\ cfg \in Cfgs /\ inp \in Inputs(cfg)
        /\ pos = 0 /\ col = 0 /\ blk = << >> /\ iov = << >> /\ obuf = << >>
        /\ st = IF cfg.decode THEN DecStart ELSE EncStart
        /\ pc = "read" /\ then = "" /\ last = FALSE /\ rerr = FALSE
        /\ outk = << >> /\ status = -1 /\ fault = FALSE /\ budget = Budget

Keep(x) == UNCHANGED x
Stop(code) == status' = code /\ pc' = "done"

Read ==
  /\ pc = "read" /\ pos < Len(inp)
  /\ \E n \in 1 .. Min2(Blk, Len(inp) - pos) :
       /\ blk' = IF cfg.decode THEN SubSeq(inp, pos + 1, pos + n)
                 ELSE EncCall(st, SubSeq(inp, pos + 1, pos + n)).out
       /\ st' = IF cfg.decode THEN st ELSE EncCall(st, SubSeq(inp, pos + 1, pos + n)).st
       /\ pos' = pos + n
  /\ pc' = IF cfg.decode THEN "token" ELSE "slice"
  /\ col' = IF Bug = "colreset" THEN 0 ELSE col
  /\ Keep(<< cfg, inp, iov, then, obuf, last, rerr, outk, status, fault, budget >>)
ReadFails ==
  /\ pc = "read" /\ budget > 0
  /\ budget' = budget - 1
  /\ fault' = TRUE
  /\ rerr' = (Bug # "readerr")
  /\ pc' \in {"read", "eof"}
  /\ Keep(<< cfg, inp, pos, st, col, blk, iov, then, obuf, last, outk, status >>)
AtEof ==
  /\ pc = "read" /\ pos = Len(inp)
  /\ pc' = "eof"
  /\ Keep(<< cfg, inp, pos, st, col, blk, iov, then, obuf, last, rerr, outk, status, fault, budget >>)
Finish ==
  /\ pc = "eof"
  /\ \/ rerr /\ Stop(1) /\ Keep(<< blk, last >>)
     \/ ~rerr /\ cfg.decode /\ Stop(0) /\ Keep(<< blk, last >>)
     \/ ~rerr /\ ~cfg.decode /\ pc' = "slice" /\ last' = TRUE /\ blk' = EncFinal(st) /\ Keep(<< status >>)
  /\ Keep(<< cfg, inp, pos, st, col, iov, then, obuf, rerr, outk, fault, budget >>)

(* Encoding: cut the block into lines. *)
Push(v) == LET x == Append(iov, v) IN
           /\ iov' = x
           /\ IF Len(x) = IovMax THEN pc' = "flush" ELSE pc' = then'
Slice ==
  /\ pc = "slice"
  /\ IF blk = << >>
     THEN /\ pc' = "flush" /\ then' = (IF last THEN "trailer" ELSE "read")
          /\ Keep(<< blk, iov, col >>)
     ELSE IF cfg.w = 0
     THEN /\ iov' = << blk >> /\ blk' = << >> /\ pc' = "flush" /\ then' = "slice"
          /\ Keep(<< col >>)
     ELSE LET n == Min2(cfg.w - col, Len(blk)) IN
          /\ blk' = Drop(blk, n)
          /\ col' = col + n
          /\ then' = IF col + n = cfg.w THEN "newline" ELSE "slice"
          /\ Push(SubSeq(blk, 1, n))
  /\ Keep(<< cfg, inp, pos, st, obuf, last, rerr, outk, status, fault, budget >>)
Newline ==
  /\ pc = "newline"
  /\ col' = 0
  /\ then' = "slice"
  /\ Push(<< NL >>)
  /\ Keep(<< cfg, inp, pos, st, blk, obuf, last, rerr, outk, status, fault, budget >>)
Trailer ==
  /\ pc = "trailer"
  /\ IF cfg.w > 0 /\ col > 0 /\ Bug # "trailer"
     THEN iov' = << << NL >> >> /\ pc' = "flush" /\ then' = "exit" /\ col' = 0 /\ Keep(<< status >>)
     ELSE Stop(0) /\ Keep(<< iov, then, col >>)
  /\ Keep(<< cfg, inp, pos, st, blk, obuf, last, rerr, outk, fault, budget >>)
Leave == pc = "exit" /\ Stop(0)
         /\ Keep(<< cfg, inp, pos, st, col, blk, iov, then, obuf, last, rerr, outk, fault, budget >>)

(* Decoding: cut the block into tokens. *)
FirstSkip == LET S == {i \in 1 .. Len(blk) : ~Kept(cfg.mode, blk[i])} IN
             IF S = {} THEN Len(blk) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
Token ==
  /\ pc = "token"
  /\ IF blk = << >>
     THEN /\ iov' = (IF obuf = << >> THEN << >> ELSE << obuf >>) /\ obuf' = << >>
          /\ pc' = "flush" /\ then' = "read"
          /\ Keep(<< blk, st, status >>)
     ELSE IF FirstSkip = 0
     THEN blk' = Tail(blk) /\ Keep(<< st, obuf, iov, pc, then, status >>)
     ELSE LET r == DecCall(st, SubSeq(blk, 1, FirstSkip)) IN
          IF r.ret = 0 /\ Bug # "ignoredec"
          THEN Stop(1) /\ Keep(<< blk, st, obuf, iov, then >>)
          ELSE /\ st' = r.st
               /\ obuf' = obuf \o r.out
               /\ blk' = IF Bug = "swallow" THEN Drop(blk, FirstSkip + 2)
                         ELSE Drop(blk, FirstSkip + 1)
               /\ Keep(<< iov, pc, then, status >>)
  /\ Keep(<< cfg, inp, pos, col, last, rerr, outk, fault, budget >>)

(* Writing until the vectors are empty. *)
Flushed ==
  /\ pc = "flush" /\ Flat(iov) = << >>
  /\ iov' = << >> /\ pc' = then
  /\ Keep(<< cfg, inp, pos, st, col, blk, then, obuf, last, rerr, outk, status, fault, budget >>)
Accept ==
  /\ pc = "flush" /\ Flat(iov) # << >>
  /\ \E k \in 1 .. Len(Flat(iov)) :
       /\ outk' = outk \o SubSeq(Flat(iov), 1, k)
       /\ iov' = IF k = Len(Flat(iov)) \/ Bug = "nopartial" THEN << >> ELSE AfterPartial(iov, k)
  /\ Keep(<< cfg, inp, pos, st, col, blk, pc, then, obuf, last, rerr, status, fault, budget >>)
Nothing ==                               \* interrupted, or zero bytes taken
  /\ pc = "flush" /\ Flat(iov) # << >> /\ budget > 0
  /\ budget' = budget - 1
  /\ IF Bug = "intr" THEN iov' = << >> ELSE Keep(<< iov >>)
  /\ Keep(<< cfg, inp, pos, st, col, blk, pc, then, obuf, last, rerr, outk, status, fault >>)
Fails ==
  /\ pc = "flush" /\ Flat(iov) # << >> /\ budget > 0
  /\ budget' = budget - 1
  /\ fault' = TRUE
  /\ IF Bug = "ignoreerr" THEN iov' = << >> /\ Keep(<< pc, status >>)
     ELSE pc' = "giveup" /\ Keep(<< iov, status >>)
  /\ Keep(<< cfg, inp, pos, st, col, blk, then, obuf, last, rerr, outk >>)
GiveUp == pc = "giveup" /\ Stop(1)
          /\ Keep(<< cfg, inp, pos, st, col, blk, iov, then, obuf, last, rerr, outk, fault, budget >>)

Next == Read \/ ReadFails \/ AtEof \/ Finish \/ Slice \/ Newline \/ Trailer \/ Leave
        \/ Token \/ Flushed \/ Accept \/ Nothing \/ Fails \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
AlwaysPrefix == IsPrefix(outk, Result.out)
SuccessIsComplete == status = 0 => Result.ok /\ outk = Result.out
OnlyFaultsFail == (status # -1 /\ ~fault) => Allowed(Result, outk, status)
Offered == pc = "flush" => IsPrefix(outk \o Flat(iov), Result.out)
Ends == <>(pc = "done")

IO == INSTANCE CliIO WITH total <- Len(Result.out), ok <- Result.ok, w <- Len(outk)
IONext == \/ \E len \in 1 .. Len(Result.out) : \E ret \in {-5, IO!EINTR} \cup 0 .. len : IO!Write(Len(outk), len, ret)
          \/ \E ret \in {-5, 0} : IO!Read(ret)
          \/ \E s \in {0, 1} : IO!Exit(s)
Refines == [][IONext]_<< Result, outk, fault, status >>
=============================================================================
