--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What one run of the command-line tool means: its output and exit status *)
(* as a function of mode, width and input.  Algorithms that compute it     *)
(* block by block under an unhelpful kernel: CliPipe.  What may be seen at *)
(* the system-call boundary: CliIO.  Arguments: CliOpts.                   *)
(***************************************************************************)
EXTENDS B64

NL == 10

(* Breaking into lines of w characters: a transducer over the column.  Every
   line, the last one included, is ended by a newline; w = 0: no newlines. *)
WrapStep(w, acc, ch) ==
  IF w > 0 /\ acc.col + 1 = w
  THEN [out |-> acc.out \o << ch, NL >>, col |-> 0]
  ELSE [out |-> Append(acc.out, ch), col |-> acc.col + 1]
WrapEnd(w, acc) == IF w > 0 /\ acc.col > 0 THEN Append(acc.out, NL) ELSE acc.out
Wrapped(w, s) == WrapEnd(w, FoldLeft(LAMBDA a, c : WrapStep(w, a, c), [out |-> << >>, col |-> 0], s))

(* Declaratively. *)
IsWrapping(w, s, t) ==
  /\ SelectSeq(t, LAMBDA c : c # NL) = s
  /\ w = 0 => t = s
  /\ w > 0 => /\ Len(t) = Len(s) + (Len(s) + w - 1) \div w
              /\ \A i \in 1 .. Len(t) : t[i] = NL <=> (i % (w + 1) = 0 \/ i = Len(t))

(* Which input characters a decoding run looks at. *)
Modes == {"strip", "ignore", "none"}            \* default, -i (also with -n), -n
Kept(mode, ch) == CASE mode = "strip"  -> ch # NL
                    [] mode = "ignore" -> Value[ch] # Invalid
                    [] mode = "none"   -> TRUE
Filtered(mode, s) == SelectSeq(s, LAMBDA c : Kept(mode, c))

(* A run's result: everything it should write, and whether the input can be
   accepted.  An input that stops inside a quantum is accepted as far as it
   goes (deliberate: the tool does not ask the decoder for completeness). *)
EncodeRun(w, in)    == [out |-> Wrapped(w, EncOneShot(in)), ok |-> TRUE]
DecodeRun(mode, in) == LET r == DecFold(DecStart, Filtered(mode, in))
                       IN [out |-> r.out, ok |-> r.st.k # "err"]
Run(cfg, in) == IF cfg.decode THEN DecodeRun(cfg.mode, in) ELSE EncodeRun(cfg.w, in)

(* What may be observed of a run without I/O failures. *)
Allowed(r, out, status) == IF r.ok THEN status = 0 /\ out = r.out
                           ELSE status = 1 /\ IsPrefix(out, r.out)
=============================================================================
