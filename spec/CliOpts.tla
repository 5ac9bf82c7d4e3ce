------------------------------- MODULE CliOpts -------------------------------
(***************************************************************************)
(* What an argument vector means.  Arguments are sequences of characters   *)
(* (one-letter strings).  Parse walks the vector the way getopt_long does: *)
(* short options may be clustered and take their value attached or as the  *)
(* next argument, long ones may be abbreviated and take it after "=" or as *)
(* the next argument, operands may stand anywhere (unless posix), "--"     *)
(* ends the options.  The first thing wrong, or the first -h, decides.     *)
(*                                                                         *)
(* The meaning is a set of allowed outcomes: one element, except for width *)
(* spellings that the documentation does not settle (leading blank or sign,*)
(* numbers too large to represent), which may be taken or refused.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
IsDigit(c) == \E i \in 1 .. 10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1 .. 10 : Digits[i] = c) - 1
Huge == -1                                  \* wider than any line
Number(s) == FoldLeft(LAMBDA a, c : IF a = Huge \/ a > 100000000 THEN Huge ELSE 10 * a + DigitVal(c), 0, s)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1 .. Len(s) : IsDigit(s[i])

(* [sure: has a definite meaning, ok: which, w: the width] *)
RECURSIVE SkipBlanks(_)
SkipBlanks(s) == IF s # << >> /\ s[1] = " " THEN SkipBlanks(Tail(s)) ELSE s
Width(s) ==
  IF AllDigits(s) THEN [sure |-> Number(s) # Huge, ok |-> TRUE, w |-> Number(s)]
  ELSE LET t == SkipBlanks(s)
           signed == t # << >> /\ t[1] \in {"+", "-"}
           d == IF signed THEN Tail(t) ELSE t
       IN IF AllDigits(d) /\ (signed /\ t[1] = "-" => Number(d) = 0)
          THEN [sure |-> FALSE, ok |-> TRUE, w |-> Number(d)]
          ELSE [sure |-> TRUE, ok |-> FALSE, w |-> 0]

Longs == << [name |-> <<"d","e","c","o","d","e">>, key |-> "d"],
            [name |-> <<"h","e","l","p">>, key |-> "h"],
            [name |-> <<"i","g","n","o","r","e","-","g","a","r","b","a","g","e">>, key |-> "i"],
            [name |-> <<"n","o","-","s","t","r","i","p","-","n","e","w","l","i","n","e","s">>, key |-> "n"],
            [name |-> <<"w","r","a","p">>, key |-> "w"] >>
Matches(s) ==
  LET exact == {i \in 1 .. 5 : Longs[i].name = s}
  IN IF exact # {} THEN exact ELSE {i \in 1 .. 5 : IsPrefix(s, Longs[i].name)}

Cfg0 == [decode |-> FALSE, ignore |-> FALSE, strip |-> TRUE, w |-> 76]
Error == [kind |-> "error"]
HelpOut == [kind |-> "help"]
RunOf(c, src) == [kind |-> "run", decode |-> c.decode,
                  mode |-> IF c.ignore THEN "ignore" ELSE IF c.strip THEN "strip" ELSE "none",
                  w |-> c.w, src |-> src]

(* Operands: none or "-": standard input; one: that file. *)
Operands(c, ops, openable) ==
  CASE Len(ops) = 0 -> {RunOf(c, "stdin")}
    [] Len(ops) > 1 -> {Error}
    [] ops[1] = << "-" >> -> {RunOf(c, "stdin")}
    [] ops[1] \in openable -> {RunOf(c, "file")}
    [] OTHER -> {Error}

RECURSIVE Parse(_, _, _, _, _, _), Cluster(_, _, _, _, _, _, _, _)
SetWidth(v, args, i, ops, c, posix, openable) ==
  LET x == Width(v) IN
  (IF x.ok THEN Parse(args, i, ops, [c EXCEPT !.w = x.w], posix, openable) ELSE {Error})
  \cup (IF x.sure THEN {} ELSE {Error})
(* s: what is left of a cluster of short options. *)
Cluster(s, args, i, ops, c, posix, openable, dummy) ==
  IF s = << >> THEN Parse(args, i, ops, c, posix, openable)
  ELSE CASE s[1] = "d" -> Cluster(Tail(s), args, i, ops, [c EXCEPT !.decode = TRUE], posix, openable, dummy)
         [] s[1] = "i" -> Cluster(Tail(s), args, i, ops, [c EXCEPT !.ignore = TRUE], posix, openable, dummy)
         [] s[1] = "n" -> Cluster(Tail(s), args, i, ops, [c EXCEPT !.strip = FALSE], posix, openable, dummy)
         [] s[1] = "h" -> {HelpOut}
         [] s[1] = "w" -> IF Len(s) > 1 THEN SetWidth(Tail(s), args, i, ops, c, posix, openable)
                          ELSE IF i <= Len(args) THEN SetWidth(args[i], args, i + 1, ops, c, posix, openable)
                          ELSE {Error}
         [] OTHER -> {Error}
Parse(args, i, ops, c, posix, openable) ==
  IF i > Len(args) THEN Operands(c, ops, openable)
  ELSE LET a == args[i]  rest == SubSeq(args, i + 1, Len(args)) IN
  IF a = << "-", "-" >> THEN Operands(c, ops \o rest, openable)
  ELSE IF Len(a) > 2 /\ a[1] = "-" /\ a[2] = "-"
  THEN LET body == SubSeq(a, 3, Len(a))
           eqs  == {k \in 1 .. Len(body) : body[k] = "="}
           eq   == IF eqs = {} THEN 0 ELSE CHOOSE k \in eqs : \A m \in eqs : k <= m
           name == IF eq = 0 THEN body ELSE SubSeq(body, 1, eq - 1)
           val  == IF eq = 0 THEN << >> ELSE SubSeq(body, eq + 1, Len(body))
           m    == Matches(name)
       IN IF Cardinality(m) # 1 THEN {Error}
          ELSE LET k == Longs[CHOOSE x \in m : TRUE].key IN
               IF k = "w"
               THEN IF eq > 0 THEN SetWidth(val, args, i + 1, ops, c, posix, openable)
                    ELSE IF i < Len(args) THEN SetWidth(args[i + 1], args, i + 2, ops, c, posix, openable)
                    ELSE {Error}
               ELSE IF eq > 0 THEN {Error}
               ELSE Cluster(<< k >>, args, i + 1, ops, c, posix, openable, 0)
  ELSE IF Len(a) > 1 /\ a[1] = "-" THEN Cluster(Tail(a), args, i + 1, ops, c, posix, openable, 0)
  ELSE IF posix THEN Operands(c, ops \o << a >> \o rest, openable)
  ELSE Parse(args, i + 1, Append(ops, a), c, posix, openable)

Meaning(args, posix, openable) == Parse(args, 1, << >>, Cfg0, posix, openable)
=============================================================================
