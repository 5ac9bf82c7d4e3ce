------------------------------ MODULE CliOptsMC ------------------------------
(* All argument vectors over two vocabularies: every pair over the large one,
   every triple over the small one.  Checks what the documentation promises of
   Meaning, and exports the vectors with their meanings for replay. *)
EXTENDS CliOpts, Json, TLC
CONSTANT Export
Big == << << "-", "d" >>, << "-", "i" >>, << "-", "n" >>, << "-", "h" >>, << "-", "w" >>, << "-", "w", "0" >>, << "-", "w", "5" >>, << "-", "d", "w", "3" >>, << "-", "d", "i" >>, << "-", "n", "d" >>, << "-", "i", "n", "d" >>, << "-", "d", "x" >>, << "-", "h", "x" >>, << "-", "x", "h" >>, << "-", "w", "5", "x" >>, << "-", "-", "d", "e", "c", "o", "d", "e" >>, << "-", "-", "d" >>, << "-", "-", "h", "e", "l", "p" >>, << "-", "-", "i", "g", "n", "o", "r", "e", "-", "g", "a", "r", "b", "a", "g", "e" >>, << "-", "-", "i", "g" >>, << "-", "-", "n", "o", "-", "s", "t", "r", "i", "p", "-", "n", "e", "w", "l", "i", "n", "e", "s" >>, << "-", "-", "w", "r", "a", "p" >>, << "-", "-", "w", "=", "0" >>, << "-", "-", "w", "r", "a", "p", "=", "5" >>, << "-", "-", "w", "r", "a", "p", "=" >>, << "-", "-", "d", "e", "c", "o", "d", "e", "=", "1" >>, << "-", "-", "b", "o", "g", "u", "s" >>, << "-", "-", "=", "1" >>, << "-", "-" >>, << "-" >>, << "5" >>, << "0" >>, << "9", "x" >>, << "+", "7" >>, << "-", "0" >>, << "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9" >>, << >>, << " ", "6" >>, << "F" >>, << "M", "I", "S", "S", "I", "N", "G" >>, << "D", "I", "R" >>, << "-", "w", " ", "4" >>, << "F", "2" >> >>
Small == << << "-", "d" >>, << "-", "i" >>, << "-", "n" >>, << "-", "h" >>, << "-", "w" >>, << "-", "w", "5" >>, << "-", "d", "w", "3" >>, << "-", "n", "d" >>, << "-", "d", "x" >>, << "-", "h", "x" >>, << "-", "x", "h" >>, << "-", "-", "d", "e", "c", "o", "d", "e" >>, << "-", "-", "h", "e", "l", "p" >>, << "-", "-", "i", "g" >>, << "-", "-", "n", "o", "-", "s", "t", "r", "i", "p", "-", "n", "e", "w", "l", "i", "n", "e", "s" >>, << "-", "-", "w", "r", "a", "p" >>, << "-", "-", "w", "r", "a", "p", "=", "7" >>, << "-", "-", "d", "e", "c", "o", "d", "e", "=", "1" >>, << "-", "-" >>, << "-" >>, << "5" >>, << "0" >>, << "9", "x" >>, << >>, << "F" >>, << "M", "I", "S", "S", "I", "N", "G" >> >>
File == << "F" >>
Openable == {File, << "F", "2" >>}
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Vec(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Vectors == Vec(Rng(Big), 2) \cup Vec(Rng(Small), 3)
(* Spellings of a width: everything short over an alphabet that has the digits
   special to other bases, signs, blanks, letters; and some large numbers. *)
WChar == {"0", "1", "7", "8", "9", "x", "X", "a", "e", ".", "+", "-", " ", "_"}
WLong == { << "4","2","9","4","9","6","7","3","0","0" >>, << "2","1","4","7","4","8","3","6","5","3" >>,
           << "4","2","9","4","9","6","7","2","9","6" >>, << "6","5","5","4","1" >>, << "2","5","8" >>,
           << "1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","2","0" >>,
           << "0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","0","7" >>,
           << "0","x","1","0" >>, << "0","1","0","0" >>, << "1","e","1","0" >>, << "1","2",",","3" >>, << "1","0","k","B" >> }
WStrs(n) == UNION {[1 .. k -> WChar] : k \in 0 .. n} \cup WLong
WVectors == {<< << "-", "w" >>, s >> : s \in WStrs(3)} \cup {<< << "-", "-", "w", "r", "a", "p", "=" >> \o s >> : s \in WStrs(2)}
            \cup {<< << "-", "w" >> \o s >> : s \in WStrs(2)}
VARIABLES args, posix
Init == args = << >> /\ posix \in BOOLEAN
Next == /\ \/ Len(args) < 2 /\ \E t \in Rng(Big) : args' = Append(args, t)
           \/ Len(args) = 2 /\ Rng(args) \subseteq Rng(Small) /\ \E t \in Rng(Small) : args' = Append(args, t)
        /\ UNCHANGED posix
Spec == Init /\ [][Next]_<< args, posix >>
NoNext == FALSE /\ UNCHANGED << args, posix >>
M == Meaning(args, posix, Openable)
-----------------------------------------------------------------------------
Appended(x) == Meaning(args \o x, posix, Openable)
Prefixed(x) == Meaning(x \o args, posix, Openable)
Some == M # {} /\ Cardinality(M) <= 2
(* A leading -h wins over everything, a leading unknown option too. *)
HelpFirst == Prefixed(<< << "-", "h" >> >>) = {HelpOut}
UnknownFirst == Prefixed(<< << "-", "x" >> >>) = {Error}
(* Leading options set what they say, unless contradicted later. *)
DecodeFirst == \A r \in Prefixed(<< << "-", "d" >> >>) : r.kind = "run" => r.decode
LongIsShort == /\ Prefixed(<< << "-", "d" >> >>) = Prefixed(<< << "-", "-", "d", "e", "c", "o", "d", "e" >> >>)
               /\ Prefixed(<< << "-", "w", "5" >> >>) = Prefixed(<< << "-", "w" >>, << "5" >> >>)
               /\ Prefixed(<< << "-", "w", "5" >> >>) = Prefixed(<< << "-", "-", "w", "r", "a", "p", "=", "5" >> >>)
               /\ Prefixed(<< << "-", "d", "n" >> >>) = Prefixed(<< << "-", "n" >>, << "-", "d" >> >>)
LastWidthWins == Prefixed(<< << "-", "w", "3" >>, << "-", "w", "5" >> >>) = Prefixed(<< << "-", "w", "5" >> >>)
TooMany == \A r \in Appended(<< << "-", "-" >>, << "a" >>, << "b" >> >>) : r.kind # "run"
-----------------------------------------------------------------------------
Row(a, p) == [a |-> a, p |-> p, m |-> Meaning(a, p, Openable)]
DumpAll == Export => JsonSerialize("opts.json",
              [big |-> Big, small |-> Small,
               rows |-> SetToSeq({Row(a, p) : a \in Vectors, p \in BOOLEAN} \cup {Row(a, FALSE) : a \in WVectors})])
ASSUME DumpAll
=============================================================================
