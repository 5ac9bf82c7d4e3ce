------------------------------ MODULE CliPipeMC ------------------------------
EXTENDS CliPipe
EncCfgs == {[decode |-> FALSE, mode |-> "", w |-> x] : x \in 0 .. 5}
DecCfgs == {[decode |-> TRUE, mode |-> m, w |-> 0] : m \in Modes}
AllCfgs == EncCfgs \cup DecCfgs
Words(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
\* bytes do not matter to the pipeline: one input per length
EncIn == {[i \in 1 .. n |-> 64 + i] : n \in 0 .. 6}
SomeInputs(c) == IF c.decode THEN Words({81, 61, 10, 33}, 5) ELSE EncIn
LongInputs(c) == IF c.decode THEN {<<81,81,10,81,81,81,10,10,81,61,10,61,10>>, <<81,33,81,81,10,81,81,81,61,61>>, <<81,81,81,81,81,61>>, <<81,81,10,81,81,81,81,81,10>>}
                 ELSE {[i \in 1 .. n |-> 64 + i] : n \in 0 .. 11}
=============================================================================
