-------------------------------- MODULE OmpMC --------------------------------
EXTENDS Omp
CONSTANTS Syms, MinLen, MaxLen
Words == UNION { [1 .. n -> Syms] : n \in MinLen .. MaxLen }
\* With three threads: words whose quanta are drawn from a few shapes.
Quanta == { <<81,81,81,81>>, <<81,81,61,61>>, <<81,81,81,61>>, <<81,33,81,81>>, <<81,81,61,81>>, <<61,61,61,61>> }
Tails == { << >>, <<61>>, <<81>>, <<81,81>>, <<81,81,61>> }
Shapes == { a \o b \o c \o t : a \in Quanta, b \in Quanta, c \in Quanta \cup { << >> }, t \in Tails }
=============================================================================
