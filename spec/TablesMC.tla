------------------------------ MODULE TablesMC ------------------------------
(* The shares of Tables.tla fit together: neighbouring characters contribute
   to disjoint bits of the byte they have in common, and together give the
   byte that RfcDecode prescribes; two entries of the encoding table give the
   text of the group.  Checked for every pair of neighbouring sextets. *)
EXTENDS Tables

VARIABLES j, a, b            \* position of the first one, both sextets
Init == j \in 0 .. 2 /\ a \in Sextet /\ b \in Sextet
Next == UNCHANGED << j, a, b >>
Spec == Init /\ [][Next]_<< j, a, b >>

Others == {0, 21, 63}
Quantum(x, y) == [i \in 1 .. 4 |-> Alpha[IF i = j + 1 THEN a ELSE IF i = j + 2 THEN b ELSE IF i < j + 1 THEN x ELSE y]]
Sum(q) == [k \in 1 .. 3 |-> Share(0, Value[q[1]])[k] + Share(1, Value[q[2]])[k] + Share(2, Value[q[3]])[k] + Share(3, Value[q[4]])[k]]
Disjoint == \A k \in 1 .. 3 : (Share(j, a)[k] & Share(j + 1, b)[k]) = 0
Together == \A x \in Others, y \in Others : Sum(Quantum(x, y)) = RfcDecode(Quantum(x, y))
\* the encoder's table: the 24 bits of a group as two 12-bit indices
Pairs == \A x \in Others, y \in Others :
           LET q == Quantum(x, y)
               g == RfcDecode(q)
               n == g[1] * 65536 + g[2] * 256 + g[3]
               E(i) == << Alpha[i \div 64], Alpha[i % 64] >>
           IN E(n \div 4096) \o E(n % 4096) = q
=============================================================================
