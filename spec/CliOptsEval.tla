----------------------------- MODULE CliOptsEval -----------------------------
(* Gives vectors.json, argument vectors of any length drawn at random, their
   meanings. *)
EXTENDS CliOpts, Json, TLC
Openable == {<< "F" >>, << "F", "2" >>}
V == JsonDeserialize("vectors.json")
VARIABLE x
Init == x = 0
NoNext == FALSE /\ UNCHANGED x
ASSUME JsonSerialize("opts.json",
         [rows |-> [i \in DOMAIN V |-> [a |-> V[i].a, p |-> V[i].p, m |-> Meaning(V[i].a, V[i].p, Openable)]]])
=============================================================================
