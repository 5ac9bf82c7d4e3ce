------------------------------ MODULE CliDump --------------------------------
(* Exports what the C oracle of the tool needs and must agree with: the filter
   per mode, and wrapped texts of small sizes. *)
EXTENDS Cli, Json, TLC
Small == [n \in 1 .. 24 |-> [w \in 1 .. 12 |->
            Wrapped(w - 1, [i \in 1 .. n - 1 |-> 64 + i])]]
Data == [strip  |-> [c \in 1 .. 256 |-> IF Kept("strip", c - 1) THEN 1 ELSE 0],
         ignore |-> [c \in 1 .. 256 |-> IF Kept("ignore", c - 1) THEN 1 ELSE 0],
         none   |-> [c \in 1 .. 256 |-> IF Kept("none", c - 1) THEN 1 ELSE 0],
         small  |-> Small]
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ JsonSerialize("cli.json", Data) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
