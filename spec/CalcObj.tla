------------------------------ MODULE CalcObj -------------------------------
(***************************************************************************)
(* A permanent calculator as an object (C02, C04): three fields assigned by *)
(* the user at any time, working variables (walk limits, running sums,      *)
(* accumulated value) derived from them when a computation starts.  Every   *)
(* working variable carries the assignment it was derived from; a result is *)
(* right iff everything it was made from carries the current assignment.    *)
(* The switch says whether the limits are derived when the computation      *)
(* starts or once when the object is built.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mats, States, MaxOps, LimitsAtCompute
VARIABLES mat, inp, out, limits, sums, acc, step, result, ops
vars == <<mat, inp, out, limits, sums, acc, step, result, ops>>
Init == /\ mat \in Mats /\ inp \in States /\ out \in States
        /\ limits = inp /\ sums = <<>> /\ acc = {} /\ step = 0 /\ result = <<>> /\ ops = 0
Assign == /\ step = 0 /\ ops < MaxOps
          /\ \/ \E x \in Mats : mat' = x /\ UNCHANGED <<inp, out>>
             \/ \E x \in States : inp' = x /\ UNCHANGED <<mat, out>>
             \/ \E x \in States : out' = x /\ UNCHANGED <<mat, inp>>
          /\ ops' = ops + 1 /\ result' = <<>> /\ UNCHANGED <<limits, sums, acc, step>>
Start == /\ step = 0 /\ ops < MaxOps
         /\ limits' = IF LimitsAtCompute THEN inp ELSE limits
         /\ sums' = <<mat, out>> /\ acc' = {}
         /\ step' = 1 /\ ops' = ops + 1 /\ result' = <<>>
         /\ UNCHANGED <<mat, inp, out>>
Walk == /\ step \in 1..3
        /\ acc' = acc \cup {<<sums[1], limits, sums[2]>>}
        /\ IF step = 3 THEN step' = 0 /\ result' = <<acc'>> ELSE step' = step + 1 /\ UNCHANGED result
        /\ UNCHANGED <<mat, inp, out, limits, sums, ops>>
Next == Assign \/ Start \/ Walk
Spec == Init /\ [][Next]_vars
Current == result # <<>> => result[1] = {<<mat, inp, out>>}
=============================================================================
