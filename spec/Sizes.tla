------------------------------- MODULE Sizes --------------------------------
(* C28.  Sizes of the matrix and of the two states of a calculator, assigned   *)
(* in any order; a computation is refused unless the sizes fit.  What fits     *)
(* reads only entries the matrix has; states over fewer modes than the matrix  *)
(* read its leading block; a refusal changes nothing, so that any assignment   *)
(* that makes the sizes fit makes the calculator usable again.                 *)
EXTENDS Fock
CONSTANTS MaxSize, MaxOps
VARIABLES rows, cols, li, lo, got, ops
vars == <<rows, cols, li, lo, got, ops>>
Sz == 1..MaxSize
Init == rows \in Sz /\ cols \in Sz /\ li \in Sz /\ lo \in Sz /\ got = "none" /\ ops = 0
SetMat == \E a, b \in Sz : rows' = a /\ cols' = b /\ UNCHANGED <<li, lo>>
SetIn  == \E a \in Sz : li' = a /\ UNCHANGED <<rows, cols, lo>>
SetOut == \E a \in Sz : lo' = a /\ UNCHANGED <<rows, cols, li>>
Assigns == ops < MaxOps /\ (SetMat \/ SetIn \/ SetOut) /\ got' = "none" /\ ops' = ops + 1
Compute == /\ ops < MaxOps
           /\ got' = IF WellSized(rows, cols, li, lo) THEN "value" ELSE "refused"
           /\ ops' = ops + 1 /\ UNCHANGED <<rows, cols, li, lo>>
Next == Assigns \/ Compute
Spec == Init /\ [][Next]_vars
\* every entry that any pair of states over these modes can read exists
Inside == got = "value" => \A t \in 1..lo, i \in 1..li : t <= rows /\ i <= cols
\* computing for n particles in and out of the same modes always is possible
SameModes == got = "value" => \A n \in 0..2 : Cardinality(StateSet(n, li)) = Cardinality(StateSet(n, lo))
\* the ordinary problem is never refused
Ordinary == got = "refused" => ~(rows = cols /\ li = rows /\ lo = rows)
\* a refusal (or a value) leaves the assignment alone
Unharmed == [][got' # "none" => UNCHANGED <<rows, cols, li, lo>>]_vars
=============================================================================
