----------------------------- MODULE GlynnGray ------------------------------
(***************************************************************************)
(* Glynn's formula walked in Gray code order on the scattering matrix: the  *)
(* signs delta (the last one stays +1), column sums, running product sign.  *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS MaxN
NetOf == <<Any3, Any2, Any1>>
VARIABLES M, S, T, delta, sums, sign, perm, step, seen
vars == <<M, S, T, delta, sums, sign, perm, step, seen>>
Mat == NetOf[M].g
n == SumSeq(S)
A == Scattering(Mat, S, T)
Steps == 2^(n - 1) - 1
\* binary reflected Gray code: the index flipped at step k is its number of trailing zeros
RECURSIVE Ruler(_)
Ruler(k) == IF k % 2 = 1 THEN 1 ELSE 1 + Ruler(k \div 2)
Sum0 == [j \in 1..n |-> SumSeqN([i \in 1..n |-> A[i][j]])]
Init == /\ M \in 1..3
        /\ \E k \in 1..MaxN : S \in StateSet(k, NetOf[M].m) /\ T \in StateSet(k, NetOf[M].m)
        /\ delta = [i \in 1..n |-> 1]
        /\ sums = Sum0 /\ sign = 1 /\ perm = ProdSeqN(Sum0) /\ step = 0 /\ seen = {delta}
Step == /\ step < Steps
        /\ LET i == Ruler(step + 1)
               d == [delta EXCEPT ![i] = -delta[i]]
               sm == [j \in 1..n |-> AddN(sums[j], ScaleN(A[i][j], 2 * d[i], 1))]
           IN  /\ delta' = d /\ sums' = sm /\ sign' = -sign
               /\ perm' = AddN(perm, ScaleN(ProdSeqN(sm), -sign, 1))
               /\ seen' = seen \cup {d}
        /\ step' = step + 1
        /\ UNCHANGED <<M, S, T>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
ExactSums == \A j \in 1..n : sums[j] = SumSeqN([i \in 1..n |-> ScaleN(A[i][j], delta[i], 1)])
ExactSign == sign = ProdSeq(delta)
LastFixed == delta[n] = 1
EachOnce == Cardinality(seen) = step + 1
Final == step = Steps => perm = ScaleN(PermN(Mat, S, T), 2^(n - 1), 1)
Terminates == <>(step = Steps)
=============================================================================
