---------------------------- MODULE LossyInputs -----------------------------
(***************************************************************************)
(* Lossy inputs (C07).  The n particles are distinguishable while they are  *)
(* lost one after another (any order); the subsets that survive, read as    *)
(* occupation vectors, are exactly the sub-states, and a sub-state a is     *)
(* reached by prod_j C(S_j, a_j) different subsets.                         *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS MaxN, MaxM
VARIABLES S, alive
vars == <<S, alive>>
All == 1..SumSeq(S)
m == Len(S)
Read(X) == [j \in 1..m |-> Cardinality({x \in X : Assign(S)[x] = j})]
Init == /\ \E mm \in 1..MaxM, nn \in 0..MaxN : S \in StateSet(nn, mm)
        /\ alive = 1..SumSeq(S)
Lose == \E x \in alive : alive' = alive \ {x} /\ UNCHANGED S
Spec == Init /\ [][Lose]_vars
SubState == Read(alive) \in SubStates(S, Cardinality(alive))
\* from the full state, all subsets of a size give all sub-states, each with its weight
Exactly == alive = All => \A k \in 0..SumSeq(S) :
    LET subs == { X \in SUBSET All : Cardinality(X) = k }
    IN  /\ { Read(X) : X \in subs } = SubStates(S, k)
        /\ \A a \in SubStates(S, k) : Cardinality({ X \in subs : Read(X) = a }) = BinomsProd(S, a)
        /\ Cardinality(subs) = Binom(SumSeq(S), k)
        /\ SubStates(S, k) = { a \in [1..m -> 0..SumSeq(S)] : Leq(a, S) /\ SumSeq(a) = k }
        /\ Len(SubVecs(S, k)) = Cardinality(SubStates(S, k))
=============================================================================
