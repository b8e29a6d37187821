------------------------------ MODULE Counting ------------------------------
(***************************************************************************)
(* Counting functions (C05, C08).  The machine grows integer partitions one *)
(* unit at a time; every non-increasing vector is reached.  The invariants  *)
(* tie the closed forms used by the trace specification (which also have to *)
(* work for huge arguments, hence modulo primes) to the definitions.        *)
(***************************************************************************)
EXTENDS Counts
CONSTANTS MaxN, MaxM
VARIABLES t          \* a state type
vars == <<t>>
m == Len(t)
n == SumSeq(t)
Init == \E mm \in 1..MaxM : t = Vac(mm)
Grow == /\ n < MaxN
        /\ \E j \in 1..m : /\ IsNonIncreasing([t EXCEPT ![j] = @ + 1])
                           /\ t' = [t EXCEPT ![j] = @ + 1]
Spec == Init /\ [][Grow]_vars
Typed == t \in TypeSet(n, m)
\* distinct permutations of t, by definition
PermsOf(s) == { x \in StateSet(SumSeq(s), Len(s)) :
                  \A v \in 0..SumSeq(s) : Cardinality({i \in 1..Len(s) : s[i] = v})
                                          = Cardinality({i \in 1..Len(s) : x[i] = v}) }
Multiplicity == \A i \in 1..Len(Primes) : MultMod(t, Primes[i]) = Cardinality(PermsOf(t)) % Primes[i]
\* the rest depends on (n, m) only: checked once per pair, at the one-row type
OneRow == t[1] = n
Once == OneRow =>
    /\ PartTab(m, n) = (IF n = 0 THEN 0 ELSE NumPartitions(m, n)) \/ n = 0
    /\ Cardinality(TypeSet(n, m)) = NumTypes(n, m)
    /\ Cardinality(LossyTypeSet(n, m)) = SumSeq([x \in 1..(n + 1) |-> NumTypes(x - 1, m)])
    /\ (n > 0 /\ m > 1 /\ m <= n) => \* the recursion used by the code
         PartTab(m, n) = PartTab(m - 1, n - 1) + (IF n - m >= 1 THEN PartTab(m, n - m) ELSE 0)
    /\ \A i \in 1..Len(Primes) :
         /\ DimMod(n, m, Primes[i]) = Cardinality(StateSet(n, m)) % Primes[i]
         /\ LossyDimMod(n, m, Primes[i]) = Cardinality(LossyStateSet(n, m)) % Primes[i]
    \* types partition the states
    /\ UNION { PermsOf(s) : s \in TypeSet(n, m) } = StateSet(n, m)
    /\ SumSeq([x \in 1..Cardinality(TypeSet(n, m)) |->
                 Cardinality(PermsOf(SetToSeq(TypeSet(n, m))[x]))]) = Cardinality(StateSet(n, m))
=============================================================================
