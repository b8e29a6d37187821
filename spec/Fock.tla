-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Combinatorics of Fock states.  A state of m modes is a sequence of m    *)
(* naturals (mode occupation); modes are numbered from 1 here and from 0   *)
(* in the code, the trace specification shifts them.                       *)
(***************************************************************************)
EXTENDS Gauss

SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Idx(n)     == [j \in 1..n |-> j]
Vac(m)     == [j \in 1..m |-> 0]

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)               \* n <= 12
FactN(n) == FoldLeft(LAMBDA a, k : MulN(a, Int2N(k)), OneN, Idx(n))
FactsN(s) == FoldLeft(LAMBDA a, k : MulN(a, FactN(k)), OneN, s)  \* product of factorials

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF k = 0 \/ k = n THEN 1
               ELSE IF k > n - k THEN Binom(n, n - k)
               ELSE (Binom(n - 1, k - 1) * n) \div k
BinomsProd(S, a) == ProdSeq([j \in 1..Len(S) |-> Binom(S[j], a[j])])

\* All n-particle states of m modes, in decreasing lexicographic order.
RECURSIVE LexStates(_, _)
LexStates(n, m) ==
    IF m = 1 THEN << <<n>> >>
    ELSE FoldLeft(LAMBDA acc, i :
                    acc \o LET k == n - i + 1
                               rest == LexStates(n - k, m - 1)
                           IN  [x \in 1..Len(rest) |-> <<k>> \o rest[x]],
                  <<>>, Idx(n + 1))
\* All states with at most n particles: sectors 0, 1, ..., n one after another.
LossyLexStates(n, m) ==
    FoldLeft(LAMBDA acc, i : acc \o LexStates(i - 1, m), <<>>, Idx(n + 1))
StateSet(n, m)      == ToSet(LexStates(n, m))
LossyStateSet(n, m) == ToSet(LossyLexStates(n, m))

\* The definition the enumeration has to meet (used to validate LexStates itself).
IsState(s, n, m) == Len(s) = m /\ (\A j \in 1..m : s[j] >= 0) /\ SumSeq(s) = n
RECURSIVE LexGreater(_, _)
LexGreater(s, t) == IF s = <<>> THEN FALSE
                    ELSE Head(s) > Head(t) \/ (Head(s) = Head(t) /\ LexGreater(Tail(s), Tail(t)))

\* Particle (mode assignment) representation: modes repeated by occupation.
Assign(s) == FoldLeft(LAMBDA acc, j : acc \o [k \in 1..s[j] |-> j], <<>>, Idx(Len(s)))
Occ(a, m) == [j \in 1..m |-> Cardinality({k \in 1..Len(a) : a[k] = j})]

Leq(a, S)   == \A j \in 1..Len(S) : a[j] <= S[j]
\* All occupation vectors a <= S with |a| = k.
SubVecs(S, k) ==
    LET m == Len(S)
        left == TLCEval([j \in 0..m |-> SumSeq(SubSeq(S, j + 1, m))])
        step(acc, j) ==                     \* prefixes that can still reach k
            FoldLeft(LAMBDA out, v :
                       LET got == SumSeq(v)
                           lo == IF k - got - left[j] > 0 THEN k - got - left[j] ELSE 0
                           hi == IF k - got < S[j] THEN k - got ELSE S[j]
                       IN  out \o [x \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> Append(v, lo + x - 1)],
                     <<>>, acc)
    IN  IF k < 0 \/ k > SumSeq(S) THEN <<>> ELSE FoldLeft(step, << <<>> >>, Idx(m))
SubStates(S, k) == ToSet(SubVecs(S, k))
Minus(S, a) == [j \in 1..Len(S) |-> S[j] - a[j]]
Plus(S, a)  == [j \in 1..Len(S) |-> S[j] + a[j]]
UnitAt(j, m) == [i \in 1..m |-> IF i = j THEN 1 ELSE 0]

\* Types: non-increasing states.
IsNonIncreasing(s) == \A j \in 1..(Len(s) - 1) : s[j] >= s[j + 1]
TypeSet(n, m) == { s \in StateSet(n, m) : IsNonIncreasing(s) }
LossyTypeSet(n, m) == UNION { TypeSet(k, m) : k \in 0..n }
\* Integer partitions of n into exactly k positive parts, counted by definition
\* (non-increasing k-tuples of positive integers).
NumPartitions(k, n) ==
    IF k > n THEN 0 ELSE Cardinality({ s \in TypeSet(n, k) : s[k] >= 1 })
\* A permanent problem can be computed: square matrix, states over the same modes, no more modes than the matrix has.
WellSized(rows, cols, li, lo) == rows = cols /\ li = lo /\ lo <= cols
=============================================================================
