------------------------------- MODULE Counts -------------------------------
(* Closed forms for the counting functions, modulo primes so that arguments  *)
(* far beyond enumeration are decided too.  Counting.tla ties them to the    *)
(* definitions.                                                              *)
EXTENDS Fock

Primes == <<32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653>>
FactMod(n, p) == FoldLeft(LAMBDA a, k : (a * k) % p, 1, Idx(n))
BinomMod(n, k, p) ==
    IF k < 0 \/ k > n THEN 0
    ELSE (FactMod(n, p) * InvMod((FactMod(k, p) * FactMod(n - k, p)) % p, p)) % p
DimMod(n, m, p) == BinomMod(n + m - 1, n, p)
\* sum over sectors by repeated multiplication C(k+m,k+1) = C(k+m-1,k)(k+m)/(k+1)
LossyDimMod(n, m, p) ==
    FoldLeft(LAMBDA a, k : LET c == (a[1] * (((k + m - 1) * InvMod(k, p)) % p)) % p
                           IN  << c, (a[2] + c) % p >>,
             <<1, 1>>, Idx(n))[2]
MultMod(t, p) ==          \* number of distinct permutations of the vector t
    LET vals == SetToSeq(ToSet(t))
        cnt(v) == Cardinality({i \in 1..Len(t) : t[i] = v})
    IN  (FactMod(Len(t), p) *
         InvMod(FoldLeft(LAMBDA a, v : (a * FactMod(cnt(v), p)) % p, 1, vals), p)) % p
\* k-part partitions of n, counted by the number of ways with parts >= 1:
\* table over parts bounded below, validated against the definition in Counting.tla
PartTab(k, n) ==          \* row after row: p(j, x) = p(j-1, x-1) + p(j, x-j)
    LET row0 == [x \in 1..(n + 1) |-> IF x = 1 THEN 1 ELSE 0]      \* index x + 1
        next(prev, j) ==
            FoldLeft(LAMBDA acc, x :       \* x = 0..n
                       Append(acc, (IF x > 0 THEN prev[x] ELSE 0)
                                   + (IF x >= j THEN acc[x - j + 1] ELSE 0)),
                     <<>>, [x \in 1..(n + 1) |-> x - 1])
    IN  IF k > n THEN 0 ELSE FoldLeft(LAMBDA prev, j : TLCEval(next(prev, j)), row0, Idx(k))[n + 1]
NumTypes(n, m) == IF n = 0 THEN 1 ELSE SumSeq([k \in 1..m |-> PartTab(k, n)])
=============================================================================
