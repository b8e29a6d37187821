------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* C22.  The distance loop over all pairs (and triples) of distributions    *)
(* with denominator D on K outcomes; trial division by 2 and odd numbers    *)
(* over all numbers up to MaxNum; the smallest integer strictly above x.    *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS D, K, MaxNum
VARIABLES proc, p, q, i, acc, num, f, fs
vars == <<proc, p, q, i, acc, num, f, fs>>
Dists == StateSet(D, K)
Ab(x) == IF x < 0 THEN -x ELSE x
Dist2(a, b) == SumSeq([j \in 1..K |-> Ab(a[j] - b[j])])         \* 2D times the distance
Prime(x) == x > 1 /\ \A d \in 2..(x - 1) : x % d # 0
Init == \/ /\ proc = "tvd" /\ p \in Dists /\ q \in Dists
           /\ i = 1 /\ acc = 0 /\ num = 0 /\ f = 0 /\ fs = <<>>
        \/ /\ proc = "primes" /\ num \in 1..MaxNum
           /\ f = 2 /\ fs = <<>> /\ p = <<>> /\ q = <<>> /\ i = num /\ acc = 0
TvdStep == /\ proc = "tvd" /\ i <= K
           /\ acc' = acc + Ab(p[i] - q[i]) /\ i' = i + 1
           /\ UNCHANGED <<proc, p, q, num, f, fs>>
\* i: what is left of num; acc = 1 when finished
Divide == /\ proc = "primes" /\ acc = 0 /\ i % f = 0 /\ i > 1
          /\ fs' = Append(fs, f) /\ i' = i \div f
          /\ UNCHANGED <<proc, p, q, acc, num, f>>
\* the loop bound is the root of what was left after the twos
NextF == /\ proc = "primes" /\ acc = 0 /\ (i % f # 0 \/ i = 1)
         /\ IF f * f > i THEN /\ acc' = 1 /\ f' = f
                              /\ fs' = IF i > 1 THEN Append(fs, i) ELSE fs
            ELSE f' = (IF f = 2 THEN 3 ELSE f + 2) /\ UNCHANGED <<acc, fs>>
         /\ UNCHANGED <<proc, p, q, i, num>>
Next == TvdStep \/ Divide \/ NextF
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TvdDone == proc = "tvd" /\ i > K
Metric == TvdDone =>
    /\ acc = Dist2(p, q)
    /\ acc = Dist2(q, p)
    /\ acc <= 2 * D
    /\ (acc = 0) = (p = q)
    /\ acc % 2 = 0
    /\ \A r \in Dists : acc <= Dist2(p, r) + Dist2(r, q)
    \* the largest difference of any event
    /\ acc = 2 * (CHOOSE x \in 0..D :
            /\ \E X \in SUBSET (1..K) : x = SumSeq([j \in 1..K |-> IF j \in X THEN p[j] - q[j] ELSE 0])
            /\ \A X \in SUBSET (1..K) : SumSeq([j \in 1..K |-> IF j \in X THEN p[j] - q[j] ELSE 0]) <= x)
PrimesDone == proc = "primes" /\ acc = 1
Factors == PrimesDone => ProdSeq(fs) = num /\ \A j \in 1..Len(fs) : Prime(fs[j])
Conserved == proc = "primes" => ProdSeq(fs) * (IF acc = 1 THEN 1 ELSE i) = num
Terminates == <>(TvdDone \/ PrimesDone)
\* floor(x) + 1 is the smallest integer strictly above the rational x = a/b
ASSUME \A a \in 0..40, b \in 1..9 :
    LET N == a \div b + 1 IN N * b > a /\ \A y \in 0..(N - 1) : y * b <= a
=============================================================================
