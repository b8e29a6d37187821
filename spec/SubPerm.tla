------------------------------ MODULE SubPerm -------------------------------
(***************************************************************************)
(* Both submatrix-permanent methods (Clifford & Clifford style) as state    *)
(* machines on the same walk: one accumulator per input mode.  At the end   *)
(* accumulator i is the permanent with one particle removed from mode i     *)
(* (C03), and Laplace expansion along a new row gives the permanent for the *)
(* enlarged output -- what sampler B relies on (C11).                       *)
(***************************************************************************)
EXTENDS GuanCode, Nets
CONSTANTS MaxN
NetOf == <<Any3, Any2, Any1>>

VARIABLES M, S, T, alg, r, u, sums, bin, sign, perms, over
vars == <<M, S, T, alg, r, u, sums, bin, sign, perms, over>>
Mat == NetOf[M].g
m == Len(S)
n == SumSeq(S)
Prod(sm, c) == ScaleN(FoldLeft(LAMBDA a, j : IF T[j] > 0 THEN MulN(a, PowN(sm[j], T[j])) ELSE a,
                               OneN, Idx(m)), c, 1)
\* the running binomial product divided by S_i / (S_i - r_i)
Add(ps, rr, sm, b, sg) ==
    [i \in 1..m |-> IF S[i] = 0 \/ S[i] = rr[i] THEN ps[i]
                    ELSE LET sm2 == IF alg = "ryser" THEN sm ELSE [j \in 1..m |-> SubN(sm[j], Mat[j][i])]
                         IN  AddN(ps[i], Prod(sm2, (sg * b * (S[i] - rr[i])) \div S[i]))]
Sum0 == [j \in 1..m |-> IF alg = "ryser" THEN ZeroN
                        ELSE SumSeqN([i \in 1..m |-> ScaleN(Mat[j][i], S[i], 1)])]
Zero == [i \in 1..m |-> ZeroN]
Init == /\ M \in 1..3
        /\ \E k \in 1..MaxN :
              /\ S \in StateSet(k, NetOf[M].m)
              /\ T \in StateSet(k - 1, NetOf[M].m)
        /\ alg \in {"ryser", "chinhuh"}
        /\ r = Vac(m) /\ u = [j \in 1..m |-> 1]
        /\ sums = Sum0 /\ bin = 1
        /\ sign = IF alg = "ryser" /\ SumSeq(T) % 2 = 1 THEN -1 ELSE 1
        /\ IF n = 1       \* the only submatrix is empty
           THEN perms = [i \in 1..m |-> IF S[i] = 1 THEN OneN ELSE ZeroN] /\ over = TRUE
           ELSE /\ perms = IF alg = "ryser" THEN Zero ELSE Add(Zero, Vac(m), Sum0, 1, 1)
                /\ over = FALSE
Step ==
    /\ ~over
    /\ LET c == Carry(r, u, S, 1)
           i == c[1]
       IN  /\ u' = c[2]
           /\ IF i > m THEN over' = TRUE /\ UNCHANGED <<r, sums, bin, sign, perms>>
              ELSE LET old == r[i]
                       new == r[i] + c[2][i]
                       fac == IF alg = "ryser" THEN new - old ELSE -2 * (new - old)
                       sm  == [j \in 1..m |-> AddN(sums[j], ScaleN(Mat[j][i], fac, 1))]
                       b   == IF new > old THEN (bin * (S[i] - old)) \div new
                              ELSE (bin * old) \div (S[i] - new)
                       rr  == [r EXCEPT ![i] = new]
                   IN  /\ r' = rr /\ sums' = sm /\ bin' = b /\ sign' = -sign
                       /\ perms' = Add(perms, rr, sm, b, -sign)
                       /\ UNCHANGED over
    /\ UNCHANGED <<M, S, T, alg>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Divisible == \A i \in 1..m : S[i] > 0 => (bin * (S[i] - r[i])) % S[i] = 0
ReducedBinomial == \A i \in 1..m : (S[i] > 0 /\ r[i] < S[i]) =>
    (bin * (S[i] - r[i])) \div S[i] = BinomsProd(Minus(S, UnitAt(i, m)), r)
Scale == IF alg = "ryser" \/ n = 1 THEN 1 ELSE 2^(n - 1)
Final == over => \A i \in 1..m :
    perms[i] = IF S[i] = 0 THEN ZeroN ELSE ScaleN(PermN(Mat, Minus(S, UnitAt(i, m)), T), Scale, 1)
Laplace == over => \A x \in 1..m :
    SumSeqN([i \in 1..m |-> ScaleN(MulN(perms[i], Mat[x][i]), S[i], 1)])
      = ScaleN(PermN(Mat, S, Plus(T, UnitAt(x, m))), Scale, 1)
Terminates == <>over
=============================================================================
