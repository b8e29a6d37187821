------------------------------ MODULE GuanPerm ------------------------------
(***************************************************************************)
(* The Ryser and the Chin-Huh permanent method as state machines: one step  *)
(* per Guan code, with the running sums, the running product of binomials   *)
(* and the running sign.  For every bound instance the walk visits each r   *)
(* once, each accumulator always has its closed form, and the final value   *)
(* is the permanent by definition (C01).                                    *)
(***************************************************************************)
EXTENDS GuanCode, Nets
CONSTANTS MaxN

Instances == { x \in [net : {1, 2, 3}, n : 0..MaxN] : x.net # 3 \/ x.n <= MaxN }
NetOf == <<Any3, Any2, Any1>>

VARIABLES M, S, T, alg, r, u, sums, bin, sign, perm, seen, over
vars == <<M, S, T, alg, r, u, sums, bin, sign, perm, seen, over>>

Mat == NetOf[M].g
m == Len(S)
Occupied == { j \in 1..m : T[j] > 0 }
Term(sm, b, sg) == ScaleN(FoldLeft(LAMBDA a, j : IF T[j] > 0 THEN MulN(a, PowN(sm[j], T[j])) ELSE a,
                                   OneN, Idx(m)), sg * b, 1)
Sum0 == [j \in 1..m |-> IF alg = "ryser" THEN ZeroN
                        ELSE SumSeqN([i \in 1..m |-> ScaleN(Mat[j][i], S[i], 1)])]
Init == /\ M \in 1..3
        /\ \E n \in 0..MaxN :
              /\ S \in StateSet(n, NetOf[M].m)
              /\ T \in StateSet(n, NetOf[M].m)
        /\ alg \in {"ryser", "chinhuh"}
        /\ r = Vac(m) /\ u = [j \in 1..m |-> 1]
        /\ sums = Sum0
        /\ bin = 1
        /\ sign = IF alg = "ryser" /\ SumSeq(S) % 2 = 1 THEN -1 ELSE 1
        /\ perm = Term(Sum0, 1, IF alg = "ryser" /\ SumSeq(S) % 2 = 1 THEN -1 ELSE 1)
        /\ seen = {Vac(m)}
        /\ over = FALSE
Step ==
    /\ ~over
    /\ LET c == Carry(r, u, S, 1)
           i == c[1]
       IN  /\ u' = c[2]
           /\ IF i > m THEN over' = TRUE /\ UNCHANGED <<r, sums, bin, sign, perm, seen>>
              ELSE LET old == r[i]
                       new == r[i] + c[2][i]
                       fac == IF alg = "ryser" THEN new - old ELSE -2 * (new - old)
                       sm  == [j \in 1..m |-> AddN(sums[j], ScaleN(Mat[j][i], fac, 1))]
                       b   == IF new > old THEN (bin * (S[i] - old)) \div new
                              ELSE (bin * old) \div (S[i] - new)
                   IN  /\ r' = [r EXCEPT ![i] = new]
                       /\ sums' = sm
                       /\ bin' = b
                       /\ sign' = -sign
                       /\ perm' = AddN(perm, Term(sm, b, -sign))
                       /\ seen' = seen \cup {[r EXCEPT ![i] = new]}
                       /\ UNCHANGED over
    /\ UNCHANGED <<M, S, T, alg>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

\* the code divides floats; every division is exact
ExactBinomial == bin = BinomsProd(S, r)
ExactSums == \A j \in 1..m : sums[j] =
    SumSeqN([i \in 1..m |-> ScaleN(Mat[j][i], IF alg = "ryser" THEN r[i] ELSE S[i] - 2 * r[i], 1)])
ExactSign == sign = IF (SumSeq(r) + IF alg = "ryser" THEN SumSeq(S) ELSE 0) % 2 = 0 THEN 1 ELSE -1
InBox == Leq(r, S)
EachOnce == [][r' # r => r' \notin seen]_vars
Final == over =>
    /\ seen = Box(S)
    /\ perm = ScaleN(PermN(Mat, S, T), IF alg = "ryser" THEN 1 ELSE 2^SumSeq(S), 1)
Terminates == <>over
\* PermN (dynamic programming) against the definition over all bijections
Definition == (SumSeq(S) <= 4 /\ over) =>
    PermN(Mat, S, T) = (IF SumSeq(S) = 0 THEN OneN ELSE PermByDef(Scattering(Mat, S, T)))
=============================================================================
