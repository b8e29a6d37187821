------------------------------- MODULE Optics -------------------------------
(***************************************************************************)
(* The physics theboss implements, by definition.                          *)
(*                                                                         *)
(* An interferometer is a record [g, d]: matrix of numbers g (Gaussian     *)
(* integers) and positive integers d, standing for the complex matrix      *)
(*                 M[i][j] = g[i][j] / sqrt(d[j]).                         *)
(* Row = output mode, column = input mode.  Every probability below is     *)
(* homogeneous in each column, so only d[j] (not its root) appears.        *)
(***************************************************************************)
EXTENDS Fock

(* Coefficient of x^S in prod over output particles of (sum_j M[r][j] x_j), *)
(* i.e. Perm(M_{S,T}) / prod S_j!.  Dynamic programming over sub-vectors of *)
(* S, which are numbered in mixed radix.                                    *)
Stride(S) == [j \in 1..Len(S) |-> ProdSeq([i \in 1..(j - 1) |-> S[i] + 1])]
CoefN(M, S, T) ==
    LET at == SelectSeq(Idx(Len(S)), LAMBDA j : S[j] > 0)         \* the occupied modes
        R  == TLCEval([x \in 1..Len(at) |-> S[at[x]]])
        st == TLCEval(Stride(R))
        sz == ProdSeq([x \in 1..Len(R) |-> R[x] + 1])
        occupied == Idx(Len(R))
        step(f, r) == TLCEval([x \in 0..(sz - 1) |->
            FoldLeft(LAMBDA acc, j :
                       IF (x \div st[j]) % (R[j] + 1) > 0
                       THEN AddN(acc, MulN(M[r][at[j]], f[x - st[j]]))
                       ELSE acc,
                     ZeroN, occupied)])
        f0 == [x \in 0..(sz - 1) |-> IF x = 0 THEN OneN ELSE ZeroN]
    IN  FoldLeft(step, f0, Assign(T))[sz - 1]
\* The permanent of the effective scattering matrix (|S| = |T|).
PermN(M, S, T) == MulN(CoefN(M, S, T), FactsN(S))

(* Permanent of an explicit square matrix A, by the definition over all     *)
(* bijections -- used only to validate PermN.                               *)
PermByDef(A) ==
    LET n == Len(A)
        perms == { f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j] }
    IN  FoldLeft(LAMBDA acc, f : AddN(acc, ProdSeqN([i \in 1..n |-> A[i][f[i]]])),
                 ZeroN, SetToSeq(perms))
\* Rows repeated by T, columns repeated by S.
Scattering(M, S, T) ==
    LET rs == Assign(T)
        cs == Assign(S)
    IN  [i \in 1..Len(rs) |-> [j \in 1..Len(cs) |-> M[rs[i]][cs[j]]]]

\* prod_j d_j^{S_j}
DenN(d, S) == FoldLeft(LAMBDA a, j : MulN(a, PowN(Int2N(d[j]), S[j])), OneN, Idx(Len(S)))

\* Probability of S -> T through a unitary interferometer.
ExactP(U, S, T) ==
    IF SumSeq(S) # SumSeq(T) THEN ZeroN
    ELSE DivRealN(MulN(FactsN(S), AbsSqN(CoefN(U.g, S, T))),
                  MulN(FactsN(T), DenN(U.d, S)))

\* Gram defect  D - G^dagger G : zero iff the interferometer is unitary.
Defect(U) ==
    LET m == Len(U.d)
    IN  TLCEval([j \in 1..m |-> TLCEval([k \in 1..m |->
            SubN(IF j = k THEN Int2N(U.d[j]) ELSE ZeroN,
                 SumSeqN([i \in 1..Len(U.g) |-> MulN(ConjN(U.g[i][j]), U.g[i][k])]))])])
IsUnitary(U) == \A j, k \in 1..Len(U.d) : IsZeroN(Defect(U)[j][k])

(* Probability of S -> T through a lossy interferometer M: the input        *)
(* creation operators become  sum_i M_ij b_i^+ + e_j^+ , where the          *)
(* unobserved loss operators have Gram matrix K = 1 - M^+ M.  Tracing out    *)
(* the loss modes gives                                                     *)
(*  P(T) = 1/(S! T!) sum_{a,b <= S, |a|=|b|=|T|} C(S,a) C(S,b)               *)
(*           Perm(M_{a,T}) conj Perm(M_{b,T}) Perm(K_{S-a, S-b}).            *)
(* It depends on M only, not on the choice of a dilation.                   *)
NetP(L, S, T) ==
    LET l == SumSeq(T)
        n == SumSeq(S)
        subs == SubVecs(S, l)
        K == L.k
        amp == TLCEval([x \in 1..Len(subs) |->
                   ScaleN(PermN(L.g, subs[x], T), BinomsProd(S, subs[x]), 1)])
        term(x, y) ==
            MulN(MulN(amp[x], ConjN(amp[y])),
                 PermN(K, Minus(S, subs[x]), Minus(S, subs[y])))
        row(x) == FoldLeft(LAMBDA a, y :
                      IF IsZeroN(amp[x]) \/ IsZeroN(amp[y]) THEN a ELSE AddN(a, term(x, y)),
                      ZeroN, Idx(Len(subs)))
        tot == FoldLeft(LAMBDA a, x : AddN(a, row(x)), ZeroN, Idx(Len(subs)))
    IN  IF l > n THEN ZeroN
        ELSE DivRealN(tot, MulN(MulN(FactsN(S), FactsN(T)), DenN(L.d, S)))

(* Input mixtures: functions from input states to rational weights.         *)
Pure(S) == [s \in {S} |-> OneN]
AllSubs(S) == UNION { SubStates(S, k) : k \in 0..SumSeq(S) }
\* Every particle survives independently with probability a/b.
LossW(S, s, a, b) ==
    LET l == SumSeq(s)
        n == SumSeq(S)
    IN  MulN(Int2N(BinomsProd(S, s)),
             MulN(PowN(Rat(a, b), l), PowN(Rat(b - a, b), n - l)))
Lossy(S, a, b) == [s \in AllSubs(S) |-> LossW(S, s, a, b)]
\* k particles placed independently and uniformly on the modes lo..hi of m modes
\* (a dephased separable state).
SpreadSet(k, lo, hi, m) ==
    { [j \in 1..m |-> IF j >= lo /\ j <= hi THEN s[j - lo + 1] ELSE 0]
        : s \in IF hi >= lo THEN StateSet(k, hi - lo + 1) ELSE {} }
SpreadW(s, k, c) == DivRealN(FactN(k), MulN(FactsN(s), PowN(Int2N(c), k)))
Spread(k, lo, hi, m) ==
    IF k = 0 THEN Pure(Vac(m))
    ELSE [s \in SpreadSet(k, lo, hi, m) |-> SpreadW(s, k, hi - lo + 1)]
\* Independent union of two mixtures on the same modes.
MixPlus(A, B) ==
    LET keys == { Plus(x, y) : x \in DOMAIN A, y \in DOMAIN B }
    IN  [s \in keys |->
           FoldLeft(LAMBDA acc, p :
                       IF Plus(p[1], p[2]) = s THEN AddN(acc, MulN(A[p[1]], B[p[2]])) ELSE acc,
                    ZeroN, SetToSeq((DOMAIN A) \X (DOMAIN B)))]
\* Losses applied to a mixture.
MixLoss(A, a, b) ==
    LET keys == UNION { AllSubs(x) : x \in DOMAIN A }
    IN  [s \in keys |->
           FoldLeft(LAMBDA acc, x :
                       IF Leq(s, x) THEN AddN(acc, MulN(A[x], LossW(x, s, a, b))) ELSE acc,
                    ZeroN, SetToSeq(DOMAIN A))]
\* Law of the outcome when a mixture enters an interferometer.
LawP(U, mix, T) ==
    FoldLeft(LAMBDA acc, s :
               IF U.unitary
               THEN IF SumSeq(s) = SumSeq(T) THEN AddN(acc, MulN(mix[s], ExactP(U, s, T))) ELSE acc
               ELSE AddN(acc, MulN(mix[s], NetP(U, s, T))),
             ZeroN, SetToSeq(DOMAIN mix))
=============================================================================
