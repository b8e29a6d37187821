------------------------------ MODULE SamplerB ------------------------------
(***************************************************************************)
(* The generalized Clifford & Clifford sampler B as a distribution          *)
(* transformer on pairs (sub-input chosen so far, partial sample): a        *)
(* uniformly random remaining input particle joins the sub-input, then the  *)
(* next output mode is drawn from the squared permanents obtained by        *)
(* Laplace expansion (SubPerm).  Given the sub-input, the partial sample    *)
(* has its exact law (C11, C12; the lossy variant stops after a binomial    *)
(* number of steps).                                                        *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS MaxN
NetOf == <<Had2, Rot2, Id2, Cplx3, Hous3>>
VARIABLES net, S, k, dist
vars == <<net, S, k, dist>>
U == NetOf[net]
m == Len(S)
n == SumSeq(S)
E(j) == UnitAt(j, m)
Kernel(s, r) == LET p == TLCEval([i \in 1..m |-> AbsSqN(PermN(U.g, s, Plus(r, E(i))))])
                    z == InvRealN(SumSeqN(p))
                IN  TLCEval([i \in 1..m |-> MulN(p[i], z)])
Init == /\ net \in 1..Len(NetOf)
        /\ \E nn \in 0..MaxN : S \in StateSet(nn, NetOf[net].m)
        /\ k = 0
        /\ dist = [x \in {<<Vac(Len(S)), Vac(Len(S))>>} |-> OneN]
Step ==
    /\ k < n
    /\ LET live == { x \in DOMAIN dist : ~IsZeroN(dist[x]) }
           \* after the input choice
           keys1 == UNION { { <<Plus(x[1], E(j)), x[2]>> : j \in {i \in 1..m : x[1][i] < S[i]} } : x \in live }
           mid == TLCEval([y \in keys1 |->
                     FoldLeft(LAMBDA a, j :
                        IF y[1][j] > 0 /\ <<Minus(y[1], E(j)), y[2]>> \in live
                        THEN AddN(a, MulN(dist[<<Minus(y[1], E(j)), y[2]>>],
                                          Rat(S[j] - y[1][j] + 1, n - k)))
                        ELSE a, ZeroN, Idx(m))])
           good == { y \in keys1 : ~IsZeroN(mid[y]) }
           ker == TLCEval([y \in good |-> Kernel(y[1], y[2])])
           keys2 == { <<y[1], Plus(y[2], E(i))>> : y \in good, i \in 1..m }
       IN  dist' = [x \in keys2 |->
                FoldLeft(LAMBDA a, i :
                   IF x[2][i] > 0 /\ <<x[1], Minus(x[2], E(i))>> \in good
                   THEN AddN(a, MulN(mid[<<x[1], Minus(x[2], E(i))>>], ker[<<x[1], Minus(x[2], E(i))>>][i]))
                   ELSE a, ZeroN, Idx(m))]
    /\ k' = k + 1 /\ UNCHANGED <<net, S>>
Spec == Init /\ [][Step]_vars
PartialLaw == \A s \in SubStates(S, k), r \in StateSet(k, m) :
    (IF <<s, r>> \in DOMAIN dist THEN dist[<<s, r>>] ELSE ZeroN)
      = MulN(Rat(BinomsProd(S, s), Binom(n, k)), ExactP(U, s, r))
Final == k = n => \A T \in StateSet(n, m) :
    (IF <<S, T>> \in DOMAIN dist THEN dist[<<S, T>>] ELSE ZeroN) = ExactP(U, S, T)
=============================================================================
