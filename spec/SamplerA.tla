------------------------------ MODULE SamplerA ------------------------------
(***************************************************************************)
(* The generalized Clifford & Clifford sampler A (with and without uniform  *)
(* losses, and in the mode-assignment form) as a distribution transformer:  *)
(* dist is the exact distribution of the partial sample after so many of    *)
(* the n particle steps.  The step reads an unnormalised pmf for the next   *)
(* particle: the weighted average over sub-inputs with one particle more.   *)
(* Invariant: the partial sample always has the law of a random sub-input,  *)
(* hence the final one the exact law (C11, C12).                            *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS MaxN
NetOf == <<Had2, Rot2, Id2, Cplx3, Hous3>>
VARIABLES net, S, eta, k, dist
vars == <<net, S, eta, k, dist>>
U == NetOf[net]
m == Len(S)
n == SumSeq(S)
FixedMix(l) == [x \in SubStates(S, l) |-> Rat(BinomsProd(S, x), Binom(n, l))]
\* probability that the sampler's normalised pmf puts the next particle to mode i
Pmf(r, i) ==
    LET t == SumSeq(r) + 1
        mixw == FixedMix(t)          \* l!(n-l)!/n! prod binom = the normalised weights
        term(s) == DivRealN(MulN(mixw[s], AbsSqN(PermN(U.g, s, Plus(r, UnitAt(i, m))))),
                            MulN(MulN(FactsN(s), FactN(t)), DenN(U.d, s)))
    IN  FoldLeft(LAMBDA a, s : AddN(a, term(s)), ZeroN, SetToSeq(DOMAIN mixw))
Kernel(r) == LET p == TLCEval([i \in 1..m |-> Pmf(r, i)])
                 z == InvRealN(SumSeqN(p))
             IN  TLCEval([i \in 1..m |-> MulN(p[i], z)])
Init == /\ net \in 1..Len(NetOf)
        /\ \E nn \in 0..MaxN : S \in StateSet(nn, NetOf[net].m)
        /\ eta \in {<<1, 1>>, <<2, 3>>, <<0, 1>>}
        /\ k = 0 /\ dist = Pure(Vac(Len(S)))
Step ==
    /\ k < n
    /\ LET live == { r \in DOMAIN dist : ~IsZeroN(dist[r]) }
           ker == TLCEval([r \in live |-> Kernel(r)])
           keep == Rat(eta[1], eta[2])
           lose == Rat(eta[2] - eta[1], eta[2])
           keys == live \cup { Plus(r, UnitAt(i, m)) : r \in live, i \in 1..m }
       IN  dist' = [x \in keys |->
              FoldLeft(LAMBDA a, r :
                  AddN(a, MulN(dist[r],
                     AddN(IF x = r THEN lose ELSE ZeroN,
                          FoldLeft(LAMBDA b, i : IF x = Plus(r, UnitAt(i, m))
                                                 THEN AddN(b, MulN(keep, ker[r][i])) ELSE b,
                                   ZeroN, Idx(m))))),
                  ZeroN, SetToSeq(live))]
    /\ k' = k + 1 /\ UNCHANGED <<net, S, eta>>
Spec == Init /\ [][Step]_vars
\* after k of the n particle steps: l ~ Bin(k, eta) particles sampled, each number with
\* the law of a uniformly chosen l-particle sub-input
PartialLaw == \A r \in LossyStateSet(n, m) :
    LET l == SumSeq(r)
        w == MulN(Int2N(Binom(k, l)), MulN(PowN(Rat(eta[1], eta[2]), l), PowN(Rat(eta[2] - eta[1], eta[2]), k - l)))
        exact == IF l > k THEN ZeroN ELSE MulN(w, LawP(U, FixedMix(l), r))
    IN  (IF r \in DOMAIN dist THEN dist[r] ELSE ZeroN) = exact
Final == k = n => \A T \in LossyStateSet(n, m) :
    (IF T \in DOMAIN dist THEN dist[T] ELSE ZeroN) = LawP(U, Lossy(S, eta[1], eta[2]), T)
\* a pmf is never empty where the sampler can arrive (no division by zero)
Normalisable == \A r \in DOMAIN dist :
    (~IsZeroN(dist[r]) /\ SumSeq(r) < n) => ~IsZeroN(SumSeqN([i \in 1..m |-> Pmf(r, i)]))
=============================================================================
