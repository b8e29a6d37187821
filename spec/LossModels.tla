----------------------------- MODULE LossModels -----------------------------
(***************************************************************************)
(* The loss models as random processes, one random choice per step; the     *)
(* state is the exact distribution reached so far (a mixture).  At the end  *)
(* each process has produced the closed-form mixture that the trace         *)
(* specification uses, and the laws derived from it obey the relations that *)
(* C09, C10, C12-C16 and C19 state (normalisation, limiting cases, agreement*)
(* between the formulations, dilation).                                     *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS MaxN

VARIABLES proc,      \* which process
          net,       \* index of the interferometer
          S,         \* input state
          par,       \* transmissivity <<a, b>>, or a particle number / mode number
          k,         \* random choices made
          mix        \* distribution over the states reached
vars == <<proc, net, S, par, k, mix>>

NetOf == <<Had2, Rot2, Cplx3, Hous3>>
U == NetOf[net]
m == Len(S)
n == SumSeq(S)
Etas == {<<0, 1>>, <<1, 1>>, <<1, 3>>, <<3, 4>>}
TotalN(f) == SumOverN(f, DOMAIN f)
\* push a distribution through one random choice: W(x) is a distribution over successors of x
Bind(A, W(_)) ==
    LET keys == UNION { DOMAIN W(x) : x \in DOMAIN A }
    IN  [s \in keys |->
           FoldLeft(LAMBDA acc, x : IF s \in DOMAIN W(x) THEN AddN(acc, MulN(A[x], W(x)[s])) ELSE acc,
                    ZeroN, SetToSeq(DOMAIN A))]
Drop(x, j) == Minus(x, UnitAt(j, m))
Put(x, j) == Plus(x, UnitAt(j, m))

Init == /\ net \in 1..Len(NetOf)
        /\ \E nn \in 0..MaxN : S \in StateSet(nn, NetOf[net].m)
        /\ \/ proc = "keep"   /\ par \in Etas /\ mix = Pure(Vac(Len(S)))
           \/ proc = "remove" /\ par \in 0..SumSeq(S) /\ mix = Pure(S)
           \/ proc = "place"  /\ par \in 1..Len(S) /\ mix = Pure(Vac(Len(S)))
        /\ k = 0
Steps == IF proc = "remove" THEN n - par ELSE n
\* every particle in turn survives with probability a/b
Keep == /\ proc = "keep" /\ k < Steps
        /\ LET j == Assign(S)[k + 1]
           IN  mix' = Bind(mix, LAMBDA x : [s \in {x, Put(x, j)} |->
                                  IF s = x THEN Rat(par[2] - par[1], par[2]) ELSE Rat(par[1], par[2])])
\* a uniformly chosen particle is removed
Take == /\ proc = "remove" /\ k < Steps
        /\ mix' = Bind(mix, LAMBDA x : [s \in { Drop(x, j) : j \in {i \in 1..m : x[i] > 0} } |->
                         Rat(SumSeq([j \in 1..m |-> IF x[j] > 0 /\ Drop(x, j) = s THEN x[j] ELSE 0]),
                             SumSeq(x))])
\* a particle is put on one of the first par modes, uniformly
Place == /\ proc = "place" /\ k < Steps
         /\ mix' = Bind(mix, LAMBDA x : [s \in { Put(x, j) : j \in 1..par } |-> Rat(1, par)])
Next == (Keep \/ Take \/ Place) /\ k' = k + 1 /\ UNCHANGED <<proc, net, S, par>>
Spec == Init /\ [][Next]_vars
Done == k = Steps

Normalised == TotalN(mix) = OneN
FixedMix(s, l) == [x \in SubStates(s, l) |-> Rat(BinomsProd(s, x), Binom(SumSeq(s), l))]
ClosedForm == Done =>
    LET want == CASE proc = "keep"   -> Lossy(S, par[1], par[2])
                  [] proc = "remove" -> FixedMix(S, par)
                  [] proc = "place"  -> Spread(n, 1, par, m)
    IN  /\ DOMAIN mix = DOMAIN want
        /\ \A s \in DOMAIN mix : mix[s] = want[s]
\* the binomial number law
NumberLaw == (Done /\ proc = "keep") => \A l \in 0..n :
    SumOverN(mix, { s \in DOMAIN mix : SumSeq(s) = l }) =
      MulN(Int2N(Binom(n, l)), MulN(PowN(Rat(par[1], par[2]), l), PowN(Rat(par[2] - par[1], par[2]), n - l)))
Outs == LossyStateSet(n, m)
Law == [T \in Outs |-> LawP(U, mix, T)]
\* a unitary interferometer keeps total probability, sector by sector
LawNormalised == Done => \A l \in 0..n :
    SumOverN(Law, { T \in Outs : SumSeq(T) = l }) = SumOverN(mix, { s \in DOMAIN mix : SumSeq(s) = l })
\* uniform losses commute with the interferometer
Commute == (Done /\ proc = "keep") =>
    LET late == MixLoss([T \in StateSet(n, m) |-> ExactP(U, S, T)], par[1], par[2])
    IN  \A T \in Outs : Law[T] = IF T \in DOMAIN late THEN late[T] ELSE ZeroN
\* losses compose
Compose == (Done /\ proc = "keep" /\ net = 1) => \A e \in Etas :
    LET two == MixLoss(mix, e[1], e[2])
        one == Lossy(S, par[1] * e[1], par[2] * e[2])
    IN  \A s \in AllSubs(S) : two[s] = one[s]
\* the uniform law is the binomial mixture of the fixed-number laws
BinomialMixture == (Done /\ proc = "keep") => \A T \in Outs :
    LET l == SumSeq(T)
        w == MulN(Int2N(Binom(n, l)), MulN(PowN(Rat(par[1], par[2]), l), PowN(Rat(par[2] - par[1], par[2]), n - l)))
    IN  Law[T] = MulN(w, LawP(U, FixedMix(S, l), T))
Extremes == (Done /\ proc = "keep") =>
    /\ par = <<1, 1>> => \A T \in Outs : Law[T] = ExactP(U, S, T)
    /\ par = <<0, 1>> => \A T \in Outs : Law[T] = IF T = Vac(m) THEN OneN ELSE ZeroN
\* placing one by one is what independent, uniformly phased particles look like: the
\* average over all phases in {1,i,-1,-i} of l particles in the same superposition
\* (sum_j phase_j |j>)/sqrt(c) has the law of the spread mixture (l <= 3)
Phase == <<Num(1, 0), Num(0, 1), Num(-1, 0), Num(0, -1)>>
Dephased == (Done /\ proc = "place" /\ n <= 3 /\ m = 2 /\ S[1] = n) => \A T \in StateSet(n, m) :
    LET amp(e, i) == SumSeqN([j \in 1..par |-> MulN(U.g[i][j], Phase[e[j]])])
        prob(e) == ProdSeqN([i \in 1..m |-> PowN(AbsSqN(amp(e, i)), T[i])])
        all == SetToSeq([1..par -> 1..4])
        avg == FoldLeft(LAMBDA a, e : AddN(a, prob(e)), ZeroN, all)
    IN  Law[T] = DivRealN(MulN(FactN(n), avg),
                          MulN(FactsN(T), MulN(Int2N(Len(all)), PowN(Int2N(par * U.d[1]), n))))
=============================================================================
