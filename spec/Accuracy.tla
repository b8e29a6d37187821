------------------------------ MODULE Accuracy ------------------------------
(***************************************************************************)
(* C23.  Computing the distribution while sampling: whenever the sampler    *)
(* meets a partial sample for the first time it learns the probabilities of *)
(* all its one-particle extensions and writes them into the table.  filled  *)
(* is the table so far.  Every entry is its exact value; what is missing    *)
(* can always still be reached, so under fairness of the random choices the *)
(* table becomes complete and its total reaches every accuracy up to 1.     *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS MaxN
NetOf == <<Had2, Rot2, Id2>>
VARIABLES net, S, met, cur, filled, exact, pos
vars == <<net, S, met, cur, filled, exact, pos>>
U == NetOf[net]
m == Len(S)
n == SumSeq(S)
Eta == <<2, 3>>
FixedMix(l) == [x \in SubStates(S, l) |-> Rat(BinomsProd(S, x), Binom(n, l))]
W(l) == MulN(Int2N(Binom(n, l)), MulN(PowN(Rat(2, 3), l), PowN(Rat(1, 3), n - l)))
LawPmf(r) ==        \* average over sub-inputs of |perm|^2 / (s! t!)
    LET t == SumSeq(r)
        fm == FixedMix(t)
        term(s) == DivRealN(MulN(fm[s], AbsSqN(PermN(U.g, s, r))),
                            MulN(MulN(FactsN(s), FactN(t)), DenN(U.d, s)))
    IN  FoldLeft(LAMBDA a, s : AddN(a, term(s)), ZeroN, SetToSeq(DOMAIN fm))
\* the pmf entry for the next particle at mode i (SamplerA), turned into a probability
Learned(r) ==
    LET t == SumSeq(r)
    IN  MulN(W(t), DivRealN(MulN(FactN(t), LawPmf(r)), FactsN(r)))
Exact(T) == LawP(U, Lossy(S, Eta[1], Eta[2]), T)
Init == /\ net \in 1..Len(NetOf)
        /\ \E nn \in 1..MaxN : S \in StateSet(nn, NetOf[net].m)
        /\ met = {} /\ cur = Vac(Len(S))
        /\ filled = [T \in {Vac(Len(S))} |-> PowN(Rat(1, 3), SumSeq(S))]
        /\ exact = [T \in LossyStateSet(SumSeq(S), Len(S)) |-> Exact(T)]
        /\ pos = { T \in LossyStateSet(SumSeq(S), Len(S)) : ~IsZeroN(exact[T]) }
Ext(r) == { Plus(r, UnitAt(i, m)) : i \in 1..m }
Possible(r) == r \in pos
Meet == /\ cur \notin met /\ SumSeq(cur) < n
        /\ met' = met \cup {cur}
        /\ filled' = [T \in Ext(cur) |-> Learned(T)] @@ filled
        /\ UNCHANGED <<net, S, cur, exact, pos>>
Grow(T) == /\ cur \in met /\ T \in Ext(cur) /\ Possible(T)
           /\ cur' = T /\ UNCHANGED <<net, S, met, filled, exact, pos>>
Restart == /\ (cur \in met \/ SumSeq(cur) = n) /\ cur # Vac(m)
           /\ cur' = Vac(m) /\ UNCHANGED <<net, S, met, filled, exact, pos>>
Next == Meet \/ Restart \/ \E T \in Ext(cur) : Grow(T)
Spec == Init /\ [][Next]_vars /\ WF_vars(Meet) /\ WF_vars(Restart)
        /\ \A T \in UNION { LossyStateSet(MaxN, x) : x \in {2} } : SF_vars(T \in Ext(cur) /\ Grow(T))
ExactOrMissing == \A T \in DOMAIN filled : filled[T] = exact[T]
\* everything with positive probability is eventually there
Complete == pos \subseteq DOMAIN filled
CompleteSum == Complete => SumOverN(filled, DOMAIN filled) = OneN
Eventually == <>Complete
=============================================================================
