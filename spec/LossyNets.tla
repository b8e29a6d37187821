----------------------------- MODULE LossyNets ------------------------------
(***************************************************************************)
(* The law of a lossy interferometer (C13, C19).  The machine moves through *)
(* the loss outcomes of a dilation one at a time and accumulates their      *)
(* probability; the sum is the dilation-free law NetP used by the trace     *)
(* specification.                                                           *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS MaxN

\* unitaries whose leading blocks are the lossy networks
Big == <<Cplx3, Hous3,
         TLCEval(Net(<< <<R(1), R(-1), R(-1), I(1)>>, <<R(-1), R(1), R(-1), I(1)>>,
                        <<R(-1), R(-1), R(1), I(1)>>, <<I(-1), I(-1), I(-1), R(1)>> >>, <<4, 4, 4, 4>>))>>
Sub(V, c) == LET b == [g |-> [i \in 1..c |-> [j \in 1..c |-> V.g[i][j]]], d |-> [j \in 1..c |-> V.d[j]]]
             IN  [g |-> b.g, d |-> b.d, k |-> Defect(b)]
ASSUME \A i \in 1..Len(Big) : Big[i].unitary

VARIABLES v, c, S, T, left, acc
vars == <<v, c, S, T, left, acc>>
m == Big[v].m
Init == /\ v \in 1..Len(Big)
        /\ c \in (Big[v].m - 2)..Big[v].m /\ c >= 1
        /\ \E nn \in 0..MaxN : /\ S \in StateSet(nn, c)
                               /\ T \in LossyStateSet(nn, c)
        /\ left = IF c = Big[v].m THEN (IF SumSeq(S) = SumSeq(T) THEN {<<>>} ELSE {})
                  ELSE StateSet(SumSeq(S) - SumSeq(T), Big[v].m - c)
        /\ acc = ZeroN
Observe == /\ left # {}
           /\ LET w == CHOOSE w \in left : TRUE
              IN  /\ left' = left \ {w}
                  /\ acc' = AddN(acc, ExactP(Big[v], S \o [j \in 1..(m - c) |-> 0], T \o w))
           /\ UNCHANGED <<v, c, S, T>>
Spec == Init /\ [][Observe]_vars
DilationFree == left = {} => acc = NetP(Sub(Big[v], c), S, T)
LawSumsToOne == (left = {} /\ SumSeq(T) = 0) =>
    SumSeqN([i \in 1..Len(LossyLexStates(SumSeq(S), c)) |->
               NetP(Sub(Big[v], c), S, LossyLexStates(SumSeq(S), c)[i])]) = OneN
\* column losses: losing particles mode by mode before a unitary
ColumnLosses == (v = 2 /\ c = 3 /\ left = {}) =>
    LET keep(j) == Rat(9, Col3.d[j])
        lose(j) == SubN(OneN, keep(j))
        w(s) == ProdSeqN([j \in 1..3 |-> MulN(Int2N(Binom(S[j], s[j])),
                             MulN(PowN(keep(j), s[j]), PowN(lose(j), S[j] - s[j])))])
    IN  NetP(Col3, S, T) = SumOverN([s \in SubStates(S, SumSeq(T)) |-> MulN(w(s), ExactP(Hous3, s, T))],
                                    SubStates(S, SumSeq(T)))
ScaledUnitary == (v = 1 /\ c = 3 /\ left = {}) => NetP(Half3, S, T) = LawP(Cplx3, Lossy(S, 1, 4), T)
=============================================================================
