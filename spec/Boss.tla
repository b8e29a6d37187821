-------------------------------- MODULE Boss --------------------------------
(***************************************************************************)
(* The abstract behaviour of theboss: which objects exist, what they are    *)
(* currently configured with, and what every public operation must return   *)
(* in that configuration.  An object is a record; the only state that any   *)
(* later result may depend on is the state written here.  In particular no  *)
(* object remembers earlier computations (that is the content of C02, C18,  *)
(* C20, C25).                                                               *)
(*                                                                          *)
(* Matrices are referred to by their number in Mats (1, 2, ...).            *)
(***************************************************************************)
EXTENDS Optics

CONSTANT RawMats        \* <<[g |-> <<<<re, im>>...>>, d |-> <<...>>], ...>>

\* A large matrix ("p" present) has no Gram defect computed: it is used for permanents only, or it
\* is a permutation with phases, which is recognised as unitary in quadratic time.
Permuting(r) ==
    LET m == Len(r.d)
        rows(j) == { i \in 1..m : r.g[i][j] # <<0, 0>> }
        at == TLCEval([j \in 1..m |-> rows(j)])
    IN  /\ \A j \in 1..m : Cardinality(at[j]) = 1
        /\ UNION { at[j] : j \in 1..m } = 1..m
        /\ \A j \in 1..m : \A i \in at[j] : r.g[i][j][1] * r.g[i][j][1] + r.g[i][j][2] * r.g[i][j][2] = r.d[j]
MkMat(r) ==
    IF "p" \in DOMAIN r
    THEN [g |-> MatN(r.g), d |-> r.d, k |-> <<>>, unitary |-> Permuting(r)]
    ELSE LET b == [g |-> MatN(r.g), d |-> r.d]
             k == Defect(b)
         IN  [g |-> b.g, d |-> b.d, k |-> k,
              unitary |-> \A i, j \in 1..Len(r.d) : IsZeroN(k[i][j])]
\* Evaluated once, by an assumption of the trace specification, and kept in TLC's register 1
\* (TLC evaluates a definition of this kind again at every use).
MkMats == TLCEval([i \in 1..Len(RawMats) |-> TLCEval(MkMat(RawMats[i]))])
Mats == TLCGet(1)
Modes(i) == Len(RawMats[i].d)

(*------------------------- permanent calculators --------------------------*)
PermKinds == {"classic", "glynn", "chinhuh", "ryser"}
SubKinds  == {"cch", "ccryser"}
\* The value a calculator with this configuration returns, scaled by
\* sqrt(prod d_j^{S_j}) so that it is a Gaussian integer.
PermValue(c) == PermN(Mats[c.mat].g, c.inp, c.out)
\* One value per mode, scaled by sqrt(prod d_j^{(S - e_i)_j}).
SubPermValue(c, i) ==
    IF c.inp[i] = 0 THEN ZeroN
    ELSE PermN(Mats[c.mat].g, Minus(c.inp, UnitAt(i, Len(c.inp))), c.out)
ScatValue(c) ==
    IF SumSeq(c.inp) = 0 \/ SumSeq(c.out) = 0 THEN <<>>
    ELSE Scattering(RawMats[c.mat].g, c.inp, c.out)

(*------------------------------ laws --------------------------------------*)
(* The mixture of Fock states that effectively enters the interferometer.   *)
FirstPart(S, a) == [j \in 1..Len(S) |-> IF j <= a THEN S[j] ELSE 0]
RestPart(S, a)  == [j \in 1..Len(S) |-> IF j <= a THEN 0 ELSE S[j]]
Clamp(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
SpreadRest(S, a) ==        \* particles of the first a modes spread over these modes
    MixPlus(Spread(SumSeq(FirstPart(S, a)), 1, a, Len(S)), Pure(RestPart(S, a)))
BinMix(n, a, b, F(_)) ==   \* binomial mixture over l of the mixtures F(l), disjoint keys
    LET w(l) == MulN(Int2N(Binom(n, l)), MulN(PowN(Rat(a, b), l), PowN(Rat(b - a, b), n - l)))
        keys == UNION { DOMAIN F(l) : l \in 0..n }
    IN  [s \in keys |-> MulN(w(SumSeq(s)), F(SumSeq(s))[s])]

Lossless == {"gcc", "gccma", "gccb"}
Mixture(st, S) ==
    CASE st.kind \in Lossless \cup {"lnet"}  -> Pure(S)
      [] st.kind \in {"gccu", "gccbu"}       -> Lossy(S, st.eta[1], st.eta[2])
      [] st.kind = "nonu"  -> SpreadRest(S, Clamp(st.a, 0, Len(S)))
      [] st.kind = "fixed" -> Spread(st.l, 1, SumSeq(S), Len(S))
      [] st.kind = "usep"  -> BinMix(SumSeq(S), st.eta[1], st.eta[2],
                                     LAMBDA l : Spread(l, 1, SumSeq(S), Len(S)))
      [] st.kind = "lstate" ->       \* only claimed where no or every mode is treated exactly
            IF st.level = 0
            THEN BinMix(SumSeq(S), st.eta[1], st.eta[2], LAMBDA l : Spread(l, 1, Len(S), Len(S)))
            ELSE Lossy(S, st.eta[1], st.eta[2])
OutcomeSet(S) == LossyStateSet(SumSeq(S), Len(S))
\* The exact law of one sample, as a function from outcomes to numbers.
LawOf(st, S) ==
    LET mix == TLCEval(Mixture(st, S))
        U == Mats[st.mat]
    IN  [T \in OutcomeSet(S) |-> LawP(U, mix, T)]

\* Law of the particle number alone, where only that is claimed.
NumberLaw(S, a, b, t) ==
    MulN(Int2N(Binom(SumSeq(S), t)),
         MulN(PowN(Rat(a, b), t), PowN(Rat(b - a, b), SumSeq(S) - t)))

\* How many particles a sample may have.
ParticlesOK(st, S, t) ==
    CASE st.kind \in Lossless -> t = SumSeq(S)
      [] st.kind = "fixed" -> IF Mats[st.mat].unitary THEN t = st.l ELSE t <= st.l
      [] OTHER -> t <= SumSeq(S)

(*------------------------ exact distributions -----------------------------*)
\* Fixed number l of particles left, uniformly chosen.
FixedMix(S, l) ==
    [s \in SubStates(S, l) |-> Rat(BinomsProd(S, s), Binom(SumSeq(S), l))]
FixedP(U, S, l, T) ==
    IF SumSeq(T) # l THEN ZeroN ELSE LawP(U, FixedMix(S, l), T)
UniformP(U, S, a, b, T) == LawP(U, Lossy(S, a, b), T)
SectorP(U, S, T) == FixedP(U, S, SumSeq(T), T)         \* weights switched off
=============================================================================
