----------------------------- MODULE BossTrace -----------------------------
(***************************************************************************)
(* Binds Boss to executions of the real code.  A run of the harness is a    *)
(* set of sessions; a session is a sequence of events, one per public call, *)
(* logged when the call returned (or raised).  Every session is stepped     *)
(* through the state machine below.  The verdict is total: an event that    *)
(* the specification does not allow is reported by name                     *)
(*     <<"BAD", session, position, {clauses}>>                              *)
(* and the session goes on from the state the specification prescribes, so  *)
(* the rest of the trace is checked too.                                    *)
(***************************************************************************)
EXTENDS Boss, Counts, Json, IOUtils

Input == JsonDeserialize(IOEnv.BOSS_TRACE)
TraceMats == Input.mats
Sessions == Input.sessions          \* <<<<event, ...>>, ...>>

ASSUME TLCSet(1, MkMats)

VARIABLES s,      \* session number
          l,      \* events consumed
          objs    \* object name -> record

vars == <<s, l, objs>>

(*------------------------------ helpers -----------------------------------*)
Tol == 1000           \* deviations are logged in units of 1e-12: 1e-9
If(c, name) == IF c THEN {} ELSE {name}
SeqEqBag(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)   \* a without duplicates
NoDup(a) == Cardinality(ToSet(a)) = Len(a)
Get(e, f, dflt) == IF f \in DOMAIN e THEN e[f] ELSE dflt
\* exact comparison of a logged integer with the specified value times D
Same(num, N, D) == MulN(num, Int2N(D)) = Int2N(N)

\* Chinese remaindering: the integer 0 <= x < P1*P2 with these residues.
Crt(x) == LET t == (((x[3] - x[1]) % P2) * InvMod(P1, P2)) % P2
          IN  x[1] + P1 * t
RECURSIVE MulDivAcc(_, _, _)
\* floor(x*y/z) for x <= z, y < 2^31/2, z < 2^31/3: binary long multiplication
MulDivAcc(x, y, z) ==
    IF y = 0 THEN <<0, 0>>
    ELSE LET h == MulDivAcc(x, y \div 2, z)      \* <<quotient, remainder>>
             r2 == 2 * h[2] + (IF y % 2 = 1 THEN x ELSE 0)   \* < 3z
         IN  << 2 * h[1] + (r2 \div z), r2 % z >>
MulDiv(x, y, z) == MulDivAcc(x, y, z)[1]
Abs(x) == IF x < 0 THEN -x ELSE x

(*------------------------- verdicts on samples ----------------------------*)
\* law of k samples of one call, enumerated exactly
EnumVerdict(st, S, r) ==
    LET law == TLCEval(LawOf(st, S))
        outs == OutcomeSet(S)
        got == [i \in 1..Len(r.law) |-> r.law[i][1]]
        keys == ToSet(got)
        num(x) == LET i == CHOOSE i \in 1..Len(got) : got[i] = x IN r.law[i][2]
        prob(x) == ProdSeqN([i \in 1..r.k |-> law[x[i]]])
        inDom(x) == Len(x) = r.k /\ \A i \in 1..Len(x) : x[i] \in outs
        all == IF r.k = 1 THEN { <<T>> : T \in outs }
               ELSE IF r.k = 2 THEN { <<T, V>> : T \in outs, V \in outs }
               ELSE [1..r.k -> outs]
    IN  If(\A x \in keys : inDom(x), "malformed-or-impossible-sample")
        \cup If(r.dev <= Tol, "not-a-probability-of-this-law")
        \cup If(\A x \in keys : inDom(x) => Same(prob(x), num(x), r.D), "wrong-probability")
        \cup If(\A x \in all \ keys : IsZeroN(prob(x)), "possible-outcome-never-sampled")

\* many modes or particles: the listed outcomes have the right probabilities and these add up to one,
\* so that nothing else is possible
SparseVerdict(st, S, r) ==
    LET mix == TLCEval(Mixture(st, S))
        U == Mats[st.mat]
        idx == 1..Len(r.law)
        ok(T) == Len(T) = Len(S) /\ (\A j \in 1..Len(T) : T[j] >= 0) /\ SumSeq(T) <= SumSeq(S)
        good(i) == Len(r.law[i][1]) = 1 /\ ok(r.law[i][1][1])
    IN  If(\A i \in idx : good(i), "malformed-or-impossible-sample")
        \cup If(r.dev <= Tol, "not-a-probability-of-this-law")
        \cup If(\A i \in idx : good(i) => Same(LawP(U, mix, r.law[i][1][1]), r.law[i][2], r.D), "wrong-probability")
        \cup If(Cardinality({ r.law[i][1] : i \in idx }) = Len(r.law)
                /\ SumSeq([i \in idx |-> r.law[i][2]]) = r.D, "possible-outcome-never-sampled")

\* the same for the strategy whose law is only claimed at the exact level
NumberVerdict(st, S, r) ==       \* outcomes are logged as <<particle number>>
    LET n == SumSeq(S)
        idx == 1..Len(r.law)
        good(i) == Len(r.law[i][1]) = 1 /\ r.law[i][1][1] \in { <<c>> : c \in 0..n }
        num(c) == SumSeq([i \in idx |-> IF r.law[i][1] = << <<c>> >> THEN r.law[i][2] ELSE 0])
    IN  If(\A i \in idx : good(i), "malformed-or-impossible-sample")
        \cup If(r.dev <= Tol, "not-a-probability-of-this-law")
        \cup If(\A c \in 0..n : Same(NumberLaw(S, st.eta[1], st.eta[2], c), num(c), r.D),
                "wrong-particle-number-law")
Perms(m) == { f \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => f[i] # f[j] }
ColPermuted(U, f) == [U EXCEPT !.g = [i \in 1..Len(U.g) |-> [j \in 1..Len(f) |-> U.g[i][f[j]]]],
                               !.d = [j \in 1..Len(f) |-> U.d[f[j]]]]
AvgPermLaw(st, S) ==       \* named deviation: columns permuted, input not
    LET mix == TLCEval(Mixture(st, S))
        ps == SetToSeq(Perms(Len(S)))
        U == Mats[st.mat]
    IN  [T \in OutcomeSet(S) |->
           ScaleN(FoldLeft(LAMBDA a, f : AddN(a, LawP(ColPermuted(U, f), mix, T)), ZeroN, ps),
                  1, Len(ps))]
LStateVerdict(st, S, r) ==
    IF st.level = 0 THEN EnumVerdict(st, S, r)
    ELSE IF st.level < Len(S) THEN NumberVerdict(st, S, r)
    ELSE LET v == EnumVerdict(st, S, r)
         IN  IF v = {} THEN {}
             ELSE LET alt == TLCEval(AvgPermLaw(st, S))
                      got == { r.law[i][1] : i \in 1..Len(r.law) }
                      num(x) == LET i == CHOOSE i \in 1..Len(r.law) : r.law[i][1] = x IN r.law[i][2]
                      outs == OutcomeSet(S)
                      all == IF r.k = 1 THEN { <<T>> : T \in outs }
                             ELSE IF r.k = 2 THEN { <<T, V>> : T \in outs, V \in outs }
                             ELSE [1..r.k -> outs]
                  IN  IF /\ \A x \in got : Len(x) = r.k /\ \A i \in 1..Len(x) : x[i] \in outs
                         /\ r.dev <= Tol
                         /\ \A x \in all :
                               Same(ProdSeqN([i \in 1..r.k |-> alt[x[i]]]), IF x \in got THEN num(x) ELSE 0, r.D)
                      THEN {"KF-permuted-columns"}
                      ELSE v

\* concrete samples: only what holds of every sample
SampleOK(st, S, T) ==
    /\ Len(T) = Len(S)
    /\ \A j \in 1..Len(T) : T[j] >= 0
    /\ ParticlesOK(st, S, SumSeq(T))
\* no stretch of w samples occurs twice: w is so long that this has probability below 1e-12
NoRepeats(list, w) ==
    LET n == Len(list) - w + 1
    IN  w = 0 \/ n <= 1 \/ Cardinality({ SubSeq(list, i, i + w - 1) : i \in 1..n }) = n
SamplesVerdict(st, S, r) ==
    If(Len(r.list) = r.k, "wrong-number-of-samples")
    \cup If(NoRepeats(r.list, Get(r, "w", 0)), "samples-repeated")
    \cup If(\A T \in ToSet(r.list) : SampleOK(st, S, T), "malformed-or-impossible-sample")

\* samples at a distance of lag: as often alike as independent ones.  The pairs counted do not
\* overlap; with N pairs the number of alike ones differs from its mean by more than 3.5 sqrt N with
\* probability below 1e-10
LagVerdict(st, S, r) ==
    LET law == TLCEval(LawOf(st, S))
        q == TLCEval([T \in OutcomeSet(S) |-> MulDiv(Crt(MulN(law[T], Int2N(r.D))), 20000, r.D)])
        ts == SetToSeq(OutcomeSet(S))
        c == SumSeq([i \in 1..Len(ts) |-> q[ts[i]] * q[ts[i]]])         \* of 20000^2
        last == Len(r.list) - r.lag
        rest == last % (2 * r.lag)
        N == ((((last \div (2 * r.lag)) * r.lag + (IF rest < r.lag THEN rest ELSE r.lag)) \div 500)) * 500
        first(i) == ((i - 1) \div r.lag) * 2 * r.lag + ((i - 1) % r.lag) + 1
        M == Cardinality({ i \in 1..N : r.list[first(i)] = r.list[first(i) + r.lag] })
        x == Abs(M - MulDiv(c, N, 400000000)) - 3
    IN  If(NoRepeats(r.list, r.w), "samples-repeated")
        \cup (IF r.lag = 0 THEN {}
              ELSE IF N = 0 THEN {}
              ELSE If(x <= 0 \/ 4 * x * x <= 49 * N, "samples-correlated"))

\* ns samples counted: total variation distance below the bound that a correct
\* sampler exceeds with probability below 1e-10
StatOK(cnt, ns, law, D, nout) ==
    LET expd(T) == MulDiv(Crt(MulN(law[T], Int2N(D))), ns, D)
        x == SumSeq([i \in 1..Len(cnt) |-> Abs(cnt[i][2] - expd(cnt[i][1]))])
             + ns - SumSeq([i \in 1..Len(cnt) |-> expd(cnt[i][1])])
    IN  (x - 2 * nout) * (x - 2 * nout) <= (ns \div 500) * (nout * 694 + 23030)
        \/ x <= 2 * nout
StatVerdict(st, S, r) ==
    LET law1 == TLCEval(IF st.kind = "lstate" /\ r.alt = 1 THEN AvgPermLaw(st, S) ELSE LawOf(st, S))
        outs == IF r.k = 1 THEN { <<T>> : T \in OutcomeSet(S) }
                ELSE IF r.k = 2 THEN { <<T, V>> : T \in OutcomeSet(S), V \in OutcomeSet(S) }
                ELSE [1..r.k -> OutcomeSet(S)]
        law == TLCEval([x \in outs |-> ProdSeqN([i \in 1..r.k |-> law1[x[i]]])])
        wellformed == \A i \in 1..Len(r.cnt) : r.cnt[i][1] \in outs
    IN  If(wellformed, "malformed-or-impossible-sample")
        \cup (IF wellformed
              THEN If(\A i \in 1..Len(r.cnt) : ~IsZeroN(law[r.cnt[i][1]]), "sample-of-probability-zero")
                   \cup If(SumSeq([i \in 1..Len(r.cnt) |-> r.cnt[i][2]]) = r.ns, "wrong-number-of-samples")
                   \cup If(StatOK(r.cnt, r.ns, law, r.D, Cardinality(outs)), "wrong-law-statistically")
              ELSE {})
SparseStatVerdict(st, S, r) ==
    LET mix == TLCEval(Mixture(st, S))
        idx == 1..Len(r.cnt)
        good(i) == LET x == r.cnt[i][1] IN
            /\ Len(x) = 1 /\ Len(x[1]) = Len(S)
            /\ (\A j \in 1..Len(S) : x[1][j] >= 0) /\ SumSeq(x[1]) <= SumSeq(S)
        ok == \A i \in idx : good(i)
        law == TLCEval([x \in { r.cnt[i][1] : i \in idx } |-> LawP(Mats[st.mat], mix, x[1])])
    IN  IF ~ok THEN {"malformed-or-impossible-sample"}
        ELSE If(\A x \in DOMAIN law : ~IsZeroN(law[x]), "sample-of-probability-zero")
             \cup If(SumSeq([i \in idx |-> r.cnt[i][2]]) = r.ns, "wrong-number-of-samples")
             \cup If(StatOK(r.cnt, r.ns, law, r.D, Binom(SumSeq(S) + Len(S), Len(S))), "wrong-law-statistically")
\* only the particle number counted
StatNumberVerdict(st, S, r) ==
    LET n == SumSeq(S)
        law == [T \in {<<c>> : c \in 0..n} |-> NumberLaw(S, st.eta[1], st.eta[2], T[1])]
        ok == \A i \in 1..Len(r.cnt) : r.cnt[i][1] \in DOMAIN law
    IN  If(ok, "malformed-or-impossible-sample")
        \cup (IF ok THEN If(StatOK(r.cnt, r.ns, law, r.D, n + 1), "wrong-law-statistically") ELSE {})

SimVerdict(st, e) ==
    CASE e.r.mode = "enum"    -> IF st.kind = "lstate" THEN LStateVerdict(st, e.S, e.r)
                                 ELSE EnumVerdict(st, e.S, e.r)
      [] e.r.mode = "sparse"  -> SparseVerdict(st, e.S, e.r)
      [] e.r.mode = "samples" -> SamplesVerdict(st, e.S, e.r)
      [] e.r.mode = "stat"    -> StatVerdict(st, e.S, e.r)
      [] e.r.mode = "sparsestat" -> SparseStatVerdict(st, e.S, e.r)
      [] e.r.mode = "lag"     -> LagVerdict(st, e.S, e.r)
      [] e.r.mode = "statnum" -> StatNumberVerdict(st, e.S, e.r)

(*---------------------- verdicts on calculators ---------------------------*)
LinTol == 100          \* in units of 1e-9 of a Gaussian integer: linear operations
PermTol(n) == IF n <= 3 THEN 30 ELSE 2000000     \* permanents of n particles
CompVerdict(c, e) ==
    IF c.kind \in PermKinds
    THEN If(e.dev <= PermTol(SumSeq(c.inp)) /\ Num(e.re, e.im) = PermValue(c), "wrong-permanent")
    ELSE IF c.kind \in SubKinds
    THEN If(Len(e.vals) = Len(c.inp), "wrong-number-of-permanents")
         \cup If(\A i \in 1..Len(c.inp) : i <= Len(e.vals) =>
                    Num(e.vals[i][1], e.vals[i][2]) = SubPermValue(c, i)
                    /\ e.dev <= PermTol(SumSeq(c.inp)),
                 "wrong-submatrix-permanent")
    ELSE LET exp == ScatValue(c)
         IN  If(e.rows = exp, "wrong-scattering-matrix")

(*---------------------- verdicts on distributions -------------------------*)
DistP(c, T) ==
    IF c.kind = "dfixed" THEN FixedP(Mats[c.mat], c.S, c.l, T)
    ELSE IF c.weightless THEN SectorP(Mats[c.mat], c.S, T)
    ELSE UniformP(Mats[c.mat], c.S, c.eta[1], c.eta[2], T)
DistOutcomes(c) == IF c.kind = "dfixed" THEN StateSet(c.l, Len(c.S))
                   ELSE LossyStateSet(SumSeq(c.S), Len(c.S))
ProbsVerdict(c, e) ==        \* probabilities of the outcomes e.outs, in that order
    If(Len(e.N) = Len(e.outs), "wrong-number-of-probabilities")
    \cup If(e.dev <= Tol, "not-a-probability-of-this-law")
    \cup If(\A i \in 1..Len(e.N) : e.N[i] >= 0, "negative-probability")
    \cup If(\A i \in 1..Len(e.N) : i <= Len(e.outs) => Same(DistP(c, e.outs[i]), e.N[i], e.D),
            "wrong-probability")
DistVerdict(c, e) ==         \* the whole distribution, e.outs as reported by the object
    ProbsVerdict(c, e)
    \cup If(NoDup(e.outs) /\ ToSet(e.outs) = DistOutcomes(c), "wrong-outcomes")
    \cup (IF c.kind = "duni" /\ c.weightless THEN {}
          ELSE If(SumSeq(e.N) = e.D, "does-not-sum-to-one"))

(*---------------------------- pure functions ------------------------------*)
ProdMod(f, p) == FoldLeft(LAMBDA a, x : (a * (x % p)) % p, 1, f)
IsPrime(x) == /\ x > 1
              /\ LET top == IF x < 10000 THEN 100 ELSE IF x < 1000000 THEN 1000 ELSE 46340
                 IN  \A k \in 2..top : k * k > x \/ x % k # 0
ResEq(res, f(_)) == \A i \in 1..Len(Primes) : res[i] = f(Primes[i])

FnVerdict(e) ==
    CASE e.op = "states" ->
           LET exp == IF e.n < 0 \/ e.m < 1 THEN <<>>
                      ELSE IF e.losses = 1 THEN LossyLexStates(e.n, e.m) ELSE LexStates(e.n, e.m)
           IN  If(e.res = exp, "wrong-states")
      [] e.op = "dim" ->
           IF e.losses = 1 THEN If(ResEq(e.res, LAMBDA p : LossyDimMod(e.n, e.m, p)), "wrong-dimension")
           ELSE If(ResEq(e.res, LAMBDA p : DimMod(e.n, e.m, p)), "wrong-dimension")
      [] e.op = "toassign" ->
           If([i \in 1..Len(e.res) |-> e.res[i] + 1] = Assign(e.S), "wrong-assignment")
      [] e.op = "toocc" ->
           LET a == [i \in 1..Len(e.a) |-> e.a[i] + 1]
               top == IF e.m > 0 THEN e.m ELSE CHOOSE x \in ToSet(a) : \A y \in ToSet(a) : y <= x
           IN  If(e.res = Occ(a, top), "wrong-occupation")
      [] e.op = "lossyin" ->
           If(NoDup(e.res), "duplicate-sub-state")
           \cup If(ToSet(e.res) = SubStates(e.S, e.k), "wrong-sub-states")
      [] e.op = "lossyinall" ->         \* e.cnt[k+1]: sum of binomial products for k left
           If(\A k \in 0..SumSeq(e.S) : e.cnt[k + 1] = Binom(SumSeq(e.S), k), "subsets-not-counted-once")
      [] e.op = "types" ->
           LET exp == IF e.losses = 1 THEN LossyTypeSet(e.n, e.m) ELSE TypeSet(e.n, e.m)
           IN  If(NoDup(e.res), "duplicate-type")
               \cup If(ToSet(e.res) = exp, "wrong-types")
               \cup If(e.count = Cardinality(exp), "wrong-number-of-types")
      [] e.op = "ntypes" ->
           LET exp == IF e.losses = 1 THEN SumSeq([i \in 1..(e.n + 1) |-> NumTypes(i - 1, e.m)])
                      ELSE NumTypes(e.n, e.m)
           IN  If(e.count = exp, "wrong-number-of-types")
      [] e.op = "kpart" -> If(e.res = PartTab(e.k, e.n), "wrong-number-of-partitions")
      [] e.op = "nstates" ->
           If(ResEq(e.res, LAMBDA p : MultMod(e.t, p)), "wrong-number-of-states-of-type")
      [] e.op = "typesum" ->            \* sum over generated types of their state counts
           If(ResEq(e.res, LAMBDA p : IF e.losses = 1 THEN LossyDimMod(e.n, e.m, p) ELSE DimMod(e.n, e.m, p)),
              "types-do-not-add-up-to-dimension")
      [] e.op = "tvd" ->                \* p, q: numerators over D; N: result * 2D
           LET x == SumSeq([i \in 1..Len(e.p) |-> Abs(e.p[i] - e.q[i])])
           IN  If(e.N = x /\ e.dev <= Tol, "wrong-distance")
      [] e.op = "tri" ->                \* distances (times 2D) between three distributions
           If(e.ab <= e.ac + e.cb, "triangle-inequality")
           \cup If(e.ab = e.ba, "asymmetric")
           \cup If(e.aa = 0, "not-zero-on-equal")
           \cup If(e.ab <= 2 * e.D, "above-one")
           \cup If((e.ab = 0) = (e.same = 1), "zero-only-for-equal")
      [] e.op = "mdist" ->              \* Frobenius distance, squared and scaled
           LET m == Len(e.A)
               sq(x) == x * x
           IN  If(e.N = SumSeq([i \in 1..m |-> SumSeq([j \in 1..m |->
                          sq(e.A[i][j][1] - e.B[i][j][1]) + sq(e.A[i][j][2] - e.B[i][j][2])])]),
                  "wrong-distance")
      [] e.op = "bound" ->              \* X = result^2 * 2 * samples * 1e6
           If(Abs(e.X - (e.k * 693147 + e.lnerr)) <= e.k + 3, "wrong-bound")
      [] e.op = "minsamples" ->
           \* x6 = 1e6 * (k ln 2 + ln 1/err) * q^2 / 2, N = floor(x) + 1
           LET x6 == ((e.k * 693147 + e.lnerr) * e.q2) \div 2
               lo == (e.N - 1) * 1000000
           IN  If(x6 >= lo - e.slack /\ x6 <= lo + 1000000 + e.slack, "wrong-number-of-samples")
      [] e.op = "primes" ->
           If(\A i \in 1..Len(e.f) : IsPrime(e.f[i]), "factor-not-prime")
           \cup If(\A i \in 1..Len(Primes) : ProdMod(e.f, Primes[i]) = e.res[i], "wrong-product")
      [] e.op = "qft" ->                \* E[j][k]: exponent of the n-th root of unity, -1 for 0
           LET exp == [j \in 1..e.all |-> [k \in 1..e.all |->
                         IF j <= e.m /\ k <= e.m THEN ((j - 1) * (k - 1)) % e.m
                         ELSE IF j = k THEN 0 ELSE 0 - 1]]
           IN  If(e.E = exp, "wrong-fourier-matrix") \cup If(e.dev <= Tol, "wrong-modulus")
      [] e.op = "phaselaw" ->           \* law of the diagonal, as grid indices; -1: exactly 1
           LET exp == { [j \in 1..e.all |-> IF j <= e.m THEN v[j] ELSE 0 - 1]
                          : v \in [1..e.m -> 0..(e.q - 1)] }
               got == { e.law[i][1] : i \in 1..Len(e.law) }
           IN  If(e.offdiag = 0, "not-diagonal")
               \cup If(e.dev <= Tol, "not-a-unit-phase")
               \cup If(got = exp /\ Len(e.law) = Cardinality(exp), "wrong-phases")
               \cup If(\A i \in 1..Len(e.law) : e.law[i][2] = 1 /\ e.D = Cardinality(exp), "phases-not-uniform")
      [] e.op = "phasestat" ->          \* quadrant counts
           LET nout == Cardinality([1..e.m -> 0..3])
               law == [T \in [1..e.m -> 0..3] |-> Rat(1, nout)]
           IN  If(e.offdiag = 0 /\ e.dev <= Tol /\ e.rest = 1, "not-a-phase-matrix")
               \cup (IF \A i \in 1..Len(e.cnt) : e.cnt[i][1] \in DOMAIN law
                     THEN If(StatOK(e.cnt, e.ns, law, nout, nout), "phases-not-uniform")
                     ELSE {"phases-not-uniform"})
      [] e.op = "expand" ->             \* W: 2m x 2m, entries times 10^4, as <<re, im>>
           LET m == Modes(e.mat)
               k == 2 * m
               W == e.W
               re(i, j) == SumSeq([x \in 1..k |-> W[x][i][1] * W[x][j][1] + W[x][i][2] * W[x][j][2]])
               im(i, j) == SumSeq([x \in 1..k |-> W[x][i][1] * W[x][j][2] - W[x][i][2] * W[x][j][1]])
               one == 100000000
               slack == 30000 * k
           IN  IF ~(Len(W) = k /\ \A i \in 1..k : Len(W[i]) = k) THEN {"wrong-size"}
               ELSE If(\A i, j \in 1..k : (k > 16 /\ Abs(i - j) > 1) \/   \* large: neighbouring columns (udev: all)
                                          /\ Abs(re(i, j) - IF i = j THEN one ELSE 0) <= slack
                                          /\ Abs(im(i, j)) <= slack, "not-unitary")
                    \cup If(e.udev <= Tol, "not-unitary")
                    \cup If(e.block = RawMats[e.mat].g /\ e.dev <= LinTol, "wrong-upper-left-block")
      [] e.op = "transm" ->             \* sums of powers of the transmissivities
           LET M == Mats[e.mat]
               m == Modes(e.mat)
               inv == TLCEval([j \in 1..m |-> InvRealN(Int2N(M.d[j]))])
               gram == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |->      \* (D - K)/d_j: similar to M^+ M
                          MulN(SubN(IF i = j THEN Int2N(M.d[i]) ELSE ZeroN, M.k[i][j]), inv[j])])])
               mul(A, B) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |->
                               SumSeqN([x \in 1..m |-> MulN(A[i][x], B[x][j])])])])
               tr(A) == SumSeqN([i \in 1..m |-> A[i][i]])
               \* acc = <<gram, power, traces>>: carried as values, LET would be re-evaluated
               grow(acc, x) == LET p == acc[2]
                                   g == acc[1]
                               IN  FoldLeft(LAMBDA a, B : << a[1], B, Append(a[3], tr(B)) >>,
                                            acc, << mul(p, g) >>)
               traces == FoldLeft(grow, FoldLeft(LAMBDA a, G : << G, G, <<tr(G)>> >>, <<>>, <<gram>>),
                                  Idx(Len(e.N) - 1))[3]
           IN  If(e.count = m, "wrong-number-of-transmissivities")
               \cup If(\A x \in 1..Len(e.N) : Same(traces[x], e.N[x], e.D[x]) /\ e.dev <= Tol,
                       "wrong-transmissivities")
      [] e.op = "evolve" ->             \* res = (M v) * L where L = lcm of sqrt(d)
           LET M == RawMats[e.mat]
               m == Modes(e.mat)
               c(i, j) == << M.g[i][j][1] * e.v[j][1] - M.g[i][j][2] * e.v[j][2],
                             M.g[i][j][1] * e.v[j][2] + M.g[i][j][2] * e.v[j][1] >>
               exp == [i \in 1..m |-> << SumSeq([j \in 1..m |-> c(i, j)[1] * (e.L \div e.rt[j])]),
                                         SumSeq([j \in 1..m |-> c(i, j)[2] * (e.L \div e.rt[j])]) >>]
           IN  If(\A j \in 1..m : e.rt[j] * e.rt[j] = M.d[j], "harness-error")
               \cup If(e.res = exp /\ e.dev <= LinTol, "wrong-evolution")
      [] e.op = "acc" ->                \* distribution up to accuracy
           LET U == Mats[e.mat]
               outs == LossyLexStates(SumSeq(e.S), Len(e.S))
               n == SumSeq(e.S)
               ref(T) == IF e.weighted = 1 THEN UniformP(U, e.S, e.eta[1], e.eta[2], T)
                         ELSE IF SumSeq(T) = 0 THEN ZeroN ELSE SectorP(U, e.S, T)
               unit == IF e.weighted = 1 THEN 1 ELSE n
           IN  If(Len(e.N) = Len(outs), "wrong-length")
               \cup If(e.dev <= Tol, "not-a-probability-of-this-law")
               \cup If(\A i \in 1..Len(e.N) : i <= Len(outs) =>
                          (e.N[i] = 0 \/ Same(ref(outs[i]), e.N[i], e.D)), "entry-neither-zero-nor-exact")
               \cup If(SumSeq(e.N) * e.acc[2] >= e.acc[1] * e.D * unit - 1, "accuracy-not-reached")
               \cup (IF e.acc[1] = e.acc[2]
                     THEN If(\A i \in 1..Len(e.N) : i <= Len(outs) => Same(ref(outs[i]), e.N[i], e.D),
                             "incomplete-at-full-accuracy")
                     ELSE {})
      [] e.op = "est" ->                \* sample based estimate
           LET cnt(T) == Cardinality({ i \in 1..Len(e.samples) : e.samples[i] = T })
           IN  If(e.asked = e.ns, "wrong-number-of-samples-drawn")
               \cup If(e.input = e.S, "wrong-input-state")
               \cup If(Len(e.N) = Len(e.outs), "not-aligned-with-outcomes")
               \cup If(e.dev <= Tol /\ \A i \in 1..Len(e.N) : i <= Len(e.outs) => e.N[i] = cnt(e.outs[i]),
                       "not-the-sample-frequencies")
               \cup (IF e.reported = 0 THEN If(e.outs = e.given, "wrong-outcomes")
                     ELSE IF e.left < 0 THEN {}      \* nothing configured: all states
                     ELSE If(NoDup(e.outs) /\ ToSet(e.outs) = StateSet(e.left, Len(e.S)), "wrong-outcomes"))
      [] e.op = "blocks" ->             \* samples of a parallel run, w = window length
           If(Len(e.list) = e.k, "wrong-number-of-samples")
           \cup If(NoRepeats(e.list, e.w), "block-replayed")
      [] e.op = "sized" ->              \* a permanent asked for a problem of these sizes
            If(WellSized(e.rows, e.cols, e.li, e.lo) <=> (e.got = "value"),
               IF e.got = "value" THEN "ill-sized-problem-computed" ELSE "well-sized-problem-refused")
            \cup If(e.got \in {"value", "AttributeError"}, "refused-otherwise")
      [] e.op = "sameas" -> If(e.a = e.b, "results-differ")
      [] e.op = "rcall" ->              \* what the R back end was given
           LET g == RawMats[e.mat].g
               m == Modes(e.mat)
               n == SumSeq(e.S)
               exp == [x \in 1..(m * n) |-> g[((x - 1) % m) + 1][((x - 1) \div m) + 1]]
           IN  If(e.flat = exp /\ e.nrow = m /\ e.ncol = n, "wrong-matrix-passed")
               \cup If(e.size = e.k, "wrong-sample-number-passed")
               \cup If(Len(e.back) = e.k * n /\ e.res = [i \in 1..e.k |-> Occ(SubSeq(e.back, (i - 1) * n + 1, i * n), m)],
                       "wrong-samples-returned")
      [] e.op = "rprob" ->              \* probability look-up
           LET calls == e.calls         \* <<<<assignment (from 1), probability id>>, ...>>
               occ(i) == Occ(calls[i][1], Modes(e.mat))
               keys == { e.res[i][1] : i \in 1..Len(e.res) }
           IN  If(e.kind = "all" \/ keys = ToSet(e.asked), "wrong-outcomes")
               \cup If(e.kind # "all" \/ keys = { occ(i) : i \in 1..Len(calls) }, "wrong-outcomes")
               \cup If(NoDup([i \in 1..Len(e.res) |-> e.res[i][1]]), "duplicate-outcome")
               \cup If(\A i \in 1..Len(e.res) : \E j \in 1..Len(calls) :
                          occ(j) = e.res[i][1] /\ calls[j][2] = e.res[i][2], "wrong-probability-returned")
               \cup If(e.matok = 1, "wrong-matrix-passed")

(*----------------------------- the state machine --------------------------*)
ObjOps == {"cnew", "cset", "ccomp", "snew", "sset", "sim", "fnew", "fset", "fgen",
           "pfnew", "pfset", "pfgen", "dnew", "dset", "dist", "probs"}
Rec(e) == e.rec
\* a strategy made by the factory from the factory's current configuration
FromFactory(f) ==
    LET c == f.cfg
        base == [kind |-> f.type, mat |-> f.cmat, eta |-> c.eta, l |-> c.l,
                 a |-> c.m - c.level, level |-> c.level]
    IN  CASE f.type \in {"fixed", "usep"} -> [base EXCEPT !.mat = c.mat]
          [] f.type = "other" -> [base EXCEPT !.mat = c.mat, !.kind = "fixed"]
          [] OTHER -> base
NextObjs(e) ==
    CASE e.op \in {"cnew", "snew", "fnew", "pfnew", "dnew"} -> (e.o :> e.rec) @@ objs
      [] e.op \in {"cset", "sset", "fset", "pfset", "dset"} ->
            (e.o :> [objs[e.o] EXCEPT ![e.f] = e.v]) @@ objs
      [] e.op = "fgen"  -> (e.as :> FromFactory(objs[e.o])) @@ objs
      [] e.op = "pfgen" -> (e.as :> [kind |-> objs[e.o].kind, mat |-> objs[e.o].mat,
                                     inp |-> objs[e.o].inp, out |-> objs[e.o].out]) @@ objs
      [] OTHER -> objs
Verdict(e) ==
    LET common == If(Get(e, "mut", 0) = 0, "caller-object-modified")
    IN  IF e.err # "" THEN {"raised:" \o e.err}
        ELSE common \cup
             CASE e.op \in {"cnew", "cset", "snew", "sset", "fnew", "fset", "pfnew", "pfset",
                            "dnew", "dset", "fgen", "pfgen"} -> If(Get(e, "ok", 1) = 1, "wrong-object")
               [] e.op = "ccomp" -> CompVerdict(objs[e.o], e)
               [] e.op = "sim"   -> SimVerdict(objs[e.o], e)
               [] e.op = "dist"  -> DistVerdict(objs[e.o], e)
               [] e.op = "probs" -> ProbsVerdict(objs[e.o], e)
               [] OTHER -> FnVerdict(e)

Init == /\ s \in 1..Len(Sessions)
        /\ l = 0
        /\ objs = [x \in {} |-> x]
Step == /\ l < Len(Sessions[s])
        /\ LET e == Sessions[s][l + 1]
               v == Verdict(e)
           IN  /\ IF v = {} THEN TRUE       \* not a disjunction: TLC would take both branches
                  ELSE PrintT("BAD " \o ToString(s) \o " " \o ToString(l + 1) \o " " \o ToJson(v))
               /\ objs' = NextObjs(e)
        /\ l' = l + 1
        /\ UNCHANGED s
Spec == Init /\ [][Step]_vars
TotalEvents == SumSeq([i \in 1..Len(Sessions) |-> Len(Sessions[i])])
\* every event of every session was consumed
AllConsumed ==
    /\ TLCGet("stats").distinct = TotalEvents + Len(Sessions)
    /\ PrintT("CONSUMED " \o ToString(TotalEvents) \o " " \o ToString(Len(Sessions)))
=============================================================================
