------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Exact arithmetic for the whole specification: Gaussian rationals, i.e.  *)
(* the numbers a+bi with rational a, b, represented by their images modulo *)
(* two primes.  TLC integers are 32 bit; with primes below 2^15 no product *)
(* or sum of two products overflows.  An integer N with |N| < P1*P2/2      *)
(* (5.3*10^8) is determined by its two residues, so comparing residues of  *)
(* logged integers with the residues of the specified value is an exact    *)
(* comparison, not a hash.                                                 *)
(*                                                                         *)
(* A number is the 4-tuple <<re mod P1, im mod P1, re mod P2, im mod P2>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

P1 == 32749
P2 == 32719

ZeroN == <<0, 0, 0, 0>>
OneN  == <<1, 0, 1, 0>>

\* The number a + b*i for (small, possibly negative) integers a and b.
Num(a, b) == <<a % P1, b % P1, a % P2, b % P2>>
Int2N(a)  == <<a % P1, 0, a % P2, 0>>

AddN(x, y) == << (x[1] + y[1]) % P1, (x[2] + y[2]) % P1,
                 (x[3] + y[3]) % P2, (x[4] + y[4]) % P2 >>
SubN(x, y) == << (x[1] - y[1]) % P1, (x[2] - y[2]) % P1,
                 (x[3] - y[3]) % P2, (x[4] - y[4]) % P2 >>
NegN(x)    == SubN(ZeroN, x)
MulN(x, y) == << (x[1]*y[1] - x[2]*y[2]) % P1, (x[1]*y[2] + x[2]*y[1]) % P1,
                 (x[3]*y[3] - x[4]*y[4]) % P2, (x[3]*y[4] + x[4]*y[3]) % P2 >>
ConjN(x)   == << x[1], (-x[2]) % P1, x[3], (-x[4]) % P2 >>
\* |x|^2, a real number
AbsSqN(x)  == << (x[1]*x[1] + x[2]*x[2]) % P1, 0,
                 (x[3]*x[3] + x[4]*x[4]) % P2, 0 >>

RECURSIVE PowMod(_, _, _)
PowMod(b, e, p) ==
    IF e = 0 THEN 1
    ELSE LET h == PowMod(b, e \div 2, p)
             s == (h * h) % p
         IN  IF e % 2 = 1 THEN (s * b) % p ELSE s

\* Inverse of a non-zero integer modulo p (Fermat).
InvMod(a, p) == PowMod(a % p, p - 2, p)
\* Multiplication by the rational a/b (b not divisible by P1, P2).
ScaleN(x, a, b) ==
    LET u == ((a % P1) * InvMod(b, P1)) % P1
        v == ((a % P2) * InvMod(b, P2)) % P2
    IN  << (x[1]*u) % P1, (x[2]*u) % P1, (x[3]*v) % P2, (x[4]*v) % P2 >>
Rat(a, b) == ScaleN(OneN, a, b)
\* Division by a real (im = 0) number
InvRealN(x) == << InvMod(x[1], P1), 0, InvMod(x[3], P2), 0 >>
DivRealN(x, y) == MulN(x, InvRealN(y))
IsZeroN(x) == x = ZeroN

RECURSIVE PowN(_, _)
PowN(x, e) == IF e = 0 THEN OneN
              ELSE LET h == PowN(x, e \div 2)
                       s == MulN(h, h)
                   IN  IF e % 2 = 1 THEN MulN(s, x) ELSE s

SumSeqN(s)  == FoldLeft(AddN, ZeroN, s)
ProdSeqN(s) == FoldLeft(MulN, OneN, s)
\* Sum of f[x] over a finite set of keys.
SumOverN(f, keys) == FoldLeft(LAMBDA a, k : AddN(a, f[k]), ZeroN, SetToSeq(keys))

\* A matrix of pairs <<re, im>> as a matrix of numbers.
\* (TLCEval is shallow, so rows are evaluated one by one.)
MatN(g) == TLCEval([i \in 1..Len(g) |->
              TLCEval([j \in 1..Len(g[i]) |-> Num(g[i][j][1], g[i][j][2])])])

ASSUME /\ \A p \in {P1, P2} : \A k \in 2..181 : p % k # 0      \* 181^2 > P1
       /\ MulN(Num(3, 4), ConjN(Num(3, 4))) = Int2N(25)
       /\ MulN(Rat(7, 3), Int2N(3)) = Int2N(7)
       /\ AbsSqN(Num(-2, 5)) = Int2N(29)
=============================================================================
