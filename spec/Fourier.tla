------------------------------ MODULE Fourier -------------------------------
(***************************************************************************)
(* C26.  The Fourier matrix with exact roots of unity: in the field of P    *)
(* elements with P - 1 divisible by N the element w is a primitive N-th     *)
(* root of unity and conjugation is inversion of w.  The embedding acts on  *)
(* the first N of All modes.                                                *)
(***************************************************************************)
EXTENDS Gauss
CONSTANTS Sizes, Extra
P == 30241
ASSUME \A k \in 2..173 : P % k # 0
Order(x, N) == PowMod(x, N, P) = 1 /\ \A d \in 1..(N - 1) : N % d = 0 => PowMod(x, d, P) # 1
\* a primitive root of P gives every root of unity
G == CHOOSE x \in 2..100 : \A d \in {2, 3, 5, 7} : PowMod(x, (P - 1) \div d, P) # 1
Root(N) == PowMod(G, (P - 1) \div N, P)
VARIABLES N, all, a, b, k, acc
vars == <<N, all, a, b, k, acc>>
\* entry of the embedding, scaled by sqrt(N) on the block
Entry(x, y) == IF x < N /\ y < N THEN PowMod(Root(N), (x * y) % N, P)
               ELSE IF x = y THEN 1 ELSE 0
Conj(x, y) == IF x < N /\ y < N THEN PowMod(Root(N), (N - ((x * y) % N)) % N, P) ELSE Entry(x, y)
Init == /\ N \in Sizes /\ \E e \in Extra : all = N + e
        /\ a \in 0..(all - 1) /\ b \in 0..(all - 1)
        /\ k = 0 /\ acc = 0
\* inner product of columns a and b
Step == /\ k < all
        /\ acc' = (acc + Conj(k, a) * Entry(k, b)) % P
        /\ k' = k + 1 /\ UNCHANGED <<N, all, a, b>>
Spec == Init /\ [][Step]_vars
Orthogonal == k = all => acc = IF a # b THEN 0 ELSE IF a < N THEN N ELSE 1
RootOK == Order(Root(N), N)
Symmetric == Entry(a, b) = Entry(b, a)
LeadingOnly == (a >= N \/ b >= N) => Entry(a, b) = IF a = b THEN 1 ELSE 0
=============================================================================
