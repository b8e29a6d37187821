------------------------------ MODULE RWrapper ------------------------------
(***************************************************************************)
(* C27.  The boundary to R.  R fills a matrix column by column from a flat  *)
(* vector and numbers modes from 1; it returns the samples as one flat      *)
(* vector of particle positions, cut into equal parts afterwards.  The back *)
(* end may return any positions.                                            *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS MaxM, MaxN, MaxK
VARIABLES m, n, k, flat, back, samples
vars == <<m, n, k, flat, back, samples>>
\* entry (i, j) of the interferometer is the pair itself
Init == /\ m \in 1..MaxM /\ n \in 1..MaxN /\ n <= m /\ k \in 1..MaxK
        /\ flat = <<>> /\ back = <<>> /\ samples = <<>>
Push == /\ Len(flat) < m * n              \* transposed, read row by row
        /\ LET x == Len(flat) IN flat' = Append(flat, <<(x % m) + 1, (x \div m) + 1>>)
        /\ UNCHANGED <<m, n, k, back, samples>>
\* what R sees
Seen(i, j) == flat[(j - 1) * m + i]
Answer == /\ Len(flat) = m * n /\ Len(back) < n * k
          /\ \E p \in 1..m : back' = Append(back, p)
          /\ UNCHANGED <<m, n, k, flat, samples>>
Cut == /\ Len(back) = n * k /\ Len(samples) < k
       /\ LET i == Len(samples)
              part == SubSeq(back, i * n + 1, (i + 1) * n)
          IN  samples' = Append(samples, Occ(part, m))
       /\ UNCHANGED <<m, n, k, flat, back>>
Next == Push \/ Answer \/ Cut
Spec == Init /\ [][Next]_vars
MatrixOK == Len(flat) = m * n => \A i \in 1..m, j \in 1..n : Seen(i, j) = <<i, j>>
SamplesOK == \A i \in 1..Len(samples) : IsState(samples[i], n, m)
NothingLost == Len(samples) = k =>
    \A p \in 1..m : SumSeq([i \in 1..k |-> samples[i][p]]) = Cardinality({ x \in 1..(n * k) : back[x] = p })
=============================================================================
