------------------------------ MODULE GuanCode ------------------------------
(* The reflected mixed-radix Gray code ("Guan code") that the permanent      *)
(* methods walk along: r runs through all vectors 0 <= r <= S and changes by *)
(* one in one coordinate; u holds the current directions.                    *)
EXTENDS Fock

RECURSIVE Carry(_, _, _, _)
\* <<index to update (or m+1 when the walk is over), new directions>>
Carry(r, u, S, i) ==
    IF i > Len(S) THEN <<i, u>>
    ELSE LET k == r[i] + u[i]
         IN  IF k > S[i] \/ k < 0 THEN Carry(r, [u EXCEPT ![i] = -u[i]], S, i + 1)
             ELSE <<i, u>>
Box(S) == { r \in [1..Len(S) -> 0..SumSeq(S)] : Leq(r, S) }
=============================================================================
