------------------------------ MODULE Scatter -------------------------------
(* C04.  Building the effective scattering matrix column by column, then row  *)
(* by row, for every pair of small non-vacuum states (equal numbers or not).  *)
EXTENDS Fock
CONSTANTS MaxN, MaxM
VARIABLES S, T, cols, rows, i, pc
vars == <<S, T, cols, rows, i, pc>>
m == Len(S)
Rep(x, c) == [y \in 1..c |-> x]
Init == /\ \E mm \in 1..MaxM, a \in 1..MaxN, b \in 1..MaxN :
              S \in StateSet(a, mm) /\ T \in StateSet(b, mm)
        /\ cols = <<>> /\ rows = <<>> /\ i = 1 /\ pc = "cols"
Cols == /\ pc = "cols"
        /\ IF i > m THEN pc' = "rows" /\ i' = 1 /\ UNCHANGED cols
           ELSE cols' = cols \o Rep([x \in 1..m |-> <<x, i>>], S[i]) /\ i' = i + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<S, T, rows>>
Rows == /\ pc = "rows"
        /\ IF i > m THEN pc' = "done" /\ UNCHANGED <<rows, i>>
           ELSE rows' = rows \o Rep([y \in 1..Len(cols) |-> cols[y][i]], T[i]) /\ i' = i + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<S, T, cols>>
Next == Cols \/ Rows
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Shape == pc = "done" => Len(rows) = SumSeq(T) /\ \A x \in 1..Len(rows) : Len(rows[x]) = SumSeq(S)
Entries == pc = "done" => \A x \in 1..Len(rows), y \in 1..Len(cols) :
                             rows[x][y] = <<Assign(T)[x], Assign(S)[y]>>
Terminates == <>(pc = "done")
=============================================================================
