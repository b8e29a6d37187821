------------------------------ MODULE EnumWalk ------------------------------
(***************************************************************************)
(* The successor algorithm behind the state enumeration (C05), with its     *)
(* inner search for the last movable particle as separate steps.  For every *)
(* bounded n and m: each state produced is the immediate lexicographic      *)
(* predecessor of the one before, so nothing is skipped or repeated; the    *)
(* walk ends exactly at the last state; the number of states is the         *)
(* binomial dimension.  LexStates, the oracle of the trace specification,   *)
(* is validated against the definition here as well.                        *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS MaxN, MaxM
VARIABLES n, m, cur, k, pos, pc
vars == <<n, m, cur, k, pos, pc>>
Init == /\ n \in 0..MaxN /\ m \in 1..MaxM
        /\ cur = [j \in 1..m |-> IF j = 1 THEN n ELSE 0]
        /\ pos = 1 /\ k = 0 /\ pc = "test"
Test == /\ pc = "test"
        /\ IF cur[m] < n THEN pc' = "search" /\ k' = m
           ELSE pc' = "done" /\ UNCHANGED k
        /\ UNCHANGED <<n, m, cur, pos>>
Search == /\ pc = "search" /\ cur[k - 1] = 0
          /\ k' = k - 1 /\ UNCHANGED <<n, m, cur, pos, pc>>
Move == /\ pc = "search" /\ cur[k - 1] > 0
        /\ LET base == [j \in 1..m |-> IF j = k - 1 THEN cur[j] - 1 ELSE IF j >= k THEN 0 ELSE cur[j]]
           IN  cur' = [base EXCEPT ![k] = n - SumSeq(base)]
        /\ pos' = pos + 1 /\ pc' = "test" /\ UNCHANGED <<n, m, k>>
Next == Test \/ Search \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Valid == IsState(cur, n, m)
InRange == pc = "search" => k \in 2..m          \* the search never leaves the array
OnTrack == pos <= Binom(n + m - 1, n) /\ cur = LexStates(n, m)[pos]
Complete == pc = "done" => pos = Binom(n + m - 1, n)
Decreasing == [][cur' # cur =>
    /\ LexGreater(cur, cur')
    /\ \A t \in StateSet(n, m) : ~(LexGreater(cur, t) /\ LexGreater(t, cur'))]_vars
Terminates == <>(pc = "done")
\* the oracle itself
OracleByDefinition == pos = 1 =>
    /\ \A t \in [1..m -> 0..n] : SumSeq(t) = n <=> t \in StateSet(n, m)
    /\ Len(LexStates(n, m)) = Cardinality(StateSet(n, m))
    /\ Len(LexStates(n, m)) = Binom(n + m - 1, n)
    /\ \A i \in 1..(Len(LexStates(n, m)) - 1) : LexGreater(LexStates(n, m)[i], LexStates(n, m)[i + 1])
    /\ Len(LossyLexStates(n, m)) = Binom(n + m, n)      \* the lossy dimension (hockey stick)
    /\ Cardinality(LossyStateSet(n, m)) = Binom(n + m, n)
=============================================================================
