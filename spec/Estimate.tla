------------------------------ MODULE Estimate ------------------------------
(* C21.  Counting samples against an ordered list of outcomes: any list       *)
(* without repetition, any sequence of NS samples, also outside the list.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Outcomes, NS
VARIABLES list, seen, cnt, j
vars == <<list, seen, cnt, j>>
Lists == UNION { { f \in [1..c -> Outcomes] : \A x, y \in 1..c : x # y => f[x] # f[y] } : c \in 0..Cardinality(Outcomes) }
Init == list \in Lists /\ seen = <<>> /\ cnt = [x \in 1..Len(list) |-> 0] /\ j = 0
Draw == /\ j = 0 /\ Len(seen) < NS
        /\ \E o \in Outcomes : seen' = Append(seen, o)
        /\ j' = 1 /\ UNCHANGED <<list, cnt>>
Compare == /\ j > 0
           /\ IF j > Len(list) THEN j' = 0 /\ UNCHANGED cnt          \* not listed: ignored
              ELSE IF list[j] = Last(seen) THEN j' = 0 /\ cnt' = [cnt EXCEPT ![j] = @ + 1]
              ELSE j' = j + 1 /\ UNCHANGED cnt
           /\ UNCHANGED <<list, seen>>
Next == Draw \/ Compare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == j = 0 /\ Len(seen) = NS
Freq(o) == Cardinality({ x \in 1..Len(seen) : seen[x] = o })
Aligned == j = 0 => \A x \in 1..Len(list) : cnt[x] = Freq(list[x])
AtMostAll == j = 0 => LET t == FoldLeft(LAMBDA a, b : a + b, 0, cnt)
                      IN  t <= Len(seen) /\ ((t = Len(seen)) = (ToSet(seen) \subseteq ToSet(list)))
Terminates == <>Done
=============================================================================
