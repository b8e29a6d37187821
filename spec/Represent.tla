----------------------------- MODULE Represent ------------------------------
(* The two representations of a state (C06): expanding an occupation vector  *)
(* particle by particle, scattering the particles in any order (delivered by *)
(* a nondeterministic scheduler) and collecting them into counts again.      *)
EXTENDS Fock
CONSTANTS MaxN, MaxM
VARIABLES S, i, j, asg, bag, occ, pc
vars == <<S, i, j, asg, bag, occ, pc>>
m == Len(S)
Init == /\ \E mm \in 1..MaxM, nn \in 0..MaxN : S \in StateSet(nn, mm)
        /\ i = 1 /\ j = 0 /\ asg = <<>> /\ bag = {} /\ occ = Vac(Len(S)) /\ pc = "expand"
Expand == /\ pc = "expand"
          /\ IF i > m THEN pc' = "collect" /\ bag' = 1..Len(asg) /\ UNCHANGED <<i, j, asg>>
             ELSE IF j < S[i] THEN asg' = Append(asg, i) /\ j' = j + 1 /\ UNCHANGED <<i, bag, pc>>
             ELSE i' = i + 1 /\ j' = 0 /\ UNCHANGED <<asg, bag, pc>>
          /\ UNCHANGED <<S, occ>>
Collect == /\ pc = "collect"
           /\ IF bag = {} THEN pc' = "done" /\ UNCHANGED <<bag, occ>>
              ELSE \E x \in bag : /\ occ' = [occ EXCEPT ![asg[x]] = @ + 1]
                                  /\ bag' = bag \ {x} /\ UNCHANGED pc
           /\ UNCHANGED <<S, i, j, asg>>
Next == Expand \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sorted == \A x, y \in 1..Len(asg) : x < y => asg[x] <= asg[y]
Prefix == \A x \in 1..m : x < i => Cardinality({y \in 1..Len(asg) : asg[y] = x}) = S[x]
Partial == Leq(occ, S)
RoundTrip == pc = "done" => occ = S /\ asg = Assign(S) /\ Occ(asg, m) = S /\ Len(asg) = SumSeq(S)
Terminates == <>(pc = "done")
=============================================================================
