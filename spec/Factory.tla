------------------------------ MODULE Factory -------------------------------
(***************************************************************************)
(* The factories (C20) as a heap: the factory holds references to a         *)
(* calculator; a generated strategy holds a reference to a calculator as    *)
(* well.  Reconfiguring writes a cell or replaces a reference; using a      *)
(* product writes scratch fields (states, expanded matrix) into its cell.   *)
(* With copies on generation no write reaches another owner.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Values, MaxProducts, MaxCells,
          CopyOnGenerate
VARIABLES heap,       \* cell -> value of the matrix field
          fref,       \* the factory's calculator
          want,       \* the matrix the user last configured
          prods       \* <<[ref, born]>>: products and the configuration they were born with
vars == <<heap, fref, want, prods>>
Fresh == Len(heap) + 1
Init == \E v \in Values : heap = <<v>> /\ fref = 1 /\ want = v /\ prods = <<>>
Replace == /\ Len(heap) < MaxCells          \* factory.calculator = new one (copied)
           /\ \E v \in Values : heap' = Append(heap, v) /\ want' = v
           /\ fref' = Fresh /\ UNCHANGED prods
WriteIn == /\ \E v \in Values : heap' = [heap EXCEPT ![fref] = v] /\ want' = v
           /\ UNCHANGED <<fref, prods>>     \* factory.calculator.matrix = v
Generate == /\ Len(prods) < MaxProducts /\ Len(heap) < MaxCells
            /\ IF CopyOnGenerate
               THEN heap' = Append(heap, heap[fref]) /\ prods' = Append(prods, [ref |-> Fresh, born |-> want])
               ELSE UNCHANGED heap /\ prods' = Append(prods, [ref |-> fref, born |-> want])
            /\ UNCHANGED <<fref, want>>
Rewire == /\ prods # <<>>                   \* product.set_new_matrix(v), the owner's wish
          /\ \E i \in 1..Len(prods), v \in Values :
                /\ heap' = [heap EXCEPT ![prods[i].ref] = v]
                /\ prods' = [prods EXCEPT ![i].born = v]
          /\ UNCHANGED <<fref, want>>
Next == Replace \/ WriteIn \/ Generate \/ Rewire
Spec == Init /\ [][Next]_vars
Independent == \A i \in 1..Len(prods) : heap[prods[i].ref] = prods[i].born
Configured == heap[fref] = want
=============================================================================
