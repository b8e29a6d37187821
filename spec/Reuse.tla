------------------------------- MODULE Reuse --------------------------------
(***************************************************************************)
(* Re-use of one sampler object (C02, C18, C25).  The object keeps caches   *)
(* between particle steps: the sub-inputs of the current input, and the pmf *)
(* of every partial sample met so far.  Each cache entry is tagged with the *)
(* matrix and input it was computed from.  Any history of simulate calls    *)
(* (any input, any number of samples) and matrix changes between calls is   *)
(* explored; every read must see an entry for the current matrix and input. *)
(* The switches say when caches are cleared.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mats, Inputs, Keys, MaxCalls,
          ClearAtCall      \* pmfs emptied when simulate starts (what the code does)
VARIABLES mat, inp, subs, pmfs, key, left, calls, read
vars == <<mat, inp, subs, pmfs, key, left, calls, read>>
None == <<>>
Empty == [x \in Keys |-> None]
Init == /\ mat \in Mats /\ inp = None /\ subs = None /\ pmfs = Empty
        /\ key = None /\ left = 0 /\ calls = 0 /\ read = None
SetMatrix == /\ left = 0 /\ key = None
             /\ \E x \in Mats : mat' = x
             /\ UNCHANGED <<inp, subs, pmfs, key, left, calls, read>>
Call == /\ left = 0 /\ key = None /\ calls < MaxCalls
        /\ \E s \in Inputs, c \in 0..2 :
              /\ inp' = <<s>> /\ subs' = <<s>> /\ left' = c
        /\ pmfs' = IF ClearAtCall THEN Empty ELSE pmfs
        /\ calls' = calls + 1 /\ UNCHANGED <<mat, key, read>>
BeginSample == /\ left > 0 /\ key = None
               /\ \E x \in Keys : key' = <<x>>
               /\ left' = left - 1 /\ UNCHANGED <<mat, inp, subs, pmfs, calls, read>>
\* one particle step at the partial sample key: fill the pmf if missing, then read it
Particle == /\ key # None
            /\ LET x == key[1]
                   e == IF pmfs[x] = None THEN <<mat, subs[1]>> ELSE pmfs[x]
               IN  pmfs' = [pmfs EXCEPT ![x] = e] /\ read' = e
            /\ \E y \in {None} \cup { <<z>> : z \in Keys } : key' = y   \* next partial sample, or done
            /\ UNCHANGED <<mat, inp, subs, left, calls>>
Next == SetMatrix \/ Call \/ BeginSample \/ Particle
Spec == Init /\ [][Next]_vars
Fresh == [][Particle => read' = <<mat, inp[1]>>]_vars
=============================================================================
