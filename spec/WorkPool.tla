------------------------------ MODULE WorkPool ------------------------------
(***************************************************************************)
(* Sampling with a pool of workers (C17, C24).  The request for K samples   *)
(* is split into one task per thread; tasks are handed to the worker        *)
(* processes in any order and run interleaved; every sample consumes random *)
(* numbers of the process it runs in, so a sample is identified by <<random *)
(* stream, position>>.  Results are put together in task order.             *)
(* Inherit models what happens when processes inherit the parent's          *)
(* generator state (fork): streams coincide and blocks are replayed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MaxK, MaxThreads, Procs, Inherit
VARIABLES k, th, task, runs, out, draws, res, done
vars == <<k, th, task, runs, out, draws, res, done>>
Split(c, w) == [i \in 1..w |-> c \div w + IF i <= c % w THEN 1 ELSE 0]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Stream(p) == IF Inherit THEN 0 ELSE p
Init == /\ k \in 0..MaxK /\ th \in 1..MaxThreads
        /\ task = Split(k, th)
        /\ runs = [i \in 1..th |-> 0]              \* process running task i, 0: queued
        /\ out = [i \in 1..th |-> <<>>]
        /\ draws = [p \in 1..Procs |-> 0]
        /\ res = <<>> /\ done = FALSE
Busy(p) == \E i \in 1..th : runs[i] = p /\ Len(out[i]) < task[i]
\* the pool starts queued tasks in order on any idle process
Start == \E i \in 1..th, p \in 1..Procs :
    /\ runs[i] = 0 /\ \A j \in 1..(i - 1) : runs[j] # 0
    /\ ~Busy(p)
    /\ runs' = [runs EXCEPT ![i] = p]
    /\ UNCHANGED <<k, th, task, out, draws, res, done>>
Sample == \E i \in 1..th :
    LET p == runs[i]
    IN  /\ p # 0 /\ Len(out[i]) < task[i]
        /\ out' = [out EXCEPT ![i] = Append(@, <<Stream(p), draws[p] + 1>>)]
        /\ draws' = [draws EXCEPT ![p] = @ + 1]
        /\ UNCHANGED <<k, th, task, runs, res, done>>
Finish == /\ ~done /\ done' = TRUE
          /\ \A i \in 1..th : runs[i] # 0 /\ Len(out[i]) = task[i]
          /\ res' = FoldLeft(LAMBDA a, b : a \o b, <<>>, out)
          /\ UNCHANGED <<k, th, task, runs, out, draws>>
Next == Start \/ Sample \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SplitOK == /\ Sum(task) = k
           /\ \A i, j \in 1..th : task[i] - task[j] \in {-1, 0, 1}
Complete == done => Len(res) = k
Distinct == done => Cardinality(ToSet(res)) = Len(res)
Terminates == <>done
=============================================================================
