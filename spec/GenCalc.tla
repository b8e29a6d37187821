------------------------------ MODULE GenCalc ------------------------------
(***************************************************************************)
(* Histories of one calculator: assign matrix / input / output, compute.   *)
(* Computing is enabled only when the assignment is in the domain of the   *)
(* calculator.  The menu of matrices (given by their numbers of modes) and *)
(* states comes from the harness; every behaviour is replayed on the real  *)
(* object and the recorded session validated by BossTrace.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Menu == JsonDeserialize(IOEnv.BOSS_MENU)
Depth == Menu.depth
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
St == Menu.states
Ready(mat, inp, out) ==
    /\ Len(St[inp]) = Menu.mats[mat] /\ Len(St[out]) = Menu.mats[mat]
    /\ CASE Menu.kind = "perm" -> Sum(St[inp]) = Sum(St[out])
         [] Menu.kind = "sub"  -> Sum(St[inp]) = Sum(St[out]) + 1
         [] Menu.kind = "scat" -> TRUE

VARIABLES mat, inp, out, hist, done
vars == <<mat, inp, out, hist, done>>
Init == /\ mat \in 1..Len(Menu.mats) /\ inp \in 1..Len(St) /\ out \in 1..Len(St)
        /\ Ready(mat, inp, out)
        /\ hist = << <<"new", mat, inp, out>> >>
        /\ done = FALSE
Say(e) == /\ hist' = Append(hist, e)
SetMat == \E i \in 1..Len(Menu.mats) : mat' = i /\ UNCHANGED <<inp, out>> /\ Say(<<"mat", i>>)
SetIn  == \E i \in 1..Len(St) : inp' = i /\ UNCHANGED <<mat, out>> /\ Say(<<"inp", i>>)
SetOut == \E i \in 1..Len(St) : out' = i /\ UNCHANGED <<mat, inp>> /\ Say(<<"out", i>>)
Comp   == \E c \in 1..Menu.w : Ready(mat, inp, out) /\ UNCHANGED <<mat, inp, out>> /\ Say(<<"comp", c>>)
\* Jumps to an assignment in the domain and computes there: changing everything, or
\* just one of matrix, input and output.
Triples == { t \in (1..Len(Menu.mats)) \X (1..Len(St)) \X (1..Len(St)) : Ready(t[1], t[2], t[3]) }
Moves(t, rev) ==
    LET a == IF t[1] # mat THEN << <<"mat", t[1]>> >> ELSE <<>>
        b == IF t[2] # inp THEN << <<"inp", t[2]>> >> ELSE <<>>
        c == IF t[3] # out THEN << <<"out", t[3]>> >> ELSE <<>>
    IN  IF rev THEN c \o b \o a ELSE a \o b \o c
SayAll(es) == hist' = hist \o es
Go(t, rev) == /\ mat' = t[1] /\ inp' = t[2] /\ out' = t[3]
              /\ SayAll(Append(Moves(t, rev), <<"comp", 1>>))
Jump == \E t \in Triples, rev \in BOOLEAN : Go(t, rev)
OnlyMat == \E t \in Triples : t[1] # mat /\ t[2] = inp /\ t[3] = out /\ Go(t, FALSE)
OnlyIn  == \E t \in Triples : t[1] = mat /\ t[2] # inp /\ t[3] = out /\ Go(t, FALSE)
OnlyOut == \E t \in Triples : t[1] = mat /\ t[2] = inp /\ t[3] # out /\ Go(t, FALSE)
Wander == SetMat \/ SetIn \/ SetOut
Finish == /\ Len(hist) >= Depth /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<mat, inp, out, hist>>
          /\ PrintT("HIST " \o ToJson(hist))
More == /\ Len(hist) < Depth
        /\ IF Menu.jump = 1 THEN Comp \/ Jump \/ OnlyMat \/ OnlyIn \/ OnlyOut \/ Wander
           ELSE Comp \/ Wander
        /\ UNCHANGED done
Next == More \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
