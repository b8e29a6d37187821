----------------------------- MODULE GenStrat -----------------------------
(* Histories of one simulation strategy: simulate calls with any of the     *)
(* inputs and sample numbers of the menu, and matrix changes.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Menu == JsonDeserialize(IOEnv.BOSS_MENU)
Range(s) == { s[i] : i \in 1..Len(s) }
VARIABLE hist
Init == hist = <<>>
Sim == \E i \in 1..Menu.states, k \in Range(Menu.ks) : hist' = Append(hist, <<"sim", i, k>>)
Set == \E i \in 1..Menu.mats : hist' = Append(hist, <<"mat", i>>)
\* stopping early is a behaviour too: histories of every length up to depth
Next == /\ Len(hist) < Menu.depth
        /\ (Sim \/ Set)
        /\ PrintT("HIST " \o ToJson(hist'))
Spec == Init /\ [][Next]_hist
=============================================================================
