---------------------------- MODULE GenFactory ----------------------------
(* Histories of a factory and its products.  The factory's current choice   *)
(* of type / configuration / calculator, generation of products, use and    *)
(* re-assignment of any product made so far.                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Menu == JsonDeserialize(IOEnv.BOSS_MENU)
VARIABLES hist, made
vars == <<hist, made>>
Init == hist = <<>> /\ made = 0
Say(e) == /\ hist' = Append(hist, e)
          /\ IF Len(hist) + 1 < Menu.depth THEN TRUE ELSE PrintT("HIST " \o ToJson(hist'))
\* re-assign one field of the factory (menu.fields: name -> number of choices)
Set == \E f \in DOMAIN Menu.fields : \E i \in 1..Menu.fields[f] : Say(<<f, i>>) /\ UNCHANGED made
Gen == \E c \in 1..Menu.w : /\ made < Menu.products
                            /\ made' = made + 1
                            /\ Say(<<"gen", c>>)
Use == \E j \in 1..made, i \in 1..Menu.inputs : Say(<<"use", j, i>>) /\ UNCHANGED made
\* re-assign one field of a product (menu.pfields)
Re == \E j \in 1..made, f \in DOMAIN Menu.pfields : \E i \in 1..Menu.pfields[f] :
         Say(<<"re", j, f, i>>) /\ UNCHANGED made
Next == /\ Len(hist) < Menu.depth
        /\ IF Len(hist) + 1 = Menu.depth /\ made = 0 THEN Gen ELSE (Gen \/ Set \/ Use \/ Re)
Spec == Init /\ [][Next]_vars
=============================================================================
