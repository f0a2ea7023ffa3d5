------------------------------ MODULE HoldGen ------------------------------
(* The first rounds of HoldImpl's behaviours, as the work of every round of a scenario. *)
EXTENDS HoldImpl, Json

CONSTANTS Family
VARIABLES h, out
gvars == <<vars, h, out>>

GInit == Init /\ h = <<>> /\ out = FALSE
GNext ==
  \/ /\ ~out /\ round = 1
     /\ \/ \E f \in Fates : Begin(f) /\ h' = Append(h, f) /\ UNCHANGED out
        \/ (Internal \/ Close) /\ UNCHANGED <<h, out>>
  \/ /\ ~out /\ Rest /\ out' = TRUE /\ h' = h
     /\ PrintT("SCEN " \o ToJson([family |-> Family, ops |-> h, conns |-> Conns, par |-> Par]))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
