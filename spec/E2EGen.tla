------------------------------- MODULE E2EGen -------------------------------
(* Behaviours of E2EImpl as programs for the harness. *)
EXTENDS E2EImpl, Json

CONSTANTS HLen, Family
VARIABLES h, out
gvars == <<vars, h, out>>

H(op) == h' = Append(h, op) /\ UNCHANGED out
More == out = FALSE /\ Len(h) < HLen

GInit == Init /\ h = <<>> /\ out = FALSE
GEnv ==
  /\ More
  /\ \/ \E i \in Ids, k \in Kinds, n \in Ns : Call(i, k, n) /\ H(<<"call", Len(calls) + 1, i, k, n>>)
     \/ \E c \in C : Take(c) /\ H(<<"take", c>>)
     \/ \E c \in C : c % 2 = 0 /\ Drop(c) /\ H(<<"drop", c>>)
GInt == /\ ~out /\ (Flush \/ SRecv \/ (\E r \in R : Work(r)) \/ SFlush \/ CRecv) /\ UNCHANGED <<h, out>>
Emit ==
  /\ ~out
  /\ Len(h) >= HLen \/ ~(ENABLED GEnv \/ ENABLED GInt)
  /\ out' = TRUE
  /\ PrintT("SCEN " \o ToJson([family |-> Family, ops |-> h]))
  /\ UNCHANGED <<vars, h>>
GNext == GEnv \/ GInt \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
