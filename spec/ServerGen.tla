------------------------------ MODULE ServerGen ------------------------------
(* Behaviours of ServerImpl as scripts for the harness. *)
EXTENDS ServerImpl, Json

CONSTANTS HLen, Family
VARIABLES h, late, out
gvars == <<vars, h, late, out>>

H(op) == h' = Append(h, op) /\ UNCHANGED <<late, out>>
More == out = FALSE /\ Len(h) < HLen
Late == Len(h) >= late

GInit == Init /\ h = <<>> /\ out = FALSE /\ late \in {6, HLen \div 2, HLen - 6, HLen + 1}

GEnv ==
  /\ More
  /\ \/ Dial /\ H(<<"dial">>)
     \/ \E n \in N, i \in Ids, k \in Kinds : (k = "x" => Late) /\ Req(n, i, k) /\ H(<<"req", n, i, k>>)
     \/ \E n \in N, i \in Ids, code \in {1, 2} : Ctl(n, i, code) /\ H(<<"ctl", n, i, code>>)
     \/ \E n \in N : Late /\ Fin(n) /\ H(<<"cfin", n>>)
     \/ \E n \in N : Late /\ Rst(n) /\ H(<<"crst", n>>)
     \/ \E n \in N : Late /\ Bad(n) /\ H(<<"bad", n>>)
     \/ \E n \in N : (CRead(n) \/ CEof(n)) /\ H(<<"cr", n>>)
     \/ \E r \in 1..Len(rpcs), x \in {0, 1, -1, -2} : (x \in {-2, 1} => Late) /\ Give(r, x) /\ H(<<"give", r, x>>)
     \/ AcceptFails /\ H(<<"accfault">>)

GInt == /\ ~out
        /\ \/ \E n \in N : (ReadIn(n) \/ TaskStart(n)) /\ (IF More THEN H(<<"turn">>) ELSE UNCHANGED <<h, late, out>>)
           \/ (Accept \/ \E n \in N : Drain(n) \/ ConnEnd(n) \/ AdvU(n) \/ AdvS(n)) /\ UNCHANGED <<h, late, out>>

Emit ==
  /\ ~out
  /\ Len(h) >= HLen \/ ~(ENABLED GEnv \/ ENABLED GInt)
  /\ out' = TRUE
  /\ PrintT("SCEN " \o ToJson([family |-> Family, maxq |-> MaxQ, ops |-> h]))
  /\ UNCHANGED <<vars, h, late>>

GNext == GEnv \/ GInt \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
