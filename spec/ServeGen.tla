------------------------------ MODULE ServeGen ------------------------------
(* Behaviours of ServeImpl as scripts for the harness. *)
EXTENDS ServeImpl, Json

CONSTANTS HLen, Family
VARIABLES h, late, out
gvars == <<vars, h, late, out>>

H(op) == h' = Append(h, op) /\ UNCHANGED <<late, out>>
More == out = FALSE /\ Len(h) < HLen
Late == Len(h) >= late

GInit == Init /\ h = <<>> /\ out = FALSE /\ late \in {4, HLen \div 2, HLen - 6, HLen + 1}

GEnv ==
  /\ More
  /\ \/ Dial /\ H(<<"dial">>)
     \/ \E n \in N, k \in InKinds, l \in Lens : (k # "msg" \/ l > limit => Late) /\ Frame(n, k, l) /\ H(<<"frame", n, k, l>>)
     \/ \E n \in N, l \in Lens : (l > c[n].lim => Late) /\ Send(n, l) /\ H(<<"send", n, l>>)
     \/ \E n \in N : Late /\ Fin(n) /\ H(<<"cfin", n>>)
     \/ \E n \in N : Late /\ Rst(n) /\ H(<<"crst", n>>)
     \/ \E n \in N : Late /\ DropTx(n) /\ H(<<"droptx", n>>)
     \/ \E n \in N : Late /\ Disc(n) /\ H(<<"disc", n>>)
     \/ \E n \in N : (PRead(n) \/ PEof(n)) /\ H(<<"cr", n>>)
     \/ \E x \in Limits : SetLimit(x) /\ H(<<"limits", x>>)
     \/ AcceptFails /\ H(<<"accfault">>)

GInt == /\ ~out
        /\ \/ (Accept \/ \E n \in N : Read(n) \/ Serialize(n)) /\ (IF More THEN H(<<"turn">>) ELSE UNCHANGED <<h, late, out>>)
           \/ (\E n \in N : Write(n) \/ Close(n)) /\ UNCHANGED <<h, late, out>>

Emit ==
  /\ ~out
  /\ Len(h) >= HLen \/ ~(ENABLED GEnv \/ ENABLED GInt)
  /\ out' = TRUE
  /\ PrintT("SCEN " \o ToJson([family |-> Family, maxq |-> MaxQ, ops |-> h]))
  /\ UNCHANGED <<vars, h, late>>

GNext == GEnv \/ GInt \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
