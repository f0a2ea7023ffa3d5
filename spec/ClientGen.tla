------------------------------ MODULE ClientGen ------------------------------
(* Behaviours of ClientImpl as scripts for the harness. *)
EXTENDS ClientImpl, Json

CONSTANTS HLen, Family
VARIABLES h, late, out
gvars == <<vars, h, late, out>>

H(op) == h' = Append(h, op) /\ UNCHANGED <<late, out>>
More == out = FALSE /\ Len(h) < HLen
Late == Len(h) >= late

GInit == Init /\ h = <<>> /\ out = FALSE /\ late \in {4, HLen \div 2, HLen - 5, HLen + 1}

GEnv ==
  /\ More
  /\ \/ \E k \in Kinds, i \in Ids, n \in Sizes : (n <= MaxBuf \/ Late) /\ Begin(k, i, n) /\ H(<<"call", k, i, n>>)
     \/ \E c \in C : PollCall(c) /\ H(<<"pc", c>>)
     \/ \E c \in C : (Late \/ calls[c].pc = "over" \/ c % 3 = 0) /\ Drop(c) /\ H(<<"drop", c>>)
     \/ SRead /\ H(<<"pr">>)
     \/ \E i \in Ids, code \in 0..2 : (Answer(i, code) \/ Stray(i, code)) /\ H(<<"resp", i, code>>)
     \/ Late /\ Fin /\ H(<<"pfin">>)
     \/ Late /\ Rst /\ H(<<"prst">>)
     \/ Late /\ Bad /\ H(<<"bad">>)
     \/ Late /\ Bye /\ H(<<"bye">>)
     \/ Serialize /\ H(<<"poll">>)
     \/ ReactStart /\ H(<<"poll">>)
     \/ Die1 /\ H(<<"poll">>)

GInt == /\ ~out
        /\ (\E c \in C : Register(c) \/ Send(c)) \/ ReactOne \/ Die2
        /\ UNCHANGED <<h, late, out>>

Emit ==
  /\ ~out
  /\ Len(h) >= HLen \/ ~(ENABLED GEnv \/ ENABLED GInt)
  /\ out' = TRUE
  /\ PrintT("SCEN " \o ToJson([family |-> Family, maxq |-> MaxQ, ops |-> h]))
  /\ UNCHANGED <<vars, h, late>>

GNext == GEnv \/ GInt \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
