------------------------------ MODULE ConnGen ------------------------------
(* Behaviours of ConnImpl, written out as the environment's part of them:   *)
(* the scripts that the harness replays against the real connection.        *)
EXTENDS ConnImpl, Json

CONSTANTS HLen, Family
VARIABLES h, late, out
gvars == <<vars, h, late, out>>

H(op) == h' = Append(h, op) /\ UNCHANGED <<late, out>>
More == out = FALSE /\ Len(h) < HLen
Late == Len(h) >= late

GInit == Init /\ h = <<>> /\ out = FALSE /\ late \in {3, HLen \div 2, HLen - 3, HLen + 1}

GEnv ==
  /\ More
  /\ \/ \E n \in OutLens : AppSend(n) /\ H(<<"send", n>>)
     \/ Late /\ DropTx /\ H(<<"droptx">>)
     \/ \E n \in 1..KRxCap : PeerWrite(n) /\ H(<<"pw", n>>)
     \/ Late /\ PeerFin /\ H(<<"fin">>)
     \/ Late /\ PeerRst /\ H(<<"rst">>)
     \/ \E n \in 1..KCap : PeerRead(n) /\ H(<<"pr", n>>)
     \/ (PeerEof \/ PeerSeesRst) /\ H(<<"pr", 1>>)

GConn ==
  /\ ~out
  /\ \/ More /\ Poll /\ H(<<"poll">>)
     \/ (Recv \/ DeserStep \/ SerStart \/ Enc \/ Out) /\ UNCHANGED <<h, late, out>>
     \/ React /\ (disc' => Late \/ disc)
              /\ IF disc' /\ ~disc THEN H(<<"disc">>) ELSE UNCHANGED <<h, late, out>>

Frames == [i \in 1..Len(m.frames) |-> <<m.frames[i].k, FLen(m.frames[i])>>]

(* the script ends at its length limit, or where nothing is left to do *)
Emit ==
  /\ ~out /\ pc \in {"sleep", "closed"}
  /\ Len(h) >= HLen \/ ~(ENABLED GEnv \/ ENABLED GConn)
  /\ out' = TRUE
  /\ PrintT("SCEN " \o ToJson([family |-> Family, maxbuf |-> MaxBuf, maxq |-> MaxQ, chan |-> ChanCap,
                               body |-> HintBody, frames |-> Frames, ops |-> h]))
  /\ UNCHANGED <<vars, h, late>>

GNext == GEnv \/ GConn \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
