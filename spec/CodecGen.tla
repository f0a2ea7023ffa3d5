------------------------------ MODULE CodecGen ------------------------------
(* Behaviours of CodecImpl as scripts for the harness. *)
EXTENDS CodecImpl, Json

CONSTANTS HLen, Family
VARIABLES h, late, out
gvars == <<vars, h, late, out>>
H(op) == h' = Append(h, op) /\ UNCHANGED <<late, out>>
Twice == Len(h) > 1 /\ h[Len(h)] = <<"dec">> /\ h[Len(h) - 1] = <<"dec">>

GInit == Init /\ h = <<>> /\ out = FALSE /\ late \in 0..5
GStep ==
  /\ Len(h) < HLen
  /\ \/ \E l \in Lens : Put("msg", l) /\ H(<<"put", "msg", l>>)
     \/ \E k \in Faults, l \in Lens : Len(frames) >= late /\ Put(k, l) /\ H(<<"put", k, l>>)
     \/ \E k \in {1, 2, 3, 7} : More(k) /\ H(<<"more", k>>)
     \/ ~Twice /\ Decode /\ H(<<"dec">>)
GNext ==
  /\ ~out
  /\ \/ GStep
     \/ /\ ~ENABLED GStep
        /\ out' = TRUE /\ PrintT("SCEN " \o ToJson([family |-> Family, ops |-> h]))
        /\ UNCHANGED <<vars, h, late>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
