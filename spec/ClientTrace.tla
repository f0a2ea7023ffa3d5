----------------------------- MODULE ClientTrace -----------------------------
(* Replays recorded histories of the real Client through the contract.  *)
(* One behaviour per history; `v` collects every broken clause with the     *)
(* position of the event that broke it.                                      *)
EXTENDS ClientAbs, TLC, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, m, v
vars == <<t, l, m, v>>

Ev == Traces[t].ev[l]

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ m = ClientInit /\ v = {}

Step == /\ l <= Len(Traces[t].ev)
        /\ v' = v \cup { <<c, l>> : c \in ClientViol(m, Ev) }
        /\ m' = ClientApply(m, Ev)
        /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(Traces[t].ev) + 1) =>
             PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, n |-> l, v |-> v']))

Spec == Init /\ [][Step]_vars
=============================================================================
