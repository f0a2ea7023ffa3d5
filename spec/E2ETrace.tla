----------------------------- MODULE E2ETrace -----------------------------
(* Replays recorded histories of real clients and servers through the contract.  *)
(* One behaviour per history; `v` collects every broken clause with the     *)
(* position of the event that broke it.                                      *)
EXTENDS E2EAbs, TLC, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, m, v
vars == <<t, l, m, v>>

Ev == Traces[t].ev[l]

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ m = E2EInit /\ v = {}

Step == /\ l <= Len(Traces[t].ev)
        /\ v' = v \cup { <<c, l>> : c \in E2EViol(m, Ev) }
        /\ m' = E2EApply(m, Ev)
        /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(Traces[t].ev) + 1) =>
             PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, n |-> l, v |-> v']))

Spec == Init /\ [][Step]_vars
=============================================================================
