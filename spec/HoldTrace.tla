----------------------------- MODULE HoldTrace -----------------------------
(* Replays recorded rounds of real clients and servers through the contract.  *)
(* One behaviour per history; `v` collects every broken clause with the     *)
(* position of the event that broke it.                                      *)
EXTENDS HoldAbs, TLC, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, m, v
vars == <<t, l, m, v>>

Ev == Traces[t].ev[l]

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ m = HoldInit /\ v = {}

Step == /\ l <= Len(Traces[t].ev)
        /\ v' = v \cup { <<c, l>> : c \in HoldViol(m, Ev) }
        /\ m' = HoldApply(m, Ev)
        /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(Traces[t].ev) + 1) =>
             PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, n |-> l, v |-> v']))

Spec == Init /\ [][Step]_vars
=============================================================================
