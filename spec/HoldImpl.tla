----------------------------- MODULE HoldImpl -----------------------------
(***************************************************************************)
(* What both ends of an RPC connection keep per call, and when they let go  *)
(* of it: the client its registered completion (shared submissions are      *)
(* picked up whenever the connection runs), the server its RPC and the      *)
(* handle to abort it, the connection its own state.                        *)
(*                                                                          *)
(* A round begins calls with the fates of `Fates`, at most Par at a time,   *)
(* carries each to its end, and in the mode "conns" also ends the           *)
(* connection with calls still open; then memory is noted.                  *)
(***************************************************************************)
EXTENDS HoldAbs, TLC

CONSTANTS
  Rounds, Warm, PerRound, Par, Fates,
  Conns,          \* every round has a connection of its own
  AnswerForgets,  \* a unary answer removes the completion / the RPC and its handle
  EndForgets,     \* the end of a stream does
  DropForgets,    \* dropping a call removes its completion
  CancelForgets,  \* a cancellation removes the RPC and its handle
  CloseForgets    \* the end of a connection releases what it held

VARIABLES calls, sub, creg, rpcs, handles, conn, begun, round, m, bad
vars == <<calls, sub, creg, rpcs, handles, conn, begun, round, m, bad>>

Rec(ev) == m' = HoldApply(m, ev) /\ bad' = bad \cup HoldViol(m, ev)

(* a call: its fate and how far it is; numbered over all rounds *)
C == DOMAIN calls
Init ==
  /\ calls = <<>> /\ sub = {} /\ creg = {} /\ rpcs = {} /\ handles = {} /\ conn = 1
  /\ begun = 0 /\ round = 1
  /\ m = HoldApply(HoldInit, [e |-> "cfg", warm |-> Warm, slack |-> 0, per |-> 1000]) /\ bad = {}

Going == { c \in C : calls[c].pc # "over" }
Same == UNCHANGED <<conn, round, m, bad>>

(* registered, then queued; or dropped while it waits for a place in the queue *)
Begin(f) ==
  /\ begun < PerRound /\ Cardinality(Going) < Par /\ conn > 0
  /\ begun' = begun + 1
  /\ LET c == Len(calls) + 1 IN
     /\ calls' = Append(calls, [f |-> f, pc |-> IF f = "wait" THEN "over" ELSE "sent"])
     /\ sub' = IF f = "wait" THEN (IF DropForgets THEN sub ELSE sub \cup {c}) ELSE sub \cup {c}
  /\ UNCHANGED <<creg, rpcs, handles>> /\ Same

(* the connection runs: it picks up what was registered *)
Pickup ==
  /\ sub # {} /\ conn > 0
  /\ creg' = creg \cup sub /\ sub' = {}
  /\ UNCHANGED <<calls, rpcs, handles, begun>> /\ Same

(* the server takes the request in *)
Start(c) ==
  /\ calls[c].pc = "sent" /\ conn > 0
  /\ calls' = [calls EXCEPT ![c].pc = "runs"]
  /\ IF calls[c].f = "unknown"   \* to the service
     THEN UNCHANGED <<rpcs, handles>>
     ELSE rpcs' = rpcs \cup {c} /\ handles' = handles \cup {c}
  /\ UNCHANGED <<sub, creg, begun>> /\ Same

Forget(S, c, yes) == IF yes THEN S \ {c} ELSE S
(* the response, or the end of the stream, crosses *)
Finish(c) ==
  /\ calls[c].pc = "runs" /\ calls[c].f \in {"answer", "end", "late"} /\ c \notin sub /\ conn > 0
  /\ calls' = [calls EXCEPT ![c].pc = IF calls[c].f = "late" THEN "there" ELSE "over"]
  /\ LET yes == IF calls[c].f = "end" THEN EndForgets ELSE AnswerForgets IN
     /\ creg' = Forget(creg, c, yes) /\ rpcs' = rpcs \ {c} /\ handles' = Forget(handles, c, yes)
  /\ UNCHANGED <<sub, begun>> /\ Same

(* the caller drops it: never answered, or its response already there *)
Drop(c) ==
  /\ \/ calls[c].pc \in {"sent", "runs"} /\ calls[c].f \in {"drop", "unknown"}
     \/ calls[c].pc = "there"
  /\ calls' = [calls EXCEPT ![c].pc = IF @ = "there" THEN "over" ELSE IF @ = "sent" THEN "dropsent" ELSE "dropped"]
  /\ creg' = Forget(creg, c, DropForgets) /\ sub' = Forget(sub, c, DropForgets)
  /\ UNCHANGED <<rpcs, handles, begun>> /\ Same
StartDropped(c) ==
  /\ calls[c].pc = "dropsent" /\ conn > 0
  /\ calls' = [calls EXCEPT ![c].pc = "dropped"]
  /\ IF calls[c].f = "unknown" THEN UNCHANGED <<rpcs, handles>> ELSE rpcs' = rpcs \cup {c} /\ handles' = handles \cup {c}
  /\ UNCHANGED <<sub, creg, begun>> /\ Same
Cancel(c) ==
  /\ calls[c].pc = "dropped" /\ conn > 0
  /\ calls' = [calls EXCEPT ![c].pc = "over"]
  /\ rpcs' = Forget(rpcs, c, CancelForgets) /\ handles' = Forget(handles, c, CancelForgets)
  /\ UNCHANGED <<sub, creg, begun>> /\ Same

(* the connection ends, whatever is open on it *)
Close ==
  /\ Conns /\ conn > 0 /\ begun = PerRound
  /\ calls' = [c \in C |-> [calls[c] EXCEPT !.pc = "over"]]
  /\ conn' = 0
  /\ IF CloseForgets THEN sub' = {} /\ creg' = {} /\ rpcs' = {} /\ handles' = {}
     ELSE UNCHANGED <<sub, creg, rpcs, handles>>
  /\ UNCHANGED <<begun, round, m, bad>>

Internal == Pickup \/ \E c \in C : Start(c) \/ Finish(c) \/ Drop(c) \/ StartDropped(c) \/ Cancel(c)
(* everything of this round is over *)
Rest ==
  /\ begun = PerRound /\ Going = {} /\ round <= Rounds /\ ~ENABLED Pickup
  /\ Conns => conn = 0
  /\ LET m1 == HoldApply(m, [e |-> "over", n |-> PerRound])
         ev == [e |-> "mem", n |-> Cardinality(sub) + Cardinality(creg) + Cardinality(rpcs) + Cardinality(handles) + conn]
     IN m' = HoldApply(m1, ev) /\ bad' = bad \cup HoldViol(m1, ev)
  /\ round' = round + 1 /\ begun' = 0 /\ conn' = 1
  /\ UNCHANGED <<calls, sub, creg, rpcs, handles>>
Next == (round <= Rounds /\ (Internal \/ Close \/ \E f \in Fates : Begin(f))) \/ Rest
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
(* only what is going on is kept *)
OnlyGoing == (sub \cup creg \cup rpcs \cup handles) \subseteq Going \cup { c \in C : calls[c].pc = "over" /\ c \in sub }
=============================================================================
