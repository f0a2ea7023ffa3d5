------------------------------ MODULE E2EImpl ------------------------------
(***************************************************************************)
(* A client and a server joined by one connection: calls registered by id,  *)
(* a bounded outbound queue and a bounded wire each way, RPCs run to their  *)
(* answers or until cancelled, answers dispatched by id.  Composes the      *)
(* abstractions of ClientImpl, ConnImpl and ServerImpl, each of which is    *)
(* checked in detail on its own.  The callers' and the service's history is *)
(* judged by E2EAbs.                                                        *)
(***************************************************************************)
EXTENDS E2EAbs, TLC

CONSTANTS NCalls, Ids, CQ, SQ, WCap, Ns, Kinds, CanDrop, CanBye,
  ById,          \* an answer goes to the call with its id
  CancelTravels, \* dropping an open call sends a cancellation
  EndInOrder,    \* the end of a stream follows its items
  RoomFirst,     \* an answer is produced only when there is room for it
  ByeReleases    \* losing the connection ends its RPCs

VARIABLES calls, reg, cq, up, rpcs, sq, down, m, bad
vars == <<calls, reg, cq, up, rpcs, sq, down, m, bad>>
C == 1..Len(calls)
R == 1..Len(rpcs)

Init == /\ calls = <<>> /\ reg = [i \in Ids |-> 0] /\ cq = <<>> /\ up = <<>> /\ rpcs = <<>> /\ sq = <<>> /\ down = <<>>
        /\ m = E2EInit /\ bad = {}

RECURSIVE Fold(_, _, _)
Fold(x, b, evs) == IF evs = <<>> THEN <<x, b>> ELSE Fold(E2EApply(x, Head(evs)), b \cup E2EViol(x, Head(evs)), Tail(evs))
Log(evs) == LET r == Fold(m, bad, evs) IN m' = r[1] /\ bad' = r[2]
Quiet == UNCHANGED <<m, bad>>

Stream(k) == k \in {"s", "sn"}
Never(k) == k \in {"un", "sn"}
(* an id is free once its call has finished; ids of dropped calls may still be in flight *)
FreeId(i) == ~m.bye /\ \A c \in C : calls[c].id # i \/ calls[c].st = "done"

Call(i, k, n) ==
  /\ Len(calls) < NCalls /\ FreeId(i) /\ Len(cq) < CQ
  /\ ~Stream(k) => n = 0
  /\ calls' = Append(calls, [id |-> i, k |-> k, n |-> n, st |-> "open", in |-> <<>>])
  /\ reg' = [reg EXCEPT ![i] = Len(calls) + 1]
  /\ cq' = Append(cq, [k |-> "req", id |-> i, c |-> Len(calls) + 1])
  /\ Log(<<[e |-> "call", c |-> Len(calls) + 1, id |-> i, s |-> Stream(k), n |-> n, never |-> Never(k)]>>)
  /\ UNCHANGED <<up, rpcs, sq, down>>

Flush == /\ cq # <<>> /\ Len(up) < WCap /\ up' = Append(up, Head(cq)) /\ cq' = Tail(cq)
         /\ UNCHANGED <<calls, reg, rpcs, sq, down>> /\ Quiet

Running(i) == { r \in R : rpcs[r].id = i /\ rpcs[r].st = "run" }
SRecv ==
  /\ up # <<>> /\ up' = Tail(up)
  /\ LET x == Head(up) IN
     IF x.k = "req"
     THEN /\ rpcs' = Append(rpcs, [c |-> x.c, id |-> x.id, st |-> "run", j |-> 0])
          /\ Log(<<[e |-> "start", c |-> x.c, id |-> x.id, ok |-> TRUE]>>)
     ELSE IF Running(x.id) = {} THEN UNCHANGED rpcs /\ Quiet
     ELSE LET r == CHOOSE r \in Running(x.id) : TRUE IN
          /\ rpcs' = [rpcs EXCEPT ![r].st = "over"]
          /\ Log(<<[e |-> "rdrop", c |-> rpcs[r].c, fin |-> FALSE]>>)
  /\ UNCHANGED <<calls, reg, cq, sq, down>>

Out(x) == IF Len(sq) >= SQ THEN UNCHANGED sq ELSE sq' = Append(sq, x)
Work(r) ==
  LET y == rpcs[r] x == calls[y.c] IN
  /\ y.st = "run" /\ (Len(sq) < SQ \/ ~RoomFirst)
  /\ IF Stream(x.k) /\ y.j < x.n
     THEN /\ Out([id |-> y.id, j |-> y.j + 1, val |-> Answer(y.c, y.j + 1), end |-> FALSE])
          /\ rpcs' = [rpcs EXCEPT ![r].j = @ + 1] /\ Quiet
     ELSE /\ ~Never(x.k)
          /\ LET o == [id |-> y.id, j |-> 0, val |-> Answer(y.c, 0), end |-> TRUE] IN
             IF EndInOrder \/ ~Stream(x.k) THEN Out(o) ELSE sq' = <<o>> \o sq
          /\ rpcs' = [rpcs EXCEPT ![r].st = "over"]
          /\ Log(<<[e |-> "rdrop", c |-> y.c, fin |-> TRUE]>>)
  /\ UNCHANGED <<calls, reg, cq, up, down>>

SFlush == /\ sq # <<>> /\ Len(down) < WCap /\ down' = Append(down, Head(sq)) /\ sq' = Tail(sq)
          /\ UNCHANGED <<calls, reg, cq, up, rpcs>> /\ Quiet

CRecv ==
  /\ down # <<>> /\ down' = Tail(down)
  /\ LET x == Head(down)
         open == { i \in Ids : reg[i] # 0 }
         i == IF ById \/ open = {} THEN x.id ELSE CHOOSE z \in open : \A w \in open : z <= w
         c == reg[i] IN
     IF c = 0 THEN UNCHANGED <<calls, reg>>
     ELSE /\ calls' = [calls EXCEPT ![c].in = Append(@, x)]
          /\ reg' = IF x.end THEN [reg EXCEPT ![i] = 0] ELSE reg
  /\ UNCHANGED <<cq, up, rpcs, sq>> /\ Quiet

Take(c) ==
  LET x == calls[c] IN
  /\ x.st = "open" /\ x.in # <<>>
  /\ LET y == Head(x.in) IN
     /\ Log(<<IF y.end /\ Stream(x.k) THEN [e |-> "end", c |-> c]
              ELSE [e |-> IF Stream(x.k) THEN "item" ELSE "resp", c |-> c, val |-> y.val, ok |-> TRUE]>>)
     /\ calls' = [calls EXCEPT ![c].in = Tail(@), ![c].st = IF y.end THEN "done" ELSE @]
  /\ UNCHANGED <<reg, cq, up, rpcs, sq, down>>

Drop(c) ==
  /\ CanDrop /\ ~m.bye /\ calls[c].st = "open"
  /\ calls' = [calls EXCEPT ![c].st = "dropped", ![c].in = <<>>]
  /\ IF reg[calls[c].id] = c
     THEN /\ reg' = [reg EXCEPT ![calls[c].id] = 0]
          /\ cq' = IF CancelTravels THEN Append(cq, [k |-> "cancel", id |-> calls[c].id, c |-> c]) ELSE cq
     ELSE UNCHANGED <<reg, cq>>
  /\ Log(<<[e |-> "drop", c |-> c]>>)
  /\ UNCHANGED <<up, rpcs, sq, down>>

(* the connection goes: nothing travels any more *)
Bye ==
  /\ CanBye /\ ~m.bye /\ cq' = <<>> /\ up' = <<>> /\ sq' = <<>> /\ down' = <<>>
  /\ rpcs' = [r \in R |-> IF ByeReleases THEN [rpcs[r] EXCEPT !.st = "over"] ELSE rpcs[r]]
  /\ LET live == { r \in R : rpcs[r].st = "run" }
         RECURSIVE Evs(_)
         Evs(s) == IF s = {} THEN <<>> ELSE LET r == CHOOSE r \in s : TRUE IN <<[e |-> "rdrop", c |-> rpcs[r].c, fin |-> FALSE]>> \o Evs(s \ {r})
     IN Log(<<[e |-> "bye"]>> \o (IF ByeReleases THEN Evs(live) ELSE <<>>))
  /\ UNCHANGED <<calls, reg>>

Internal == Flush \/ SRecv \/ (\E r \in R : Work(r)) \/ SFlush \/ CRecv \/ \E c \in C : Take(c)
Next == \/ \E i \in Ids, k \in Kinds, n \in Ns : Call(i, k, n)
        \/ \E c \in C : Drop(c)
        \/ Bye
        \/ Internal
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
(* nothing left to do: everything owed has been done *)
QuietOk == (~ENABLED Internal /\ ~m.bye) => E2EViol(m, [e |-> "q"]) = {}
GoneOk == m.bye => E2EViol(m, [e |-> "gone"]) = {}
=============================================================================
