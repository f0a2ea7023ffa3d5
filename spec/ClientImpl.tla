----------------------------- MODULE ClientImpl -----------------------------
(***************************************************************************)
(* The design of the RPC client (protosocket-rpc/src/client): callers on    *)
(* any thread, the submission map they share with the connection, the       *)
(* connection's own in-flight map, the bounded outbound queue, and a server *)
(* that reads, answers in any order, cancels, sends unsolicited messages    *)
(* and goes away.  Every step below may interleave with every other.        *)
(*                                                                          *)
(* `m` runs the contract ClientAbs along; `bad` collects broken clauses.    *)
(***************************************************************************)
EXTENDS ClientAbs, TLC

CONSTANTS
  NCalls, Ids, MaxQ,
  WCap,          \* messages the connection and the kernel hold towards the server
  NResp,         \* responses the server writes at most
  NStray,        \* ... of these, unsolicited ones
  Kinds, CanFin, CanRst, CanCancel,
  MaxBuf, Sizes, \* the size limit, and the sizes of requests
  CanBad,        \* the server may send malformed or oversized bytes
  CanBye,        \* the client handles may be dropped
  CanAgain,      \* an id may also be used again right after its call was dropped
  NewestWins,    \* a newly registered completion replaces an older one of the same id
  CheckSize,     \* a request above the limit ends the connection instead of being sent
  RegisterFirst, \* register the completion before the request is queued
  ReceiverFirst, \* a dying connection closes its queue before its registry
  ClearSubmissions, \* ... and fails what is registered but not picked up
  DoneOnlyIfOpen, \* dropping a finished completion leaves the registry alone
  CancelOnDrop, GuardClosed

VARIABLES
  calls,   \* [id, k, pc, box, guard]
  sub,     \* shared submissions: id -> 0, -1 (done), call
  infl,    \* id -> 0 or call
  chan, wout, win, batch,
  phase,   \* connection: "up", "half", "dead"
  srv,     \* server's view: id -> 0 or the kind of the request it serves
  stray, fin, rst, alive,
  bye,     \* no client handle is left
  m, bad

vars == <<calls, sub, infl, chan, wout, win, batch, phase, srv, stray, fin, rst, alive, bye, m, bad>>

Rec(ev) == m' = ClientApply(m, ev) /\ bad' = bad \cup ClientViol(m, ev)
RecNone == UNCHANGED <<m, bad>>

Init ==
  /\ calls = <<>> /\ sub = [i \in Ids |-> 0] /\ infl = [i \in Ids |-> 0]
  /\ chan = <<>> /\ wout = <<>> /\ win = <<>> /\ batch = <<>>
  /\ phase = "up" /\ srv = [i \in Ids |-> "no"] /\ stray = 0 /\ fin = FALSE /\ rst = FALSE /\ alive = TRUE /\ bye = FALSE
  /\ m = ClientApply(ClientInit, [e |-> "cfg", maxq |-> MaxQ, maxbuf |-> MaxBuf]) /\ bad = {}

C == 1..Len(calls)
(* the sending half of call c's completion still exists *)
Live(c) == sub[calls[c].id] = c \/ infl[calls[c].id] = c \/ calls[c].pc = "start"
           \/ (~RegisterFirst /\ calls[c].pc = "sent")
(* an id may be used again once its call has finished *)
InUse(i) == \E c \in C : calls[c].id = i /\ m.calls[c].st # "finished" /\ ~(CanAgain /\ m.calls[c].st = "dropped")
Unfinished(i) == \E c \in C : calls[c].id = i /\ m.calls[c].st \in {"sending", "open"}
(* its cancellation is under way, and the server does not answer it any more *)
Cancelling(i) == CanAgain /\ \/ \E j \in 1..Len(wout) : wout[j].id = i /\ wout[j].code = 1
                             \/ \E j \in 1..Len(chan) : chan[j].id = i /\ chan[j].code = 1
(* nothing of an earlier call with this id is under way *)
Quiesced(i) == /\ \A j \in 1..Len(win) : win[j].id # i
               /\ \A j \in 1..Len(batch) : batch[j].id # i
               /\ \A j \in 1..Len(wout) : wout[j].id # i \/ (CanAgain /\ wout[j].code = 1)
               /\ \A j \in 1..Len(chan) : chan[j].id # i \/ (CanAgain /\ chan[j].code = 1)
               /\ srv[i] = "no" \/ Cancelling(i)

-----------------------------------------------------------------------------
(* Callers *)
Begin(k, i, n) ==
  /\ Len(calls) < NCalls /\ ~InUse(i) /\ ~bye
  /\ Quiesced(i)
  /\ \A j \in Ids : j < i => \E c \in C : calls[c].id = j   \* ids are interchangeable
  /\ LET ev == [e |-> "call", c |-> Len(calls) + 1, id |-> i, k |-> k, val |-> Len(calls) + 1, n |-> n]
         m1 == ClientApply(m, ev)
     IN IF alive
        THEN /\ m' = ClientApply(m1, [e |-> "keep", c |-> Len(calls) + 1]) /\ bad' = bad \cup ClientViol(m, ev)
             /\ calls' = Append(calls, [id |-> i, k |-> k, n |-> n, pc |-> "start", box |-> <<>>, guard |-> TRUE])
        ELSE /\ m' = ClientApply(m1, [e |-> "refused", c |-> Len(calls) + 1, k |-> "closed"])
             /\ bad' = bad \cup ClientViol(m1, [e |-> "refused", c |-> Len(calls) + 1, k |-> "closed"])
             /\ calls' = Append(calls, [id |-> i, k |-> k, n |-> n, pc |-> "gone", box |-> <<>>, guard |-> FALSE])
  /\ UNCHANGED <<sub, infl, chan, wout, win, batch, phase, srv, stray, fin, rst, alive, bye>>

Register(c) ==
  /\ calls[c].pc = (IF RegisterFirst THEN "start" ELSE "sent")
  /\ sub' = [sub EXCEPT ![calls[c].id] = c]
  /\ IF RegisterFirst
     THEN /\ calls' = [calls EXCEPT ![c].pc = "reg"] /\ RecNone
     ELSE /\ calls' = [calls EXCEPT ![c].pc = "open"] /\ Rec([e |-> "issued", c |-> c])
  /\ UNCHANGED <<infl, chan, wout, win, batch, phase, srv, stray, fin, rst, alive, bye>>

(* dropping a completion guard that was not told the call is over *)
Unguard(c, ch) ==
  IF CancelOnDrop /\ phase = "up" /\ Len(ch) < MaxQ
  THEN Append(ch, [id |-> calls[c].id, code |-> 1, c |-> c]) ELSE ch

Send(c) ==
  /\ calls[c].pc = (IF RegisterFirst THEN "reg" ELSE "start")
  /\ IF phase # "up"
     THEN /\ calls' = [calls EXCEPT ![c].pc = "gone"]
          /\ sub' = [sub EXCEPT ![calls[c].id] = -1]
          /\ Rec([e |-> "refused", c |-> c, k |-> "closed"]) /\ chan' = chan
     ELSE /\ Len(chan) < MaxQ
          /\ chan' = Append(chan, [id |-> calls[c].id, code |-> 0, c |-> c])
          /\ IF RegisterFirst
             THEN /\ calls' = [calls EXCEPT ![c].pc = "open"] /\ Rec([e |-> "issued", c |-> c])
             ELSE /\ calls' = [calls EXCEPT ![c].pc = "sent"] /\ RecNone
          /\ sub' = sub
  /\ UNCHANGED <<infl, wout, win, batch, phase, srv, stray, fin, rst, alive, bye>>

(* polling a completion; only a woken task would, so only when there is something *)
PollCall(c) ==
  /\ calls[c].pc = "open"
  /\ IF calls[c].box # <<>>
     THEN /\ Rec([e |-> IF calls[c].k = "u" THEN "res" ELSE "item", c |-> c, val |-> Head(calls[c].box), ok |-> TRUE])
          /\ calls' = [calls EXCEPT ![c].box = Tail(@),
                                    ![c].pc = IF calls[c].k = "u" THEN "over" ELSE "open",
                                    ![c].guard = IF calls[c].k = "u" /\ GuardClosed THEN FALSE ELSE @]
     ELSE /\ ~Live(c)
          /\ Rec([e |-> IF calls[c].k = "u" THEN "err" ELSE "end", c |-> c, k |-> "finished"])
          /\ calls' = [calls EXCEPT ![c].pc = "over", ![c].guard = ~GuardClosed]
  /\ UNCHANGED <<sub, infl, chan, wout, win, batch, phase, srv, stray, fin, rst, alive, bye>>

(* the caller loses interest, or lets go of a finished completion *)
Drop(c) ==
  /\ calls[c].pc \in {"reg", "open", "over"}
  /\ calls' = [calls EXCEPT ![c].pc = "gone", ![c].box = <<>>]
  /\ sub' = IF calls[c].guard \/ ~DoneOnlyIfOpen THEN [sub EXCEPT ![calls[c].id] = -1] ELSE sub
  /\ chan' = IF calls[c].guard THEN Unguard(c, chan) ELSE chan
  /\ Rec([e |-> "drop", c |-> c])
  /\ UNCHANGED <<infl, wout, win, batch, phase, srv, stray, fin, rst, alive, bye>>

-----------------------------------------------------------------------------
(* The connection *)
TooBig(x) == CheckSize /\ x.code = 0 /\ calls[x.c].n > MaxBuf
Serialize ==
  /\ phase = "up" /\ chan # <<>> /\ Len(wout) < WCap
  /\ ~TooBig(Head(chan))
  /\ chan' = Tail(chan) /\ wout' = Append(wout, Head(chan))
  /\ Rec([e |-> "enc", id |-> Head(chan).id, code |-> Head(chan).code])
  /\ UNCHANGED <<calls, sub, infl, win, batch, phase, srv, stray, fin, rst, alive, bye>>

(* a batch of inbound messages: first pick up the submissions *)
ReactStart ==
  /\ phase = "up" /\ batch = <<>> /\ win # <<>>
  /\ \E n \in 1..Len(win) :
       /\ \A j \in 1..n : win[j].id # 0
       /\ batch' = SubSeq(win, 1, n) /\ win' = SubSeq(win, n + 1, Len(win))
  /\ infl' = [i \in Ids |-> IF sub[i] > 0 THEN (IF NewestWins \/ infl[i] = 0 THEN sub[i] ELSE infl[i]) ELSE IF sub[i] = -1 THEN 0 ELSE infl[i]]
  /\ sub' = [i \in Ids |-> 0]
  /\ RecNone
  /\ UNCHANGED <<calls, chan, wout, phase, srv, stray, fin, rst, alive, bye>>

ReactOne ==
  /\ phase = "up" /\ batch # <<>>
  /\ batch' = Tail(batch)
  /\ LET r == Head(batch) c == infl[r.id] IN
     IF c = 0 THEN UNCHANGED <<infl, calls>>
     ELSE IF r.code # 0 THEN infl' = [infl EXCEPT ![r.id] = 0] /\ calls' = calls
     ELSE /\ infl' = IF calls[c].k = "u" \/ calls[c].pc = "gone" THEN [infl EXCEPT ![r.id] = 0] ELSE infl
          /\ calls' = IF calls[c].pc = "gone" THEN calls ELSE [calls EXCEPT ![c].box = Append(@, r.val)]
  /\ RecNone
  /\ UNCHANGED <<sub, chan, wout, win, phase, srv, stray, fin, rst, alive, bye>>

(* nobody can send any more, and everything was sent *)
Closed == bye /\ chan = <<>> /\ \A c \in C : calls[c].pc = "gone"
(* the connection notices that the link is gone (an orderly end only after everything was read) *)
Die1 ==
  /\ phase = "up" /\ \/ rst \/ (fin /\ win = <<>> /\ batch = <<>>)
                     \/ (chan # <<>> /\ TooBig(Head(chan)) /\ Len(wout) < WCap)
                     \/ (batch = <<>> /\ \E j \in 1..Len(win) : win[j].id = 0)  \* with the good ones ahead of it
                     \/ Closed
  /\ phase' = "half"
  /\ Rec([e |-> "done"])
  /\ IF ReceiverFirst THEN chan' = <<>> /\ UNCHANGED <<infl, sub, alive>>
     ELSE /\ alive' = FALSE /\ infl' = [i \in Ids |-> 0] /\ chan' = chan
          /\ sub' = IF ClearSubmissions THEN [i \in Ids |-> 0] ELSE sub
  /\ UNCHANGED <<calls, wout, win, batch, srv, stray, fin, rst, bye>>
Die2 ==
  /\ phase = "half" /\ phase' = "dead"
  /\ RecNone
  /\ IF ~ReceiverFirst THEN chan' = <<>> /\ UNCHANGED <<infl, sub, alive>>
     ELSE /\ alive' = FALSE /\ infl' = [i \in Ids |-> 0] /\ chan' = chan
          /\ sub' = IF ClearSubmissions THEN [i \in Ids |-> 0] ELSE sub
  /\ UNCHANGED <<calls, wout, win, batch, srv, stray, fin, rst, bye>>
(* with the order reversed the queue is still open in between *)
LateSend(c) ==
  /\ ~ReceiverFirst /\ phase = "half" /\ calls[c].pc = "reg" /\ Len(chan) < MaxQ
  /\ chan' = Append(chan, [id |-> calls[c].id, code |-> 0, c |-> c])
  /\ calls' = [calls EXCEPT ![c].pc = "open"]
  /\ Rec([e |-> "issued", c |-> c])
  /\ UNCHANGED <<sub, infl, wout, win, batch, phase, srv, stray, fin, rst, alive, bye>>

-----------------------------------------------------------------------------
(* The server *)
SRead ==
  /\ wout # <<>> /\ ~rst
  /\ wout' = Tail(wout)
  /\ LET x == Head(wout) IN
     /\ Rec([e |-> "preq", id |-> x.id, code |-> x.code, val |-> x.c, ok |-> TRUE])
     /\ srv' = [srv EXCEPT ![x.id] = IF x.code = 0 THEN calls[x.c].k ELSE "no"]
  /\ UNCHANGED <<calls, sub, infl, chan, win, batch, phase, stray, fin, rst, alive, bye>>

Resp(i, code) ==
  /\ Len(m.R) < NResp /\ ~fin /\ ~rst
  /\ LET v == Len(m.R) + 1000 IN
     /\ win' = Append(win, [id |-> i, code |-> code, val |-> v])
     /\ Rec([e |-> "presp", id |-> i, code |-> code, val |-> v])
  /\ UNCHANGED <<calls, sub, infl, chan, wout, batch, phase, fin, rst, alive, bye>>
Answer(i, code) ==
  /\ srv[i] # "no" /\ ~Cancelling(i) /\ (code = 0 \/ (code = 2 /\ srv[i] = "s") \/ (code = 1 /\ CanCancel))
  /\ Resp(i, code)
  /\ srv' = [srv EXCEPT ![i] = IF code # 0 \/ @ = "u" THEN "no" ELSE @]
  /\ stray' = stray
Stray(i, code) ==
  /\ stray < NStray /\ srv[i] = "no" /\ ~Unfinished(i)
  /\ Resp(i, code)
  /\ stray' = stray + 1 /\ srv' = srv
Fin == /\ CanFin /\ ~fin /\ ~rst /\ fin' = TRUE /\ Rec([e |-> "pfin"])
       /\ UNCHANGED <<calls, sub, infl, chan, wout, win, batch, phase, srv, stray, rst, alive, bye>>
Rst == /\ CanRst /\ ~rst /\ rst' = TRUE /\ Rec([e |-> "prst"])
       /\ UNCHANGED <<calls, sub, infl, chan, wout, win, batch, phase, srv, stray, fin, alive, bye>>

Bad == /\ CanBad /\ ~fin /\ ~rst /\ ~m.bad /\ win' = Append(win, [id |-> 0, code |-> 0, val |-> 0]) /\ Rec([e |-> "pbad"])
       /\ UNCHANGED <<calls, sub, infl, chan, wout, batch, phase, srv, stray, fin, rst, alive, bye>>
Bye == /\ CanBye /\ ~bye /\ bye' = TRUE /\ Rec([e |-> "noclient"])
       /\ UNCHANGED <<calls, sub, infl, chan, wout, win, batch, phase, srv, stray, fin, rst, alive>>

Internal == \/ \E c \in C : Register(c) \/ Send(c) \/ PollCall(c) \/ LateSend(c)
            \/ Serialize \/ ReactStart \/ ReactOne \/ Die1 \/ Die2
Next == \/ Internal \/ SRead \/ Fin \/ Rst \/ Bad \/ Bye
        \/ \E k \in Kinds, i \in Ids, n \in Sizes : Begin(k, i, n)
        \/ \E c \in C : Drop(c)
        \/ \E i \in Ids, code \in 0..2 : Answer(i, code) \/ Stray(i, code)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoViolation == bad = {}
Quiet == ~ENABLED Internal
QuietOk == Quiet => /\ ClientViol(m, [e |-> "q", drained |-> wout = <<>>]) = {}
                    /\ ClientViol(m, [e |-> "alive", v |-> alive]) = {}
=============================================================================
