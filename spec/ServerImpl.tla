----------------------------- MODULE ServerImpl -----------------------------
(***************************************************************************)
(* The design of the RPC server (protosocket-rpc/src/server): the listener, *)
(* and for each connection its transport, the unbounded inbound queue, the  *)
(* server task (batched intake, abort handles, woken RPCs, reserve-then-    *)
(* poll), the bounded outbound queue and the wire to a client that reads    *)
(* when it likes.  Every step may interleave with every other; a poll of a  *)
(* server task is split wherever another thread can get in between.         *)
(*                                                                          *)
(* `m` runs the contract ServerAbs along; `bad` collects broken clauses.    *)
(***************************************************************************)
EXTENDS ServerAbs, TLC

CONSTANTS
  NConn, Ids, MaxQ, WCap,
  Batch,         \* messages one poll takes in
  NReq, NCtl,    \* requests and control messages the clients write at most
  NGive,         \* items and ends the RPCs produce at most
  Kinds,         \* subset of {"u", "s", "x"}; x: the service panics
  CanFin, CanRst, CanBad, CanBoom, CanFault, CanOver,
  CheckOut,      \* an output above the size limit ends the connection instead of being sent
  WakeOnBatch,   \* a poll that took in a batch wakes the task again
  ReserveFirst,  \* a slot in the outbound queue is reserved before an RPC is polled
  WakeOnRoom,    \* waiting for a slot registers for room
  OwnHandle,     \* retiring a cancelled RPC leaves the abort handles alone
  AbortWakes,    \* aborting wakes the RPC
  FusedEnd,      \* a stream that ended is not polled again
  ExitOnClose,   \* a closed inbound queue ends the task
  AcceptRewake,  \* accepting a connection looks for another one
  FaultRecovers  \* a failed accept does not end the listener

VARIABLES c, rpcs, backlog, lwake, listening, faults, used, m, bad
vars == <<c, rpcs, backlog, lwake, listening, faults, used, m, bad>>

N == 1..NConn
None == [st |-> "no", win |-> <<>>, inq |-> <<>>, task |-> "no", wake |-> FALSE, permit |-> FALSE, resw |-> FALSE,
         outq |-> <<>>, wout |-> <<>>, h |-> [i \in Ids |-> 0], fin |-> FALSE, rst |-> FALSE, bad |-> FALSE]

Init ==
  /\ c = [n \in N |-> None] /\ rpcs = <<>> /\ backlog = <<>> /\ lwake = TRUE /\ listening = TRUE
  /\ faults = 0 /\ used = [req |-> 0, ctl |-> 0, give |-> 0]
  /\ m = ServerInit /\ bad = {}

RECURSIVE Run(_, _)
Run(mb, evs) ==
  IF evs = <<>> THEN mb
  ELSE Run([m |-> ServerApply(mb.m, Head(evs)), bad |-> mb.bad \cup ServerViol(mb.m, Head(evs))], Tail(evs))
Rec(evs) == LET r == Run([m |-> m, bad |-> bad], evs) IN m' = r.m /\ bad' = r.bad

-----------------------------------------------------------------------------
(* Clients *)
Dialled == Len(m.conns)
Dial ==
  /\ Dialled < NConn
  /\ backlog' = Append(backlog, Dialled + 1) /\ lwake' = TRUE
  /\ c' = [c EXCEPT ![Dialled + 1].st = "wait"]
  /\ Rec(<<[e |-> "dial", n |-> Dialled + 1, maxq |-> MaxQ, cap |-> WCap, maxbuf |-> 5]>>)
  /\ UNCHANGED <<rpcs, listening, faults, used>>

CanWrite(n) == c[n].st # "no" /\ ~c[n].fin /\ ~c[n].rst /\ ~c[n].bad
Write(n, q) ==
  /\ c' = [c EXCEPT ![n].win = Append(@, q)]
  /\ Rec(<<[e |-> "creq", n |-> n, id |-> q.id, code |-> q.code, val |-> q.val, k |-> q.k]>>)
  /\ UNCHANGED <<rpcs, backlog, lwake, listening, faults>>

(* an id may be used again once its RPC was answered, or after cancelling it *)
Free(n, i) ==
  \A j \in 1..Len(m.conns[n].reqs) :
    LET q == m.conns[n].reqs[j] IN
    (q.id = i /\ Ordinary(q)) =>
       \/ \E x \in (j + 1)..Len(m.conns[n].reqs) : m.conns[n].reqs[x].id = i /\ Cancels(m.conns[n].reqs[x])
       \/ \E r \in R(m) : /\ m.rpcs[r].n = n /\ m.rpcs[r].at = j
                          /\ \/ m.rpcs[r].k = "u" /\ m.rpcs[r].nrecv = 1
                             \/ m.rpcs[r].endrecv
Req(n, i, k) ==
  /\ used.req < NReq /\ CanWrite(n) /\ Free(n, i)
  /\ \A j \in Ids : j < i => \E x \in 1..Len(m.conns[n].reqs) : m.conns[n].reqs[x].id = j
  /\ used' = [used EXCEPT !.req = @ + 1]
  /\ Write(n, [id |-> i, code |-> 0, val |-> used.req + 1, k |-> k])
Ctl(n, i, code) ==
  /\ used.ctl < NCtl /\ CanWrite(n)
  /\ used' = [used EXCEPT !.ctl = @ + 1]
  /\ Write(n, [id |-> i, code |-> code, val |-> 0, k |-> "x"])
Lose(n, f, ev) ==
  /\ c[n].st # "no" /\ ~c[n].rst /\ ~c[n].bad /\ ~c[n].fin
  /\ c' = [c EXCEPT ![n] = f]
  /\ Rec(<<[e |-> ev, n |-> n, big |-> FALSE]>>)
  /\ UNCHANGED <<rpcs, backlog, lwake, listening, faults, used>>
Fin(n) == CanFin /\ Lose(n, [c[n] EXCEPT !.fin = TRUE], "cfin")
Rst(n) == CanRst /\ Lose(n, [c[n] EXCEPT !.rst = TRUE, !.wout = <<>>], "crst")
Bad(n) == CanBad /\ Lose(n, [c[n] EXCEPT !.bad = TRUE], "cbad")

CRead(n) ==
  /\ c[n].wout # <<>> /\ ~c[n].rst
  /\ c' = [c EXCEPT ![n].wout = Tail(@)]
  /\ LET x == Head(c[n].wout) IN
     Rec(<<[e |-> "crecv", n |-> n, id |-> x.id, code |-> x.code, val |-> x.val, ok |-> TRUE]>>)
  /\ UNCHANGED <<rpcs, backlog, lwake, listening, faults, used>>
CEof(n) ==
  /\ c[n].st = "dead" /\ c[n].wout = <<>> /\ ~c[n].rst /\ ~m.conns[n].eof
  /\ Rec(<<[e |-> "ceof", n |-> n]>>)
  /\ UNCHANGED <<c, rpcs, backlog, lwake, listening, faults, used>>

-----------------------------------------------------------------------------
(* The listener *)
Accept ==
  /\ listening /\ lwake
  /\ IF backlog = <<>> THEN lwake' = FALSE /\ UNCHANGED <<c, backlog, m, bad>>
     ELSE /\ lwake' = AcceptRewake
          /\ backlog' = Tail(backlog)
          /\ LET n == Head(backlog) IN
             /\ c' = [c EXCEPT ![n].st = "up", ![n].task = "sleep", ![n].wake = TRUE]
             /\ Rec(<<[e |-> "svc", n |-> n]>>)
  /\ UNCHANGED <<rpcs, listening, faults, used>>
(* a transient failure of accept, as when out of file descriptors *)
AcceptFails ==
  /\ CanFault /\ listening /\ lwake /\ backlog # <<>> /\ faults = 0
  /\ faults' = 1 /\ listening' = FaultRecovers
  /\ UNCHANGED <<c, rpcs, backlog, lwake, used, m, bad>>

-----------------------------------------------------------------------------
(* The transport of one connection *)
ReadIn(n) ==
  /\ c[n].st = "up" /\ c[n].win # <<>> /\ ~c[n].rst
  /\ \E k \in 1..Len(c[n].win) :
       c' = [c EXCEPT ![n].inq = @ \o SubSeq(c[n].win, 1, k), ![n].win = SubSeq(@, k + 1, Len(@)), ![n].wake = TRUE]
  /\ UNCHANGED <<rpcs, backlog, lwake, listening, faults, used, m, bad>>
Over9(x) == CheckOut /\ x.val >= 5000
Drain(n) ==
  /\ c[n].st = "up" /\ c[n].outq # <<>> /\ Len(c[n].wout) < WCap /\ ~c[n].rst
  /\ ~Over9(Head(c[n].outq))
  /\ c' = [c EXCEPT ![n].outq = Tail(@), ![n].wout = Append(@, Head(c[n].outq)),
                    ![n].wake = @ \/ (WakeOnRoom /\ c[n].resw), ![n].resw = FALSE]
  /\ IF Head(c[n].outq).code = 0 THEN Rec(<<[e |-> "oenc", n |-> n]>>) ELSE UNCHANGED <<m, bad>>
  /\ UNCHANGED <<rpcs, backlog, lwake, listening, faults, used>>
ConnEnd(n) ==
  /\ c[n].st = "up"
  /\ c[n].rst \/ c[n].bad \/ (c[n].fin /\ c[n].win = <<>>) \/ (c[n].task = "gone" /\ c[n].outq = <<>>)
     \/ (c[n].outq # <<>> /\ Over9(Head(c[n].outq)) /\ Len(c[n].wout) < WCap)
  /\ c' = [c EXCEPT ![n].st = "dead", ![n].outq = <<>>, ![n].win = <<>>, ![n].wake = TRUE]
  /\ UNCHANGED <<rpcs, backlog, lwake, listening, faults, used, m, bad>>

-----------------------------------------------------------------------------
(* The server task of one connection *)
Mine(rs, n) == { r \in 1..Len(rs) : rs[r].n = n /\ rs[r].live }
RECURSIVE Drops(_)
Drops(S) == IF S = {} THEN <<>>
            ELSE LET r == CHOOSE x \in S : \A y \in S : x <= y IN <<[e |-> "rdrop", r |-> r]>> \o Drops(S \ {r})
(* the task ends: everything it owns is dropped; w: [cn, rs, evs] *)
Exit(w, n) ==
  [ cn |-> [w.cn EXCEPT !.task = "gone", !.inq = <<>>, !.wake = FALSE, !.permit = FALSE, !.resw = FALSE, !.h = [i \in Ids |-> 0]],
    rs |-> [r \in 1..Len(w.rs) |-> IF r \in Mine(w.rs, n) THEN [w.rs[r] EXCEPT !.live = FALSE, !.woken = FALSE, !.q = <<>>] ELSE w.rs[r]],
    evs |-> w.evs \o <<[e |-> "sdrop", n |-> n]>> \o Drops(Mine(w.rs, n)) ]
Set(w, n) ==
  /\ c' = [c EXCEPT ![n] = w.cn] /\ rpcs' = w.rs
  /\ IF w.evs = <<>> THEN UNCHANGED <<m, bad>> ELSE Rec(w.evs)
  /\ UNCHANGED <<backlog, lwake, listening, faults, used>>

Abort(rs, r) == [rs EXCEPT ![r].st = 2, ![r].woken = @ \/ AbortWakes]

RECURSIVE Intake(_, _, _)
Intake(w, n, msgs) ==
  IF msgs = <<>> THEN w
  ELSE LET q == Head(msgs) r == Len(w.rs) + 1 h == w.cn.h[q.id] IN
    IF Ordinary(q)
    THEN LET s == <<[e |-> "start", n |-> n, r |-> r, id |-> q.id, code |-> 0, val |-> q.val, ok |-> TRUE]>>
             new == [n |-> n, id |-> q.id, k |-> q.k, q |-> <<>>, st |-> 0, live |-> q.k # "x", woken |-> q.k # "x"]
         IN IF q.k = "x"
            THEN Exit([cn |-> w.cn, rs |-> Append(w.rs, new), evs |-> w.evs \o s \o <<[e |-> "boom", r |-> r]>>], n)
            ELSE Intake([cn |-> [w.cn EXCEPT !.h[q.id] = r], rs |-> Append(w.rs, new), evs |-> w.evs \o s], n, Tail(msgs))
    ELSE IF Cancels(q) /\ h # 0
    THEN Intake([w EXCEPT !.cn.h[q.id] = 0, !.rs = Abort(@, h)], n, Tail(msgs))
    ELSE Intake(w, n, Tail(msgs))

TaskStart(n) ==
  /\ c[n].task = "sleep" /\ c[n].wake
  /\ LET cn == c[n]
         k == IF Len(cn.inq) < Batch THEN Len(cn.inq) ELSE Batch
         w == [cn |-> [cn EXCEPT !.wake = (k > 0 /\ WakeOnBatch), !.inq = SubSeq(@, k + 1, Len(@)), !.task = "u"], rs |-> rpcs, evs |-> <<>>]
     IN Set(IF k = 0 /\ cn.st = "dead" /\ ExitOnClose THEN Exit(w, n) ELSE Intake(w, n, SubSeq(cn.inq, 1, k)), n)

(* one RPC is polled, with a reserved slot *)
PollRpc(w, n, r) ==
  LET p == w.rs[r]
      Retire(ww) == [ww EXCEPT !.rs[r].live = FALSE, !.rs[r].woken = FALSE, !.evs = @ \o <<[e |-> "rdrop", r |-> r]>>]
      room == ReserveFirst \/ Len(w.cn.outq) < MaxQ
      Put(ww, x) == [ww EXCEPT !.cn.outq = IF room THEN Append(@, x) ELSE @, !.cn.permit = FALSE]
  IN CASE p.st = 3 -> Retire(w)
       [] p.st = 2 -> LET w1 == Retire(w) h == w.cn.h[p.id] IN
                      IF OwnHandle \/ h = 0 THEN w1
                      ELSE [w1 EXCEPT !.cn.h[p.id] = 0, !.rs = Abort(@, h)]
       [] p.st = 0 /\ p.q = <<>> -> [w EXCEPT !.rs[r].woken = FALSE, !.evs = @ \o <<[e |-> "rpoll", r |-> r]>>]
       [] p.st = 0 /\ p.q # <<>> /\ Head(p.q) = -1 ->
            LET w1 == [w EXCEPT !.rs[r].st = IF FusedEnd THEN 3 ELSE 0, !.rs[r].q = IF FusedEnd THEN Tail(@) ELSE @, !.cn.h[p.id] = 0,
                                !.evs = @ \o <<[e |-> "rpoll", r |-> r], [e |-> "rend", r |-> r]>>]
            IN Put(w1, [id |-> p.id, code |-> 2, val |-> 0])
       [] p.st = 0 /\ p.q # <<>> /\ Head(p.q) = -2 ->
            Exit([w EXCEPT !.evs = @ \o <<[e |-> "rpoll", r |-> r], [e |-> "boom", r |-> r]>>], n)
       [] OTHER ->
            LET w1 == [w EXCEPT !.rs[r].q = Tail(@), !.evs = @ \o <<[e |-> "rpoll", r |-> r], [e |-> "prod", r |-> r, val |-> Head(p.q), n |-> IF Head(p.q) >= 5000 THEN 9 ELSE 1]>>]
                w2 == Put(w1, [id |-> p.id, code |-> 0, val |-> Head(p.q)])
            IN IF p.k = "u" THEN [Retire(w2) EXCEPT !.cn.h[p.id] = 0] ELSE w2

Advance(n, pc, k, next) ==
  /\ c[n].task = pc
  /\ LET cn == c[n]
         w == [cn |-> cn, rs |-> rpcs, evs |-> <<>>]
         ready == { r \in Mine(rpcs, n) : rpcs[r].k = k /\ rpcs[r].woken }
         full == Len(cn.outq) >= MaxQ
     IN IF ~cn.permit /\ cn.st = "dead" THEN Set(Exit(w, n), n)
        ELSE IF ~cn.permit /\ full /\ ReserveFirst
        THEN Set([w EXCEPT !.cn.resw = TRUE, !.cn.task = next], n)
        ELSE LET w1 == [w EXCEPT !.cn.permit = ReserveFirst] IN
             IF ready = {} THEN Set([w1 EXCEPT !.cn.task = next], n)
             ELSE \E r \in ready : Set(PollRpc(w1, n, r), n)
AdvU(n) == Advance(n, "u", "u", "s")
AdvS(n) == Advance(n, "s", "s", "sleep")

(* the application behind an RPC produces something: an item, the end (-1), a panic (-2) *)
Give(r, x) ==
  /\ used.give < NGive
  /\ rpcs[r].live /\ Len(rpcs[r].q) < 2
  /\ (\A j \in 1..Len(rpcs[r].q) : rpcs[r].q[j] > 0)
  /\ x = -1 => rpcs[r].k = "s"
  /\ x = -2 => CanBoom
  /\ x = 1 => CanOver
  /\ (rpcs[r].k = "u" => rpcs[r].q = <<>>) /\ rpcs[r].st # 3
  /\ used' = [used EXCEPT !.give = @ + 1]
  /\ rpcs' = [rpcs EXCEPT ![r].q = Append(@, IF x = 0 THEN 1000 + used.give ELSE IF x = 1 THEN 5000 + used.give ELSE x), ![r].woken = TRUE]
  /\ c' = [c EXCEPT ![rpcs[r].n].wake = TRUE]
  /\ Rec(IF x = -2 THEN <<>> ELSE <<[e |-> "avail", r |-> r, end |-> x = -1]>>)
  /\ UNCHANGED <<backlog, lwake, listening, faults>>

-----------------------------------------------------------------------------
Internal == \/ Accept
            \/ \E n \in N : ReadIn(n) \/ Drain(n) \/ ConnEnd(n) \/ TaskStart(n) \/ AdvU(n) \/ AdvS(n)
Quiet == ~ENABLED Internal
QEvent == [e |-> "q", rd |-> [n \in 1..Dialled |-> c[n].wout = <<>> /\ ~ENABLED CEof(n)], wr |-> [n \in 1..Dialled |-> c[n].win = <<>>],
           tasks |-> Cardinality({ n \in N : c[n].task \notin {"no", "gone"} \/ c[n].st \in {"up"} })]
(* an observer notes that the server has come to rest *)
Rest ==
  /\ Quiet /\ m.conns # ServerApply(m, QEvent).conns
  /\ Rec(<<QEvent>>)
  /\ UNCHANGED <<c, rpcs, backlog, lwake, listening, faults, used>>

Next == \/ Internal \/ AcceptFails \/ Rest \/ Dial
        \/ \E n \in N : Fin(n) \/ Rst(n) \/ Bad(n) \/ CRead(n) \/ CEof(n)
        \/ \E n \in N, i \in Ids, k \in Kinds : Req(n, i, k)
        \/ \E n \in N, i \in Ids, code \in {1, 2} : Ctl(n, i, code)
        \/ \E r \in 1..Len(rpcs), x \in {0, 1, -1, -2} : Give(r, x)
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
QuietOk == (Quiet /\ Dialled > 0) => ServerViol(m, QEvent) = {}
=============================================================================
