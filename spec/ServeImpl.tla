----------------------------- MODULE ServeImpl -----------------------------
(***************************************************************************)
(* The design of ProtosocketServer (protosocket-server): one listener task  *)
(* accepting connections, each of which runs as a task of its own with the  *)
(* limits the server had when it was accepted.  The connection itself is    *)
(* modelled message by message (its bytes and buffers are ConnImpl's        *)
(* subject).                                                                *)
(*                                                                          *)
(* `m` runs the contract ServeAbs along; `bad` collects broken clauses.     *)
(***************************************************************************)
EXTENDS ServeAbs, TLC

CONSTANTS
  NConn, NIn, NOut, WCap,
  Limits,        \* the buffer limits the server may be given, a set
  Lens,          \* message lengths
  InKinds,       \* subset of {"msg", "skip", "bad"}
  MaxQ,
  CanFin, CanRst, CanDrop, CanDisc, CanFault, CanLimit,
  ServeRewake,   \* after accepting, the listener looks for another connection
  ServeRecovers, \* a failed accept does not end the listener
  LimitsNow,     \* a connection gets the limits in force when it is accepted
  OwnTask        \* each connection is a task of its own: its end is nobody else's

VARIABLES c, backlog, lwake, listening, limit, faults, used, m, bad
vars == <<c, backlog, lwake, listening, limit, faults, used, m, bad>>

N == 1..NConn
None == [st |-> "no", lim |-> 0, maxq |-> 0, win |-> <<>>, outq |-> <<>>, sb |-> <<>>, wout |-> <<>>, tx |-> TRUE, fin |-> FALSE, rst |-> FALSE,
         disc |-> FALSE, big |-> FALSE]
First == CHOOSE x \in Limits : \A y \in Limits : x <= y

Init ==
  /\ c = [n \in N |-> None] /\ backlog = <<>> /\ lwake = TRUE /\ listening = TRUE /\ limit = First
  /\ faults = 0 /\ used = [in |-> 0, out |-> 0]
  /\ m = ServeInit /\ bad = {}

RECURSIVE Run(_, _)
Run(mb, evs) ==
  IF evs = <<>> THEN mb
  ELSE Run([m |-> ServeApply(mb.m, Head(evs)), bad |-> mb.bad \cup ServeViol(mb.m, Head(evs))], Tail(evs))
Rec(evs) == LET r == Run([m |-> m, bad |-> bad], evs) IN m' = r.m /\ bad' = r.bad
On(n, x) == [e |-> "c", n |-> n, x |-> x]

-----------------------------------------------------------------------------
(* Peers and the application *)
Dialled == Len(m.conns)
Dial ==
  /\ Dialled < NConn
  /\ backlog' = Append(backlog, Dialled + 1) /\ lwake' = TRUE
  /\ c' = [c EXCEPT ![Dialled + 1].st = "wait"]
  /\ Rec(<<[e |-> "dial", n |-> Dialled + 1],
           On(Dialled + 1, [e |-> "cfg", maxbuf |-> limit, maxq |-> MaxQ, chan |-> MaxQ, kcap |-> WCap, ahead |-> 0])>>)
  /\ UNCHANGED <<listening, limit, faults, used>>
Frame(n, k, len) ==
  /\ used.in < NIn /\ c[n].st # "no" /\ ~c[n].fin /\ ~c[n].rst
  /\ used' = [used EXCEPT !.in = @ + 1]
  /\ c' = [c EXCEPT ![n].win = Append(@, [k |-> k, id |-> used.in + 1, len |-> len])]
  /\ Rec(<<On(n, [e |-> "frame", k |-> k, id |-> used.in + 1, len |-> len, vis |-> 1, hint |-> len]), On(n, [e |-> "pw", n |-> len])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults>>
Fin(n) ==
  /\ CanFin /\ c[n].st # "no" /\ ~c[n].fin /\ ~c[n].rst
  /\ c' = [c EXCEPT ![n].fin = TRUE] /\ Rec(<<On(n, [e |-> "fin"])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>
Rst(n) ==
  /\ CanRst /\ c[n].st # "no" /\ ~c[n].rst
  /\ c' = [c EXCEPT ![n].rst = TRUE, ![n].wout = <<>>] /\ Rec(<<On(n, [e |-> "rst"])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>
PRead(n) ==
  /\ c[n].wout # <<>> /\ ~c[n].rst
  /\ c' = [c EXCEPT ![n].wout = Tail(@)]
  /\ Rec(<<On(n, [e |-> "recv", ids |-> <<Head(c[n].wout).id>>])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>
PEof(n) ==
  /\ c[n].st = "dead" /\ c[n].wout = <<>> /\ ~c[n].rst /\ ~m.conns[n].eof
  /\ Rec(<<On(n, [e |-> "peof", part |-> 0])>>)
  /\ UNCHANGED <<c, backlog, lwake, listening, limit, faults, used>>
Send(n, len) ==
  /\ used.out < NOut /\ c[n].st = "up" /\ c[n].tx /\ Len(c[n].outq) < c[n].maxq
  /\ used' = [used EXCEPT !.out = @ + 1]
  /\ c' = [c EXCEPT ![n].outq = Append(@, [id |-> 100 + used.out, len |-> len])]
  /\ Rec(<<On(n, [e |-> "send", ids |-> <<100 + used.out>>, ns |-> <<len>>])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults>>
DropTx(n) ==
  /\ CanDrop /\ c[n].st = "up" /\ c[n].tx
  /\ c' = [c EXCEPT ![n].tx = FALSE] /\ Rec(<<On(n, [e |-> "droptx"])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>
(* the handler of n will end its connection (or panic) at its next message *)
Disc(n) ==
  /\ CanDisc /\ c[n].st = "up" /\ ~c[n].disc
  /\ c' = [c EXCEPT ![n].disc = TRUE]
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used, m, bad>>
SetLimit(x) ==
  /\ CanLimit /\ backlog = <<>> /\ x # limit /\ Dialled > 0
  /\ limit' = x
  /\ UNCHANGED <<c, backlog, lwake, listening, faults, used, m, bad>>

-----------------------------------------------------------------------------
(* The listener *)
Accept ==
  /\ listening /\ lwake
  /\ IF backlog = <<>> THEN lwake' = FALSE /\ UNCHANGED <<c, backlog, m, bad>>
     ELSE LET n == Head(backlog) IN
          /\ lwake' = ServeRewake /\ backlog' = Tail(backlog)
          /\ c' = [c EXCEPT ![n].st = "up", ![n].lim = IF LimitsNow THEN limit ELSE First, ![n].maxq = MaxQ]
          /\ Rec(<<[e |-> "open", n |-> n]>>)
  /\ UNCHANGED <<listening, limit, faults, used>>
AcceptFails ==
  /\ CanFault /\ listening /\ lwake /\ backlog # <<>> /\ faults = 0
  /\ faults' = 1 /\ listening' = ServeRecovers
  /\ UNCHANGED <<c, backlog, lwake, limit, used, m, bad>>

-----------------------------------------------------------------------------
(* One connection *)
End(n, d, evs) ==
  LET out == [d EXCEPT !.st = "dead", !.outq = <<>>, !.sb = <<>>] IN
  /\ c' = [k \in N |-> IF k = n THEN out
                       ELSE IF ~OwnTask /\ c[k].st = "up" THEN [c[k] EXCEPT !.st = "dead", !.outq = <<>>, !.sb = <<>>] ELSE c[k]]
  /\ Rec(evs \o <<On(n, [e |-> "done"])>>)
Read(n) ==
  /\ c[n].st = "up" /\ ~c[n].rst /\ c[n].win # <<>>
  /\ LET f == Head(c[n].win) d == [c[n] EXCEPT !.win = Tail(@)] IN
     IF f.k = "bad" \/ f.len > c[n].lim THEN End(n, d, <<>>)
     ELSE IF f.k = "skip" THEN c' = [c EXCEPT ![n] = d] /\ UNCHANGED <<m, bad>>
     ELSE IF c[n].disc THEN End(n, d, <<On(n, [e |-> "deliver", ids |-> <<f.id>>]), On(n, [e |-> "disc"])>>)
     ELSE c' = [c EXCEPT ![n] = d] /\ Rec(<<On(n, [e |-> "deliver", ids |-> <<f.id>>])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>
Serialize(n) ==
  /\ c[n].st = "up" /\ c[n].outq # <<>> /\ Len(c[n].sb) < c[n].maxq
  /\ LET f == Head(c[n].outq) IN
     IF f.len > c[n].lim THEN End(n, c[n], <<>>)
     ELSE /\ c' = [c EXCEPT ![n].outq = Tail(@), ![n].sb = Append(@, f)]
          /\ Rec(<<On(n, [e |-> "enc", id |-> f.id, n |-> f.len])>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>
Write(n) ==
  /\ c[n].st = "up" /\ c[n].sb # <<>> /\ Len(c[n].wout) < WCap /\ ~c[n].rst
  /\ c' = [c EXCEPT ![n].sb = Tail(@), ![n].wout = Append(@, Head(c[n].sb))]
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used, m, bad>>
Close(n) ==
  /\ c[n].st = "up"
  /\ c[n].rst \/ (c[n].fin /\ c[n].win = <<>>) \/ (~c[n].tx /\ c[n].outq = <<>> /\ c[n].sb = <<>>)
  /\ End(n, c[n], <<>>)
  /\ UNCHANGED <<backlog, lwake, listening, limit, faults, used>>

-----------------------------------------------------------------------------
Internal == Accept \/ \E n \in N : Read(n) \/ Serialize(n) \/ Write(n) \/ Close(n)
Quiet == ~ENABLED Internal
QEvent == [e |-> "q", rd |-> [n \in 1..Dialled |-> c[n].wout = <<>> /\ ~ENABLED PEof(n)]]
Rest ==
  /\ Quiet /\ Dialled > 0 /\ m # ServeApply(m, QEvent)
  /\ Rec(<<QEvent>>)
  /\ UNCHANGED <<c, backlog, lwake, listening, limit, faults, used>>

Env(n) == \/ Fin(n) \/ Rst(n) \/ PRead(n) \/ PEof(n) \/ DropTx(n) \/ Disc(n)
          \/ \E k \in InKinds, l \in Lens : Frame(n, k, l)
          \/ \E l \in Lens : Send(n, l)
Next == Internal \/ AcceptFails \/ Rest \/ Dial \/ (\E x \in Limits : SetLimit(x)) \/ (\E n \in N : Env(n))
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
QuietOk == (Quiet /\ Dialled > 0) => ServeViol(m, QEvent) = {}
=============================================================================
