------------------------------ MODULE ConnAbs ------------------------------
(***************************************************************************)
(* The API-level contract of one protosocket connection, as a reference     *)
(* automaton over observable events.                                        *)
(*                                                                          *)
(* State `m` is what an outside observer can know: what was accepted for    *)
(* sending, what the peer has read, what the peer has written, what was     *)
(* delivered, and which causes for ending the connection exist.             *)
(*                                                                          *)
(* ConnViol(m, ev) is the set of property clauses that event ev would break *)
(* in state m; ConnApply(m, ev) is the state after it.  The contract is     *)
(* ConnSpec: only events with ConnViol = {} happen.  ConnImpl (the design   *)
(* of connection.rs) is model checked against it, and histories recorded    *)
(* from the real code are replayed through it by ConnTrace.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

ConnInit ==
  [ maxbuf |-> 0, maxq |-> 0, chan |-> 0, kcap |-> 0,
    acc    |-> <<>>,   \* accepted for sending: <<id, encoded length>>
    ne     |-> 0,      \* how many of them were serialized
    nw     |-> 0,      \* how many the peer has read completely
    tx     |-> TRUE,   \* some handle to the outbound queue is alive
    big    |-> FALSE,  \* a message above the size limit was accepted
    frames |-> <<>>,   \* what the peer frames: [k, id, s, e, vis, hint]
    rxb    |-> 0,      \* bytes of it the peer has written
    rxq    |-> 0,      \* rxb at the last quiescent point
    np     |-> 0,      \* frames delivered or skipped so far
    rd     |-> 0,      \* bytes of it the connection has taken from the kernel
    ahead  |-> 0,      \* how far beyond maxbuf one read may reach
    fin    |-> FALSE,  \* the peer ended its stream
    rst    |-> FALSE,  \* the peer reset the connection
    disc   |-> FALSE,  \* the handler asked to disconnect
    ioerr  |-> FALSE,  \* an I/O error was injected
    panic  |-> FALSE,
    done   |-> FALSE,  \* the connection has ended
    dirty  |-> FALSE,  \* ended with possibly unread inbound bytes (the OS then resets)
    eof    |-> FALSE ] \* the peer has seen the end of our stream

Ids(acc) == [i \in 1..Len(acc) |-> acc[i][1]]

Complete(m, i) == m.frames[i].e <= m.rxb
Visible(m, i)  == m.frames[i].s + m.frames[i].vis <= m.rxb
FLen(f) == f.e - f.s

(* bytes of a malformed frame have arrived *)
BadSeen(m) ==
  \E i \in (m.np + 1)..Len(m.frames) : m.frames[i].k = "bad" /\ m.frames[i].s < m.rxb
(* ... enough of them that the decoder must know *)
BadDue(m) ==
  \E i \in (m.np + 1)..Len(m.frames) : m.frames[i].k = "bad" /\ Visible(m, i)

(* bytes have arrived of a frame that announces a size above the limit *)
OversizeSeen(m) ==
  \E i \in (m.np + 1)..Len(m.frames) :
     FLen(m.frames[i]) > m.maxbuf /\ m.frames[i].s < m.rxb
(* ... and its decoder, or the bytes received of it, leave no doubt about that *)
OversizeDue(m) ==
  \E i \in (m.np + 1)..Len(m.frames) :
     /\ FLen(m.frames[i]) > m.maxbuf /\ Visible(m, i)
     /\ ~(m.frames[i].k = "skip" /\ Complete(m, i))   \* that one may have been skipped
     /\ m.frames[i].hint > m.maxbuf \/ m.rxb - m.frames[i].s >= m.maxbuf

(* ids are the next messages of the stream after frame np; result: new np or -1 *)
RECURSIVE Walk(_, _, _)
Walk(m, np, ids) ==
  IF ids = <<>> THEN np
  ELSE IF np + 1 > Len(m.frames) THEN -1
  ELSE LET f == m.frames[np + 1] IN
       IF f.e > m.rxb \/ f.k = "bad" THEN -1
       ELSE IF f.k = "skip" THEN Walk(m, np + 1, ids)
       ELSE IF f.id = Head(ids) THEN Walk(m, np + 1, Tail(ids))
       ELSE -1

(* complete, well-formed, not yet delivered, and not behind a malformed frame *)
Undelivered(m) ==
  { i \in (m.np + 1)..Len(m.frames) :
      /\ m.frames[i].k = "msg" /\ Complete(m, i)
      /\ \A j \in (m.np + 1)..i : m.frames[j].k # "bad" }

UndeliveredFitting(m) ==
  { i \in Undelivered(m) : \A j \in (m.np + 1)..i : FLen(m.frames[j]) <= m.maxbuf }

(* where the first frame starts that is neither delivered nor (possibly) skipped *)
RECURSIVE Passed(_, _)
Passed(m, i) ==
  IF i < Len(m.frames) /\ m.frames[i + 1].k = "skip" /\ Complete(m, i + 1) THEN Passed(m, i + 1)
  ELSE IF i = 0 THEN 0 ELSE m.frames[i].e

(* the only reason the connection has for ending is that its queue was closed *)
OnlyQueueClosed(m) ==
  /\ ~m.tx /\ ~m.fin /\ ~m.rst /\ ~m.disc /\ ~m.ioerr /\ ~m.panic /\ ~m.big
  /\ ~BadSeen(m) /\ ~OversizeSeen(m)
OnlyFin(m) ==
  /\ m.fin /\ m.tx /\ ~m.rst /\ ~m.disc /\ ~m.ioerr /\ ~m.panic /\ ~m.big
  /\ \A i \in 1..Len(m.frames) : m.frames[i].k # "bad" /\ FLen(m.frames[i]) <= m.maxbuf
Caused(m) ==
  m.fin \/ m.rst \/ ~m.tx \/ m.disc \/ m.ioerr \/ m.panic \/ m.big
    \/ BadSeen(m) \/ OversizeSeen(m)

If(c, label) == IF c THEN {label} ELSE {}

(* what is no longer kept when the connection's code fails outright *)
Broken(m) ==
  (IF BadSeen(m) \/ OversizeSeen(m) THEN {"C07"} ELSE {"C08"})
  \cup If(Len(m.acc) > m.nw, IF m.tx THEN "C03" ELSE "C06")
  \cup If(\E i \in (m.np + 1)..Len(m.frames) : m.frames[i].s < m.rxb, IF m.fin THEN "C05" ELSE "C04")
  \cup If(\E i \in (m.nw + 1)..Len(m.acc) : m.acc[i][2] > m.maxbuf, "C09")

ConnViol(m, ev) ==
  CASE ev.e = "send" ->
         \* what was accepted and not yet serialized fits the queue and one batch
         If(Len(m.acc) + Len(ev.ids) - m.ne > m.chan + m.maxq, "C09")
    [] ev.e = "enc" ->
         If(m.ne + 1 - m.nw > m.maxq + m.kcap, "C09")
         \cup If(m.ne + 1 > Len(m.acc) \/ (m.ne + 1 <= Len(m.acc) /\ m.acc[m.ne + 1][1] # ev.id), "C01")
    [] ev.e = "recv" ->
         If(\/ m.nw + Len(ev.ids) > Len(m.acc)
            \/ \E i \in 1..Len(ev.ids) : m.nw + i <= Len(m.acc) /\ m.acc[m.nw + i][1] # ev.ids[i], "C01")
         \cup If(\E i \in 1..Len(ev.ids) : m.nw + i <= Len(m.acc) /\ m.acc[m.nw + i][2] > m.maxbuf, "C09")
    [] ev.e = "garbage" -> {"C01"}
    [] ev.e = "rd" -> If(m.rd + ev.n > Passed(m, m.np) + m.maxbuf + m.ahead, "C24")
    [] ev.e \in {"peof", "prst"} ->
         If(OnlyQueueClosed(m) /\ ~m.dirty /\ (m.nw # Len(m.acc) \/ ev.part # 0 \/ ev.e = "prst"), "C06")
         \cup If(~m.done, "C08")
         \* nothing of a message above the limit may be written
         \cup If(ev.part > 0 /\ m.nw + 1 <= Len(m.acc) /\ m.acc[m.nw + 1][2] > m.maxbuf, "C09")
    [] ev.e = "deliver" ->
         If(m.done \/ m.disc, "C08")
         \cup (IF Walk(m, m.np, ev.ids) = -1
               THEN {"C02"} \cup If(BadSeen(m) \/ OversizeSeen(m), "C07") ELSE {})
    [] ev.e = "done" ->
         If(~Caused(m), "C08")
         \cup If(~Caused(m) /\ Len(m.acc) > m.nw, "C03")
         \cup If(~Caused(m) /\ m.rxb > 0 /\ \E i \in (m.np + 1)..Len(m.frames) : m.frames[i].s < m.rxb, "C04")
         \* well-formed bytes were taken for something else
         \cup If(~Caused(m) /\ UndeliveredFitting(m) # {}, "C02")
         \cup If(OnlyFin(m) /\ Undelivered(m) # {}, "C05")
    [] ev.e = "panic" -> Broken(m)
    \* the connection's code never returned, or brought the process down
    [] ev.e \in {"hang", "crash"} -> Broken(m) \cup {"C22"}
    [] ev.e = "spin" -> {"C22"}
    [] ev.e = "q" ->
         IF ~m.done THEN
           If(m.fin /\ ~m.rst, "C05")
           \cup If(m.rst \/ m.disc, "C08")
           \cup If(~m.tx /\ ev.drained, "C06")
           \cup If(BadDue(m) \/ OversizeDue(m), "C07")
           \cup If(m.big /\ ev.drained, "C09")
           \cup If(~m.fin /\ ~m.rst /\ ~m.disc /\ UndeliveredFitting(m) # {}, "C04")
           \cup If(ev.drained /\ ~m.fin /\ ~m.rst /\ ~m.big /\ m.nw < Len(m.acc), IF m.tx THEN "C03" ELSE "C06")
         ELSE
           If(ev.drained /\ OnlyQueueClosed(m) /\ ~m.dirty /\ (m.nw # Len(m.acc) \/ ~m.eof), "C06")
    [] OTHER -> {}

ConnApply(m, ev) ==
  CASE ev.e = "cfg" ->
         [m EXCEPT !.maxbuf = ev.maxbuf, !.maxq = ev.maxq, !.chan = ev.chan, !.kcap = ev.kcap, !.ahead = ev.ahead]
    [] ev.e = "send" ->
         [m EXCEPT !.acc = @ \o [i \in 1..Len(ev.ids) |-> <<ev.ids[i], ev.ns[i]>>],
                   !.big = @ \/ \E i \in 1..Len(ev.ns) : ev.ns[i] > m.maxbuf]
    [] ev.e = "enc"    -> [m EXCEPT !.ne = @ + 1]
    [] ev.e = "recv"   -> [m EXCEPT !.nw = @ + Len(ev.ids)]
    [] ev.e = "droptx" -> [m EXCEPT !.tx = FALSE]
    [] ev.e = "frame"  ->
         LET s == IF m.frames = <<>> THEN 0 ELSE m.frames[Len(m.frames)].e
         IN [m EXCEPT !.frames = Append(@, [k |-> ev.k, id |-> ev.id, s |-> s,
                                            e |-> s + ev.len, vis |-> ev.vis, hint |-> ev.hint])]
    [] ev.e = "rd"     -> [m EXCEPT !.rd = @ + ev.n]
    [] ev.e = "pw"     -> [m EXCEPT !.rxb = @ + ev.n, !.dirty = @ \/ m.done]
    [] ev.e = "fin"    -> [m EXCEPT !.fin = TRUE]
    [] ev.e = "rst"    -> [m EXCEPT !.rst = TRUE]
    [] ev.e = "disc"   -> [m EXCEPT !.disc = TRUE]
    [] ev.e = "ioerr"  -> [m EXCEPT !.ioerr = TRUE]
    [] ev.e = "panic"  -> [m EXCEPT !.panic = TRUE]
    [] ev.e \in {"peof", "prst"} -> [m EXCEPT !.eof = TRUE]
    [] ev.e = "deliver" ->
         LET w == Walk(m, m.np, ev.ids)
         IN [m EXCEPT !.np = IF w = -1 THEN @ ELSE w]
    [] ev.e = "done"   -> [m EXCEPT !.done = TRUE, !.dirty = @ \/ m.rxb > m.rxq]
    [] ev.e = "q"      -> [m EXCEPT !.rxq = m.rxb]
    [] OTHER -> m
=============================================================================
