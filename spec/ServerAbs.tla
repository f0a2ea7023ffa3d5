----------------------------- MODULE ServerAbs -----------------------------
(***************************************************************************)
(* What an RPC server promises, as a reference automaton over what its      *)
(* clients write and read on their sockets, and what happens to the RPCs    *)
(* its services create (started, polled, producing, dropped).               *)
(*                                                                          *)
(* Connections and RPCs are numbered from 1 in order of appearance.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

ServerInit == [ conns |-> <<>>, rpcs |-> <<>> ]

NewConn(ev) ==
  [ svc |-> 0,         \* services created for it
    gone |-> 0,        \* ... and dropped
    reqs |-> <<>>,     \* what the client wrote: [id, code, val, k]
    sp |-> 0,          \* position in reqs of the last request that was started
    settled |-> 0,     \* everything up to here was written when the server last came to rest
    cap |-> ev.cap, maxq |-> ev.maxq, maxbuf |-> ev.maxbuf,
    np |-> 0, ns |-> 0, \* outputs its RPCs produced, and of these, how many were serialized
    over |-> {},       \* outputs above the size limit that its RPCs produced
    fin |-> FALSE, rst |-> FALSE, bad |-> FALSE, big |-> FALSE, panic |-> FALSE, eof |-> FALSE ]

NewRpc(m, ev) ==
  [ n |-> ev.n, id |-> ev.id,
    at |-> m.conns[ev.n].sp,           \* (after the start is applied) its request's position
    k |-> m.conns[ev.n].reqs[m.conns[ev.n].sp].k,
    prod |-> <<>>, nrecv |-> 0, ended |-> FALSE, endrecv |-> FALSE,
    dropped |-> FALSE, avail |-> 0, availEnd |-> FALSE ]

C(m) == 1..Len(m.conns)
R(m) == 1..Len(m.rpcs)
If(c, label) == IF c THEN {label} ELSE {}

Ordinary(q) == q.code = 0
Cancels(q) == q.code = 1 \/ q.code > 2
(* position of the next ordinary request behind sp, or 0 *)
NextReq(cn) ==
  LET J == { j \in (cn.sp + 1)..Len(cn.reqs) : Ordinary(cn.reqs[j]) }
  IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : j <= i

(* positions of the cancellations aimed at RPC r: those behind its request and before its id's next use *)
Cancelled(m, r) ==
  LET rp == m.rpcs[r] cn == m.conns[rp.n] IN
  { j \in (rp.at + 1)..Len(cn.reqs) :
      /\ cn.reqs[j].id = rp.id /\ Cancels(cn.reqs[j])
      /\ \A i \in (rp.at + 1)..(j - 1) : ~(Ordinary(cn.reqs[i]) /\ cn.reqs[i].id = rp.id) }
(* ... of which the server has certainly processed one *)
CancelDone(m, r) ==
  LET cn == m.conns[m.rpcs[r].n] IN
  \E j \in Cancelled(m, r) : j < cn.sp \/ j <= cn.settled

Over(rp) == rp.ended \/ (rp.k = "u" /\ rp.prod # <<>>)
Reused(m, n, id) ==
  Cardinality({ j \in 1..Len(m.conns[n].reqs) : m.conns[n].reqs[j].id = id /\ Ordinary(m.conns[n].reqs[j]) }) > 1
(* the client or the service gave this connection a reason to end *)
Told(cn) == cn.fin \/ cn.rst \/ cn.bad \/ cn.panic
Cause(cn) == Told(cn) \/ cn.over # {}
(* something unusual happened on another connection *)
Disturbed(m, n) == \E k \in C(m) : k # n /\ (Cause(m.conns[k]) \/ m.conns[k].gone > 0)
(* ... or it uses the same id, or does not read its answers *)
Shared(m, n, id) ==
  \/ \E k \in C(m) : k # n /\ \E j \in 1..Len(m.conns[k].reqs) : m.conns[k].reqs[j].id = id
  \/ \E r \in R(m) : m.rpcs[r].n # n /\ m.rpcs[r].nrecv < Len(m.rpcs[r].prod)
Elsewhere(m, n, val) == \E k \in C(m) : k # n /\ \E j \in 1..Len(m.conns[k].reqs) : m.conns[k].reqs[j].val = val

(* a broken clause on connection n, id: also concerns reuse and independence where they are in play *)
On(m, n, id, labels) ==
  IF labels = {} THEN {}
  ELSE labels \cup If(Reused(m, n, id), "C21") \cup If(Disturbed(m, n) \/ Shared(m, n, id), "C20")

(* received message on connection n: which RPC it belongs to, 0 if none *)
ItemOf(m, ev) ==
  LET S == { r \in R(m) : /\ m.rpcs[r].n = ev.n /\ m.rpcs[r].id = ev.id
                          /\ m.rpcs[r].nrecv < Len(m.rpcs[r].prod)
                          /\ m.rpcs[r].prod[m.rpcs[r].nrecv + 1] = ev.val }
  IN IF S = {} THEN 0 ELSE CHOOSE r \in S : TRUE
EndOf(m, ev) ==
  LET S == { r \in R(m) : /\ m.rpcs[r].n = ev.n /\ m.rpcs[r].id = ev.id /\ m.rpcs[r].k = "s"
                          /\ m.rpcs[r].ended /\ ~m.rpcs[r].endrecv
                          /\ m.rpcs[r].nrecv = Len(m.rpcs[r].prod) }
  IN IF S = {} THEN 0 ELSE CHOOSE r \in S : \A s \in S : r <= s

RECURSIVE Backlog(_, _, _)
Backlog(m, n, r) ==
  IF r > Len(m.rpcs) THEN 0
  ELSE Backlog(m, n, r + 1) +
       (IF m.rpcs[r].n = n THEN Len(m.rpcs[r].prod) - m.rpcs[r].nrecv ELSE 0)

(* what must be true of connection n when nothing more is going to happen by itself *)
AtRest(m, n, rd, wr) ==
  LET cn == m.conns[n] mine == { r \in R(m) : m.rpcs[r].n = n } IN
  If(cn.svc = 0, "C20")
  \cup IF ~Told(cn) /\ cn.over # {}
       THEN (IF rd /\ (cn.gone = 0 \/ ~cn.eof \/ \E r \in mine : ~m.rpcs[r].dropped) THEN {"C09", "C19"} ELSE {})
       ELSE IF Told(cn)
       THEN If(cn.gone = 0 \/ \E r \in mine : ~m.rpcs[r].dropped, "C19")
            \cup If(cn.big /\ cn.gone = 0, "C20")
            \cup If(cn.bad /\ cn.gone = 0, "C07")
            \cup If(cn.rst /\ cn.gone = 0, "C08")
            \cup If(cn.fin /\ ~cn.rst /\ ~cn.bad /\ ~cn.panic /\ cn.gone = 0, "C05")
            \cup If((cn.panic \/ cn.bad) /\ ~cn.rst /\ rd /\ ~cn.eof, "C19")
       ELSE If(wr /\ NextReq(cn) # 0, "C15")
            \cup If(wr /\ NextReq(cn) # 0 /\ Disturbed(m, n), "C20")
            \cup (IF Backlog(m, n, 1) > cn.cap + 3 * cn.maxq + 2 THEN {"C20", "C09"} ELSE {})
            \cup UNION { LET rp == m.rpcs[r] IN On(m, n, rp.id,
                   (IF rd /\ (rp.nrecv < Len(rp.prod) \/ (rp.k = "s" /\ rp.ended /\ ~rp.endrecv)) THEN {"C16", "C18"} ELSE {})
                   \cup If(rd /\ ~rp.dropped /\ Cancelled(m, r) = {} /\ ~Over(rp)
                           /\ (rp.avail > Len(rp.prod) \/ rp.availEnd), "C18")
                   \cup (IF rd /\ wr /\ ~rp.dropped /\ Cancelled(m, r) # {}
                         THEN {"C17"} \cup If(\A j \in Cancelled(m, r) : cn.reqs[j].code > 2, "C15") ELSE {})) : r \in mine }

ServerViol(m, ev) ==
  CASE ev.e = "svc" -> IF ev.n = 0 THEN {"C20"} ELSE If(m.conns[ev.n].svc > 0, "C20")
    [] ev.e = "start" ->
         IF ev.n = 0 THEN {"C20"}
         ELSE LET cn == m.conns[ev.n] j == NextReq(cn) IN
              If(j = 0 \/ ev.code # 0 \/ ~ev.ok \/ cn.gone > 0
                 \/ (j # 0 /\ (cn.reqs[j].val # ev.val \/ cn.reqs[j].id # ev.id)), "C15")
              \cup If(Elsewhere(m, ev.n, ev.val), "C20")
    \* the outbound queue and one batch taken from it are all that waits to be serialized
    [] ev.e = "prod" ->
         LET cn == m.conns[m.rpcs[ev.r].n] IN IF cn.np - cn.ns > 2 * cn.maxq + 1 THEN {"C09", "C20"} ELSE {}
    [] ev.e = "rpoll" -> On(m, m.rpcs[ev.r].n, m.rpcs[ev.r].id, If(CancelDone(m, ev.r), "C17"))
    [] ev.e = "rdrop" ->
         LET rp == m.rpcs[ev.r] IN
         IF rp.dropped \/ Over(rp) \/ Cancelled(m, ev.r) # {} \/ Cause(m.conns[rp.n]) THEN {}
         ELSE On(m, rp.n, rp.id, {"C17"})
    [] ev.e = "sdrop" ->
         IF ev.n = 0 THEN {}
         ELSE If(m.conns[ev.n].gone > 0 \/ ~Cause(m.conns[ev.n]), "C19")
              \cup If(~Cause(m.conns[ev.n]) /\ Disturbed(m, ev.n), "C20")
              \cup If(~Cause(m.conns[ev.n]), "C08")
    [] ev.e = "crecv" ->
         On(m, ev.n, ev.id,
            If(CASE ~ev.ok -> TRUE
                 [] ev.ok /\ ev.code = 0 -> ItemOf(m, ev) = 0
                 [] ev.ok /\ ev.code = 2 -> EndOf(m, ev) = 0
                 [] OTHER -> TRUE, "C16"))
         \cup If(ev.ok /\ ev.code = 0 /\ ev.val \in m.conns[ev.n].over, "C09")
         \* another connection's answer
         \cup If(ev.ok /\ ev.code = 0 /\ \E r \in R(m) : m.rpcs[r].n # ev.n /\ \E j \in 1..Len(m.rpcs[r].prod) : m.rpcs[r].prod[j] = ev.val, "C20")
    [] ev.e = "ceof" -> If(~Cause(m.conns[ev.n]), "C08") \cup If(~Cause(m.conns[ev.n]), "C18") \cup If(~Cause(m.conns[ev.n]), "C20")
    [] ev.e = "srvdone" -> {"C20"}
    [] ev.e = "spin" -> {"C22"}
    [] ev.e = "q" ->
         UNION { AtRest(m, n, ev.rd[n], ev.wr[n]) : n \in C(m) }
         \cup If((\A n \in C(m) : LET cn == m.conns[n] IN cn.rst \/ ((cn.fin \/ cn.bad \/ cn.panic) /\ ev.rd[n] /\ ev.wr[n])) /\ ev.tasks > 0, "C19")
    [] ev.e \in {"hang", "crash"} -> {"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}
    [] OTHER -> {}

Settle(cn, wr) == IF wr THEN [cn EXCEPT !.settled = Len(cn.reqs)] ELSE cn

ServerApply(m, ev) ==
  CASE ev.e = "dial" -> [m EXCEPT !.conns = Append(@, NewConn(ev))]
    [] ev.e = "svc" -> IF ev.n = 0 THEN m ELSE [m EXCEPT !.conns[ev.n].svc = @ + 1]
    [] ev.e = "sdrop" -> IF ev.n = 0 THEN m ELSE [m EXCEPT !.conns[ev.n].gone = @ + 1]
    [] ev.e = "creq" -> [m EXCEPT !.conns[ev.n].reqs = Append(@, [id |-> ev.id, code |-> ev.code, val |-> ev.val, k |-> ev.k])]
    [] ev.e = "start" ->
         \* a start that is not the expected one is matched to its request by value, if there is one
         LET cn == m.conns[ev.n]
             J == { j \in 1..Len(cn.reqs) : cn.reqs[j].val = ev.val /\ Ordinary(cn.reqs[j]) }
             j == IF J = {} THEN 0 ELSE CHOOSE x \in J : TRUE
             m1 == [m EXCEPT !.conns[ev.n].sp = IF j = 0 THEN @ ELSE j]
             dummy == [ n |-> ev.n, id |-> ev.id, at |-> Len(cn.reqs), k |-> "x", prod |-> <<>>, nrecv |-> 0,
                        ended |-> FALSE, endrecv |-> FALSE, dropped |-> TRUE, avail |-> 0, availEnd |-> FALSE ]
         IN IF j = 0 THEN [m EXCEPT !.rpcs = Append(@, dummy)]
            ELSE [m1 EXCEPT !.rpcs = Append(@, [NewRpc(m1, ev) EXCEPT !.dropped = (m1.conns[ev.n].reqs[j].k = "x")])]
    [] ev.e = "avail" -> IF ev.end THEN [m EXCEPT !.rpcs[ev.r].availEnd = TRUE]
                         ELSE [m EXCEPT !.rpcs[ev.r].avail = @ + 1]
    [] ev.e = "prod" ->
         LET n == m.rpcs[ev.r].n IN
         [m EXCEPT !.rpcs[ev.r].prod = Append(@, ev.val), !.conns[n].np = @ + 1,
                   !.conns[n].over = IF ev.n > m.conns[n].maxbuf THEN @ \cup {ev.val} ELSE @]
    [] ev.e = "oenc" -> [m EXCEPT !.conns[ev.n].ns = @ + 1]
    [] ev.e = "rend" -> [m EXCEPT !.rpcs[ev.r].ended = TRUE]
    [] ev.e = "rdrop" -> [m EXCEPT !.rpcs[ev.r].dropped = TRUE]
    [] ev.e = "boom" -> [m EXCEPT !.conns[m.rpcs[ev.r].n].panic = TRUE]
    [] ev.e = "crecv" ->
         IF ev.code = 0 /\ ItemOf(m, ev) # 0 THEN [m EXCEPT !.rpcs[ItemOf(m, ev)].nrecv = @ + 1]
         ELSE IF ev.code = 2 /\ EndOf(m, ev) # 0 THEN [m EXCEPT !.rpcs[EndOf(m, ev)].endrecv = TRUE]
         ELSE m
    [] ev.e = "ceof" -> [m EXCEPT !.conns[ev.n].eof = TRUE]
    [] ev.e = "cfin" -> [m EXCEPT !.conns[ev.n].fin = TRUE]
    [] ev.e = "crst" -> [m EXCEPT !.conns[ev.n].rst = TRUE]
    [] ev.e = "cbad" -> [m EXCEPT !.conns[ev.n].bad = TRUE, !.conns[ev.n].big = @ \/ ev.big]
    [] ev.e = "q" -> [m EXCEPT !.conns = [n \in C(m) |-> Settle(m.conns[n], ev.wr[n])]]
    [] OTHER -> m
=============================================================================
