----------------------------- MODULE ClientAbs -----------------------------
(***************************************************************************)
(* What an RPC client promises, as a reference automaton over events at its *)
(* API (calls, completions) and on its wire (what the server reads and      *)
(* writes).  Calls are numbered 1, 2, ... in the order they are made.       *)
(*                                                                          *)
(* ClientViol(m, ev): the clauses that ev breaks; ClientApply: the state    *)
(* after it.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

ClientInit ==
  [ maxq  |-> 0, maxbuf |-> 0,
    calls |-> <<>>,    \* see NewCall
    R     |-> <<>>,    \* responses the server wrote: [id, code, val]
    ne    |-> 0,       \* messages taken from the queue and serialized
    nq    |-> 0,       \* ... of these, requests
    na    |-> 0,       \* requests accepted by the queue
    nc    |-> 0,       \* cancellations at most enqueued
    other |-> FALSE,   \* a cause for losing the link other than an orderly end
    big   |-> FALSE,   \* a request above the size limit was handed in
    bad   |-> FALSE,   \* a malformed or oversized response is on the client's wire
    noclient |-> FALSE,\* every client handle was dropped
    rq    |-> 0, dirty |-> FALSE, \* the connection ended with possibly unread responses
    fin   |-> FALSE,   \* the server ended its stream in an orderly way
    done  |-> FALSE,   \* the connection has ended
    panic |-> FALSE ]

NewCall(m, ev) ==
  [ id |-> ev.id, k |-> ev.k, val |-> ev.val, n |-> ev.n, kept |-> FALSE,
    st |-> "sending",                 \* sending, open, finished, refused, dropped, abandoned
    late |-> m.done,                  \* made after the connection ended
    base |-> Len(m.R), pos |-> Len(m.R),
    req |-> FALSE, can |-> FALSE,     \* the server has read its request / its cancellation
    must |-> FALSE,                   \* ... and must read a cancellation
    held |-> FALSE,
    reuse |-> \E i \in 1..Len(m.calls) : m.calls[i].id = ev.id /\ m.calls[i].st = "finished" ]

(* the next response for call c behind position p, or 0 *)
NextResp(m, c, p) ==
  LET J == { j \in (p + 1)..Len(m.R) : m.R[j].id = m.calls[c].id }
  IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k

(* a later call has taken over this call's id while it was open *)
Shadowed(m, c) ==
  \E i \in (c + 1)..Len(m.calls) : m.calls[i].id = m.calls[c].id

(* the fate of an open call is decided by what the server wrote *)
Decided(m, c) ==
  LET j == NextResp(m, c, m.calls[c].pos) IN j # 0
(* ... and it is over for it *)
Terminated(m, c) ==
  \E j \in (m.calls[c].pos + 1)..Len(m.R) :
     m.R[j].id = m.calls[c].id /\ (m.R[j].code # 0 \/ m.calls[c].k = "u")

(* nobody can hand in a request or a cancellation any more *)
Released(m) ==
  m.noclient /\ \A c \in 1..Len(m.calls) :
     \/ m.calls[c].st \in {"refused", "dropped", "abandoned"}
     \/ m.calls[c].st = "finished" /\ ~m.calls[c].kept
Caused(m) == m.fin \/ m.other \/ m.big \/ m.panic \/ Released(m)
OnlyReleased(m) == Released(m) /\ ~m.fin /\ ~m.other /\ ~m.big /\ ~m.panic

(* the link was lost in a way that may lose responses *)
Lossy(m) == m.done /\ (m.other \/ ~m.fin)

If(c, label) == IF c THEN {label} ELSE {}
(* a clause about call c also concerns id reuse when c reuses an id *)
ForCall(m, c, labels) == labels \cup If(labels # {} /\ m.calls[c].reuse, "C21")

Open(m, c) == c \in 1..Len(m.calls) /\ m.calls[c].st \in {"open", "sending"}

ReqFor(m, ev) ==
  { c \in 1..Len(m.calls) : m.calls[c].id = ev.id /\ ~m.calls[c].req
                            /\ m.calls[c].st \in {"open", "dropped", "finished", "sending"} }
CanFor(m, ev) ==
  { c \in 1..Len(m.calls) : m.calls[c].id = ev.id /\ ~m.calls[c].can
                            /\ ((m.calls[c].st = "dropped" /\ m.calls[c].req) \/ m.calls[c].st = "abandoned") }
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

ClientViol(m, ev) ==
  CASE ev.e = "refused" -> If(~m.done \/ ev.k # "closed", "C14")
    [] ev.e = "issued" ->
         If(m.calls[ev.c].late, "C14")
         \* the queue and one batch taken from it are all that waits to be serialized
         \cup If(m.na - m.nq > 2 * m.maxq, "C09")
    [] ev.e = "alive" -> If(ev.v = m.done, "C14")
    [] ev.e = "preq" ->
         (CASE ev.code = 0 ->
                If(ReqFor(m, ev) = {} \/ ~ev.ok, "C13")
                \cup If(ReqFor(m, ev) # {} /\ m.calls[MinOf(ReqFor(m, ev))].n > m.maxbuf, "C09")
           [] ev.code = 1 ->
                IF CanFor(m, ev) # {} THEN {}
                ELSE {"C13"} \cup If(\E c \in 1..Len(m.calls) : m.calls[c].id = ev.id /\ m.calls[c].reuse, "C21")
           [] OTHER -> {"C13"})
    [] ev.e = "res" ->
         LET j == NextResp(m, ev.c, m.calls[ev.c].base)
         IN ForCall(m, ev.c, If(\/ ~Open(m, ev.c) \/ m.calls[ev.c].k # "u" \/ ~ev.ok
                                \/ j = 0 \/ (j # 0 /\ (m.R[j].code # 0 \/ m.R[j].val # ev.val)), "C11"))
            \cup If(j # 0 /\ m.R[IF j = 0 THEN 1 ELSE j].bad, "C07")
    [] ev.e = "err" ->   \* a unary call failed
         LET j == NextResp(m, ev.c, m.calls[ev.c].base)
         IN ForCall(m, ev.c,
              IF Shadowed(m, ev.c) THEN {}
              ELSE IF j # 0 /\ m.R[j].code # 0 THEN {}
              ELSE IF j # 0 THEN (IF Lossy(m) THEN {} ELSE {"C11", "C12"})
              ELSE IF m.done THEN {} ELSE {"C11", "C12"})
    [] ev.e = "item" ->
         LET j == NextResp(m, ev.c, m.calls[ev.c].pos)
         IN ForCall(m, ev.c, If(\/ ~Open(m, ev.c) \/ m.calls[ev.c].k # "s" \/ ~ev.ok
                                \/ j = 0 \/ (j # 0 /\ (m.R[j].code # 0 \/ m.R[j].val # ev.val)), "C11"))
            \cup If(j # 0 /\ m.R[IF j = 0 THEN 1 ELSE j].bad, "C07")
    [] ev.e = "end" ->
         LET j == NextResp(m, ev.c, m.calls[ev.c].pos)
         IN ForCall(m, ev.c,
              IF Shadowed(m, ev.c) THEN {}
              \* an ordinary end is not reported as a failure
              ELSE IF j # 0 /\ m.R[j].code # 0
                   THEN If(m.R[j].code = 2 /\ ev.k \notin {"none", "finished"} /\ ~m.done, "C12")
              ELSE IF j # 0 THEN (IF Lossy(m) THEN If(ev.k = "none", "C12") ELSE {"C11", "C12"})
              \* a lost link is an error, not just an end
              ELSE IF m.done THEN If(ev.k = "none", "C12") ELSE {"C11", "C12"})
    [] ev.e = "done" ->
         If(~Caused(m), "C08")
         \cup If(~Caused(m) /\ \E c \in 1..Len(m.calls) : m.calls[c].st \in {"open", "sending"}, "C11")
         \cup If(~Caused(m) /\ \E c \in 1..Len(m.calls) : m.calls[c].st \in {"open", "sending"}, "C12")
    [] ev.e \in {"panic", "hang", "crash"} ->
         {"C11", "C12", "C13", "C14", "C21"} \cup If(m.bad, "C07") \cup If(~m.bad /\ ~m.big, "C08") \cup If(m.big, "C09")
    [] ev.e = "spin" -> {"C22"}
    [] ev.e = "q" ->
         UNION { ForCall(m, c,
           If(m.calls[c].st = "open" /\ ~m.calls[c].held /\ ~Shadowed(m, c)
                /\ (m.done \/ Decided(m, c)), "C12")
           \* what was sent for it was not given to it
           \cup If(m.calls[c].st = "open" /\ ~m.calls[c].held /\ ~Shadowed(m, c) /\ ~m.done /\ Decided(m, c), "C11")
           \cup If(m.calls[c].st = "sending" /\ (m.done \/ ev.drained), "C14")
           \cup If(ev.drained /\ ~m.done /\ ~m.fin /\ ~m.other /\ ~m.big
                   /\ m.calls[c].st \in {"open", "finished", "dropped"} /\ ~m.calls[c].req, "C13")
           \cup If(ev.drained /\ ~m.done /\ ~m.fin /\ ~m.other /\ ~m.big
                   /\ m.calls[c].st = "dropped" /\ m.calls[c].must /\ ~m.calls[c].can, "C13")) :
           c \in 1..Len(m.calls) }
         \cup If((m.fin \/ m.other) /\ ~m.done, "C14")
         \cup If(m.bad /\ ~m.done, "C07")
         \cup If(ev.drained /\ ~m.done
                 /\ \E c \in 1..Len(m.calls) : m.calls[c].n > m.maxbuf /\ m.calls[c].st \in {"open", "finished", "dropped"}, "C09")
         \cup If(ev.drained /\ ~m.done /\ Released(m), "C06")
         \cup If(ev.drained /\ m.done /\ OnlyReleased(m) /\ ~m.dirty
                 /\ \E c \in 1..Len(m.calls) :
                      \/ m.calls[c].st \in {"finished", "dropped"} /\ ~m.calls[c].req
                      \/ m.calls[c].st = "dropped" /\ m.calls[c].must /\ ~m.calls[c].can, "C06")
    [] OTHER -> {}

ClientApply(m, ev) ==
  CASE ev.e = "cfg" -> [m EXCEPT !.maxq = ev.maxq, !.maxbuf = ev.maxbuf]
    [] ev.e = "call" -> [m EXCEPT !.calls = Append(@, NewCall(m, ev)), !.big = @ \/ ev.n > m.maxbuf]
    [] ev.e = "keep" -> [m EXCEPT !.calls[ev.c].kept = TRUE]
    [] ev.e = "issued" -> [m EXCEPT !.calls[ev.c].st = "open", !.na = @ + 1]
    [] ev.e = "refused" -> [m EXCEPT !.calls[ev.c].st = "refused"]
    [] ev.e = "enc" -> [m EXCEPT !.ne = @ + 1, !.nq = IF ev.code = 0 THEN @ + 1 ELSE @]
    [] ev.e \in {"res", "err", "end"} -> [m EXCEPT !.calls[ev.c].st = "finished"]
    [] ev.e = "item" ->
         LET j == NextResp(m, ev.c, m.calls[ev.c].pos)
         IN IF j = 0 THEN m ELSE [m EXCEPT !.calls[ev.c].pos = j]
    [] ev.e = "hold" -> [m EXCEPT !.calls[ev.c].held = TRUE]
    [] ev.e = "unhold" -> [m EXCEPT !.calls[ev.c].held = FALSE]
    [] ev.e = "drop" ->
         IF m.calls[ev.c].st = "sending"
         THEN [m EXCEPT !.calls[ev.c].st = "abandoned", !.nc = @ + 1]
         ELSE IF m.calls[ev.c].st = "open"
         THEN [m EXCEPT !.calls[ev.c].st = "dropped", !.nc = @ + 1,
                        !.calls[ev.c].must = ~Terminated(m, ev.c) /\ ~m.done
                             /\ m.na + m.nc - m.ne < m.maxq
                             /\ \A i \in 1..Len(m.calls) : m.calls[i].st # "sending"]
         ELSE [m EXCEPT !.calls[ev.c].kept = FALSE]
    [] ev.e = "preq" ->
         (CASE ev.code = 0 /\ ReqFor(m, ev) # {} -> [m EXCEPT !.calls[MinOf(ReqFor(m, ev))].req = TRUE]
           [] ev.code = 1 /\ CanFor(m, ev) # {} -> [m EXCEPT !.calls[MinOf(CanFor(m, ev))].can = TRUE]
           [] OTHER -> m)
    [] ev.e = "presp" -> [m EXCEPT !.R = Append(@, [id |-> ev.id, code |-> ev.code, val |-> ev.val, bad |-> m.bad]),
                                !.dirty = @ \/ m.done]
    [] ev.e = "pfin" -> [m EXCEPT !.fin = TRUE]
    [] ev.e \in {"prst", "pmay", "dropconn"} -> [m EXCEPT !.other = TRUE]
    [] ev.e = "pbad" -> [m EXCEPT !.other = TRUE, !.bad = TRUE]
    [] ev.e = "noclient" -> [m EXCEPT !.noclient = TRUE]
    [] ev.e = "done" -> [m EXCEPT !.done = TRUE, !.dirty = @ \/ Len(m.R) > m.rq]
    [] ev.e = "q" -> [m EXCEPT !.rq = Len(m.R)]
    [] ev.e = "panic" -> [m EXCEPT !.panic = TRUE]
    [] OTHER -> m
=============================================================================
