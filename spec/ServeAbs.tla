------------------------------ MODULE ServeAbs ------------------------------
(***************************************************************************)
(* What a ProtosocketServer promises: every connection made to it gets      *)
(* exactly one handler and then behaves as one connection promises          *)
(* (ConnAbs), with the limits in force when it was made, whatever happens   *)
(* on the others.                                                           *)
(***************************************************************************)
EXTENDS ConnAbs

ServeInit == [ conns |-> <<>>, open |-> <<>> ]

Cs(s) == 1..Len(s.conns)
(* something unusual has happened on another connection *)
Odd(m) == m.fin \/ m.rst \/ m.disc \/ m.done \/ BadSeen(m) \/ OversizeSeen(m) \/ m.big \/ Len(m.acc) > m.nw \/ m.maxq > 0
Others(s, n) == \E k \in Cs(s) : k # n /\ Odd(s.conns[k])
Wide(s, n, L) == IF L = {} THEN {} ELSE L \cup If(Others(s, n), "C20")

ServeViol(s, ev) ==
  CASE ev.e = "open" -> If(ev.n > Len(s.conns) \/ (ev.n <= Len(s.conns) /\ s.open[ev.n] > 0), "C20")
    [] ev.e = "c" -> IF ev.n > Len(s.conns) THEN {"C20"} ELSE Wide(s, ev.n, ConnViol(s.conns[ev.n], ev.x))
    [] ev.e = "srvdone" -> {"C20"}
    [] ev.e = "spin" -> {"C22"}
    [] ev.e = "q" ->
         UNION { Wide(s, n, ConnViol(s.conns[n], [e |-> "q", drained |-> ev.rd[n]])) \cup If(s.open[n] = 0, "C20") : n \in Cs(s) }
    [] ev.e \in {"hang", "crash"} -> {"C20", "C22"}
    [] OTHER -> {}

ServeApply(s, ev) ==
  CASE ev.e = "dial" -> [conns |-> Append(s.conns, ConnInit), open |-> Append(s.open, 0)]
    [] ev.e = "open" -> IF ev.n > Len(s.conns) THEN s ELSE [s EXCEPT !.open[ev.n] = @ + 1]
    [] ev.e = "c" -> IF ev.n > Len(s.conns) THEN s ELSE [s EXCEPT !.conns[ev.n] = ConnApply(@, ev.x)]
    [] ev.e = "q" -> [s EXCEPT !.conns = [n \in Cs(s) |-> ConnApply(s.conns[n], [e |-> "q", drained |-> ev.rd[n]])]]
    [] OTHER -> s
=============================================================================
