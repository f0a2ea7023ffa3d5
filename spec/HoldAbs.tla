------------------------------ MODULE HoldAbs ------------------------------
(***************************************************************************)
(* What is kept for work that is over: nothing.                             *)
(*                                                                          *)
(* Rounds of equal work are done; after each of them every call, RPC and    *)
(* message of it is over (answered, streamed to its end, cancelled,         *)
(* dropped, or its connection closed), and the memory in use is noted once  *)
(* everything has come to rest.  The first rounds fill what is kept on      *)
(* purpose (buffers, queues, tables of the size once needed).  From then on *)
(* the memory in use does not grow with the work that is over.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

HoldInit ==
  [ warm  |-> 0,    \* how many rounds fill what is kept on purpose
    slack |-> 0,    \* what may come on top of that
    per   |-> 1,    \* ... and, for this many finished calls each, one unit more
    round |-> 0,
    over  |-> 0,    \* calls, RPCs, messages and connections that were over since then
    base  |-> 0 ]   \* the most that was in use during these rounds

HoldViol(m, ev) ==
  CASE ev.e = "mem" ->
         IF m.round >= m.warm /\ ev.n > m.base + m.slack + (m.over \div m.per) THEN {"C25"} ELSE {}
    [] ev.e \in {"hang", "crash"} -> {"C25"}
    [] OTHER -> {}

Most(a, b) == IF a > b THEN a ELSE b
HoldApply(m, ev) ==
  CASE ev.e = "cfg" -> [m EXCEPT !.warm = ev.warm, !.slack = ev.slack, !.per = ev.per]
    [] ev.e = "over" -> IF m.round >= m.warm THEN [m EXCEPT !.over = @ + ev.n] ELSE m
    [] ev.e = "mem" -> [m EXCEPT !.round = @ + 1, !.base = IF m.round < m.warm THEN Most(@, ev.n) ELSE @]
    [] OTHER -> m
=============================================================================
