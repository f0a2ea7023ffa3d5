------------------------------ MODULE E2EAbs ------------------------------
(***************************************************************************)
(* What callers on one end and the service on the other can rely on while   *)
(* the connections between them are up.  Call c (of which the service       *)
(* learns through its request) is answered Answer(c, 0), or streams         *)
(* Answer(c, 1), ..., Answer(c, n).                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Answer(c, j) == c * 2000 + j
E2EInit == [calls |-> <<>>, bye |-> FALSE]
(* calls: in the order they were issued; a call is found by its number *)
Ix(m, c) == { i \in 1..Len(m.calls) : m.calls[i].c = c }
Has(m, c) == Ix(m, c) # {}
The(m, c) == m.calls[CHOOSE i \in Ix(m, c) : TRUE]

If(b, label) == IF b THEN {label} ELSE {}

(* what the service needs to do for it, it has done *)
Owed(x) == x.st = "open" /\ ~x.never
E2EViol(m, ev) ==
  CASE ev.e = "start" -> If(~ev.ok \/ ~Has(m, ev.c) \/ (Has(m, ev.c) /\ (The(m, ev.c).started \/ The(m, ev.c).id # ev.id)), "C23")
    [] ev.e = "resp" ->
         If(~Has(m, ev.c) \/ ~ev.ok \/ (Has(m, ev.c) /\ LET x == The(m, ev.c) IN
              x.st # "open" \/ x.s \/ x.never \/ ~x.started \/ ev.val # Answer(ev.c, 0)), "C23")
    [] ev.e = "item" ->
         If(~Has(m, ev.c) \/ ~ev.ok \/ (Has(m, ev.c) /\ LET x == The(m, ev.c) IN
              x.st # "open" \/ ~x.s \/ ~x.started \/ x.got >= x.n \/ ev.val # Answer(ev.c, x.got + 1)), "C23")
    [] ev.e = "end" ->
         If(~Has(m, ev.c) \/ (Has(m, ev.c) /\ LET x == The(m, ev.c) IN
              x.st # "open" \/ ~x.s \/ x.never \/ x.got # x.n), "C23")
    [] ev.e = "err" -> If(~m.bye, "C23")
    [] ev.e = "rdrop" ->
         \* given up by the server although its caller still waits
         If(Has(m, ev.c) /\ ~ev.fin /\ ~m.bye /\ The(m, ev.c).st = "open", "C23")
    [] ev.e = "alive" -> If(~ev.is, "C23")
    [] ev.e = "q" ->
         If(\E i \in 1..Len(m.calls) : Owed(m.calls[i]), "C23")
         \cup If(\E i \in 1..Len(m.calls) : m.calls[i].st \in {"done", "dropped"} /\ m.calls[i].started /\ ~m.calls[i].released, "C23")
         \cup If(\E i \in 1..Len(m.calls) : m.calls[i].st = "open" /\ ~m.calls[i].started, "C23")
    [] ev.e = "gone" ->
         If(\E i \in 1..Len(m.calls) : m.calls[i].started /\ ~m.calls[i].released, "C19")
    [] ev.e \in {"hang", "crash"} -> {"C23", "C19"}
    [] OTHER -> {}

(* a call that is over on both sides is forgotten: whatever comes for it later is out of place *)
Over(x) == x.st \in {"done", "dropped"} /\ x.started /\ x.released
Upd(m, c, f(_)) ==
  IF ~Has(m, c) THEN m
  ELSE LET i == CHOOSE i \in Ix(m, c) : TRUE
           x == f(m.calls[i])
       IN IF Over(x) THEN [m EXCEPT !.calls = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
          ELSE [m EXCEPT !.calls[i] = x]
E2EApply(m, ev) ==
  CASE ev.e = "call" -> [m EXCEPT !.calls = Append(@, [c |-> ev.c, id |-> ev.id, s |-> ev.s, n |-> ev.n, never |-> ev.never, got |-> 0,
                                                        st |-> "open", started |-> FALSE, released |-> FALSE])]
    [] ev.e = "start" -> Upd(m, ev.c, LAMBDA x : [x EXCEPT !.started = TRUE])
    [] ev.e = "resp" -> Upd(m, ev.c, LAMBDA x : [x EXCEPT !.st = "done"])
    [] ev.e = "item" -> Upd(m, ev.c, LAMBDA x : [x EXCEPT !.got = @ + 1])
    [] ev.e \in {"end", "err"} -> Upd(m, ev.c, LAMBDA x : [x EXCEPT !.st = "done"])
    [] ev.e = "drop" -> Upd(m, ev.c, LAMBDA x : [x EXCEPT !.st = "dropped"])
    [] ev.e = "rdrop" -> Upd(m, ev.c, LAMBDA x : [x EXCEPT !.released = TRUE])
    [] ev.e = "bye" -> [m EXCEPT !.bye = TRUE]
    [] OTHER -> m
=============================================================================
