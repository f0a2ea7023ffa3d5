----------------------------- MODULE CodecImpl -----------------------------
(***************************************************************************)
(* The design of the shipped length-prefixed codecs: a header of Hdr bytes  *)
(* declares the length, a decoder with memory (MessagePack) remembers the   *)
(* declared length between calls, a stateless one (Protocol Buffers) reads  *)
(* it again.  The stream ends with at most one frame that is not one:       *)
(*   "header"  its header can never become a length                         *)
(*   "body"    its body is no message                                       *)
(*   "over"    the message in it runs on past the declared length           *)
(*   "open"    it is cut short                                              *)
(***************************************************************************)
EXTENDS CodecAbs, TLC

CONSTANTS
  Hdr, NF, Lens, Faults,
  Stateful,      \* the declared length is remembered between calls
  ResetState,    \* ... and forgotten once its frame is done
  Confined,      \* the body is decoded within the declared length only
  CheckHeader,   \* a header that cannot become a length is refused
  WholeFrame     \* the wait is for header and body, not for as many bytes as the body has

VARIABLES frames, size, pos, vis, st, dead, m, bad
vars == <<frames, size, pos, vis, st, dead, m, bad>>

Init == /\ frames = <<>> /\ size = 0 /\ pos = 0 /\ vis = 0 /\ st = 0 /\ dead = FALSE /\ m = CodecInit /\ bad = {}

Rec(ev) == m' = CodecApply(m, ev) /\ bad' = bad \cup CodecViol(m, ev)
Closed == frames # <<>> /\ frames[Len(frames)].k # "msg"

(* the peer's stream grows by one frame *)
Put(k, len) ==
  /\ Len(frames) < NF /\ ~Closed
  /\ LET tail == IF k = "over" THEN 2 ELSE 0
         have == IF k = "open" THEN len - 1 ELSE len + tail
     IN /\ frames' = Append(frames, [k |-> k, s |-> size, len |-> len])
        /\ size' = size + have
        /\ Rec([e |-> "frame", k |-> IF k \in {"msg", "open"} THEN k ELSE "bad", id |-> Len(frames) + 1,
                len |-> len, vis |-> IF k = "header" THEN Hdr ELSE len])
  /\ UNCHANGED <<pos, vis, st, dead>>

(* which frame begins at byte p *)
At(p) == { i \in 1..Len(frames) : frames[i].s = p }

Outcome ==
  LET a == vis - pos
      f == CHOOSE i \in At(pos) : TRUE
      true == frames[f].len
      len == IF Stateful /\ st # 0 THEN st ELSE true
      fresh == ~(Stateful /\ st # 0)
      want == IF WholeFrame THEN len ELSE len - Hdr
  IN IF At(pos) = {} THEN [r |-> "bad", n |-> 0, id |-> 0, st |-> 0]       \* misframed: noise
     ELSE IF fresh /\ frames[f].k = "header"
     THEN [r |-> IF a >= Hdr /\ CheckHeader THEN "bad" ELSE "need", n |-> 0, id |-> 0, st |-> 0]
     ELSE IF fresh /\ a < Hdr THEN [r |-> "need", n |-> 0, id |-> 0, st |-> 0]
     ELSE IF a < want THEN [r |-> "need", n |-> 0, id |-> 0, st |-> len]
     ELSE LET s2 == IF ResetState THEN 0 ELSE len IN
          IF frames[f].k = "over" /\ ~Confined /\ a >= len + 2 THEN [r |-> "msg", n |-> len + 2, id |-> f, st |-> s2]
          ELSE IF frames[f].k # "msg" \/ a < true THEN [r |-> "bad", n |-> 0, id |-> 0, st |-> s2]
          ELSE [r |-> "msg", n |-> len, id |-> IF len = true THEN f ELSE -1, st |-> s2]

Decode ==
  /\ ~dead /\ pos < vis
  /\ LET o == Outcome IN
     /\ st' = o.st /\ dead' = (o.r = "bad" \/ o.n > vis - pos)
     /\ pos' = pos + o.n
     /\ Rec([e |-> "dec", r |-> o.r, n |-> o.n, id |-> o.id, vis |-> vis])
  /\ UNCHANGED <<frames, size, vis>>

More(k) == /\ vis + k <= size /\ vis' = vis + k /\ UNCHANGED <<frames, size, pos, st, dead, m, bad>>

Next == Decode \/ (\E k \in 1..size : More(k)) \/ (\E l \in Lens : Put("msg", l)) \/ (\E k \in Faults, l \in Lens : Put(k, l))
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
(* when everything was consumed, every message was produced *)
Progress == (vis = size /\ size > 0 /\ ~Closed /\ ~dead /\ pos = size) => m.np = Len(frames)
=============================================================================
