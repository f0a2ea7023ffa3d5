------------------------------ MODULE CodecAbs ------------------------------
(***************************************************************************)
(* What a framing codec promises.  `frames` is what the stream truly holds, *)
(* frame by frame; the last one may be broken ("bad"), cut short ("open"),  *)
(* cut short and perhaps broken ("doubt"), or hold a message and more       *)
(* ("odd": accepted or refused).  The decoder is shown a growing prefix of  *)
(* what it has not consumed yet.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CodecInit == [frames |-> <<>>, np |-> 0, at |-> 0]

If(c, label) == IF c THEN {label} ELSE {}

CodecViol(m, ev) ==
  CASE ev.e = "enc" -> If(~ev.ok, "C10")
    [] ev.e \in {"panic", "hang", "crash"} -> {"C10"}
    [] ev.e = "dec" ->
         LET avail == ev.vis - m.at
             known == m.np + 1 <= Len(m.frames)
             f == IF known THEN m.frames[m.np + 1] ELSE [k |-> "open", id |-> 0, len |-> avail + 1, vis |-> avail + 1]
         IN CASE ev.r = "msg"  -> If(~(f.k \in {"msg", "odd"} /\ avail >= f.len /\ ev.n = f.len /\ ev.id = f.id), "C10")
              [] ev.r = "need" -> If(avail >= (IF f.k = "bad" THEN f.vis ELSE f.len), "C10")
              [] ev.r = "bad"  -> If(f.k \notin {"bad", "odd", "doubt"} \/ (f.k = "odd" /\ avail < f.len), "C10")
              [] OTHER -> {"C10"}
    [] OTHER -> {}

CodecApply(m, ev) ==
  CASE ev.e = "frame" -> [m EXCEPT !.frames = Append(@, [k |-> ev.k, id |-> ev.id, len |-> ev.len, vis |-> ev.vis])]
    [] ev.e = "dec" /\ ev.r = "msg" -> [m EXCEPT !.np = @ + 1, !.at = @ + ev.n]
    [] OTHER -> m
=============================================================================
