------------------------------ MODULE ConnImpl ------------------------------
(***************************************************************************)
(* The design of one protosocket connection: the five poll steps of         *)
(* protosocket-connection/src/connection.rs with their wake-ups, between an *)
(* application, the kernel's socket buffers and a peer, all of which may    *)
(* act between any two steps.  Bytes are abstract units.                    *)
(*                                                                          *)
(* `m` runs the contract ConnAbs along: every observable event is an event  *)
(* of the contract and `bad` collects the clauses it breaks.                *)
(*                                                                          *)
(* The Boolean constants switch single design decisions off; each of them   *)
(* FALSE is a defect that the real code had (see DESIGN.md), and the        *)
(* checks use that to show that the model can see it.                       *)
(***************************************************************************)
EXTENDS ConnAbs, TLC

CONSTANTS
  MaxBuf,        \* configured buffer limit
  Phys,          \* what the receive buffer really holds (>= MaxBuf)
  MaxQ,          \* configured number of queued messages
  ChanCap,       \* capacity of the application's outbound queue
  KCap,          \* units the kernel takes from us before it blocks
  KRxCap,        \* units the kernel holds for us
  Kinds, InLens, \* inbound frames: kinds and lengths
  NIn, NOut, OutLens,
  HintBody,      \* the decoder's size hint leaves out the prefix (1 unit)
  CanFin, CanRst, CanDisc, CanDrop, CanFault,
  Atomic,        \* the environment acts only between polls
  WakeAfterDrain, WakeAfterRotate, SkipMakesRoom, FullPartialEnds,
  DeliverOnEof, FlushOnClose, ReadStops

VARIABLES
  pc, woken, rreg, wreg, chreg,
  krx, ks, ke, inb, ip,         \* receive side: kernel, buffer window, batch, stream position
  chan, obuf, sendq, closedSeen, wasFull,
  ktx, got,                     \* send side: kernel, units of the current message the peer has
  m, bad, idle, tx, fin, rst, disc

rvars == <<krx, ks, ke, inb, ip>>
svars == <<chan, obuf, sendq, closedSeen, wasFull>>
evars == <<tx, fin, rst, disc>>
vars == <<pc, woken, rreg, wreg, chreg, rvars, svars, ktx, got, m, bad, idle, evars>>

Min(a, b) == IF a < b THEN a ELSE b

Rec(ev) == /\ m' = ConnApply(m, ev)
           /\ bad' = bad \cup ConnViol(m, ev)
RecNone == UNCHANGED <<m, bad>>
(* two events in a row *)
Rec2(e1, e2) == LET m1 == ConnApply(m, e1) IN
                /\ m' = ConnApply(m1, e2)
                /\ bad' = bad \cup ConnViol(m, e1) \cup ConnViol(m1, e2)

FrameSet == { [k |-> k, len |-> n] : k \in Kinds, n \in InLens }
Scripts == UNION { [1..n -> FrameSet] : n \in 0..NIn }

RECURSIVE AddFrames(_, _, _)
AddFrames(mm, s, i) ==
  IF i > Len(s) THEN mm
  ELSE AddFrames(ConnApply(mm, [e |-> "frame", k |-> s[i].k, id |-> i, len |-> s[i].len, vis |-> 1,
                                hint |-> IF HintBody /\ s[i].k = "msg" THEN s[i].len - 1 ELSE s[i].len]), s, i + 1)

Init ==
  /\ pc = "sleep" /\ woken = TRUE /\ rreg = FALSE /\ wreg = FALSE /\ chreg = FALSE
  /\ krx = 0 /\ ks = 0 /\ ke = 0 /\ inb = <<>> /\ ip = 0
  /\ chan = <<>> /\ obuf = <<>> /\ sendq = <<>> /\ closedSeen = FALSE /\ wasFull = FALSE
  /\ ktx = 0 /\ got = 0 /\ bad = {} /\ idle = 0
  /\ tx = TRUE /\ fin = FALSE /\ rst = FALSE /\ disc = FALSE
  /\ \E s \in Scripts :
       m = AddFrames(ConnApply(ConnInit, [e |-> "cfg", maxbuf |-> MaxBuf, maxq |-> MaxQ,
                                          chan |-> ChanCap, kcap |-> KCap, ahead |-> Phys - MaxBuf]), s, 1)

StreamLen == IF m.frames = <<>> THEN 0 ELSE m.frames[Len(m.frames)].e

-----------------------------------------------------------------------------
(* Environment *)
EnvOk == /\ ~Atomic \/ pc \in {"sleep", "closed"}
         /\ idle' = 0

AppSend(n) ==
  /\ EnvOk /\ tx /\ pc # "closed"
  /\ Len(chan) < ChanCap /\ Len(m.acc) < NOut
  /\ chan' = Append(chan, n)
  /\ Rec([e |-> "send", ids |-> <<Len(m.acc) + 1>>, ns |-> <<n>>])
  /\ woken' = (woken \/ chreg) /\ chreg' = FALSE
  /\ UNCHANGED <<pc, rreg, wreg, rvars, obuf, sendq, closedSeen, wasFull, ktx, got, evars>>

DropTx ==
  /\ EnvOk /\ CanDrop /\ tx
  /\ tx' = FALSE /\ Rec([e |-> "droptx"])
  /\ woken' = (woken \/ chreg) /\ chreg' = FALSE
  /\ UNCHANGED <<pc, rreg, wreg, rvars, svars, ktx, got, fin, rst, disc>>

PeerWrite(n) ==
  /\ EnvOk /\ ~fin /\ ~rst /\ n > 0
  /\ m.rxb + n <= StreamLen /\ krx + n <= KRxCap
  /\ krx' = krx + n
  /\ Rec([e |-> "pw", n |-> n])
  /\ woken' = (woken \/ rreg) /\ rreg' = FALSE
  /\ UNCHANGED <<pc, wreg, chreg, ks, ke, inb, ip, svars, ktx, got, evars>>

PeerFin ==
  /\ EnvOk /\ CanFin /\ ~fin /\ ~rst
  /\ fin' = TRUE /\ Rec([e |-> "fin"])
  /\ woken' = (woken \/ rreg) /\ rreg' = FALSE
  /\ UNCHANGED <<pc, wreg, chreg, rvars, svars, ktx, got, tx, rst, disc>>

PeerRst ==
  /\ EnvOk /\ CanRst /\ ~rst /\ pc # "closed"
  /\ rst' = TRUE /\ Rec([e |-> "rst"])
  /\ woken' = (woken \/ rreg \/ wreg) /\ rreg' = FALSE /\ wreg' = FALSE
  /\ UNCHANGED <<pc, chreg, rvars, svars, ktx, got, tx, fin, disc>>

(* the peer reads n units; whole messages are events *)
RECURSIVE Whole(_, _, _)
Whole(mm, k, g) ==   \* <<ids completed by g units starting in message k, leftover>>
  IF k > Len(mm.acc) \/ g < mm.acc[k][2] THEN <<<<>>, g>>
  ELSE LET r == Whole(mm, k + 1, g - mm.acc[k][2]) IN <<<<k>> \o r[1], r[2]>>

PeerRead(n) ==
  /\ EnvOk /\ ~rst /\ n > 0 /\ n <= ktx
  /\ LET r == Whole(m, m.nw + 1, got + n) IN
       /\ IF r[1] = <<>> THEN RecNone ELSE Rec([e |-> "recv", ids |-> r[1]])
       /\ got' = r[2]
  /\ ktx' = ktx - n
  /\ woken' = (woken \/ wreg) /\ wreg' = FALSE
  /\ UNCHANGED <<pc, rreg, chreg, rvars, svars, evars>>

PeerEof ==
  /\ EnvOk /\ pc = "closed" /\ ktx = 0 /\ ~rst /\ ~m.eof
  /\ Rec([e |-> "peof", part |-> got])
  /\ UNCHANGED <<pc, woken, rreg, wreg, chreg, rvars, svars, ktx, got, evars>>
(* closing a socket with unread input resets it: what the peer had not read may be lost *)
PeerSeesRst ==
  /\ EnvOk /\ pc = "closed" /\ m.dirty /\ ~rst /\ ~m.eof
  /\ Rec([e |-> "prst", part |-> got]) /\ ktx' = 0
  /\ UNCHANGED <<pc, woken, rreg, wreg, chreg, rvars, svars, got, evars>>
IoError ==
  /\ EnvOk /\ CanFault /\ pc = "sleep" /\ ~m.ioerr /\ (rreg \/ wreg)
  /\ Rec([e |-> "ioerr"]) /\ woken' = TRUE
  /\ UNCHANGED <<pc, rreg, wreg, chreg, rvars, svars, ktx, got, evars>>

Env == \/ \E n \in OutLens : AppSend(n)
       \/ DropTx
       \/ \E n \in 1..KRxCap : PeerWrite(n)
       \/ PeerFin \/ PeerRst \/ IoError
       \/ \E n \in 1..KCap : PeerRead(n)
       \/ PeerEof \/ PeerSeesRst

-----------------------------------------------------------------------------
(* The connection *)
Poll == /\ pc = "sleep" /\ woken
        /\ pc' = "recv" /\ woken' = FALSE
        /\ idle' = idle + 1
        /\ UNCHANGED <<rreg, wreg, chreg, rvars, svars, ktx, got, m, bad, evars>>

(* Decoding.  p: units of the stream consumed; avail: units behind p in the buffer. *)
FrameAt(p) == CHOOSE i \in 1..Len(m.frames) : m.frames[i].s = p
Decode(p, avail) ==
  LET i == FrameAt(p)
      f == m.frames[i]
      n == FLen(f)
      hint == IF HintBody THEN n - 1 ELSE n
  IN CASE f.k = "bad" -> [r |-> "invalid"]
       [] f.k = "skip" -> [r |-> "skip", n |-> n]
       [] f.k = "msg" /\ avail >= n -> [r |-> "ok", n |-> n, id |-> f.id]
       [] OTHER -> [r |-> "more", n |-> IF hint > 0 THEN hint ELSE 1]

(* the decode loop: state s is [ks, ke, ip, inb]; result adds st *)
RECURSIVE Deser(_)
Deser(s) ==
  IF s.ks = s.ke THEN [s EXCEPT !.st = "wait", !.ks = 0, !.ke = 0]
  ELSE IF Len(s.inb) = MaxQ THEN [s EXCEPT !.st = "part"]
  ELSE LET avail == s.ke - s.ks
           d == Decode(s.ip, avail)
           Rotated == [s EXCEPT !.st = "wait", !.ks = 0, !.ke = avail]
       IN CASE d.r = "ok" -> Deser([s EXCEPT !.ks = @ + d.n, !.ip = @ + d.n, !.inb = Append(@, d.id)])
            [] d.r = "invalid" -> [s EXCEPT !.st = "dead"]
            [] d.r = "more" ->
                 IF MaxBuf < d.n \/ (FullPartialEnds /\ MaxBuf <= avail) THEN [s EXCEPT !.st = "dead"]
                 ELSE IF MaxBuf < s.ke + d.n THEN Rotated
                 ELSE [s EXCEPT !.st = "wait"]
            [] d.r = "skip" ->
                 IF avail >= d.n THEN Deser([s EXCEPT !.ks = @ + d.n, !.ip = @ + d.n])
                 ELSE IF ~SkipMakesRoom THEN [s EXCEPT !.st = "wait"]
                 ELSE IF MaxBuf < d.n THEN [s EXCEPT !.st = "dead"]
                 ELSE IF MaxBuf < s.ke + d.n THEN Rotated
                 ELSE [s EXCEPT !.st = "wait"]

(* everything decodable, batch after batch (used at end of stream) *)
RECURSIVE DeserAll(_)
DeserAll(s) ==
  LET r == Deser([s EXCEPT !.inb = <<>>])
  IN IF r.st = "part" THEN [ids |-> r.inb \o DeserAll(r).ids] ELSE [ids |-> r.inb]

BufState(e) == [ks |-> ks, ke |-> e, ip |-> ip, inb |-> inb, st |-> "?"]

End(ev) ==  \* the future is ready: the connection is dropped
  /\ pc' = "closed" /\ woken' = FALSE
  /\ ev

Recv ==
  /\ pc = "recv"
  /\ IF ReadStops /\ ke >= MaxBuf
     THEN /\ pc' = "deser" /\ RecNone
          /\ UNCHANGED <<woken, rreg, rvars, idle>>
     ELSE LET n == IF ReadStops THEN Min(krx, Phys - ke) ELSE krx
              e == ke + n
          IN IF rst \/ m.ioerr
             THEN /\ End(Rec([e |-> "done"]))
                  /\ UNCHANGED <<rreg, rvars, idle>>
             ELSE IF e < MaxBuf /\ fin
             THEN LET ids == IF DeliverOnEof THEN DeserAll(BufState(e)).ids ELSE <<>> IN
                  /\ End(IF ids = <<>> THEN Rec([e |-> "done"])
                         ELSE Rec2([e |-> "deliver", ids |-> ids], [e |-> "done"]))
                  /\ krx' = krx - n
                  /\ UNCHANGED <<rreg, ks, ke, inb, ip, idle>>
             ELSE /\ krx' = krx - n /\ ke' = e
                  /\ rreg' = (rreg \/ e < MaxBuf)
                  /\ idle' = IF n > 0 THEN 0 ELSE idle
                  /\ pc' = "deser"
                  /\ IF n > 0 THEN Rec([e |-> "rd", n |-> n]) ELSE RecNone
                  /\ UNCHANGED <<woken, ks, inb, ip>>
  /\ UNCHANGED <<wreg, chreg, svars, ktx, got, evars>>

DeserStep ==
  /\ pc = "deser"
  /\ IF ks = ke
     THEN /\ pc' = "react" /\ RecNone /\ UNCHANGED <<woken, rvars>>
     ELSE LET r == Deser(BufState(ke)) IN
          /\ ks' = r.ks /\ ke' = r.ke /\ ip' = r.ip /\ inb' = r.inb /\ krx' = krx
          /\ IF r.st = "dead" THEN End(Rec([e |-> "done"]))
             ELSE /\ pc' = "react" /\ RecNone
                  /\ woken' = (\/ woken \/ r.st = "part" \/ Len(r.inb) > Len(inb)
                               \/ (WakeAfterRotate /\ ke >= MaxBuf /\ r.ke < MaxBuf))
  /\ UNCHANGED <<rreg, wreg, chreg, svars, ktx, got, evars, idle>>

React ==
  /\ pc = "react"
  /\ inb' = <<>>
  /\ idle' = IF inb = <<>> THEN idle ELSE 0
  /\ \/ /\ pc' = "ser" /\ woken' = woken /\ disc' = disc
        /\ IF inb = <<>> THEN RecNone ELSE Rec([e |-> "deliver", ids |-> inb])
     \/ /\ CanDisc /\ inb # <<>> /\ ~disc
        /\ disc' = TRUE
        /\ LET m1 == ConnApply(m, [e |-> "deliver", ids |-> inb])
               m2 == ConnApply(m1, [e |-> "disc"])
           IN /\ m' = ConnApply(m2, [e |-> "done"])
              /\ bad' = bad \cup ConnViol(m, [e |-> "deliver", ids |-> inb])
                            \cup ConnViol(m2, [e |-> "done"])
        /\ pc' = "closed" /\ woken' = FALSE
  /\ UNCHANGED <<rreg, wreg, chreg, krx, ks, ke, ip, svars, ktx, got, tx, fin, rst>>

(* one encode; the surrounding loop is the chain of Ser steps *)
SerStart ==
  /\ pc = "ser"
  /\ wasFull' = (Len(sendq) = MaxQ)
  /\ pc' = IF Len(sendq) = MaxQ THEN "out" ELSE "enc"
  /\ UNCHANGED <<woken, rreg, wreg, chreg, rvars, chan, obuf, sendq, closedSeen, ktx, got, m, bad, idle, evars>>

Enc ==
  /\ pc = "enc"
  /\ IF Len(sendq) = MaxQ
     THEN /\ pc' = "out" /\ RecNone
          /\ UNCHANGED <<woken, chreg, chan, obuf, sendq, closedSeen, idle>>
     ELSE LET k == Min(Len(chan), MaxQ)
              src == IF obuf # <<>> THEN obuf ELSE SubSeq(chan, 1, k)
              rest == IF obuf # <<>> THEN chan ELSE SubSeq(chan, k + 1, Len(chan))
          IN IF src # <<>>
             THEN /\ chan' = rest /\ obuf' = Tail(src) /\ idle' = 0
                  /\ IF Head(src) > MaxBuf
                     THEN /\ End(Rec2([e |-> "enc", id |-> m.ne + 1], [e |-> "done"]))
                          /\ sendq' = sendq
                     ELSE /\ Rec([e |-> "enc", id |-> m.ne + 1])
                          /\ sendq' = Append(sendq, Head(src))
                          /\ woken' = TRUE /\ pc' = "enc"
                  /\ UNCHANGED <<chreg, closedSeen>>
             ELSE IF tx
             THEN /\ chreg' = TRUE /\ pc' = "out" /\ RecNone
                  /\ UNCHANGED <<woken, chan, obuf, sendq, closedSeen, idle>>
             ELSE /\ IF FlushOnClose /\ sendq # <<>>
                     THEN /\ pc' = "out" /\ closedSeen' = TRUE /\ RecNone /\ woken' = woken
                     ELSE /\ End(Rec([e |-> "done"])) /\ closedSeen' = closedSeen
                  /\ UNCHANGED <<chreg, chan, obuf, sendq, idle>>
  /\ UNCHANGED <<rreg, wreg, rvars, wasFull, ktx, got, evars>>

RECURSIVE Rotate(_, _)
Rotate(q, n) == IF n = 0 THEN q
                ELSE IF Head(q) <= n THEN Rotate(Tail(q), n - Head(q))
                ELSE <<Head(q) - n>> \o Tail(q)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Out ==
  /\ pc = "out"
  /\ IF sendq # <<>> /\ (rst \/ m.ioerr)
     THEN /\ End(Rec([e |-> "done"]))
          /\ UNCHANGED <<wreg, sendq, ktx, idle>>
     ELSE LET n == Min(Sum(sendq), KCap - ktx)
              q == Rotate(sendq, n)
          IN /\ sendq' = q /\ ktx' = ktx + n
             /\ wreg' = (wreg \/ q # <<>>)
             /\ idle' = IF n > 0 THEN 0 ELSE idle
             /\ IF closedSeen /\ q = <<>>
                THEN End(Rec([e |-> "done"]))
                ELSE /\ pc' = "sleep" /\ RecNone
                     /\ woken' = (woken \/ (WakeAfterDrain /\ Len(sendq) = MaxQ /\ Len(q) < MaxQ))
  /\ UNCHANGED <<rreg, chreg, rvars, chan, obuf, closedSeen, wasFull, got, evars>>

Conn == Poll \/ Recv \/ DeserStep \/ React \/ SerStart \/ Enc \/ Out

Next == Env \/ Conn
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoViolation == bad = {}

(* nothing is about to happen unless the environment acts *)
Quiet == (pc = "sleep" /\ ~woken) \/ pc = "closed"
Drained == ktx = 0 /\ (pc = "closed" => m.eof \/ rst)
QuietOk == Quiet => ConnViol(m, [e |-> "q", drained |-> Drained]) = {}

(* C22: a poll that achieves nothing is followed by sleep, up to two spare polls *)
Sleeps == idle <= 3
=============================================================================
