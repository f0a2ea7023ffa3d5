"""Connection scenarios: behaviours of ConnGen, concretised to bytes, codecs and socket sizes."""
import random
from . import core

FIX = dict(WakeAfterDrain=True, WakeAfterRotate=True, SkipMakesRoom=True, FullPartialEnds=True,
           DeliverOnEof=True, FlushOnClose=True, ReadStops=True)
BASE = dict(MaxBuf=6, Phys=9, MaxQ=3, ChanCap=3, KCap=6, KRxCap=9, Kinds=["msg", "skip"], InLens=[1, 2, 5, 6], NIn=4,
            NOut=0, OutLens=[1], HintBody=False, CanFin=True, CanRst=True, CanDisc=True, CanDrop=True, CanFault=False,
            Atomic=True, **FIX)
FAMILIES = {
    "in": dict(CanDrop=False),
    "inq1": dict(CanDrop=False, MaxQ=1, InLens=[1, 2, 3, 6]),
    "insmall": dict(CanDrop=False, InLens=[1], NIn=9, MaxQ=2, Kinds=["msg"], CanRst=False, CanDisc=False),
    "inbad": dict(CanDrop=False, Kinds=["msg", "bad"], InLens=[1, 2, 6, 7]),
    "body": dict(CanDrop=False, HintBody=True, Kinds=["msg", "skip"], InLens=[2, 5, 6, 7]),
    "out": dict(NIn=0, NOut=14, OutLens=[1, 3, 6], CanFin=False, CanRst=False, CanDisc=False),
    "outq1": dict(NIn=0, NOut=12, OutLens=[1, 3, 6], MaxQ=1, ChanCap=1, CanFin=False, CanRst=False, CanDisc=False),
    "outbig": dict(NIn=0, NOut=8, OutLens=[1, 6, 7], CanFin=False, CanRst=False, CanDisc=False),
    "mixed": dict(NIn=3, NOut=8, OutLens=[1, 3, 6], InLens=[1, 3, 6]),
    "mixedbad": dict(NIn=3, NOut=5, OutLens=[1, 3, 6], InLens=[1, 3, 6, 7], Kinds=["msg", "skip", "bad"]),
}


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, list):
        return "{" + ",".join(tla(x) for x in v) + "}"
    if isinstance(v, str):
        return f'"{v}"'
    return str(v)


def cfg_text(spec, consts, invariants=()):
    s = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
    if invariants:
        s += "INVARIANTS " + " ".join(invariants) + "\n"
    return s + "CONSTANTS\n" + "\n".join(f" {k} = {tla(v)}" for k, v in consts.items()) + "\n"


OFFS = [0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 21, 22, 23, -1, -2]


def concretise(s, rng, sid, slow=False):
    fam = s["family"]
    outward = s["ops"] and any(o[0] == "send" for o in s["ops"])
    body = s["body"]
    has_bad = any(k == "bad" for k, _ in s["frames"])
    codec = "toybody" if body else rng.choice(["toy", "toy", "prost", "msgpack"])
    if any(k == "skip" for k, _ in s["frames"]) and not body and rng.random() < 0.6:
        codec = "toy"
    U = rng.choice([37, 130, 900, 5000])
    sndbuf = rcvbuf = mss = 0
    if outward:
        U = rng.choice([60, 900, 4000, 9000, 30000])
        if U >= 900:
            sndbuf = rng.choice([4608, 8192, 16384, 40000])
            rcvbuf = rng.choice([4608, 8192, 65536])
            mss = rng.choice([0, 536, 1400])
    maxbuf = s["maxbuf"] * U + rng.choice([0, 0, 1, U // 3])

    def size(n):
        if n > s["maxbuf"]:
            return maxbuf + rng.choice([1, 1, 2, 3, 17, U, 5 * U])
        if n == s["maxbuf"]:
            return maxbuf - rng.choice([0, 0, 1, 2])
        return max(22, min(maxbuf, n * U + rng.randrange(-(U // 2), U // 2 + 1)))
    ops = []
    for k, n in s["frames"]:
        if k == "bad":
            ops.append(["bad", size(min(n, s["maxbuf"])), rng.randrange(8)])
        else:
            ops.append([k, size(n)])
    minout = 10 ** 9
    faults = rng.random() < 0.25
    for o in s["ops"]:
        if o[0] == "send":
            z = size(o[1])
            minout = min(minout, z)
            ops.append(["send", rng.choice([1, 1, 1, 2, s["chan"]]), z])
        elif o[0] == "pw" and rng.random() < 0.25:
            ops.append(["pwb", 1, rng.choice(OFFS)])
        elif o[0] == "pw":
            ops.append(["pw", max(1, o[1] * U + rng.choice([0, 0, 1, -1, U // 2, -(U // 3), 22 - U, 5 - U]))])
        elif o[0] == "pr":
            ops.append(["pr", max(1, o[1] * U + rng.choice([0, 1, -1, U // 2]))])
        elif o[0] == "disc":
            ops.append(["disc", rng.randrange(1, 4)])
        else:
            ops.append(o)
        x = rng.random()
        if x < 0.06:
            ops.append(["q"])
        elif x < 0.10:
            ops.append(["qd"])
        elif faults and x < 0.18:
            ops.append(["eintr", rng.choice(["recv", "writev"]), rng.randrange(1, 4)])
    if rng.random() < 0.7:
        ops.append(["pwall"])
        if rng.random() < 0.4:
            ops.append(["q"])
            if s["frames"] and rng.random() < 0.5:
                ops += [["msg", size(1)], ["pwall"]]
    if rng.random() < 0.06:
        ops += [["ioerr", rng.choice(["recv", "writev"])], ["q"]]
    return dict(id=sid, suite="conn", cfg=dict(codec=codec, maxbuf=maxbuf, maxq=s["maxq"], chan=s["chan"], sndbuf=sndbuf,
                                               rcvbuf=rcvbuf, mss=mss, minout=minout if minout < 10 ** 9 else 0), ops=ops)


def directed(rng, n, focus=()):
    """Shapes that need real sizes: stalls that fill every queue, bursts, buffers at the 2 MiB step."""
    out = []
    cases = list(range(14)) + [c for c in focus if isinstance(c, int)]
    many = [17, 16, 16] if n >= 100 else []
    for i in range(n):
        k = cases[i % len(cases)] if i < n - len(many) else many[i - n]
        maxq = rng.choice([1, 2, 3, 4, 8, 130])
        codec = rng.choice(["toy", "toy", "prost", "msgpack"])
        cfg = dict(codec=codec, maxq=maxq, chan=rng.choice([1, maxq, maxq, 2 * maxq]))
        if k in (0, 1, 2):
            # fill everything towards a stalled peer, then let it read
            U = rng.choice([1500, 4000, 20000, 60000])
            if maxq == 130:
                U = 1500
            cfg.update(maxbuf=4 * U, sndbuf=rng.choice([4608, 8192, 16384, 65536]), rcvbuf=rng.choice([4608, 8192, 65536]),
                       mss=rng.choice([0, 536, 1400]), minout=U // 2)
            ops = []
            for _ in range(rng.choice([6, 14, 30])):
                ops += [["send", cfg["chan"], rng.choice([U, U, U // 2, 2 * U])], ["poll"], ["poll"]]
                if rng.random() < 0.2:
                    ops.append(["q"])
                if rng.random() < 0.15:
                    ops.append(["eintr", "writev", rng.randrange(1, 5)])
            ops.append(["q"])
            if k == 1:
                for _ in range(rng.randrange(1, 12)):
                    ops += [["pr", rng.choice([1, 100, U, 3 * U])], ["poll"]]
                    if rng.random() < 0.3:
                        ops += [["send", 1, U], ["poll"]]
            if k == 2:
                ops.append(["droptx"])
                if rng.random() < 0.5:
                    ops.append(["q"])
            ops.append(["qd"])
            if k != 2:
                ops += [["send", 2, U], ["qd"], ["droptx"], ["qd"]]
        elif k in (3, 4):
            # many frames at once, in arbitrary pieces; sometimes with the end of the stream right behind
            U = rng.choice([30, 200, 1500])
            cfg.update(maxbuf=rng.choice([3, 6, 20, 500]) * U)
            ops = []
            for _ in range(rng.choice([3, 12, 40, 300])):
                ops.append(["msg", rng.choice([22, U, U, 2 * U, cfg["maxbuf"]]) if rng.random() < 0.9 or codec != "toy" else 0])
                if ops[-1][1] == 0:
                    ops[-1] = ["skip", rng.choice([U, cfg["maxbuf"]])]
            cut = rng.randrange(0, 4)
            for _ in range(cut):
                ops += [["pw", rng.randrange(1, 4 * cfg["maxbuf"])]] + [["poll"]] * rng.randrange(0, 3)
            ops.append(["pwall"])
            if k == 4:
                ops += ([["poll"]] if rng.random() < 0.3 else []) + [["fin"]]
            ops.append(["qd"])
        elif k == 5:
            # the receive buffer exactly full at a frame boundary or inside a frame
            U = rng.choice([40, 300, 2000])
            maxbuf = 10 * U
            cfg.update(maxbuf=maxbuf)
            first = rng.choice([U, 3 * U, 9 * U, maxbuf - 22, maxbuf])
            kind = "skip" if codec == "toy" and rng.random() < 0.4 else "msg"
            ops = [["msg", first], [kind, rng.choice([maxbuf, maxbuf - 1, 8 * U, 2 * U])], ["msg", U], ["msg", maxbuf]]
            ops += [["pw", maxbuf + rng.choice([0, 0, -1, 1, 5])], ["q"]]
            ops += [["pwall"], ["qd"], ["msg", maxbuf], ["pw", maxbuf - rng.randrange(1, 30)], ["q"], ["pwall"], ["qd"]]
        elif k == 6:
            # two ways at once, with interruptions
            U = rng.choice([200, 3000])
            cfg.update(maxbuf=4 * U, sndbuf=8192, rcvbuf=8192, minout=U // 2)
            ops = []
            for _ in range(20):
                ops.append(rng.choice([["send", 2, U], ["send", 1, 4 * U], ["poll"], ["poll"], ["pr", U], ["eintr", "recv", 2], ["eintr", "writev", 2]]))
                ops += rng.choice([[], [["msg", U], ["pwall"]], [["msg", 3 * U], ["pw", U]]])
            ops += [["pwall"], ["qd"]]
        elif k == 8:
            # more messages than one vectored write takes, to a peer that reads in small pieces
            maxq = cfg["maxq"] = cfg["chan"] = rng.choice([129, 160, 200, 300])
            U = rng.choice([100, 400, 600, 1500])
            cfg.update(maxbuf=4 * U, sndbuf=rng.choice([4608, 8192, 16384, 40000]), rcvbuf=rng.choice([4608, 8192, 65536]),
                       mss=rng.choice([0, 536, 1400]), minout=U // 2)
            ops = []
            for _ in range(rng.choice([2, 3, 4])):
                ops += [["send", maxq, rng.choice([U, U, U // 2 + 30, 2 * U])], ["poll"], ["poll"]]
            for _ in range(rng.randrange(4, 25)):
                ops += [["pr", rng.choice([100, U, 3 * U, 20 * U])], ["poll"]]
                if rng.random() < 0.3:
                    ops += [["send", rng.choice([1, 40]), U], ["poll"]]
            ops += [["qd"], ["send", maxq, U], ["droptx"], ["qd"]]
        elif k in (9, 10):
            # pieces that end at, or a byte or two off, the ends of frames
            U = rng.choice([23, 30, 200, 1500])
            cfg.update(maxbuf=rng.choice([3, 6, 20]) * U)
            if rng.random() < 0.6:
                cfg["codec"] = codec = "toy"
            ops, back = [], 0
            intr = rng.random() < 0.5
            for _ in range(rng.choice([6, 12, 25])):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ops.append([rng.choice(["msg", "msg", "skip"]), rng.choice([22, U, U, 2 * U, cfg["maxbuf"]])])
                if intr and rng.random() < 0.5:
                    ops.append(["eintr", "recv", rng.choice([1, 1, 2, 4])])
                ops += [["pwb", rng.choice([1, 1, 2, 3]), rng.choice(OFFS)]] + [["poll"]] * rng.randrange(0, 4)
                if rng.random() < 0.25:
                    ops.append(["q"])
            ops += [["pwall"]] + ([["fin"]] if rng.random() < 0.3 else []) + [["qd"]]
        elif k == 11:
            # a frame above the limit behind others, with nothing after it
            U = rng.choice([40, 300, 2000])
            maxbuf = 6 * U
            cfg.update(maxbuf=maxbuf)
            if rng.random() < 0.7:
                cfg["codec"] = "toy"
            big = [rng.choice(["skip", "skip", "msg"]), maxbuf + rng.choice([1, 1, 2, 30, U, 10 * U])]
            ops = [["msg", rng.choice([22, U])] for _ in range(rng.randrange(0, 4))] + ([["skip", U]] if rng.random() < 0.3 else [])
            nb = len(ops)
            ops += [big]
            if nb and rng.random() < 0.4:
                ops += [["pwb", rng.randrange(1, nb + 1), rng.choice([0, 1, 4])], ["q"]]
            # everything up to some bytes of the large frame
            ops += [["pwb", 1, -(big[1] - rng.choice([5, 22, 23, U, maxbuf - 1, maxbuf]))]] if rng.random() < 0.7 else [["pwall"]]
            ops += rng.choice([[], [["poll"]], [["q"]]])
            ops += rng.choice([[["q"]], [["pwall"], ["msg", U], ["pwall"], ["qd"]], [["fin"], ["q"]]])
        elif k == 12:
            # the handler disconnects while there is plenty left to send
            U = rng.choice([1500, 20000])
            cfg.update(maxbuf=4 * U, sndbuf=rng.choice([4608, 16384]), rcvbuf=rng.choice([4608, 8192]), minout=U // 2)
            ops = []
            for _ in range(rng.choice([1, 4, 14])):
                ops += [["send", cfg["chan"], rng.choice([U, 2 * U])], ["poll"], ["poll"]]
            ops += rng.choice([[], [["q"]]])
            ops += [["disc", rng.choice([1, 1, 2, 3])]] + [["msg", rng.choice([22, U])] for _ in range(rng.randrange(1, 6))] + [["pwall"]]
            ops += rng.choice([[["q"]], [["poll"], ["q"]], [["send", 1, U], ["q"]], [["droptx"], ["q"]]])
            ops += [["msg", U], ["pwall"], ["q"]]
        elif k == 13:
            # the handler disconnects, or the stream breaks, somewhere in what came with the end of the stream
            U = rng.choice([30, 200])
            cfg.update(maxq=rng.choice([1, 2, 3, 4]), maxbuf=rng.choice([4, 30]) * U)
            cfg["chan"] = cfg["maxq"]
            nf = rng.randrange(2, 14)
            ops = [["msg", rng.choice([22, U, U])] for _ in range(nf)]
            if rng.random() < 0.25:
                ops[rng.randrange(nf)] = ["bad", U, rng.randrange(8)]
            if rng.random() < 0.8:
                ops.insert(rng.randrange(nf), ["disc", rng.randrange(1, nf + 1)])
            if rng.random() < 0.3:
                ops += [["pwb", rng.randrange(1, nf), rng.choice(OFFS)], ["poll"]]
            ops += [["pwall"]] + ([["poll"]] if rng.random() < 0.2 else []) + [["fin"], ["qd"]]
        elif k == 14:
            # limits as large as the defaults: several steps of buffer growth, frames of many MiB
            M = 2 << 20
            maxbuf = rng.choice([3 * M, 3 * M + 77, 4 * M, 4 * M, 5 * M - 1])
            cfg.update(maxbuf=maxbuf, maxq=4, chan=4, codec=rng.choice(["toy", "toy", "prost", "msgpack"]))
            kind = "skip" if cfg["codec"] == "toy" and rng.random() < .2 else "msg"
            ops = [["msg", rng.choice([1000, M // 2, M + 3])]] * rng.randrange(0, 3) + [[kind, rng.choice([maxbuf, maxbuf - 1, 3 * M - 5, 2 * M + 1])], ["msg", 500]]
            ops += rng.choice([[], [["pw", rng.choice([M, 2 * M, 2 * M + 1, 3 * M - 1, maxbuf - 1])], ["q"]]]) + [["pwall"], ["qd"]]
            if rng.random() < .6:
                ops += [["msg", maxbuf], ["msg", 700], ["pwall"], ["qd"]]
            ops += [["send", 1, rng.choice([maxbuf, 2 * M + 1, 3 * M - 9])], ["send", 1, 300]] + ([["droptx"]] if rng.random() < .5 else []) + [["qd"]]
        elif k == 16:
            # a long life: thousands of messages both ways, through many buffers
            cfg["maxq"] = cfg["chan"] = rng.choice([1, 4, 60])
            U = rng.choice([30, 60, 150])
            cfg.update(maxbuf=rng.choice([3, 8, 40]) * U, minout=22)
            ops = []
            while len(ops) < 3600:
                b = rng.choice([1, 2, 10, 60])
                ops += [["msg", rng.choice([22, 22, U, 2 * U])] for _ in range(b)] + [["send", rng.choice([1, b, b]), rng.choice([22, U])]]
                ops += rng.choice([[["pwall"], ["poll"]], [["pw", rng.randrange(1, 3 * b * U)], ["poll"]], [["pwall"], ["poll"], ["poll"], ["pr", 1 << 20]]])
                if rng.random() < .03:
                    ops += [["q"]]
                if rng.random() < .03:
                    ops += [["poll"]] * 40
                if len(ops) % 500 < 3:
                    ops += [["qd"]]
            ops += [["pwall"], ["qd"]] + rng.choice([[["fin"]], [["droptx"]], [["disc", 1], ["msg", 22], ["pwall"]]]) + [["qd"]]
        elif k == 17:
            # nothing happens for a while
            U = 200
            cfg.update(maxbuf=10 * U, minout=22)
            ops = [["msg", U], ["pw", rng.choice([10, 22, U])], ["send", 1, U], ["qd"], ["nap", 1300], ["q"], ["pwall"], ["qd"], ["send", 2, U], ["nap", 300], ["qd"],
                   ["poll"], ["nap", 300], ["msg", U], ["pwall"], ["q"]] + [["poll"]] * 300 + [["msg", U], ["pwall"], ["send", 1, U], ["qd"]]
        elif k == 15:
            # a peer that sends faster than its messages are handled
            U = rng.choice([60000, 150000, 400000])
            maxq = cfg["maxq"] = cfg["chan"] = rng.choice([1, 1, 2])
            cfg.update(maxbuf=rng.choice([U, U + U // 3, 2 * U]), codec=rng.choice(["toy", "toy", "prost"]))
            ops = [["msg", rng.choice([U, U - 1, U // 2, U])] for _ in range(9_000_000 // U)] + [["pwall"]]
            ops += [["poll"]] * rng.randrange(0, 4) + rng.choice([[], [["send", 1, U // 2], ["poll"]]]) + [["qd"]]
        else:
            # the real buffer increment (2 MiB) and a limit at, below and above it
            M = 2 << 20
            maxbuf = rng.choice([M, M - 1, M + 5000, 2 * M])
            cfg.update(maxbuf=maxbuf, maxq=max(2, min(maxq, 8)))
            cfg["chan"] = cfg["maxq"]
            cfg["codec"] = "toy"
            ops = [["msg", rng.choice([1000, 700000, M - 1000])], ["msg", rng.choice([maxbuf, maxbuf - 1])], ["msg", 500], ["msg", rng.choice([maxbuf, 900000])],
                   ["pw", rng.choice([600000, maxbuf, maxbuf + 1000])], ["q"], ["pwall"], ["qd"],
                   ["send", 1, rng.choice([maxbuf, maxbuf - 1])], ["qd"]]
            if rng.random() < 0.4:
                ops += [["send", 1, maxbuf + 1], ["qd"]]
        out.append(dict(id=f"d{i}", suite="conn", cfg=cfg, ops=ops))
    return out


def scenarios(weights, total, ndirected, seed, hlen=30, focus=()):
    rng = random.Random(seed * 7919 + 17)
    res = []
    tot = sum(weights.values())
    from concurrent.futures import ThreadPoolExecutor

    def gen(fw):
        f, w = fw
        n = max(8, total * w // tot)
        c = dict(BASE, **FAMILIES[f])
        lst = core.generate("ConnGen", cfg_text("GSpec", dict(c, HLen=hlen, Family=f)), n, seed)
        return f, n, lst
    with ThreadPoolExecutor(4) as ex:
        for f, n, lst in ex.map(gen, sorted(weights.items())):
            rng.shuffle(lst)
            for i, s in enumerate(lst[:n]):
                res.append(concretise(s, rng, f"{f}-{i}"))
    return res + directed(rng, ndirected, focus)


INV = ("NoViolation", "QuietOk", "Sleeps")
MC_IN = dict(BASE, MaxBuf=3, Phys=4, MaxQ=2, ChanCap=2, KCap=2, KRxCap=3, Kinds=["msg", "skip", "bad"], InLens=[1, 3, 4], NIn=3,
             CanDrop=False, CanFault=True, Atomic=False)
MC_OUT = dict(BASE, MaxBuf=2, Phys=3, MaxQ=2, ChanCap=2, KCap=2, KRxCap=2, Kinds=["msg"], InLens=[1], NIn=0, NOut=5, OutLens=[1, 2],
              CanFin=False, CanDisc=False, CanFault=False, Atomic=False)
MC_MIX = dict(MC_OUT, NIn=1, NOut=3, OutLens=[1, 3], CanFin=True, CanFault=True, CanDisc=True)
MODELS = {
    "in": ("ConnImpl", MC_IN), "inbody": ("ConnImpl", dict(MC_IN, HintBody=True, InLens=[2, 3, 4], Kinds=["msg", "skip"])),
    "out": ("ConnImpl", MC_OUT), "mix": ("ConnImpl", MC_MIX),
    "in-ahead": ("ConnImpl", dict(MC_IN, MaxQ=1, KRxCap=4, Kinds=["msg"], InLens=[1, 2], NIn=8, CanRst=False, CanDisc=False, CanFault=False)),
    "in+": ("ConnImpl", dict(MC_IN, MaxBuf=4, Phys=5, InLens=[1, 3, 4, 5], KRxCap=4)),
    "inbody+": ("ConnImpl", dict(MC_IN, MaxBuf=4, Phys=5, InLens=[2, 3, 4, 5], KRxCap=4, HintBody=True, Kinds=["msg", "skip"])),
    "out+": ("ConnImpl", dict(MC_OUT, MaxBuf=4, KCap=3, NIn=1, NOut=6, OutLens=[1, 2, 5], CanFin=True, CanFault=True)),
    "mix+": ("ConnImpl", dict(MC_MIX, NIn=2, NOut=4, MaxBuf=3, Phys=4, InLens=[1, 3], OutLens=[1, 3, 4], KCap=3)),
}
# switching one design decision off must make the model fail
MUTANTS = {
    "WakeAfterDrain": "out", "WakeAfterRotate": "in", "SkipMakesRoom": "in", "FullPartialEnds": "inbody",
    "DeliverOnEof": "in", "FlushOnClose": "out", "ReadStops": "in-ahead",
}
