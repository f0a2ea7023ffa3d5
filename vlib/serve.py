"""ProtosocketServer scenarios: behaviours of ServeGen, concretised, and directed shapes."""
import random
from . import core
from .conn import cfg_text

FIX = dict(ServeRewake=True, ServeRecovers=True, LimitsNow=True, OwnTask=True)
_B = dict(NConn=2, NIn=2, NOut=1, WCap=1, Limits=[2], Lens=[1, 3], InKinds=["msg", "bad"], MaxQ=1, CanFin=False, CanRst=False, CanDrop=False,
          CanDisc=False, CanFault=False, CanLimit=False, **FIX)
INV = ("NoViolation", "QuietOk")
MODELS = {
    "serve": ("ServeImpl", dict(_B, NOut=2, Lens=[1], CanFault=True, CanRst=True)),
    "serve-limits": ("ServeImpl", dict(_B, Limits=[2, 4], Lens=[1, 3], InKinds=["msg"], CanLimit=True, CanDrop=True)),
    "serve-ends": ("ServeImpl", dict(_B, NOut=1, Lens=[1], CanFin=True, CanDisc=True)),
    "serve-ends+": ("ServeImpl", dict(_B, NOut=1, CanFin=True, CanRst=True, CanDisc=True)),
    "serve+": ("ServeImpl", dict(_B, NConn=3, NIn=2, NOut=2, Lens=[1], InKinds=["msg", "bad"], CanFault=True, CanRst=True)),
    "serve-limits+": ("ServeImpl", dict(_B, NConn=2, NIn=2, NOut=2, Limits=[2, 4], Lens=[1, 3], InKinds=["msg", "skip"], CanLimit=True, CanDrop=True)),
}
MUTANTS = {"ServeRewake": "serve", "ServeRecovers": "serve", "LimitsNow": "serve-limits", "OwnTask": "serve-ends"}
_G = dict(_B, NConn=4, NIn=14, NOut=10, WCap=2, Limits=[2, 4], Lens=[1, 2, 3], InKinds=["msg", "skip", "bad"], MaxQ=2, CanFin=True, CanRst=True,
          CanDrop=True, CanDisc=True, CanFault=True, CanLimit=True)
FAMILIES = {
    "mix": {},
    "calm": dict(CanFin=False, CanRst=False, CanDisc=False, InKinds=["msg", "skip"], Limits=[4], CanLimit=False, NOut=16),
    "many": dict(NConn=8, NIn=10, NOut=6),
}


def concretise(s, rng, sid):
    codec = rng.choice(["toy", "toy", "prost", "msgpack"])
    U = rng.choice([60, 400, 3000])
    maxq = rng.choice([s["maxq"], s["maxq"], 8])
    lim = lambda x: x * U
    cfg = dict(codec=codec, maxbuf=lim(2), maxq=maxq)
    if s["family"] == "calm":
        cfg["maxbuf"] = lim(4)
    stall = rng.random() < .3
    if stall:
        cfg.update(sndbuf=4608, rcvbuf=4608)
    cur = cfg["maxbuf"]
    lims = []
    size = lambda l, mb: max(22, min(mb - rng.choice([0, 1, 3]), l * U)) if l * U <= mb else mb + rng.choice([1, U, 5 * U])
    ops = []
    reads = not stall or rng.random() < .5
    dense = rng.random()
    for o in s["ops"]:
        n = o[1] if len(o) > 1 else 0
        if o[0] == "dial":
            lims.append(cur)
            ops.append(["dial", reads, rng.random() < .4])
        elif o[0] == "frame":
            mb = lims[n - 1]
            if o[2] == "bad":
                ops.append(["bad", n, max(22, U), rng.randrange(8)])
            elif o[3] * U > mb:
                # the header first: a complete frame above the limit may also be delivered
                z = size(o[3], mb)
                ops += [[o[2], n, z, z - 30 if z > mb + 40 else max(1, z - mb)], ["q"]]
            else:
                ops.append([o[2], n, size(o[3], mb), rng.choice([0, 0, 0, 5])])
        elif o[0] == "send":
            ops.append(["send", n, rng.choice([1, 1, 2, maxq]), size(o[2], lims[n - 1])])
        elif o[0] == "limits":
            cur = lim(o[1])
            ops += [["q"], ["limits", cur, maxq]]
        elif o[0] == "accfault":
            lims.append(cur)
            ops += [["accfault", rng.choice([1, 2, 5]), rng.choice([24, 103, 4, 23, 12])], ["dial", reads, False]]
        elif o[0] == "disc":
            ops.append(["disc", n, 1, rng.random() < .4])
        elif o[0] == "cr":
            ops.append(["cr", n, rng.choice([None, None, 30, 3000])])
        elif o[0] == "turn":
            if rng.random() < dense:
                ops.append(["turn", rng.choice([1, 1, 2, 6])])
        else:
            ops.append(o)
        x = rng.random()
        if x < .05:
            ops.append(["q"])
        elif x < .08:
            ops.append(["qd"])
    # what was held back comes now; then everybody still there gets something new
    ops += [["pwall", k + 1] for k in range(len(lims))] + [["qd"]]
    for k in range(len(lims)):
        ops += [["msg", k + 1, 30, 0], ["send", k + 1, 1, 30]]
    ops += [["qd"], ["dial", True], ["msg", len(lims) + 1, 30, 0], ["q"], ["send", len(lims) + 1, 1, 30], ["q"]]
    return dict(id="v-" + sid, suite="serve", cfg=cfg, ops=ops)


NDIR = 6


def directed(rng, n, reg=False):
    out = []
    for i in range(n):
        k = i % NDIR
        R = rng.randrange
        codec = rng.choice(["toy", "toy", "prost", "msgpack"])
        cfg = dict(codec=codec, maxbuf=60000, maxq=rng.choice([1, 2, 8, 64]))
        isreg = reg and rng.random() < reg
        if k == 0:
            # many at once, with and without failing accepts
            nc = rng.choice([2, 5, 20, 60, 150, 150])
            calm = 0 if rng.random() < .4 else 1
            ops = []
            if rng.random() < .6:
                ops.append(["accfault", rng.choice([1, 2, 7, 40]), rng.choice([24, 103, 4, 23, 12, 71])])
            for _ in range(nc):
                ops.append(["dial", True, rng.random() < (.9 if calm else 1)])
                if rng.random() < .05:
                    ops.append(["accfault", R(1, 4), rng.choice([24, 103, 4])])
                elif calm and rng.random() < .06:
                    ops += [["q"], ["optfault", R(1, 4), rng.choice([22, 104, 12])]]
            ops += [["q"]] if rng.random() < .6 else []
            ops += [["msg", x + 1, 30, 0] for x in range(nc)] + [["q"]] + [["send", x + 1, 1, 30] for x in range(nc)] + [["q"], ["dial", True], ["q"]]
        elif k == 1:
            # one misbehaves in every possible way beside healthy ones
            nc = R(3, 6)
            cfg.update(maxq=rng.choice([1, 2, 8]), sndbuf=8192, rcvbuf=8192)
            ops = [["dial", True, rng.random() < .5] for _ in range(nc)] + [["q"], ["reads", 1, False]]
            if rng.random() < .3:
                ops.append(["disc", 1, R(1, 4), rng.random() < .5])
            for _ in range(R(12, 30)):
                n2 = R(1, nc + 1)
                x = rng.random()
                if x < .4:
                    ops.append(["msg", n2, rng.choice([22, 500, 20000, 60000 - 10]), rng.choice([0, 0, 0, 7])])
                elif x < .7:
                    ops.append(["send", n2, R(1, 4), rng.choice([22, 500, 20000])])
                elif x < .8:
                    ops.append(["turn", R(1, 5)])
                elif x < .9:
                    ops.append(["q"])
                else:
                    ops.append(rng.choice([["crst", 1], ["bad", 1, 50, R(8)], ["cfin", 1], ["msg", 1, 200000, 199000], ["droptx", 1], ["send", 1, 1, 70000]]))
            ops += [["q"]] + [["pwall", x] for x in range(1, nc + 1)] + [["msg", x, 40, 0] for x in range(2, nc + 1)] + [["send", x, 1, 40] for x in range(2, nc + 1)] + [["q"], ["qd"]]
        elif k == 2:
            # limits set later apply to what is accepted later, sizes and queues
            a, b = rng.choice([(500, 5000), (5000, 500), (3000, 50000), (300, 700), (2000, 900)] if not isreg else [(30000, 90000), (90000, 30000), (20000, 25000)])
            qa, qb = rng.choice([(1, 4), (4, 1), (2, 16), (16, 2)])
            cfg.update(maxbuf=a, maxq=qa, sndbuf=4608, rcvbuf=4608)
            ops = [["dial", False], ["q"], ["limits", b, qb], ["dial", False], ["q"]]
            lo, hi = min(a, b), max(a, b)
            small, large = (1, 2) if a < b else (2, 1)
            ops += [["send", rng.choice([1, 2]), 60, rng.choice([lo - 10, lo // 2])], ["turn", 9], ["send", R(1, 3), 60, lo // 2], ["q"], ["send", R(1, 3), 60, lo // 2], ["q"], ["qd"],
                    ["msg", large, rng.choice([hi - 3, lo + 50]), 0], ["msg", small, lo - 3, 0], ["send", large, 1, rng.choice([hi - 3, lo + 50])], ["qd"],
                    ["msg", small, 3 * lo + 200, 3 * lo + 100], ["q"], ["msg", large, 22, 0], ["q"], ["msg", large, 3 * hi, 2 * hi + 100], ["qd"]]
            if rng.random() < .4:
                ops[-4:] = [["send", small, 1, lo + 20], ["qd"], ["send", large, 1, rng.choice([lo + 20, hi + 20])], ["qd"]]
        elif k == 3:
            # closing one side and the other, with everything full
            cfg.update(maxq=rng.choice([1, 2, 3]), sndbuf=4608, rcvbuf=4608)
            ops = [["dial", False], ["dial", False], ["q"]]
            for _ in range(R(3, 10)):
                ops += [["send", R(1, 3), 8, rng.choice([3000, 9000, 30000])], ["turn", R(1, 6)]]
            ops += [["q"], ["droptx", 1], rng.choice([["q"], ["turn", 2]]), ["qd"], ["send", 2, 1, 100], ["qd"], ["droptx", 2], ["qd"]]
        elif k == 4:
            # connections made and lost before they are looked at
            ops = []
            nc = R(2, 12)
            for x in range(1, nc + 1):
                ops.append(["dial", True, True])
                y = rng.random()
                if y < .3:
                    ops.append(["msg", x, 30, 0])
                if .2 < y < .5:
                    ops.append(rng.choice([["crst", x], ["cfin", x]]))
                if rng.random() < .15:
                    ops.append(["turn", 1])
            ops += [["q"]] + [["msg", x, 30, 0] for x in range(1, nc + 1)] + [["send", x, 1, 30] for x in range(1, nc + 1)] + [["q"]]
        else:
            # a long life, one after another
            ops = []
            x = 0
            for _ in range(R(3, 8)):
                x += 1
                ops += [["dial", True, rng.random() < .3], ["q"]] + [["msg", x, rng.choice([30, 5000]), 0] for _ in range(R(0, 4))] + [["send", x, R(1, 3), 30] for _ in range(R(0, 3))]
                ops += rng.choice([[], [["q"]]]) + [rng.choice([["crst", x], ["cfin", x], ["droptx", x], ["bad", x, 40, R(8)], ["disc", x, 1, True], ["disc", x, 1, False], ["turn", 1]])]
                ops += [["msg", x, 30, 0]]
            ops += [["q"]] + [["msg", y, 30, 0] for y in range(1, x + 1)] + [["q"], ["qd"]]
        if isreg:
            # connections of the prost client registry instead of a server's
            cfg.update(reg=True, codec="prost")
            if k == 2:
                # what the sockets of both sides hold of messages this large
                cfg["kmsgs"] = (8 * 4608) // (lo // 2) + 2
        out.append(dict(id=f"vd{i}", suite="serve", cfg=cfg, ops=ops))
    return out


def scenarios(weights, total, ndirected, seed, hlen=34, focus=()):
    reg = "reg" in focus and .5
    rng = random.Random(seed * 7919 + 29)
    res = []
    tot = sum(weights.values())
    for f, w in sorted(weights.items()):
        n = max(8, total * w // tot)
        c = dict(_G, **FAMILIES[f])
        lst = core.generate("ServeGen", cfg_text("GSpec", dict(c, HLen=hlen, Family=f)), n, seed)
        rng.shuffle(lst)
        for i, s in enumerate(lst[:n]):
            res.append(concretise(s, rng, f"{f}-{i}"))
    for s in res:
        if reg and rng.random() < reg:
            s["cfg"].update(reg=True, codec="prost")
    return res + directed(rng, ndirected, reg)
