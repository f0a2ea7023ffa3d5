"""Server scenarios: behaviours of ServerGen, concretised."""
import random
from . import core
from .conn import cfg_text
from .client import IDMAPS

FIX = dict(WakeOnBatch=True, ReserveFirst=True, WakeOnRoom=True, OwnHandle=True, AbortWakes=True, FusedEnd=True, ExitOnClose=True,
           AcceptRewake=True, FaultRecovers=True, CheckOut=True)
_B = dict(NConn=1, Ids=[1, 2], MaxQ=1, WCap=1, Batch=2, NReq=2, NCtl=1, NGive=2, Kinds=["u", "s"], CanFin=False, CanRst=False, CanBad=False,
          CanBoom=False, CanFault=False, CanOver=False, **FIX)
INV = ("NoViolation", "QuietOk")
MODELS = {
    "server": ("ServerImpl", dict(_B, NGive=3)),
    "server-fin": ("ServerImpl", dict(_B, CanFin=True)),
    "server-loss": ("ServerImpl", dict(_B, NCtl=0, Kinds=["u", "s", "x"], CanFin=True, CanRst=True, CanBad=True, CanBoom=True)),
    "server-reuse": ("ServerImpl", dict(_B, Ids=[1], NReq=2, NCtl=2, NGive=3)),
    "server-batch": ("ServerImpl", dict(_B, Batch=1, NReq=3, Ids=[1, 2, 3], NCtl=0, NGive=1, Kinds=["u"])),
    "server-two": ("ServerImpl", dict(_B, NConn=2, Ids=[1], NReq=2, NCtl=0, NGive=2, Kinds=["u", "x"], CanRst=True, CanFault=True)),
    "server-over": ("ServerImpl", dict(_B, NCtl=0, CanOver=True)),
    "server+": ("ServerImpl", dict(_B, NGive=3, NCtl=2)),
    "server-streams+": ("ServerImpl", dict(_B, NGive=5, NCtl=1, Kinds=["s"])),
    "server-reuse+": ("ServerImpl", dict(_B, Ids=[1], NReq=3, NCtl=2, NGive=3)),
    "server-loss+": ("ServerImpl", dict(_B, NCtl=1, Kinds=["u", "s", "x"], CanFin=True, CanRst=True, CanBad=True, CanBoom=True)),
    "server-two+": ("ServerImpl", dict(_B, NConn=2, Ids=[1], NReq=3, NCtl=0, NGive=2, Kinds=["u", "x"], CanRst=True, CanFault=True)),
}
MUTANTS = {"WakeOnBatch": "server-batch", "ReserveFirst": "server", "WakeOnRoom": "server", "OwnHandle": "server-reuse", "FusedEnd": "server",
           "ExitOnClose": "server-fin", "AcceptRewake": "server-two", "FaultRecovers": "server-two", "CheckOut": "server-over"}

GB = dict(_B, NConn=2, Ids=[1, 2, 3], MaxQ=2, WCap=2, Batch=3, NReq=10, NCtl=4, NGive=16)
FAMILIES = {
    "rpcs": dict(NConn=1, Ids=[1, 2, 3, 4]),
    "q1": dict(NConn=1, Ids=[1, 2, 3, 4], MaxQ=1, WCap=1),
    "reuse": dict(NConn=1, Ids=[1, 2], NCtl=6, NReq=14),
    "streams": dict(NConn=1, Kinds=["s"], NGive=24, Ids=[1, 2]),
    "over": dict(NConn=2, CanOver=True, CanBad=True),
    "loss": dict(Kinds=["u", "s", "x"], CanFin=True, CanRst=True, CanBad=True, CanBoom=True),
    "two": dict(NConn=3, CanRst=True, CanBad=True, CanFault=True, CanBoom=True, NReq=12),
}
CODES = [1, 1, 1, 3, 7, 77, 255]


def concretise(s, rng, sid):
    codec = rng.choice(["toy", "toy", "prost", "msgpack"])
    maxbuf = rng.choice([300, 4000, 40000])
    cfg = dict(codec=codec, maxbuf=maxbuf, maxq=s["maxq"], idmap=rng.choice(IDMAPS))
    big = s["family"] == "q1" or rng.random() < .3
    if big:
        cfg.update(maxbuf=60000, sndbuf=4608, rcvbuf=rng.choice([4608, 16384]), mss=rng.choice([0, 536]), minout=9000)
    if rng.random() < .15:
        cfg.update(mt=True, jit=rng.choice([0, 4, 20]), jseed=rng.randrange(1 << 30), pre=rng.choice([0, 0, 150]))

    def osize():
        return rng.choice([9000, 30000, 59000]) if big else rng.choice([22, 60, maxbuf // 2, maxbuf - 3])
    ops = []
    reads = rng.random() < .4
    dense = rng.random()
    for o in s["ops"]:
        if o[0] == "dial":
            ops.append(["dial", reads, rng.random() < .3])
        elif o[0] == "req":
            k = {"u": rng.choice([0, 0, 0, 4]), "s": 1, "x": 3}[o[3]]
            ops.append(["req", o[1], o[2], k, 0, rng.choice([22, 22, 100, min(maxbuf, 20000) - 3])])
        elif o[0] == "ctl":
            ops.append(["ctl", o[1], o[2], o[3] if o[3] == 2 else rng.choice(CODES)])
        elif o[0] == "give":
            ops.append(["out", o[1], osize()] if o[2] == 0 else ["out", o[1], cfg["maxbuf"] + rng.choice([0, 1, 2, 5, 100, 5000])] if o[2] == 1 else ["fin", o[1]] if o[2] == -1 else ["boom", o[1]])
        elif o[0] == "bad":
            ops.append(["bad", o[1], rng.randrange(8)])
        elif o[0] == "accfault":
            ops += [["accfault", rng.choice([1, 2, 5]), rng.choice([24, 103, 4, 23, 12])], ["dial", reads, False]]
        elif o[0] == "cr":
            ops.append(["cr", o[1], rng.choice([None, None, 30, 5000])])
        elif o[0] == "turn":
            if rng.random() < dense:
                ops.append(["turn", rng.choice([1, 1, 2, 6])])
        else:
            ops.append(o)
        x = rng.random()
        if x < .04:
            ops.append(["q"])
        elif x < .07:
            ops.append(["qd"])
    ops.append(["qd"])
    if rng.random() < .5:
        n = sum(1 for o in ops if o[0] == "dial")
        ops += [["dial", True], ["req", n + 1, 9, 5, 3, 22]] + [["req", k + 1, 99, 4, 0, 22] for k in range(n)] + [["q"]]
    return dict(id=sid, suite="server", cfg=cfg, ops=ops)


NDIR = 16


def directed(rng, n, focus=(), many=0):
    out = []
    many += focus.count("many")
    cases = list(range(NDIR)) + [c for c in focus if isinstance(c, int)]
    for i in range(n):
        k = cases[i % len(cases)] if i < n - many else 16
        codec = rng.choice(["toy", "toy", "prost", "msgpack"])
        cfg = dict(codec=codec, maxbuf=60000, maxq=rng.choice([1, 2, 8, 64]), idmap=rng.choice(IDMAPS))
        R = rng.randrange
        if k == 0:
            # everything full towards a stalled client, RPCs of every kind ready, then it reads
            cfg.update(maxq=rng.choice([1, 2, 3]), sndbuf=4608, rcvbuf=4608, rsize=rng.choice([9000, 30000]), minout=9000)
            ops = [["dial", False]]
            nn = R(2, 8)
            for c in range(nn):
                ops.append(["req", 1, c + 1, rng.choice([0, 1, 4, 5]), R(1, 6), 22])
                if rng.random() < .4:
                    ops.append(["turn", R(1, 8)])
            ops.append(["q"])
            for _ in range(R(4, 14)):
                ops.append(rng.choice([["out", R(1, nn + 1), 9000], ["out", R(1, nn + 1), 30000], ["fin", R(1, nn + 1)], ["turn", 2]]))
            ops.append(["q"])
            if rng.random() < .5:
                for c in range(R(1, 4)):
                    ops.append(["ctl", 1, R(1, nn + 2), rng.choice(CODES)])
                    if rng.random() < .4:
                        ops.append(["turn", 3])
                    if rng.random() < .6:
                        ops.append(["req", 1, R(1, nn + 2), rng.choice([0, 1, 4, 5]), 2, 22])
                ops.append(["q"])
            if rng.random() < .3:
                for _ in range(6):
                    ops += [["cr", 1, rng.choice([1000, 9000, 30000])], ["turn", R(1, 5)]]
                ops += [["req", 1, 50, 0, 0, 22], ["q"]]
            e = rng.random()
            ops += [["qd"]] if e < .7 else [["crst", 1], ["q"]] if e < .85 else [["cfin", 1], ["qd"]]
        elif k == 1:
            # more requests at once than one poll takes in
            nn = rng.choice([100, 127, 128, 129, 130, 200, 256, 257, 300])
            ops = [["dial", rng.random() < .7]]
            kd = rng.choice([[0], [0], [4], [0, 4], [0, 1, 4, 5]])
            cfg["maxq"] = rng.choice([1, 8, 64, 128, 128, 200, 256, 512])
            for c in range(nn):
                ops.append(["req", 1, c + 1, rng.choice(kd), R(0, 3), 22])
                if rng.random() < .01:
                    ops.append(["turn", 1])
            ops.append(["q"])
            for r in rng.sample(range(1, nn + 1), 12):
                ops += [["out", r, 22]]
            ops += [["q"]]
            for r in rng.sample(range(1, nn + 1), 6):
                ops += [rng.choice([["fin", r], ["ctl", 1, r, 1]])]
            ops += [["qd"]]
        elif k == 2:
            # ids used again at once: after the answer, after the end, after cancelling - together or apart
            ops = [["dial", True]]
            r = 0
            if rng.random() < .4:
                cfg["maxq"] = rng.choice([1, 2])
                cfg.update(sndbuf=4608, rcvbuf=4608, rsize=30000)
                ops = [["dial", False], ["req", 1, 77, 5, R(2, 8), 22], ["turn", 9]]
                r = 1
            for _ in range(R(3, 9)):
                i2 = R(1, 3)
                kd = rng.choice([0, 0, 1, 1, 4, 5])
                ops.append(["req", 1, i2, kd, R(0, 3), 22])
                r += 1
                t = rng.random()
                if t < .6:
                    ops.append(["turn", R(1, 10)])
                if kd in (0, 1) and rng.random() < .5:
                    ops.append(["out", r, 22])
                if kd == 1 and rng.random() < .5:
                    ops.append(["fin", r])
                x = rng.random()
                if x < .35:
                    ops.append(["q"])
                elif x < .5:
                    ops += [["turn", R(1, 4)], ["cr", 1, None]]
                elif x < .9:
                    ops.append(["ctl", 1, i2, rng.choice(CODES)])
            ops += [["qd"]] + [["out", x, 22] for x in range(1, r + 1)] + [["qd"]] + [["fin", x] for x in range(1, r + 1)] + [["qd"]]
        elif k == 3:
            # panics in the service, in an RPC; others go on
            ops = [["dial", True], ["dial", rng.random() < .8], ["req", 1, 1, 0, 0, 22], ["req", 1, 2, 1, 0, 22], ["req", 2, 1, 1, 0, 22], ["req", 2, 2, 0, 0, 22]]
            ops += rng.choice([[], [["turn", R(1, 6)]], [["q"]]])
            ops += rng.choice([[["req", 1, 3, 3, 0, 22]], [["boom", R(1, 3)]], [["req", 1, 4, 4, 0, 22], ["req", 1, 3, 3, 0, 22], ["req", 1, 5, 4, 0, 22]]])
            ops += rng.choice([[], [["q"]]]) + [["out", 3, 22], ["out", 4, 22], ["q"], ["fin", 3], ["req", 2, 7, 4, 0, 22], ["q"], ["dial", True], ["req", 3, 1, 5, 2, 22], ["q"]]
        elif k == 4:
            # cancellations of anything: unknown, finished, not yet seen, twice; end messages; odd codes
            ops = [["dial", True]]
            r = 0
            for _ in range(R(6, 16)):
                x = rng.random()
                i2 = R(1, 6)
                if x < .4:
                    ops.append(["req", 1, i2, rng.choice([0, 1, 1, 2]), 0, 22])
                    r += 1
                elif x < .75:
                    ops.append(["ctl", 1, i2, rng.choice(CODES + [2, 2])])
                elif x < .85 and r:
                    ops.append(["out", R(1, r + 1), 22])
                elif x < .9 and r:
                    ops.append(["fin", R(1, r + 1)])
                else:
                    ops.append(rng.choice([["q"], ["turn", R(1, 5)]]))
            ops += [["q"]] + [["out", x, 22] for x in range(1, r + 1)] + [["q"]] + [["fin", x] for x in range(1, r + 1)] + [["q"]]
        elif k == 5:
            # the client is lost at every moment
            if rng.random() < .5:
                cfg.update(maxq=rng.choice([1, 2]), sndbuf=4608, rcvbuf=4608, rsize=30000)
            life = [["req", 1, 1, 0, 0, 22], ["req", 1, 2, 1, 0, 22], ["turn", 1], ["turn", 1], ["turn", 2], ["out", 1, 30000], ["out", 2, 30000], ["turn", 1],
                    ["req", 1, 3, 5, 6, 22], ["turn", 1], ["turn", 1], ["out", 2, 59000], ["turn", 4], ["fin", 2], ["req", 1, 4, 0, 0, 22], ["turn", 3], ["ctl", 1, 4, 1], ["turn", 1]]
            cut = R(1, len(life) + 1)
            ops = [["dial", rng.random() < .5], ["dial", True], ["req", 2, 1, 1, 0, 22]] + life[:cut]
            ops += [rng.choice([["cfin", 1], ["crst", 1], ["bad", 1, R(8)]])]
            if rng.random() < .5:
                ops += [["out", x, 22] for x in (1, 2, 3, 4)]
            ops += [["q"], ["out", 1, 22], ["out", 2, 22], ["out", 3, 22], ["fin", 1], ["fin", 2], ["fin", 3], ["q"], ["qd"]]
        elif k == 6:
            # several connections, one of them misbehaving
            cfg.update(maxq=rng.choice([1, 2, 8]), sndbuf=8192, rcvbuf=8192, rsize=20000)
            nc = R(3, 6)
            ops = [["dial", True, rng.random() < .5] for _ in range(nc)] + [["reads", 1, False]]
            r = 0
            for _ in range(R(10, 24)):
                n2 = R(1, nc + 1)
                x = rng.random()
                if x < .5:
                    ops.append(["req", n2, R(1, 4), rng.choice([0, 1, 4, 5]), R(0, 5), 22])
                    r += 1
                elif x < .6:
                    ops.append(["ctl", n2, R(1, 4), rng.choice(CODES)])
                elif x < .8:
                    ops.append(["out", R(1, r + 2), rng.choice([22, 20000])])
                elif x < .85:
                    ops.append(["fin", R(1, r + 2)])
                elif x < .93:
                    ops.append(["turn", R(1, 5)])
                elif x < .96:
                    ops.append(["q"])
                else:
                    ops.append(rng.choice([["crst", 1], ["bad", 1, R(8)], ["cfin", 1], ["big", 1, 200000], ["req", 1, 9, 3, 0, 22]]))
            ops += [["q"]] + [["req", x, 30, 4, 0, 22] for x in range(2, nc + 1)] + [["q"], ["qd"]]
        elif k == 7:
            # limits set later apply to connections accepted later
            a, b = rng.choice([(500, 5000), (5000, 500), (3000, 50000), (300, 700), (2000, 900)])
            cfg["maxbuf"] = a
            lo, hi = min(a, b), max(a, b)
            cfg["rsize"] = 22
            ops = [["dial", True], ["q"], ["limits", b, rng.choice([1, 4])], ["dial", True], ["q"]]
            small, large = (1, 2) if a < b else (2, 1)
            ops += [["req", large, 1, 4, 0, rng.choice([hi - 3, lo + 50])], ["req", small, 1, 4, 0, lo - 3], ["q"],
                    ["big", small, rng.choice([3 * lo, 3 * lo + 200, 3 * hi])], ["q"], ["req", large, 2, 4, 0, 22], ["q"], ["big", large, hi * 3], ["q"]]
        elif k == 8:
            # accept errors, and many connections at once
            nc = rng.choice([2, 5, 20, 60, 150, 150])
            # sometimes all of them before the server gets to look
            calm = 0 if rng.random() < .4 else 1
            ops = []
            if rng.random() < .7:
                ops += [["accfault", rng.choice([1, 2, 7, 40]), rng.choice([24, 103, 4, 23, 12, 71])]]
            for x in range(nc):
                ops += [["dial", True, rng.random() < (.8 if calm else 1)]]
                if rng.random() < .05:
                    ops += [["accfault", R(1, 4), rng.choice([24, 103, 4])]]
                elif calm and rng.random() < .06:
                    ops += [["q"], ["optfault", R(1, 4), rng.choice([22, 104, 12])]]
            ops += [["q"]] if rng.random() < .6 else []
            ops += [["req", x + 1, 1, rng.choice([4, 5]), R(0, 3), 22] for x in range(nc)] + [["q"], ["dial", True], ["q"]]
        elif k == 9:
            # all cores
            cfg.update(mt=True, workers=rng.choice([1, 2, 4]), jit=rng.choice([0, 4, 20]), jseed=rng.randrange(1 << 30), pre=rng.choice([0, 0, 150]))
            nc = R(1, 5)
            ops = [["dial", rng.random() < .9] for _ in range(nc)]
            ids = 0
            for _ in range(R(20, 120)):
                ids += 1
                ops.append(["req", R(1, nc + 1), ids, rng.choice([0, 0, 1, 4, 5]), R(0, 9), 22])
                x = rng.random()
                if x < .3:
                    ops.append(["out", R(1, ids + 1), 22])
                elif x < .4:
                    ops.append(["fin", R(1, ids + 1)])
                elif x < .5:
                    ops.append(["ctl", R(1, nc + 1), R(1, ids + 1), 1])
                elif x < .55:
                    ops.append(["turn", 1])
            ops += [["qd"]] + [["out", x, 22] for x in range(1, ids + 1, 3)] + [["fin", x] for x in range(1, ids + 1, 2)] + [["qd"]]
        elif k == 10:
            # ready long after, one at a time, with nothing else going on
            nn = R(2, 10)
            ops = [["dial", True]] + [["req", 1, x + 1, R(0, 2), 0, 22] for x in range(nn)] + [["q"]]
            for _ in range(R(4, 14)):
                ops += [rng.choice([["out", R(1, nn + 1), rng.choice([22, 5000])], ["fin", R(1, nn + 1)], ["ctl", 1, R(1, nn + 1), 1]]), ["q"]]
        elif k == 11:
            # many outstanding, answered in any order; streams of many items
            nn = rng.choice([40, 150])
            cfg["maxq"] = rng.choice([2, 16, 48, 64, 128, 256])
            ops = [["dial", True]] + [["req", 1, x + 1, rng.choice([0, 0, 1]), 0, 22] for x in range(nn)] + [["q"]]
            todo = list(range(1, nn + 1)) * 2
            rng.shuffle(todo)
            for r in todo:
                ops.append(["out", r, 22])
                if rng.random() < .1:
                    ops.append(["turn", R(1, 4)])
            ops += [["fin", x] for x in range(1, nn + 1)] + [["q"], ["req", 1, 999, 5, rng.choice([20, 200, 600]), 22], ["q"]]
        elif k == 16:
            # very many at once, on one connection: requests, outstanding RPCs, outputs
            nn = rng.choice([1030, 1100, 1300])
            cfg.update(maxq=rng.choice([64, 256, 1100]), codec="toy")
            what = rng.choice("ucsm")
            ops = [["dial", True]]
            ops += [["req", 1, x + 1, {"u": 0, "c": 4, "s": 1, "m": rng.choice([0, 1, 4])}[what], 0, 22] for x in range(nn)] + [["q"]]
            some = rng.sample(range(1, nn + 1), 40)
            ops += [["ctl", 1, x, 1] for x in some[:20]] + [["q"]]
            order = list(range(1, nn + 1))
            rng.shuffle(order)
            ops += [["out", x, 22] for x in order] + [["q"]] + [["fin", x] for x in order] + [["q"], ["req", 1, 2000, 4, 0, 22], ["q"]]
        elif k == 13:
            # one id through several lives, each ended another way, while other RPCs stay outstanding
            ops = [["dial", True]]
            r = 0
            for x in range(R(0, 4)):
                ops.append(["req", 1, 10 + x, R(0, 2), 0, 22])
                r += 1
            if rng.random() < .5:
                ops.append(["q"])
            ids = [1] if rng.random() < .6 else [1, 2]
            sync = lambda: rng.choice([[["q"]], [["q"]], [["turn", R(1, 6)], ["cr", 1, None]]])
            last = {}
            for _ in range(R(2, 7)):
                i2 = rng.choice(ids)
                if last.get(i2):
                    ops += last.pop(i2) + [["q"]]
                kd = rng.choice([0, 0, 1, 1, 4, 5])
                ops.append(["req", 1, i2, kd, R(0, 3), 22])
                r += 1
                ops += sync()
                fate = rng.choice([[["ctl", 1, i2, rng.choice(CODES)]], [["out", r, 22]] + ([["fin", r]] if kd == 1 else [])])
                if kd in (4, 5):
                    fate = []
                if rng.random() < .7:
                    ops += fate + sync()
                else:
                    last[i2] = fate
            for f in last.values():
                ops += f + sync()
            ops += [["q"]] + [["ctl", 1, i2, 1] for i2 in ids] + [["q"]] + [["out", x, 22] for x in range(1, r + 1)] + [["fin", x] for x in range(1, r + 1)] + [["qd"]]
        elif k == 14:
            # outputs around the size limit, towards clients that read or do not
            mb = cfg["maxbuf"] = rng.choice([64, 100, 1000, 4096, 5000, 65536])
            ops = [["dial", True], ["dial", rng.random() < .8], ["req", 1, 1, 0, 0, 22], ["req", 2, 1, 1, 0, 22], ["req", 2, 2, 0, 0, 22], ["req", 2, 3, 1, 0, 22], ["q"]]
            for _ in range(R(0, 5)):
                ops += [["out", rng.choice([2, 4]), mb - rng.choice([40, 12, 7, 6, 5, 4, 3, 2, 1, 0])]] + ([["q"]] if rng.random() < .4 else [])
            if rng.random() < .8:
                ops += [["out", rng.choice([2, 3, 4]), mb + rng.choice([0, 1, 2, 3, 10, mb, 3 * mb])]]
            ops += [["out", 2, 22]] if rng.random() < .4 else []
            ops += [rng.choice([["q"], ["turn", 2]]), ["out", 1, rng.choice([22, mb - 12])], ["req", 1, 7, 5, 2, 22], ["qd"], ["dial", True], ["req", 3, 1, 4, 0, 22], ["q"]]
        elif k == 15:
            # requests the service does not know, among others
            ops = [["dial", True]]
            for x in range(R(3, 40)):
                ops.append(["req", 1, x + 1, rng.choice([2, 2, 0, 1, 4, 5]), R(0, 3), 22])
                y = rng.random()
                if y < .2:
                    ops.append(rng.choice([["turn", R(1, 4)], ["q"]]))
                elif y < .35:
                    ops.append(["ctl", 1, R(1, x + 2), rng.choice([1, 2, 7])])
            ops += [["q"]] + [["out", x, 22] for x in range(1, 20)] + [["qd"]]
        else:
            # a request that arrives in pieces while streams are flowing
            cfg.update(mss=536, rcvbuf=16384)
            ops = [["dial", True], ["req", 1, 1, 1, 0, 22]]
            for x in range(R(3, 10)):
                ops += [["req", 1, 10 + x, rng.choice([0, 4, 5]), R(0, 4), rng.choice([22, 3000, 50000])], ["turn", R(1, 4)], ["out", 1, rng.choice([22, 9000])]]
            ops += [["q"], ["fin", 1], ["out", 2, 22], ["out", 3, 22], ["q"]]
        out.append(dict(id=f"sd{i}", suite="server", cfg=cfg, ops=ops))
    return out


def scenarios(weights, total, ndirected, seed, hlen=60, focus=()):
    rng = random.Random(seed * 15485863 + 3)
    res = []
    tot = sum(weights.values()) or 1
    from concurrent.futures import ThreadPoolExecutor

    def gen(fw):
        f, w = fw
        n = max(8, total * w // tot)
        c = dict(GB, **FAMILIES[f])
        return f, n, core.generate("ServerGen", cfg_text("GSpec", dict(c, HLen=hlen, Family=f)), n, seed)
    with ThreadPoolExecutor(4) as ex:
        for f, n, lst in ex.map(gen, sorted(weights.items())):
            rng.shuffle(lst)
            for i, s in enumerate(lst[:n]):
                res.append(concretise(s, rng, f"s{f}-{i}"))
    return res + directed(rng, ndirected, focus)
