"""Client scenarios: behaviours of ClientGen, concretised."""
import random
from . import core
from .conn import cfg_text

FIX = dict(RegisterFirst=True, ReceiverFirst=True, ClearSubmissions=True, DoneOnlyIfOpen=True, CancelOnDrop=True, GuardClosed=True, CheckSize=True, NewestWins=True)
BASE = dict(NCalls=9, Ids=[1, 2, 3, 4, 5, 6, 7, 8, 9], MaxQ=3, WCap=3, NResp=14, NStray=3, Kinds=["u", "s"], CanFin=True, CanRst=True,
            CanCancel=True, MaxBuf=5, Sizes=[1], CanBad=False, CanBye=False, CanAgain=False, **FIX)
FAMILIES = {
    "calls": dict(),
    "q1": dict(MaxQ=1, WCap=1),
    "reuse": dict(Ids=[1, 2], NStray=1),
    "streams": dict(Kinds=["s"], NCalls=4, NResp=24),
    "calm": dict(CanFin=False, CanRst=False),
    "limits": dict(CanFin=False, CanRst=False, Sizes=[1, 9], CanBad=True),
    "bye": dict(CanFin=False, CanRst=False, CanBye=True, NCalls=5),
}


# how the ids of a scenario appear on the wire: as they are, or spread over all 64 bits
IDMAPS = [0, 0, 1, 2, 3, 4]


def concretise(s, rng, sid):
    fam = s["family"]
    codec = rng.choice(["toy", "toy", "prost", "msgpack"])
    maxbuf = rng.choice([200, 3000, 40000])
    cfg = dict(codec=codec, maxbuf=maxbuf, maxq=s["maxq"], idmap=rng.choice(IDMAPS), solo=rng.random() < .3)
    big = fam == "q1" or rng.random() < 0.3
    if big:
        cfg.update(maxbuf=60000, sndbuf=4608, rcvbuf=rng.choice([4608, 16384]), mss=rng.choice([0, 536]))

    def size():
        if big:
            return rng.choice([22, 9000, 30000, 59000])
        return rng.choice([22, 22, 60, maxbuf // 2, maxbuf - 3])
    ops, used, ncall = [["alive"]], set(), 0
    held = set()
    dirty = False
    for o in s["ops"]:
        if o[0] == "call":
            if o[2] in used:
                ops.append(["qd"])
            used.add(o[2])
            ncall += 1
            flag = rng.choice(["", "", "keep", "keep", "hold"])
            if flag == "hold":
                held.add(ncall)
            sz = size()
            if len(o) > 3 and o[3] > 5:
                sz = cfg["maxbuf"] + rng.choice([0, 1, 2, 12, 100, 5000])
            ops.append(["call", o[1], o[2], sz, flag])
        elif o[0] == "pc":
            if o[1] in held:
                held.discard(o[1])
                ops.append(["unhold", o[1]])
            ops.append(o if rng.random() < .5 else ["take", o[1], 1])
        elif o[0] == "pr":
            ops.append(["pr", rng.choice([None, None, 22, 1, 5000])] if rng.random() < .9 else ["pr"])
            if ops[-1] == ["pr", None]:
                ops[-1] = ["pr"]
        elif o[0] == "resp":
            used.add(o[1])
            ops.append(["resp", o[1], o[2], size() if not big else rng.choice([22, 400, 9000])])
        elif o[0] == "bye":
            # kept completions are handles, too
            ops.append(["dropclient"])
        elif o[0] == "bad" and rng.random() < .6:
            ops.append(["bigresp", rng.choice(list(used) or [1]), rng.choice([12, 100, 5000, 70000]), rng.choice([0, 1, 5, 400, cfg["maxbuf"] - 1, cfg["maxbuf"] + 1])])
        elif o[0] in ("prst", "bad"):
            x = rng.random()
            ops.append(["bad", rng.randrange(8)] if o[0] == "bad" else ["prst"] if x < .5 else ["dropconn"] if x < .75 else ["bad", rng.randrange(8)])
        else:
            ops.append(o)
        x = rng.random()
        if x < .05:
            ops.append(["q"])
        elif x < .09:
            ops.append(["qd"])
        elif x < .13:
            ops.append(["alive"])
        elif x < .15 and o[0] not in ("pfin", "prst"):
            ops.append(["poll"])
    for c in sorted(held):
        ops.append(["unhold", c])
    ops.append(["qd"])
    if fam == "bye" and rng.random() < .7:
        ops += [["drop", c + 1] for c in range(ncall)] + [["qd"]]
    if rng.random() < .5:
        ops += [["alive"], ["call", "u", 77, 22], ["qd"], ["resp", 77, 0, 30], ["qd"]]
    return dict(id=sid, suite="client", cfg=cfg, ops=ops)


def directed(rng, n, focus=(), many=0):
    out = []
    many += focus.count("many")
    cases = list(range(14)) + [c for c in focus if isinstance(c, int)]
    for i in range(n):
        k = cases[i % len(cases)] if i < n - many else 14
        codec = rng.choice(["toy", "toy", "prost", "msgpack"])
        maxq = rng.choice([1, 2, 4, 40])
        cfg = dict(codec=codec, maxbuf=60000, maxq=maxq, idmap=rng.choice(IDMAPS), solo=rng.random() < .5)
        if k == 0:
            # the connection runs, and the server answers, while the caller is inside the call
            cfg["mt"] = True
            ops = [["q"], ["inline", True]]
            for c in range(rng.randrange(2, 8)):
                ops.append(["call", rng.choice("us"), c + 1, 22, rng.choice(["", "hold"])])
            ops += [["inline", False], ["q"]]
            for c in range(8):
                ops += [["unhold", c + 1]]
            ops += [["q"]]
        elif k == 1:
            # a slow consumer of a long stream, interleaved with another one
            burst = rng.random() < .2
            if burst:
                cfg["maxq"] = rng.choice([200, 300])
            ops = [["call", "s", 1, 22, "hold"], ["call", "s", 2, 22, rng.choice(["", "hold"])], ["call", "u", 3, 22], ["qd"]]
            for _ in range(260 if burst else rng.choice([5, 17, 33, 70])):
                ops.append(["resp", rng.choice([1, 1, 1, 2]), 0, 22])
                if not burst and rng.random() < .1:
                    ops.append(["poll"])
            ops += [["resp", 3, 0, 22], ["q"], ["unhold", 1], ["q"]]
            for _ in range(rng.choice([1, 16, 17, 40])):
                ops.append(["resp", rng.choice([1, 2]), 0, 22])
            ops += [["resp", 1, rng.choice([1, 2]), 22]]
            if rng.random() < .5:
                ops += [["resp", 1, 0, 22]]
            ops += [["q"], ["unhold", 2], ["q"], rng.choice([["pfin"], ["prst"], ["drop", 2], ["resp", 2, 2]]), ["qd"]]
        elif k == 2:
            # queue full towards a stalled server: waiting calls, then reading, or loss
            cfg.update(maxq=rng.choice([1, 2, 3]), sndbuf=4608, rcvbuf=4608)
            ops = []
            nn = rng.choice([6, 9, 15, 24])
            for c in range(nn):
                ops += [["call", rng.choice("us"), c + 1, 20000]] + [["poll"]] * rng.randrange(0, 3)
            ops += [["q"]]
            if rng.random() < .5:
                ops += [["drop", rng.randrange(1, nn + 1)], ["drop", rng.randrange(1, nn + 1)]]
            e = rng.random()
            if e < .5:
                ops += [["qd"], ["resp", 1, 0], ["resp", 2, 0], ["qd"]]
            elif e < .75:
                ops += [["prst"], ["q"]]
            else:
                ops += [["dropconn"], ["q"]]
        elif k == 3:
            # loss at every moment of a call's life
            ops = [["q"]] if rng.random() < .7 else []
            life = [["call", rng.choice("us"), 1, 22, rng.choice(["", "hold", "keep"])], ["poll"], ["pr"], ["resp", 1, 0, 22], ["poll"],
                    ["call", rng.choice("us"), 2, 22], ["pr"], ["poll"], ["pr"], ["resp", 2, rng.choice([0, 0, 1, 2]), 22], ["resp", 1, 2, 22], ["poll"], ["unhold", 1]]
            cut = rng.randrange(1, len(life) + 1)
            ops += life[:cut] + ([["dropclient"]] if rng.random() < .3 else []) + [rng.choice([["pfin"], ["prst"], ["dropconn"], ["dropconn"], ["bad", rng.randrange(8)]])]
            ops += life[cut:] if rng.random() < .6 else []
            ops += [["unhold", 1], ["qd"], ["alive"], ["call", rng.choice("us"), 9, 22], ["qd"]]
        elif k == 4:
            # finished ids reused at once, old completions let go at any time
            ops = []
            nc = 0
            live = []
            for r in range(rng.randrange(2, 7)):
                kind = rng.choice("us")
                nc += 1
                ops += [["call", kind, 5, 22, rng.choice(["keep", "keep", ""])]]
                for c in list(live):
                    if rng.random() < .5:
                        ops.append(["drop", c])
                        live.remove(c)
                if rng.random() < .5:
                    ops.append(["qd"])
                else:
                    ops += [["poll"], ["pr"]]
                for c in list(live):
                    if rng.random() < .5:
                        ops.append(["drop", c])
                        live.remove(c)
                if rng.random() < .3:
                    ops.append(["poll"])
                for _ in range(1 if kind == "u" else rng.randrange(0, 3)):
                    ops.append(["resp", 5, 0, 22])
                if kind == "s":
                    ops.append(["resp", 5, 2, 22])
                elif rng.random() < .2:
                    ops[-1] = ["resp", 5, 1, 22]
                ops.append(["qd"])
                live.append(nc)
            ops += [["drop", c] for c in live] + [["qd"]]
        elif k == 5:
            # many concurrent calls answered in a random order, with strays
            nn = rng.choice([10, 40, 90])
            cfg["maxq"] = rng.choice([2, 16, 64])
            order = list(range(1, nn + 1))
            kinds = {c: rng.choice("uus") for c in order}
            ops = [["call", kinds[c], c, 22] for c in order] + [["qd"]]
            todo = []
            for c in order:
                todo += [[c, 0]] if kinds[c] == "u" else [[c, 0]] * rng.randrange(0, 3) + [[c, 2]]
            # random merge that keeps each call's own order
            per = {}
            for c, code in todo:
                per.setdefault(c, []).append(code)
            while per:
                c = rng.choice(list(per))
                ops.append(["resp", c, per[c].pop(0), rng.choice([22, 22, 300])])
                if not per[c]:
                    del per[c]
                if rng.random() < .1:
                    ops.append(["resp", rng.choice([1000, c if c not in per else 1001]), rng.choice([0, 1, 2]), 22])
                if rng.random() < .1:
                    ops.append(rng.choice([["poll"], ["q"]]))
            ops.append(["q"])
        elif k == 6:
            # drop at every moment: exactly one cancellation, and none for finished calls
            kind = rng.choice("us")
            life = [["call", kind, 1, 22, rng.choice(["hold", "", "keep"])], ["poll"], ["pr"], ["resp", 1, 0, 22], ["poll"], ["pc", 1], ["resp", 1, 2, 22],
                    ["poll"], ["pc", 1], ["q"]]
            cut = rng.randrange(1, len(life) + 1)
            ops = [["call", "u", 2, 22]] if rng.random() < .5 else []
            if ops:
                life = [[x if x != 1 else 2 for x in o] if o[0] == "pc" else o for o in life]
            c = len(ops) + 1
            ops += life[:cut] + [["drop", c]] + [o for o in life[cut:] if o[0] in ("poll", "pr", "resp")] + [["qd"]]
            ops += [["resp", 2, 0, 22], ["qd"], ["call", "s", 3, 22], ["qd"], ["drop", c + 1], ["qd"]]
        elif k == 7:
            # clones: the connection outlives the last client handle only as long as calls need it
            ops = [["call", "u", 1, 22], ["call", "s", 2, 22], ["dropclient"], ["qd"], ["resp", 2, 0], ["resp", 1, 0], ["q"], ["resp", 2, 0], ["resp", 2, 2], ["qd"]]
        elif k == 9:
            # requests around the size limit, among others
            cfg["maxbuf"] = mb = rng.choice([64, 100, 1000, 4096, 5000, 65536, 70000])
            ops = [["call", "u", 1, 22], ["call", "s", 2, rng.choice([22, mb // 2])], ["qd"]]
            for c in range(3, rng.randrange(4, 8)):
                ops += [["call", rng.choice("us"), c, mb - rng.choice([40, 12, 7, 6, 5, 4, 3, 2, 1, 0])]]
                if rng.random() < .6:
                    ops += [["qd"]]
            ops += [["resp", 2, 0, mb // 2], ["q"]]
            if rng.random() < .7:
                ops += [["call", rng.choice("us"), 20, mb + rng.choice([0, 1, 2, 3, 10, mb, 3 * mb])]] + ([["call", "u", 21, 22]] if rng.random() < .5 else [])
            ops += [rng.choice([["q"], ["qd"]]), ["qd"], ["resp", 1, 0, 22], ["qd"], ["alive"], ["call", "u", 22, 22], ["qd"]]
        elif k == 10:
            # responses above the limit, or no responses at all
            cfg["maxbuf"] = mb = rng.choice([64, 100, 1000, 4096, 5000, 65536, 70000])
            ops = [["call", "u", 1, 22], ["call", "s", 2, 22], ["call", rng.choice("us"), 3, 22], ["qd"]]
            for _ in range(rng.randrange(0, 4)):
                ops += [["resp", 2, 0, rng.choice([22, mb // 2, mb - 40])]] + ([["q"]] if rng.random() < .5 else [])
            ops += [rng.choice([["bad", rng.randrange(8)], ["bigresp", 3, rng.choice([12, 300, mb, 3 * mb]), rng.choice([0, 1, 10, mb - 9, mb, mb + 9])]])]
            if rng.random() < .4:
                ops += [["resp", 1, 0, 22]]
            ops += [["q"], ["alive"], ["call", "u", 9, 22], ["qd"]]
        elif k == 12:
            # an id used again right after its call was dropped
            ops = [["call", "s", 1, 22]] if rng.random() < .3 else []
            nc = len(ops)
            for r in range(rng.randrange(2, 6)):
                kind = rng.choice("us")
                nc += 1
                ops += [["call", kind, 5, 22, rng.choice(["", "hold"])]]
                ops += rng.choice([[["qd"]], [["qd"]], [["poll"], ["pr"], ["qd"]]])
                if kind == "s" and rng.random() < .4:
                    ops += [["resp", 5, 0, 22], ["q"]] + rng.choice([[], [["take", nc, 1]]])
                ops += [["drop", nc]] + rng.choice([[], [], [["poll"]], [["qd"]]])
            kind = rng.choice("us")
            nc += 1
            ops += [["call", kind, 5, 22], ["qd"], ["resp", 5, 0, 22]] + ([["resp", 5, 2, 22]] if kind == "s" else []) + [["q"], ["qd"]]
        elif k == 13:
            # as much of a stream as a consumer takes at once, and a little more or less; dropped in between, or not
            ops = [["call", "s", 1, 22, "hold"], ["call", "s", 2, 22, rng.choice(["", "hold"])], ["qd"]]
            for _ in range(rng.randrange(1, 4)):
                x = rng.choice([1, 2, 15, 16, 16, 16, 17, 31, 32, 33, 48])
                ops += [["resp", 1, 0, 22]] * x
                last = rng.random() < .4
                if last:
                    ops += [["resp", 1, 2, 22]]
                ops += [["q"]] if rng.random() < .8 else [["poll"]]
                ops += [["resp", 2, 0, 22]]
                y = rng.choice([0, 1, 1, x - 1, x, x + 1, x // 2])
                ops += [["take", 1, y]] if y else []
                if last:
                    break
            ops += rng.choice([[["drop", 1]], [["drop", 1]], [["unhold", 1]], [rng.choice([["pfin"], ["prst"]]), ["q"]]]) + [["qd"]]
            ops += [["unhold", 1], ["unhold", 2], ["resp", 2, 0, 22], ["resp", 2, 2, 22], ["qd"]]
        elif k == 14:
            # very many calls at once, answered in another order; some dropped, some lost with the link
            nn = rng.choice([1030, 1060, 1100])
            cfg.update(maxq=rng.choice([1100, 1100, 300, 16]), codec="toy")
            what = rng.choice("usm")
            kinds = {c: rng.choice("us") if what == "m" else what for c in range(1, nn + 1)}
            ops = [["call", kinds[c], c, 22] for c in range(1, nn + 1)] + [["qd"]]
            order = list(range(1, nn + 1))
            rng.shuffle(order)
            drop, lost, order = order[:10], order[10:20], order[20:]
            ops += [["drop", c] for c in drop] + [["qd"]]
            for c in order:
                ops += [["resp", c, 0, 22]] + ([["resp", c, 2, 22]] if kinds[c] == "s" and rng.random() < .5 else [])
            ops += [["q"], rng.choice([["pfin"], ["prst"], ["dropconn"]]), ["q"], ["alive"], ["call", "u", 2000, 22], ["q"]]
        elif k == 11:
            # the client handles go first: calls still get their answers, then everything is flushed and closed
            nn = rng.randrange(0, 9)
            big = rng.random() < .5
            if big:
                cfg.update(sndbuf=4608, rcvbuf=4608)
            ops = []
            kinds = {}
            for c in range(1, nn + 1):
                kinds[c] = rng.choice("us")
                ops += [["call", kinds[c], c, rng.choice([22, 22, 20000]) if big else 22, rng.choice(["", "keep", "hold"])]]
                if rng.random() < .2:
                    ops += [["poll"]]
            ops += [["dropclient"]] + ([["qd"]] if rng.random() < .7 else [["q"]])
            rest = list(range(1, nn + 1))
            rng.shuffle(rest)
            for c in rest:
                x = rng.random()
                if x < .3:
                    ops += [["drop", c]]
                else:
                    ops += [["resp", c, 0, 22]] + ([["resp", c, 2, 22]] if kinds[c] == "s" else []) + [["unhold", c], ["q"]]
                    ops += [["drop", c]] if rng.random() < .8 else []
                if rng.random() < .3:
                    ops += [["qd"]]
            ops += [["qd"]] + [["unhold", c] for c in rest] + [["drop", c] for c in rest] + [["qd"]]
        else:
            # a call and its response with only the connection's own wake-ups, repeatedly
            ops = []
            for c in range(1, 12):
                ops += [["call", rng.choice("us"), c, rng.choice([22, 5000])]]
                if rng.random() < .6:
                    ops += [["qd"], ["resp", c, 0, rng.choice([22, 20000])], ["q"]]
                if rng.random() < .3:
                    ops += [["resp", c, 2, 22], ["q"]]
                if rng.random() < .2:
                    ops += [["drop", c]]
        out.append(dict(id=f"cd{i}", suite="client", cfg=cfg, ops=ops))
    return out


def scenarios(weights, total, ndirected, seed, hlen=40, focus=()):
    rng = random.Random(seed * 104729 + 5)
    res = []
    tot = sum(weights.values())
    from concurrent.futures import ThreadPoolExecutor

    def gen(fw):
        f, w = fw
        n = max(8, total * w // tot)
        c = dict(BASE, **FAMILIES[f])
        return f, n, core.generate("ClientGen", cfg_text("GSpec", dict(c, HLen=hlen, Family=f)), n, seed)
    with ThreadPoolExecutor(4) as ex:
        for f, n, lst in ex.map(gen, sorted(weights.items())):
            rng.shuffle(lst)
            for i, s in enumerate(lst[:n]):
                res.append(concretise(s, rng, f"c{f}-{i}"))
    return res + directed(rng, ndirected, focus)


INV = ("NoViolation", "QuietOk")
_B = dict(BASE, NCalls=2, Ids=[1, 2], MaxQ=1, WCap=1, NResp=2, NStray=0)
MODELS = {
    "client-limits": ("ClientImpl", dict(_B, Sizes=[1, 9], CanBad=True, CanFin=False, CanRst=False, CanCancel=False, NResp=1)),
    "client-bye": ("ClientImpl", dict(_B, CanBye=True, CanFin=False, CanRst=False, CanCancel=False)),
    "client": ("ClientImpl", _B),
    "client-reuse": ("ClientImpl", dict(_B, NCalls=3, Ids=[1], CanFin=False)),
    "client-stray": ("ClientImpl", dict(_B, NStray=1, CanCancel=False, CanFin=False, Kinds=["u"])),
    "client-streams": ("ClientImpl", dict(_B, NResp=3, Kinds=["s"], CanRst=False)),
    "client+": ("ClientImpl", dict(_B, NStray=1)),
    "client-reuse+": ("ClientImpl", dict(_B, NCalls=3, Ids=[1], NResp=3, NStray=1)),
    "client-again": ("ClientImpl", dict(_B, CanAgain=True, NCalls=3, Ids=[1], CanFin=False, CanRst=False, CanCancel=False)),
    "client-3": ("ClientImpl", dict(_B, NCalls=3, Ids=[1, 2, 3], NResp=2, Kinds=["u"], CanCancel=False, CanFin=False)),
    "client-q2": ("ClientImpl", dict(_B, MaxQ=2, WCap=2, NCalls=3, Ids=[1, 2], Kinds=["s"], CanCancel=False, CanFin=False)),
}
MUTANTS = {"RegisterFirst": "client", "ReceiverFirst": "client", "ClearSubmissions": "client", "DoneOnlyIfOpen": "client-reuse",
           "CancelOnDrop": "client", "GuardClosed": "client", "CheckSize": "client-limits", "NewestWins": "client-again"}
