"""Rounds of equal work, and the memory in use after each: behaviours of HoldGen, and directed loads."""
import random
from . import core
from .conn import cfg_text
from .client import IDMAPS

FIX = dict(AnswerForgets=True, EndForgets=True, DropForgets=True, CancelForgets=True, CloseForgets=True)
ALL = ["answer", "end", "late", "drop", "unknown", "wait"]
_B = dict(Rounds=3, Warm=1, PerRound=2, Par=2, Fates=ALL, Conns=False, **FIX)
INV = ("NoViolation", "OnlyGoing")
MODELS = {
    "hold": ("HoldImpl", _B),
    "hold-conns": ("HoldImpl", dict(_B, Conns=True, Rounds=2)),
    "hold+": ("HoldImpl", dict(_B, PerRound=3, Rounds=2)),
    "hold-conns+": ("HoldImpl", dict(_B, Conns=True, PerRound=3, Rounds=2)),
}
MUTANTS = {"AnswerForgets": "hold", "EndForgets": "hold", "DropForgets": "hold", "CancelForgets": "hold", "CloseForgets": "hold-conns"}
FAMILIES = {
    "calls": dict(PerRound=30, Par=6),
    "seq": dict(PerRound=12, Par=1),
    "conns": dict(PerRound=8, Par=3, Conns=True),
}


def cfg(rng, mode, **k):
    # room for every cancellation: one that finds the client's queue full is lost
    c = dict(mode=mode, codec=rng.choice(["toy", "prost", "msgpack"]), maxbuf=rng.choice([4000, 70000]), cmaxq=rng.choice([64, 200]), smaxq=rng.choice([1, 2, 16, 256]),
             size=rng.choice([22, 32, 300]), rounds=30, warm=6, par=8, same=rng.random() < .4, idmap=rng.choice(IDMAPS),
             # in units of 16 bytes: 2 bytes per finished call, and 8 KiB
             per=8, slack=512, bye=rng.choice(["abort", "drop", "over"]))
    c.update(k)
    return c


def op(rng, f):
    n = rng.choice([0, 1, 2, 3, 15, 16, 17, 33])
    return {"answer": lambda: [rng.choice("ul")], "end": lambda: ["s", n], "late": lambda: rng.choice([["uk"], ["sk", n]]),
            "drop": lambda: rng.choice([["ud"], ["sd", n, rng.randrange(n + 1)]]), "unknown": lambda: ["x"], "wait": lambda: ["w"]}[f]()


def concretise(s, rng, sid):
    ops = [op(rng, f) for f in s["ops"]]
    c = cfg(rng, "conns" if s["conns"] else "calls", par=s["par"], conns=rng.choice([1, 3]), **(dict(slack=128) if s["conns"] else {}))
    # many times over
    k = (8 if s["conns"] else 120) // len(ops) + 1
    return dict(id=sid, suite="hold", cfg=c, ops=ops * k)


def directed(rng, n, focus=()):
    out = []
    for i in range(n):
        k = i % 5
        if k == 0:
            # one kind of call only, again and again
            ops = [op(rng, rng.choice(ALL[:5]))] * 150
            c = cfg(rng, "calls", par=rng.choice([1, 8, 30]))
        elif k == 1:
            # calls given up while they wait for a place in the queue
            ops = [["w"], ["w"], ["u"]] * 50
            c = cfg(rng, "calls", cmaxq=1, par=rng.choice([3, 6, 12]), size=rng.choice([22, 3000]))
        elif k == 2:
            # large messages
            ops = [op(rng, rng.choice(ALL[:5])) for _ in range(12)] * 4
            c = cfg(rng, "calls", size=rng.choice([3000, 3900]), slack=16384)
        elif k == 3:
            # connections that last, and ones that come and go
            reg = rng.random() < .5
            z = rng.choice([[22], [100, 22], [22, 3000], [3900]])
            ops = [["m", rng.choice(z)] for _ in range(20)]
            c = cfg(rng, "echo", conns=rng.choice([1, 5]), reg=reg, lasting=rng.random() < .5, par=rng.choice([1, 4]), smaxq=64)
            c["slack"] = 2048 if c["lasting"] else 128
            if reg:
                c["codec"] = "prost"
        else:
            ops = [op(rng, rng.choice(ALL[:5])) for _ in range(rng.choice([0, 1, 6]))]
            c = cfg(rng, "conns", conns=rng.choice([2, 6]), slack=128)
        out.append(dict(id=f"hd{i}", suite="hold", cfg=c, ops=ops))
    return out


def scenarios(weights, total, ndirected, seed, focus=(), hlen=0):
    rng = random.Random(seed * 7919 + 47)
    res = []
    tot = sum(weights.values())
    for f, w in sorted(weights.items()):
        n = max(8, total * w // tot)
        lst = core.generate("HoldGen", cfg_text("GSpec", dict(_B, **dict(FAMILIES[f], Family=f))), n, seed)
        rng.shuffle(lst)
        for i, s in enumerate(lst[:n]):
            res.append(concretise(s, rng, f"{f}-{i}"))
    return res + directed(rng, ndirected, focus)
