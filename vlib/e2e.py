"""Client-to-server scenarios: behaviours of E2EGen as concurrent programs, and directed loads."""
import random
from . import core
from .conn import cfg_text
from .client import IDMAPS

FIX = dict(ById=True, CancelTravels=True, EndInOrder=True, RoomFirst=True, ByeReleases=True)
_B = dict(NCalls=3, Ids=[1, 2], CQ=2, SQ=2, WCap=1, Ns=[0, 2], Kinds=["u", "s"], CanDrop=False, CanBye=False, **FIX)
INV = ("NoViolation", "QuietOk", "GoneOk")
MODELS = {
    "e2e": ("E2EImpl", _B),
    "e2e-drop": ("E2EImpl", dict(_B, NCalls=2, Kinds=["u", "sn"], CanDrop=True)),
    "e2e-bye": ("E2EImpl", dict(_B, NCalls=2, Kinds=["u", "s", "un"], Ns=[1], CanBye=True)),
    "e2e+": ("E2EImpl", dict(_B, NCalls=3, Ids=[1, 2, 3], SQ=2, CanDrop=True, Kinds=["u", "s", "sn"], Ns=[2])),
}
MUTANTS = {"ById": "e2e", "CancelTravels": "e2e-drop", "EndInOrder": "e2e", "RoomFirst": "e2e", "ByeReleases": "e2e-bye"}
FAMILIES = {
    "calls": dict(),
    "reuse": dict(Ids=[1, 2]),
    "streams": dict(Kinds=["s", "sn"], Ns=[0, 1, 3, 5], NCalls=6),
}
_G = dict(_B, NCalls=14, Ids=list(range(1, 9)), CQ=6, SQ=2, WCap=3, Ns=[0, 1, 3], Kinds=["u", "s", "un", "sn"], CanDrop=True)


def cfg(rng):
    # room for every cancellation: one that finds the client's queue full is lost
    return dict(codec=rng.choice(["toy", "prost", "msgpack"]), mt=True, workers=rng.choice([1, 2, 3, 4]), maxbuf=rng.choice([4000, 70000]), smaxq=rng.choice([1, 2, 8, 256]),
                cmaxq=rng.choice([512, 1024]), conns=1, idmap=rng.choice(IDMAPS), jit=rng.choice([0, 1, 2, 4, 8, 20]), jseed=rng.randrange(1 << 30), pre=rng.choice([0, 0, 0, 150]), bye=rng.choice(["abort", "drop"]))


def concretise(s, rng, sid):
    c = cfg(rng)
    ntask = rng.choice([1, 2, 3, 4])
    big = rng.random() < .3
    top = c["maxbuf"] - 40
    size = lambda: rng.choice([22, 60, 500, top // 2, top] if big else [22, 22, 60, 300])
    progs = [[] for _ in range(ntask)]
    task, idu, done = {}, {}, set()
    for o in s["ops"]:
        n = o[1]
        if o[0] == "call":
            # an id used again stays with its task: it is free once the earlier call has been waited for
            i = o[2]
            t = idu.setdefault(i, dict(t=rng.randrange(ntask), c=None))
            k = t["t"]
            if t["c"] is not None:
                progs[k].append(["wait", t["c"]])
                done.add(t["c"])
            t["c"] = n
            task[n] = k
            progs[k].append(["call", n, i, o[3] in ("s", "sn"), o[4] * rng.choice([1, 1, 7]), 3 if o[3] in ("un", "sn") else rng.choice([0, 0, 1, 2]), size(), size()])
        elif n in task and n not in done:
            k = task[n]
            progs[k].append(["drop", n] if o[0] == "drop" else rng.choice([["take", n, 1], ["peek", n]]))
            if o[0] == "drop":
                # the id of a dropped call is not used again
                for x in idu.values():
                    if x["c"] == n:
                        x["c"] = None
        if rng.random() < .2 and task:
            progs[rng.choice(list(task.values()))].append(["yield", rng.randrange(1, 5)])
    return dict(id="e-" + sid, suite="e2e", cfg=c, programs=progs)


def directed(rng, n, focus=()):
    out = []
    R = rng.randrange
    cases = list(range(6)) + list(focus)
    for i in range(n):
        k = cases[i % len(cases)]
        c = cfg(rng)
        progs, call = [], 0
        ntask = rng.choice([2, 4, 8])
        c["conns"] = rng.choice([1, 1, 2, 3]) if k != 4 else 1
        top = c["maxbuf"] - 40
        if k == 5:
            # callers that never pause, and threads interrupted anywhere
            ntask = rng.choice([24, 48, 96])
            c.update(conns=1, workers=rng.choice([4, 6, 8]), jit=0, pre=rng.choice([40, 80, 120]), smaxq=256, rare=True)
        for t in range(ntask):
            p = []
            ids = [1 + t + ntask * j for j in range(40)]
            if k == 0:
                # a load of unary calls in flight together, awaited in another order
                cs = []
                for j in range(R(10, 40)):
                    call += 1
                    cs.append(call)
                    p.append(["call", call, ids[j], False, 0, rng.choice([0, 0, 1, 2]), rng.choice([22, 100]), rng.choice([22, 100])])
                rng.shuffle(cs)
                p += [["wait", x] for x in cs]
            elif k == 5:
                dropped = 0
                for j in range(1500 // ntask):
                    call += 1
                    x = rng.random()
                    # the id of a dropped call is not used again
                    dropped += x < .2
                    p += [["call", call, ids[0] + ntask * (j % 3 if x >= .2 else 2 + dropped), x > .9, R(0, 3), 0 if x >= .2 else 3, 22, 22], ["drop" if x < .2 else "wait", call]]
            elif k == 1:
                # the same id, one call after another
                for j in range(R(10, 40)):
                    call += 1
                    st = rng.random() < .4
                    p += [["call", call, ids[0], st, R(0, 5), rng.choice([0, 0, 1]), 22, 22], ["wait", call]]
            elif k == 2:
                # long streams beside calls, large items, a small server queue
                c["smaxq"] = rng.choice([1, 1, 2])
                call += 1
                z = rng.choice([22, top // 4, top])
                p.append(["call", call, ids[0], True, min(R(20, 200), 20 + 400000 // z), rng.choice([0, 0, 1]), z, 22])
                x = call
                for j in range(R(1, 8)):
                    call += 1
                    p += [["call", call, ids[j + 1], False, 0, 0, 22, top], rng.choice([["wait", call], ["take", x, 5], ["yield", 2]])]
            elif k == 3:
                # calls dropped at every stage
                for j in range(R(8, 30)):
                    call += 1
                    st = rng.random() < .5
                    p.append(["call", call, ids[j], st, R(0, 30), rng.choice([0, 1, 2, 3]), 22, 22])
                    x = rng.random()
                    if x < .3:
                        p.append(["yield", R(1, 9)])
                    elif x < .6:
                        p.append(["peek", call])
                    if rng.random() < .7:
                        p.append(["drop", call])
            else:
                # everything
                mine = []
                for j in range(R(10, 36)):
                    call += 1
                    st = rng.random() < .5
                    p.append(["call", call, ids[j], st, R(0, 12), rng.choice([0, 0, 1, 2, 3]), rng.choice([22, 22, top]), rng.choice([22, 22, top])])
                    mine.append(call)
                    for _ in range(R(3)):
                        y = rng.choice(mine)
                        p.append(rng.choice([["take", y, 1], ["peek", y], ["wait", y], ["drop", y], ["yield", 2]]))
            progs.append(p)
        out.append(dict(id=f"ed{i}", suite="e2e", cfg=c, programs=progs))
    return out


def scenarios(weights, total, ndirected, seed, hlen=40, focus=()):
    rng = random.Random(seed * 7919 + 43)
    res = []
    tot = sum(weights.values())
    for f, w in sorted(weights.items()):
        n = max(8, total * w // tot)
        c = dict(_G, **FAMILIES[f])
        lst = core.generate("E2EGen", cfg_text("GSpec", dict(c, HLen=hlen, Family=f)), n, seed)
        rng.shuffle(lst)
        for i, s in enumerate(lst[:n]):
            res.append(concretise(s, rng, f"{f}-{i}"))
    return res + directed(rng, ndirected, focus)
