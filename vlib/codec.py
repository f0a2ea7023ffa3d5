"""Codec scenarios: behaviours of CodecGen with real sizes, every split of short streams, and broken bytes."""
import random
from . import core
from .conn import cfg_text

FIX = dict(ResetState=True, Confined=True, CheckHeader=True, WholeFrame=True)
_B = dict(Hdr=2, NF=3, Lens=[2, 3, 5], Faults=["header", "body", "over", "open"], Stateful=True, **FIX)
INV = ("NoViolation", "Progress")
MODELS = {
    "codec": ("CodecImpl", _B),
    "codec-stateless": ("CodecImpl", dict(_B, Stateful=False, Hdr=1, Lens=[1, 2, 4])),
    "codec+": ("CodecImpl", dict(_B, NF=4, Lens=[2, 3, 4, 6])),
}
MUTANTS = {"ResetState": "codec", "Confined": "codec", "CheckHeader": "codec-stateless", "WholeFrame": "codec"}
FAMILIES = {"stream": {}, "clean": dict(Faults=["open"])}
CODECS = ["prost", "prostdeep", "msgpack", "msgpackdeep"]
SIZES = [0, 0, 1, 2, 20, 100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 130, 200, 255, 256, 300, 16370, 16380, 16384, 65530, 65536, 70000]


def junk(rng, codec, k):
    """bytes of something that is no frame"""
    R = rng.randrange
    body = [R(256) for _ in range(R(1, 12))]
    if codec.startswith("prost"):
        if k == "header":
            return rng.choice([[255] * 12, [128] * 11, [255] * 9 + [2, 0], [255] * 9 + [127], [129] * 10 + [0], [255] * 9 + [1, 0, 0], [255] * 9 + [1] + body])
        if k == "over":
            return rng.choice([[4, 0x22, 0x40, 1, 2] + [1] * 70, [2, 0x22, 5] + body + [0] * 6, [1, 0x08] + body, [3, 0xa2, 0x01, 40] + [0] * 50])
        return rng.choice([[3, 0, 0, 0], [2, 0x0f, 1], [len(body)] + body, [2, 0x08, 0x80], [len(body), 0x06] + body[1:], [0x82, 0x00, 0x07, 0x07]])
    if k == "header":
        return rng.choice([[0xc1] * 12, [0xcd, 0, 5, 1, 2, 3], [0xcf] + [0] * 12, [0xce, 255, 255, 255, 255, 0, 0, 0], [0, 0, 0, 0, 5] + body, [R(256)] + [0, 0, 0, 9] + body])
    if k == "over":
        return rng.choice([[0xce, 0, 0, 0, 3, 0x94, 1, 0, 7, 0x94, 1, 2, 3, 4, 0, 0], [0xce, 0, 0, 0, 2, 0xd9, 40] + [65] * 50, [0xce, 0, 0, 0, 0] + body, [0xce, 0, 0, 0, 1, 0x94, 1, 2, 3, 0x90]])
    return rng.choice([[0xce, 0, 0, 0, 2, 0xc1, 0xc1], [0xce, 0, 0, 0, len(body)] + body, [0xce, 0, 0, 0, 6, 0x94, 1, 0, 7, 0x90, 0x00], [0xce, 0, 0, 0, 1, 0xc0]])


def concretise(s, rng, sid):
    codec = rng.choice(CODECS)
    scale = rng.choice([None, None, 0, 3])
    puts, rest, sizes = [], [], []
    for o in s["ops"]:
        if o[0] == "put":
            if o[1] in ("msg", "open"):
                puts.append(["enc", rng.randrange(12), rng.choice([0, 1, -1, 5, -2 ** 40, 2 ** 62]), rng.choice(SIZES) if scale is None else rng.randrange(scale * 4 + 1)])
                if o[1] == "open":
                    puts.append(["cut", rng.choice([1, 1, 2, 3, 30])])
            else:
                puts.append(["raw", junk(rng, codec, o[1])])
        elif o[0] == "more":
            rest.append(["more", max(1, o[1] * rng.choice([1, 1, 2, 9, 60, 5000]) - rng.choice([0, 0, 1]))])
        else:
            rest.append(["more", 0])
    return dict(id="k-" + sid, suite="codec", cfg=dict(codec=codec), ops=puts + rest + [["all", 99]])


def directed(rng, n):
    out = []
    for i in range(n):
        codec = CODECS[i % 4]
        k = (i // 4) % 6
        if k == 0:
            # byte by byte, several calls per byte
            ops = [["enc", rng.randrange(12), rng.randrange(-5, 300), rng.randrange(0, 40)] for _ in range(rng.randrange(1, 5))] + [["more", 1] if rng.random() < .8 else ["more", 0] for _ in range(140)]
        elif k == 1:
            # one split, anywhere
            ops = [["enc", rng.randrange(12), 7, rng.choice([0, 3, 130])] for _ in range(3)] + [["more", rng.randrange(1, 180)], ["more", 0], ["all", rng.randrange(1, 4)], ["all", 99]]
        elif k == 2:
            # many at once
            ops = [["enc", rng.randrange(12), rng.randrange(-300, 300), rng.choice(SIZES[:18])] for _ in range(rng.choice([10, 60]))] + [["more", rng.randrange(1, 2000)] for _ in range(6)] + [["all", 999]]
        elif k == 3:
            # around the steps of the length encoding, and large
            ops = [["enc", 1, 0, z + rng.randrange(-12, 3)] for z in rng.sample([128, 256, 16384, 65536, 65536 + 16384], 3)] + [["enc", 1, 0, (1 << 21) + rng.randrange(-20, 20)]]
            ops += [["more", z] for z in (1, 3, 5, 120, 5, 16000, 390, 1, 1, 70000)] + [["all", 999]]
        elif k == 5:
            # prefixes that end inside the length of a message, at every step of the length encoding
            ops = []
            for _ in range(3):
                ops.append(["enc", 1, rng.choice([0, 7]), rng.choice([0, 3, 100, 127, 128, 300, 16383, 16500, 70000, (1 << 21) - 30, (1 << 21) + 5])])
            ops += sorted(["upto", rng.randrange(0, 3), rng.choice([0, 1, 2, 3, 4, 5, 6, -1, -2])] for _ in range(rng.randrange(4, 16)))
            ops += [["all", 99]]
        else:
            # noise after messages
            ops = [["enc", rng.randrange(12), 1, rng.randrange(30)] for _ in range(rng.randrange(3))]
            if rng.random() < .5:
                ops += [["cut", rng.randrange(1, 4)]]
            ops += [["raw", [rng.choice([0, 1, 2, 5, 8, 10, 18, 34, 127, 128, 0x94, 0xce, 0xc1, 255, rng.randrange(256)]) for _ in range(rng.randrange(1, 40))]]]
            ops += [["more", rng.randrange(1, 12)] for _ in range(8)] + [["all", 99]]
        out.append(dict(id=f"kd{i}", suite="codec", cfg=dict(codec=codec), ops=ops))
    return out


def scenarios(weights, total, ndirected, seed, hlen=36, focus=()):
    rng = random.Random(seed * 7919 + 41)
    res = []
    tot = sum(weights.values())
    for f, w in sorted(weights.items()):
        n = max(8, total * w // tot)
        c = dict(_B, NF=8, Lens=[2, 4, 7], **FAMILIES[f])
        lst = core.generate("CodecGen", cfg_text("GSpec", dict(c, HLen=hlen, Family=f)), n, seed)
        rng.shuffle(lst)
        for i, s in enumerate(lst[:n]):
            res.append(concretise(s, rng, f"{f}-{i}"))
    return res + directed(rng, ndirected)
