"""Which models and which suites decide which property."""
from . import conn, client, server, serve, codec, e2e, hold
from .conn import cfg_text

SUITES = {"conn": (conn, "ConnTrace"), "client": (client, "ClientTrace"), "server": (server, "ServerTrace"),
          "serve": (serve, "ServeTrace"), "codec": (codec, "CodecTrace"), "e2e": (e2e, "E2ETrace"), "hold": (hold, "HoldTrace")}
MODELS, MUTANTS = {}, {}
for _mod, _ in SUITES.values():
    for _k, (_m, _c) in _mod.MODELS.items():
        MODELS[_k] = (_m, _c, _mod.INV)
    for _k, _v in _mod.MUTANTS.items():
        MUTANTS[_k] = _v


class Suite:
    soft_events = ("q", "spin", "gone", "hang", "crash", "mem")
    threads, idle_ms, idle_rounds = 16, 1, 3

    def __init__(self, name, module, gen):
        self.name, self.module, self.scenarios = name, module, gen


class Prop:
    assumptions = ["the kernel's loopback TCP delivers bytes in order and reports readiness to tokio",
                   "a stall is believed only after the scenario stalls again, twice, with more than 1.5 s of waiting",
                   "histories outside the generated ones and models beyond the stated constants are not covered"]

    def __init__(self, suites, models, thorough_models=(), mutants=()):
        """suites: {suite: ({family: weight}, number generated, number directed)}"""
        self.s, self.qm, self.tm, self.mu = suites, list(models), list(thorough_models), mutants

    def models(self, tier):
        for k in (self.qm if tier == "quick" else self.qm + self.tm):
            m, c, inv = MODELS[k]
            yield k, m, cfg_text("Spec", c, inv)

    def mutants(self, tier):
        for k in self.mu:
            m, c, inv = MODELS[MUTANTS[k]]
            yield k, m, cfg_text("Spec", dict(c, **{k: False}), inv)

    def suites(self, tier, seed):
        for name, (w, n, nd, *fo) in self.s.items():
            fo = fo[0] if fo else ()
            mod, tm = SUITES[name]
            if tier == "quick":
                yield Suite(name, tm, lambda mod=mod, w=w, n=n, nd=nd, fo=fo: mod.scenarios(w, n, nd, seed, focus=fo))
            else:
                for k in range(4):
                    yield Suite(f"{name}-{k}", tm, lambda mod=mod, w=w, n=n, nd=nd, fo=fo, k=k: mod.scenarios(
                        w, n * 5, nd * 5, seed + 1000 * k, focus=fo, **({} if k < 2 else dict(hlen=70))))


def cp(w, models, tmodels, muts=(), focus=(), **more):
    return Prop({"conn": (w, 600, 360, (14, *focus)), "serve": (ALLV, 60, 48, ("reg",)), **more}, models, tmodels, muts)


def lp(w, models, tmodels, muts=(), **more):
    return Prop({"client": (w, 480, 180, ("many",) * 3), **more}, models, tmodels, muts)


def sp(w, models, tmodels, muts=(), n=360, nd=420, focus=(), **more):
    return Prop({"server": (w, n, nd, (*focus, "many", "many")), **more}, models, tmodels, muts)


INW = {"in": 4, "inq1": 2, "insmall": 2, "body": 1, "mixed": 1}
OUTW = {"out": 5, "outq1": 3, "mixed": 2}
ALLC = {k: 1 for k in client.FAMILIES}
ALLV = {k: 1 for k in serve.FAMILIES}
ALLS = {k: 1 for k in server.FAMILIES}
ALLH = {k: 1 for k in hold.FAMILIES}
ALLE = {k: 1 for k in e2e.FAMILIES}
PROPS = {
    "C01": cp({"out": 5, "outq1": 2, "outbig": 1, "mixed": 3}, ["out", "mix"], ["out+", "mix+"]),
    "C02": cp(INW, ["in"], ["in+", "inbody+"]),
    "C03": cp(OUTW, ["out"], ["out+", "mix+"], ["WakeAfterDrain"]),
    "C04": cp(INW, ["in"], ["in+", "inbody+"], ["WakeAfterRotate", "SkipMakesRoom"]),
    "C05": cp({"in": 5, "inq1": 2, "insmall": 3, "mixed": 1}, ["in"], ["in+", "mix+"], ["DeliverOnEof"], focus=(4, 4, 13, 13, 13)),
    "C06": cp({"out": 5, "outq1": 3, "mixed": 2}, ["out", "client-bye"], ["out+", "mix+"], ["FlushOnClose"],
              client=({"bye": 1}, 80, 60, (11,) * 8)),
    "C07": cp({"inbad": 6, "body": 4, "mixedbad": 2}, ["in", "inbody", "client-limits"], ["in+", "inbody+"], ["FullPartialEnds"],
              client=({"limits": 1}, 80, 60, (10,) * 8), server=({"loss": 1}, 60, 48, (6,) * 6)),
    "C08": cp({"in": 2, "inbad": 1, "out": 2, "mixed": 4, "mixedbad": 2, "outbig": 1}, ["mix"], ["mix+", "in+"],
              client=(ALLC, 140, 60), server=({"loss": 1, "over": 1, "rpcs": 1}, 90, 64)),
    "C09": cp({"outbig": 4, "out": 3, "outq1": 2}, ["mix", "out", "client-limits", "server-over"], ["out+", "mix+"], ["CheckSize", "CheckOut"],
              client=({"limits": 1}, 80, 80, (9,) * 6 + (2,) * 6), server=({"over": 1, "q1": 1}, 80, 64, (14,) * 8)),
    "C10": Prop({"codec": ({"stream": 3, "clean": 2}, 1500, 800)}, ["codec", "codec-stateless"], ["codec+"],
                ["ResetState", "Confined", "CheckHeader", "WholeFrame"]),
    "C11": lp(ALLC, ["client", "client-streams", "client-again"], ["client+", "client-3"], ["RegisterFirst"]),
    "C12": lp(ALLC, ["client", "client-again"], ["client+", "client-streams", "client-3"], ["RegisterFirst", "ReceiverFirst", "ClearSubmissions", "NewestWins"]),
    "C13": lp(ALLC, ["client"], ["client+", "client-q2"], ["CancelOnDrop", "GuardClosed"]),
    "C14": lp(ALLC, ["client"], ["client+", "client-q2"], ["ReceiverFirst"]),
    "C15": sp(ALLS, ["server-batch", "server-fin"], ["server+", "server-loss+"], ["WakeOnBatch"]),
    "C16": sp(ALLS, ["server"], ["server+", "server-streams+"], ["ReserveFirst", "FusedEnd"]),
    "C17": sp({"reuse": 3, "rpcs": 2, "q1": 2, "streams": 1}, ["server-reuse"], ["server+", "server-reuse+"], ["OwnHandle"]),
    "C18": sp({"q1": 4, "rpcs": 2, "streams": 2, "reuse": 1}, ["server"], ["server+", "server-streams+"], ["WakeOnRoom", "WakeOnBatch"]),
    "C19": sp({"loss": 4, "two": 1}, ["server-loss", "server-fin", "e2e-bye"], ["server-loss+"], ["ExitOnClose", "ByeReleases"], e2e=(ALLE, 60, 40)),
    "C20": sp({"two": 4, "loss": 1}, ["server-two", "serve", "serve-limits"], ["server-two+", "serve+", "serve-ends+", "serve-limits+"],
              ["AcceptRewake", "FaultRecovers", "ServeRewake", "ServeRecovers", "LimitsNow", "OwnTask"], n=240, nd=260, focus=(8, 8), serve=(ALLV, 160, 90)),
    "C21": Prop({"client": ({"reuse": 5, "calls": 1}, 360, 180), "server": ({"reuse": 1}, 160, 420, (2, 13, 13, 13, 13, 13))}, ["client-reuse", "server-reuse"],
                ["client-reuse+", "server-reuse+"], ["DoneOnlyIfOpen", "OwnHandle"]),
    "C22": Prop({"conn": ({"in": 2, "out": 3, "mixed": 3, "inq1": 1, "outq1": 1}, 420, 168), "client": (ALLC, 200, 90), "server": (ALLS, 160, 130), "serve": (ALLV, 90, 36)},
                ["mix", "in"], ["mix+", "in+", "out+"]),
    "C24": Prop({"conn": ({"insmall": 3, "inq1": 2, "in": 2, "mixed": 1}, 300, 180, (15,) * 16)}, ["in-ahead"], ["in+", "mix+"], ["ReadStops"]),
    "C23": Prop({"e2e": (ALLE, 360, 340, (5, 5))}, ["e2e", "e2e-drop", "e2e-bye"], ["e2e+"], ["ById", "CancelTravels", "EndInOrder", "RoomFirst"]),
    "C25": Prop({"hold": (ALLH, 60, 60)}, ["hold", "hold-conns"], ["hold+", "hold-conns+"],
                ["AnswerForgets", "EndForgets", "DropForgets", "CancelForgets", "CloseForgets"]),
}
