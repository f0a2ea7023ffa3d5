"""check --property Cxx: model check, generate, replay on the real code, judge with TLC."""
import argparse, json, os, re, sys, time
from . import core
from .core import log, ToolError
from .props import PROPS


def write_evidence(pid, tier, seed, cov, wall, viol, assumptions):
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=assumptions,
                       wall_s=round(wall, 2), violations=viol), f, indent=1)
        f.write("\n")


def nontrivial(tr):
    return len(tr["ev"]) > 4


def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    core.build()
    log(f"built against /repo in {time.time() - t0:.1f}s")
    states = trans = 0
    models = []
    for name, module, cfg in P.models(tier):
        r = core.model_check(module, cfg, timeout=3600 if tier == "thorough" else 600)
        if not r["ok"]:
            raise ToolError(f"the specification itself fails: model {name} violates {r['violated']}\n" + r["output"][-3000:])
        states += r["distinct"]
        trans += r["states"]
        models.append(dict(model=name, module=module, distinct_states=r["distinct"], transitions=r["states"], depth=r["depth"]))
        log(f"model {name}: {r['distinct']} states, {r['states']} transitions, depth {r['depth']}")
    mutants = []
    for name, module, cfg in P.mutants(tier):
        r = core.model_check(module, cfg, timeout=600)
        if r["ok"]:
            raise ToolError(f"the model cannot see the defect it should see: {name}")
        mutants.append(f"{name}: {r['violated']}")
    if mutants:
        log("design mutants rejected by the model: " + ", ".join(mutants))
    # ---- the real code
    violations, ntr, nev, samples, kinds = [], 0, 0, [], {}
    jstates = 0
    for suite in P.suites(tier, seed):
        t1 = time.time()
        scens = suite.scenarios()
        t2 = time.time()
        traces = core.run_harness(scens, threads=suite.threads, idle_ms=suite.idle_ms, idle_rounds=suite.idle_rounds)
        t3 = time.time()
        verdicts, js = core.judge(traces, suite.module)
        t4 = time.time()
        jstates += js
        ntr += len(traces)
        for t in traces:
            nev += len(t["ev"])
            for e in t["ev"]:
                kinds[e["e"]] = kinds.get(e["e"], 0) + 1
        log(f"suite {suite.name}: {len(scens)} scenarios (gen {t2 - t1:.1f}s, run {t3 - t2:.1f}s, judge {t4 - t3:.1f}s)")
        if scens:
            samples.append(dict(suite=suite.name, scenario=scens[0], trace=traces[0]["ev"][:60]))
        bysc = {s["id"]: s for s in scens}
        bytr = {t["id"]: t for t in traces}
        hits = [(i, v) for i, v in verdicts.items() if any(l == pid for l, _ in v)]
        sure, soft = [], []
        for i, v in hits:
            ev = bytr[i]["ev"]
            hard = [(l, k) for l, k in v if l == pid and ev[k - 1]["e"] not in suite.soft_events]
            (sure if hard else soft).append((i, hard or [(l, k) for l, k in v if l == pid]))
        for i, v in sure:
            violations.append((suite, bysc[i], bytr[i], v))
        if soft and not sure:
            # something did not happen in time: give it much more time before believing it
            gone = [i for i, _ in soft if bytr[i]["ev"][-1]["e"] in ("hang", "crash")]
            ids = gone[:4] or sorted((i for i, _ in soft), key=lambda i: len(bysc[i].get("ops") or sum(bysc[i]["programs"], [])))[:16]
            log(f"{len(soft)} stalls seen, confirming {len(ids)} with long waits")
            again, seen = [bysc[i] for i in ids], {}
            for attempt in range(2):
                # threads schedule themselves: a scenario with several of them gets several chances
                # (many, where it takes an unlikely coincidence; any of those that stalled will do then)
                rare = [s for s in again if s["cfg"].get("rare")]
                runs = [dict(s, id=f"{s['id']}~{j}") for s in again if s not in rare for j in range(6 if s["cfg"].get("mt") else 1)]
                tr2 = core.run_harness(runs, threads=min(8, len(runs)), idle_ms=25, idle_rounds=60) if runs else []
                if rare:
                    tr2 += core.run_harness([dict(s, id=f"{s['id']}~{j}") for s in rare for j in range(-(-128 // len(rare)))])
                vd2, _ = core.judge(tr2, suite.module)
                seen = {}
                for t in tr2:
                    v2 = [x for x in vd2[t["id"]] if x[0] == pid]
                    if v2:
                        seen[t["id"].split("~")[0]] = (t, v2)
                some = any(s["id"] in seen for s in rare)
                again = [s for s in again if s["id"] in seen or (s in rare and some)]
                if not again:
                    break
            for s in [s for s in again if s["id"] in seen]:
                violations.append((suite, s, *seen[s["id"]]))
        if violations:
            break
    cov = dict(states=states + jstates, transitions=trans + jstates, traces_validated_against_impl=ntr, trace_events=nev,
               event_kinds=kinds, models=models, design_mutants_rejected=mutants, samples=samples[:4], exhaustive=False,
               rule="model states: exhaustive within each model's constants; traces: histories recorded from the real code built from "
                    "/repo, each judged event by event by the TLA+ contract")
    write_evidence(pid, tier, seed, cov, time.time() - t0, len(violations), P.assumptions)
    if violations:
        d = os.path.join(core.WORK, "replay")
        os.makedirs(d, exist_ok=True)
        suite, scen, trace, v = min(violations, key=lambda x: len(x[2]["ev"]))
        path = os.path.join(d, f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', scen['id'])}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, suite=suite.name, module=suite.module, scenario=scen, verdict=v, trace=trace), f)
        print(f"{len(violations)} of {ntr} histories break {pid}; shortest: scenario {scen['id']}, clause/event {v}")
        for l, k in v[:2]:
            for j in range(max(0, k - 6), k):
                print("    ", json.dumps(trace["ev"][j]))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK property={pid}: {ntr} histories, {nev} events; {states} model states; {time.time() - t0:.1f}s")
    return 0


def replay(path):
    r = json.load(open(path))
    core.build()
    tr = core.run_harness([r["scenario"]], threads=1, idle_ms=25, idle_rounds=40)
    vd, _ = core.judge(tr, r["module"])
    for i, e in enumerate(tr[0]["ev"]):
        print(i + 1, json.dumps(e))
    print("verdict:", vd[r["scenario"]["id"]])
    return 1 if any(l == r["property"] for l, _ in vd[r["scenario"]["id"]]) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    try:
        if a.build:
            core.build()
            return 0
        if a.replay:
            return replay(a.replay)
        return check(a.property, a.tier, a.seed)
    except ToolError as e:
        print(f"TOOL ERROR (no verdict): {e}")
        return 2
