"""P18 - an analysis covers every combination that has results, each with its own samples.
Specification: spec/Provenance.tla (operations job, reference, analyse, plot)"""
import json
import os

import numpy as np

from .core import Raised
from .prov_common import D, World

INVS = ["NeverMixed", "FreshIsCurrent", "TypeOK", "Emit"]


def plans(ctx):
    grid = "{<<3, 30000>>, <<3, 3000>>, <<13, 30000>>, <<30, 30025>>, <<13, 1000>>}"
    base = dict(Rs="{0, 1}", Versions="{1, 2}", Pairs=grid, Js="{0, 1, 11}", Xs="{2, 3, 7}", MaxJobs=2)
    out = []
    sim = ctx.tlc("Provenance", dict(base, MaxSteps=30, Ops='{"job", "reference", "analyse", "plot", "switch", "editrho"}', Ends='{"analyse", "plot"}'), spec="Spec",
                  invariants=INVS, simulate=60 if not ctx.thorough else 800, depth=31, workers=1, label="sparse grids of beads and temperatures")
    sim = [p for p in sim if p["store"] and any(h["op"] == "analyse" and h["out"] for h in p["hist"])]
    sim.sort(key=lambda p: -max([len(h["out"]) for h in p["hist"] if h["op"] == "analyse"]))
    out += sim[:20 if not ctx.thorough else 300] + ctx.thin(sim, 50 if not ctx.thorough else 1000)
    ex = ctx.tlc("Provenance", dict(base, Rs="{0}", Versions="{1}", Pairs="{<<3, 30000>>, <<4, 3000>>}", Js="{1}", Xs="{2}", MaxJobs=1, MaxSteps=6,
                                    Ops='{"job", "reference", "analyse"}', Ends='{"analyse"}'), spec="Spec", invariants=INVS, label="small grid, exhaustive")
    ex = [p for p in ex if p["hist"][-1]["op"] == "analyse" and not any(h["op"] == "analyse" for h in p["hist"][:-1]) and p["store"]]
    out += ctx.thin(ex, 60 if not ctx.thorough else 3000)
    return out


def scripted(ctx):
    """one full product minus one pair, for all four methods, and the refusals"""
    job = []
    pairs = [(P, T) for P in (3, 4, 12, 21, 30, 64, 100) for T in (1000, 2500, 10000, 30000, 30025) if (P, T) != (12, 30000)]
    n = 0
    for P, T in pairs:
        for J in ((0, 1) if (P + T) % 3 else (4,)):
            n += 1
            job += [{"op": "start", "id": n, "R": 0, "P": P, "T": T, "J": J, "X": 2 + (n % 3)}, {"op": "finish", "id": n, "hv": 1, "hr": 1}]
    ids = {i + 1: job[2 * i] for i in range(n)}
    out = []
    for P, T in pairs:
        mine = [i for i, j in ids.items() if (j["P"], j["T"]) == (P, T)]
        out.append({"R": 0, "P": P, "T": T, "X": sum(ids[i]["X"] for i in mine), "ids": mine, "hv": 1, "hr": 1})
    for m in ("basic", "alpha", "jbasic", "jalpha"):
        hist = [{"op": "init", "v": 1, "R": 0}] + job + [{"op": "reference", "R": 0}, {"op": "analyse", "method": m, "refused": False, "out": [dict(t) for t in out]},
                                                       {"op": "plot", "rows": [dict(t) for t in out]}]
        yield {"hist": hist, "store": [], "fresh": sorted(ids), "mine": sorted(ids), "obj": {"R": 0, "hv": 1, "hr": 1}}


def run(ctx):
    for plan in list(scripted(ctx)) + plans(ctx):
        if ctx.give_up:
            break
        if not ctx.want({"hist": plan["hist"]}):
            continue
        w = World(ctx, "P18")
        w.replay(plan)
        ctx.count("history", {"hist": plan["hist"]})
        ctx.rmdir(w.root)
    # unusable requests are refused and leave nothing behind
    w = World(ctx, "P18")
    hist = [{"op": "init", "v": 1, "R": 0}, {"op": "start", "id": 1, "R": 0, "P": 3, "T": 30000, "J": 1, "X": 3}, {"op": "finish", "id": 1, "hv": 1, "hr": 1}, {"op": "reference", "R": 0}]
    plan = {"hist": hist, "store": [], "fresh": [1], "mine": [], "obj": {"R": 0, "hv": 0, "hr": 0}}
    if ctx.want({"hist": hist, "refuse": True}) and w.replay(plan):
        for kw in ({"method": "other"}, {"method": None}, {"location": "elsewhere"}, {"method": "basic ", "location": "local"}):
            for fn in (w.stats.statistical_analysis_of_pimc, w.stats.jackknife_analysis_of_pimc):
                out = ctx.call(fn, w.FS, **kw)
                ctx.check(isinstance(out, Raised) and not w.thermo_dir(), "an unknown method or location was accepted", {"hist": hist, "refuse": True}, kw=kw)
        ctx.count("refusal")
    ctx.rmdir(w.root)
    incomplete(ctx)
    return {"exhaustive": False}


def incomplete(ctx):
    """files of exact values without some temperature or some value; specification: spec/Reference.tla"""
    Ts = [3000, 30000, 30025]
    plans = ctx.tlc("Reference", dict(Ts="{3000, 30000, 30025}", Others="{29975, 100000}"), spec="Spec", invariants=["DoneIsComplete", "NotNeeded", "Emit"],
                    label="incomplete exact values, exhaustive")
    full = [p for p in plans if len(p["has"]) == 5]
    plans = full + [p for p in plans if len(p["has"]) == 4 and p["lackT"] == 0] + ctx.thin(plans, 80 if not ctx.thorough else 1500)
    hist = [{"op": "init", "v": 1, "R": 0}]
    for n, T in enumerate(Ts):
        hist += [{"op": "start", "id": n + 1, "R": 0, "P": 3, "T": T, "J": 1, "X": 3}, {"op": "finish", "id": n + 1, "hv": 1, "hr": 1}]
    w = World(ctx, "P18")
    if not any(ctx.want(p) for p in plans):
        return
    if not w.replay({"hist": hist, "store": [], "fresh": [1, 2, 3], "mine": [], "obj": {"R": 0, "hv": 0, "hr": 0}}):
        return
    FS = w.paths(0)
    FS.generate_model_hashes()
    for p in plans:
        if ctx.give_up:
            break
        if not ctx.want(p):
            continue
        table = {f"{T / 100:.2f}": w.exact(T) for T in p["has"]}
        if p["lackT"]:
            del table[f"{p['lackT'] / 100:.2f}"][p["lackK"]]
        table.update(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
        with open(FS.path_analytic_rho, "w") as fh:
            json.dump(table, fh)
        for f in w.thermo_dir():
            os.remove(os.path.join(FS.path_rho_results, f[1]))
        w.c = p
        rows = [{"R": 0, "P": 3, "T": T, "X": 3, "ids": [n + 1], "hv": 1, "hr": 1} for n, T in enumerate(Ts)]
        if p["out"] == "done" and not p["optional"]:
            w.analyse({"op": "analyse", "method": p["method"], "refused": False, "out": rows})
        else:
            fn = w.stats.jackknife_analysis_of_pimc if p["method"].startswith("j") else w.stats.statistical_analysis_of_pimc
            out = ctx.call(fn, w.paths(0), method="".join(["al", "pha"]) if p["method"].endswith("alpha") else "".join(["ba", "sic"]), timeout=120)
            ctx.check(isinstance(out, Raised) or p["optional"], "an analysis without the exact values it needs succeeded", p, outcome=repr(out))
            may = {f"P3_T{T / 100:.2f}_X3_thermo" for T in p["may"]}
            got = {f for _, f in w.thermo_dir()}
            ctx.check(got <= may, "an analysis wrote output of a combination without exact values", p, got=sorted(got), may=sorted(may))
        ctx.count("incomplete exact values " + p["out"], p)
    ctx.rmdir(w.root)
