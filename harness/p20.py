"""P20 - generated models, and comparisons of models.  Specification: spec/Generate.tla, spec/GenerateOps.tla"""
import copy
import itertools as it
import json
import os
import random

import numpy as np

from .core import Raised
from .models import MODE_RANK, NAMES, key, shape, vmk

INVS = ["TypeOK", "Equivalence", "SameSymmetry", "FreshSymmetric", "Emit"]
# frequency range (1e-4), energy range (1e-3), linear scaling (1e-4); what is absent takes its documented default
PARAMS = {
    1: {},
    2: {"frequency_range": [150, 900], "energy_range": [-3000, -1000], "linear_scaling": 250},
    3: {"frequency_range": [2000, 4000], "energy_range": [0, 500]},
    4: {"energy_range": [5000, 9000], "linear_scaling": 1},
    5: {"frequency_range": [300, 300], "linear_scaling": 0},
}
DEFAULT = {"frequency_range": [200, 400], "energy_range": [0, 2000], "linear_scaling": 400}
UNIT = {"frequency_range": 1e4, "energy_range": 1e3, "linear_scaling": 1e4}


def request(p, kind, dims=None):
    d = {}
    for k, v in PARAMS[p].items():
        d[k] = [x / UNIT[k] for x in v] if isinstance(v, list) else v / UNIT[k]
    if dims is not None:
        d["numStates"], d["numModes"] = dims
    if kind == "diagonal" or p % 2 == 0:
        d["diagonal"] = kind == "diagonal"
    return d


def generate(ctx, kind, p, dims):
    from pibronic.vibronic import vIO
    d = request(p, kind, dims)
    before = copy.deepcopy(d)
    if not d:
        return ctx.call(vIO.generate_vibronic_model_data), True
    out = ctx.call(vIO.generate_vibronic_model_data, d)
    return out, d == before


def wellformed(kind, model):
    V = vmk()
    try:
        A, N = int(model[V.A]), int(model[V.N])
    except (KeyError, TypeError, ValueError):
        return False
    return all(key(n) in model and isinstance(model[key(n)], np.ndarray) and model[key(n)].shape == shape(kind, n, A, N)
               and np.isfinite(model[key(n)]).all() for n in ("E", "w", "G1")) and \
        all(model[key(n)].shape == shape(kind, n, A, N) for n in NAMES if key(n) in model)


def lower(kind, arr):
    if kind == "diagonal":
        return [float(x) for x in arr]
    A = arr.shape[0]
    return [float(arr[a, b]) for a in range(A) for b in range(a + 1)]


def observed(kind, p, model, untouched, wantA, wantN):
    """the record GenerateOps judges"""
    V = vmk()
    full = {**DEFAULT, **PARAMS[p]}
    rec = {"kind": kind, "refused": isinstance(model, Raised), "wellformed": False, "wantA": wantA, "wantN": wantN, "untouched": untouched}
    if rec["refused"] or not wellformed(kind, model):
        return rec
    A, N = int(model[V.A]), int(model[V.N])
    w, E, G1 = (model[key(n)] for n in ("w", "E", "G1"))
    e, g = lower(kind, E), [lower(kind, G1[i]) for i in range(N)]
    sym = kind == "diagonal" or (np.array_equal(E, E.T) and np.array_equal(G1, np.swapaxes(G1, 1, 2)))
    clip = lambda x: int(max(-2e9, min(2e9, round(x))))
    small = lambda x: int(max(-2e4, min(2e4, round(x))))
    gq = [[clip(x * 1e4) for x in row] for row in g]
    w5 = [clip(x * 1e5) for x in w]
    if max(abs(x) for r in gq for x in r) * max(w5) > 2000000000:      # beyond TLC's integers: far outside of every allowed range
        gq = [[small(x) for x in r] for r in gq]
        w5 = [max(-100000, min(100000, x)) for x in w5]
    rec.update(wellformed=True, A=A, N=N, w=[clip(x * 1e7) if abs(x) < 1 else 100000000 for x in w], flo=full["frequency_range"][0] * 1000, fhi=full["frequency_range"][1] * 1000,
               E=[clip(x * 1e6) for x in e], elo=full["energy_range"][0] * 1000, ehi=full["energy_range"][1] * 1000,
               G1=gq, w5=w5, lin=full["linear_scaling"] * 100000,
               higherzero=all(key(n) not in model or not np.any(model[key(n)]) for n in ("G2", "G3", "G4")),
               symmetric=bool(sym), edistinct=len(set(e)), gdistinct=len({round(x * float(w[i]), 13) for i, r in enumerate(g) for x in r}))
    return rec


class World:
    def __init__(self, ctx, seed):
        self.ctx, self.ms, self.kinds = ctx, [], []
        self.root = ctx.newdir("gen")
        np.random.seed(seed % 2**32)
        random.seed(seed)
        self.records = []

    def places(self, m, arr, mp, sp):
        V = vmk()
        A, N = int(self.ms[m][V.A]), int(self.ms[m][V.N])
        r, n = MODE_RANK[arr], N - 1
        if r == 0:
            modes = [()]
        elif mp == "first":
            modes = [(0,) * r]
        elif mp == "last":
            modes = [(n,) * r]
        else:
            modes = [{2: (0, n), 3: (0, 0, n), 4: (0, n, 0, 0)}[r]]
            if mp == "sym":
                modes = sorted(set(it.permutations(modes[0])))
        if sp == "-":
            surf = [()]
        elif self.kinds[m] == "diagonal":
            surf = [(A - 1,)]
        else:
            surf = {"d": [(A - 1, A - 1)], "both": [(0, A - 1), (A - 1, 0)], "one": [(A - 1, 0)]}[sp]
        return [a + b for a in modes for b in surf]

    def step(self, h, edits):
        from pibronic.vibronic import vIO
        ctx, V = self.ctx, vmk()
        if h["op"] == "gen":
            dims = (h["A"], h["N"])
            model, untouched = generate(ctx, h["kind"], h["p"], None if (h["p"] == 1 and dims == (2, 3) and h["kind"] == "full") else dims)
            self.records.append(observed(h["kind"], h["p"], model, untouched, [h["A"]] * 2, [h["N"]] * 2))
            if isinstance(model, Raised) or not wellformed(h["kind"], model):
                return False
            self.ms.append({k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in model.items()})
            self.kinds.append(h["kind"])
            edits.append(set())
        elif h["op"] == "copy":
            self.ms.append(copy.deepcopy(self.ms[h["m"] - 1]))
            self.kinds.append(self.kinds[h["m"] - 1])
            edits.append(set(edits[h["m"] - 1]))
        elif h["op"] == "store":
            m = h["m"] - 1
            path = os.path.join(self.root, f"m{len(self.ms)}.json")
            save, load = (vIO.save_model_to_JSON, vIO.load_model_from_JSON) if self.kinds[m] == "full" else (vIO.save_diagonal_model_to_JSON, vIO.load_diagonal_model_from_JSON)
            out = ctx.call(save, path, self.ms[m])
            back = out if isinstance(out, Raised) else ctx.call(load, path)
            if not ctx.check(not isinstance(back, Raised), "a model cannot be saved and read back", self.case, error=repr(back)):
                return False
            self.ms.append(back)
            self.kinds.append(self.kinds[m])
            edits.append(set(edits[m]))
        elif h["op"] == "edit":
            m, arr = h["m"] - 1, h["arr"]
            model = self.ms[m]
            A, N = int(model[V.A]), int(model[V.N])
            if key(arr) not in model:
                model[key(arr)] = np.zeros(shape(self.kinds[m], arr, A, N))
            place = (arr, h["mp"], h["sp"])
            sign = -1 if place in edits[m] else 1
            edits[m] ^= {place}
            for idx in self.places(m, arr, h["mp"], h["sp"]):
                model[key(arr)][idx] += sign * self.delta
        else:
            m, arr = h["m"] - 1, h["arr"]
            if h["op"] == "wipe":
                self.ms[m][key(arr)][...] = 0.0
            else:
                del self.ms[m][key(arr)]
            edits[m] -= {e for e in edits[m] if e[0] == arr}
        return True

    def answers(self, c):
        from pibronic.vibronic import vIO
        ctx, V = self.ctx, vmk()
        expected = {tuple(x) for x in c["same"]}
        before = copy.deepcopy(self.ms)
        for m, n in it.product(range(len(self.ms)), repeat=2):
            if self.kinds[m] != self.kinds[n]:
                continue
            fn = vIO._same_model if self.kinds[m] == "full" else vIO._same_diagonal_model
            got = ctx.call(fn, self.ms[m], self.ms[n])
            ctx.check(not isinstance(got, Raised) and bool(got) == ((m + 1, n + 1) in expected), "whether two models are the same", self.case, models=[m + 1, n + 1], expected=(m + 1, n + 1) in expected,
                      got=repr(got), delta=self.delta)
        for m, kind in enumerate(self.kinds):
            if kind == "full":
                got = ctx.call(vIO.model_parameters_are_symmetric_in_surfaces, self.ms[m])
                ctx.check(not isinstance(got, Raised) and bool(got) == c["surf"][m], "symmetric in the surfaces", self.case, model=m + 1, expected=c["surf"][m], got=repr(got))
                got = ctx.call(vIO.model_parameters_are_symmetric_in_modes, self.ms[m])
                ctx.check(not isinstance(got, Raised) and (c["modes"][m] == "open" or bool(got) == (c["modes"][m] == "yes")), "symmetric in the modes", self.case, model=m + 1, expected=c["modes"][m], got=repr(got))
        same = all(set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a) for a, b in zip(before, self.ms))
        ctx.check(same, "comparing changes a model", self.case)
        # arrays that do not fit the dimensions are refused
        m = self.spoil % len(self.ms)
        arrs = [n for n in NAMES if key(n) in self.ms[m]]
        if arrs:
            arr = arrs[self.spoil % len(arrs)]
            bad = copy.deepcopy(self.ms[m])
            bad[key(arr)] = np.zeros(tuple(s + 1 for s in bad[key(arr)].shape))
            fns = [lambda: vIO._same_model(bad, self.ms[m]), lambda: vIO._same_model(self.ms[m], bad), lambda: vIO.model_parameters_are_symmetric_in_surfaces(bad),
                   lambda: vIO.model_parameters_are_symmetric_in_modes(bad), lambda: vIO.save_model_to_JSON(os.path.join(self.root, "bad.json"), bad)] if self.kinds[m] == "full" else \
                [lambda: vIO._same_diagonal_model(bad, self.ms[m]), lambda: vIO._same_diagonal_model(self.ms[m], bad), lambda: vIO.save_diagonal_model_to_JSON(os.path.join(self.root, "bad.json"), bad)]
            for i, fn in enumerate(fns):
                got = ctx.call(fn)
                ctx.check(isinstance(got, Raised), "arrays that do not fit the dimensions were accepted", self.case, array=arr, call=i, got=repr(got))


def plans(ctx):
    th = ctx.thorough
    arrs = '{"E", "w", "G1", "G2", "G3", "G4"}'
    base = dict(Kinds='{"full", "diagonal"}', Dims="{<<2, 2>>}", Params="{1}", EditArrays=arrs, MaxModels=2)
    out = []

    def add(label, keep, const, **kw):
        ev = ctx.tlc("Generate", dict(base, **const), spec="Spec", invariants=INVS, label=label, **kw)
        seen, uniq = set(), []
        for e in ev:
            k = json.dumps(e, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(e)
        out.extend(ctx.thin(uniq, keep))
    add("one model and its copy, exhaustive", 700 if not th else 20000, dict(MaxSteps=3, Ops='{"gen", "copy", "edit", "drop", "wipe", "store"}'), properties=["Isolated"])
    add("two changes of a copy, exhaustive", 300 if not th else 20000, dict(Kinds='{"full"}' , EditArrays='{"E", "G2", "G4"}', MaxSteps=4, Ops='{"gen", "copy", "edit", "drop"}'), properties=["Isolated"])
    add("two generated models, exhaustive", 150 if not th else 5000, dict(Dims="{<<2, 3>>, <<3, 2>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 1>>}", Params="{1, 2}", MaxSteps=2, Ops='{"gen", "copy", "store"}'))
    add("long histories", 250 if not th else 4000, dict(Dims="{<<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<3, 3>>}", Params="{1, 2, 3, 4}", MaxModels=4, MaxSteps=12,
        Ops='{"gen", "copy", "edit", "drop", "wipe", "store"}'), simulate=60 if not th else 800, depth=13, workers=1)
    return out


def requests(ctx):
    """generation on its own: every parameter set, sizes up to 30 surfaces, without a requested size"""
    from pibronic.vibronic import vIO
    th = ctx.thorough
    recs, meta = [], []
    sizes = [(1, 1), (1, 6), (2, 3), (4, 1), (3, 5), (10, 7), (30, 3)]
    if th:
        sizes += [(a, n) for a in range(1, 9) for n in range(1, 9)] + [(10, 12), (6, 16), (60, 2)]
    draws = {}
    for k, ((A, N), p, kind) in enumerate(it.product(sizes, PARAMS, ("full", "diagonal"))):
        case = {"request": [A, N, p, kind]}
        if not ctx.want(case):
            continue
        np.random.seed(ctx.seed * 1000 + k)
        random.seed(ctx.seed * 1000 + k)
        for again in range(3 if A < 30 or th else 1):
            model, untouched = generate(ctx, kind, p, (A, N))
            rec = observed(kind, p, model, untouched, [A, A], [N, N])
            recs.append(rec)
            meta.append(case)
            ctx.count("generated model", case, validated=True)
            if rec.get("wellformed") and p < 5:
                full = {**DEFAULT, **PARAMS[p]}
                lo, hi = (x / 1e3 for x in full["energy_range"])
                d = draws.setdefault((p, kind), {"E": [], "G1": []})
                # entries on and off the diagonal are judged apart
                d["E"] += [(x - lo) / (hi - lo) for x in lower(kind, model[key("E")])]
                b = full["linear_scaling"] / 1e4 / model[key("w")]
                d["G1"] += [(x / b[i] + 1) / 2 for i in range(N) for x in lower(kind, model[key("G1")][i])]
    spread, smeta = [], []
    for (p, kind), d in draws.items():
        for name, xs in d.items():
            spread.append({"n": len(xs), "nlow": int(sum(x < 0.2 for x in xs)), "nhigh": int(sum(x > 0.8 for x in xs))})
            smeta.append({"spread": [p, kind, name]})
    # models of random size
    for kind, n in (("full", 5 if not th else 25), ("diagonal", 30 if not th else 150)):
        fn = vIO.create_random_model if kind == "full" else vIO.create_random_diagonal_model
        sizes = []
        for k in range(n):
            case = {"random": [kind, k]}
            if not ctx.want(case):
                continue
            np.random.seed(ctx.seed * 77 + k)
            random.seed(ctx.seed * 77 + k)
            model = ctx.call(fn)
            rec = observed_random(kind, model)
            recs.append(rec)
            meta.append(case)
            ctx.count("model of random size", case, validated=True)
            if rec.get("wellformed"):
                sizes.append((rec["A"], rec["N"]))
            del model
        if n >= 20 and ctx.only_case is None and len(sizes) == n:
            ctx.check(len({a for a, _ in sizes}) > 3 and len({b for _, b in sizes}) > 5, "sizes are not drawn at random", {"random": [kind]}, sizes=sizes)
    for i, clause in ctx.judge("GenerateOps", recs, "VerdictGenerated", label="generated models").items():
        ctx.check(False, clause, meta[i], **{k: v for k, v in recs[i].items() if k not in ("E", "G1")})
    for i, clause in ctx.judge("GenerateOps", spread, "VerdictSpread", label="distribution of the draws").items():
        if ctx.only_case is None:
            ctx.check(False, clause, smeta[i], **spread[i])


def observed_random(kind, model):
    rec = observed(kind, 1, model, True, [2, 10], [2, 20])
    if rec["wellformed"]:
        rec["lin"] = 600 * 100000      # scaling of at most 0.06
    return rec


def run(ctx):
    requests(ctx)
    recs, meta = [], []
    for k, c in enumerate(plans(ctx)):
        case = {"hist": c["hist"]}
        if ctx.give_up:
            break
        if not ctx.want(case):
            continue
        seed = sum(map(ord, json.dumps(c["hist"], sort_keys=True)))
        w = World(ctx, seed)
        # differences from large ones to ones just beyond single precision of the comparison
        w.case, w.delta, w.spoil = case, (0.7, 0.01, 2e-3)[seed % 3], seed // 3
        edits = []
        if all(w.step(h, edits) for h in c["hist"]):
            w.answers(c)
        for rec in w.records:
            recs.append(rec)
            meta.append(case)
        ctx.count(f"{len(w.ms)} models, {'/'.join(sorted(set(w.kinds)))}", case)
        ctx.rmdir(w.root)
    for i, clause in ctx.judge("GenerateOps", recs, "VerdictGenerated", label="generated models in histories").items():
        ctx.check(False, clause, meta[i], **{k: v for k, v in recs[i].items() if k not in ("E", "G1")})
    ctx.assumptions += ["two numbers that differ by less than the relative precision of the comparison (1e-5) count as equal and are not explored",
                        "mode symmetry is not judged where only cubic terms differ between orders of their modes"]
    return {"exhaustive": False}
