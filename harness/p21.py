"""P21 - drawings of the parameters of models.  Specification: spec/Grids.tla, spec/GridsOps.tla"""
import json
import os
import re
import random
from unittest import mock

import numpy as np

from .core import Raised
from .models import key, shape, vmk

INVS = ["OneFileEach", "Complete", "Emit"]


def content(A, N, arrs, seed, scale=1.0):
    """a coupled model, symmetric, with positive, negative and zero entries"""
    V = vmk()
    rng = random.Random(seed)
    m = {V.A: A, V.N: N, key("w"): np.array([rng.randint(100, 900) / 1e4 for _ in range(N)])}
    for name in ("E", "G1", "G2"):
        arr = np.zeros(shape("full", name, A, N))
        if name in arrs:
            while not arr.any():
                for idx in np.ndindex(arr.shape):
                    arr[idx] = rng.choice((0, rng.randint(1, 20000), -rng.randint(1, 20000), 1, -1)) / 1e4
                arr = np.tril(arr) + np.swapaxes(np.tril(arr, k=-1), -1, -2)
                if name == "G2":
                    for i in range(N):
                        for j in range(i):
                            arr[i, j] = arr[j, i]
        m[key(name)] = arr * scale
    return m


class World:
    def __init__(self, ctx, c, k):
        from pibronic.data import file_structure
        self.ctx, self.A, self.N, self.id = ctx, c["A"], c["N"], c["id"]
        self.root = ctx.newdir("grid")
        self.case = {"hist": c["hist"], "dims": [self.A, self.N], "set": self.id}
        self.FS = file_structure.FileStructure(self.root, self.id, 0)
        self.models, self.obj, self.records = {}, None, []
        self.seed = ctx.seed * 7919 + k
        self.scale = (1.0, 1.0, 1.0, 1e-9, 1e-13)[self.seed % 5]      # entries of all magnitudes

    def draw(self, kind):
        """the figures that are saved, with everything on them"""
        import matplotlib
        import matplotlib.figure
        import matplotlib.pyplot as plt
        figs = []

        def savefig(fig, path, *a, **kw):
            ims = [im for ax in fig.axes for im in ax.images]
            notes = [(t.get_position(), t.get_text()) for ax in fig.axes if ax.images for t in ax.texts]
            figs.append({"path": os.path.abspath(str(path)), "images": [np.array(im.get_array()) for im in ims], "origin": [im.origin for im in ims], "notes": notes,
                         "title": fig._suptitle.get_text() if fig._suptitle is not None else ""})
        name = {"energy": "plot_energy", "linear": "plot_linear_coupling", "quadratic": "plot_quadratic_coupling"}[kind]
        with mock.patch.object(matplotlib.figure.Figure, "savefig", savefig), matplotlib.rc_context():
            out = self.ctx.call(getattr(self.obj, name))
        plt.close("all")
        return out, figs

    def step(self, h):
        from pibronic.plotting import grid_plots
        from pibronic.vibronic import vIO
        ctx, V = self.ctx, vmk()
        if h["op"] in ("vib", "orig", "transform"):
            self.models[h["ver"]] = content(self.A, self.N, h["arrs"], self.seed + h["ver"], self.scale)
            if h["op"] == "transform":
                vIO.save_model_to_JSON(self.FS.path_orig_model, self.models[h["from"]])
            vIO.save_model_to_JSON(self.FS.path_orig_model if h["op"] == "orig" else self.FS.path_vib_model, self.models[h["ver"]])
        elif h["op"] == "sampling":
            A = {"none": 0, "same": self.A, "more": self.A + 1, "fewer": max(1, self.A - 1)}[h["s"]]
            if A == 0:
                os.remove(self.FS.path_rho_model)
            else:
                N = self.N
                vIO.save_diagonal_model_to_JSON(self.FS.path_rho_model, {V.A: A, V.N: N, key("w"): np.full(N, 0.03), key("E"): np.ones(A)})
        elif h["op"] == "load":
            # the same object can be loaded again
            obj = self.obj if self.obj is not None and h["out"] == "ok" and self.seed % 2 else grid_plots.plotGrids(self.FS)
            out = ctx.call(obj.load_data)
            if not ctx.check(isinstance(out, Raised) == (h["out"] == "refused"), "reading the two models", self.case, expected=h["out"], got=repr(out)):
                return False
            if not isinstance(out, Raised):
                self.obj = obj
        else:
            if self.obj is None:
                return True
            out, figs = self.draw(h["kind"])
            if h["out"] == "refused":
                return ctx.check(isinstance(out, Raised) and not figs, "grids of parameters that are all zero", self.case, kind=h["kind"], got=repr(out), files=[os.path.basename(f["path"]) for f in figs])
            if not ctx.check(not isinstance(out, Raised), "the grids could not be drawn", self.case, kind=h["kind"], got=repr(out)):
                return False
            got, wanted = {}, {os.path.join(os.path.abspath(self.FS.path_vib_plots), x["file"]): x for x in h["drawn"]}
            for f in figs:
                got.setdefault(f["path"], []).append(f)
            if not ctx.check(sorted(f["path"] for f in figs) == sorted(wanted), "which grids are drawn", self.case, kind=h["kind"], missing=sorted(os.path.basename(p) for p in set(wanted) - set(got)),
                             more=sorted(os.path.basename(p) for p in set(got) - set(wanted)), drawn=len(figs)):
                return False
            for path, x in wanted.items():
                f = got[path][0]
                arr = self.models[x["ver"]][key(x["arr"])]
                for m in x["modes"]:
                    arr = arr[m - 1]
                self.records.append(self.record(f, arr, x))
        return True

    def record(self, f, arr, x):
        q = lambda z: int(max(-2e9, min(2e9, round(float(z) / self.scale * 1e4))))
        grid = lambda g: [[q(z) for z in row] for row in g]
        rec = {"A": self.A, "N": self.N, "id": self.id, "modes": x["modes"], "entry": grid(arr), "single": len(f["images"]) == 1 and f["images"][0].ndim == 2, "file": x["file"]}
        if rec["single"]:
            img = f["images"][0]
            rec["image"] = grid(img)
            rec["notes"] = [[int(round(p[0])), int(round(p[1])), t] for p, t in f["notes"]]
            t = f["title"]
            m = re.search(r"Data Set (\d+) - (\d+) surfaces (\d+) normal modes", t)
            rec["titled"] = [int(g) for g in m.groups()] if m else []
            m = re.search(r"\(Modes? (\d+)\)", t)
            digits = m.group(1) if m else ""
            # the numbers of two modes stand next to each other
            ok = digits == "".join(str(k) for k in x["modes"]) and ("riginal" in t) == (x["which"] == 1) and ("oupled" in t) == (x["which"] == 2)
            rec["titlemodes"] = x["modes"] if ok else [-1]
        return rec


def plans(ctx):
    th = ctx.thorough
    base = dict(Dims="{<<2, 2>>}", Sets="{1}", Patterns='{{"E", "G1", "G2"}}', Samplings='{"same", "more"}', Ends='{"plot"}')
    out = []

    def add(label, keep, const, pick=lambda h: True, **kw):
        ev = ctx.tlc("Grids", dict(base, **const), spec="Spec", invariants=INVS, properties=[] if "simulate" in kw else ["OnlyLoaded"], label=label, **kw)
        seen, uniq = set(), []
        for e in ev:
            k = json.dumps(e, sort_keys=True)
            if k not in seen and pick(e["hist"]):
                seen.add(k)
                uniq.append(e)
        out.extend(ctx.thin(uniq, keep))
    def reread(h):
        """something changed between two successful readings"""
        ops = [x["op"] if x["op"] != "load" or x["out"] == "ok" else "-" for x in h]
        return ops.count("load") == 2 and any(o in ("vib", "orig", "transform") for o in ops[ops.index("load"):len(ops) - ops[::-1].index("load")])
    drawn = lambda h: h[-1]["out"] == "ok"
    add("two files, one loading, exhaustive", 80 if not th else 3000, dict(MaxSteps=5), drawn)
    add("arrays that are zero, exhaustive", 60 if not th else 3000,
        dict(Dims="{<<3, 1>>}", MaxSteps=4, Samplings="{}", Patterns='{{"E"}, {"G1"}, {"G2"}, {"E", "G1"}, {"E", "G2"}, {"G1", "G2"}, {"E", "G1", "G2"}}'), lambda h: [x["op"] for x in h].count("load") == 1)
    add("dimensions", 40 if not th else 1500, dict(Dims="{<<1, 1>>, <<1, 3>>, <<2, 4>>, <<3, 2>>, <<4, 3>>, <<6, 2>>}", Sets="{0, 11, 110}", MaxSteps=4, Samplings='{}'), drawn)
    for kind, keep in (("linear", 4), ("quadratic", 2)):
        add(f"more than ten modes, {kind}", keep if not th else 40, dict(Dims="{<<1, 12>>, <<2, 11>>}", Sets="{3}", MaxSteps=4, Samplings='{}'), lambda h: drawn(h) and h[-1]["kind"] == kind)
    add("loading again", 12 if not th else 400, dict(MaxSteps=6, Samplings="{}"), lambda h: drawn(h) and reread(h))
    add("long histories", 40 if not th else 1500, dict(Dims="{<<3, 2>>, <<2, 11>>, <<2, 3>>}", Sets="{3, 12}", MaxSteps=12, Samplings='{"none", "same", "more", "fewer"}',
        Patterns='{{"E", "G1"}, {"E", "G2"}, {"E", "G1", "G2"}}'), lambda h: len(h) > 6 and any(x["op"] == "plot" and x["out"] == "ok" for x in h), simulate=40 if not th else 600, depth=13, workers=1)
    return out


def run(ctx):
    # the stand-in for the program that loads LaTeX on the authors' server
    bindir = ctx.newdir("bin")
    with open(os.path.join(bindir, "modulecmd"), "w") as fh:
        fh.write("#!/bin/sh\necho pass\n")
    os.chmod(os.path.join(bindir, "modulecmd"), 0o755)
    os.environ["PATH"] = bindir + os.pathsep + os.environ["PATH"]
    recs, meta = [], []
    for k, c in enumerate(plans(ctx)):
        if ctx.give_up:
            break
        case = {"hist": c["hist"], "dims": [c["A"], c["N"]], "set": c["id"]}
        if not ctx.want(case):
            continue
        w = World(ctx, c, sum(map(ord, json.dumps(c["hist"], sort_keys=True))))
        all(w.step(h) for h in c["hist"])
        recs += w.records
        meta += [case] * len(w.records)
        last = c["hist"][-1]
        ctx.count(f"{last['kind']} {last['out']}", case)
        ctx.rmdir(w.root)
    for r in recs:
        ctx.count("grid", None, validated=True)
    for i, clause in ctx.judge("GridsOps", recs, "VerdictGrid", label="grids").items():
        ctx.check(False, clause, meta[i], **{k: v for k, v in recs[i].items()})
    ctx.assumptions += ["models are symmetric in their surfaces (the signs are written at transposed places)", "colour scale, labels and the rendering by LaTeX are not judged"]
    return {"exhaustive": False}
