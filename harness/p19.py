"""P19 - comparison plots set each result against the references of its own models.  Specification: spec/Comparison.tla"""
import json
import os

from unittest import mock

import matplotlib.axes
import matplotlib.figure
import numpy as np

from .core import Raised

A, N = 2, 1
INVS = ["OneLabelPerFile", "OneResult", "ShownIsOwn", "ShownIsAll", "Emit"]
QUANT = ("Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E", "jk_E error", "jk_Cv", "jk_Cv error")


def temp(T):
    return f"{T / 100:.2f}"


class World:
    def __init__(self, ctx):
        from pibronic.data import file_structure
        from pibronic.plotting import plotting
        from pibronic.vibronic import vIO, VMK
        self.ctx, self.FSC, self.plotting, self.vIO, self.VMK = ctx, file_structure.FileStructure, plotting, vIO, VMK
        self.root = ctx.newdir("comparison")
        self.kB = 1.38064852e-23 / 1.6021766208e-19

    def paths(self, D, R):
        return self.FSC(self.root, D, R)

    def write_vib(self, D, v):
        m = self.vIO.model_zeros_template_json_dict(A, N)
        m[self.VMK.w][:] = 0.1
        m[self.VMK.E][:] = np.diag([0.1, 0.2 + 0.01 * v + D])
        self.vIO.save_model_to_JSON(self.paths(D, 0).path_vib_model, m)

    def write_rho(self, D, R, v):
        m = self.vIO.diagonal_model_zeros_template_json_dict(A, N)
        m[self.VMK.w][:] = 0.1
        m[self.VMK.E][:] = [0.1 + R + 10 * D, 0.2 + 0.01 * v]
        self.vIO.save_diagonal_model_to_JSON(self.paths(D, R).path_rho_model, m)

    def hashed(self, D, R):
        FS = self.paths(D, R)
        FS.generate_model_hashes()
        return FS

    def result(self, x):
        FS = self.hashed(x["D"], x["R"])
        row = {q: x["z"] + i / 16 for i, q in enumerate(QUANT)}
        row["Z error"] = x["z"] / 2
        row.update(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
        with open(os.path.join(FS.path_rho_results, f"P{x['P']}_T{temp(x['T'])}_X{x['X']}_thermo"), "w") as fh:
            json.dump(row, fh)

    def reference(self, x):
        k = x["kind"]
        FS = self.hashed(x["D"], max(x["R"], min(self.Rs)))
        path = {"rho": lambda: FS.path_analytic_rho, "orig": lambda: FS.path_analytic_orig, "sos": lambda: FS.template_sos_vib.format(B=x["B"]),
                "trot": lambda: FS.template_trotter_vib.format(P=x["P"], B=x["B"])}[k]()
        label = {"hash_vib": FS.hash_vib}
        if k == "rho":
            label["hash_rho"] = FS.hash_rho
        old = {}
        if os.path.isfile(path):
            with open(path) as fh:
                old = json.load(fh)
        if any(old.get(a) != b for a, b in label.items()):
            old = {}
        v = x["v"]
        old.update(label)
        old[temp(x["T"])] = {"rho": {"Z_sampling": v, "E_sampling": v + 1}, "orig": {"Z_coupled": v, "E_coupled": v + 1}, "sos": {"Z_coupled": v, "Z_sos": v + 2},
                             "trot": {"Z_trotter": v, "E_trotter": v + 1, "S2_trotter": v + 3}}[k]
        with open(path, "w") as fh:
            json.dump(old, fh)

    def handles(self, hs):
        fs = [self.paths(*h) for h in hs]
        return fs

    def same(self, x, y):
        return (x != x and y != y) or abs(x - y) <= 1e-9 * max(1.0, abs(y))

    def show(self, h):
        c, ck, pl = self.c, self.ctx.check, self.plotting
        fs = self.handles(h["hs"])
        cls = {"multi": "plot_Z_multiple_FS", "ztest": "plot_Z_test", "orig": "plot_original_Z_test",
               "origdiag": "plot_original_Z_vs_diagonal_test", "sos2": "plot_sos_Z_vs_rho_n"}[h["cls"]]
        single = h["cls"] in ("ztest", "orig")

        def go():
            p = getattr(pl, cls)(fs[0] if single else fs)
            p.load_data()
            return p
        p = self.ctx.call(go)
        if h["out"] == "refuse":
            return ck(isinstance(p, Raised), "something is shown although its reference or every result is missing", c, step=h, cls=cls)
        if isinstance(p, Raised):
            return ck(h["out"] == "any", "collecting the data of a plot failed", c, step=h, cls=cls, outcome=repr(p))
        ok = True
        for i, want in enumerate(h["panels"]):
            Ps, Ts, Xs = p.lst_P[i], p.lst_T[i], p.lst_X[i]
            ok &= ck(list(Ps) == sorted(want["Ps"]) and list(Xs) == sorted(want["Xs"]) and [round(t * 100) for t in Ts] == sorted(want["Ts"]),
                     "axes of a plot", c, step=h, cls=cls, panel=i, got=[Ps, Ts, Xs])
            if not ok:
                return False
            arr = p.arr if single else p.arr[i]
            cells = {(x["P"], x["T"], x["X"]): x for x in want["cells"]}
            for a, P in enumerate(Ps):
                for b, T in enumerate(Ts):
                    for d, X in enumerate(Xs):
                        w, g = cells.get((P, round(T * 100), X)), arr[a, b, d]
                        for q_i, q in enumerate(QUANT):
                            y = float("nan") if w is None else w["num"] / w["den"] if q == "Z" else w["err"] / w["den"] if q == "Z error" else w["z"] + q_i / 16
                            ok &= ck(self.same(float(g[q]), y), "values of a plot", c, step=h, cls=cls, panel=i, at=[P, T, X], key=q, got=float(g[q]), want=y)
                            if not ok:
                                return False
        return ok and self.draw(h, p, fs)

    def draw(self, h, p, fs):
        """the drawn curves are the prepared data over the imaginary time steps; only what the drawing code supports (one temperature)"""
        c, ck = self.c, self.ctx.check
        cls, single = h["cls"], h["cls"] in ("ztest", "orig")
        if cls == "multi" or any(len(t) != 1 for t in p.lst_T) or (cls == "sos2" and any(10000 not in x for x in p.lst_X)) or (not single and fs[0].id_data >= 10):
            return True
        tau = lambda i: [1.0 / (self.kB * p.lst_T[i][0] * P) for P in p.lst_P[i]]
        ok = True
        every = ("Z", "E", "Cv") if cls == "ztest" else ("Z",)
        for what, qs in [(f"plot_{q}", (q,)) for q in every] + [("plot", every)]:
            drawn, lines, saved = [], [], []
            want = []
            for i in range(1 if single else len(fs)):
                arr = p.arr if single else p.arr[i]
                Xs = list(range(len(p.lst_X[i]))) if single else [p.lst_X[i].index(10000)] if cls == "sos2" else [len(p.lst_X[i]) - 1]
                want += [(q, (tau(i), arr[:, 0, k][q], arr[:, 0, k][q + " error"])) for q in qs for k in Xs]
            want = [x for q in qs for qq, x in want if qq == q]

            def go():
                with mock.patch.object(matplotlib.axes.Axes, "errorbar", lambda ax, x, y, yerr=None, **kw: drawn.append((np.array(x), np.array(y), np.array(yerr)))), \
                     mock.patch.object(matplotlib.axes.Axes, "axhline", lambda ax, y=0, **kw: lines.append(y)), \
                     mock.patch.object(matplotlib.axes.Axes, "legend", lambda ax, *a, **kw: None), \
                     mock.patch.object(matplotlib.figure.Figure, "savefig", lambda fig, path, *a, **kw: saved.append(path)), matplotlib.rc_context():
                    getattr(p, what)()
            out = self.ctx.call(go)
            if isinstance(out, Raised):
                return ck(False, "drawing failed", c, step=h, cls=cls, what=what, outcome=repr(out))
            same = len(drawn) == len(want) and all(np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True) for d, w in zip(drawn, want) for a, b in zip(d, w))
            ok &= ck(same, "the drawn curves are the prepared data", c, step=h, cls=cls, what=what, got=repr(drawn)[:400], want=repr(want)[:400])
            ok &= ck(all(y == 0 for y in lines), "the reference of a percent deviation is zero", c, step=h, cls=cls, got=lines)
            where = fs[0].path_rho_plots if single else fs[0].path_vib_plots
            ok &= ck(len(set(saved)) == len(saved) == len(qs) and all(os.path.dirname(os.path.abspath(f)) == os.path.abspath(where) for f in saved), "where a plot is saved", c, step=h, cls=cls, got=saved)
        return ok

    def curves(self, h):
        c, ck, pl = self.c, self.ctx.check, self.plotting
        p = self.ctx.call(pl.plot_Z_multiple_FS, self.handles(h["hs"]))
        if isinstance(p, Raised):
            return ck(False, "collecting the data of a plot failed", c, step=h, outcome=repr(p))
        fn, attr = {"rho": (pl.load_analytical_sampling, "analytical_rho_list"), "orig": (pl.load_analytical_original, "analytical_orig_list"),
                    "sos": (pl.load_sos, "sos_list"), "trot": (pl.load_trotter_coupled, "trotter_coupled_list")}[h["kind"]]
        out = self.ctx.call(fn, p, **({"basis_size": h["B"]} if h["kind"] in ("sos", "trot") else {}))
        if h["out"] == "refuse":
            return ck(isinstance(out, Raised), "a reference that is missing or belongs to other models is shown", c, step=h, got=repr(getattr(p, attr, None))[:400])
        if isinstance(out, Raised):
            return ck(h["out"] == "any", "loading the references of a plot failed", c, step=h, outcome=repr(out))
        got = getattr(p, attr)
        ok = ck(len(got) == len(h["hs"]), "references of a plot", c, step=h, got=repr(got)[:400])
        for i, rows in enumerate(h["table"]):
            ok = ok and ck(set(got[i]) == {temp(r["T"]) for r in rows}, "temperatures of the references of a plot", c, step=h, got=sorted(got[i]))
            if not ok:
                return False
            for r in rows:
                g = got[i][temp(r["T"])]
                if h["kind"] == "trot":
                    if not ck(all(len(g[q]) == len(p.lst_P[i]) for q in ("Z_trotter", "E_trotter", "S2_trotter", "SvN_trotter")), "references of a plot", c, step=h, got=repr(g)[:400]):
                        return False
                    k = list(p.lst_P[i]).index(r["P"])
                    v = r["v"] or float("nan")
                    pairs = [(g["Z_trotter"][k], v), (g["E_trotter"][k], v + 1), (g["S2_trotter"][k], v + 3), (g["SvN_trotter"][k], float("nan"))]
                else:
                    pairs = [(g.get({"rho": "Z_sampling"}.get(h["kind"], "Z_coupled")), r["v"])]
                for x, y in pairs:
                    ok &= ck(x is not None and self.same(float(x), y), "references of a plot", c, step=h, panel=i, at=r, got=x, want=y)
        return ok

    def replay(self, hist, handles):
        self.c = {"hist": hist}
        self.Rs = {r for _, r in handles}
        for D, R in handles:
            self.write_vib(D, 1)
            self.write_rho(D, R, 1)
        for h in hist:
            if h["op"] == "edit":
                self.write_vib(h["D"], h["v"])
            elif h["op"] == "editrho":
                self.write_rho(h["D"], h["R"], h["v"])
            elif h["op"] == "result":
                self.result(h)
            elif h["op"] == "reference":
                self.reference(h)
            elif h["op"] in ("fill", "recalc"):
                for x in sorted(h["results"], key=lambda x: -x["z"]):
                    self.result(x)
                for x in h.get("references", ()):
                    self.reference(x)
            elif not (self.show(h) if h["op"] == "show" else self.curves(h)):
                return False
        return True


def plans(ctx):
    th = ctx.thorough
    allk, allc = '{"rho", "orig", "sos", "trot"}', '{"multi", "ztest", "orig", "origdiag", "sos2"}'
    both = '{"show", "curves"}'
    base = dict(Sets="{1}", Rs="{0}", Versions="{1, 2}", Ps="{3}", Ts="{30000}", Xs="{100}", Bs="{80}", Kinds=allk, Classes=allc, Ends=both)
    out = []
    H = lambda sets, rs: [(d, r) for d in sets for r in rs]

    def add(label, handles, keep, const, **kw):
        ev = ctx.tlc("Comparison", dict(base, **const), spec="Spec", invariants=INVS, label=label, **kw)
        groups = {}      # some of each kind: what is asked for, what comes of it, what happened before
        for e in ev:
            last = e["hist"][-1]
            full = max([len(h["references"]) for h in e["hist"] if h["op"] == "fill"], default=0)
            rows = [r for t in last.get("table", []) for r in t] if last.get("kind") == "trot" else []
            gap = [r["v"] > 0 for r in sorted(rows, key=lambda r: r["P"])] if len(rows) == 2 else []      # references of some beads only
            groups.setdefault((*gap, last.get("cls"), last.get("kind"), last["out"], full, "-".join(h["op"] for h in e["hist"] if h["op"] in ("edit", "editrho", "recalc"))), []).append(e)
        ev = ctx.thin(ev, keep)
        for k in sorted(groups, key=str):
            ev += ctx.thin(groups[k], max(2, keep // len(groups)))
        seen = set()
        for e in ev:
            key = json.dumps(e, sort_keys=True)
            if key not in seen:
                seen.add(key)
                out.append((e["hist"], handles))
    add("one data set, exhaustive", H([1], [0]), 80 if not th else 1500, dict(MaxSteps=4 if not th else 5, Ops='{"edit", "editrho", "result", "reference", "show", "curves"}'))
    fill = '{"fill", "edit", "editrho", "result", "reference", "show", "curves"}'
    add("filled, then changed", H([1], [0, 1]), 60 if not th else 600, dict(Rs="{0, 1}", Ps="{3, 12, 30}", Ts="{3000, 30000, 30025}", Xs="{100, 1000}", Bs="{8, 80}", MaxSteps=3, Ops=fill),
        simulate=80 if not th else 600, depth=4, workers=1)
    add("two data sets, filled", H([1, 12], [0, 1]), 70 if not th else 600, dict(Sets="{1, 12}", Rs="{0, 1}", Ps="{3, 30}", Ts="{3000, 30000}", Xs="{100}", Bs="{80}", MaxSteps=4, Ops=fill),
        simulate=80 if not th else 600, depth=5, workers=1)
    add("filled, edited, calculated anew, exhaustive", H([1], [0]), 90 if not th else 1500,
        dict(Ps="{3, 12}", Xs="{100, 1000, 10000}", Bs="{80}", MaxSteps=4, Ops='{"fill", "edit", "editrho", "recalc", "show", "curves"}'))
    add("references of some beads, exhaustive", H([1], [0]), 12 if not th else 200,
        dict(Ps="{3, 12}", Kinds='{"trot"}', Classes='{"multi"}', MaxSteps=4 if not th else 5, Ops='{"result", "reference", "curves"}', Ends='{"curves"}'))
    add("long histories", H([1, 2], [0]), 40 if not th else 400, dict(Sets="{1, 2}", Ps="{3, 12}", Ts="{30000, 100000}", Xs="{100}", MaxSteps=14, Ops='{"fill", "edit", "editrho", "result", "reference", "recalc", "show", "curves"}'),
        simulate=30 if not th else 300, depth=15, workers=1)
    return out


def run(ctx):
    # the stand-in for the program that loads LaTeX on the authors' server
    bindir = ctx.newdir("bin")
    with open(os.path.join(bindir, "modulecmd"), "w") as fh:
        fh.write("#!/bin/sh\necho pass\n")
    os.chmod(os.path.join(bindir, "modulecmd"), 0o755)
    os.environ["PATH"] = bindir + os.pathsep + os.environ["PATH"]
    for hist, handles in plans(ctx):
        if ctx.give_up:
            break
        if not ctx.want({"hist": hist}):
            continue
        w = World(ctx)
        w.replay(hist, handles)
        last = hist[-1]
        ctx.count(f"{last['op']} {last.get('cls', last.get('kind'))} {last['out']}", {"hist": hist})
        ctx.rmdir(w.root)
    ctx.assumptions += ["curves of plots with one temperature are compared, not the look of the drawing", "the unfinished class plot_rectangle is not claimed"]
    return {"exhaustive": False}
