"""P09 - stored results of external calculations.  Specification: spec/Cache.tla

The external program is replaced by a script called `julia` that is first on PATH: it records its arguments,
waits until it is released and then prints what the behaviour prescribes."""
import json
import os
import resource
import signal
import stat
import threading
import time

import numpy as np

from .core import Raised

D = 5
SCRIPT = """#!/bin/sh
d=$(dirname "$0")
ulimit -S -f unlimited
case "$1" in
  -v) echo "julia version 1.0.0"; exit 0;;
  -e) printf '%s' "$d/toolkit/src/VibronicToolkit.jl"; exit 0;;
esac
id=$(cat "$d/current")
for a in "$@"; do printf '%s\\n' "$a"; done > "$d/$id.args"
: > "$d/$id.started"
while [ ! -e "$d/$id.go" ]; do sleep 0.003; done
cat "$d/$id.out"
cat "$d/$id.err" >&2
rc=$(cat "$d/$id.rc")
case "$rc" in -*) kill $rc $$; sleep 5;; esac
exit $rc
"""
QUANT = ("Z", "E", "Cv", "SvN", "S2")


class World:
    def __init__(self, ctx, name):
        from pibronic import constants, julia_wrapper
        from pibronic.data import file_structure, postprocessing
        from pibronic.vibronic import vIO, VMK
        self.ctx, self.jw, self.const, self.FSC, self.pp, self.vIO, self.VMK = ctx, julia_wrapper, constants, file_structure.FileStructure, postprocessing, vIO, VMK
        self.root = os.path.join(ctx.newdir("cache"), name)
        os.makedirs(self.root)
        self.fake = ctx.newdir("fake")
        path = os.path.join(self.fake, "julia")
        with open(path, "w") as fh:
            fh.write(SCRIPT)
        os.chmod(path, stat.S_IRWXU)
        self.token, self.threads = {}, {}

    def paths(self, R=0):
        return self.FSC(self.root, D, R)

    def write_vib(self, v):
        m = self.vIO.model_zeros_template_json_dict(2, 1)
        m[self.VMK.w][:] = 0.1
        m[self.VMK.E][:] = np.diag([0.1, 0.2 + 0.01 * v])
        FS = self.paths()
        self.vIO.save_model_to_JSON(FS.path_vib_model, m)
        self.vIO.save_model_to_JSON(FS.path_orig_model, m)

    def write_rho(self, r, v):
        m = self.vIO.diagonal_model_zeros_template_json_dict(2, 1)
        m[self.VMK.w][:] = 0.1
        m[self.VMK.E][:] = [0.1, 0.2 + 0.01 * v]
        self.vIO.save_diagonal_model_to_JSON(self.paths(r).path_rho_model, m)

    def dst(self, k):
        FS = self.paths(k[1] if k[0] == "rho" else 0)
        return {"rho": lambda: FS.path_analytic_rho, "orig": lambda: FS.path_analytic_orig, "sos": lambda: FS.template_sos_vib.format(B=k[1]),
                "trotter": lambda: FS.template_trotter_vib.format(P=k[1], B=k[2])}[k[0]]()

    def suffix(self, k):
        return {"rho": "analytical", "orig": "analytical"}.get(k[0], k[0])

    # ---- operations
    def start(self, h):
        id_, k, T = str(h["id"]), h["k"], h["t"] / 100
        beta = float(self.const.beta(T))
        FS = self.paths(k[1] if k[0] == "rho" else 0)
        FS.generate_model_hashes()
        with open(os.path.join(self.fake, "current"), "w") as fh:
            fh.write(id_)
        fn = {"rho": lambda: self.jw.analytic_of_sampling_model(FS, beta), "orig": lambda: self.jw.analytic_of_original_coupled_model(FS, beta),
              "sos": lambda: self.jw.sos_of_coupled_model(FS, k[1], beta), "trotter": lambda: self.jw.trotter_of_coupled_model(FS, k[1], k[2], beta)}[k[0]]
        if (h["id"] + h["t"] + len(self.c["hist"])) % 3 == 0:
            # the same through the function that selects the method
            kw = {"rho": dict(id_rho=k[1] if k[0] == "rho" else 0, method="analytical_sampling"), "orig": dict(method="analytical_original"), "sos": dict(method="sos"), "trotter": dict(method="trotter_coupled")}[k[0]]
            if k[0] in ("sos", "trotter"):
                kw["basis_size"] = k[-1]
            if k[0] == "trotter":
                kw["beads"] = k[1]
            fn = lambda: self.jw.main(path=self.root, id_data=D, temperature=T, **kw)
        box = {}

        def go():
            try:
                box["out"] = fn()
            except BaseException as e:
                box["out"] = Raised(e)
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t0 = time.time()
        while not os.path.exists(os.path.join(self.fake, id_ + ".started")) and t.is_alive() and time.time() - t0 < 30:
            time.sleep(0.001)
        if not os.path.exists(os.path.join(self.fake, id_ + ".started")):
            return self.ctx.check(False, "the external program is not started", self.c, step=h, outcome=repr(box.get("out")))
        with open(os.path.join(self.fake, id_ + ".args")) as fh:
            args = fh.read().splitlines()
        opts = {a: args[i + 1] if i + 1 < len(args) else None for i, a in enumerate(args) if a.startswith("--")}
        want = {"--conf": {"rho": FS.path_rho_model, "orig": FS.path_orig_model}.get(k[0], FS.path_vib_model)}
        if k[0] in ("sos", "trotter"):
            want["--basis-size"] = str(k[-1])
        if k[0] == "trotter":
            want["--num-links"] = str(k[1])
        ok = all(opts.get(a) == b for a, b in want.items())
        try:
            ok = ok and abs(float(opts["--beta"]) - beta) <= 1e-9 * beta and abs(beta * T * float(self.const.boltzman) - 1) < 1e-9
        except (KeyError, ValueError, TypeError):
            ok = False
        name = {"rho": "analytical", "orig": "analytical"}.get(k[0], k[0])
        ok = ok and args and os.path.basename(args[0]) == name + ".jl"
        # the coupling of the original model has to be switched off, the sampling model has none
        if k[0] == "orig":
            ok = ok and "--uncoupled" in opts
        self.threads[h["id"]] = (t, box, h)
        return self.ctx.check(bool(ok), "the external program gets the right model and parameters", self.c, step=h, got=args, want=want)

    def finish(self, h):
        id_ = str(h["id"])
        t, box, s = self.threads.pop(h["id"])
        o, k = h["o"], h["k"]
        suf = self.suffix(k)
        lines = [f"{q}_{suf}: {h['id'] + i / 8}" for i, q in enumerate(QUANT)] + [f"beta: {float(self.const.beta(s['t'] / 100))}"]
        text, err, rc = "\n".join(lines) + "\n", "", 0
        if o == "ok3":
            text = "\n".join(lines[:3]) + "\n\n"
            err = "WARNING: something deprecated\n"
        elif o == "killed":
            text, err, rc = "", "Killed\n", 137
        elif o == "signal":
            text, rc = "\n".join(lines[:2]) + "\n", -9
        elif o == "cut":
            text = "\n".join(lines[:2]) + "\n" + lines[2].split(" ")[0]
        elif o == "empty":
            text = ""
        elif o == "garbage":
            text = "ERROR LoadError\n" + lines[0] + "\n"
        elif o == "partial":
            text, err, rc = "\n".join(lines[:2]) + "\n", "ERROR: LoadError: OutOfMemoryError()\n", 1
        for ext, val in (("out", text), ("err", err), ("rc", str(rc))):
            with open(os.path.join(self.fake, f"{id_}.{ext}"), "w") as fh:
                fh.write(val)
        before = self.snapshot()
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        with open(os.path.join(self.fake, id_ + ".go"), "w"):
            pass
        try:
            if o == "full":
                resource.setrlimit(resource.RLIMIT_FSIZE, (40, hard))
            t.join(30)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if t.is_alive():
            return self.ctx.check(False, "a calculation did not end", self.c, step=h)
        out, after = box.get("out"), self.snapshot()
        me = self.dst(k)
        failed = o in ("killed", "signal", "empty", "garbage", "cut", "partial", "full")
        if failed:
            ok = self.ctx.check(isinstance(out, Raised), "a failing calculation is reported", self.c, step=h, outcome=repr(out))
            rest = {p: v for p, v in after.items() if v != before.get(p) and not (p not in before and v == "")}
            gone = [p for p in before if p not in after]
            return self.ctx.check(not [p for p in rest if p in before or p == me] and not gone, "a failing calculation leaves the stored results as they were", self.c, step=h, changed=list(rest), gone=gone) and ok
        if isinstance(out, Raised):
            return self.ctx.check(False, "storing the results of a calculation failed", self.c, step=h, outcome=repr(out))
        others = [p for p in before if p != me and after.get(p) != before[p]]
        return self.ctx.check(not others, "results of other calculations stay as they were", self.c, step=h, changed=others) and self.compare(k, h["after"], h)

    def snapshot(self):
        d = {}
        for base, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(base, f)
                with open(p, errors="replace") as fh:
                    d[p] = fh.read()
        return d

    def compare(self, k, want, h):
        c, ck = self.c, self.ctx.check
        try:
            with open(self.dst(k)) as fh:
                got = json.load(fh)
        except (OSError, ValueError) as e:
            return ck(False, "stored results can be read", c, step=h, outcome=repr(e))
        entries = {t: v for t, v in got.items() if isinstance(v, dict)}
        exp = {f"{t / 100:.2f}": i for t, i in want["e"]}
        ok = ck(set(entries) == set(exp), "temperatures with stored results", c, step=h, got=sorted(entries), want=sorted(exp))
        if not ok:
            return False
        for T, i in exp.items():
            e = entries[T]
            n = 3 if self.outcome[i] == "ok3" else 5
            for j, q in enumerate(QUANT[:n]):
                vals = [v for kk, v in e.items() if kk.split("_")[0] == q]
                ok &= ck(vals == [i + j / 8], "stored values", c, step=h, T=T, quantity=q, got=vals, want=i + j / 8)
        ok &= ck(self.ident("vib", want["hv"], got.get("hash_vib")), "results are labelled with the coupled model", c, step=h, got=got.get("hash_vib"))
        if k[0] == "rho":
            ok &= ck(self.ident("rho", want["hr"], got.get("hash_rho")), "results are labelled with the sampling model", c, step=h, got=got.get("hash_rho"))
        return ok

    def ident(self, kind, version, value):
        old = self.token.setdefault((kind, version), value)
        return old == value and isinstance(value, str) and value != "" and all(x != value for (k, v), x in self.token.items() if k == kind and v != version)

    def replay(self, plan):
        self.c = {"hist": plan["hist"]}
        self.outcome = {h["id"]: h["o"] for h in plan["hist"] if h["op"] == "finish"}
        for h in plan["hist"]:
            op = h["op"]
            if op == "init":
                self.write_vib(1)
                for r in sorted({x["k"][1] for x in plan["hist"] if x["op"] == "start" and x["k"][0] == "rho"} | {x["r"] for x in plan["hist"] if x["op"] == "editrho"} | {0}):
                    self.write_rho(r, 1)
            elif op == "editvib":
                self.write_vib(h["v"])
            elif op == "editrho":
                self.write_rho(h["r"], h["v"])
            elif op == "start":
                if not self.start(h):
                    return False
            elif op == "finish":
                if not self.finish(h):
                    return False
        # what the analysis makes of the stored reference: current models and temperature, or a refusal
        rho = dict(map(tuple, plan["rho"]))
        for k, f in plan["files"]:
            if not self.compare(k, f, {"op": "end"}):
                return False
            if k[0] != "rho":
                continue
            FS = self.paths(k[1])
            FS.generate_model_hashes()
            current = f["hv"] == plan["vib"] and f["hr"] == rho[k[1]]
            have = {t for t, _ in f["e"]}
            for t in sorted(have | {29999, 30000}):
                box = {}
                out = self.ctx.call(self.pp.load_analytic_data, FS, t / 100, box)
                if not (current and t in have):
                    self.ctx.check(isinstance(out, Raised), "reference data of other models or temperatures is refused", self.c, at=t, got=box)
                else:
                    ident = [i for tt, i in f["e"] if tt == t][0]
                    good = not isinstance(out, Raised) and [box.get("Z"), box.get("E"), box.get("Cv")] == [ident, ident + 0.125, ident + 0.25]
                    self.ctx.check(good, "stored reference data can be used by the analysis", self.c, outcome=out.kind + " " + out.msg if isinstance(out, Raised) else "other values")
        return True


def iterations(ctx, base):
    """the decomposition of the coupled model is asked for with the files of that data set, and nothing else is touched"""
    for i, (name, N, through) in enumerate([("root", None, False), ("a b", 7, False), ("it's", 50, False), ("x{1}", None, True), ("root", 123, False)]):
        case = {"iteration": i}
        if not ctx.want(case):
            continue
        w = World(ctx, name)
        w.c = case
        os.environ["PATH"] = w.fake + os.pathsep + base
        w.write_vib(1)
        w.write_rho(0, 1)
        for ext, val in (("out", "done: 1\n"), ("err", ""), ("rc", "0"), ("go", "")):
            with open(os.path.join(w.fake, "it." + ext), "w") as fh:
                fh.write(val)
        with open(os.path.join(w.fake, "current"), "w") as fh:
            fh.write("it")
        FS = w.paths()
        before = w.snapshot()
        out = ctx.call((lambda: w.jw.main(path=w.root, id_data=D)) if through else (lambda: w.jw.iterate_method(FS) if N is None else w.jw.iterate_method(FS, N)))
        if not ctx.check(not isinstance(out, Raised) and os.path.exists(os.path.join(w.fake, "it.args")), "the decomposition of a model is run", case, outcome=repr(out)):
            continue
        with open(os.path.join(w.fake, "it.args")) as fh:
            args = fh.read().splitlines()
        opts = {a: args[i + 1] if i + 1 < len(args) else None for i, a in enumerate(args) if a.startswith("--")}
        want = {"--conf": FS.path_vib_model, "--out-conf": FS.path_iter_model, "--out-vs": FS.path_iter_mat, "--max-iter": str(N or 50)}
        ctx.check(all(opts.get(k) == v for k, v in want.items()), "the external program gets the right model and parameters", case, got=args, want=want)
        ctx.check(w.snapshot() == before, "the decomposition leaves the stored files as they were", case)
        ctx.count("decomposition", case)
        ctx.rmdir(os.path.dirname(w.root))
        ctx.rmdir(w.fake)


INVS = ["EntriesAreResults", "Emit"]
PROPS = ["FailuresChangeNothing", "KeptForSameModels"]


def plans(ctx):
    th = ctx.thorough
    out = []
    one = dict(Kinds='{<<"rho", 0>>}', Temps="{30000, 29999}", Versions="{1, 2}", MaxCalc=3, MaxSteps=6, MaxRunning=1, Outcomes='{"ok", "partial", "full"}')
    ex = ctx.tlc("Cache", one, spec="Spec", invariants=INVS, properties=PROPS, label="one file, exhaustive")
    out += ctx.thin(ex, 70 if not th else 3000)
    every = ('{"ok", "ok3", "killed", "signal", "empty", "garbage", "cut", "partial", "full"}')
    ex = ctx.tlc("Cache", dict(Kinds='{<<"sos", 8>>, <<"sos", 80>>, <<"trotter", 8, 80>>, <<"orig">>, <<"rho", 1>>}', Temps="{30000}", Versions="{1}", MaxCalc=2, MaxSteps=3, MaxRunning=2, Outcomes=every),
                 spec="Spec", invariants=INVS, properties=PROPS, label="two calculations, all kinds and outcomes")
    out += ctx.thin(ex, 90 if not th else 3000)
    ex = ctx.tlc("Cache", dict(Kinds='{<<"rho", 0>>}', Temps="{513, 25009}", Versions="{1, 2}", MaxCalc=2, MaxSteps=5, MaxRunning=2, Outcomes='{"ok"}'),
                 spec="Spec", invariants=INVS, properties=PROPS, label="overlapping calculations")
    out += ctx.thin(ex, 60 if not th else 3000)
    big = dict(Kinds='{<<"rho", 0>>, <<"rho", 1>>, <<"orig">>, <<"sos", 8>>, <<"trotter", 12, 8>>}', Temps="{113, 25003, 29999, 30000, 30050, 112345}", Versions="{1, 2, 3}", MaxCalc=9, MaxSteps=22, MaxRunning=3, Outcomes=every)
    sim = ctx.tlc("Cache", big, spec="Spec", invariants=INVS, simulate=40 if not th else 600, depth=26, workers=1, label="long histories")
    sim = [p for p in sim if len(p["hist"]) >= 12]
    out += ctx.thin(sim, 40 if not th else 1500)
    return out


def run(ctx):
    os.environ["PATH"] = "/nonexistent" + os.pathsep + os.environ["PATH"]
    base = os.environ["PATH"]
    names = ["root", "a b", "it's", "x{1}"]
    iterations(ctx, base)
    for i, plan in enumerate(plans(ctx)):
        if ctx.give_up:
            break
        if not ctx.want({"hist": plan["hist"]}):
            continue
        w = World(ctx, names[i % 4] if i % 3 == 0 else "root")
        os.environ["PATH"] = w.fake + os.pathsep + base
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            w.replay(plan)
        for t, _, _ in w.threads.values():       # do not leave anything waiting
            for id_ in list(w.threads):
                for ext, val in (("out", ""), ("err", ""), ("rc", "1")):
                    open(os.path.join(w.fake, f"{id_}.{ext}"), "w").write(val)
                open(os.path.join(w.fake, f"{id_}.go"), "w").close()
            t.join(5)
        ctx.count("history", {"hist": plan["hist"]})
        ctx.rmdir(os.path.dirname(w.root))
        ctx.rmdir(w.fake)
    return {"exhaustive": True}
