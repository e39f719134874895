"""replays histories of spec/Provenance.tla into the real code (P05, P18)"""
import json
import os

import numpy as np

from .core import Raised

A, N, D = 2, 1, 7
DB = 2.0e-4


class World:
    """one data set on disk; executes the operations of a history with the real code"""

    def __init__(self, ctx, clauses):
        from pibronic.data import file_structure, postprocessing
        from pibronic.pimc import pimc
        from pibronic.stats import stats
        from pibronic.vibronic import vIO, VMK
        self.ctx, self.on = ctx, clauses
        self.FSC, self.pp, self.pimc, self.stats, self.vIO, self.VMK = file_structure.FileStructure, postprocessing, pimc, stats, vIO, VMK
        self.root = ctx.newdir("prov")
        self.jobs, self.files, self.values, self.token = {}, {}, {}, {}

    # contents -----------------------------------------------------------------
    def paths(self, R):
        return self.FSC(self.root, D, R)

    style = 0

    def differing(self, a, b, v):
        """how the contents of two versions differ: by a value, by the order of values, by a sign, by the last digits"""
        if v == 1:
            return a, b
        return {0: (a, b + v * 1e-3), 1: (b, a), 2: (a, -b), 3: (a, b * (1 + 2.0 ** -50)), 4: (b, b)}[self.style]

    def write_vib(self, v, R):
        m = self.vIO.model_zeros_template_json_dict(A, N)
        m[self.VMK.w][:] = 0.1
        m[self.VMK.E][:] = np.diag([0.1, 0.2])
        a, b = self.differing(0.03, 0.02, v)
        m[self.VMK.G1][0] = [[a, 0.01], [0.01, b]]
        self.vIO.save_model_to_JSON(self.paths(R).path_vib_model, m)

    def write_rho(self, v, R):
        m = self.vIO.diagonal_model_zeros_template_json_dict(A, N)
        m[self.VMK.w][:] = 0.1
        m[self.VMK.E][:] = self.differing(0.1, 0.2, v)
        m[self.VMK.G1][0] = [0.03, 0.02]
        self.vIO.save_diagonal_model_to_JSON(self.paths(R).path_rho_model, m)

    def ident(self, kind, version, value, h):
        """identities: equal for equal contents, different for different ones"""
        old = self.token.setdefault((kind, version), value)
        ok = old == value and all(val != value for (k, v), val in self.token.items() if k == kind and v != version)
        return ok and isinstance(value, str) and value != ""

    # one history ----------------------------------------------------------------
    def run(self, h):
        c = self.c
        ck = self.ctx.check
        call = self.ctx.call
        op = h["op"]
        if op == "init":
            self.Rs = self.all_R
            for R in self.Rs:
                self.write_vib(h["v"], R)
                self.write_rho(h["v"], R)
            self.FS = self.paths(h["R"])
            return True
        if op == "editvib":
            self.write_vib(h["v"], self.Rs[0])
        elif op == "editrho":
            self.write_rho(h["v"], h["R"])
        elif op == "switch":
            out = call(self.FS.change_rho, h["R"])
            return ck(not isinstance(out, Raised), "switching the sampling model failed", c, outcome=repr(out))
        elif op == "new":
            self.FS = self.paths(h["R"])
        elif op == "hash":
            out = call(self.FS.generate_model_hashes, **({"force_flag": True} if h["force"] else {}))
            if isinstance(out, Raised):
                return ck(False, "taking the identities failed", c, outcome=repr(out))
            return self.identities(h["hv"], h["hr"], h)
        elif op == "start":
            return self.start(h)
        elif op == "finish":
            return self.finish(h)
        elif op == "reference":
            FS = self.paths(h["R"])
            FS.generate_model_hashes()
            table = {f"{T / 100:.2f}": self.exact(T) for T in self.temps}
            table.update(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
            with open(FS.path_analytic_rho, "w") as fh:
                json.dump(table, fh)
        elif op == "deposit":
            FS = self.paths(h["R"])
            FS.generate_model_hashes()
            self.count += 1
            row = {k: self.count + i / 8 for i, k in enumerate(("Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E", "jk_E error", "jk_Cv", "jk_Cv error"))}
            row.update(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
            with open(os.path.join(FS.path_rho_results, f"P{h['P']}_T{h['T'] / 100:.2f}_X{h['X']}_thermo"), "w") as fh:
                json.dump(row, fh)
            self.analysed[(h["R"], h["P"], h["T"], h["X"])] = row
            return True
        elif op == "pool":
            return self.pool(h)
        elif op == "analyse":
            return self.analyse(h)
        elif op == "plot":
            return self.plot(h)
        return True

    def identities(self, hv, hr, h):
        FS, c = self.FS, self.c
        ok = self.ctx.check(self.ident("vib", hv, getattr(FS, "hash_vib", None), h), "identity of the coupled model", c, step=h, got=getattr(FS, "hash_vib", None), known=self.short())
        return self.ctx.check(self.ident("rho", hr, getattr(FS, "hash_rho", None), h), "identity of the sampling model", c, step=h, got=getattr(FS, "hash_rho", None), known=self.short()) and ok

    def short(self):
        return {f"{k}{v}": str(x)[:12] for (k, v), x in self.token.items()}

    def start(self, h):
        S, c = self.pimc.SEP, self.c
        params = {S.X.value: h["X"], S.nBlk.value: 1, S.A.value: A, S.P.value: h["P"], S.N.value: N, S.T.value: h["T"] / 100,
                  S.BlkS.value: h["X"], S.D.value: D, S.R.value: h["R"], S.dB.value: DB, "path_root": self.root}

        def go():
            text = self.pimc.BoxDataPM.json_serialize(params)
            if h["id"] % 3 == 0:        # parameters from a file
                where = os.path.join(self.root, "parameters.json")
                with open(where, "w") as fh:
                    fh.write(text)
                data = self.pimc.BoxDataPM.from_json_file(where)
            else:
                data = self.pimc.BoxDataPM.from_json_string(text)
            data.preprocess()
            # the object that takes the results is made right away by some jobs, at the end by others
            return data, self.result_of(h, data) if h["id"] % 2 else None
        out = self.ctx.call(go)
        if isinstance(out, Raised):
            return self.ctx.check(False, "starting a job failed", c, step=h, outcome=repr(out))
        self.jobs[h["id"]] = (h, *out)
        return True

    def result_of(self, h, data):
        res = self.pimc.BoxResultPM(data=data)
        res.path_root = self.paths(h["R"]).path_rho_results
        res.id_job = str(h["J"])
        return res

    def finish(self, h):
        s, data, res = self.jobs.pop(h["id"])
        c = self.c
        out = self.ctx.call(lambda: self.pimc.block_compute_pm(data, res or self.result_of(s, data)))
        if isinstance(out, Raised):
            return self.ctx.check(False, "running a job failed", c, step=h, outcome=repr(out))
        path = os.path.join(self.paths(s["R"]).path_rho_results, f"P{s['P']}_T{s['T'] / 100:.2f}_J{s['J']}_data_points.npz")
        if not self.ctx.check(os.path.isfile(path), "a job left no result file", c, step=h, want=path):
            return False
        with np.load(path) as f:
            keys = set(f.keys())
            if not self.ctx.check({"hash_vib", "hash_rho", "number_of_samples", "s_rho", "s_g", "s_gP", "s_gM"} <= keys, "a result file is incomplete", c, step=h, got=sorted(keys)):
                return False
            vals = np.stack([f[k] for k in ("s_rho", "s_g", "s_gP", "s_gM")], axis=1)
            hv, hr = str(f["hash_vib"]), str(f["hash_rho"])
            ns = int(f["number_of_samples"])
        ok = self.ctx.check(vals.shape == (s["X"], 4) and ns == s["X"] and bool(np.all(np.isfinite(vals))), "samples of a job", c, step=h, got=vals)
        ok &= self.ctx.check(self.ident("vib", h["hv"], hv, h) and self.ident("rho", h["hr"], hr, h), "a result is labelled with the models it was calculated with", c, step=h,
                             got=[hv[:12], hr[:12]], known=self.short())
        self.values[h["id"]] = vals
        for k, p in list(self.files.items()):
            if p == path:
                del self.files[k]
        self.files[h["id"]] = path
        return ok

    @staticmethod
    def exact(T):
        """the exact values of the sampling model at one temperature, no two of them alike"""
        x = T / 2.0 ** 20
        return {"Z_sampling": 2.0 + x, "E_sampling": 0.25 + x, "Cv_sampling": 0.5 + x, "Z_sampling+beta": 1.0 + x, "Z_sampling-beta": 4.0 + 3 * x}

    def rows_of(self, ids):
        return np.concatenate([self.values[i] for i in ids]) if ids else np.zeros((0, 4))

    @staticmethod
    def same_rows(a, b):
        return a.shape == b.shape and np.array_equal(a[np.lexsort(a.T)], b[np.lexsort(b.T)])

    def pool(self, h):
        res = self.pimc.BoxResultPM()
        out = self.ctx.call(self.pp.load_pimc_data, self.FS, h["P"], h["T"] / 100, res)
        if not h["ids"]:
            return self.ctx.check(isinstance(out, Raised), "data was pooled although no result of these models exists", self.c, step=h, got=getattr(res, "scaled_rho", None))
        if isinstance(out, Raised):
            return self.ctx.check(False, "pooling failed", self.c, step=h, outcome=repr(out))
        got = np.stack([res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus], axis=1)
        return self.ctx.check(self.same_rows(got, self.rows_of(h["ids"])) and int(res.samples) == len(got), "pooled samples are those of the object's models", self.c, step=h,
                              got=self.who(got), samples=int(res.samples))

    def who(self, rows):
        out = []
        for r in rows:
            out.append(next((i for i, v in self.values.items() if any(np.array_equal(r, x) for x in v)), "?"))
        return out

    def thermo_dir(self):
        d = {}
        for R in self.Rs:
            p = self.paths(R).path_rho_results
            for f in sorted(os.listdir(p)):
                if f.endswith("thermo"):
                    with open(os.path.join(p, f)) as fh:
                        d[(R, f)] = fh.read()
        return d

    def analyse(self, h):
        c, ck = self.c, self.ctx.check
        before = self.thermo_dir()
        st = self.stats
        fn = st.jackknife_analysis_of_pimc if h["method"].startswith("j") else st.statistical_analysis_of_pimc
        method = "".join(["al", "pha"]) if h["method"].endswith("alpha") else "".join(["ba", "sic"])   # a run time string, not an interned literal
        out = self.ctx.call(fn, self.FS, method=method, timeout=120)
        after = self.thermo_dir()
        new = {k: v for k, v in after.items() if before.get(k) != v}
        if h["refused"]:
            ok = ck(isinstance(out, Raised), "an analysis with reference data of other models succeeded", c, step=h)
            return ck(not new and len(after) == len(before), "a refused analysis wrote output", c, step=h, got=sorted(map(str, new))) and ok
        if isinstance(out, Raised):
            return ck(False, "the analysis failed", c, step=h, outcome=repr(out))
        want = {(t["R"], f"P{t['P']}_T{t['T'] / 100:.2f}_X{t['X']}_thermo"): t for t in h["out"]}
        ok = ck(set(new) <= set(want), "the analysis wrote output that belongs to no results", c, step=h, got=sorted(map(str, set(new) - set(want))))
        ok &= ck(set(want) <= set(after) and set(before) <= set(after), "combinations with results that were not analysed", c, step=h, missing=sorted(map(str, set(want) - set(after))))
        if not ok:
            return False
        op = {"basic": st.basic_statistical_analysis, "alpha": st.alpha_statistical_analysis,
              "jbasic": st.basic_jackknife_analysis, "jalpha": st.alpha_jackknife_analysis}[h["method"]]
        for k, t in want.items():
            try:
                got = json.loads(after[k])
            except ValueError:
                ok &= ck(False, "output of an analysis cannot be read", c, step=h, file=str(k))
                continue
            rows = self.rows_of(t["ids"])
            res = self.pimc.BoxResultPM(X=len(rows))
            res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus = (np.ascontiguousarray(rows[:, i]) for i in range(4))
            x = self.exact(t["T"])
            Z = x["Z_sampling"]
            ref = {"Z": Z, "E": x["E_sampling"], "Cv": x["Cv_sampling"], "alpha_plus": Z / x["Z_sampling+beta"], "alpha_minus": Z / x["Z_sampling-beta"]}
            exp = self.ctx.call(op, t["T"] / 100, res, ref)
            if isinstance(exp, Raised):
                ok &= ck(False, "the analysis of one sample set failed", c, step=h, outcome=repr(exp))
                continue
            bad = {q: [got.get(q), float(v)] for q, v in exp.items()
                   if not (q in got and (abs(got[q] - v) <= 1e-6 * max(1.0, abs(v), (1e4 if q.endswith("Cv error") or "Cv" in q else 1.0)) or (v != v and got[q] != got[q])))}
            ok &= ck(not bad, "analysed values are those of the pooled samples", c, step=h, file=str(k), differ=bad)
            zexact = float(np.mean(rows[:, 1] / rows[:, 0]))
            ok &= ck(abs(got.get("Z", 1e9) - zexact) <= 1e-9 * abs(zexact), "analysed normalisation is that of the pooled samples", c, step=h, got=got.get("Z"), want=zexact)
            ok &= ck(self.ident("vib", t["hv"], got.get("hash_vib"), h) and self.ident("rho", t["hr"], got.get("hash_rho"), h), "analysed values are labelled with the models", c, step=h)
            t["Z"] = got.get("Z")
            self.analysed[(t["R"], t["P"], t["T"], t["X"])] = got
        return ok

    def plot(self, h):
        c, ck = self.c, self.ctx.check
        from pibronic.plotting import plotting
        listing = self.ctx.call(lambda: plotting.plot_Z_multiple_FS(self.FS))
        if not h["rows"]:
            return ck(isinstance(listing, Raised), "something is plotted although nothing belongs to these models", c, step=h,
                      got=getattr(listing, "list_jackknife", None))
        if isinstance(listing, Raised):
            return ck(False, "collecting the data to plot failed", c, step=h, outcome=repr(listing))
        out = self.ctx.call(listing.load_data)
        if isinstance(out, Raised):
            return ck(False, "collecting the data to plot failed", c, step=h, outcome=repr(out))
        arr, Ps, Ts, Xs = listing.arr[0], listing.lst_P[0], listing.lst_T[0], listing.lst_X[0]
        ok = ck(Ps == sorted({r["P"] for r in h["rows"]}) and Ts == sorted({r["T"] / 100 for r in h["rows"]}) and Xs == sorted({r["X"] for r in h["rows"]}),
                "axes of the plotted data", c, step=h, got=[Ps, Ts, Xs])
        if not ok:
            return False
        want = {(r["P"], r["T"] / 100, r["X"]): self.analysed.get((r["R"], r["P"], r["T"], r["X"])) for r in h["rows"]}
        for i, P in enumerate(Ps):
            for j, T in enumerate(Ts):
                for k, X in enumerate(Xs):
                    w, g = want.get((P, T, X)), arr[i, j, k]
                    for q in ("Z", "E", "Cv", "jk_E", "jk_Cv error"):
                        x = float(g[q])
                        y = w.get(q) if w else None
                        ok &= ck((y is None and x != x) or (y is not None and (x == y or (x != x and y != y))), "plotted values", c, step=h, at=[P, T, X], key=q, got=x, want=y)
        return ok

    def replay(self, plan):
        self.c = {"hist": plan["hist"]}
        self.analysed, self.count = {}, 0
        self.all_R = sorted({h["R"] for h in plan["hist"] if "R" in h})
        self.temps = sorted({h["T"] for h in plan["hist"] if "T" in h} | {30000})
        np.random.seed(abs(hash(json.dumps(plan["hist"], sort_keys=True))) % (2 ** 31))
        for h in plan["hist"]:
            if not self.run(h):
                return False
        # the answer whether a result belongs to the models of the object
        for t in plan.get("labels", []) if plan["obj"]["hv"] != 0 and plan["obj"]["hr"] != 0 else []:
            with open(os.path.join(self.paths(t["t"]["R"]).path_rho_results, f"P{t['t']['P']}_T{t['t']['T'] / 100:.2f}_X{t['t']['X']}_thermo")) as fh:
                row = json.load(fh)
            got = [self.ctx.call(f, dict(row)) for f in (self.FS.valid_vib_hash, self.FS.valid_rho_hash, self.FS.valid_vib_and_rho_hashes)]
            if not self.ctx.check([repr(bool(g)) if isinstance(g, (bool, np.bool_)) else repr(g) for g in got] == [repr(t["vib"]), repr(t["rho"]), repr(t["vib"] and t["rho"])],
                                  "answer whether a result belongs to the models", self.c, of=t, got=[repr(g) for g in got]):
                return False
        # pruning lists of files, current identities and the object's own
        for name, FS, ids in (("fresh object", self.paths(plan["obj"]["R"]), plan["fresh"]), ("object", self.FS, plan["mine"])):
            if name == "object" and (plan["obj"]["hv"] == 0 or plan["obj"]["hr"] == 0):
                continue
            if name != "object":
                self.ctx.call(FS.generate_model_hashes)
            out = self.ctx.call(self.pp.prune_results_using_hashes, FS, list(self.files.values()) if self.across else self.pp.retrive_pimc_file_list(FS))
            here = os.path.normpath(FS.path_rho_results)
            got = repr(out) if isinstance(out, Raised) else sorted(p for p in out if os.path.dirname(os.path.normpath(p)) == here)
            if not self.ctx.check(got == sorted(self.files[i] for i in ids), "selection of the files of the models", self.c, of=name, got=got, want=ids):
                return False
            if "tmine" not in plan:
                continue
            want = sorted(os.path.join(here, f"P{t['P']}_T{t['T'] / 100:.2f}_X{t['X']}_thermo") for t in plan["tmine" if name == "object" else "tfresh"])
            out = self.ctx.call(self.pp.prune_results_using_hashes, FS, self.pp.retrive_jackknife_file_list(FS))
            got = repr(out) if isinstance(out, Raised) else sorted(os.path.normpath(p) for p in out)
            if not self.ctx.check(got == want, "selection of the analysed values of the models", self.c, of=name, got=got, want=want):
                return False
        return True

    across = True
