"""P02 - every sample of a job is evaluated exactly once, whatever the block size.  Specification: spec/Blocks.tla, BlocksOps.tla"""
import os
import random

import numpy as np

from .core import Raised
from .pimc_common import Rig, coupled_model, sampling_model

TAU = 2


class Job:
    def __init__(self, ctx, m, beads):
        self.ctx, self.m, self.beads = ctx, m, beads
        self.rig = Rig(ctx)
        self.rig.write(m["v"], m["r"])
        self.N = len(m["v"]["w"])

    def ratios(self, res, pm):
        q = {"rho": np.array(res.scaled_rho), "scaled g": np.array(res.scaled_g), "g": res.scaled_g / res.scaled_rho}
        if pm:
            q["gp"] = res.scaled_gofr_plus / res.scaled_rho
            q["gm"] = res.scaled_gofr_minus / res.scaled_rho
        return q

    def alone(self, paths, pm):
        """every path on its own, in a fresh object"""
        out = []
        for p in paths:
            data = self.rig.data(self.beads, TAU, 1, 1, plus_minus=pm)
            if self.rig.inject(data, p[None]) is None:
                return None
            res = self.rig.result(data, pm)
            (self.rig.pimc.block_compute_pm if pm else self.rig.pimc.block_compute)(data, res)
            out.append({k: v[0] for k, v in self.ratios(res, pm).items()})
        return out

    def fresh_paths(self, X):
        """integer paths, pairwise different"""
        seen = set()
        out = []
        while len(out) < X:
            p = tuple(self.ctx.rng.randint(-2, 2) for _ in range(self.N * self.beads))
            if p not in seen:
                seen.add(p)
                out.append(np.array(p, float).reshape(self.N, self.beads))
        return np.array(out)

    def run(self, plan):
        ctx, X, B, pm = self.ctx, plan["X"], plan["B"], plan["flavour"] == "pm"
        case = {"plan": plan, "m": self.m, "beads": self.beads}
        data = ctx.call(self.rig.data, self.beads, TAU, X, X // B, plus_minus=pm)
        if isinstance(data, Raised):
            ctx.check(False, "starting a job failed", case, outcome=repr(data))
            return []
        recs = []
        for k in range(plan["runs"]):
            paths = self.fresh_paths(X)
            ref = ctx.call(self.alone, paths, pm)
            if isinstance(ref, Raised):
                ctx.check(False, "a job of one sample failed", case, outcome=repr(ref))
                return recs
            if ref is None:
                ctx.assumptions.append("paths could not be injected")
                return recs
            log = self.rig.inject(data, paths)
            res = self.rig.result(data, pm, k)
            out = ctx.call(self.rig.pimc.block_compute_pm if pm else self.rig.pimc.block_compute, data, res)
            if isinstance(out, Raised):
                ctx.check(False, "a job failed", case, outcome=repr(out))
                return recs
            with np.load(os.path.join(self.rig.FS.path_rho_results, res.name)) as f:
                saved = int(f["number_of_samples"])
                ctx.check(ctx.call(lambda: int(type(res).read_number_of_samples(os.path.join(self.rig.FS.path_rho_results, res.name)))) == saved, "number of samples of a file", case, run=k)
                ok = np.array_equal(f["s_g"], res.scaled_g, equal_nan=True) and np.array_equal(f["s_rho"], res.scaled_rho, equal_nan=True)
            ctx.check(ok, "saved values are the calculated ones", case, run=k)
            at = {}
            for q, vals in self.ratios(res, pm).items():
                at[q] = []
                for i, x in enumerate(vals):
                    if not np.isfinite(x):
                        at[q].append(-1)
                        continue
                    near = [j for j in range(X) if abs(x - ref[j][q]) <= 1e-9 * abs(ref[j][q])]
                    at[q].append(i + 1 if i in near else near[0] + 1 if near else 0)
            recs.append((case, {"X": X, "B": B, "asked": [[i + 1 for i in v] for v in log], "at": at, "saved": saved}, k))
            ctx.count("job", case, validated=True)
        return recs

    def free(self, X, B, pm):
        """the real draws: all samples are different, in every run and every job of a process"""
        ctx = self.ctx
        case = {"free": [X, B, pm], "m": self.m, "beads": self.beads}
        np.random.seed(ctx.rng.randrange(2 ** 31))
        seen = []
        for j in range(2):
            data = ctx.call(self.rig.data, self.beads, TAU, X, X // B, plus_minus=pm)
            if isinstance(data, Raised):
                return ctx.check(False, "starting a job failed", case, outcome=repr(data))
            for k in range(2 - j):
                res = self.rig.result(data, pm, 2 * j + k)
                out = ctx.call(self.rig.pimc.block_compute_pm if pm else self.rig.pimc.block_compute, data, res)
                if isinstance(out, Raised):
                    return ctx.check(False, "a job failed", case, outcome=repr(out))
                q = self.ratios(res, pm)
                ctx.check(all(np.all(np.isfinite(v)) for v in q.values()), "every value is a number", case, run=k)
                seen += list(q["g"])
        ctx.check(len(set(seen)) == len(seen), "samples are drawn once each", case, repeated=len(seen) - len(set(seen)))
        ctx.count("free job", case)

    def independent(self, X, B, pm):
        """the unmodified draws: the paths of different samples, blocks, runs and jobs are not correlated (eight standard errors)"""
        ctx = self.ctx
        case = {"independent": [X, B, pm], "m": self.m, "beads": self.beads}
        np.random.seed(ctx.seed * 131 + X + B)
        seen = []

        def watched(data):
            real = data.transform_sampled_coordinates

            def spy(view):
                real(view)
                seen.append(np.array(data.qTensor)[:, 0].reshape(-1, self.N * self.beads))
            data.transform_sampled_coordinates = spy
            return data

        def jobs():
            for k in range(2):
                data = watched(self.rig.data(self.beads, TAU, X, X // B, plus_minus=pm))
                for run in range(2 - k):
                    (self.rig.pimc.block_compute_pm if pm else self.rig.pimc.block_compute)(data, self.rig.result(data, pm, 10 + 2 * k + run))
            return np.concatenate(seen)
        y = ctx.call(jobs, timeout=120)
        if isinstance(y, Raised) or y.ndim != 2:
            ctx.assumptions.append("drawn paths could not be observed: independence decided in P03")
            return
        if not ctx.check(len(y) == 3 * X, "as many paths are drawn as there are samples", case, got=len(y)):
            return
        y = y - y.mean(axis=0)
        r2 = (y ** 2).sum(axis=1)
        for name, z in (("paths", y), ("sizes", (r2 - r2.mean())[:, None])):
            C = z.T @ z / len(z)
            tr = float((C ** 2).sum())
            for lag in range(1, len(z) // 2):
                if lag == X:        # a job that runs again keeps the surfaces of its samples
                    continue
                n = len(z) - lag
                c = float((z[:-lag] * z[lag:]).sum()) / n
                if not ctx.check(abs(c) <= (8 if name == "paths" else 12) * (tr / n) ** 0.5, "samples are drawn independently", case, quantity=name, distance=lag, got=c, scale=tr ** 0.5):
                    return
        ctx.count("independence", case)

    def large(self, X, B, pm):
        """as run(), with many samples; the reference are jobs of a few samples"""
        ctx = self.ctx
        case = {"large": [X, B, pm], "m": self.m, "beads": self.beads}
        paths = self.fresh_paths(X)
        n = 12
        block = self.rig.pimc.block_compute_pm if pm else self.rig.pimc.block_compute

        def job(paths, B, k):
            data = self.rig.data(self.beads, TAU, len(paths), len(paths) // B, plus_minus=pm)
            log = self.rig.inject(data, paths)
            res = self.rig.result(data, pm, k)
            block(data, res)
            with np.load(os.path.join(self.rig.FS.path_rho_results, res.name)) as f:
                return log, self.ratios(res, pm), int(f["number_of_samples"]), np.array_equal(f["s_g"], res.scaled_g) and np.array_equal(f["s_rho"], res.scaled_rho)

        def reference():
            got = [job(paths[i:i + n], 4, 0)[1] for i in range(0, X, n)]
            return {q: np.concatenate([g[q] for g in got]) for q in got[0]}
        if ctx.call(lambda: self.alone(paths[:1], pm)) is None:
            return
        ref = ctx.call(reference, timeout=300)
        out = ctx.call(job, paths, B, 1, timeout=300)
        if isinstance(ref, Raised) or isinstance(out, Raised):
            return ctx.check(False, "a job failed", case, outcome=repr(out))
        log, q, saved, same = out
        ctx.check(sorted(i for v in log for i in v) == list(range(X)), "every sample is requested exactly once", case)
        ctx.check(saved == X and same, "number of samples saved", case, saved=saved)
        for k, v in q.items():
            bad = [i for i in range(X) if not abs(v[i] - ref[k][i]) <= 1e-9 * abs(ref[k][i])]
            ctx.check(not bad, "every position holds the values of its own sample", case, quantity=k, positions=bad[:10])
        ctx.count("large job", case)


def processes(ctx, n):
    """jobs that start at the same time in processes of their own draw different samples"""
    import subprocess
    import sys
    from .core import REPO
    rng = random.Random(ctx.seed * 7919 + 22)
    rig = Rig(ctx)
    m = dict(v=coupled_model(rng, 2, 2, 0), r=sampling_model(rng, 2, 2))
    rig.write(m["v"], m["r"])
    params = {rig.pimc.SEP.X.value: 4, rig.pimc.SEP.nBlk.value: 2, rig.pimc.SEP.A.value: 2, rig.pimc.SEP.P.value: 4, rig.pimc.SEP.N.value: 2, rig.pimc.SEP.T.value: 300.0,
              rig.pimc.SEP.BlkS.value: 2, rig.pimc.SEP.D.value: 3, rig.pimc.SEP.R.value: 1, rig.pimc.SEP.dB.value: 1e-4, "path_root": rig.root}
    code = ("import sys; sys.path.insert(0, sys.argv[1]); import numpy as np; from pibronic.pimc import pimc; from pibronic.data import file_structure\n"
            "print('DRAWN', np.random.random(4).tolist(), np.random.normal(size=3).tolist())\n"
            "data = pimc.BoxDataPM.from_json_string(sys.argv[2]); data.preprocess()\n"
            "FS = file_structure.FileStructure(sys.argv[3], 3, 1); FS.generate_model_hashes(); data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho\n"
            "res = pimc.BoxResultPM(data=data); res.path_root = FS.path_rho_results; res.id_job = sys.argv[4]\n"
            "pimc.block_compute_pm(data, res)\n"
            "print('SAMPLES', ' '.join(repr(float(x)) for x in res.scaled_g / res.scaled_rho))\n")
    text = rig.pimc.BoxDataPM.json_serialize(params)
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", code, REPO, text, rig.root, str(i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for i in range(n)]
    outs = [p.communicate(timeout=120) for p in ps]
    got = [[l for l in o.splitlines() if l.startswith("DRAWN")] for o, _ in outs]
    ctx.check(all(len(g) == 1 for g in got), "a process could not draw", {"processes": n}, outcome=outs[0][1][-300:])
    ctx.check(len({str(g) for g in got}) == n, "processes that start together draw different samples", {"processes": n})
    drawn = [x for o, _ in outs for l in o.splitlines() if l.startswith("SAMPLES") for x in l.split()[1:]]
    ctx.check(len(drawn) == 4 * n, "a job in a process of its own failed", {"processes": n}, outcome=outs[0][1][-300:])
    ctx.check(len(set(drawn)) == len(drawn), "samples of jobs that start together are different", {"processes": n}, repeated=len(drawn) - len(set(drawn)))
    ctx.rmdir(rig.root)
    ctx.count("processes", {"processes": n})


def run(ctx):
    if ctx.want({"processes": 8}):
        processes(ctx, 8)
    th = ctx.thorough
    plans = ctx.tlc("Blocks", dict(Xs="1..12" if not th else "1..24", MaxRuns=2 if not th else 3, Flavours='{"pm", "plain"}'), spec="Spec",
                    invariants=["SavedJobsAreComplete", "NeverTwice", "Emit"], properties=["Finishes"], label="all block sizes, repeated runs")
    dims = [(2, 1, 2, 0, 3), (2, 2, 3, 0, 4), (1, 1, 2, 0, 5), (3, 2, 1, 0, 3)] + ([(2, 3, 2, 1, 6), (3, 1, 3, 1, 8)] if th else [])
    recs = []
    rng = random.Random(ctx.seed * 7919 + 2)
    for n, (A, N, B, sp, beads) in enumerate(dims):
        m = dict(v=coupled_model(rng, A, N, sp), r=sampling_model(rng, B, N))
        job = Job(ctx, m, beads)
        mine = plans if n < 2 or th else ctx.thin(plans, 16)
        for p in mine:
            if ctx.give_up:
                break
            if ctx.only_case and '"plan"' not in ctx.only_case:
                break
            if ctx.want({"plan": p, "m": m, "beads": beads}):
                recs += job.run(p)
        for X, b, pm in ((12, 3, True), (30, 10, False), (40, 20, True), (24, 1, True)):
            if ctx.want({"free": [X, b, pm], "m": m, "beads": beads}):
                job.free(X, b, pm)
        for X, b, pm in ((400, 20, True), (300, 300, False), (200, 1, True)) if n < 2 or th else ():
            if ctx.want({"independent": [X, b, pm], "m": m, "beads": beads}):
                job.independent(X, b, pm)
        for X, b, pm in ((1200, 300, True), (1080, 1080, False), (600, 1, False))[:3 if th or n == 1 else 0]:
            if ctx.want({"large": [X, b, pm], "m": m, "beads": beads}):
                job.large(X, b, pm)
        ctx.rmdir(job.rig.root)
    bad = ctx.judge("BlocksOps", [r for _, r, _ in recs], "VerdictJob", label="recorded jobs") if recs else {}
    for i, clause in bad.items():
        ctx.check(False, clause, recs[i][0], run=recs[i][2], recorded=recs[i][1])
    return {"exhaustive": True}
