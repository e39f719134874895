"""P03 - paths are drawn from the sampling model's distribution.  Specification: spec/Sampling.tla, SamplingOps.tla"""
import contextlib
import math
import random

import numpy as np

from .core import Raised
from .pimc_common import Rig, LN2, for_spec, sampling_model

UNIT, SCALE = 20000, 5000


class Lab:
    """draws of a real job, optionally with prescribed random numbers"""

    def __init__(self, ctx, r, A):
        self.ctx, self.r = ctx, r
        self.rig = Rig(ctx)
        N = len(r["w"])
        v = dict(w=[1] * N, k=[[a - n for n in range(N)] for a in range(A)], E=[a for a in range(A)], S=np.zeros((A, A)).tolist(), e=0, l=[0] * N,
                 mu=[[0] * N] * N, phi=[[0] * N] * N, **{x: r[x] for x in ("u", "d") if x in r})
        self.rig.write(v, r)

    @contextlib.contextmanager
    def sources(self, src, seen):
        """surfaces prescribed, probabilities recorded"""
        real = np.random.choice

        def fake(a, size=None, replace=True, p=None):
            n = len(a) if hasattr(a, "__len__") else int(a)
            if p is None or n != len(self.r["E"]):
                return real(a, size, replace, p)
            seen.append([float(x) for x in p])
            if src is None:
                return real(a, size, replace, p)
            flat = np.array(src)
            want = int(np.prod(size)) if size is not None else 1
            assert want == len(flat), "other number of sources requested"
            seen.append("used")
            pool = np.array(list(a)) if hasattr(a, "__len__") else np.arange(n)
            return pool[flat].reshape(size)
        np.random.choice = fake
        try:
            yield
        finally:
            np.random.choice = real

    @contextlib.contextmanager
    def noise(self, z, used):
        """standard normal variates prescribed: z is an iterator over blocks"""
        names = {n: getattr(np.random, n) for n in ("normal", "standard_normal", "randn")}

        def give(size):
            x = next(z)
            used.append(1)
            return np.array(x).reshape(size)
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * give(size)
        np.random.standard_normal = lambda size=None: give(size)
        np.random.randn = lambda *size: give(size)
        try:
            yield
        finally:
            for n, f in names.items():
                setattr(np.random, n, f)

    def observe(self, data, view):
        """the paths of one block as the evaluation sees them"""
        data.draw_sample(view)
        data.transform_sampled_coordinates(view)
        q = np.array(data.qTensor)
        same = np.array_equal(q, np.broadcast_to(q[:, :1], q.shape))
        t = getattr(data, "qTempTensor", None)
        if t is not None:
            same = same and np.allclose(t, np.broadcast_to(q[:, :1], t.shape), rtol=0, atol=1e-12)
        return q[:, 0], same


def run_exact(ctx, r, A, tau, beads, e):
    """one behaviour of the specification, with prescribed surfaces and random numbers"""
    X, B = len(e["src"]), e["B"]
    case = {"r": r, "A": A, "tau": tau, "beads": beads, "src": e["src"], "B": B}
    if not ctx.want(case):
        return []
    lab = Lab(ctx, r, A)
    N = len(r["w"])
    seen, used = [], []
    with lab.sources([s - 1 for s in e["src"]], seen):
        data = ctx.call(lab.rig.data, beads, tau, X, X // B, plus_minus=False)
    if isinstance(data, Raised):
        if "other number of sources" in data.msg:
            return None
        ctx.check(False, "starting a job failed", case, outcome=repr(data))
        return []
    probs = [p for p in seen if p != "used"]
    if probs:
        u, d = r.get("u", 4), r.get("d", 1)
        logs = [beads * tau * (x / (2.0 * u) + 0.5 * d * d * math.fsum(w * LN2 * hn for w, hn in zip(r["w"], h))) for x, h in e["weight"]]
        top = max(logs)
        w = [math.exp(v - top) for v in logs]
        w = [x / math.fsum(w) for x in w]
        ctx.check(all(abs(a - b) <= 1e-9 * b + 1e-300 for a, b in zip(probs[-1], w)), "weights of the surfaces", case, got=probs[-1], want=w)
    if "used" not in seen:
        return None
    views = [slice(i, i + B) for i in range(0, X, B)]

    def with_noise(vec, view):
        """vec: noise of the block"""
        with lab.noise(iter([vec]), used):
            return lab.observe(data, view)
    d = r.get("d", 1)
    centres = np.array(e["centre"], float) * d
    out = []
    # centres of all blocks, and the response to every single random number in the last block
    for view in views:
        got = ctx.call(with_noise, np.zeros((B, N, beads)), view)
        if isinstance(got, Raised):
            if "StopIteration" in got.kind or not used:
                return None
            ctx.check(False, "drawing failed", case, outcome=repr(got))
            return []
        if not used:
            return None
        q, same = got
        ctx.check(same, "all surfaces see the same path", case, view=[view.start, view.stop])
        want = np.broadcast_to(centres[view][:, :, None], q.shape)
        if not ctx.check(np.allclose(q, want, rtol=0, atol=1e-9 * d), "centre of the drawn paths", case, view=[view.start, view.stop], got=q[:, :, 0], want=centres[view]):
            return []
    view = views[-1]
    resp = np.zeros((B, N, beads, beads))
    base = np.broadcast_to(centres[view][:, :, None], (B, N, beads))
    for b in range(B):
        for n in range(N):
            cols = []
            for j in range(beads):
                z = np.zeros((B, N, beads))
                z[b, n, j] = 1.0
                got = ctx.call(with_noise, z, view)
                if isinstance(got, Raised):
                    return []
                change = got[0] - base
                rest = change.copy()
                rest[b, n] = 0
                if not ctx.check(float(np.abs(rest).max()) < 1e-9 * max(1.0, float(np.abs(change).max())), "samples and modes are drawn independently", case, at=[b, n, j]):
                    return []
                cols.append(change[b, n])
            resp[b, n] = L = np.array(cols).T
            cov, x = L @ L.T, tau * r["w"][n] * LN2
            coth, csch = 1 / math.tanh(x), 1 / math.sinh(x)
            K = np.array([[a * coth + c * csch for a, c in row] for row in e["kernel"]])
            # the inverse of the covariance is the one of the specification; its smallest eigenvalue is 2 tanh(x/2)
            err = float(np.abs(K @ cov - np.eye(beads)).max())
            ctx.check(err <= 1e-9 + 1e-12 / (x * x), "covariance of the drawn paths", dict(case, sample=b, mode=n), error=err)
            top = float(np.abs(cov).max())
            if top * coth < 5:
                out.append((dict(case, sample=b, mode=n), {"P": beads, "unit": UNIT, "scale": SCALE, "coth": round(coth * SCALE), "csch": round(csch * SCALE),
                                                           "tol": math.ceil(2 * coth * SCALE + 2 * top * UNIT) + 10, "cov": np.rint(cov * UNIT).astype(int).tolist()}))
    # linear: the response to all random numbers at once, some of them rare ones
    for size in (1.0, 7.0):
        z = np.array([ctx.rng.gauss(0, size) for _ in range(B * N * beads)]).reshape(B, N, beads)
        got = ctx.call(with_noise, z, view)
        if isinstance(got, Raised):
            break
        want = base + np.einsum("bnij,bnj->bni", resp, z)
        ctx.check(bool(np.all(np.abs(got[0] - want) <= 1e-9 * (d + np.abs(want).max()))), "a drawn path is a linear function of the random numbers", case, size=size)
    ctx.count("prescribed draws", case)
    ctx.rmdir(lab.rig.root)
    return out


def run_statistics(ctx, r, A, tau, beads, X, blocks, weights):
    """the unmodified draws: six standard errors"""
    case = {"r": r, "A": A, "tau": tau, "beads": beads, "X": X, "blocks": blocks}
    if not ctx.want(case):
        return
    lab = Lab(ctx, r, A)
    np.random.seed(ctx.seed * 31 + 5)
    data = ctx.call(lab.rig.data, beads, tau, X, blocks, plus_minus=False)
    if isinstance(data, Raised):
        ctx.check(False, "starting a job failed", case, outcome=repr(data))
        return
    B = X // blocks
    got = ctx.call(lambda: [lab.observe(data, slice(i, i + B)) for i in range(0, X, B)])
    if isinstance(got, Raised):
        ctx.check(False, "drawing failed", case, outcome=repr(got))
        return
    q = np.concatenate([g[0] for g in got])
    ctx.check(bool(np.all(np.isfinite(q))) and all(g[1] for g in got), "all surfaces see the same path", case)
    # which surface?  the displacements are far apart
    cen = -np.array(r["k"], float)
    src = np.argmin(((q.mean(axis=2)[:, None, :] - cen[None]) ** 2).sum(axis=2), axis=1)
    counts = np.bincount(src, minlength=len(cen))
    for a, w in enumerate(weights):
        ctx.check(abs(counts[a] - X * w) <= 6 * math.sqrt(X * w * (1 - w)) + 1, "frequency of the surfaces", case, surface=a, got=int(counts[a]), want=X * w)
    y = q - cen[src][:, :, None]
    covs = []
    for n, wn in enumerate(r["w"]):
        t = tau * wn * LN2
        C = np.zeros((beads, beads))
        for i in range(beads):
            C[i, (i + 1) % beads] = C[(i + 1) % beads, i] = 1
        cov = np.linalg.inv(2 / math.tanh(t) * np.eye(beads) - 1 / math.sinh(t) * C)
        ctx.check(bool(np.all(np.abs(y[:, n].mean(axis=0)) <= 6 * np.sqrt(np.diag(cov) / X))), "mean of the drawn paths", case, mode=n, got=y[:, n].mean(axis=0))
        emp = y[:, n].T @ y[:, n] / X
        err = np.sqrt((cov ** 2 + np.outer(np.diag(cov), np.diag(cov))) / X)
        ctx.check(bool(np.all(np.abs(emp - cov) <= 6 * err)), "covariance of the drawn paths (statistics)", case, mode=n, got=emp[0], want=cov[0])
        # samples are independent, at any distance within a block or between blocks
        sd = math.sqrt((cov ** 2).sum() / X)
        for lag in range(1, min(X, 2 * B + 1)):
            c = (y[:-lag, n] * y[lag:, n]).sum() / X
            if not ctx.check(abs(c) <= 9 * sd, "independence of the samples", case, mode=n, lag=lag, got=c):
                break
        for j in range(n):
            other = y[:, n].T @ y[:, j] / X
            if not ctx.check(bool(np.all(np.abs(other) <= 7 * np.sqrt(np.outer(np.diag(cov), np.diag(covs[j])) / X))), "independence of the modes", case, modes=[j, n]):
                break
        covs.append(cov)
    if blocks > 1 and min(weights) > 0.2 and B >= 60:
        s = src.reshape(blocks, B)
        ctx.check(len({tuple(row) for row in s}) == blocks, "surfaces of the blocks are drawn independently", case)
    ctx.count("statistics", case)
    ctx.rmdir(lab.rig.root)


def regime(rng, m, beads, which):
    """the same model with other values of the symbols: (model, tau)"""
    lo, hi, tau = ((0.05, 1.5, rng.uniform(20, 40) / beads), (3e-4, 3e-2, 10 ** rng.uniform(-3, 0)), (5, 45, rng.uniform(1, 3)))[which]
    xs = [math.exp(rng.uniform(math.log(lo), math.log(hi))) for _ in m["w"]]
    return dict(m, w=[x / tau / LN2 for x in xs], d=rng.uniform(0.1, 0.5) * min(1.0, math.sqrt(min(xs))), u=rng.choice([16, 64])), tau


def run(ctx):
    th = ctx.thorough
    rng = random.Random(ctx.seed * 7919 + 3)
    recs = []
    skipped = 0
    for A, B, N, beads, tau, X in ((2, 2, 1, 3, 1, 4), (2, 3, 2, 4, 2, 3), (1, 2, 2, 5, 1, 2), (3, 1, 1, 6, 1, 3), (2, 4, 1, 4, 1, 2), (2, 2, 3, 3, 1, 2), (1, 2, 5, 3, 1, 2), (1, 1, 1, 24, 1, 1), (1, 12, 1, 3, 1, 1), (2, 1, 1, 3, 1, 12), (1, 1, 2, 3, 1, 40)) + (((2, 2, 3, 7, 1, 4), (2, 3, 1, 8, 2, 4), (1, 2, 1, 12, 1, 2)) if th else ()):
        ms = [sampling_model(rng, B, N) for _ in range(2 if not th else 4)]
        for m in ms:
            m["k"] = [[x * 2 for x in row] for row in m["k"]]
            if N * B > 1:
                m["k"][0][0], m["k"][-1][-1] = 3, -2
        # low temperature or high energy: the weights still have to be right
        far = sampling_model(rng, B, N)
        far["E"] = [4000 + a for a in range(B)]
        low = dict(sampling_model(rng, B, N), E=[-4000 - a for a in range(B)])
        ms += [far, low]
        ev = ctx.tlc("Sampling", dict(MaxX=X, Coords="{1}" if beads * N > 8 else "{-1, 0, 2}" if beads * N <= 5 else "{0, 1}", Beads=beads), spec="Spec",
                     invariants=["OwnSurface", "DrawnIsEvaluated", "Emit"], data={"models.ndjson": [for_spec(m) for m in ms]}, label=f"{B} surfaces, {N} modes, {beads} beads")
        other = [[regime(rng, m, beads, i) for i in range(3)] for m in ms[:2]]
        for e in ctx.thin(ev, 40 if not th else 400):
            for k in range(2 if not th else 4):
                if ctx.give_up:
                    break
                m, t = ms[e["id"] - 1], tau
                if k:
                    if e["id"] > len(other):
                        break
                    m, t = other[e["id"] - 1][(k + sum(e["src"]) + e["B"]) % 3]
                out = run_exact(ctx, m, A, t, beads, e)
                if out is None:
                    skipped += 1
                else:
                    recs += out
    bad = ctx.judge("SamplingOps", [r for _, r in recs], "VerdictCov", label="recorded covariances") if recs else {}
    ctx.validated += len(recs)
    for i, clause in bad.items():
        ctx.check(False, clause, recs[i][0], recorded=recs[i][1])
    if skipped:
        ctx.assumptions.append(f"{skipped} behaviours: the random numbers could not be prescribed, decided statistically only")
    for A, k, w, E, beads, tau in ((2, [[8], [-8]], [1], [0, 0], 4, 1), (2, [[9, 0], [0, 9], [-9, -9]], [2, 1], [0, 1, 2], 3, 1), (1, [[12], [0], [-12], [24]], [1], [288, 0, 288, 1152 - 2], 3, 1),
                                 (2, [[14 * a] for a in range(12)], [1], [0] * 12, 3, 1), (3, [[8 * (-1) ** (a + n) for n in range(6)] for a in range(2)], [1, 2, 1, 1, 2, 1], [0, 0], 5, 1),
                                 (2, [[9], [-9]], [1], [0, 0], 40, 1)):
        r = dict(k=k, w=w, E=E)
        # bring the surfaces to comparable weights: E in quarters must compensate k^2 w ln 2 / 2
        logs = []
        for a in range(len(E)):
            gain = 0.5 * sum(x * x * ww for x, ww in zip(k[a], w)) * LN2 * 4
            r["E"][a] = round(gain) + (a % 2)
            logs.append(-beads * tau * (r["E"][a] - gain) / 4)
        top = max(logs)
        ws = [math.exp(x - top) for x in logs]
        ws = [x / sum(ws) for x in ws]
        for X, blocks in ((6000, 10), (4000, 40)) if not th else ((60000, 10), (40000, 40), (20000, 1)):
            run_statistics(ctx, r, A, tau, beads, X, blocks, ws)
    return {"exhaustive": True}
