"""P17 - orthonormal matrices at a tunable distance from the identity.  Specification: spec/Ortho.tla, OrthoOps.tla"""
import numpy as np

from .core import Raised


def run(ctx):
    from pibronic.vibronic import vIO
    from pibronic.vibronic.orthonormal import create, sequences
    make = create.create_orthonormal_matrix_lambda_close_to_identity
    orders = range(2, 11)
    # reading the tables dominates the run time: keep what the real reader returned
    real_loadtxt, tables = np.loadtxt, {}

    def loadtxt(path, *a, **kw):
        k = (str(path), repr(a), repr(sorted(kw.items())))
        if k not in tables:
            tables[k] = real_loadtxt(path, *a, **kw)
        return tables[k].copy()
    np.loadtxt = loadtxt
    ts = "{0, 1, 100, 9999, 10000, 250000, 333333, 500000, 777777, 999000, 999999, 1000000}"
    em = ctx.tlc("Ortho", dict(Orders="2..10", Ts=ts, Len0=2, MaxY=6, Den=7), invariants=["PickSound", "Emit"], label="walks and abstract tables")
    cache, recs, meta = {}, [], []

    def matrix(order, t):
        k = (order, t)
        if k not in cache:
            U = ctx.call(make, order, t / 1e6)
            cache[k] = U if isinstance(U, Raised) else np.array(U)
        return cache[k]

    def dist(U, order):
        return float(np.linalg.norm(np.asarray(U) - np.eye(order)))

    def usable(U, order):
        return not isinstance(U, Raised) and np.shape(U) == (order, order) and np.all(np.isfinite(U))

    used = sorted({(e["order"], t) for e in em if "walk" in e for t in e["walk"]})
    extra_t = sorted({int(x) for x in ctx.rng.sample(range(1, 1000000), 20 if not ctx.thorough else 300)}
                     | {int(10 ** ctx.rng.uniform(2, 6)) for _ in range(24 if not ctx.thorough else 300)})
    used = sorted(set(used) | {(o, t) for o in orders for t in extra_t})
    used += [(o, t) for o in orders for t in (-1, 1000001, -500000, 2000000, -1e-4, 1000000.0001)] + [(1, 0)]
    for order, t in used:
        case = {"order": order, "t": t}
        if not ctx.want(case) or ctx.give_up:
            continue
        U = matrix(order, t)
        top = matrix(order, 1000000) if order > 1 else np.eye(1)
        valid = 0 <= t <= 1000000
        rec = {"order": order, "t": t, "valid": valid, "refused": isinstance(U, Raised), "shape": [], "err": 0, "again": True, "identity": True,
               "dist": 0, "dmax": 0, "gap": 0}
        if not rec["refused"]:
            rec["shape"] = list(np.shape(U))
            if usable(U, order) and usable(top, order):
                rec["err"] = int(min(2e9, np.abs(U @ U.T - np.eye(order)).max() * 1e12))
                rec["identity"] = bool(np.array_equal(U, np.eye(order)))
                rec["dist"] = int(round(dist(U, order) * 1e6))
                rec["dmax"] = int(round(dist(top, order) * 1e6))
                rec["gap"] = rec["dmax"] // 5000      # the tables have ten thousand entries
                if t in extra_t[:2] or t in (0, 1000000):
                    other = ctx.call(make, order, t / 1e6)      # a matrix belongs to whom asked for it
                    if isinstance(other, np.ndarray) and other.flags.writeable:
                        other *= 3.0
                    rec["again"] = bool(np.array_equal(ctx.call(make, order, t / 1e6), U)) and \
                        bool(np.array_equal(ctx.call(vIO.create_orthonormal_matrix_lambda_close_to_identity, order, t / 1e6), U))
            elif valid:
                rec["err"] = 10 ** 9
        recs.append(rec)
        meta.append(case)
        ctx.count("matrix", case)
    for k, clause in ctx.judge("OrthoOps", recs, "VerdictMatrix").items():
        ctx.check(False, clause, meta[k], observed=recs[k])

    recs, meta = [], []
    for o in orders:
        top = matrix(o, 1000000)
        recs.append({"order": o, "refused": not usable(top, o), "dmax": int(round(dist(top, o) * 1e6)) if usable(top, o) else 0})
        meta.append({"order": o, "t": 1000000})
    for k, clause in ctx.judge("OrthoOps", recs, "VerdictRange").items():
        ctx.check(False, clause, meta[k], observed=recs[k])

    recs, meta = [], []
    for e in em:
        if "walk" in e:
            Us = [matrix(e["order"], t) for t in e["walk"]]
            if all(usable(U, e["order"]) for U in Us):
                recs.append({"t": e["walk"], "dist": [int(round(dist(U, e["order"]) * 1e8)) for U in Us]})
                meta.append(e)
    for o in orders:     # one long chain per order
        chain = sorted(t for (oo, t) in used if oo == o and 0 <= t <= 1000000)
        Us = [matrix(o, t) for t in chain]
        if all(usable(U, o) for U in Us):
            recs.append({"t": chain, "dist": [int(round(dist(U, o) * 1e8)) for U in Us]})
            meta.append({"order": o, "walk": chain})
            ctx.count("chain", meta[-1])
    for k, clause in ctx.judge("OrthoOps", recs, "VerdictChain").items():
        ctx.check(False, clause, meta[k], observed=recs[k])

    # the selection rule on abstract tables
    recs, meta = [], []
    pick = getattr(sequences, "select_pair", None)
    if pick is not None:
        for e in em:
            if "tab" not in e or not ctx.want(e):
                continue
            seq = [[float(y), 10.0 + i] for i, y in enumerate(e["tab"])]
            out = ctx.call(pick, seq, e["num"] / e["den"])
            rec = dict(e, refused=isinstance(out, Raised), got=0)
            if not rec["refused"]:
                hit = [i + 1 for i, (y, x) in enumerate(seq) if y == out.y and (x == out.x or (e["num"] == 0 and out.x == 0.0))]
                rec["got"] = hit[0] if hit else 0
            recs.append(rec)
            meta.append(e)
            ctx.count("table selection", e)
        for k, clause in ctx.judge("OrthoOps", recs, "VerdictPick").items():
            ctx.check(False, clause, meta[k], observed=recs[k])
    return {"exhaustive": True}
