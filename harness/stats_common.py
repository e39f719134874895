"""shared by P15 and P16: sample sets from spec/Stats.tla with the exact estimator values"""
from fractions import Fraction

import numpy as np

INVS = ["OrderFree", "ErrorReal", "DensityFree", "Repetition", "Flat", "Emit"]


def cases(ctx):
    out = []
    base = dict(Rhos="{1,2,4}", MinX=2, Sorted="TRUE")
    ex = ctx.tlc("Stats", dict(base, MaxX=2, As="{-1,2,4}", Ps="{1,3}", Ms="{0,2}", Alphas="{<<1,1>>, <<2,1>>, <<1,3>>}"),
                 invariants=INVS, label="all pairs of samples")
    ex += ctx.tlc("Stats", dict(base, Rhos="{2}", MaxX=4 if ctx.thorough else 3, As="{1,3}", Ps="{2,5}", Ms="{1,-2}", Alphas="{<<1,1>>, <<3,2>>}"),
                  invariants=INVS, label="sets of three and more samples")
    out += ctx.thin(ex, 1200 if not ctx.thorough else 10 ** 6)
    sim = ctx.tlc("Stats", dict(Rhos="{1,2,4}", MinX=5, MaxX=9, Sorted="FALSE", As="{1,2,3,5}", Ps="{1,2,4,6}", Ms="{0,1,3}", Alphas="{<<1,1>>, <<2,3>>, <<3,1>>}"),
                  invariants=INVS, simulate=30 if not ctx.thorough else 500, depth=10, workers=1, label="larger sets")
    sim = ctx.thin(sim, 600 if not ctx.thorough else 20000)
    out += sim
    for i, c in enumerate(sim[:16]):
        out.append(repeated(c, (2, 7, 30, 149, 400)[i % 5]))
    # as many samples as real calculations have
    for plain in (True, False):
        c = next((c for c in sim if ((c["al"], c["be"]) == (1, 1)) == plain), None)
        if c:
            out.append(repeated(c, 4000 if plain else 2500, sorted_=True))
    for c in sim[16:24]:
        out.append(heavy(c, 40))
    return out


def frac(p):
    return Fraction(p[0], p[1])


def arrays(s):
    r = np.array([x[0] for x in s], dtype=float)
    q = [np.array([x[k] for x in s], dtype=float) * r / 4.0 for k in (1, 2, 3)]
    return r, q[0], q[1], q[2]


class FakeResult:
    """what the analysis functions need of a loaded result object"""
    def __init__(self, s):
        r, g, p, m = arrays(s)
        self.samples = len(s)
        self.scaled_rho, self.scaled_g, self.scaled_gofr_plus, self.scaled_gofr_minus = r, g, p, m


def result_object(pimc, s):
    res = pimc.BoxResultPM(X=len(s))
    r, g, p, m = arrays(s)
    res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus = r, g, p, m
    return res


def close(got, want, scale=1.0, tol=1e-9):
    try:
        got = float(got)
    except Exception:
        return False
    return np.isfinite(got) and abs(got - want) <= tol * max(abs(want), scale)


def repeated(c, k, sorted_=False):
    """the sample set of case c repeated k times, with its exact estimators.  The specification proves
    (invariant Repetition) that Z, E and Cv stay the same; the error of Z and the leave-one-out terms
    follow from the same totals"""
    s, al, be = c["s"], c["al"], c["be"]
    S = sum(x[1] for x in s) * k
    D1 = sum(al * x[2] - be * x[3] for x in s) * k
    D2 = sum(al * x[2] - 2 * x[1] + be * x[3] for x in s) * k
    X = len(s) * k
    q = sum(x[1] ** 2 for x in s) * k
    je, jcv = [], []
    for x in s:
        s1, d1, d2 = S - x[1], D1 - (al * x[2] - be * x[3]), D2 - (al * x[2] - 2 * x[1] + be * x[3])
        je.append([-d1, s1])
        jcv.append([4 * d2 * s1 - d1 * d1, 4 * s1 * s1])
    rep = (lambda v: [y for y in v for _ in range(k)]) if sorted_ else (lambda v: v * k)
    return dict(c, s=rep(s), repeat=k, base=s,
                x={"z": c["x"]["z"], "zvar": [X * q - S * S, 16 * X * X * (X - 1)], "e": c["x"]["e"], "cv": c["x"]["cv"], "je": rep(je), "jcv": rep(jcv)})


def estimators(s, al, be):
    """the definitions of spec/StatsOps.tla for samples whose sums are too large for TLC; cases() compares both where TLC can"""
    S, q, X = sum(x[1] for x in s), sum(x[1] ** 2 for x in s), len(s)
    first, second = (lambda x: al * x[2] - be * x[3]), (lambda x: al * x[2] - 2 * x[1] + be * x[3])
    D1, D2 = sum(map(first, s)), sum(map(second, s))
    e = lambda s1, d1: [-d1, s1]
    cv = lambda s1, d1, d2: [4 * d2 * s1 - d1 * d1, 4 * s1 * s1]
    return {"z": [S, 4 * X], "zvar": [X * q - S * S, 16 * X * X * (X - 1)], "e": e(S, D1), "cv": cv(S, D1, D2),
            "je": [e(S - x[1], D1 - first(x)) for x in s], "jcv": [cv(S - x[1], D1 - first(x), D2 - second(x)) for x in s]}


def heavy(c, k):
    """the samples of case c, k times, and one whose weight is larger by many orders of magnitude: it counts like every other"""
    own = estimators(c["s"], c["al"], c["be"])
    assert all(frac(own[f]) == frac(c["x"][f]) for f in ("z", "zvar", "e", "cv")) and all(list(map(frac, own[f])) == list(map(frac, c["x"][f])) for f in ("je", "jcv"))
    s = c["s"] * k + [[1, 3 * 10 ** 6, 3 * 10 ** 6 + 5, 3 * 10 ** 6 - 7]]
    return dict(c, s=s, repeat=k, base=c["s"] + ["and one of weight 3000000"], x=estimators(s, c["al"], c["be"]))


def small(c):
    """what to print for a case"""
    return c if "repeat" not in c else {"s": c["base"], "al": c["al"], "be": c["be"], "repeat": c["repeat"]}
