"""P16 - jackknife estimators.  Specification: spec/Stats.tla, StatsOps.tla (leave-one-out terms)"""
import math
from fractions import Fraction

import numpy as np

from .core import Raised
from .stats_common import cases, close, frac, result_object, small


def jackknife(full, parts):
    """bias corrected estimate and squared error from the exact leave-one-out values"""
    X = len(parts)
    mean = sum(parts, Fraction(0)) / X
    est = X * full - (X - 1) * mean
    var = sum(((f - mean) ** 2 for f in parts), Fraction(0)) / (X - 1)      # sample variance of the leave-one-out values
    return est, (X - 1) * var


def run(ctx):
    from pibronic import constants
    from pibronic.pimc import pimc
    from pibronic.stats import stats, jackknife as jk
    db, kB = float(constants.delta_beta), float(constants.boltzman)
    todo = cases(ctx)
    for n, c in enumerate(todo):
        if ctx.give_up:
            break
        if not ctx.want(small(c)):
            continue
        full, c = c, small(c)
        x, s = full["x"], full["s"]
        X = len(s)
        T = (300.0, 77.5, 1000.0)[n % 3]
        E0, C0 = ((0.0, 0.0), (0.25, -0.5), (-1.5, 3e-3))[(n // 3) % 3]
        eu, cu = 1 / (2 * db), 1 / (kB * T * T * db * db)
        alpha = (c["al"], c["be"]) != (1, 1)
        res = result_object(pimc, s)
        before = [np.copy(a) for a in (res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus)]
        analytic = {"E": E0, "Cv": C0, "alpha_plus": float(c["al"]), "alpha_minus": float(c["be"])}
        je, jev = jackknife(frac(x["e"]), [frac(f) for f in x["je"]])
        jc, jcv = jackknife(frac(x["cv"]), [frac(f) for f in x["jcv"]])
        fns = [("alpha", stats.alpha_jackknife_analysis, stats.alpha_statistical_analysis)]
        if not alpha:
            fns.append(("basic", stats.basic_jackknife_analysis, stats.basic_statistical_analysis))
        for name, fn, plain in fns:
            out = ctx.call(fn, T, res, dict(analytic))
            if isinstance(out, Raised):
                ctx.check(False, "the jackknife analysis failed", c, method=name, outcome=repr(out))
                continue
            es = max(abs(float(f)) for f in [frac(g) for g in x["je"]] + [frac(x["e"]), Fraction(1, 10)]) * eu * X
            cs = max(abs(float(f)) for f in [frac(g) for g in x["jcv"]] + [frac(x["cv"]), Fraction(1, 10)]) * cu * X
            for key, want, sc in (("jk_E", float(je) * eu + E0, es), ("jk_E error", math.sqrt(jev) * eu, es),
                                  ("jk_Cv", float(jc) * cu + C0, cs), ("jk_Cv error", math.sqrt(jcv) * cu, cs)):
                ctx.check(close(out.get(key), want, scale=sc, tol=1e-8), key.replace("jk_", "jackknife "), c, method=name, T=T, got=out.get(key), want=want)
            ref = ctx.call(plain, T, res, dict(analytic))
            if not isinstance(ref, Raised):
                ctx.check(all(k in out and close(out[k], float(ref[k]), scale=1e-300, tol=1e-12) for k in ("Z", "Z error", "E", "Cv")),
                          "plain estimates reported next to the jackknife ones", c, method=name, got={k: out.get(k) for k in ref}, want=ref)
        after = [res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus]
        ctx.check(all(np.array_equal(a, b) for a, b in zip(before, after)), "the jackknife analysis changed the samples", c)
        ctx.count("sample set", c)
    return {"exhaustive": False}
