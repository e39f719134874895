"""P15 - thermodynamic estimators.  Specification: spec/Stats.tla, StatsOps.tla"""
import math

import numpy as np

from .core import Raised
from .stats_common import cases, close, frac, result_object, small

# eV / K, CODATA 2014 as referenced in the source; only the leading digits are specified
KB = 8.61733e-5


def run(ctx):
    from pibronic import constants
    from pibronic.pimc import pimc
    from pibronic.stats import stats
    todo = cases(ctx)
    db = float(constants.delta_beta)
    ctx.check(abs(float(constants.boltzman) / KB - 1) < 1e-5, "Boltzmann constant", {"constant": "boltzman"}, got=float(constants.boltzman))
    ctx.check(0 < db < 1e-2, "step of the numerical derivative", {"constant": "delta_beta"}, got=db)
    for T in (1.0, 77.25, 300.0, 1234.5):
        b = ctx.call(constants.beta, T)
        ctx.check(close(b, 1 / (T * float(constants.boltzman))), "inverse temperature", {"T": T}, got=repr(b))
        back = ctx.call(constants.extract_T_from_beta, b)
        ctx.check(close(back, T), "temperature from inverse temperature", {"T": T}, got=repr(back))
    kB = float(constants.boltzman)

    for n, c in enumerate(todo):
        if ctx.give_up:
            break
        if not ctx.want(small(c)):
            continue
        full, c = c, small(c)
        x = full["x"]
        T = (300.0, 77.5, 1000.0)[n % 3]
        E0, C0 = ((0.0, 0.0), (0.25, -0.5), (-1.5, 3e-3))[(n // 3) % 3]
        alpha = (c["al"], c["be"]) != (1, 1)
        res = result_object(pimc, full["s"])
        before = [np.copy(a) for a in (res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus)]
        analytic = {"E": E0, "Cv": C0, "alpha_plus": float(c["al"]), "alpha_minus": float(c["be"])}
        fns = [("alpha", stats.alpha_statistical_analysis)] if alpha else [("basic", stats.basic_statistical_analysis), ("alpha", stats.alpha_statistical_analysis)]
        for name, fn in fns:
            out = ctx.call(fn, T, res, dict(analytic))
            if isinstance(out, Raised):
                ctx.check(False, "the analysis failed", c, method=name, outcome=repr(out))
                continue
            z, zerr = float(frac(x["z"])), math.sqrt(frac(x["zvar"]))
            e = float(frac(x["e"])) / (2 * db)
            cv = float(frac(x["cv"])) / (kB * T * T * db * db)
            ctx.check(close(out.get("Z"), z), "normalisation", c, method=name, got=out.get("Z"), want=z)
            ctx.check(close(out.get("Z error"), zerr), "error of the normalisation", c, method=name, got=out.get("Z error"), want=zerr)
            ctx.check(close(out.get("E"), e + E0, scale=1 / db), "energy", c, method=name, got=out.get("E"), want=e + E0)
            ctx.check(close(out.get("Cv"), cv + C0, scale=1 / (kB * T * T * db * db)), "heat capacity", c, method=name, T=T, got=out.get("Cv"), want=cv + C0)
        after = [res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus]
        ctx.check(all(np.array_equal(a, b) for a, b in zip(before, after)), "the analysis changed the samples", c)
        # the harmonic contribution is a plain sum on E and Cv and leaves everything else alone
        d = {"Z": 1.5, "Z error": 0.5, "E": 2.0, "Cv": 3.0, "E error": 4.0, "Cv error": 5.0}
        out = ctx.call(stats.add_harmonic_contribution, d, E0, C0)
        ctx.check(not isinstance(out, Raised) and d == {"Z": 1.5, "Z error": 0.5, "E": 2.0 + E0, "Cv": 3.0 + C0, "E error": 4.0, "Cv error": 5.0},
                  "adding the analytic contribution", c, got=d)
        ctx.count("sample set", c)
    return {"exhaustive": False}
