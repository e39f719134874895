"""P01 - the sampled integrand is the one of the models.  Specification: spec/IntegrandOps.tla, Integrand.tla, LongPath.tla"""
import math
import os
import random

import numpy as np

from .core import Raised
from .pimc_common import Rig, coupled_model, for_spec, sampling_model, log_terms, ratio, total

TAU = 2
# (energies and couplings in units of 1/u, common factor 1/z of all energies and temperatures)
SCALES = ((4, 1), (4, 16), (2048, 1), (1024, 16), (4, 0.25))


def models(rng, dims, couple=True, ws=(1, 2)):
    out = []
    for i, (A, N, B, sp) in enumerate(dims):
        m = dict(v=coupled_model(rng, A, N, sp, couple, ws), r=sampling_model(rng, B, N, ws))
        u, z = SCALES[i % len(SCALES)]
        for x in m.values():
            x.update(u=u, z=z)
        out.append(m)
    return out


def plans(ctx):
    """[(models, behaviours)]"""
    rng, th = random.Random(ctx.seed * 7919 + 1), ctx.thorough
    out = []
    ms = models(rng, [(2, 1, 2, 0), (2, 1, 2, 1), (2, 1, 3, 0), (2, 1, 1, 0), (1, 1, 1, 0), (1, 1, 2, 0)] + ([(2, 1, 2, 0), (2, 1, 4, 1), (3, 1, 3, 1)] if th else []))
    ms += models(rng, [(2, 1, 2, 0)], couple=False)
    ms += models(rng, [(2, 1, 2, 1)])
    alike(ms[-1])
    ev = ctx.tlc("Integrand", dict(Coords="{-1, 0, 2}", MaxBeads=3, MinBeads=3, Check="TRUE"), invariants=["Sane", "Cyclic", "Reversible", "UncoupledIsRho", "AlikeIsG", "Emit"],
                 data={"models.ndjson": [for_spec(m) for m in ms]}, label="all closed paths of 3 beads, one mode", workers=6)
    out.append((ms, ev))
    ms = models(rng, [(3, 1, 3, 0), (3, 1, 2, 1), (3, 2, 4, 0), (3, 2, 3, 1)] * (1 if not th else 4))
    ev = ctx.tlc("Integrand", dict(Coords="{-1, 0, 1}", MaxBeads=3, MinBeads=3, Check="FALSE"), invariants=["Sane", "Reversible", "Emit"], data={"models.ndjson": [for_spec(m) for m in ms]},
                 simulate=3 if not th else 40, depth=4, workers=1, label="three surfaces")
    out.append((ms, ctx.thin(ev, 60 if not th else 3000)))
    for P in ((4, 5) if not th else (4, 5, 6)):
        ms = models(rng, [(2, 2, 2, 0), (2, 2, 3, 0), (2, 2, 1, 1), (1, 3, 2, 0), (2, 3, 2, 0)] * (1 if not th or P > 5 else 4))
        ev = ctx.tlc("Integrand", dict(Coords="{-1, 0, 1}", MaxBeads=P, MinBeads=P, Check="FALSE"), invariants=["Sane", "Reversible", "Emit"], data={"models.ndjson": [for_spec(m) for m in ms]},
                     simulate=2 if not th else 12, depth=P + 1, workers=1, label=f"several modes, {P} beads")
        out.append((ms, ctx.thin(ev, 45 if P == 4 else 25) if not th else ctx.thin(ev, 800)))
    ms = models(rng, [(2, 1, 2, 0), (1, 1, 3, 0), (3, 1, 2, 0), (2, 1, 1, 0)], couple=False)
    for m in ms:          # the densities stay comparable over many beads
        m["v"]["phi"] = [[rng.randint(0, 1)]]
        m["r"]["w"] = list(m["v"]["w"])
    ev = ctx.tlc("LongPath", dict(Patterns="{<< <<0>> >>, << <<0>>, <<1>> >>, << <<-1>>, <<0>>, <<0>> >>, << <<1>>, <<1>>, <<0>>, <<-1>>, <<0>> >>}", Repeats="{3, 12, 40}"),
                 invariants=["Emit"], data={"models.ndjson": [for_spec(m) for m in ms]}, label="long paths of uncoupled systems")
    out.append((ms, ev))
    # high energies and hundreds of beads: the densities themselves cannot be represented any more, the ratios can
    ms = models(rng, [(2, 1, 2, 0), (1, 1, 3, 0), (2, 1, 1, 0), (3, 1, 3, 0), (2, 1, 2, 0)], couple=False)
    for m in ms:
        m["v"]["phi"] = [[rng.randint(0, 1)]]
        m["r"]["w"] = list(m["v"]["w"])
        m["v"]["k"] = [[rng.randint(-1, 1)]] * len(m["v"]["E"])
        m["r"]["k"] = [m["v"]["k"][0]] * len(m["r"]["E"])
        base = rng.choice([20, -20])
        m["v"]["E"] = [base + rng.randint(0, 1) for _ in m["v"]["E"]]
        m["r"]["E"] = [base + rng.randint(0, 1) for _ in m["r"]["E"]]
    for m in ms[-2:]:         # surfaces far above the lowest one, in any order
        for x in m.values():
            x["u"], x["z"] = 4, 1
            x["E"] = [base + (30 if a < len(x["E"]) - 1 else 0) for a in range(len(x["E"]))]
    ev = ctx.tlc("LongPath", dict(Patterns="{<< <<0>>, <<1>> >>, << <<-1>>, <<0>>, <<0>> >>}", Repeats="{100}"),
                 invariants=["Emit"], data={"models.ndjson": [for_spec(m) for m in ms]}, label="hundreds of beads, high energies")
    out.append((ms, [dict(e, far=1) for e in ev]))
    # coupling on many beads or many surfaces and modes
    ms = models(rng, [(2, 1, 2, 0), (2, 1, 3, 1), (3, 1, 2, 1), (8, 1, 9, 0)])
    for m in ms:
        alike(m)
        m["v"]["u"] = m["r"]["u"] = 256
        m["v"]["phi"] = [[rng.randint(0, 1)]]
        m["r"]["w"] = list(m["v"]["w"])
    ev = ctx.tlc("LongPath", dict(Patterns="{<< <<0>>, <<1>> >>, << <<1>>, <<1>>, <<0>>, <<-1>>, <<0>> >>}", Repeats="{3, 12, 40}"),
                 invariants=["Emit"], data={"models.ndjson": [for_spec(m) for m in ms]}, label="long paths of coupled surfaces that are alike")
    out.append((ms, ev))
    ms = models(rng, [(2, 7, 3, 0), (4, 7, 5, 0)]) + models(rng, [(8, 7, 12, 0)], couple=False)
    for m in ms[:2]:
        alike(m)
    ev = ctx.tlc("LongPath", dict(Patterns="{<< <<0,1,-1,0,1,0,1>>, <<1,0,0,-1,0,1,1>>, <<1,1,0,0,-1,-1,0>> >>, << <<0,0,1,0,0,0,1>>, <<1,0,0,0,1,1,-1>> >>}", Repeats="{2, 3}"),
                 invariants=["Emit"], data={"models.ndjson": [for_spec(m) for m in ms]}, label="seven modes")
    out.append((ms, ev))
    ms = models(rng, [(4, 1, 4, 0), (5, 1, 7, 0), (4, 4, 2, 0)])
    ev = ctx.tlc("Integrand", dict(Coords="{-1, 0, 1}", MaxBeads=3, MinBeads=3, Check="FALSE"), invariants=["Sane", "Emit"], data={"models.ndjson": [for_spec(m) for m in ms]},
                 simulate=1, depth=4, workers=1, label="four and five surfaces")
    out.append((ms, ctx.thin(ev, 12 if not th else 300)))
    return out


def alike(m):
    m["v"]["E"] = [m["v"]["E"][0]] * len(m["v"]["E"])
    m["v"]["k"] = [m["v"]["k"][0]] * len(m["v"]["E"])


def regimes(rng, m, beads, far):
    """values for the symbols of the specification: [(model, tau, dtau)]"""
    out = [(m, TAU, 2.0 ** -10 if far else 1)]
    N = len(m["v"]["w"])
    if far or max(abs(x) for x in m["v"]["E"] + m["r"]["E"]) > 10:
        return out
    near = rng.uniform(1e-5, 1e-3)

    def at(tau, lo, hi, dlo, dhi, u=None, spread=0.03, dtau=None):
        """frequencies times tau between lo and hi, length unit (times sqrt of the smallest one, if below one) between dlo and dhi"""
        xs = [math.exp(rng.uniform(math.log(lo), math.log(hi))) for _ in range(N)]
        d = rng.uniform(dlo, dhi) * min(1.0, math.sqrt(min(xs)))
        v = dict(m["v"], w=[x / tau / math.log(2) for x in xs], d=d)
        r = dict(m["r"], d=d)
        r["w"] = [w * (1 + rng.uniform(-spread, spread)) for w in v["w"]]
        if u:
            v["u"] = r["u"] = u
        return {"v": v, "r": r}, tau, dtau if dtau else tau * min(0.25, 1.5 / beads)
    # hundreds of kelvin, tenths of an eV
    tau = rng.uniform(20, 40) / beads
    out.append(at(tau, 0.01 * tau, 0.4 * tau, 0.2, 1.0, u=rng.choice([16, 64]), dtau=2e-4 / beads))
    # almost classical
    out.append(at(10 ** rng.uniform(-3, 0), 1e-4, 3e-3, 0.5, 1.0))
    # frozen modes
    out.append(at(rng.uniform(1, 3), 6, 45, 0.1, 0.4))
    # everything at once: stiff and soft modes together
    if N > 1:
        out.append(at(1.0, 1e-3, 30, 0.3, 0.8, spread=0.01))
        # almost degenerate modes
        x = rng.uniform(0.2, 2)
        out.append(at(2.0, x, x * (1 + near), 0.5, 1.0, spread=near))
    # weak coupling at any temperature
    out.append(at(rng.choice([0.5, 2.0]), 0.2, 2, 0.5, 1.0, u=40000))
    return out


def expected(m, tau, dtau, e):
    beads = len(e["path"])
    pd = 1 if e.get("flat") else m["v"]["pd"]       # short forms carry the whole factor
    u, d = m["v"]["u"], m["v"].get("d", 1)
    rho = log_terms(e["rho"], m["r"]["w"], tau, beads, 1, u, d)
    return rho, [log_terms(e["g"], m["v"]["w"], t, beads, pd, u, d) for t in (tau, tau + dtau, tau - dtau)]


def close(got, want, scale, tol=2e-9):
    return np.isfinite(got) and abs(got - want) <= tol * scale


def case_of(m, tau, dtau, e):
    return {"v": m["v"], "r": m["r"], "path": e["path"], "tau": tau, "dtau": dtau}


def run_batch(ctx, m, tau, dtau, events, all_routes):
    """all paths of one model with the same number of beads"""
    beads = len(events[0]["path"])
    X = len(events)
    case = lambda i: case_of(m, tau, dtau, events[i])
    rig = Rig(ctx)
    paths = np.array([np.array(e["path"], float).T.reshape(len(m["v"]["w"]), beads) for e in events])
    paths = paths * m["v"].get("d", 1)
    exp = [expected(m, tau, dtau, e) for e in events]
    divs = [b for b in range(1, X + 1) if X % b == 0]
    blocks = ctx.rng.choice(divs)

    def wrong(out, what):
        if isinstance(out, Raised):
            ctx.check(False, f"evaluating {what} failed", case(0), outcome=repr(out))
            return True
        return False

    rig.write(m["v"], m["r"])
    # ---- the sampled ratios, with and without the shifted temperatures
    routes = ((True, "json"), (False, "json"), (True, "attributes"), ctx.rng.choice([(True, "file"), (False, "file"), (True, "filestructure"), (False, "filestructure")]),
              (ctx.rng.random() < 0.5, "switched"))
    for pm, route in routes if all_routes else (routes[0], (False, ctx.rng.choice(["json", "file", "filestructure", "attributes", "switched"]))):
        data = ctx.call(rig.data, beads, tau, X, blocks, plus_minus=pm, route=route, dtau=dtau)
        if wrong(data, "a job (start)"):
            return
        want = dict(beta=beads * tau, tau=tau)
        if pm:
            want.update(beta_plus=beads * (tau + dtau), beta_minus=beads * (tau - dtau), tau_plus=tau + dtau, tau_minus=tau - dtau)
        want = {k: x * rig.z for k, x in want.items()}
        got = {k: float(getattr(data, k)) for k in want if hasattr(data, k)}
        ctx.check(all(abs(x - want[k]) <= 1e-9 * want[k] for k, x in got.items()), "temperatures of a job", case(0), got=got, want=want, route=route)
        par = {"id_data": 3, "id_rho": 1, "samples": X, "beads": beads, "blocks": blocks, "block_size": X // blocks, "states": rig.A, "modes": rig.N}
        got = {k: getattr(data, k) for k in par if hasattr(data, k)}
        ctx.check(got == {k: par[k] for k in got}, "parameters of a job", case(0), got=got, want=par, route=route)
        log = rig.inject(data, paths)
        res = rig.result(data, pm)
        if log is None:
            ctx.assumptions.append("paths could not be injected: integrand not compared")
            return
        out = ctx.call(rig.pimc.block_compute_pm if pm else rig.pimc.block_compute, data, res, timeout=120)
        if wrong(out, "a job"):
            return
        if sorted(i for view in log for i in view) != list(range(X)):
            continue        # samples not requested one by one: decided by P02
        for i in range(X):
            rho, g = exp[i]
            ctx.check(res.scaled_rho[i] > 0, "density of a sampled path is positive", case(i), got=res.scaled_rho[i])
            for name, got, num in (("g", res.scaled_g[i], g[0]),) + ((("g+", res.scaled_gofr_plus[i], g[1]), ("g-", res.scaled_gofr_minus[i], g[2])) if pm else ()):
                want, scale = ratio(num, rho)
                if math.isnan(want):
                    continue
                ctx.check(close(got / res.scaled_rho[i], want, scale), f"{name}/rho of a path", case(i), got=got / res.scaled_rho[i], want=want, plus_minus=pm, route=route, blocks=blocks)
            if pm and route == "json":
                ctx.count("path", case(i))
            if ctx.give_up:
                return
        with np.load(os.path.join(rig.FS.path_rho_results, res.name)) as f:
            ok = np.array_equal(f["s_rho"], res.scaled_rho) and np.array_equal(f["s_g"], res.scaled_g) and int(f["number_of_samples"]) == X
            if pm:
                ok = ok and np.array_equal(f["s_gP"], res.scaled_gofr_plus, equal_nan=True) and np.array_equal(f["s_gM"], res.scaled_gofr_minus, equal_nan=True)
        ctx.check(ok, "saved values are the calculated ones", case(0), plus_minus=pm)
    # ---- unscaled values
    want = [(total(rho), total(g[0])) for rho, g in exp]
    if all(1e-250 < w[0][1] < 1e250 for w in want) and all(1e-250 < w[1][1] < 1e250 for w in want):
        def unscaled():
            data = rig.data(beads, tau, X, blocks, plus_minus=False)
            res = rig.result(data, False, 1)
            rig.pimc.block_compute_rhoR_from_input_samples(data, res, paths.copy())
            rho = res.scaled_rho.copy()
            data = rig.data(beads, tau, X, blocks, plus_minus=False)
            res = rig.result(data, False, 2)
            log = rig.inject(data, paths)
            rig.pimc.block_compute_gR(data, res)
            if sorted(i for view in log for i in view) != list(range(X)):
                return rho, None
            return rho, res.scaled_g.copy()
        out = ctx.call(unscaled, timeout=120)
        if not wrong(out, "the unscaled integrand"):
            for i in range(X):
                ctx.check(close(out[0][i], *want[i][0]), "density of a given path", case(i), got=out[0][i], want=want[i][0][0], blocks=blocks)
                if out[1] is not None:
                    ctx.check(close(out[1][i], *want[i][1]), "integrand of a path", case(i), got=out[1][i], want=want[i][1][0], blocks=blocks)
        # training data: the stored coordinates go with the stored values
        real = np.random.random
        feed = iter(paths)

        def raw():
            data = rig.data(beads, tau, X, blocks, plus_minus=False)
            res = rig.result(data, False, 3)

            def fake(size=None):
                return np.array([next(feed) for _ in range(size[0])])
            np.random.random = fake
            try:
                rig.pimc.block_compute_gR_from_raw_samples(data, res)
            except StopIteration:
                return None
            finally:
                np.random.random = real
            files = sorted(os.listdir(rig.FS.path_rho_results))
            R = g = None
            for f in files:
                if f.endswith(".npz"):
                    with np.load(os.path.join(rig.FS.path_rho_results, f)) as z:
                        if "input_R_values" in z:
                            R = z["input_R_values"]
                        if "g" in z:
                            g = z["g"]
            return R, g
        out = ctx.call(raw, timeout=120)
        if not isinstance(out, Raised) and out is not None and out[0] is not None and out[1] is not None and out[0].shape == paths.shape:
            where = {tuple(np.round(p.ravel() / rig.d).astype(int)): i for i, p in enumerate(paths)}
            for i in range(X):
                j = where.get(tuple(np.round(out[0][i].ravel() / rig.d).astype(int)))
                if j is not None and np.array_equal(out[0][i], paths[j]):
                    ctx.check(close(out[1][i], *want[j][1]), "training data: value stored with a path", case(j), got=out[1][i], want=want[j][1][0], position=i)
        elif isinstance(out, Raised):
            wrong(out, "the training data")
    ctx.rmdir(rig.root)


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 101)
    for ms, events in plans(ctx):
        groups = {}
        for e in events:
            groups.setdefault((e["id"], len(e["path"])), []).append(e)
        for (i, beads), evs in groups.items():
            for k, (m, tau, dtau) in enumerate(regimes(rng, ms[i - 1], beads, evs[0].get("far"))):
                todo = [e for e in evs if ctx.want(case_of(m, tau, dtau, e))]
                if k and not ctx.thorough:
                    todo = todo[:12]
                if ctx.give_up:
                    return {"exhaustive": False}
                if todo:
                    run_batch(ctx, m, tau, dtau, todo, k == 0)
    return {"exhaustive": True}
