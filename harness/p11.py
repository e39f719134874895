"""P11 - models derived from a coupled model.  Specification: spec/Derive.tla, ModelAlgebraOps.tla"""
import copy
import itertools as it
import os

import numpy as np

from .core import Raised
from .models import NAMES, key, shape, symmetrise, vmk

SPEC_KEYS = ("E", "G1", "G2", "G3", "G4")


def int_model(rng, kind, A, N, keys, lo=-9, hi=9, w=None):
    V = vmk()
    m = {V.A: A, V.N: N}
    m[key("w")] = np.array(w if w is not None else [int(x) for x in rng.randint(1, 5, N)], dtype=float)
    for n in keys:
        arr = rng.randint(lo, hi + 1, shape(kind, n, A, N)).astype(float)
        if kind == "full":
            arr = symmetrise(arr, n)
        m[key(n)] = arr
    return m


def ints(model, keys, kind, A, N, scale=1):
    """the arrays of a model as nested integer lists; second value tells if the scaled entries are integers"""
    out, exact = {}, True
    for n in tuple(keys) + ("w",):
        k = key(n)
        arr = np.asarray(model[k], dtype=float) if k in model else np.zeros(shape(kind, n, A, N))
        if arr.shape != shape(kind, n, A, N):
            return None, False
        s = arr if n == "w" else arr * scale
        r = np.rint(s)
        if not np.all(np.isfinite(s)) or np.abs(s - r).max(initial=0) > 1e-6 * max(1, np.abs(s).max(initial=0)):
            exact = False
            r = np.where(np.isfinite(r), r, 0)
        out[n] = r.astype(int).tolist()
    return out, exact


def same_model(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


def run(ctx):
    from pibronic.vibronic import vIO
    from pibronic.data import file_structure
    V = vmk()
    rng = np.random.RandomState(ctx.seed + 11)
    root = ctx.newdir("d")

    plans = ctx.tlc("Derive", dict(As="{1,2,3}", Ns="{1,2}", MaxActs=(4 if not ctx.thorough else 5)), invariants=["Emit", "SourceUntouched", "HarmonicIsSampling"],
                    label="derivation pipeline")
    recs, meta = [], []
    reps = 1 if not ctx.thorough else 12
    uid = 0
    for rep in range(reps):
        for plan in plans:
            if ctx.give_up or not ctx.want(plan):
                continue
            A, N, keys = plan["A"], plan["N"], sorted(plan["keys"])
            uid += 1
            d = os.path.join(root, f"m{uid}")
            os.makedirs(d)
            FS = file_structure.FileStructure(d, 3, 1)
            model = int_model(rng, "full", A, N, keys)
            files = {}
            failed = None
            for act in plan["acts"]:
                if act == "save":
                    out = ctx.call(vIO.save_model_to_JSON, FS.path_vib_model, model)
                elif act == "harmonic":
                    out = ctx.call(vIO.create_harmonic_model, FS)
                elif act == "sampling":
                    out = ctx.call(vIO.create_basic_diagonal_model, FS)
                elif act == "remove":
                    out = ctx.call(vIO.remove_coupling_from_model, FS.path_vib_model, os.path.join(d, "x.json"))
                elif act == "change":    # the coupled model is replaced by another one
                    model = int_model(rng, "full", A, N, keys)
                    out = ctx.call(vIO.save_model_to_JSON, FS.path_vib_model, model)
                    if uid % 2:              # a copy that kept its time stamp
                        os.utime(FS.path_vib_model, (10 ** 9, 10 ** 9))
                if isinstance(out, Raised):
                    failed = (act, out)
                    break
                if act in ("save", "change"):
                    files["source"] = open(FS.path_vib_model, "rb").read()
                    continue
                path = {"harmonic": FS.path_har_model, "sampling": FS.path_rho_model, "remove": os.path.join(d, "x.json")}[act]
                if act in ("harmonic", "sampling"):
                    ctx.check(out is not None and os.path.abspath(out) == os.path.abspath(path), "path of the derived model", plan, act=act, got=repr(out))
                outm = ctx.call(vIO.load_diagonal_model_from_JSON, path)
                rec = {"A": A, "N": N, "keys": keys, "refused": False, "outdims": [0, 0], "source_changed": False}
                rec["in"], _ = ints(model, SPEC_KEYS, "full", A, N)
                rec["out"] = {n: 0 for n in NAMES}
                if isinstance(outm, Raised):
                    rec["refused"] = True
                else:
                    rec["outdims"] = [int(outm[V.A]), int(outm[V.N])]
                    o, exact = ints(outm, SPEC_KEYS, "diag", A, N)
                    rec["refused"] = o is None or not exact
                    rec["out"] = o or rec["out"]
                rec["keys"] = list(SPEC_KEYS)
                rec["source_changed"] = open(FS.path_vib_model, "rb").read() != files["source"]
                recs.append(rec)
                meta.append(dict(plan, act=act))
                if act == "sampling":
                    ctx.check(open(FS.path_rho_model, "rb").read() == open(FS.path_har_model, "rb").read(),
                              "sampling model differs from the harmonic model", plan)
            if failed:
                ctx.check(False, "deriving a model failed", plan, act=failed[0], outcome=repr(failed[1]))
            ctx.count("derivation", plan)
            ctx.rmdir(d)
    for k, clause in ctx.judge("ModelAlgebraOps", recs, "VerdictUncouple").items():
        ctx.check(False, clause, meta[k], observed=recs[k])

    # in-memory variant
    recs, meta = [], []
    for A, N in it.product((1, 2, 3), (1, 2, 3) if ctx.thorough else (1, 2)):
        for keys in (("E",), ("E", "G1"), ("E", "G1", "G2"), ("G1",), ("E", "G1", "G2", "G3", "G4")):
            case = {"zero_off": [A, N, list(keys)]}
            if not ctx.want(case):
                continue
            model = int_model(rng, "full", A, N, keys)
            before = copy.deepcopy(model)
            out = ctx.call(vIO.fill_offdiagonal_of_model_with_zeros, model)
            rec = {"A": A, "N": N, "keys": list(keys), "refused": isinstance(out, Raised)}
            rec["in"], _ = ints(before, SPEC_KEYS, "full", A, N)
            rec["out"], ex = ints(model, SPEC_KEYS, "full", A, N)
            rec["refused"] = rec["refused"] or rec["out"] is None or not ex
            rec["out"] = rec["out"] or {n: 0 for n in NAMES}
            recs.append(rec)
            meta.append(case)
            ctx.count("zero off-diagonal", case)
    for k, clause in ctx.judge("ModelAlgebraOps", recs, "VerdictZeroOff").items():
        ctx.check(False, clause, meta[k], observed=recs[k])

    # lowest adiabatic energies and re-weighting
    recs, meta = [], []
    R = {1: (np.eye(1), 1), 2: (np.array([[3., -4.], [4., 3.]]) / 5, 25),
         3: (np.array([[2., -1., 2.], [2., 2., -1.], [-1., 2., 2.]]) / 3, 9)}

    def adiabatic(case, parts, N, Ad, rep, quadratic=False, dquadratic=False):
        """parts: sizes of the blocks of coupled surfaces"""
        A = sum(parts)
        s = 225 if {2, 3} <= set(parts) else R[max(parts)][1]
        w = rng.randint(1, 3, N)
        wd = rng.randint(1, 3, N)
        D = rng.randint(-3, 4, A)
        L = rng.randint(-2, 3, (N, A))
        lin = rng.randint(-2, 3, (N, Ad)) * wd[:, None]
        Q = rng.randint(-2, 3, (N, N, A)) * int(quadratic)
        Q = Q + Q.swapaxes(0, 1)
        if quadratic:
            Q[0, 0, 0] += 1 if Q[0, 0, 0] >= 0 else -1
        if rep == 0:
            lin[:] = 0
        if rep == 1:
            L[:] = 0
        if rep == 2:
            D[:] = 0
        order = rng.permutation(A)
        if not ctx.want(case):
            return
        U = np.zeros((A, A))
        blocks, at = [], 0
        for p in parts:
            ix = order[at:at + p]
            U[np.ix_(ix, ix)] = R[p][0]
            blocks.append([int(i) + 1 for i in ix])
            at += p
        E = U @ np.diag(D) @ U.T
        G1 = np.array([U @ np.diag(L[i]) @ U.T for i in range(N)])
        G2 = np.array([[U @ np.diag(Q[i, j]) @ U.T for j in range(N)] for i in range(N)])
        d = ctx.newdir("ad")
        FS = file_structure.FileStructure(d, 0, 0)
        unit = (1.0, 2.0 ** -10, 2.0 ** -4, 2.0 ** 10)[(rep + A + N + Ad) % 4]          # all energies in this unit
        cm = {V.A: A, V.N: N, V.w: w * unit, V.E: E * unit, V.G1: G1 * unit}
        if quadratic:
            cm[V.G2] = G2 * unit
        ctx.call(vIO.save_model_to_JSON, FS.path_vib_model, cm)
        dm = {V.A: Ad, V.N: N, V.w: wd * unit, V.E: rng.uniform(-1, 1, Ad) * unit, V.G1: lin * unit}
        if dquadratic:
            dm[V.G2] = np.zeros((N, N, Ad))
            dm[V.G2][N - 1, N - 1, Ad - 1] = 0.25 * unit
        ctx.call(vIO.save_diagonal_model_to_JSON, FS.path_iter_model, dm)
        before = open(FS.path_iter_model).read()
        out = ctx.call(vIO.simple_single_point_energy_calculation, FS, FS.path_iter_model)
        rec = {"A": A, "N": N, "Ad": Ad, "s": s, "w": w.tolist(), "wd": wd.tolist(), "lin": lin.tolist(), "blocks": blocks, "quadratic": quadratic, "dquadratic": dquadratic,
               "E": np.rint(E * s).astype(int).tolist(), "G1": np.rint(G1 * s).astype(int).tolist(), "G2": np.rint(G2 * s).astype(int).tolist(),
               "refused": isinstance(out, Raised), "exact": True, "e2": [], "new2": [], "reweight": True, "others_changed": False}
        if rec["refused"]:
            ctx.call(vIO.recalculate_energy_values_of_diagonal_model, FS, FS.path_iter_model)
            rec["others_changed"] = open(FS.path_iter_model).read() != before
        else:
            x = np.asarray(out, dtype=float) / unit * 2 * s
            rec["exact"] = bool(np.all(np.isfinite(x)) and np.abs(x - np.rint(x)).max() < 1e-6)
            rec["e2"] = np.rint(np.where(np.isfinite(x), x, 0)).astype(int).tolist()
            out2 = ctx.call(vIO.recalculate_energy_values_of_diagonal_model, FS, FS.path_iter_model)
            new = ctx.call(vIO.load_diagonal_model_from_JSON, FS.path_iter_model)
            if isinstance(out2, Raised) or isinstance(new, Raised):
                rec["refused"] = True
            else:
                y = np.asarray(new[V.E]) / unit * 2 * s
                # whatever the energies were before, also if they were almost right
                near = dict(new)
                near[V.E] = np.asarray(new[V.E]) * (1 + rng.choice([1e-4, 1e-6, 1e-2], Ad))
                ctx.call(vIO.save_diagonal_model_to_JSON, FS.path_iter_model, near)
                ctx.call(vIO.recalculate_energy_values_of_diagonal_model, FS, FS.path_iter_model)
                again = ctx.call(vIO.load_diagonal_model_from_JSON, FS.path_iter_model)
                rec["others_changed"] = isinstance(again, Raised)
                if not isinstance(again, Raised):
                    ctx.check(bool(np.all(np.abs(np.asarray(again[V.E]) - new[V.E]) <= 1e-12 * unit * s)), "new energies depend on the ones that were stored before", case, first=new[V.E], again=again[V.E])
                rec["exact"] = rec["exact"] and bool(np.abs(y - np.rint(y)).max() < 1e-6)
                rec["new2"] = np.rint(y).astype(int).tolist()
                g1 = new.get(V.G1, np.zeros((N, Ad)))
                rec["others_changed"] = rec["others_changed"] or not (np.array_equal(new[V.w], dm[V.w]) and np.array_equal(g1, dm[V.G1])
                                             and int(new[V.A]) == Ad and int(new[V.N]) == N)
        recs.append(rec)
        meta.append(case)
        ctx.count("adiabatic energy", case)
        ctx.rmdir(d)

    n_rep = 6 if not ctx.thorough else 60
    for A, N, Ad in it.product((1, 2, 3), (1, 2, 3), (1, 2, 4)):
        for rep in range(n_rep):
            adiabatic({"adiabatic": [A, N, Ad, rep]}, [A], N, Ad, rep)
        adiabatic({"adiabatic": [A, N, Ad, "quadratic"]}, [A], N, Ad, 9, quadratic=True)
        adiabatic({"adiabatic": [A, N, Ad, "diagonal quadratic"]}, [A], N, Ad, 9, dquadratic=True)
    for parts, N, Ad in (([3, 3, 1], 5, 9), ([2, 1, 2, 1, 2, 2, 1], 4, 12), ([3, 1, 3], 12, 2)):
        for rep in range(3, 3 + n_rep // 3):
            adiabatic({"adiabatic": [parts, N, Ad, rep]}, parts, N, Ad, rep)
    for k, clause in ctx.judge("ModelAlgebraOps", recs, "VerdictAdiabatic").items():
        ctx.check(False, clause, meta[k], observed=recs[k])
    return {"exhaustive": True}
