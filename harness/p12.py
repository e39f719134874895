"""P12 - artificially coupled models.  Specification: spec/FakeCoupled.tla, ModelAlgebraOps.tla (VerdictRotate)"""
import builtins
import errno
import io
import os

import numpy as np

from .core import Raised
from .models import key, shape, symmetrise, vmk
from .p11 import SPEC_KEYS, int_model, ints

# exact rational orthonormal matrices (integer numerator, denominator)
MATS = {
    1: [(np.array([[1]]), 1), (np.array([[-1]]), 1), (np.array([[1]]), 1)],
    2: [(np.array([[3, -4], [4, 3]]), 5), (np.array([[0, 1], [1, 0]]), 1), (np.array([[5, 12], [12, -5]]), 13)],
    3: [(np.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]), 3), (np.array([[0, 0, 1], [1, 0, 0], [0, -1, 0]]), 1),
        (np.array([[2, 3, 6], [3, -6, 2], [6, 2, -3]]), 7)],
    4: [(np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [-1, 1, 1, -1]]), 2), (np.eye(4, dtype=int)[[2, 0, 3, 1]], 1),
        (np.array([[2, 3, 6, 0], [3, -6, 2, 0], [6, 2, -3, 0], [0, 0, 0, 7]]), 7)],
}
KEYSETS = [("E",), ("E", "G1"), ("E", "G1", "G2"), ("E", "G1", "G2", "G3", "G4"), ("G1", "G2"), ("E", "G2", "G4")]


class FailingOpen:
    """the k-th file opened for writing is left truncated and the write fails (disk full)"""
    def __init__(self, k):
        self.k, self.n, self.real = k, 0, builtins.open

    def __enter__(self):
        def fake(file, mode="r", *a, **kw):
            if any(c in mode for c in "wax+") and not isinstance(file, int):
                self.n += 1
                if self.n == self.k:
                    fh = self.real(file, mode, *a, **kw)
                    fh.close()
                    raise OSError(errno.ENOSPC, "No space left on device (injected)")
            return self.real(file, mode, *a, **kw)
        builtins.open, io.open = fake, fake
        return self

    def __exit__(self, *exc):
        builtins.open, io.open = self.real, self.real
        return False


def read(path):
    if not os.path.isfile(path):
        return None
    with open(path, "rb") as fh:
        return fh.read()


def skewed(A, g, n):
    """matrices that are not orthonormal, each in its own way"""
    near = g.copy()
    near[0, A - 1] += 1e-3
    kinds = [g * 1.01, g + np.eye(A) * 0.1, near, g * 0.0]
    if A > 1:
        c = np.eye(A)                      # unit columns that are not orthogonal
        c[:2, 1] = [0.6, 0.8]
        kinds += [c, c.T.copy(), np.ones((A, A)), np.diag([2.0] + [1.0] * (A - 2) + [0.5]), np.diag([1.0] * (A - 1) + [0.0])]
    return kinds[n % len(kinds)]


def run(ctx):
    from pibronic.vibronic import vIO
    from pibronic.data import file_structure
    V = vmk()
    rng = np.random.RandomState(ctx.seed + 12)
    root = ctx.newdir("fake")
    invs = ["Recoverable", "Consistent", "NeverRotatesAsymmetric"]
    bad = '{"notorth", "wrongsize", "string", "list", "bigtune", "negtune", "asym", "asymmodes", "reuse-nothing"}'
    base = dict(Mats="{1,2,3}", Tunings="{0, 1, 50, 100}", BadArgs=bad)
    plans = []
    ctx.tlc("FakeCoupled", dict(base, Dims="{<<2,1>>}", MaxSteps=5, AllowFaults="TRUE", BaseKinds='{"sym", "asym"}'),
            invariants=invs, view="View", label="life cycle with faults, exhaustive")
    plans += ctx.tlc("FakeCoupled", dict(base, Dims="{<<1,1>>, <<1,2>>, <<2,1>>, <<2,2>>, <<3,1>>, <<3,2>>, <<4,2>>}", MaxSteps=2,
                                         AllowFaults="TRUE", BaseKinds='{"sym"}'), invariants=invs + ["Emit"], label="single transformations and single faults")
    plans += ctx.tlc("FakeCoupled", dict(Mats="{1,3}", Tunings="{7}", BadArgs='{"notorth","asym"}', Dims="{<<2,2>>, <<3,1>>}", MaxSteps=4,
                                         AllowFaults="TRUE", BaseKinds='{"sym","asym"}'), invariants=invs + ["Emit"], label="sequences, exhaustive")
    plans += ctx.tlc("FakeCoupled", dict(base, Dims="{<<2,3>>, <<3,2>>, <<4,1>>}", MaxSteps=7, AllowFaults="FALSE", BaseKinds='{"sym","asym"}'),
                     invariants=invs + ["Emit"], simulate=(80 if not ctx.thorough else 3000), depth=40, workers=1, label="long sequences")

    recs, meta = [], []
    LIM = 2 ** 30

    for n, plan in enumerate(plans):
        if ctx.give_up:
            break
        if not ctx.want(plan):
            continue
        A, N = plan["dims"]
        d = os.path.join(root, f"p{n}")
        os.makedirs(d)
        FS = file_structure.FileStructure(d, 2, 5)
        keys = KEYSETS[n % len(KEYSETS)]
        den = 1          # the entries of the current model are integers over den (0: no longer known)
        cur = None       # current model in memory
        mats = {f"M{i + 1}": (m / q, m, q) for i, (m, q) in enumerate(MATS[A])}
        if n % 4 == 3 and A > 1:      # hardly anything changes, and not nothing
            turn = np.eye(A)
            turn[0, 1], turn[1, 0] = -3e-9, 3e-9
            mats["M2"] = (turn, None, 0)
        ok, loose = True, False
        # couplings of all magnitudes: the entries are integers times a power of two
        unit = 2.0 ** -45 if n % 3 == 1 and "asym" not in repr(plan["hist"]) else 1.0
        for step, h in enumerate(plan["hist"]):
            case = plan
            if h["op"] == "new":
                lim = 9 if A < 4 else 3
                cur = int_model(rng, "full", A, N, keys, lo=-lim, hi=lim)
                if h["kind"] == "asym" and A == 1:
                    pass
                elif h["kind"] == "asym":
                    k = [x for x in keys][step % len(keys)]
                    cur[key(k)][..., 0, A - 1] += 1      # no longer symmetric in the surfaces
                loose = (n + step) % 3 != 0
                if loose:     # cubic and quartic terms without the full symmetry in the modes; refused or transformed exactly
                    for k, back in (("G3", (0, 1, 2)), ("G4", (1, 0, 3, 2))):
                        if k in keys:
                            r = rng.randint(-lim, lim + 1, shape("full", k, A, N)).astype(float)
                            r = r + np.swapaxes(r, -1, -2)
                            m = len(back)
                            cur[key(k)] = cur[key(k)] + r + r.transpose(*back, m, m + 1)
                for k in SPEC_KEYS:
                    if key(k) in cur:
                        cur[key(k)] = cur[key(k)] * unit
                den = 1
                out = ctx.call(vIO.save_model_to_JSON, FS.path_vib_model, cur)
                if isinstance(out, Raised):
                    ctx.check(False, "saving a model failed", case, outcome=repr(out))
                    ok = False
                    break
                continue
            before = {p: read(getattr(FS, p)) for p in ("path_vib_model", "path_orig_model", "path_ortho_mat")}
            kw = {}
            if h["op"] == "given":
                kw["transformation_matrix"] = mats[h["mat"]][0].copy()
                if step % 2:
                    kw["tuning_parameter"] = 0.9      # must be ignored
            elif h["op"] == "auto":
                tune = h["t"] / 100.0 if h["t"] != 1 or n % 4 != 2 else 1e-9      # next to the identity
                kw["tuning_parameter"] = tune
                if tune == 0.01 and n % 2:
                    kw = {}      # the documented default is 0.01
            elif h["op"] == "reuse":
                kw["transformation_matrix"] = "re-use"
            else:
                g = mats["M1"][0].copy()
                k = h["kind"]
                if k == "notorth":
                    kw["transformation_matrix"] = skewed(A, g, n)
                elif k == "wrongsize":
                    kw["transformation_matrix"] = np.eye(A + 1)
                elif k == "string":
                    kw["transformation_matrix"] = "reuse"
                elif k == "list":
                    kw["transformation_matrix"] = g.tolist()
                elif k == "bigtune":
                    kw["tuning_parameter"] = 1.5
                elif k == "negtune":
                    kw["tuning_parameter"] = -0.5
                elif k == "reuse-nothing":
                    kw["transformation_matrix"] = "re-use"
                elif k == "asym":
                    if A == 1:
                        continue
                    kw["transformation_matrix"] = g
                elif k == "asymmodes":
                    # a model whose quadratic terms are not symmetric in the modes, put in place and taken away again
                    if N == 1:
                        continue
                    m2 = int_model(rng, "full", A, N, ("E", "G1", "G2"))
                    m2[V.G2][0, N - 1] += np.eye(A)
                    ctx.call(vIO.save_model_to_JSON, FS.path_vib_model, m2)
                    kw["transformation_matrix"] = g
                    b2 = read(FS.path_vib_model)
                    out = ctx.call(vIO.create_fake_coupled_model, FS, **kw)
                    after = read(FS.path_vib_model)
                    with open(FS.path_vib_model, "wb") as fh:
                        fh.write(before["path_vib_model"])
                    ctx.check(isinstance(out, Raised) and after == b2 and read(FS.path_orig_model) == before["path_orig_model"],
                              "an unusable request was not refused", case, step=step, kind=k)
                    continue
                out = ctx.call(vIO.create_fake_coupled_model, FS, **kw)
                ctx.check(isinstance(out, Raised), "an unusable request was not refused", case, step=step, kind=k)
                for p, b in before.items():
                    ctx.check(read(getattr(FS, p)) == b, "a refused transformation changed a file", case, step=step, kind=k, file=p)
                continue
            if "fault" in h:
                with FailingOpen(h["fault"]) as fo:
                    out = ctx.call(vIO.create_fake_coupled_model, FS, **kw)
                have = [read(FS.path_vib_model), read(FS.path_orig_model)]
                good = before["path_vib_model"] in have
                if not good:    # same model, other bytes?
                    loaded = [ctx.call(vIO.load_model_from_JSON, p) for p in (FS.path_vib_model, FS.path_orig_model)]
                    good = any(isinstance(m, dict) and all(np.array_equal(m.get(key(q)), cur[key(q)]) for q in keys) for m in loaded)
                ctx.check(good, "the model from before the transformation is lost after a failed write", case, step=step, fault=h["fault"], outcome=repr(out))
                if fo.n >= h["fault"]:
                    ctx.check(isinstance(out, Raised), "a failed write was not reported", case, step=step, fault=h["fault"])
                break
            out = ctx.call(vIO.create_fake_coupled_model, FS, **kw)
            if isinstance(out, Raised) and loose and all(read(getattr(FS, p)) == b for p, b in before.items()):
                ctx.count("refused for its cubic or quartic terms")
                break
            if isinstance(out, Raised):
                ctx.check(False, "the transformation failed", case, step=step, outcome=repr(out))
                ok = False
                break
            U = ctx.call(np.load, FS.path_ortho_mat)
            new = ctx.call(vIO.load_model_from_JSON, FS.path_vib_model)
            if not ctx.check(not isinstance(U, Raised) and np.shape(U) == (A, A) and not isinstance(new, Raised), "files after the transformation", case,
                             step=step, outcome=[repr(U), repr(new)]):
                ok = False
                break
            if h["op"] == "auto":
                ref = ctx.call(vIO.create_orthonormal_matrix_lambda_close_to_identity, A, tune)
                mats[h["mat"]] = (ref, None, 0)
            ref, num, q = mats[h["mat"]]
            if not ctx.check(not isinstance(ref, Raised) and np.array_equal(np.asarray(U), np.asarray(ref)), "stored transformation matrix", case,
                             step=step, got=np.asarray(U), want=ref):
                ok = False
                break
            # the backup is the previous model
            if read(FS.path_orig_model) != before["path_vib_model"]:
                o = ctx.call(vIO.load_model_from_JSON, FS.path_orig_model)
                same = isinstance(o, dict) and all(np.array_equal(o.get(key(k2), 0), cur[key(k2)]) for k2 in keys)
                ctx.check(same, "the backup is not the model from before the transformation", case, step=step)
            # floating point relation, for every array and mode index
            exact_possible = den and q and den * q * q <= 20000
            for k2 in SPEC_KEYS:
                old = np.asarray(cur.get(key(k2), np.zeros(shape("full", k2, A, N))))
                want = U @ old @ U.T
                got = np.asarray(new.get(key(k2), np.zeros(shape("full", k2, A, N))))
                ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9 * max(unit, np.abs(old).max())),
                          "entries of the transformed model", case, step=step, array=k2)
            if exact_possible:
                rec = {"A": A, "N": N, "keys": list(SPEC_KEYS), "refused": False, "exact": True, "U": num.tolist(),
                       "outdims": [int(new[V.A]), int(new[V.N])]}
                i1, e1 = ints(cur, SPEC_KEYS, "full", A, N, scale=den / unit)
                o1, e2 = ints(new, SPEC_KEYS, "full", A, N, scale=den * q * q / unit)
                big = max(np.abs(np.asarray(x, dtype=float)).max(initial=0) for x in list((i1 or {"a": 0}).values()))
                if i1 is not None and e1 and big * np.abs(num).max() ** 2 * A * A < LIM:
                    rec["in"] = i1
                    rec["out"], rec["exact"] = (o1, e2) if o1 is not None else ({k3: 0 for k3 in i1}, False)
                    recs.append(rec)
                    meta.append(dict(plan, step=step))
                den = den * q * q
            else:
                den = 0
            cur = {k3: (np.array(v) if isinstance(v, np.ndarray) else v) for k3, v in new.items()}
            for k2 in keys:
                cur.setdefault(key(k2), np.zeros(shape("full", k2, A, N)))
        ctx.count("life cycle", plan)
        ctx.rmdir(d)
    for k, clause in ctx.judge("ModelAlgebraOps", recs, "VerdictRotate").items():
        ctx.check(False, clause, meta[k], observed=recs[k])
    return {"exhaustive": True, "judged_transformations": len(recs)}
