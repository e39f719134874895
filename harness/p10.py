"""P10 - model parameter files.  Specification: spec/ModelFile.tla, ModelFileOps.tla"""
import copy
import json
import os

import numpy as np

from .core import Raised
from .models import NAMES, key, shape, vmk

SPECIALS = [1.0 / 3.0, -0.1, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 1e-5, 123456789.123456789,
            0.30000000000000004, -1.0, 2.0 ** -52]


class Data:
    """concrete numbers behind the tokens of one behaviour"""
    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)
        self.store = {}

    def array(self, tok, kind, name, A, N):
        k = (tok, kind, name, A, N)
        if k not in self.store:
            shp = shape(kind, name, A, N)
            arr = self.rng.uniform(-2, 2, shp)
            flat = arr.reshape(-1)
            # some entries are awkward numbers or exactly zero; at least one is nonzero
            for i in range(flat.size):
                r = self.rng.randint(4)
                if r == 0:
                    flat[i] = SPECIALS[self.rng.randint(len(SPECIALS))]
                elif r == 1 and i > 0:
                    flat[i] = 0.0
            if flat[0] == 0.0:
                flat[0] = -0.25
            if self.rng.randint(3) == 0:    # only the very last entry is nonzero
                flat[:] = 0.0
                flat[-1] = SPECIALS[self.rng.randint(len(SPECIALS))]
            # distinct tokens must stand for distinct data
            while any(kk[1:] == k[1:] and np.array_equal(v, arr) for kk, v in self.store.items()):
                flat[-1] = self.rng.uniform(-2, 2)
            self.store[k] = arr
        return self.store[k]

    def token_of(self, arr, kind, name, A, N):
        """0 for all-zero, the token whose data it is exactly, -1 for anything else"""
        if arr is None:
            return 0
        arr = np.asarray(arr)
        if arr.size and not np.any(arr):
            return 0
        for (tok, kd, nm, a, n), ref in self.store.items():
            if (kd, nm, a, n) == (kind, name, A, N) and ref.shape == arr.shape and np.array_equal(ref, arr):
                return tok
        return -1


def run(ctx):
    from pibronic.vibronic import vIO
    V = vmk()
    save = {"full": vIO.save_model_to_JSON, "diag": vIO.save_diagonal_model_to_JSON}
    load = {"full": vIO.load_model_from_JSON, "diag": vIO.load_diagonal_model_from_JSON}
    root = ctx.newdir("models")

    # documented array shapes
    recs = []
    for A in range(1, 5):
        for N in range(1, 5):
            for kind, f in (("full", vIO.model_shape_dict), ("diag", vIO.diagonal_model_shape_dict)):
                out = ctx.call(f, A, N)
                z = ctx.call({"full": vIO.model_zeros_template_json_dict, "diag": vIO.diagonal_model_zeros_template_json_dict}[kind], A, N)
                case = {"shapes": [kind, A, N]}
                if isinstance(out, Raised) or isinstance(z, Raised):
                    ctx.check(False, "documented array shapes", case, outcome=[repr(out), repr(z)])
                    continue
                recs.append({"kind": kind, "A": A, "N": N, "shape": {n: list(out[key(n)]) for n in NAMES}})
                recs.append({"kind": kind, "A": A, "N": N, "shape": {n: list(z[key(n)].shape) for n in NAMES}})
                ctx.check(all(not np.any(z[key(n)]) for n in NAMES) and int(z[V.A]) == A and int(z[V.N]) == N, "zero template", case)
                ctx.count("shape table")
    for k, clause in ctx.judge("ModelFileOps", recs, "VerdictShapes").items():
        ctx.check(False, clause, {"shapes": [recs[k]["kind"], recs[k]["A"], recs[k]["N"]]}, observed=recs[k])

    nz_all = '{%s}' % ", ".join(
        "{%s}" % ", ".join(f'"{n}"' for i, n in enumerate(("E", "w", "G1", "G2", "G3", "G4")) if m >> i & 1)
        for m in range(64))
    nz_some = '{{"w"}, {"E","w"}, {"E","w","G1"}, {"w","G1","G2"}, {"E","w","G1","G2","G3","G4"}, {}}'
    behaviours = []
    # every pattern of all-zero arrays, saved and read back in both ways
    behaviours += ctx.tlc("ModelFile", dict(Paths="{1}", Dims="{<<1,1>>, <<2,1>>, <<1,2>>, <<2,3>>, <<3,2>>}", MaxSteps=1, NzSets=nz_all, Scripts="{}"),
                          invariants=["OneSavePerFile", "NoStale", "EmitFull"], constraints=[], label="every zero pattern")
    # exhaustive exploration of the state machine itself
    ctx.tlc("ModelFile", dict(Paths="{1,2}", Dims="{<<1,2>>, <<2,2>>}", MaxSteps=4, NzSets='{{"w"}, {"E","w","G1"}}', Scripts="{}"),
            invariants=["OneSavePerFile", "NoStale"], view="View", label="state machine, exhaustive")
    # (TLC's simulator evaluates the emitting invariant on every successor of the last step: thin)
    behaviours += ctx.thin(ctx.tlc("ModelFile", dict(Paths="{1,2}", Dims="{<<1,1>>, <<2,1>>, <<1,2>>, <<2,2>>}", MaxSteps=14, NzSets=nz_some, Scripts="{}"),
                          invariants=["OneSavePerFile", "NoStale", "EmitFull"], simulate=(250 if not ctx.thorough else 5000),
                          depth=16, workers=1, label="long histories"), 500 if not ctx.thorough else 20000)

    # in-place loads: every zero pattern over stale arrays, and sequences of loads into the same arrays
    scripted = ctx.tlc("ModelFile", dict(Paths="{1}", Dims="{<<2,1>>, <<1,2>>, <<2,2>>}", MaxSteps=3, NzSets=nz_all, Scripts='{<<"save", "alloc", "into">>}'),
                       invariants=["OneSavePerFile", "NoStale", "EmitScripted"], label="in-place load of every zero pattern")
    behaviours += [h for h in scripted if ctx.thorough or ctx.only_case or ctx.rng.random() < (1.0 if h[-1]["ok"] else 0.1)]
    behaviours += ctx.tlc("ModelFile", dict(Paths="{1,2}", Dims="{<<2,2>>, <<1,2>>}", MaxSteps=9, NzSets=nz_some,
                                            Scripts='{<<"save", "alloc", "into", "save", "into", "load", "save", "into", "into">>, '
                                                    '<<"save", "save", "alloc", "into", "into", "save", "savebad", "into", "into">>}'),
                          invariants=["OneSavePerFile", "NoStale", "EmitScripted"], simulate=(800 if not ctx.thorough else 6000), depth=12, workers=1,
                          label="sequences of in-place loads")

    recs, meta = [], []

    def observe(data, kind, model, A, N):
        """tokens of all arrays of a loaded dictionary"""
        got = {n: data.token_of(model.get(key(n)), kind, n, A, N) for n in NAMES}
        shp = {n: list(np.shape(model[key(n)])) if key(n) in model else [] for n in NAMES}
        return got, shp

    def do_load(data, path, after, case, step):
        kind, (A, N) = after["kind"], after["dims"]
        out = ctx.call(load[kind], path)
        rec = {"kind": kind, "expdims": [A, N], "exp": after["arr"], "refused": False, "dims": [0, 0], "energies": False,
               "got": {n: -1 for n in NAMES}, "shape": {n: [] for n in NAMES}}
        if isinstance(out, Raised) or not isinstance(out, dict):
            rec["refused"], rec["why"] = True, repr(out)
        else:
            rec["dims"] = [int(out.get(V.A, -1)), int(out.get(V.N, -1))]
            rec["energies"] = V.E in out
            rec["got"], rec["shape"] = observe(data, kind, out, A, N)
            for x in out.values():          # the loaded arrays belong to the caller
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = 7.75
        recs.append(rec)
        meta.append({"history": case, "step": step})
        d = ctx.call(vIO.extract_dimensions_of_model if kind == "full" else vIO.extract_dimensions_of_diagonal_model, path=path)
        ctx.check(not isinstance(d, Raised) and tuple(d) == (A, N), "dimensions read from a file", {"history": case, "step": step}, got=repr(d))

    for b, hist in enumerate(behaviours):
        if ctx.give_up:
            break
        if ctx.only_case is not None and json.dumps(hist, sort_keys=True) not in ctx.only_case:
            continue
        data = Data(ctx.seed * 7919 + b)
        d = os.path.join(root, f"b{b}")
        os.makedirs(d)
        buf = None
        for step, h in enumerate(hist):
            case = {"history": hist, "step": step}
            path = os.path.join(d, f"m{h.get('p', 0)}.json")
            if h["op"] == "save":
                A, N = h["dims"]
                model = {V.A: A, V.N: N}
                nz = h["nz"]
                for n in NAMES:
                    if n in nz:
                        model[key(n)] = data.array(h["tok"], h["kind"], n, A, N).copy()
                    elif (step + len(n) + b) % 2:
                        model[key(n)] = np.zeros(shape(h["kind"], n, A, N))
                before = copy.deepcopy(model)
                out = ctx.call(save[h["kind"]], path, model)
                ctx.check(not isinstance(out, Raised), "saving a well-formed model failed", case, outcome=repr(out))
                same = set(before) == set(model) and all(np.array_equal(before[k], model[k]) for k in before)
                ctx.check(same, "saving changed the model in memory", case)
                if not isinstance(out, Raised):
                    do_load(data, path, h["after"], hist, step)
            elif h["op"] == "savebad":
                A, N = h["dims"]
                with open(path, "rb") as fh:
                    text = fh.read()
                model = {V.A: A, V.N: N}
                for n in ("E", "w", "G1", "G2"):
                    model[key(n)] = data.array(h["tok"], h["kind"], n, A, N).copy()
                arr = model[key(h["bad"])]
                wrong = np.concatenate([arr, arr[:1]], axis=0) if (step + b) % 2 else arr[..., np.newaxis]
                model[key(h["bad"])] = wrong
                out = ctx.call(save[h["kind"]], path, model)
                ctx.check(isinstance(out, Raised), "a malformed model was saved", case, shape=list(wrong.shape))
                with open(path, "rb") as fh:
                    ctx.check(fh.read() == text, "a refused save changed the file", case)
            elif h["op"] == "load":
                do_load(data, path, h["after"], hist, step)
            elif h["op"] == "alloc":
                A, N = h["dims"]
                buf = {V.A: A, V.N: N}
                for n in NAMES:
                    buf[key(n)] = data.array(h["tok"], h["kind"], n, A, N).copy()
                bkind = h["kind"]
            elif h["op"] == "into":
                arrays = {n: buf[key(n)] for n in NAMES}
                out = ctx.call(load[bkind], path, buf)
                if h["ok"]:
                    ctx.check(not isinstance(out, Raised), "an in-place load failed", case, outcome=repr(out))
                    ctx.check(all(buf[key(n)] is arrays[n] for n in NAMES), "an in-place load did not use the given arrays", case)
                else:
                    if not ctx.check(isinstance(out, Raised), "arrays of other dimensions were filled from the file", case):
                        break
                A, N = h["after"]["dims"]
                got, shp = observe(data, bkind, buf, A, N)
                recs.append({"kind": bkind, "expdims": [A, N], "exp": h["after"]["arr"], "refused": False,
                             "dims": [int(buf[V.A]), int(buf[V.N])], "energies": True, "got": got, "shape": shp})
                meta.append(case)
        ctx.count("history" if len(hist) > 1 else "zero pattern", hist)
        ctx.rmdir(d)
    for k, clause in ctx.judge("ModelFileOps", recs, "VerdictLoad").items():
        ctx.check(False, clause, meta[k], observed=recs[k])
    return {"exhaustive": True, "judged_loads": len(recs)}
