"""P04 - pooling of stored samples.  Specification: spec/ResultStore.tla, ResultStoreOps.tla"""
import json
import math
import os
import random
from functools import partial

import numpy as np

from .core import Raised

KEYS = {"rho": "s_rho", "g": "s_g", "gp": "s_gP", "gm": "s_gM", "n": "number_of_samples"}
LACKS = {"junk": ("gm", "n"), "norho": ("rho",), "nog": ("g",), "nogp": ("gp",), "nogm": ("gm",), "non": ("n",)}
ZEROS = {"zero": lambda n: 1, "zmid": lambda n: min(2, n), "zlast": lambda n: n}
VALUES, IDS = {}, {}


def encode(which, j, ver, s):
    """value stored for one quantity of one sample: an arbitrary double of any magnitude (and, except for the
    sampling density, of any sign), different for every sample, from which its identity can be looked up"""
    if which != "rho" and j == 2 and s == 1:
        return 0.0          # only the density must not vanish; one value of a pool
    key = (which, j, ver, s)
    if key not in VALUES:
        rng = random.Random(repr(key))
        while True:
            x = math.ldexp(1.0 + rng.random(), rng.choice([0, 0, 1, -3, 40, -70, 900, -1000, -1040]))
            if which != "rho" and rng.random() < 0.5:
                x = -x
            if (which, x) not in IDS:
                break
        VALUES[key] = x
        IDS[(which, x)] = [j, ver, s]
    return VALUES[key]


def decode(which, x, files=()):
    """identity of the stored sample, or None"""
    if x == 0 and which != "rho":
        return next(([2, f["ver"], 1] for f in files if f["j"] == 2), None)
    return IDS.get((which, x))


def make_result(cls, data_root, f, P, T, file_name):
    res = cls(X=f["n"])
    res.partial_name = partial(file_name.pimc().format, P=P, T=T)
    res.path_root = data_root
    res.id_job = f["j"]
    res.hash_vib, res.hash_rho = "v", "r"
    ids = range(1, f["n"] + 1)
    res.scaled_rho = np.array([encode("rho", f["j"], f["ver"], s) for s in ids])
    res.scaled_g = np.array([encode("g", f["j"], f["ver"], s) for s in ids])
    if f["kind"] in ZEROS:
        res.scaled_rho[ZEROS[f["kind"]](f["n"]) - 1] = 0.0 if f["ver"] % 2 else -0.0
    if f["kind"] != "basic":
        res.scaled_gofr_plus = np.array([encode("gp", f["j"], f["ver"], s) for s in ids])
        res.scaled_gofr_minus = np.array([encode("gm", f["j"], f["ver"], s) for s in ids])
    return res


def observe(cls_name, obj, files):
    rec = {"refused": False, "samples": int(obj.samples), "undef": 0}
    arrays = {"rho": obj.scaled_rho, "g": obj.scaled_g}
    if cls_name == "pm":
        arrays["gp"] = obj.scaled_gofr_plus
        arrays["gm"] = obj.scaled_gofr_minus
    lens = {len(a) for a in arrays.values()}
    if len(lens) != 1:
        rec["undef"] += 1
    for k in ("rho", "g", "gp", "gm"):
        out = []
        for x in arrays.get(k, []):
            d = decode(k, float(x), files)
            if d is None:
                rec["undef"] += 1
                d = [0, 0, 0]
            out.append(d)
        rec[k] = out
    n = min(len(rec["rho"]), len(rec["g"])) if cls_name == "basic" else min(len(rec[k]) for k in ("rho", "g", "gp", "gm"))
    for k in ("rho", "g", "gp", "gm"):
        rec[k] = rec[k][:n]
    return rec


EMPTY = {"refused": True, "samples": 0, "undef": 0, "rho": [], "g": [], "gp": [], "gm": []}


def run(ctx):
    from pibronic.pimc import pimc
    from pibronic.data import file_name, file_structure, postprocessing
    classes = {"pm": pimc.BoxResultPM, "basic": pimc.BoxResult}
    invs = ["NoSampleTwice", "NeverMoreThanAsked", "OnlyCurrentFiles", "CompleteWhenDone", "JudgeAgrees", "NoStuckPool", "Emit"]

    sizes = "{1, 2, 3}" if not ctx.thorough else "{1, 2, 3, 4}"
    caps = "{0, 1, 2, 3, 4, 5}" if not ctx.thorough else "{0, 1, 2, 3, 4, 5, 6, 7, 9, 20}"
    cases = ctx.tlc("ResultStore", dict(Jobs="{1,2,3}", Sizes=sizes, KindSet='{"pm","basic","junk","zero"}',
                                        MaxSaves=3, Caps=caps, Ordered="TRUE"),
                    invariants=invs, label="all multisets of up to three files")
    sim = ctx.tlc("ResultStore", dict(Jobs="{1,2,3,4,5}", Sizes="{1,2,3,5,8}", KindSet='{"pm","basic","junk"}',
                                      MaxSaves=12, Caps="{0,1,4,7,11,16,40}", Ordered="FALSE"),
                  invariants=invs, label="long save histories with overwriting",
                  simulate=(150 if not ctx.thorough else 3000), depth=24, workers=1)
    odd = ctx.tlc("ResultStore", dict(Jobs="{1,2}" if not ctx.thorough else "{1,2,3}", Sizes="{1, 3}", MaxSaves=2 if not ctx.thorough else 3,
                                      KindSet='{"pm","basic","junk","zero","zmid","zlast","norho","nog","nogp","nogm","non"}',
                                      Caps="{0, 1, 2, 4, 6}", Ordered="TRUE"),
                  invariants=invs, label="files with exactly one thing wrong")
    big = ctx.tlc("ResultStore", dict(Jobs="{1,2,3,4,5}", Sizes="{1, 64, 101, 150}", KindSet='{"pm","zlast","nogm"}',
                                      MaxSaves=6, Caps="{0, 63, 100, 128, 300, 1000}", Ordered="FALSE"),
                  invariants=invs, label="large files", simulate=(8 if not ctx.thorough else 100), depth=12, workers=1)
    seen, todo = set(), []
    for c in cases + sim + odd + big:
        key = json.dumps(c, sort_keys=True)
        if key not in seen:
            seen.add(key)
            todo.append(c)

    P, T = 3, 300.00
    written = {}
    records, meta = [], []
    root = ctx.newdir("store")

    def materialise(saves):
        key = json.dumps(saves)
        if key in written:
            return written[key]
        d = os.path.join(root, f"s{len(written)}") + "/"
        os.makedirs(d)
        for f in saves:
            if f["kind"] in LACKS:
                # an archive of the same name that lacks required entries
                res = make_result(classes["pm"], d, f, P, T, file_name)
                path = os.path.join(d, file_name.pimc().format(P=P, T=T, J=f["j"]))
                entries = {"rho": res.scaled_rho, "g": res.scaled_g, "gp": res.scaled_gofr_plus,
                           "gm": res.scaled_gofr_minus, "n": f["n"]}
                np.savez(path, hash_vib="v", hash_rho="r",
                         **{KEYS[k]: v for k, v in entries.items() if k not in LACKS[f["kind"]]})
                continue
            kind = "basic" if f["kind"] == "basic" else "pm"
            res = make_result(classes[kind], d, f, P, T, file_name)
            out = ctx.call(res.save_results, f["n"])
            if isinstance(out, Raised):
                ctx.check(False, "saving results failed", {"file": f}, outcome=repr(out))
        written[key] = d
        return d

    for c in todo:
        if ctx.give_up:
            break
        if not ctx.want(c):
            continue
        d = materialise(c["saves"])
        names = [file_name.pimc().format(P=P, T=T, J=f["j"]) for f in c["files"]]
        on_disk = sorted(os.listdir(d))
        if not ctx.check(on_disk == sorted(names), "saved files", c, on_disk=on_disk, expected=sorted(names)):
            continue
        paths = [os.path.join(d, n) for n in names]
        ctx.rng.shuffle(paths)
        obj = classes[c["cls"]]()
        if len(records) % 3 == 0:
            # an object that has pooled something else before
            ctx.call(obj.load_multiple_results, list(reversed(paths)), desired_number_of_samples=1 + len(records) % 5)
        if c["cap"]:
            out = ctx.call(obj.load_multiple_results, paths, desired_number_of_samples=c["cap"])
        else:
            out = ctx.call(obj.load_multiple_results, paths)
        rec = dict(EMPTY, why=repr(out)) if isinstance(out, Raised) else observe(c["cls"], obj, c["files"])
        rec.update(cls=c["cls"], files=c["files"], cap=c["cap"])
        records.append(rec)
        meta.append(c)
        ctx.count("pool " + c["cls"], c)
    for k, clause in ctx.judge("ResultStoreOps", records, "Verdict").items():
        ctx.check(False, clause, meta[k], observed=records[k])

    # single files, into fresh objects and into objects made for a given number of samples
    records, meta = [], []
    n_max = 3 if not ctx.thorough else 6
    for n in range(1, n_max + 1):
        for kind in ("pm", "basic", "junk", "norho", "nog", "nogp", "nogm", "non"):
            f = {"j": 7, "ver": n, "n": n, "kind": kind}
            for cls in ("pm", "basic"):
                for expect in range(0, n_max + 2):
                    case = {"one": f, "cls": cls, "expect": expect}
                    if not ctx.want(case):
                        continue
                    d = materialise([f])
                    path = os.path.join(d, file_name.pimc().format(P=P, T=T, J=7))
                    obj = classes[cls](X=expect) if expect else classes[cls]()
                    out = ctx.call(obj.load_results, path)
                    rec = dict(EMPTY, why=repr(out)) if isinstance(out, Raised) else observe(cls, obj, [f])
                    rec.update(cls=cls, files=[f], expect=expect)
                    records.append(rec)
                    meta.append(case)
                    ctx.count("load one", case)
    for k, clause in ctx.judge("ResultStoreOps", records, "VerdictOne").items():
        ctx.check(False, clause, meta[k], observed=records[k])

    # the collection step of the analysis: all files of one (P, T) of a data set, and only those
    froot = ctx.newdir("fs")
    FS = file_structure.FileStructure(froot, 1, 0)
    with open(FS.path_vib_model, "w") as fh:
        fh.write("{\"model\": 1}")
    with open(FS.path_rho_model, "w") as fh:
        fh.write("{\"model\": 2}")
    FS.generate_model_hashes()
    pairs = [(3, 300.0), (30, 300.0), (3, 30.0), (13, 300.25), (3, 300.25), (33, 300.0), (3, 1300.0), (3, 0.3), (3, 300.3), (3, 2300.0), (103, 300.0)]
    ver = 0
    groups = {}
    for p, t in pairs:
        for j in (1, 2, 11):
            ver += 1
            f = {"j": j, "ver": ver, "n": 1 + (ver % 4), "kind": "pm"}
            res = make_result(classes["pm"], FS.path_rho_results, f, p, t, file_name)
            res.hash_vib, res.hash_rho = FS.hash_vib, FS.hash_rho
            ctx.call(res.save_results, f["n"])
            groups.setdefault((p, t), []).append(f)
        if ver % 2:         # results of other models, left behind in the same directory
            ver += 1
            f = {"j": 21, "ver": ver, "n": 3, "kind": "pm"}
            res = make_result(classes["pm"], FS.path_rho_results, f, p, t, file_name)
            res.hash_vib, res.hash_rho = (FS.hash_vib, "r") if ver % 4 else ("v", FS.hash_rho)
            ctx.call(res.save_results, f["n"])
    # many jobs, many samples
    for (p, t), js, size in (((20, 77.77), range(0, 140), lambda j: 1 + j % 3), ((21, 77.77), (1, 2, 1000000), lambda j: 3000)):
        for j in js:
            ver += 1
            f = {"j": j, "ver": ver, "n": size(j), "kind": "pm"}
            res = make_result(classes["pm"], FS.path_rho_results, f, p, t, file_name)
            res.hash_vib, res.hash_rho = FS.hash_vib, FS.hash_rho
            ctx.call(res.save_results, f["n"])
            groups.setdefault((p, t), []).append(f)
    records, meta = [], []
    for (p, t), files in groups.items():
        case = {"group": [p, t], "files": files}
        if not ctx.want(case):
            continue
        obj = pimc.BoxResultPM()
        out = ctx.call(postprocessing.load_pimc_data, FS, p, t, obj)
        rec = dict(EMPTY, why=repr(out)) if isinstance(out, Raised) else observe("pm", obj, files)
        rec.update(cls="pm", files=files, cap=0)
        records.append(rec)
        meta.append(case)
        ctx.count("collect", case)
    for k, clause in ctx.judge("ResultStoreOps", records, "Verdict", label="judge collection by (P,T)").items():
        ctx.check(False, clause, meta[k], observed=records[k])
    ctx.assumptions += ["paths handed to a pooling call are distinct (they come from a directory listing)"]
    return {"exhaustive": True}
