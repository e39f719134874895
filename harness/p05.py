"""P05 - results belong to the models they were calculated with.  Specification: spec/Provenance.tla"""
from .prov_common import World

INVS = ["NeverMixed", "PlotsAreOwn", "FreshIsCurrent", "TypeOK", "Emit"]
PROPS = ["SwitchDrops", "LabelsStay"]


def plans(ctx):
    one = dict(Rs="{0}", Versions="{1, 2}", Pairs="{<<3, 30000>>}", Js="{1}", Xs="{2}", MaxJobs=1)
    two = dict(Rs="{0, 10}", Versions="{1, 2}", Pairs="{<<3, 30000>>, <<3, 3000>>}", Js="{1, 11}", Xs="{2, 3}", MaxJobs=2)
    all_ops = '{"editvib", "editrho", "switch", "new", "hash", "job", "pool"}'
    out = []
    ex = ctx.tlc("Provenance", dict(one, MaxSteps=6, Ops=all_ops, Ends='{"pool"}'), spec="Spec", invariants=INVS, properties=PROPS,
                 label="one sampling model, exhaustive")
    out += ctx.thin(ex, 500 if not ctx.thorough else 20000)
    ex = ctx.tlc("Provenance", dict(two, Js="{1}", Xs="{2}", Pairs="{<<3, 30000>>}", MaxJobs=1, MaxSteps=5, Ops='{"editrho", "switch", "hash", "job", "pool"}', Ends='{"pool"}'),
                 spec="Spec", invariants=INVS, properties=PROPS, label="two sampling models, exhaustive")
    out += ctx.thin(ex, 400 if not ctx.thorough else 20000)
    ex = ctx.tlc("Provenance", dict(two, Js="{1}", Xs="{5}", Pairs="{<<3, 30000>>}", MaxJobs=0, MaxSteps=6, Ops='{"editvib", "editrho", "switch", "hash", "deposit", "plot"}', Ends='{"plot"}'),
                 spec="Spec", invariants=INVS, properties=PROPS, label="analysed values that are already there, exhaustive")
    out += ctx.thin([p for p in ex if len({h["op"] for h in p["hist"]}) > 3 and p["tfresh"] != p["tmine"] or p["hist"][-1]["op"] == "plot" and p["hist"][-1]["rows"]], 150 if not ctx.thorough else 6000)
    out += ctx.thin(ex, 150 if not ctx.thorough else 6000)
    sim = ctx.tlc("Provenance", dict(two, MaxSteps=24, Ops=all_ops, Ends='{"pool"}'), spec="Spec", invariants=INVS, simulate=40 if not ctx.thorough else 800, depth=25, workers=1,
                  label="long histories")
    sim = [p for p in sim if len(p["hist"]) == 25 or len(p["store"]) >= 2]
    out += ctx.thin(sim, 300 if not ctx.thorough else 6000)
    sim = ctx.tlc("Provenance", dict(two, MaxSteps=20, Ops='{"editvib", "editrho", "switch", "new", "hash", "job", "reference", "analyse", "plot"}', Ends='{"analyse", "plot"}'), spec="Spec",
                  invariants=INVS, simulate=40 if not ctx.thorough else 600, depth=21, workers=1, label="long histories with analyses")
    sim = [p for p in sim if p["store"] and any(h["op"] == "analyse" and h["out"] for h in p["hist"])]
    out += ctx.thin(sim, 40 if not ctx.thorough else 800)
    return out


def identities(ctx):
    """the identity of a model tells contents apart, whatever they differ in"""
    import os
    import numpy as np
    from pibronic.data import file_structure
    from pibronic.vibronic import vIO, VMK
    from .core import Raised
    th = ctx.thorough
    out = ctx.tlc("Identity", dict(Dims="{<<4, 1>>, <<2, 2>>}", Values="{1, 2, 3}", Arrays='{"E", "G1"}', MaxNonzero=3 if not th else 4, All="TRUE"), spec="Spec", view="View", invariants=["Emit"],
                  properties=["EditsShow"], label="contents of models")
    out = [c for c in out if len(c["v"]) >= 2] if not th else out
    out = ctx.thin(out, 700 if not th else 8000)
    more = ctx.tlc("Identity", dict(Dims="{<<2, 3>>, <<1, 1>>}", Values="{1}", Arrays='{"w", "E", "G1", "G2", "G3", "G4"}', MaxNonzero=2, All="FALSE"), spec="Spec", view="View",
                   invariants=["Emit"], properties=["EditsShow"], label="every array")
    out += more if th else ctx.thin(more, 120)
    # files of hundreds of kilobytes
    out += ctx.tlc("Identity", dict(Dims="{<<5, 24>>}", Values="{1, 2}", Arrays='{"E", "G1", "G2"}', MaxNonzero=1, All="FALSE"), spec="Spec", view="View", invariants=["Emit"],
                   properties=["EditsShow"], label="large models")
    groups = {}
    for c in out:
        # contents with the same values at permuted places come into one group
        groups.setdefault((tuple(c["d"]), tuple(sorted(e["x"] for e in c["v"])) if len(c["v"]) > 1 and max(c["d"]) < 9 else ()), []).append(c)
    root = ctx.newdir("ident")
    recs, meta = [], []
    for (d, vals), cs in groups.items():
        case = {"identities": [list(d), list(vals)]}
        if not ctx.want(case):
            continue
        A, N = d
        for kind in ("rho", "vib"):
            obs, ids = [], {}
            os.makedirs(os.path.join(root, f"{len(recs)}"), exist_ok=True)
            order = [(i, c) for i, c in enumerate(cs)]
            for i, c in order + order[:3]:
                FS = file_structure.FileStructure(os.path.join(root, f"{len(recs)}"), len(obs) % 2, i % 3)
                m = vIO.diagonal_model_zeros_template_json_dict(A, N) if kind == "rho" else vIO.model_zeros_template_json_dict(A, N)
                m[VMK.w][:] = 0.25
                if A * N > 9:       # no array is left out
                    m[VMK.G1][:], m[VMK.G2][:] = 0.125, 1 / 3
                for e in c["v"]:
                    k, x = e["i"] - 1, e["x"] * 0.5
                    if e["a"] == "w":
                        m[VMK.w][k] = x + 1
                    else:
                        arr = m[getattr(VMK, e["a"])]
                        at = (*np.unravel_index(k // A, arr.shape[:{"E": 0, "G1": 1, "G2": 2, "G3": 3, "G4": 4}[e["a"]]]), k % A)
                        arr[at if kind == "rho" else (*at, k % A)] = x
                (vIO.save_diagonal_model_to_JSON if kind == "rho" else vIO.save_model_to_JSON)(FS.path_rho_model if kind == "rho" else FS.path_vib_model, m)
                z = vIO.model_zeros_template_json_dict(A, N) if kind == "rho" else vIO.diagonal_model_zeros_template_json_dict(A, N)
                z[VMK.w][:] = 0.25
                (vIO.save_model_to_JSON if kind == "rho" else vIO.save_diagonal_model_to_JSON)(FS.path_vib_model if kind == "rho" else FS.path_rho_model, z)
                got = ctx.call(FS.generate_model_hashes)
                if isinstance(got, Raised):
                    ctx.check(False, "taking the identities failed", case, outcome=repr(got))
                    continue
                h = getattr(FS, "hash_" + kind, None)
                obs.append({"con": i, "id": ids.setdefault(repr(h), len(ids))})
            recs.append({"obs": obs})
            meta.append((case, kind))
            ctx.count("group of contents", case, validated=True)
            ctx.rmdir(os.path.join(root, f"{len(recs) - 1}"))
    bad = ctx.judge("IdentityOps", recs, "VerdictIdentities", label="identities") if recs else {}
    for k, clause in bad.items():
        ctx.check(False, clause, meta[k][0], of=meta[k][1], observed=recs[k]["obs"])
    ctx.rmdir(root)


def unlabelled(ctx):
    """a job that does not know the identities of its models leaves no results"""
    import os
    import random
    from .core import Raised
    from .pimc_common import Rig, coupled_model, sampling_model
    case = {"unlabelled": 1}
    if not ctx.want(case):
        return
    rng = random.Random(ctx.seed * 7919 + 55)
    rig = Rig(ctx)
    rig.write(coupled_model(rng, 2, 1, 0), sampling_model(rng, 2, 1))
    for pm in (True, False):
        for which in ("hash_vib", "hash_rho"):
            def go():
                data = rig.data(3, 2, 4, 2, plus_minus=pm)
                setattr(data, which, None)
                res = rig.result(data, pm)
                (rig.pimc.block_compute_pm if pm else rig.pimc.block_compute)(data, res)
            out = ctx.call(go)
            left = os.listdir(rig.FS.path_rho_results)
            ctx.check(isinstance(out, Raised) and not left, "results without the identities of their models were stored", case, missing=which, plus_minus=pm, files=left)
            ctx.count("unlabelled", case)
    ctx.rmdir(rig.root)


def run(ctx):
    identities(ctx)
    unlabelled(ctx)
    for plan in plans(ctx):
        if ctx.give_up:
            break
        if not ctx.want({"hist": plan["hist"]}):
            continue
        w = World(ctx, "P05")
        w.style = sum(len(h["op"]) + h.get("v", 0) for h in plan["hist"]) % 5      # a function of the history, so that a replay is the same
        w.replay(plan)
        ctx.count("history", {"hist": plan["hist"]})
        ctx.rmdir(w.root)
    return {"exhaustive": True}
