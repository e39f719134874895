"""P14 - names of files and folders.  Specification: spec/Layout.tla, Listing.tla, LayoutOps.tla"""
import os
import shutil
import types

from .core import Raised

ROOTS = ["plain", "PROJECT_P7_T3.50_J9_X2", "with space/sos_B3_trotter_P2", "results/P1_T2.00_J3_data_points", "a_B7.json", "a[1]b/x{P}y*z", "{}[!a]?"]


def norm(p):
    return os.path.normpath(os.path.abspath(str(p)))


def run(ctx):
    from pibronic.data import file_name, file_structure, postprocessing as pp
    FSC = file_structure.FileStructure
    consts = dict(Ds="{0, 3, 12}", Rs="{0, 1, 10}", Ps="{1, 3, 10, 13, 100}", Ts="{1, 10, 100, 3005, 30000, 30025, 123456}", Js="{0, 1, 11, 100}")
    plans = ctx.tlc("Layout", dict(consts, Removals="FALSE", MaxSteps=3), invariants=["Injective", "ObjKnown", "Emit"], label="object life cycle, exhaustive")
    more = ctx.tlc("Layout", dict(consts, Removals="FALSE", Ds="{1}", Rs="{0,2}", MaxSteps=5), invariants=["Injective", "ObjKnown", "Emit"], label="longer life cycles")
    plans += ctx.thin([p for p in more if [h["op"] for h in p["hist"]].count("fill")], 200 if not ctx.thorough else 10 ** 6)
    plans += ctx.thin(more, 300 if not ctx.thorough else 10 ** 6)
    gone = ctx.tlc("Layout", dict(consts, Removals="TRUE", Ds="{1}", Rs="{0,2}", MaxSteps=4), invariants=["ObjKnown", "Emit"], label="folders disappear")
    gone = [p for p in gone if any(h["op"] == "remove" for h in p["hist"])]
    # removed last: only the answer; otherwise something is made again afterwards
    plans += ctx.thin([p for p in gone if p["hist"][-1]["op"] == "remove"], 60 if not ctx.thorough else 2000)
    plans += ctx.thin([p for p in gone if p["hist"][-1]["op"] in ("change", "make", "makeall", "verify")], 160 if not ctx.thorough else 4000)
    cwd0 = os.getcwd()
    for n, plan in enumerate(plans):
        if ctx.give_up:
            break
        if not ctx.want(plan):
            continue
        base = ctx.newdir("lay")
        root = os.path.join(base, ROOTS[n % len(ROOTS)])
        os.makedirs(root)
        elsewhere = os.path.join(base, "elsewhere")
        os.makedirs(elsewhere)
        relative = any(h["op"] == "chdir" for h in plan["hist"])
        FS = None
        bad = None
        try:
            for h in plan["hist"]:
                if h["op"] == "new":
                    if relative:
                        os.chdir(base)
                    kw = {} if h["mk"] else {"no_makedir": True}
                    where = os.path.relpath(root, base) if relative else root
                    if h["mk"] and n % 3 == 1:
                        data = types.SimpleNamespace(id_data=h["D"], id_rho=h["R"])
                        FS = ctx.call(FSC.from_boxdata, where, data)
                    else:
                        FS = ctx.call(FSC, where, h["D"], h["R"], **kw)
                    out = FS
                    if not h["mk"] and not isinstance(FS, Raised):
                        ctx.check(os.listdir(root) == [], "folders were made although none were asked for", plan)
                elif h["op"] == "change":
                    out = ctx.call(FS.change_rho, h["R"])
                elif h["op"] == "make":
                    out = ctx.call(FS.make_rho_directories, h["R"])
                elif h["op"] == "remove":
                    shutil.rmtree(os.path.join(root, h["d"]), ignore_errors=True)
                    continue
                elif h["op"] == "fill":
                    for attr in plan["paths"]:
                        if attr in ("path_data", "path_rho", "path_es") or attr.split("_")[-1] in ("params", "results", "output", "plots"):
                            continue
                        path = getattr(FS, attr, None)
                        if isinstance(path, str) and not os.path.isdir(path) and os.path.isdir(os.path.dirname(path)):
                            open(path, "a").close()
                    continue
                elif h["op"] == "verify":
                    out = ctx.call(FS.verify_directories_exists, h["D"], root)
                elif h["op"] == "makeall":
                    out = ctx.call(FS.make_directories)
                else:
                    os.chdir(elsewhere)
                    continue
                if isinstance(out, Raised):
                    bad = (h["op"], out)
                    break
            if bad:
                ctx.check(False, "handling of the folders failed", plan, op=bad[0], outcome=repr(bad[1]))
                continue
            for attr, rel in plan["paths"].items():
                got = norm(getattr(FS, attr, "missing"))
                ctx.check(got == norm(os.path.join(root, rel)), "location of " + attr, plan, got=got, want=os.path.join(root, rel))
            D, R = plan["obj"]["D"], plan["obj"]["R"]
            ctx.check(FS.id_data == D and FS.id_rho == R, "identity of the object", plan, got=[FS.id_data, FS.id_rho])
            ctx.check(os.listdir(elsewhere) == [], "folders were made outside of the root", plan, got=os.listdir(elsewhere))
            miss = [x for x in plan["disk"] if not os.path.isdir(os.path.join(root, x))]
            ctx.check(not miss, "folders that must exist", plan, missing=miss)
            want = all(os.path.isdir(os.path.join(root, v)) for k, v in plan["paths"].items()
                       if k in ("path_data", "path_rho", "path_es") or k.split("_")[-1] in ("params", "results", "output", "plots"))
            got = ctx.call(FS.directories_exist)
            ctx.check(got is want or got == want, "answer whether the folders exist", plan, got=repr(got), want=want)
            # names built from the object
            rr, rp, vp = plan["paths"]["path_rho_results"], plan["paths"]["path_rho_params"], plan["paths"]["path_vib_params"]
            for tpl, args, rel in (("template_pimc", dict(P=3, T=300.25, J="*"), rr + "/P3_T300.25_J*_data_points.npz"),
                                   ("template_jackknife", dict(P=30, T=3.0, X=1000), rr + "/P30_T3.00_X1000_thermo"),
                                   ("template_sos_rho", dict(B=8), rp + "/sos_B8.json"), ("template_sos_vib", dict(B=80), vp + "/sos_B80.json"),
                                   ("template_trotter_vib", dict(P=12, B=4), vp + "/trotter_P12_B4.json")):
                got = ctx.call(lambda: getattr(FS, tpl).format(**args))
                ctx.check(not isinstance(got, Raised) and norm(got) == norm(os.path.join(root, rel)), "names built from " + tpl, plan, got=repr(got), want=rel)
        finally:
            os.chdir(cwd0)
        ctx.count("object life cycle", plan)
        ctx.rmdir(base)

    # names and listings
    sim = ctx.tlc("Listing", dict(Ps="{1, 3, 10, 13, 130}", Ts="{5, 300, 30000, 30025, 3000, 1234567}", Js="{0, 1, 11, 4321}", MaxFiles=7),
                  invariants=["NamesDiffer", "Emit"], simulate=30 if not ctx.thorough else 600, depth=20, workers=1, label="folders with files of all kinds")
    sim = ctx.thin(sim, 300 if not ctx.thorough else 4000)
    makers = {"pimc": lambda f: file_name.pimc().format(P=f["P"], T=f["T"] / 100, J=f["J"]),
              "thermo": lambda f: file_name.jackknife().format(P=f["P"], T=f["T"] / 100, X=f["J"]),
              "trainin": lambda f: file_name.training_data_input().format(P=f["P"], T=f["T"] / 100, J=f["J"]),
              "traing": lambda f: file_name.training_data_g_output().format(P=f["P"], T=f["T"] / 100, J=f["J"]),
              "trainrho": lambda f: file_name.training_data_rho_output().format(P=f["P"], T=f["T"] / 100, J=f["J"])}
    for n, c in enumerate(sim):
        if ctx.give_up:
            break
        if not ctx.want(c):
            continue
        base = ctx.newdir("list")
        root = os.path.join(base, ROOTS[n % len(ROOTS)])
        os.makedirs(root)
        FS = ctx.call(FSC, root, 4, 2)
        other = ctx.call(FSC, root, 4, 20)
        if isinstance(FS, Raised) or isinstance(other, Raised):
            ctx.check(False, "handling of the folders failed", c, outcome=repr(FS))
            continue
        for f in c["files"]:
            got = ctx.call(makers[f["k"]], f)
            ctx.check(got == f["name"], "file name", c, kind=f["k"], got=repr(got), want=f["name"])
            for d in (FS, other):
                open(os.path.join(d.path_rho_results, f["name"]), "w").close()
        for f in c["sosV"]:
            got = ctx.call(lambda: file_name.sos().format(B=f["B"]))
            ctx.check(got == f["name"], "file name", c, kind="sos", got=repr(got), want=f["name"])
            open(os.path.join(FS.path_vib_params, f["name"]), "w").close()
        for f in c["sosR"]:
            open(os.path.join(FS.path_rho_params, f["name"]), "w").close()
        for f in c["trot"]:
            got = ctx.call(lambda: file_name.trotter().format(P=f["P"], B=f["B"]))
            ctx.check(got == f["name"], "file name", c, kind="trotter", got=repr(got), want=f["name"])
            open(os.path.join(FS.path_vib_params, f["name"]), "w").close()

        def listing(fn, folder, names, what):
            out = ctx.call(fn, FS)
            got = repr(out) if isinstance(out, Raised) else sorted(norm(p) for p in out)
            ctx.check(got == sorted(norm(os.path.join(folder, x)) for x in names), "listing of the " + what + " files", c, got=got)
            return [] if isinstance(out, Raised) else list(out)
        pim = listing(pp.retrive_pimc_file_list, FS.path_rho_results, [f["name"] for f in c["files"] if f["k"] == "pimc"], "result")
        thr = listing(pp.retrive_jackknife_file_list, FS.path_rho_results, [f["name"] for f in c["files"] if f["k"] == "thermo"], "thermo")
        sv = listing(pp.retrive_sos_coupled_file_list, FS.path_vib_params, [f["name"] for f in c["sosV"]], "coupled sos")
        sr = listing(pp.retrive_sos_sampling_file_list, FS.path_rho_params, [f["name"] for f in c["sosR"]], "sampling sos")
        out = ctx.call(pp.retrive_all_file_paths, FS)
        ctx.check(not isinstance(out, Raised) and [sorted(map(norm, x)) for x in out] == [sorted(map(norm, x)) for x in (pim, thr, sv, sr)], "listing of all files", c)
        out = ctx.call(pp.retrive_file_paths_for_jackknife, FS)
        ctx.check(not isinstance(out, Raised) and [sorted(map(norm, x)) for x in out] == [sorted(map(norm, x)) for x in (pim, sv, sr)], "listing of the files for an analysis", c)
        # parameters are recovered from the path
        byname = {f["name"]: f for f in c["files"]}
        for p in pim:
            f = byname[os.path.basename(p)]
            got = [ctx.call(g, p) for g in (pp.extract_bead_value_from_pimc_file_path, pp.extract_temperature_value_from_pimc_file_path, pp.extract_job_value_from_pimc_file_path)]
            ctx.check([repr(x) for x in got] == [repr(f["P"]), repr(f["T"] / 100), repr(f["J"])], "parameters recovered from a result file name", c, path=p, got=[repr(x) for x in got])
        for p in thr:
            f = byname[os.path.basename(p)]
            got = [ctx.call(g, p) for g in (pp.extract_bead_value_from_thermo_file_path, pp.extract_temperature_value_from_thermo_file_path, pp.extract_sample_value_from_thermo_file_path)]
            ctx.check([repr(x) for x in got] == [repr(f["P"]), repr(f["T"] / 100), repr(f["J"])], "parameters recovered from a thermo file name", c, path=p, got=[repr(x) for x in got])
        got = ctx.call(pp.extract_parameter_lists, pim, sv, sr)
        want = (c["beads"], [t / 100 for t in c["temps"]], c["common"])
        ctx.check(not isinstance(got, Raised) and tuple(map(list, got)) == want, "lists of the available parameters", c, got=repr(got), want=want)
        trot = [os.path.join(FS.path_vib_params, f["name"]) for f in c["trot"]]
        got = ctx.call(pp.extract_trotter_paramater_list, trot)
        want = {}
        for f in c["trot"]:
            want.setdefault(f["B"], []).append(f["P"])
        ctx.check(not isinstance(got, Raised) and {k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()},
                  "bead numbers of the trotter files", c, got=repr(got), want=want)
        ctx.count("listing", c)
        ctx.rmdir(base)
    return {"exhaustive": True}
