"""P23 - geometries, parameters and tables of molecules.  Specification: spec/Molecule.tla, ParameterFile.tla, Tables.tla"""
import os
import random

from .core import Raised

INTERNAL = ["R", "R1", "R10", "A", "A2", "T", "TAU", "D1"]
TITLES = ["some molecule", "in the gas phase", "C2V symmetry", "12 3.5"]
FREQ = " Frequencies of the updated Hessian at convergence\n"


def write(path, text):
    with open(path, "w", newline="") as fh:
        fh.write(text)


def refused(out):
    return isinstance(out, Raised) and out.kind != "TimeoutError"


def pad(rng):
    return "".join(f" line {rng.randint(0, 999)} {'' if rng.random() < .5 else '= text'}\n" if rng.random() < .8 else "\n" for _ in range(rng.randint(0, 14)))


class Molecule:
    """texts of one molecule with the given fixed coordinates"""
    def __init__(self, kind, n, fixed, rng):
        self.kind, self.n, self.rng = kind, n, rng
        self.heads = rng.sample(TITLES, rng.choice([1, 1, 2, 3]))
        self.names = rng.sample(INTERNAL, n)
        self.atoms = [rng.choice(["O", "H", "C", "CL"]) for _ in range(n)]
        self.fixed = fixed
        self.base = [[rng.uniform(-2, 2) for _ in range(3)] for _ in range(n)]
        self.eq = rng.choice([" = ", "=", " ="])

    def value(self, k, version):
        x = [v * (1 + 0.0031 * version) + 0.017 * version for v in self.base[k - 1]]
        if self.kind == "internal":
            return f"{abs(x[0]) * 40 + k + version:.4f}"
        return " ".join(f"{v:.6f}" for v in x)

    def rel(self, stars):
        """the lines which say what the coordinates are"""
        lines = list(self.heads[:1]) + ["C"]
        for k, name in enumerate(self.names, 1):
            lines.append(f"H 1 {name}" + ("*" if stars and k not in self.fixed else ""))
        return lines

    def expected(self, now, opt):
        if self.kind == "internal":
            return self.rel(opt) + [""] + [f"{n}={self.value(k, now[k - 1])}" for k, n in enumerate(self.names, 1)]
        return [" ".join(h.split()) for h in self.heads] + [f"{self.atoms[k - 1]} {self.value(k, now[k - 1])}" for k in range(1, self.n + 1)]

    def seen(self, text):
        """the same, as the program put it (spaces do not matter)"""
        lines = [" ".join(x.split()) for x in text.split("\n")]
        while lines and not lines[-1]:
            lines.pop()
        if self.kind == "internal":
            return [x.replace(" = ", "=") if "=" in x else x for x in lines]
        return lines

    def file(self):
        if self.kind == "internal":
            eq = self.rng.choice(["=", " = ", "= "])
            return "\n".join(self.rel(True)) + "\n\n" + "\n".join(f"{n}{eq}{self.value(k, 0)}" for k, n in enumerate(self.names, 1)) + self.rng.choice(["", "\n", "\n\n"])
        return "\n".join(self.heads + [f"{self.atoms[k - 1]}   {self.value(k, 0)}" for k in range(1, self.n + 1)]) + self.rng.choice(["", "\n", "\n\n"])

    def output(self, how, listed, version):
        rng = self.rng
        if how == "nolist":
            return pad(rng) + " nothing\n" + pad(rng)
        rows = [f"  {self.names[k - 1]}{self.eq}{self.value(k, version)}\n" if self.kind == "internal" else f"   {self.atoms[k - 1]}    {self.value(k, version).replace(' ', '     ')}\n" for k in listed]
        if how == "toomany":
            rows = rows + [f"   XX    {9 + i}.5 {i}.25 1.5\n" for i in range(len(self.heads) + 1)]
        title = " Summary of optimized internal coordinates" if self.kind == "internal" else " Summary of optimized Cartesian coordinates (Ang)"
        text = pad(rng) + title + "\n --------------\n" + "".join(rows)
        if how == "cut":
            return text if rng.random() < 0.7 else text.rstrip("\n") if rows else text
        end = rng.choice(["\n", FREQ])
        return text + end + (FREQ if end == "\n" else "") + pad(rng)


def replay(ctx, es, plan, seed):
    rng = random.Random(seed)
    d = ctx.newdir("mol")
    mols, jobs = {}, {}
    n = len(plan["hist"][0]["now"][0])
    names = rng.sample(["ch2o", "water", "a", "ch2", "x_1"], len(plan["kind"]))
    for m in range(1, len(plan["kind"]) + 1):
        mols[m] = Molecule(plan["kind"][m - 1], n, plan["fixed"][m - 1], rng)
        where = os.path.join(d, f"m{m}")
        os.makedirs(where)
        write(os.path.join(where, f"{names[m - 1]}_zmat.txt"), mols[m].file())
        jobs[m] = es.VibronExecutionClass(names[m - 1], where)
        out = ctx.call(jobs[m].setup_zmat, timeout=5)
        if not ctx.check(not isinstance(out, Raised), "a geometry file is read", plan, outcome=repr(out), file=mols[m].file()):
            return
    try:
        for step, h in enumerate(plan["hist"]):
            m, mol, job = h["m"], mols[h["m"]], jobs[h["m"]]
            path = os.path.join(job.path_root, job.file_out["geometry"])
            if h["op"] == "read":
                out = ctx.call(job.setup_zmat, timeout=5)
            else:
                if os.path.exists(path):
                    os.remove(path)
                listed = sorted(h["listed"])
                if mol.kind == "internal" and rng.random() < 0.4:
                    rng.shuffle(listed)
                if h["op"] != "nofile":
                    write(path, mol.output(h["op"], listed, h["version"]))
                out = ctx.call(es.parse_opt_output, job, timeout=3)
            if h["result"] == "refused":
                ok = ctx.check(refused(out), "an output that is incomplete or does not fit is refused", plan, step=step, outcome=repr(out))
            else:
                ok = ctx.check(not isinstance(out, Raised), "a complete output is used", plan, step=step, outcome=repr(out))
            if not ok:
                return
            for x in mols:
                for opt in (False, True):
                    text = ctx.call(jobs[x].zmat.get, opt_zmat=opt) if opt else ctx.call(jobs[x].zmat.get)
                    want = mols[x].expected(h["now"][x - 1], opt)
                    got = text if isinstance(text, Raised) else mols[x].seen(text)
                    if not ctx.check(got == want, "the geometry is that of the file with exactly the optimised values", plan, step=step, molecule=x, optimise=opt, observed=repr(got), expected=want):
                        return
                    if not ctx.check(text.endswith("\n\n"), "the geometry ends with a blank line", plan, step=step, molecule=x, observed=text):
                        return
    finally:
        ctx.rmdir(d)


def parameters(ctx, es, plan, seed):
    rng = random.Random(seed)
    d = ctx.newdir("par")
    jobs, outs, first = [], [], None
    try:
        for f, items in enumerate(plan["text"]):
            where = os.path.join(d, f"c{f}")
            os.makedirs(where)
            text = ""
            for x in items:
                if x["name"]:
                    text += f"{x['name']}{rng.choice(['', ' '])}\n{rng.choice(['', '  '])}{x['value']}\n"
                else:
                    text += {"blank": "\n", "spaces": "   \n", "comment": f"# any words {rng.randint(0, 9)}\n", "entry": rng.choice(["#basis\n", "# gridVibron\n", "#theory\n"])}[x["value"]]
            write(os.path.join(where, "mol_params.txt"), text if rng.random() < 0.6 else text[:-1] if text.endswith("\n") and items and items[-1]["name"] else text)
            job = es.VibronExecutionClass("mol", where)
            first = first if first is not None else dict(job.parameter_dictionary)
            outs.append(ctx.call(job.parse_input_parameters, timeout=5))
            jobs.append(job)
        for f, job in enumerate(jobs):
            if plan["state"][f] == "refused":
                ctx.check(refused(outs[f]), "an unknown or unusable parameter is refused", plan, file=f, outcome=repr(outs[f]), observed=job.parameter_dictionary)
                continue
            if not ctx.check(not isinstance(outs[f], Raised), "a file of parameters is read", plan, file=f, outcome=repr(outs[f])):
                continue
            have = {n: str(job.parameter_dictionary.get(n)) for n in plan["set"][f]}
            ctx.check(have == plan["set"][f], "exactly the listed parameters are set", plan, file=f, observed=have, expected=plan["set"][f])
            ctx.check(isinstance(job.parameter_dictionary["gridVibron"], int), "numbers stay numbers", plan, file=f, observed=job.parameter_dictionary)
            rest = {k: v for k, v in job.parameter_dictionary.items() if k not in have}
            ctx.check(rest == {k: v for k, v in first.items() if k not in have}, "the other parameters keep their values", plan, file=f, observed=rest)
        fresh = es.VibronExecutionClass("other", d).parameter_dictionary
        ctx.check(fresh == first, "a new calculation starts with the standard parameters", plan, observed=fresh)
    finally:
        ctx.rmdir(d)


def line(kind, rng):
    if kind == "heff":
        return rng.choice(["HEFF_IP2 ", " HEFF_IP2 part", "  HEFF_IP2"]) + f" {rng.randint(0, 99)}\n"
    if kind == "inner":
        return rng.choice(["", " " * 30, " 1.25" * rng.choice([9, 900])]) + f" {rng.uniform(-1, 1):.8f} of the HEFF_IP2 matrix {rng.randint(0, 99)}\n"
    if kind == "empty":
        return "\n"
    return rng.choice([" HEFF_0 first ", " HEFF_IP1 second ", " heff_ip2 ", "", " " + "1.234567 " * 400]) + f"{rng.uniform(-9, 9):.6f} xxx\n"


def tables(ctx, es, plan, seed):
    rng = random.Random(seed)
    d = ctx.newdir("tab")
    try:
        job = es.VibronExecutionClass("mol", d)
        job.parameter_dictionary["nip"] = plan["nip"]
        texts = {}
        for key in ("pntheff", "vibronCp"):
            texts[key] = [line(k, rng) for k in plan["lines"]]
            if rng.random() < 0.3:
                texts[key][-1] = texts[key][-1].rstrip("\n") or "1.0"
            write(os.path.join(d, job.file_out[key]), "".join(texts[key]))
        before, after = pad(rng) + " nip = ", "   " + rng.choice(["\n", " and more\n"]) + pad(rng) + " last 12\n"
        write(os.path.join(d, job.file_out["vibronIn"]), before + "xxx" + after)
        stale = rng.random() < 0.5
        if stale:
            for name in ("PNTHEFF", job.file_in["vibronCp"], job.file_in["vibronIn"]):
                write(os.path.join(d, name), "old HEFF_IP2 content xxx   \n" * rng.choice([1, 60]))
        out = ctx.call(es.parse_prepVibron_output, job, timeout=10)
        if not plan["kept"]:
            ctx.check(refused(out), "an output without the final effective Hamiltonian is refused", plan, outcome=repr(out))
            return
        if not ctx.check(not isinstance(out, Raised), "a complete output is prepared", plan, outcome=repr(out)):
            return
        for key, name in (("pntheff", "PNTHEFF"), ("vibronCp", job.file_in["vibronCp"])):
            with open(os.path.join(d, name), newline="") as fh:
                got = fh.read()
            want = "".join(texts[key][len(texts[key]) - len(plan["kept"]):])
            ctx.check(got == want, "the table is the output from the first line of the final effective Hamiltonian on", plan, table=key, observed=got[-300:], expected=want[-300:])
            with open(os.path.join(d, job.file_out[key]), newline="") as fh:
                ctx.check(fh.read() == "".join(texts[key]), "the output itself stays as it was", plan, table=key)
        with open(os.path.join(d, job.file_in["vibronIn"]), newline="") as fh:
            got = fh.read()
        want = before + f"{plan['nip']:>6d}" + after[3:]
        ctx.check(got == want, "the number of states is written in its place and nothing else changes", plan, observed=got, expected=want)
    finally:
        ctx.rmdir(d)


def singles(ctx, es, plan, seed):
    rng = random.Random(seed)
    d = ctx.newdir("ip")
    try:
        job = es.VibronExecutionClass("mol", d)
        values = [job.singles_cutoff + s / 100 for s in plan["singles"]]
        job.parameter_dictionary["nip"] = len(values)
        rows = "".join(f"   {i + 1:3d}  {rng.uniform(-1, 0):10.6f} {rng.uniform(5, 99):9.4f} {-76 - rng.random():12.6f} {v:8.2f} {100 - v:7.2f} {rng.uniform(0, 99):6.2f}\n" for i, v in enumerate(values))
        text = pad(rng) + " Summary of ionization-potential eom-cc calculation\n\n -----------------------\n  State  IP(au)  IP(eV)  total energy  %singles  %doubles\n -----------------------\n" \
            + rows + rng.choice([" -----------------------\n", "\n"]) + "  99 -0.1 2.0 -76.0 1.00 99.0 1.0\n" + pad(rng)
        cut = rng.random() < 0.15
        if cut:
            text = text[:text.index(rows) + len(rows)]
        write(os.path.join(d, job.file_out["ipeomcc"].format(len(values))), text)
        out = ctx.call(es.parse_ip_output, job, timeout=3)
        if cut:
            ctx.check(refused(out) or (out is False and not plan["accepted"]), "an output that is cut off is not accepted", plan, outcome=repr(out))
        else:
            ctx.check(isinstance(out, (bool, type(None))) and bool(out) == plan["accepted"], "states are accepted exactly if the singles of all of them are above the cutoff", plan, outcome=repr(out), values=values)
    finally:
        ctx.rmdir(d)


def run(ctx):
    from pibronic.vibronic import electronic_structure as es
    rng = random.Random(ctx.seed * 7919 + 23)
    q = not ctx.thorough
    # geometries
    invs = ["FixedStay", "Together", "RefusedChangesNothing", "OwnOnly"]
    base = dict(Molecules="{1}", Atoms=3, MaxSteps=2, Kinds='{"internal", "cartesian"}', KeepPart="FALSE")
    plans = ctx.tlc("Molecule", base, spec="Spec", invariants=invs + ["Emit"], label="one molecule, exhaustive")
    ctx.tlc("Molecule", dict(base, KeepPart="TRUE"), spec="Spec", invariants=invs, expect_violation=True, label="outputs used as far as they go (must fail)")
    assert not ctx.last_tlc_ok
    long = ctx.tlc("Molecule", dict(base, Molecules="{1, 2}", Atoms=5, MaxSteps=8), spec="Spec", invariants=invs + ["Emit"], simulate=60 if q else 600, depth=9, workers=1, label="two molecules, long histories")
    plans = ctx.thin(plans, 500 if q else 10 ** 6) + ctx.thin(long, 200 if q else 3000)
    for plan in plans:
        seed = rng.randint(0, 10 ** 9)
        if ctx.give_up:
            break
        case = dict(plan, seed=seed)
        if ctx.want(case):
            plan["seed"] = seed
            replay(ctx, es, plan, seed)
            ctx.count("geometries", case)
    # parameters
    invs = ["Complete", "ListedOnly", "UntouchedBefore"]
    files = ctx.tlc("ParameterFile", dict(Files=1, MaxItems=3), spec="Spec", invariants=invs + ["Emit"], label="files of parameters, exhaustive")
    more = ctx.tlc("ParameterFile", dict(Files=2, MaxItems=9), spec="Spec", invariants=invs + ["Emit"], simulate=1500 if q else 20000, depth=24, workers=1, label="several files of parameters")
    usable = [p for p in files + more if "ok" in p["state"]]
    for plan in ctx.thin(usable, 700 if q else 20000) + ctx.thin([p for p in files + more if "ok" not in p["state"]], 300 if q else 6000):
        seed = rng.randint(0, 10 ** 9)
        if ctx.give_up:
            break
        if ctx.want(dict(plan, seed=seed)):
            plan["seed"] = seed
            parameters(ctx, es, plan, seed)
            ctx.count("parameters", plan)
    # tables and singles
    tabs = ctx.tlc("Tables", dict(MaxLines=4 if q else 6, Numbers="{1, 12, 345}", MaxStates=3 if q else 5), spec="Spec", invariants=["IsSuffix", "FromFirst", "All", "Emit"], label="tables and singles, exhaustive")
    far = ctx.tlc("Tables", dict(MaxLines=60, Numbers="{7, 30}", MaxStates=20), spec="Spec", invariants=["IsSuffix", "FromFirst", "All", "Emit"], simulate=60 if q else 600, depth=61, workers=1, label="long tables")
    tabs += ctx.thin(far, 150 if q else 3000)
    tabs = ctx.thin([t for t in tabs if t["lines"]], 500 if q else 10 ** 6) + ctx.thin([t for t in tabs if t["singles"]], 400 if q else 10 ** 6)
    for plan in tabs:
        seed = rng.randint(0, 10 ** 9)
        if ctx.give_up:
            break
        if ctx.want(dict(plan, seed=seed)):
            plan["seed"] = seed
            (tables if plan["lines"] else singles)(ctx, es, plan, seed)
            ctx.count("tables" if plan["lines"] else "singles", plan)
    return {"geometries": ctx.kinds.get("geometries", 0), "parameters": ctx.kinds.get("parameters", 0), "tables": ctx.kinds.get("tables", 0)}
