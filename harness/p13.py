"""P13 - models read from the files of the electronic structure program.  Specification: spec/OpFile.tla, OpFileOps.tla"""
import json
import os
import random
import re

import numpy as np

from .core import REPO, Raised
from .models import key, vmk

SECTIONS = (("C1", "  Linear Coupling Constants", ("C1",)), ("C2d", "  Diagonal Quadratic Coupling Constants", ("C2",)),
            ("C2o", " Off_diagonal Quadratic Coupling Constants", ("C2",)), ("C3", "  Cubic Coupling Constants", ("C3",)),
            ("C4", "  Quartic Coupling Constants", ("C4",)), ("B3", "  Bi-Cubic Constants", ("B3",)), ("B4", "  Bi-Quartic Constants", ("B4", "A4")))
ORDER = ("C1", "C2", "C3", "C4", "B3", "B4", "A4")
RANK = {"G1": 1, "G2": 2, "G3": 3, "G4": 4}


def name_of(l):
    k, a, b, i, j = l["k"], l["a"], l["b"], l["i"], l["j"]
    if k == "w":
        return f"w{i:02}"
    if k == "EH":
        return f"EH_s{a:02}_s{a:02}"
    if k in ("C1", "C3", "C4"):
        return f"{k}_s{a:02}_s{b:02}_v{i:02}"
    return f"{k}_s{a:02}s{b:02}_v{i:02}v{j:02}"


def order(l):
    return (l["a"] != l["b"], l["a"], l["b"], l["i"], l["j"])


def number_lines(content, rng):
    """the lines of one file, with distinct values"""
    out = []
    for n, l in enumerate(sorted(content["lines"], key=lambda l: (l["k"],) + order(l))):
        v = (n + 1) * 1009 + rng.randrange(1000)
        if l["k"] not in ("w",) and rng.random() < 0.5:
            v = -v
        if rng.random() < 0.05 and l["k"] in ("C1", "C2"):
            v = rng.choice([1, -1, 16166529, -15068411])
        out.append(dict(l, v=v))
    return out


def text_of(content, lines, rng):
    """the file, in the layout of the program that writes it"""
    style = rng.randrange(3)
    broken = content["broken"]

    def entry(l, unit="ev"):
        return f"{name_of(l):<25s}=  {l['v'] / 1e6:13.6f}    , {unit} "
    out = ["OP_DEFINE-SECTION", "title", "IP              ", "end-title", "end-op_define-section", "", "", "PARAMETER-SECTION", "", ""]
    ws = sorted((l for l in lines if l["k"] == "w"), key=lambda l: l["i"])
    es = sorted((l for l in lines if l["k"] == "EH"), key=lambda l: l["a"])
    if broken == "order" and len(es) > 1:
        es = es[::-1]
    if broken != "nofreq":
        out += ["#        Frequencies ", "# ------------------------ ", ""]
    out += [entry(l, rng.choice(["cm-1", "au", "meV", "eV/h"]) if broken == "wunit" and l is ws[-1] else "ev") for l in ws]
    out += ["", "#        Zeropoint energy     1.247753", ""]
    if broken != "noenergy":
        out += ["#   Electronic Hamitonian ", "#   Vertical energies - Zeropoint ", "# ------------------------------- ", ""]
    out += [entry(l, rng.choice(["cm-1", "au", "meV", "eVs"]) if broken == "unit" and l is es[-1] else "ev") for l in es]
    out += ["", "#     Electronic transition moments ", "# ----------------------------------", "", "# tmom in direction Ex",
            f"Ex_s{content['A']:02}_s01               =       0.100000    , ev ", "", "#     Magnetic transition moments ", "# ----------------------------------", "",
            "# tmom in direction Mx", f"Mx_s{content['A']:02}_s01               =       0.100000    , ev ", ""]
    last = len(SECTIONS)
    if broken == "short":
        kinds = {l["k"] for l in lines} & set(ORDER) | {"C1"}
        last = max(i for i, s in enumerate(SECTIONS) if set(s[2]) & kinds) + 1
    for n, (tag, title, kinds) in enumerate(SECTIONS[:last]):
        out += ["#" + title + " ", "# " + "-" * 26 + " ", ""]
        mine = [l for l in lines if l["k"] in kinds]
        if tag == "C2d":
            mine = [l for l in mine if l["i"] == l["j"]]
        if tag == "C2o":
            mine = [l for l in mine if l["i"] != l["j"]]
        mine.sort(key=order)
        for pos, l in enumerate(mine):
            if pos and style and order(l)[:style] != order(mine[pos - 1])[:style]:
                out.append("" if style == 1 else "# next surfaces")
            out.append(entry(l))
        if tag == "C1" and broken == "range":
            out.append(entry(dict(k="C1", a=1, b=1, i=content["N"] + 1, j=0, v=1)))
        if tag == "C1" and broken == "name":
            out.append(entry(dict(k="C1", a=1, b=1, i=1, j=0, v=1)).replace("_v", "_x"))
        out.append("")
    out += ["end-parameter-section", "", "HAMILTONIAN-SECTION "]
    out += [" modes   |  el  |" + "".join(f" v{i:02}|" for i in range(1, content["N"] + 1)), ""]
    for l in lines:
        if l["k"] == "w":
            out.append(f"1.00*w{l['i']:02}           |{l['i'] + 1}  KE ")
        elif l["k"] != "EH":
            out.append(f"{name_of(l):<24s}|1 S{l['a']}&{l['b']}   |{l['i'] + 1}  q  ")
    out += ["end-hamiltonian-section", "", "end-operator", ""]
    return "\n".join(out)


def entries_of(model):
    """nonzero array entries of a model as [array, modes, surfaces, value in 1e-6]"""
    out, bad = [], 0
    for name in ("w", "E", "G1", "G2", "G3", "G4"):
        arr = model.get(key(name))
        if arr is None:
            continue
        arr = np.asarray(arr, dtype=float)
        for idx in zip(*np.nonzero(arr)):
            v = float(arr[idx])
            n = round(v * 1e6) if abs(v) < 2000 else 2000000000
            bad += abs(v - n / 1e6) > 1e-12
            idx = [int(x) + 1 for x in idx]
            r = len(idx) if name == "w" else len(idx) - 2
            out.append([name, idx[:r], idx[r:], n])
    return out, bad


def record(content, lines, model):
    refusal = {"": 0, "short": 1}.get(content["broken"], 2)
    if content["broken"] == "order" and content["A"] < 2:
        refusal = 0
    c = {"lines": lines, "A": content["A"], "N": content["N"], "refusal": refusal, "raised": 0, "gotA": 0, "gotN": 0, "bad": 0, "entries": []}
    if isinstance(model, Raised):
        c["raised"] = 1
        if refusal == 2:
            c["refusal"] = 1
        return c
    V = vmk()
    c["gotA"], c["gotN"] = int(model[V.A]), int(model[V.N])
    c["entries"], c["bad"] = entries_of(model)
    return c


class World:
    def __init__(self, ctx, n):
        from pibronic.data.file_structure import FileStructure
        from pibronic.vibronic import vIO
        self.ctx, self.vIO = ctx, vIO
        self.root = ctx.newdir("op")
        self.FS = FileStructure(self.root, 7, 0)
        self.rng = random.Random(ctx.seed * 7919 + n)
        self.content, self.lines, self.stored = {}, {}, None

    def path(self, f):
        return os.path.join(self.root, f"molecule{f}_vibron.op")

    def write(self, f, content):
        self.content[f], self.lines[f] = content, number_lines(content, self.rng)
        with open(self.path(f), "w") as fh:
            fh.write(text_of(content, self.lines[f], self.rng))


def replay(ctx, n, plan, recs):
    case = {"hist": plan["hist"], "n": n}
    w = World(ctx, n)
    for h in plan["hist"]:
        f = h["f"]
        if h["op"] == "write":
            w.write(f, h["c"])
            continue
        content, lines = w.content[f], w.lines[f]
        before = open(w.path(f), "rb").read()
        if h["op"] == "read":
            out = ctx.call(w.vIO.read_model_op_file, w.path(f))
        else:
            old = open(w.FS.path_vib_model, "rb").read() if os.path.isfile(w.FS.path_vib_model) else None
            out = ctx.call(w.vIO.create_coupling_from_op_file, w.FS, w.path(f))
            if isinstance(out, Raised):
                now = open(w.FS.path_vib_model, "rb").read() if os.path.isfile(w.FS.path_vib_model) else None
                ctx.check(now == old, "a file that cannot be read leaves the model as it was", case, step=h, outcome=repr(out))
            else:
                ctx.check(out == w.FS.path_vib_model, "path of the created model", case, got=out)
                out = ctx.call(w.vIO.load_model_from_JSON, w.FS.path_vib_model)
        recs.append((case, record(content, lines, out), repr(out) if isinstance(out, Raised) else ""))
        ctx.check(open(w.path(f), "rb").read() == before, "reading leaves the file as it is", case)
        ctx.count(h["op"], case, validated=True)
    ctx.rmdir(w.root)


def sample_file(ctx, recs):
    """the file of a real molecule that comes with the repository, decoded independently"""
    path = os.path.join(REPO, "tests", "test_models", "fake_vibron.op")
    if not os.path.isfile(path):
        return
    from pibronic.vibronic import vIO
    text = open(path).read().split("end-parameter-section")[0]
    lines = []
    for m in re.finditer(r"^(w|EH|[ABC][1-4])(\w*)\s*=\s*(-?[\d.]+)\s*, ev", text, re.M):
        nums = [int(x) for x in re.findall(r"\d+", m.group(2))]
        l = dict(k=m.group(1), a=0, b=0, i=0, j=0, v=round(float(m.group(3)) * 1e6))
        names = re.findall(r"[a-z]", m.group(2))
        if l["k"] == "w":
            l["i"] = nums[0]
        else:
            l["a"], l["b"] = nums[:2]
            modes = [n for n, c in zip(nums, names) if c == "v"]
            l["i"] = modes[0] if modes else 0
            l["j"] = modes[1] if len(modes) > 1 else 0
        lines.append(l)
    A, N = max(l["a"] for l in lines), max(l["i"] for l in lines)
    out = ctx.call(vIO.read_model_op_file, path)
    recs.append(({"sample": True}, record({"broken": "", "A": A, "N": N}, lines, out), repr(out) if isinstance(out, Raised) else ""))
    ctx.count("sample file", {"sample": True}, validated=True)


def cut_files(ctx, recs):
    """the program that writes the file was interrupted: at every line, and at some bytes within lines"""
    w = World(ctx, 99)
    lines = [dict(k=k, a=a, b=b, i=i, j=j) for k, a, b, i, j in
             [("w", 0, 0, 1, 0), ("w", 0, 0, 2, 0), ("EH", 1, 1, 0, 0), ("EH", 2, 2, 0, 0), ("C1", 1, 1, 1, 0), ("C1", 1, 2, 2, 0), ("C2", 1, 1, 1, 1), ("C2", 2, 2, 2, 1), ("C2", 1, 2, 2, 2),
              ("C3", 1, 1, 1, 0), ("C4", 2, 2, 2, 0), ("B3", 1, 2, 1, 2), ("B4", 1, 1, 2, 1), ("A4", 2, 2, 1, 2)]]
    content = {"A": 2, "N": 2, "lines": lines, "broken": ""}
    w.write(1, content)
    text = open(w.path(1)).read()
    out = ctx.call(w.vIO.create_coupling_from_op_file, w.FS, w.path(1))
    if not ctx.check(not isinstance(out, Raised), "a well formed file is read", {"cut": -1}, outcome=repr(out)):
        return
    good = open(w.FS.path_vib_model, "rb").read()
    end = text.index("end-parameter-section")
    points = [i for i in range(end) if i == 0 or text[i - 1] == "\n"]
    points += sorted(w.rng.sample(range(end), 25 if not ctx.thorough else 400))
    for p in points:
        case = {"cut": p}
        if not ctx.want(case):
            continue
        with open(w.path(2), "w") as fh:
            fh.write(text[:p])
        out = ctx.call(w.vIO.create_coupling_from_op_file, w.FS, w.path(2))
        now = open(w.FS.path_vib_model, "rb").read() if os.path.isfile(w.FS.path_vib_model) else None
        ctx.check(isinstance(out, Raised), "an incomplete file is refused", case)
        ctx.check(now == good, "a file that cannot be read leaves the model as it was", case, outcome=repr(out))
        ctx.count("incomplete file", case)
        if now != good:
            with open(w.FS.path_vib_model, "wb") as fh:
                fh.write(good)


def h_file(ctx):
    """the older pair of files (.in and .h): energies and linear terms"""
    case = {"h": 1}
    if not ctx.want(case):
        return
    from pibronic.vibronic import vIO
    root = ctx.newdir("h")
    with open(os.path.join(root, "m.in"), "w") as fh:
        fh.write("title\n2 Number of electronic states\n2 Number of symmetric normal modes\n1 Number of non-A1 normal modes\n\nSymmetric modes\n0.1 0.2\nOther modes\n0.3\n")
    w = np.around(np.array([0.1, 0.2, 0.3]) * 8065.5, decimals=2)
    text = "Reference Hamiltonian\n 0.5 0.0\n 0.0 0.7\nGradients of heff along normal modes\n"
    for i, x in enumerate(w):
        text += f" mode {i + 1} frequency {x}\n 0.0{i + 1} 0.001\n 0.001 0.02\n"
    text += "Diagonal second order corrections of heff\nOff-diagonal second order corrections heff\nDiagonal Cubic corrections of heff\n"
    with open(os.path.join(root, "m.h"), "w") as fh:
        fh.write(text)
    V = vmk()
    out = ctx.call(vIO.read_model_h_file, os.path.join(root, "m.h"))
    if ctx.check(not isinstance(out, Raised), "a well formed file is read", case, outcome=repr(out), kind=getattr(out, "kind", "")) and not isinstance(out, Raised):
        ctx.check(np.allclose(out[V.w], [0.1, 0.2, 0.3]) and np.allclose(out[V.E], [[0.5, 0], [0, 0.7]]) and np.allclose(out[V.G1][1], [[0.02, 0.001], [0.001, 0.02]]),
                  "every coefficient has the value of the file", case)
    ctx.count("h file", case)


AUTO_A, AUTO_N = 2, 12


def auto_text(lines, rng):
    """output of the vibronic coupling program (two surfaces, twelve modes)"""
    v = {(l["k"], l["a"], l["b"], l["i"], l["j"]): l["v"] for l in lines}

    def block(k, i, j):
        return ["".join(f"{v.get((k, min(a, b), max(a, b), i, j), 0) / 1e6:12.6f}" for b in (1, 2)) for a in (1, 2)]

    def title(t):
        return ["", t, "-" * len(t)]
    N = range(1, AUTO_N + 1)
    out = ["  Vibronic coupling model of the molecule", "-" * 40, "Type of grid in the scan  " + f"{rng.choice([3, 4]):4d}", "Number of vibrational irreps        " + f"{rng.choice([1, 2, 4]):4d}",
           "Number of modes per symmetry  " + f"{AUTO_N:4d}", "Frequencies of the modes       " + "".join(f"{100.25 * i:8.2f}" for i in N)]
    out += title(" Parent gradient") + [f"  Normal mode    {i:4d}  Gradient       {0.01 * i:16.10f}" for i in N]
    out += title(" Parent Hessian") + [f"  Normal mode    {i:4d}  Freq.         {100.25 * i:8.2f} cm-1{v[('w', 0, 0, i, 0)] / 1e6:12.6f} eV" for i in N]
    out += title(" Reference Hamiltonian") + block("EH", 0, 0)
    out += title(" Gradients of heff along normal modes")
    for i in N:
        out += ["", f"  Normal mode    {i:4d}  Frequency    {100.25 * i:10.2f}"] + block("C1", i, 0)
    out += title(" Diagonal second order corrections of heff")
    for i in N:
        out += ["", f"  Normal mode    {i:4d}  Frequency    {100.25 * i:10.2f}"] + block("C2", i, i)
    out += title(" Off-diagonal second order corrections heff")
    for i in N:
        for j in range(1, i):
            out += ["", f"  Normal modes   {i:4d}{j:4d}  Frequencies {100.25 * i:10.2f}{100.25 * j:10.2f}"] + block("C2", i, j)
    return "\n".join(out + [""])


def auto_files(ctx, recs):
    """all coefficients of the reference Hamiltonian, also between the surfaces"""
    from pibronic.vibronic import vIO
    try:
        import fortranformat  # noqa: F401
    except ImportError:
        ctx.assumptions.append("fortranformat is not installed: files of the vibronic coupling program were not read")
        return
    V = vmk()
    root = ctx.newdir("auto")
    for n in range(12 if not ctx.thorough else 150):
        case = {"auto": n}
        rng = random.Random(ctx.seed * 7919 + 31 * n)
        slots = [("w", 0, 0, i, 0) for i in range(1, 13)]
        rest = [("EH", a, b, 0, 0) for a, b in ((1, 1), (1, 2), (2, 2))] + [("C1", a, b, i, 0) for i in range(1, 13) for a, b in ((1, 1), (1, 2), (2, 2))]
        rest += [("C2", a, b, i, j) for i in range(1, 13) for j in range(1, i + 1) for a, b in ((1, 1), (1, 2), (2, 2))]
        take = rest if n == 0 else [] if n == 1 else rng.sample(rest, rng.randrange(1, len(rest)))
        lines = [dict(k=k, a=a, b=b, i=i, j=j, v=rng.choice([1, 3, -7, 12]) if k != "w" and rng.random() < 0.15 else (rng.randrange(1, 99000000) - (0 if k == "w" else 49000000)) or 1) for k, a, b, i, j in slots + take]
        if not ctx.want(case):
            continue
        path = os.path.join(root, f"cp{n}.auto")
        with open(path, "w") as fh:
            fh.write(auto_text(lines, rng))
        out = ctx.call(vIO.read_model_auto_file, path)
        model = out
        if not isinstance(out, Raised):
            A, N, E, w, lin, quad = out
            model = {V.A: A, V.N: N, V.E: E, V.w: w, V.G1: lin, V.G2: quad}
        recs.append((case, record({"broken": "", "A": AUTO_A, "N": AUTO_N}, lines, model), repr(out) if isinstance(out, Raised) else ""))
        ctx.count("auto file", case, validated=True)
        if n < 3:       # the program that writes the file was interrupted
            text = auto_text(lines, rng)
            cut = rng.randrange(len(text) * 9 // 10)
            with open(path, "w") as fh:
                fh.write(text[:cut])
            out = ctx.call(vIO.read_model_auto_file, path)
            ctx.check(isinstance(out, Raised), "an incomplete file is refused", dict(case, cut=cut))


def run(ctx):
    th = ctx.thorough
    recs = []
    inv = ["ModelIsReadable", "Emit"]

    def plans(dims, fams, ops, files=1, extra=(), **kw):
        return ctx.tlc("OpFile", dict(Dims="{" + ", ".join(f"<<{a}, {n}>>" for a, n in dims) + "}", Families="{" + ", ".join(f'"{f}"' for f in fams) + "}",
                                      MaxOps=ops, Files=f"1..{files}", Sparse="{1, 2, 3}"), spec="Spec", invariants=inv + list(extra), **kw)
    plans([(2, 2)], ["all"], 1, extra=["LinesAreIndependent"], label="lines are independent")
    todo = plans([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] + ([(3, 3)] if th else []), ["single"], 2, label="one coefficient")
    todo += plans([(1, 1), (2, 2), (3, 2), (2, 3), (3, 3)], ["all", "none", "kind", "without", "short", "broken"], 2, label="kinds of coefficients")
    big = plans([(4, 4), (2, 5), (5, 2), (3, 11), (11, 2)], ["all"], 2, label="more surfaces and modes")
    todo += big
    todo += ctx.thin(plans([(1, 2), (2, 1)], ["all", "none"], 4, files=2, label="two files"), 80 if not th else 1500)
    todo += ctx.thin(plans([(2, 1)], ["all", "broken"], 4, label="unreadable files"), 60 if not th else 1500)
    todo += ctx.thin(plans([(2, 2), (3, 2), (2, 3), (1, 3)], ["all", "kind", "sparse", "short", "broken"], 9, files=2, simulate=60 if not th else 600, depth=10, label="long histories"), 40 if not th else 500)
    for n, plan in enumerate(todo):
        if ctx.give_up:
            break
        if ctx.want({"hist": plan["hist"], "n": n}):
            replay(ctx, n, plan, recs)
    if ctx.want({"sample": True}):
        sample_file(ctx, recs)
    cut_files(ctx, recs)
    auto_files(ctx, recs)
    h_file(ctx)
    for i, clause in ctx.judge("OpFileOps", [r for _, r, _ in recs], "VerdictRead", label="models read").items():
        got = {tuple(map(str, e)) for e in recs[i][1]["entries"]}
        ctx.check(False, clause, recs[i][0], entries=sorted(map(list, got))[:12], outcome=recs[i][2])
    return {"exhaustive": True}
