"""automut.py FILE N SEED CHECK...  - automatic one-place mutants of one module: of N seeded random mutants, those which pass the stable tests are
run against the given checks (in order, until one reports a violation); prints the survivors.  HITS=file of path:line restricts the lines."""
import ast
import difflib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

FILE, N, SEED, CHECKS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
REPO = os.environ.get("MUT_REPO", "/repo")
SRC = open(os.path.join(REPO, FILE)).read()
TREE = ast.parse(SRC)
LINES = SRC.splitlines(keepends=True)
OFF = [0]
for l in LINES:
    OFF.append(OFF[-1] + len(l.encode()))
RAW = SRC.encode()
hits = None
if os.environ.get("HITS"):
    hits = {int(l.rsplit(":", 1)[1]) for l in open(os.environ["HITS"]) if l.rsplit(":", 1)[0].endswith("/" + FILE)}


def span(n):
    return OFF[n.lineno - 1] + n.col_offset, OFF[n.end_lineno - 1] + n.end_col_offset


def text(n):
    a, b = span(n)
    return RAW[a:b].decode()


out = []


def add(n, new, what):
    a, b = span(n)
    if RAW[a:b].decode() != new:
        out.append((n.lineno, a, b, new, what))


CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//"}


def skip_call(c):
    t = text(c.func)
    return t.startswith(("log.", "print", "logging", "warnings", "ax.", "fig.", "plt.")) or t.endswith((".set", ".tick_params"))


def walk(n, fn):
    if isinstance(n, (ast.Assert, ast.Raise)) and not isinstance(n, ast.Assert):
        return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return
    if isinstance(n, ast.Call) and skip_call(n):
        return
    if isinstance(n, ast.JoinedStr):
        return
    if isinstance(n, ast.arguments) or isinstance(n, ast.ClassDef) and fn:
        pass
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        add(n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp")
    if isinstance(n, ast.BoolOp):
        op = " or " if isinstance(n.op, ast.And) else " and "
        add(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "bool")
        for v in n.values:
            rest = [x for x in n.values if x is not v]
            add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({text(x)})" for x in rest) + ")", "dropcond")
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, (ast.JoinedStr,)) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        add(n, f"(({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)}))", "bin")
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        add(n, f"({text(n.operand)})", "unary")
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            add(n, str(not v), "const")
        elif isinstance(v, int):
            add(n, str(v + 1), "const")
            if v > 0:
                add(n, str(v - 1), "const")
        elif isinstance(v, float):
            add(n, repr(v * 1.25 if v else 0.5), "const")
        elif isinstance(v, str) and 0 < len(v) < 40 and text(n)[0] in "'\"" and "\n" not in v:
            q = text(n)[0]
            add(n, text(n)[:-1] + "x" + q, "string")
    if isinstance(n, (ast.If, ast.While)) and not isinstance(n, ast.While):
        add(n.test, "True", "iftrue")
        add(n.test, "False", "iffalse")
        add(n.test, f"not ({text(n.test)})", "negate")
    if isinstance(n, ast.IfExp):
        add(n, text(n.body), "ifexp")
        add(n, text(n.orelse), "ifexp")
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        add(n, "pass", "delstmt")
    if isinstance(n, ast.Assert):
        add(n, "pass", "delassert")
    if isinstance(n, ast.AugAssign):
        add(n, "pass", "delaug")
        if isinstance(n.op, ast.Add):
            add(n, f"{text(n.target)} = {text(n.value)}", "aug")
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        add(n, "pass", "delassign")
    if isinstance(n, ast.Break):
        add(n, "pass", "break")
    if isinstance(n, ast.Continue):
        add(n, "pass", "continue")
    if isinstance(n, ast.Return) and n.value is not None and fn:
        add(n, "return", "return")
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
        a0, a1 = n.args[0], n.args[1]
        s0, e0 = span(a0)
        s1, e1 = span(a1)
        new = RAW[span(n)[0]:s0] + RAW[s1:e1] + RAW[e0:s1] + RAW[s0:e0] + RAW[e1:span(n)[1]]
        add(n, new.decode(), "swapargs")
    if isinstance(n, ast.Call) and n.keywords and len(n.keywords) and n.keywords[-1].arg:
        k = n.keywords[-1]
        ks = span(k.value)[0] - len(k.arg) - 1
        a, b = span(n)
        head = RAW[a:ks].decode().rstrip()
        if head.endswith(","):
            add(n, head[:-1] + ")", "dropkw")
    for f, v in ast.iter_fields(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and f in ("args", "decorator_list", "returns"):
            continue
        for c in (v if isinstance(v, list) else [v]):
            if isinstance(c, ast.AST):
                walk(c, fn or isinstance(n, ast.FunctionDef))


for top in TREE.body:
    if isinstance(top, (ast.FunctionDef, ast.ClassDef)):
        walk(top, False)
seen, muts = set(), []
for m in out:
    new = RAW[:m[1]] + m[3].encode() + RAW[m[2]:]
    if (m[1], m[2], m[3]) in seen or (hits is not None and m[0] not in hits):
        continue
    seen.add((m[1], m[2], m[3]))
    try:
        ast.parse(new)
    except SyntaxError:
        continue
    muts.append((m, new))
print(f"# {FILE}: {len(muts)} mutants, taking {min(N, len(muts))}", flush=True)
random.Random(SEED).shuffle(muts)
done = set()
LOG = os.environ.get("LOG")
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def one(x):
    m, new = x
    t = tempfile.mkdtemp(prefix="automut_")
    try:
        subprocess.run(f"cp -a {REPO} {t}/repo", shell=True, check=True)
        with open(os.path.join(t, "repo", FILE), "wb") as fh:
            fh.write(new)
        d = [l for l in difflib.unified_diff(SRC.splitlines(), new.decode().splitlines(), lineterm="", n=0)][3:]
        head = f"{FILE}:{m[0]} {m[4]} " + " | ".join(x.strip()[:150] for x in d[:4])
        env = dict(os.environ, PYTHONPATH=f"{t}/repo", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run(f"cd {t}/repo && timeout 100 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --randomly-seed=12345 --randomly-dont-reorganize tests", shell=True, env=env, capture_output=True, text=True, timeout=150)
        except subprocess.TimeoutExpired:
            return "T", head
        mm = re.search(r"(\d+) passed", r.stdout)
        if not mm or int(mm.group(1)) < 187:
            return "T", head
        for q in CHECKS:
            try:
                c = subprocess.run(["/verif/check.sh", q, "quick"], env=dict(os.environ, PIBRONIC_REPO=f"{t}/repo"), capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                return "X", head + f" [{q} timed out]"
            if c.returncode == 1:
                return "K", head + f" [{q}]"
            if c.returncode > 1:
                return "X", head + f" [{q} machinery: {(c.stdout + c.stderr)[-300:]}]"
        return "S", head
    finally:
        shutil.rmtree(t, ignore_errors=True)


tally = {}
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for st, r in ex.map(one, muts[:N]):
        tally[st] = tally.get(st, 0) + 1
        if st in "SX":
            print(st, r, flush=True)
print(f"# {FILE}: {tally} (T killed by tests, K by checks, S survived, X no answer)", flush=True)
