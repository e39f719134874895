"""mutrun.py FILE [name...]  - quick mutation runs: every mutant of FILE (list M of (name, property, file, old, new)) against a copy of /repo
prints tests passed/failed and the result of the property's check"""
import os, re, runpy, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
M = runpy.run_path(sys.argv[1])["M"]
sel = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def one(m):
    name, prop, f, pairs = m[0], m[1], m[2], m[3]
    t = tempfile.mkdtemp(prefix="mutrun_")
    try:
        subprocess.run(f"cp -a /repo {t}/repo && git -C {t}/repo checkout -q -- .", shell=True, check=True)
        p = os.path.join(t, "repo", f)
        s = open(p, newline="").read()
        for old, new in pairs:
            if s.count(old) < 1:
                return f"{name}: text not found: {old[:50]!r}"
            s = s.replace(old, new, m[4] if len(m) > 4 else 1)
        open(p, "w", newline="").write(s)
        env = dict(os.environ, PYTHONPATH=f"{t}/repo", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(f"cd {t}/repo && timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --randomly-seed=12345 --randomly-dont-reorganize tests", shell=True, env=env, capture_output=True, text=True)
        last = [l for l in r.stdout.splitlines() if "passed" in l][-1:] or ["?"]
        out = []
        for q in prop.split("+"):
            c = subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.sh"), q, os.environ.get("TIER", "quick")], env=dict(os.environ, PIBRONIC_REPO=f"{t}/repo"), capture_output=True, text=True)
            cl = re.findall("clause: .*", c.stdout)
            out.append(f"{q} rc={c.returncode} {cl[0][:100] if cl else ''}")
            if c.returncode > 1:
                out.append((c.stdout + c.stderr)[-600:])
        flag = "" if any("rc=1" in o for o in out) else "   <<<<<<<< MISSED"
        return f"{name}: tests {last[0].strip('= ')} | {' ; '.join(out)}{flag}"
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for r in ex.map(one, [m for m in M if not sel or m[0] in sel]):
        print(r, flush=True)
