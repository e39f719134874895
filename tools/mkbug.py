"""plant a bug: verify it in a scratch copy of /repo and store it under seeded/<id>/.
usage: mkbug(id, property, {file: [(old, new), ...]}, demo source, needs, breaks)"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def base():
    """the commit before the first fix"""
    out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True, check=True).stdout.splitlines()
    for i, ln in enumerate(out):
        if ln.split(" ", 1)[1].startswith("fix:"):
            return out[i - 1].split()[0]


def passed_in(repo):
    xml = os.path.join(repo, "zz.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--randomly-seed=12345",
                    "--randomly-dont-reorganize", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}", "tests"],
                   cwd=repo, capture_output=True, text=True, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"})
    out = os.path.join(repo, "zz.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{xml}"], check=True, capture_output=True)
    with open(out) as fh:
        return json.load(fh)


def mkbug(id, prop, edits, demo, needs, breaks):
    dst = os.path.join(ROOT, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="mkbug_")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        for f, reps in edits.items():  # line endings stay as they are
            p = os.path.join(repo, f)
            s = open(p, newline="").read()
            for old, new in reps:
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w", newline="").write(s)
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, check=True).stdout
        os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, "demo.py"), "w") as fh:
            fh.write(demo)
        with open(os.path.join(dst, "demo.sh"), "w") as fh:
            fh.write(SH)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        with open(os.path.join(dst, "patch.diff"), "wb") as fh:
            fh.write(diff)
        with open(os.path.join(dst, "meta.json"), "w") as fh:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
        good = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
        bad = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
        res = passed_in(repo)
        with open("/opt/vp/BASELINE.json") as fh:
            stable = json.load(fh)["stable"]
        # only lines of the original repository may be changed
        for f in edits:
            orig = subprocess.run(["git", "-C", "/repo", "show", f"{base()}:{f}"], capture_output=True, text=True, check=True).stdout.splitlines()
            d = subprocess.run(["git", "-C", repo, "diff", "-U0", f], capture_output=True, text=True, check=True).stdout.splitlines()
            new = [ln[1:] for ln in d if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip() and ln[1:] not in orig]
            if new:
                print(f"{id}: CHANGES LINES THAT ARE NOT ORIGINAL: {new}")
        ok = {t for t in res.get("passed", [])}
        missing = [t for t in stable if t not in ok]
        verdict = "OK" if good.returncode == 0 and bad.returncode != 0 and not missing else "BAD"
        print(f"{id} [{prop}] {verdict}: demo clean={good.returncode} bug={bad.returncode} stable missing={len(missing)} {missing[:2]}")
        if verdict == "BAD":
            print(good.stdout[-500:], good.stderr[-1500:], "---", bad.stdout[-500:], bad.stderr[-500:])
            shutil.rmtree(dst)
        return verdict == "OK"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    # mkbug.py FILE...: each file calls mkbug()
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"))
