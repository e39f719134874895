"""Common machinery: running TLC on the specification, calling the real code,
recording violations, and writing the evidence file.

Verdict discipline (see DESIGN.md):
  exit 0   the property held on everything explored
  exit 1   plus one `VIOLATION property=<id> replay=<path>` line
  exit 2   the machinery itself failed (TLC error, spec invariant broken, bug in the harness)
"""
import contextlib
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PIBRONIC_REPO", "/repo")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


JUDGE = """---- MODULE zzJudge ----
(* generated by harness/core.py: evaluates the specification operator @OPS@!@OP@ on every record *)
EXTENDS @OPS@, TLC, Json, Naturals, Sequences
@CONST@
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLE k
Init == k \\in 1..Len(Cases)
Next == UNCHANGED k
Inv == LET v == @OP@(Cases[k])
       IN  IF v = "" THEN TRUE ELSE PrintT("@@" \\o ToJson([k |-> k, clause |-> v]))
====
"""


class MachineryError(Exception):
    """something in the check itself is broken: never reported as a violation"""


class CodeTimeout(BaseException):
    """the code under test did not terminate in the time allowed"""


class Raised:
    """outcome of a call into the real code that raised"""
    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.msg = str(exc)[:400]
        self.exc = exc

    def __repr__(self):
        return f"raised {self.kind}: {self.msg}"


class Violation:
    def __init__(self, clause, case, detail):
        self.clause, self.case, self.detail = clause, case, detail


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, prop, tier, seed, only_case=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.only_case = only_case
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        base = os.environ.get("VERIF_TMP") or tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_", dir=base)
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.validated = 0
        self.kinds = {}
        self.samples = []
        self.tlc_runs = []
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.known = load_known(prop)
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self._n_dir = 0
        self.timeouts = 0

    # ---------------------------------------------------------------- scratch
    def newdir(self, name="d"):
        self._n_dir += 1
        path = os.path.join(self.scratch, f"{name}{self._n_dir}")
        os.makedirs(path)
        return path

    def rmdir(self, path):
        assert os.path.abspath(path).startswith(self.scratch)
        shutil.rmtree(path, ignore_errors=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, *, spec=None, init="Init", next_="Next", invariants=(),
            properties=(), constraints=(), action_constraints=(), view=None, postcondition=None,
            simulate=None, depth=None, workers=4, deadlock=False, data=None, timeout=800,
            expect_violation=False, label=None, heap="6g", symmetry=None, texts=None):
        """run TLC on spec/<module>.tla; returns the list of emitted JSON values"""
        d = self.newdir("tlc")
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, value in (data or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                if name.endswith(".ndjson"):
                    for row in value:
                        fh.write(json.dumps(row) + "\n")
                else:
                    json.dump(value, fh)
        for name, text in (texts or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        lines = []
        if spec:
            lines.append(f"SPECIFICATION {spec}")
        else:
            lines += [f"INIT {init}", f"NEXT {next_}"]
        if constants:
            # values may be arbitrary TLA+ expressions, which a .cfg file cannot hold: wrap the module
            lines.append("CONSTANTS")
            lines += [f"  {k} <- zz_{k}" for k in constants]
            with open(os.path.join(d, "zzMC.tla"), "w") as fh:
                fh.write(f"---- MODULE zzMC ----\nEXTENDS {module}\n")
                for k, v in constants.items():
                    fh.write(f"zz_{k} == {v}\n")
                fh.write("====\n")
        for key, vals in (("INVARIANT", invariants), ("PROPERTY", properties),
                          ("CONSTRAINT", constraints), ("ACTION_CONSTRAINT", action_constraints)):
            lines += [f"{key} {v}" for v in vals]
        if view:
            lines.append(f"VIEW {view}")
        if symmetry:
            lines.append(f"SYMMETRY {symmetry}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        cfg = os.path.join(d, "run.cfg")
        with open(cfg, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        cp = TLA_JAR
        for extra in sorted(os.listdir(os.path.dirname(TLA_JAR))):
            if extra.endswith(".jar") and "tla2tools" not in extra:
                cp += ":" + os.path.join(os.path.dirname(TLA_JAR), extra)
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", "-cp", cp, "tlc2.TLC",
               "-config", cfg, "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-fpmem", "0.3"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed + 17)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(os.path.join(d, ("zzMC" if constants else module) + ".tla"))
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module} ({label})")
        out = p.stdout
        emitted = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            pass
        gen = dist = 0
        if m:
            gen, dist = (int(g.replace(",", "")) for g in m.groups())
        elif simulate:
            mm = None
            for mm in re.finditer(r"Progress: ([\d,]+) states checked, ([\d,]+) traces", out):
                pass
            if mm:
                gen = int(mm.group(1).replace(",", ""))
            mm = re.search(r"The number of states generated: ([\d,]+)", out)
            if mm:
                gen = int(mm.group(1).replace(",", ""))
        ok = p.returncode == 0 and "Error:" not in out
        if not expect_violation and not ok:
            raise MachineryError(f"TLC failed on {module} ({label}) rc={p.returncode}:\n" + out[-4000:] + p.stderr[-2000:])
        self.states += dist
        self.transitions += gen
        self.tlc_runs.append({"module": module, "label": label or module, "distinct_states": dist,
                              "states_generated": gen, "emitted": len(emitted),
                              "mode": "simulate" if simulate else "exhaustive",
                              "wall_s": round(time.time() - t0, 2)})
        self.last_tlc_out = out
        self.last_tlc_ok = ok
        self.rmdir(d)
        return emitted

    def judge(self, ops_module, cases, operator="Verdict", label=None, workers=4, constants=None, chunk=20000):
        """hand recorded observations of the real code to TLC: `operator` (from the specification
        module) returns "" when the record is a behaviour the specification allows, and otherwise
        the name of the broken clause.  Returns {index: clause}."""
        bad = {}
        for off in range(0, len(cases), chunk):
            part = cases[off:off + chunk]
            text = JUDGE.replace("@OPS@", ops_module).replace("@OP@", operator)
            if constants:
                text = text.replace("@CONST@", "CONSTANTS " + ", ".join(constants))
            text = text.replace("@CONST@", "")
            emitted = self._tlc_text(text, ops_module, part, label or f"judge {ops_module}.{operator}", workers, constants)
            for e in emitted:
                bad[off + e["k"] - 1] = e["clause"]
            self.judged = getattr(self, "judged", 0) + len(part)
        return bad

    def _tlc_text(self, text, ops_module, part, label, workers, constants):
        extra = {"zzJudge.tla": text}
        return self.tlc("zzJudge", constants, invariants=["Inv"], data={"cases.ndjson": part},
                        label=label, workers=workers, texts=extra)

    # ---------------------------------------------------------------- calling the code
    def call(self, fn, *args, timeout=60, quiet=True, **kwargs):
        """call into the real code; returns its value or a Raised object"""
        def on_alarm(signum, frame):
            raise CodeTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        # code that hangs once will hang again: do not spend the whole run waiting for it
        timeout = timeout if self.timeouts < 3 else min(timeout, 5)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf) if quiet else contextlib.nullcontext():
                with contextlib.redirect_stderr(buf) if quiet else contextlib.nullcontext():
                    return fn(*args, **kwargs)
        except CodeTimeout:
            self.timeouts += 1
            return Raised(TimeoutError(f"did not return within {timeout} s"))
        except (Exception, SystemExit) as e:
            return Raised(e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    # ---------------------------------------------------------------- verdicts
    def want(self, case):
        """case filter used by --replay"""
        if self.only_case is None:
            return True
        have, rec = jsonable(case), json.loads(self.only_case)
        if isinstance(have, dict) and isinstance(rec, dict):
            return all(rec.get(k) == v for k, v in have.items())
        return have == rec

    def thin(self, cases, n):
        """a seeded sample of at most n cases (all of them when replaying one)"""
        cases = list(cases)
        if self.only_case is not None or len(cases) <= n:
            return cases
        return [cases[i] for i in sorted(self.rng.sample(range(len(cases)), n))]

    def count(self, kind, case=None, validated=False):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if validated:
            self.validated += 1
        else:
            self.replayed += 1
        if case is not None and self.kinds[kind] <= 2 and len(self.samples) < 16:
            self.samples.append({"kind": kind, "case": jsonable(case)})

    def check(self, cond, clause, case, **detail):
        """one comparison of the real code against the specification"""
        if cond:
            return True
        for k in self.known:
            if k["clause"] == clause and known_matches(k, case, detail):
                self.known_hits.append(k)
                return True
        if len(self.violations) < 25:
            self.violations.append(Violation(clause, jsonable(case), jsonable(detail)))
        return False

    @property
    def give_up(self):
        return len(self.violations) >= 25

    def finish(self, level="model_checking", extra=None):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.replayed + self.validated,
                "behaviours_replayed_into_impl": self.replayed,
                "recorded_impl_traces_checked_by_tlc": self.validated,
                "by_kind": self.kinds, "tlc_runs": self.tlc_runs,
                "samples": self.samples or [{"kind": "none"}],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        ev["coverage"].update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        seen = set()
        for k in self.known_hits:
            if k["id"] not in seen:
                seen.add(k["id"])
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop} [{self.tier}] states={self.states} transitions={self.transitions} "
              f"replayed={self.replayed} tlc-validated={self.validated} "
              f"violations={len(self.violations)} wall={ev['wall_s']}s")
        if not self.violations:
            return 0
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(self.violations[:5]):
            path = os.path.join(rdir, f"{self.prop}-{i}.json")
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "clause": v.clause, "case": v.case, "detail": v.detail}, fh, indent=1)
            print(f"  clause: {v.clause}\n    case:   {json.dumps(v.case)[:600]}\n    detail: {json.dumps(v.detail)[:900]}")
            if i == 0:
                first = path
        print(f"VIOLATION property={self.prop} replay={first}")
        return 1

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh)["known"] if k["property"] == prop]


def known_matches(k, case, detail):
    """a known finding names the exact case(s) it covers"""
    want = k.get("match", {})
    have = {**(case if isinstance(case, dict) else {"case": case}), **detail}
    have = jsonable(have)
    return all(have.get(key) == val for key, val in want.items())


def setup_import():
    """make /repo's working tree the imported package, without writing bytecode into it"""
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import pibronic
    got = os.path.realpath(pibronic.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise MachineryError(f"imported pibronic from {got}")
    # pibronic's own logger installs custom levels; silence it without touching behaviour
    return pibronic


def main(argv):
    import importlib
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 and not argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as fh:
            rec = json.load(fh)
        only = json.dumps(rec["case"], sort_keys=True) if "unexpected" not in rec["case"] else None
        seed, tier = rec["seed"], rec["tier"]
    ctx = Ctx(prop, tier, seed, only)
    cwd = os.getcwd()
    try:
        os.chdir(ctx.scratch)
        setup_import()
        mod = importlib.import_module(f"harness.{prop.lower()}")
        try:
            extra = mod.run(ctx)
        except (IndexError, KeyError, TypeError, ValueError, AttributeError, ZeroDivisionError, AssertionError, FileNotFoundError) as e:
            # what the code returned or wrote could not be read as an observation of any kind
            extra = {"exhaustive": False}
            ctx.violations.append(Violation("results do not have the expected form", {"unexpected": repr(e)[:300]}, {"trace": traceback.format_exc()[-1500:]}))
        rc = ctx.finish(extra=extra)
    except MachineryError as e:
        print(f"MACHINERY ERROR in {prop}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        print(f"MACHINERY ERROR in {prop}")
        rc = 2
    finally:
        os.chdir(cwd)
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main(sys.argv)
