"""P08 - the electronic structure workflow.  Specification: spec/Workflow.tla, WorkflowOps.tla

Histories of interrupted and failing runs come from TLC; every history is replayed in a process of its own
against a scripted batch system (programs first on PATH) which also plays the quantum chemistry program."""
import builtins
import itertools
import json
import logging
import os
import random
import re
import signal
import sys
import time
import types

from .core import REPO, Raised

STEPS = {"opt": 1, "hartree_fock_nip": 2, "vib": 3, "eomcc_ip": 4, "prepvib": 5, "vibron": 6}
FAIL = '[s \\in 1..6 |-> IF s <= 4 THEN {"failed","noout","incomplete","reject","complain"} ELSE {"failed","noout","killed","reject"} \\cup (IF s = 6 THEN {"incomplete"} ELSE {})]'

SBATCH = r'''#!/bin/sh
# plays the batch system and the program: D/kind.JOB says how the job of this name ends
D=${0%/*}
for a in "$@"; do case "$a" in
  --workdir=*) W=${a#--workdir=} ;; --chdir=*) W=${a#--chdir=} ;;
  --export=*) E=",${a#--export=}," ;; esac; done
J=${E#*,JOB=}; J=${J%%,*}
P=${E#*,PARENT_PID=}; P=${P%%,*}
read n < "$D/count"; n=$((n+1)); echo $n > "$D/count"
kind=ok; if [ -f "$D/kind.$J" ]; then read kind < "$D/kind.$J"; fi
if [ $kind = reject ]; then echo "sbatch: error: Batch job submission failed: Invalid partition" >&2; ok=0; else ok=1; fi
mkdir "$D/job.$n"; echo "$J" > "$D/job.$n/name"; echo $kind > "$D/job.$n/kind"; echo "$*" > "$D/job.$n/args"
for f in "$W/$J.in" "$W/PNTHEFF" "$W/cp.auto"; do if [ -f "$f" ]; then cp "$f" "$D/job.$n/"; fi; done
if [ $kind = reject ]; then exit 1; fi
if [ $kind = complain ]; then echo "sbatch: error: something is wrong" >&2; echo "Submitted batch job 100$n"; exit 0; fi
case $kind in
  ok|killed) for f in "$D/out/$J".*; do if [ -f "$f" ]; then cp "$f" "$W/"; fi; done; [ -f "$W/fcmfinal" ] || echo x > "$W/fcmfinal" ;;
  noout) for f in "$D/out/$J".*; do rm -f "$W/${f##*/}"; done ;;
  incomplete) cp "$D/bad/$J".* "$W/" ;;
esac
if [ $kind = killed ]; then printf 'start\nslurm_script: line 3: 77 Killed    xaces2\nFinished\n' > "$W/slurm-100$n.out"; else printf 'start\nFinished\n' > "$W/slurm-100$n.out"; fi
echo "Submitted batch job 100$n"
[ -n "$P" ] && kill -USR1 "$P"
exit 0
'''
SCONTROL = r'''#!/bin/sh
D=${0%/*}
if [ "$2" = config ]; then echo "ClusterName = nlogn"; exit 0; fi
n=${3#100}
if [ ! -f "$D/job.$n/kind" ]; then echo "slurm_load_jobs error: Invalid job id specified" >&2; exit 1; fi
read kind < "$D/job.$n/kind"
read lag < "$D/lag"
c=0; [ -f "$D/job.$n/calls" ] && read c < "$D/job.$n/calls"; c=$((c+1)); echo $c > "$D/job.$n/calls"
if [ $c -le $lag ]; then echo "JobId=$3
   JobState=RUNNING Reason=None"; exit 0; fi
if [ $kind = failed ]; then
  if [ $c -gt $((lag+2)) ]; then echo "slurm_load_jobs error: Invalid job id specified" >&2; exit 1; fi
  echo "JobId=$3
   JobState=FAILED Reason=NonZeroExitCode"
else echo seen > "$D/job.$n/seen"; echo "JobId=$3
   JobState=COMPLETED Reason=None"; fi
'''
SACCT = r'''#!/bin/sh
D=${0%/*}
for a in "$@"; do j=$a; done
n=${j#100}
kind=failed; [ -f "$D/job.$n/kind" ] && read kind < "$D/job.$n/kind"
if [ $kind = failed ]; then echo "    FAILED "; else echo " COMPLETED "; fi
'''
DONE = " The ACES2 program has completed successfully in      12.3 seconds\n"

def molecule(cfg):
    """relational lines, initial values, optimised values (internal) or header lines and atoms before and after (Cartesian coordinates)"""
    rng = random.Random(cfg.get("mol", 0))
    n = rng.choice([3, 3, 4, 5])
    if cfg["zmat"] == "internal":
        rel, val, opt, k = ["X" if rng.random() < 0.2 else "O"], {}, {}, 0
        for a in range(1, n):
            line = ["H" if a > 1 else "C"]
            for j, kind in zip(range(min(a, 3)), "RAT"):
                name = f"{kind}{a}" if n > 3 else (kind if a == 1 or kind != "R" or rng.random() < 0.5 else "R2")
                fixed = name in val and name not in opt or name not in val and k > 0 and rng.random() < 0.3
                k += 1
                if name not in val:
                    v = rng.uniform(0.9, 1.6) if kind == "R" else rng.uniform(80, 130)
                    val[name] = f"{v:.4f}"
                    if not fixed:
                        opt[name] = f"{v * 1.0173:.4f}"
                line += [str(a - j), name + ("" if fixed else "*")]
            rel.append(" ".join(line))
        return rel, val, opt
    heads = ["some molecule", "in the gas phase", "C2V"][:rng.choice([1, 1, 2, 3])]
    at = [(rng.choice("OHCN"), [rng.uniform(-2, 2) for _ in range(3)]) for _ in range(n)]
    x0 = [f"{e} " + " ".join(f"{v:.5f}" for v in x) for e, x in at]
    x1 = [f"{e} " + " ".join(f"{v * 1.031 + 0.002:.5f}" for v in x) for e, x in at]
    return heads, x0, x1


def geometry(cfg, text):
    """which geometry the input of a job describes: initial, optimised, other"""
    a, b, c = molecule(cfg)
    lines = [line.strip() for line in text.splitlines()]
    if cfg["zmat"] == "internal":
        if "" not in lines:
            return "other", 0
        i = lines.index("")
        rel, vals = lines[:i], {}
        for line in lines[i + 1:]:
            if "=" not in line or line.startswith("*"):
                break
            k, v = (w.strip() for w in line.split("=", 1))
            vals[k] = v
        want = ["some molecule"] + a
        stars = int(rel == want)
        plain = int(rel == [x.replace("*", "") for x in want])
        for tag, r in (("initial", b), ("optimised", {**b, **c})):
            if vals == r:
                return tag, stars if tag == "initial" else plain
        return "other", 0
    for tag, x in (("initial", b), ("optimised", c)):
        want = [w.split() for w in a + x]
        if [w.split() for w in lines if w][:len(want)] == want:
            return tag, 1
    return "other", 0


def write(path, text):
    with open(path, "w") as fh:
        fh.write(text)


def prepare(d, cfg):
    """the directory of the workflow, the scripted programs and their outputs"""
    work, name = os.path.join(d, "work"), cfg["name"]
    for p in (work, os.path.join(d, "out"), os.path.join(d, "bad")):
        os.makedirs(p)
    for prog, text in (("sbatch", SBATCH), ("scontrol", SCONTROL), ("sacct", SACCT)):
        write(os.path.join(d, prog), text)
        os.chmod(os.path.join(d, prog), 0o755)
    write(os.path.join(d, "count"), "0\n")
    write(os.path.join(d, "lag"), f"{cfg['lag']}\n")
    write(os.path.join(work, f"{name}_params.txt"), f"# parameters\n\nbasis\n{cfg['basis']}\n\ntheory\n{cfg['theory']}\n# the kind\ncalculation\nIP\n" + (f"\ngridVibron\n{cfg['grid']}\n" if cfg.get("grid") else ""))
    if cfg["zmat"] == "internal":
        rel, r0, r1 = molecule(cfg)
        z = "some molecule\n" + "\n".join(rel) + "\n\n" + "".join(f"{k}={v}\n" for k, v in r0.items())
    else:
        heads, x0, x1 = molecule(cfg)
        z = "\n".join(heads + x0) + "\n"
    write(os.path.join(work, f"{name}_zmat.txt"), z)
    pad = "".join(f" line {i}\n" for i in range(12))
    outs = {}
    if cfg["zmat"] == "internal":
        s = " Summary of optimized internal coordinates\n -----\n" + "".join(f" {k} = {v}\n" for k, v in r1.items()) + "\n"
    else:
        s = " Summary of optimized Cartesian coordinates (Ang)\n -----\n" + "".join("   " + x.replace(" ", "    ") + "\n" for x in x1) + "\n"
    outs[f"{name}_opt.out0"] = pad + s + " Frequencies of the updated Hessian at convergence\n 1 2 3\n" + pad + DONE + " tail\n"
    ev = [-550.1, -35.2, -19.3, -15.8, -13.7]
    orb = "  ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 EV)\n\n     MO #        E(hartree)               E(eV)           FULLSYM    COMPSYM\n" \
          "     ----   --------------------   --------------------   -------   ---------\n" \
          + "".join(f"  {i + 1:5d}  {i + 1:5d}  {e / 27.2113957:19.10f}  {e:19.10f}  A1  A1 (1)\n" for i, e in enumerate(ev)) \
          + "  +++++++++++++++++++++++++++++++++++++++++++\n"
    outs[f"{name}_hartree_fock_nip.out0"] = pad + orb + pad + DONE
    outs[f"{name}_vib.out0"] = pad + pad + DONE + "\n\n"
    for n in range(1, cfg["start"] + 1):
        rows = "".join(f"    {i + 1}   -0.45{i}   12.5{i}   -76.1{i}   {(cfg.get('high', 96.5) if i == 0 else 95.5 - i) if i < cfg['good'] else (cfg.get('low', 61.25) if i == cfg['good'] else 91.0)}   1.5\n" for i in range(n))
        outs[f"{name}_eomcc_ip_{n}.out0"] = pad + " Summary of ionization-potential eom-cc calculation\n\n ---------------------------\n  State  IP(au)  IP(eV)  total energy  %singles  %doubles\n" \
            " ---------------------------\n" + rows + " ---------------------------\n" + pad + DONE
    junk = " HEFF_0 first part\n 1.0 2.0\n HEFF_IP1 second part\n 3.0\n"
    keep = " HEFF_IP2 what is needed\n 4.0 5.0\n HEFF_IP2 more of it\n 6.0\n"
    outs[f"{name}_prepvib.out0"] = pad + DONE
    outs[f"{name}_prepvib.pntheff"] = junk + keep
    outs[f"{name}_prepvib.vibronic_coupling"] = junk + keep + " end of couplings\n"
    outs[f"{name}_prepvib.vibron_input"] = " title\n nip =  xxx      \n roots 12\n"
    outs[f"{name}_vibron.out0"] = pad + " All done in main_vibron\n" + " tail\n"
    for f, text in outs.items():
        write(os.path.join(d, "out", f), text)
        if f.endswith(".out0"):
            write(os.path.join(d, "bad", f), text.replace(DONE, "").replace(" All done in main_vibron\n", ""))
    return work, keep


def child(d, cfg, runs):
    """performs the runs; never returns"""
    try:
        os.setpgid(0, 0)
        from pibronic.vibronic import electronic_structure as es
        import pibronic.server.job_boss as jb  # noqa: F401
        os.environ["PATH"] = d + os.pathsep + os.environ["PATH"]
        os.environ["HOME"] = d
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        work = os.path.join(d, "work")
        os.chdir(work)
        rtimed, ritimer = signal.sigtimedwait, signal.setitimer
        time.sleep = lambda s: None
        signal.sigtimedwait = lambda s, t: rtimed(s, min(t, 0.05))
        signal.alarm = lambda s: (ritimer(signal.ITIMER_REAL, 0.02), 0)[1]
        rinput, start = builtins.input, cfg["start"]
        asked = [0]

        def answer(prompt=""):
            asked[0] += 1
            if asked[0] > 200:
                raise EOFError("too many questions")
            if "acceptable" in prompt:
                return "y" if re.search(rf"\b{start}\b", prompt) else "n"
            return str(start)
        builtins.input = answer
        root = os.path.join(os.path.realpath(REPO), "pibronic")
        out = []

        def submitted():
            with open(os.path.join(d, "count")) as fh:
                return int(fh.read() or 0)
        for run in runs:
            for job, kind in run.get("kinds", {}).items():
                write(os.path.join(d, f"kind.{job}"), kind + "\n")
            first = submitted()
            log = os.path.join(work, "execution_state.txt")
            if cfg.get("blank") and os.path.isfile(log):        # blank lines mean nothing
                with open(log, "a") as fh:
                    fh.write("\n\n")
            state = {"per": {}, "seq": 0}
            crash = run.get("crash")

            def local(frame, event, arg):
                if event == "line":
                    k = os.stat(os.path.join(d, "count")).st_mtime_ns
                    if k != state.get("mt"):
                        state["mt"] = k
                        state["seq"] = submitted() - first
                    w = state["per"][state["seq"]] = state["per"].get(state["seq"], 0) + 1
                    if crash and state["seq"] == crash["window"] and w >= crash["at"]:
                        os._exit(7)         # killed: nothing is cleaned up
                return local

            def tracer(frame, event, arg):
                if event == "call" and os.path.realpath(frame.f_code.co_filename).startswith(root) and "log_conf" not in frame.f_code.co_filename:
                    return local
                return None
            pid = os.fork()
            if pid == 0:
                try:
                    job = es.VibronExecutionClass(cfg["name"], work)
                    sys.settrace(tracer)
                    try:
                        job.calculate_vibronic_model()
                        ended, msg = "finished", ""
                    except Exception as e:
                        ended, msg = "raised", f"{type(e).__name__}: {e}"[:300]
                    sys.settrace(None)
                    write(os.path.join(d, "run.part"), json.dumps({"ended": ended, "msg": msg, "lines": state["per"]}))
                    os.replace(os.path.join(d, "run.part"), os.path.join(d, "run"))
                except BaseException as e:
                    write(os.path.join(d, "err"), repr(e))
                finally:
                    os._exit(0)
            status = os.waitpid(pid, 0)[1]
            r = json.loads(read(os.path.join(d, "run"), "{}"))
            if r:
                os.unlink(os.path.join(d, "run"))
            elif os.WIFEXITED(status) and os.WEXITSTATUS(status) == 7:
                r = {"ended": "crashed", "msg": "", "lines": {}}
            else:
                r = {"ended": "killed", "msg": f"status {status}", "lines": {}}
            for j in run.get("kinds", {}):
                if os.path.exists(os.path.join(d, f"kind.{j}")):
                    os.unlink(os.path.join(d, f"kind.{j}"))
            r["jobs"] = list(range(first + 1, submitted() + 1))
            out.append(r)
            write(os.path.join(d, "res.part"), json.dumps(out))
            os.replace(os.path.join(d, "res.part"), os.path.join(d, "res"))
    except BaseException as e:
        write(os.path.join(d, "err"), repr(e))
    finally:
        os._exit(0)


def read(path, default=""):
    try:
        with open(path) as fh:
            return fh.read()
    except FileNotFoundError:
        return default


def step_of(name, job):
    if not job.startswith(name + "_"):
        return 0
    rest = job[len(name) + 1:]
    if re.fullmatch(r"eomcc_ip_\d+", rest):
        return 4
    return STEPS.get(rest, 0)


def observe(d, cfg, keep, k):
    """the k-th submitted job, in the terms of the specification"""
    jd = os.path.join(d, f"job.{k}")
    job, kind = read(os.path.join(jd, "name")).strip(), read(os.path.join(jd, "kind")).strip()
    step = step_of(cfg["name"], job)
    text = read(os.path.join(jd, job + ".in"))
    geom, stars = ("none", 1) if step == 6 else geometry(cfg, text)
    m = re.search(r"nip\s*=\s*(\d+)", text)
    nip = int(m.group(1)) if m else 0
    ready = 1
    if step == 6:
        ready = int(nip == cfg["good"] and read(os.path.join(jd, "PNTHEFF")) == keep and read(os.path.join(jd, "cp.auto")) == keep + " end of couplings\n")
    elif step:
        ready = int(f"BASIS={cfg['basis']}," in text and f"CALC={'SCF' if step == 2 else cfg['theory']}," in text)
        ready = int(ready and stars)
        if step == 5:
            ready = int(ready and f"GRID_VIBRON={cfg.get('grid') or 3}," in text)
        if step == 4:
            ready = int(ready and job.endswith(f"_{nip}"))
    return {"step": step, "nip": nip if step >= 4 else 0, "ok": int(kind == "ok"), "seen": int(os.path.isfile(os.path.join(jd, "seen"))), "geom": geom, "ready": ready}, job


def execute(ctx, plans):
    """8 at a time: yields (plan, record, info)"""
    todo, running, done, hangs = list(enumerate(plans)), {}, [], 0
    while todo or running:
        while todo and len(running) < 8 and hangs < 3:
            k, p = todo.pop(0)
            d = ctx.newdir("wf")
            work, keep = prepare(d, p["cfg"])
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                child(d, p["cfg"], p["runs"])
            running[pid] = (k, p, d, keep, time.monotonic())
        if hangs >= 3:
            todo = []
        pid, status = os.waitpid(-1, os.WNOHANG)
        hang = False
        if pid == 0:
            late = [q for q, r in running.items() if time.monotonic() - r[4] > 60]
            if not late:
                time.sleep(0.004)
                continue
            pid, hang = late[0], True
            os.killpg(pid, signal.SIGKILL)
            status = os.waitpid(pid, 0)[1]
        if pid not in running:
            continue
        k, p, d, keep, t0 = running.pop(pid)
        hangs += hang
        res = json.loads(read(os.path.join(d, "res"), "[]"))
        runs, lines, names = [], [], []
        for r in res:
            obs = [observe(d, p["cfg"], keep, n) for n in r["jobs"]]
            runs.append({"log": [o[0] for o in obs], "ended": r["ended"]})
            names.append([o[1] for o in obs])
            lines.append(r["lines"])
        info = {"msgs": [r["msg"] for r in res], "jobs": names, "lines": lines, "state": read(os.path.join(d, "work", "execution_state.txt")).split(),
                "err": read(os.path.join(d, "err")), "status": status, "hang": hang}
        done.append((p, {"start": p["cfg"]["start"], "good": p["cfg"]["good"], "runs": runs}, info))
        ctx.rmdir(d)
    return done


def jobname(cfg, step, left):
    n = {1: "opt", 2: "hartree_fock_nip", 3: "vib", 4: f"eomcc_ip_{cfg['good'] + left - 1}", 5: "prepvib", 6: "vibron"}[step]
    return f"{cfg['name']}_{n}"


def concretise(hist, rng, windows):
    """windows[series length]: lines of the implementation between the submissions of an undisturbed run"""
    series = hist[0]["ip"]
    good = rng.choice([1, 2, 3])
    cfg = {"name": rng.choice(["ch2o", "water", "x1", "nh3_b"]), "zmat": rng.choice(["internal", "cartesian"]), "basis": rng.choice(["TZ2P", "DZP"]),
           "theory": rng.choice(["MBPT(2)", "CCSD", "CCSD(T)"]), "good": good, "start": good + series - 1, "lag": rng.choice([0, 0, 1, 2]),
           "mol": rng.randint(0, 10 ** 6), "blank": rng.randint(0, 1), "grid": rng.choice([None, None, 3, 4]), "high": rng.choice([96.5, 85.01]), "low": rng.choice([61.25, 84.99, 85.0])}
    runs, lo = [], 1
    for h in hist:
        if h["end"] == "finished":
            runs.append({})
            continue
        if h["end"] == "failed":
            runs.append({"kinds": {jobname(cfg, h["step"], h["left"]): h["kind"]}})
            lo = h["step"]
            continue
        # interrupted: the window between two submissions, counted in this run
        pos = lambda s, left: s - 1 if s < 4 else (3 + series - left if s == 4 else s - 2 + series)      # jobs before this one in a complete run
        here = pos(h["step"], h["left"]) - pos(lo, series)
        prep = h["kind"] == "prepare"
        window = max(0, here if prep else here + 1)
        full = windows.get(str(pos(h["step"], h["left"]) + (0 if prep else 1)), 40)
        frac = {"prepare": rng.uniform(0.6, 1.0), "queued": rng.uniform(0, 0.4), "ended": rng.uniform(0.3, 0.7), "verified": rng.uniform(0.5, 0.9)}[h["kind"]]
        runs.append({"crash": {"window": window, "at": 1 + int(frac * full)}})
        lo = h["step"]
    runs += [{}, {}]
    return {"cfg": cfg, "runs": runs}


def overview(ctx, es, rng):
    """the last recorded step of every molecule, as it is reported"""
    names = [s.name for s in es.State]
    log = es.log
    recs, meta = [], []
    for r in range(15 if not ctx.thorough else 300):
        root = ctx.newdir("all")
        numbers, recorded = [v[1] for v in es.number_dictionary.values()], []
        for n in numbers:
            steps = names[:rng.choice([0, 0, 1, 2, 4, len(names)])]
            recorded.append(steps)
            if steps or rng.random() < 0.5:
                d = os.path.join(root, f"data_set_{n}", "electronic_structure")
                os.makedirs(d)
                write(os.path.join(d, "execution_state.txt"), "".join(s + "\n" + rng.choice(["", "", "\n", "\n\n"]) for s in steps) + rng.choice(["", "\n"]))
        case = {"kind": "overview", "recorded": recorded}
        if not ctx.want(case):
            continue
        told = []
        handler = logging.Handler()
        handler.emit = lambda record: told.append(record.getMessage())
        level, propagate = log.level, log.propagate
        log.addHandler(handler)
        log.setLevel(logging.INFO)
        log.propagate = False
        disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        try:
            out = ctx.call(es.pretty_print_job_status, root if r % 2 else os.path.join(root, "data_set_{:d}", "electronic_structure", "execution_state.txt"), timeout=20)
        finally:
            logging.disable(disabled)
            log.removeHandler(handler)
            log.setLevel(level)
            log.propagate = propagate
        ctx.rmdir(root)
        ctx.check(not isinstance(out, Raised), "the overview of the molecules can be shown", case, outcome=repr(out))
        recs.append({"recorded": recorded, "told": [[w for t in told if re.search(rf"\b{n}\b", t) for w in re.findall("|".join(rf"\b{x}\b" for x in names), t)] for n in numbers]})
        meta.append((case, told))
        ctx.count("overview of several molecules", case)
    for i, clause in ctx.judge("WorkflowOps", recs, "VerdictOverview").items():
        ctx.check(False, clause, meta[i][0], observed=recs[i], told=meta[i][1])


def run(ctx):
    from pibronic.vibronic import electronic_structure as es
    rng = random.Random(ctx.seed * 7919 + 8)
    base = dict(Steps=6, IpStep=4, MaxIp=2, Kinds=FAIL, EarlyRecord="FALSE", Vacuous="FALSE")
    invs = ["RecordedIsTrue", "NeverRedone", "InOrder", "Bounded"]
    ctx.tlc("Workflow", dict(base, MaxRuns=4, MaxIp=3), spec="Spec", invariants=invs, properties=["Progress"], view="View", label="four runs, exhaustive")
    for wrong in ("EarlyRecord", "Vacuous"):
        ctx.tlc("Workflow", dict(base, MaxRuns=2, **{wrong: "TRUE"}), spec="Spec", invariants=invs, view="View", expect_violation=True, label=wrong + " (must fail)")
        assert not ctx.last_tlc_ok
    hists = [e["hist"] for e in ctx.tlc("Workflow", dict(base, MaxRuns=1, MaxIp=3), invariants=invs + ["Emit"], label="one interrupted run")]
    pairs = [e["hist"] for e in ctx.tlc("Workflow", dict(base, MaxRuns=2), invariants=invs + ["Emit"], label="two interrupted runs")]
    many = [e["hist"] for e in ctx.tlc("Workflow", dict(base, MaxRuns=4, MaxIp=3), invariants=invs + ["Emit"], simulate=(200 if not ctx.thorough else 3000),
                                       depth=120, workers=1, label="long histories")]
    rng.shuffle(pairs)
    # how many places an undisturbed run has
    cal = {"cfg": {"name": "cal", "zmat": "internal", "basis": "DZP", "theory": "CCSD", "good": 2, "start": 3, "lag": 1}, "runs": [{}]}
    got = execute(ctx, [cal])[0]
    windows = got[2]["lines"][0] if got[2]["lines"] else {}
    plans = [cal]
    seen = set()
    for src, n in ((hists, 10 ** 6), (pairs, 160 if not ctx.thorough else 10 ** 6), (ctx.thin(many, 40 if not ctx.thorough else 800), 10 ** 6)):
        for h in src[:n]:
            k = json.dumps(h)
            if k in seen:
                continue
            seen.add(k)
            plans.append(concretise(h, rng, windows))
    # interruptions at (nearly) every line between two submissions
    step = 13 if not ctx.thorough else 1
    for w, n in sorted(windows.items()):
        for at in range(1 + rng.randint(0, step - 1), n + 2, step):
            plans.append({"cfg": dict(cal["cfg"], zmat=rng.choice(["internal", "cartesian"])), "runs": [{"crash": {"window": int(w), "at": at}}, {}, {}]})
    # no state passes the check of the singles
    plans.append({"cfg": dict(cal["cfg"], good=0, start=2), "runs": [{}, {}]})
    plans = [p for p in plans if ctx.want({"workflow": p})]
    recs, meta = [], []
    for p, rec, info in execute(ctx, plans):
        case = {"workflow": p}
        if info["hang"] or info["err"] or len(rec["runs"]) < len(p["runs"]):
            ctx.check(False, "every run of the workflow ends", case, info=info)
            continue
        recs.append(rec)
        meta.append((case, info))
        ctx.count("workflow with runs " + "/".join(r["ended"] for r in rec["runs"]), case)
    for i, clause in ctx.judge("WorkflowOps", recs, "VerdictWorkflow").items():
        ctx.check(False, clause, meta[i][0], observed=recs[i], jobs=meta[i][1]["jobs"], messages=meta[i][1]["msgs"], state=meta[i][1]["state"])

    # ---------------------------------------------------------------- success of a calculation
    d = ctx.newdir("done")
    write(os.path.join(d, "slurm-5.out"), "Finished\n")
    old = time.sleep
    time.sleep = lambda s: None
    try:
        recs, meta = [], []
        path = os.path.join(d, "x.out0")
        for n, prog in itertools.product((20, 21, 60, 400), ("aces2", "vibron")):
            for pos in [-1] + list(range(0, 5)) + [15, 16, n - 1]:
                for end in ("\n", ""):
                    case = {"kind": "completed", "prog": prog, "n": n, "pos": pos, "newline": len(end)}
                    if pos >= n or not ctx.want(case):
                        continue
                    lines = [f" some output {i}" for i in range(n)]
                    if pos >= 0:
                        lines[n - 1 - pos] = DONE.rstrip("\n") if prog == "aces2" else " All done in main_vibron"
                    write(path, "\n".join(lines) + end)
                    if prog == "vibron":
                        out = ctx.call(es.parse_vibron_output, types.SimpleNamespace(path_root=d, file_out={"vibron": "x.out0"}), timeout=20)
                    else:
                        out = ctx.call(es.verify_aces2_completed, d, path, 5, timeout=20)
                    recs.append({"n": n, "pos": pos, "out": "raised" if isinstance(out, Raised) else "returned"})
                    meta.append((case, repr(out)))
                    ctx.count("end of an output", case)
        for i, clause in ctx.judge("WorkflowOps", recs, "VerdictCompleted").items():
            ctx.check(False, clause, meta[i][0], observed=recs[i], outcome=meta[i][1])

        # ------------------------------------------------------------ parameters of several workflows in one process
        recs, meta = [], []
        opts = {"basis": ["TZ2P", "DZP"], "theory": ["MBPT(2)", "CCSD", "CCSD(T)"], "DROPMO": ["DROPMO=1", "DROPMO=1-4"], "gridVibron": ["3", "4"], "ccConv": ["9", "10"], "estateTol": ["7"]}
        for r in range(12 if not ctx.thorough else 200):
            objs, want = [], []
            for o in range(3):
                w = {"calculation": "IP", "basis": rng.choice(opts["basis"]), "theory": rng.choice(opts["theory"])}
                for k in ("DROPMO", "gridVibron", "ccConv", "estateTol"):
                    if rng.random() < 0.4:
                        w[k] = rng.choice(opts[k])
                want.append(w)
            case = {"kind": "parameters", "files": want}
            if not ctx.want(case):
                continue
            for o, w in enumerate(want):
                wd = os.path.join(d, f"p{r}_{o}")
                os.makedirs(wd)
                items = list(w.items())
                rng.shuffle(items)
                write(os.path.join(wd, "m_params.txt"), "# file\n" + "\n".join(f"{k}\n{v}\n" for k, v in items))
                objs.append(es.VibronExecutionClass("m", wd))
            res = [ctx.call(o.parse_input_parameters, timeout=20) for o in objs]
            ctx.check(not any(isinstance(x, Raised) for x in res), "the parameters of a workflow can be read", case, outcome=repr(res))
            defaults = {"DROPMO": "", "gridVibron": "3", "ccConv": "10", "scfConv": "10", "estateTol": "10"}
            rec = {"want": [], "got": []}
            for o, w in zip(objs, want):
                full = {**defaults, **w}
                rec["want"].append({k: str(v) for k, v in full.items()})
                rec["got"].append({k: str(o.parameter_dictionary.get(k)) for k in full})
                for k in ("gridVibron", "ccConv", "scfConv", "estateTol"):
                    ctx.check(isinstance(o.parameter_dictionary.get(k), int), "numerical parameters are numbers", case, name=k, value=repr(o.parameter_dictionary.get(k)))
            recs.append(rec)
            meta.append(case)
            ctx.count("parameters of several workflows", case)
        for i, clause in ctx.judge("WorkflowOps", recs, "VerdictParameters").items():
            ctx.check(False, clause, meta[i], observed=recs[i])
        overview(ctx, es, rng)
    finally:
        time.sleep = old
    ctx.assumptions += ["the batch system and the quantum chemistry program are scripted; waiting takes no time",
                        "interruptions happen between two lines of the workflow (the process ends without any clean up)"]
    return {"workflows": len(plans), "lines": windows}
