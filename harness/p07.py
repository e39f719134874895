"""P07 - waiting for submitted jobs.  Specification: spec/JobSync.tla, JobSyncOps.tla

The schedules (how every job ends, where the signals arrive) come from TLC; each one is replayed in a
process of its own: the real code talks to a scripted batch system (programs first on PATH), and the
signals are raised by a C function installed as trace function, so that CPython delivers them exactly
where it can deliver real ones."""
import ctypes
import functools
import itertools
import json
import os
import random
import signal
import subprocess
import sys
import time

from .core import REPO, Raised

SCALE = 500.0
HANG = 25.0

SCONTROL = r'''#!/bin/sh
# scontrol show job ID | scontrol show config
D=$(dirname "$0")
if [ "$2" = config ]; then echo "ClusterName = nlogn"; exit 0; fi
J="$D/job$3"
n=$(cat "$J.n" 2>/dev/null || echo 0)
n=$((n+1)); echo $n > "$J.n"
s=$(sed -n "${n}p" "$J.states"); [ -n "$s" ] || s=$(tail -n 1 "$J.states")
case "$s" in *+break) s=${s%+break}; mv "$0" "$0.off"; echo broken >> "$J.seen";; esac
case "$s" in *+signal) s=${s%+signal}; kill -USR1 $PPID; [ -f "$J.twice" ] && kill -USR1 $PPID;; esac
echo "$s" >> "$J.seen"
if [ "$s" = unknown ]; then echo "slurm_load_jobs error: Invalid job id specified" >&2; exit 1; fi
echo "JobId=$3 JobName=x
   UserId=u(1) GroupId=u(1) MCS_label=N/A
   JobState=$s Reason=None Dependency=(null)"
'''
SACCT = '#!/bin/sh\ncat "$(dirname "$0")/sacct.out"\n'
SBATCH = '#!/bin/sh\necho "$@" > "$(dirname "$0")/sbatch.args"\ncat "$(dirname "$0")/sbatch.out"\n'


def programs(d):
    for name, text in (("scontrol", SCONTROL), ("sacct", SACCT), ("sbatch", SBATCH)):
        path = os.path.join(d, name)
        with open(path, "w") as fh:
            fh.write(text)
        os.chmod(path, 0o755)


class Injector:
    """decides at every traced instruction whether a signal arrives now"""
    def __init__(self, jb, plan, d):
        self.jb, self.plan, self.d = jb, list(plan), d
        self.jobno, self.count, self.waited = 0, {}, False
        self.root = os.path.join(os.path.realpath(REPO), "pibronic")
        lib = ctypes.PyDLL(None)
        f = lib["raise"]
        f.argtypes = [ctypes.c_int, ctypes.py_object, ctypes.py_object, ctypes.py_object]
        f.restype = None
        self.fire = functools.partial(f, signal.SIGUSR1)
        self.fired = 0
        self.armed = False
        self.id = None

    def start(self, jobno, job_id):
        self.jobno, self.count, self.waited, self.id = jobno, {}, False, job_id

    def phase(self):
        lock = getattr(self.jb, "job_state_lock", None)
        held = lock is not None and hasattr(lock, "locked") and lock.locked()
        looked = os.path.isfile(os.path.join(self.d, f"job{self.id}.n"))
        if not looked:
            return "look"
        if self.waited:
            return "woken" if held else "poll"
        return "test" if held else "acquire"

    def depth(self, frame):
        n = 0
        while frame is not None:
            if frame.f_code is getattr(self.jb.SIGUSR1_handle, "__code__", None):
                n += 1
            frame = frame.f_back
        return n

    def __call__(self, frame, event, arg):
        # global trace function: every function called
        if event != "call" or not os.path.realpath(frame.f_code.co_filename).startswith(self.root):
            return None
        if self.armed:       # the signal was delivered: stop raising
            self.armed = False
            self.fired += 1
            f = frame.f_back
            while f is not None:
                if f.f_trace is self.fire:
                    f.f_trace = self.local
                f = f.f_back
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if self.armed or event not in ("opcode", "line"):
            return self.local
        depth = self.depth(frame)
        where = ("h%d" % depth) if depth else self.phase()
        n = self.count[where] = self.count.get(where, 0) + 1
        p = self.plan[0] if self.plan else None
        if p and p["job"] == self.jobno and p["at"] == where and n >= p["nth"]:
            self.plan.pop(0)
            self.armed = True
            frame.f_trace = self.fire       # raised by C at the next instruction
            return self.fire
        return self.local


def child(d, sched, jobs):
    """runs in the forked process; never returns"""
    code = 3
    try:
        from pibronic.server import job_boss as jb
        from pibronic.vibronic import electronic_structure as es  # noqa: F401
        os.environ["PATH"] = d + os.pathsep + os.environ["PATH"]
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        devnull = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(devnull, fd)
        # time passes faster here
        rsleep, ralarm, rwait, rtimed = time.sleep, signal.setitimer, signal.sigwait, signal.sigtimedwait
        time.sleep = lambda s: rsleep(s / SCALE)
        signal.alarm = lambda s: (ralarm(signal.ITIMER_REAL, s / SCALE), 0)[1]
        signal.setitimer = lambda w, s, i=0.0: ralarm(w, s / SCALE, i / SCALE)
        inj = Injector(jb, [p for p in sched["signals"] if p["at"] != "wait"], d)
        waits = [p for p in sched["signals"] if p["at"] == "wait"]

        def before_wait():
            inj.waited = True
            for p in list(waits):
                if p["job"] == inj.jobno:
                    waits.remove(p)
                    inj.fired += 1
                    subprocess.Popen(["/bin/sh", "-c", f"sleep {0.02 * p['nth']:.2f}; kill -USR1 {os.getpid()}"])

        def sigwait(s):
            before_wait()
            return rwait(s)

        def sigtimedwait(s, t):
            before_wait()
            return rtimed(s, t / SCALE)
        signal.sigwait, signal.sigtimedwait = sigwait, sigtimedwait
        signal.signal(signal.SIGUSR1, jb.SIGUSR1_handle)
        res = []
        for k, job in enumerate(jobs):
            inj.start(k + 1, job["id"])
            with open(os.path.join(d, "at"), "w") as fh:
                fh.write(str(k))
            prog = os.path.join(d, "scontrol")
            if job.get("breaks") == 0:      # the batch system cannot be asked at all
                os.rename(prog, prog + ".off")
                with open(os.path.join(d, f"job{job['id']}.seen"), "w") as fh:
                    fh.write("broken\n")
            sys._getframe().f_trace_opcodes = True      # CPython 3.12: has to be known before settrace
            sys.settrace(inj)
            try:
                jb.synchronize_with_job(job["id"], "test")
                out = "returned"
            except Exception as e:
                out = "raised"
            finally:
                sys.settrace(None)
            res.append(out)
            if os.path.exists(prog + ".off"):
                os.rename(prog + ".off", prog)
            with open(os.path.join(d, "res.part"), "w") as fh:
                json.dump({"out": res, "fired": inj.fired, "events": inj.count}, fh)
            os.replace(os.path.join(d, "res.part"), os.path.join(d, "res"))
        t = time.monotonic()
        while time.monotonic() - t < 0.07:      # longer than any alarm that is still set
            rsleep(0.01)
        code = 0
    except BaseException as e:
        with open(os.path.join(d, "err"), "w") as fh:
            fh.write(repr(e))
    finally:
        os._exit(code)


def script(d, job, rng_k):
    """what the batch system says about this job, call by call"""
    s = ["RUNNING"] * job["pre"]
    if job["slow"] and s:
        s[0] = "PENDING"
    s += {"COMPLETED": ["COMPLETING", "COMPLETED"] if job["slow"] else ["COMPLETED"],
          "FAILED": [job["bad"]] * (1 + job["slow"]) + ["unknown"], "unknown": ["unknown"]}[job["ends"]]
    if job.get("during") and len(s) > 1:
        i = min(job["during"], len(s)) - 1
        s[i] += "+signal"
    if job.get("breaks") and job["breaks"] <= len(s):
        s[job["breaks"] - 1] += "+break"
    base = os.path.join(d, f"job{job['id']}")
    with open(base + ".states", "w") as fh:
        fh.write("\n".join(s) + "\n")
    if job.get("twice"):
        open(base + ".twice", "w").close()


def schedules(ctx, rng):
    consts = dict(NJobs=2, MaxSignals=2, Endings='{"COMPLETED", "FAILED", "unknown"}', Safe="TRUE", Patient="TRUE", Tidy="TRUE", MaxBreaks=0)
    invs = ["NeverKilled", "LockDiscipline", "ReturnsAreRight", "RaisesAreRight"]
    ctx.tlc("JobSync", dict(consts, MaxBreaks=1), spec="Spec", invariants=invs, properties=["Ends"], view="View", label="protocol, safety and liveness")
    # the specification itself can tell a wrong protocol from a right one
    ctx.tlc("JobSync", dict(consts, Safe="FALSE"), spec="Spec", invariants=invs, view="View", expect_violation=True, label="fatal alarm (must fail)")
    assert not ctx.last_tlc_ok
    ctx.tlc("JobSync", dict(consts, Patient="FALSE"), spec="Spec", properties=["Ends"], view="View", expect_violation=True, label="impatient wait (must fail)")
    assert not ctx.last_tlc_ok
    ctx.tlc("JobSync", dict(consts, Tidy="FALSE", MaxBreaks=1), spec="Spec", properties=["Ends"], view="View", expect_violation=True, label="lock kept after an error (must fail)")
    assert not ctx.last_tlc_ok
    broken = ctx.tlc("JobSync", dict(consts, MaxSignals=1, MaxBreaks=1), spec="Spec", invariants=invs + ["Emit"], simulate=(1200 if not ctx.thorough else 8000),
                     depth=60, workers=1, label="the batch system cannot be asked")
    one = ctx.tlc("JobSync", dict(consts, NJobs=1), spec="Spec", invariants=invs + ["Emit"], label="all schedules of one job")
    two = ctx.tlc("JobSync", dict(consts, MaxSignals=(2 if not ctx.thorough else 3)), spec="Spec", invariants=invs + ["Emit"], simulate=(2500 if not ctx.thorough else 15000),
                  depth=60, workers=1, label="schedules of two jobs")
    out, seen = [], set()
    for src in (one, two, [e for e in broken if any(h["op"] == "break" for h in e["hist"])]):
        # one of every kind of schedule first
        src = list(src)
        rng.shuffle(src)
        for e in src:
            jobs, sig, j = [], [], 0
            for h in e["hist"]:
                if h["op"] == "job":
                    j += 1
                    jobs.append({"ends": h["ends"], "endat": "never"})
                elif h["op"] == "break":
                    jobs[-1]["breakat"] = h["at"]
                elif h["op"] == "signal":
                    sig.append((j, h["at"] if h["depth"] == 0 else f"h{h['depth']}"))
                else:
                    jobs[-1]["endat"] = h["at"]
            k = json.dumps([jobs, sig])
            if k in seen or any(x["endat"] == "never" and "breakat" not in x for x in jobs):
                continue
            seen.add(k)
            out.append((len(jobs), jobs, sig))
    return out


def calibrate(ctx):
    """how many places there are in every phase of the implementation"""
    job = {"id": 5, "ends": "COMPLETED", "pre": 1, "slow": 0, "bad": "FAILED"}
    span = {"look": 1, "acquire": 1, "test": 1, "woken": 1, "poll": 1, "h1": 1, "h2": 1, "wait": 2}
    runs = [{"jobs": [job], "signals": s} for s in
            ([{"job": 1, "at": "wait", "nth": 1}], [{"job": 1, "at": "acquire", "nth": 1}], [{"job": 1, "at": "test", "nth": 8}],
             [{"job": 1, "at": "test", "nth": 4}, {"job": 1, "at": "h1", "nth": 1}])]
    for s, rec, info in execute(ctx, runs):
        for at, n in info["events"].items():
            span[at] = max(span.get(at, 1), min(n, 80))
    return span


def concretise(jobs, sig, rng, span):
    ids = rng.sample([1, 7, 42, 100, 12345, 999999, 2147483647, 80861], len(jobs))
    js, bad = [], ["FAILED", "CANCELLED", "TIMEOUT", "NODE_FAIL", "OUT_OF_MEMORY"]
    for i, j in zip(ids, jobs):
        pre = {"look": 0, "acquire": 1, "test": 1, "wait": rng.choice([1, 2]), "woken": 1, "poll": rng.choice([2, 3])}.get(j["endat"], 3)
        js.append({"id": i, "ends": j["ends"], "pre": pre, "slow": rng.randint(0, 1), "bad": rng.choice(bad)})
        if "breakat" in j:
            js[-1]["breaks"] = {"look": 0, "wait": rng.choice([1, 1, 2]), "poll": rng.choice([1, 2, 3])}[j["breakat"]]
            js[-1]["pre"] = max(js[-1]["pre"], js[-1]["breaks"] + 1)
    plan = []
    for (j, at) in sig:
        if at not in span:      # the wait is over
            continue
        plan.append({"job": j, "at": at, "nth": rng.randint(1, span[at])})
        if at.startswith("h") and len(plan) == 1:
            plan.insert(0, {"job": j, "at": "acquire", "nth": 1})
    return {"jobs": js, "signals": plan}


def execute(ctx, scheds):
    """8 at a time"""
    running, todo, done, hangs = {}, list(enumerate(scheds)), [], 0
    while todo or running:
        while todo and len(running) < 8 and hangs < 4:
            k, s = todo.pop(0)
            d = ctx.newdir("sched")
            programs(d)
            for job in s["jobs"]:
                script(d, job, k)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                child(d, s, s["jobs"])
            running[pid] = (k, s, d, time.monotonic())
        if hangs >= 4:
            todo = []
        pid, status = os.waitpid(-1, os.WNOHANG)
        hang = False
        if pid == 0:
            late = [p for p, r in running.items() if time.monotonic() - r[3] > HANG]
            if not late:
                time.sleep(0.005)
                continue
            pid, hang = late[0], True
            os.kill(pid, signal.SIGKILL)
            status = os.waitpid(pid, 0)[1]
        if pid not in running:
            continue
        k, s, d, t0 = running.pop(pid)
        hangs += hang
        def text(name, default=""):
            p = os.path.join(d, name)
            if not os.path.isfile(p):
                return default
            with open(p) as fh:
                return fh.read()
        err = text("err")
        r = json.loads(text("res", '{"out": [], "fired": 0, "events": {}}'))
        outs = list(r["out"])
        late = 0
        if hang:
            outs.append("hang")
        elif os.WIFSIGNALED(status):
            if len(outs) == len(s["jobs"]):
                late = 1
            else:
                outs.append("killed")
        elif err:
            # an exception that is not an error of the wait (e.g. raised by a signal handler)
            outs.append("killed") if len(outs) < len(s["jobs"]) else None
        outs += ["unreached"] * (len(s["jobs"]) - len(outs))
        rec = {"late": late, "jobs": [{"out": o, "ends": j["ends"], "seen": [x for x in text(f"job{j['id']}.seen").split() if x]}
                                      for o, j in zip(outs, s["jobs"])]}
        done.append((s, rec, {"status": status, "fired": r["fired"], "events": r["events"], "err": err[:300]}))
        ctx.rmdir(d)
    return done


def run(ctx):
    from pibronic.server import job_boss as jb
    from pibronic.vibronic import electronic_structure as es
    rng = random.Random(ctx.seed * 7919 + 7)
    # ---------------------------------------------------------------- schedules
    all_ = schedules(ctx, rng)
    span = calibrate(ctx)
    is_broken = lambda s: any("breakat" in j for j in s[1])
    one, two, three = [s for s in all_ if s[0] == 1], [s for s in all_ if s[0] == 2 and not is_broken(s)], [s for s in all_ if is_broken(s)]
    n1, n2, n3 = (240, 140, 60) if not ctx.thorough else (4000, 3000, 1000)
    scheds = []
    for pool, n in ((one, n1), (two, n2), (three, n3)):
        if not pool:
            continue
        for i in range(n):
            c = concretise(pool[i % len(pool)][1], pool[i % len(pool)][2], rng, span)
            if rng.random() < 0.25:       # a signal while the batch system is being asked
                c["jobs"][0]["during"] = rng.randint(1, 3)
                c["jobs"][0]["twice"] = rng.randint(0, 1)
            scheds.append(c)
    # every instruction at which a signal can arrive while the job runs, and every one at which a second one can interrupt the handler
    step = 1 if ctx.thorough else 2
    job = {"id": 5, "ends": "COMPLETED", "pre": 2, "slow": 0, "bad": "FAILED"}
    for at in ("look", "acquire", "test", "woken", "poll"):
        for nth in range(1 + rng.randint(0, step - 1), min(span[at], 60) + 2, step):
            scheds.append({"jobs": [dict(job)], "signals": [{"job": 1, "at": at, "nth": nth}]})
    for first in ("acquire", "test", "poll") if ctx.thorough else ("test",):
        for nth in range(1 + rng.randint(0, step - 1), span["h1"] + 2, step):
            scheds.append({"jobs": [dict(job)], "signals": [{"job": 1, "at": first, "nth": 8}, {"job": 1, "at": "h1", "nth": nth}]})
    scheds = [s for s in scheds if ctx.want({"schedule": s})]
    recs, meta = [], []
    for s, rec, info in execute(ctx, scheds):
        recs.append(rec)
        meta.append((s, info))
        ctx.count("schedule with %d signals, job ends %s" % (info["fired"], "/".join(j["ends"] for j in s["jobs"])), s)
    for i, clause in ctx.judge("JobSyncOps", recs, "VerdictSync").items():
        ctx.check(False, clause, {"schedule": meta[i][0]}, observed=recs[i], info=meta[i][1])

    # ---------------------------------------------------------------- result recorded for the job
    d = ctx.newdir("prog")
    programs(d)
    old = os.environ["PATH"], time.sleep, signal.getsignal(signal.SIGUSR1)
    os.environ["PATH"] = d + os.pathsep + old[0]
    time.sleep = lambda s: None
    signal.signal(signal.SIGUSR1, jb.SIGUSR1_handle)
    try:
        words = ["COMPLETED", "FAILED", "RUNNING", "CANCELLED+", "CANCELLED by 1000", "TIMEOUT", "OUT_OF_ME+", "NODE_FAIL", "PENDING", "BOOT_FAIL"]
        lists = [[]] + [[w] for w in words] + [["COMPLETED"] * 2, ["COMPLETED"] * 3] + [list(p) for p in itertools.product(["COMPLETED", "FAILED"], repeat=2)] \
            + [["TIMEOUT", "CANCELLED+"], ["FAILED", "COMPLETED", "COMPLETED"], ["COMPLETED", "COMPLETED", "FAILED"], ["RUNNING", "RUNNING"]]
        recs, meta = [], []
        for k, states in enumerate(lists):
            job = {"id": 300 + k, "ends": "COMPLETED", "pre": k % 2, "slow": 0, "bad": "FAILED"}
            case = {"kind": "recorded state", "states": states}
            if not ctx.want(case):
                continue
            script(d, job, 0)
            if job["pre"]:
                with open(os.path.join(d, f"job{job['id']}.states")) as fh:
                    text = fh.read()
                with open(os.path.join(d, f"job{job['id']}.states"), "w") as fh:
                    fh.write(text.replace("RUNNING", "RUNNING+signal"))
            with open(os.path.join(d, "sacct.out"), "w") as fh:
                fh.write("".join(f"{w:>10} \n" for w in states))
            out = ctx.call(es.wait_on_results, job["id"], "test", timeout=30)
            recs.append({"states": [w.split()[0].rstrip("+") for w in states], "raised": 1 if isinstance(out, Raised) else 0})
            meta.append((case, repr(out)))
            ctx.count("recorded state of the job", case)
        for i, clause in ctx.judge("JobSyncOps", recs, "VerdictResult").items():
            ctx.check(False, clause, meta[i][0], observed=recs[i], outcome=meta[i][1])

        # ------------------------------------------------------------ output of the job
        WORDS = {"Finished": ["Finished", "job 12 Finished at 10:20", "   Finished   "],
                 "SIGSEGV": ["SIGSEGV", "forrtl: severe (174): SIGSEGV, segmentation fault occurred"],
                 "Killed": ["Killed", "/var/spool/slurmd/job12/slurm_script: line 33: 12345 Killed    xaces2 > out"],
                 "Exceeded step memory limit": ["Exceeded step memory limit", "slurmstepd: error: Exceeded step memory limit at some point."]}
        recs, meta = [], []
        variants = 3 if not ctx.thorough else 20
        for r in range(5):
            for sub in itertools.combinations(sorted(WORDS), r):
                for v in range(variants):
                    case = {"kind": "output", "words": list(sub), "v": v}
                    order = [rng.choice(WORDS[w]) for w in sub]
                    rng.shuffle(order)
                    lines = ["preamble", "loading modules"] * rng.randint(0, 3)
                    for o in order:
                        lines += ["some text"] * rng.randint(0, 4) + [o]
                    lines += ["tail"] * rng.randint(0, 2)
                    end = "\n" if v % 2 == 0 else ""
                    if not ctx.want(case):
                        continue
                    n = rng.choice([3, 12, 4711])
                    path = os.path.join(d, f"slurm-{n}.out")
                    with open(path, "w") as fh:
                        fh.write("\n".join(lines) + end)
                    out = ctx.call(jb.check_slurm_output, d, n, timeout=20)
                    recs.append({"words": list(sub), "out": out.kind if isinstance(out, Raised) else "returned"})
                    meta.append((case, "\n".join(lines), repr(out)))
                    ctx.count("output of a finished job", case)
        for i, clause in ctx.judge("JobSyncOps", recs, "VerdictOutput").items():
            ctx.check(False, clause, meta[i][0], observed=recs[i], text=meta[i][1], outcome=meta[i][2])

        # ------------------------------------------------------------ number of the job
        recs, meta = [], []
        for n in [0, 1, 9, 10, 99, 100, 12345, 999999, 10 ** 7, 2 ** 31 - 1] + [rng.randint(1, 2 ** 31 - 1) for _ in range(20)]:
            case = {"kind": "number", "id": n}
            if not ctx.want(case):
                continue
            with open(os.path.join(d, "sbatch.out"), "w") as fh:
                fh.write(f"Submitted batch job {n}\n")
            out = ctx.call(jb.submit_job, "sbatch --mem={memory:d}G --job-name={name:s} --export=A='{x:s}'", {"memory": 3, "name": f"n{n}", "x": "p q"}, timeout=20)
            got = out[0] if isinstance(out, tuple) and out and isinstance(out[0], int) else -1
            with open(os.path.join(d, "sbatch.args")) as fh:
                args = fh.read().strip()
            ctx.check(args == f"--mem=3G --job-name=n{n} --export=A=p q", "the parameters are passed to the batch system", case, args=args, outcome=repr(out))
            recs.append({"id": n, "got": got})
            meta.append((case, repr(out)))
            ctx.count("number of a submitted job", case)
        for i, clause in ctx.judge("JobSyncOps", recs, "VerdictId").items():
            ctx.check(False, clause, meta[i][0], observed=recs[i], outcome=meta[i][1])
    finally:
        os.environ["PATH"], time.sleep = old[0], old[1]
        signal.signal(signal.SIGUSR1, old[2])
    ctx.assumptions += ["time is scaled by a factor of 500 in the replayed processes (sleep, alarm, timed waits)",
                        "one waiting thread (the main thread), CPython signal delivery"]
    return {"schedules": len(scheds), "places": span}
