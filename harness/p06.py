"""P06 - submitted jobs draw what was requested.  Specification: spec/Submission.tla, SubmissionOps.tla

The batch system is replaced by scripts on PATH that record what they are given."""
import contextlib
import io
import json
import os
import re
import shutil
import stat
import subprocess

import numpy as np

from .core import Raised, REPO

A, N = 2, 1
SBATCH = """#!/bin/sh
d=$(dirname "$0")
n=$(cat "$d/count"); n=$((n + 1)); echo $n > "$d/count"
for a in "$@"; do printf '%s\\0' "$a"; done > "$d/$n.argv"
pwd > "$d/$n.cwd"
[ -e "$d/fail" ] && { echo "sbatch: error: no" >&2; exit 1; }
echo "Submitted batch job $((1000 + n))"
"""


def script(d, name, text):
    path = os.path.join(d, name)
    with open(path, "w") as fh:
        fh.write(text)
    os.chmod(path, stat.S_IRWXU)


class Cluster:
    """fake commands of the batch system"""

    def __init__(self, ctx, host):
        self.dir = ctx.newdir("slurm")
        script(self.dir, "sbatch", SBATCH)
        self.host(host)
        script(self.dir, "sinfo", "#!/bin/sh\nprintf 'PARTITION\\nserial\\nhighmem\\n'\n")
        for name in ("ssh", "sacct", "sleep"):
            script(self.dir, name, "#!/bin/sh\nexit 0\n")
        with open(os.path.join(self.dir, "count"), "w") as fh:
            fh.write("0")

    def host(self, host):
        script(self.dir, "scontrol", f"#!/bin/sh\nprintf 'AccountingStorage = x\\nClusterName             = {host}\\nOther = y\\n'\n")

    def count(self):
        with open(os.path.join(self.dir, "count")) as fh:
            return int(fh.read())

    def job(self, i):
        with open(os.path.join(self.dir, f"{i}.argv")) as fh:
            return fh.read().split("\0")[:-1]


def parse(argv):
    """what slurm makes of the command line: options, exported variables, script"""
    opts, rest, i = {}, [], 0
    while i < len(argv):
        a = argv[i]
        if a.startswith("--"):
            k, _, v = a[2:].partition("=")
            opts[k] = v
        elif a in ("-D", "-m", "-p", "-J", "-o"):
            opts[a] = argv[i + 1]
            i += 1
        else:
            rest.append(a)
        i += 1
    env = {}
    for item in opts.get("export", "").split(","):
        k, _, v = item.partition("=")
        env[k] = v
    return opts, env, rest


class World:
    def __init__(self, ctx):
        from pibronic.data import file_structure, postprocessing
        from pibronic.pimc import pimc
        from pibronic.server import job_boss
        from pibronic.vibronic import vIO, VMK
        self.ctx, self.jb, self.pimc, self.pp, self.FSC, self.vIO, self.VMK = ctx, job_boss, pimc, postprocessing, file_structure.FileStructure, vIO, VMK
        self.root = os.path.join(ctx.newdir("sub"), "work", "x")
        os.makedirs(self.root)
        self.models = set()

    def FS(self, D, R):
        FS = self.FSC(self.root, D, R)
        if (D, R) not in self.models:
            self.models.add((D, R))
            m = self.vIO.model_zeros_template_json_dict(A, N)
            m[self.VMK.w][:] = 0.1
            m[self.VMK.E][:] = np.diag([0.1, 0.2 + 0.01 * D])
            self.vIO.save_model_to_JSON(FS.path_vib_model, m)
            m = self.vIO.diagonal_model_zeros_template_json_dict(A, N)
            m[self.VMK.w][:] = 0.1
            m[self.VMK.E][:] = [0.1, 0.2 + 0.01 * R]
            self.vIO.save_diagonal_model_to_JSON(FS.path_rho_model, m)
        return FS

    def create(self, p, MAX, cls):
        params = {"number_of_samples": p["n"], "number_of_states": p["A"], "number_of_modes": p["N"], "bead_list": list(p["Ps"]),
                  "temperature_list": [t / 100 for t in p["Ts"]], "delta_beta": p["dB"] * 1e-5, "id_data": p["D"], "id_rho": p["R"], "block_size": p["block"],
                  "cpus_per_task": p["cpu"], "memory_per_node": p["mem"]}
        if p["part"]:
            params["partition"] = p["part"]
        if p["overall"]:
            params["number_of_samples_overall"] = p["overall"]
        given = json.dumps(params)
        obj = cls(self.FS(p["D"], p["R"]), params)
        self.ctx.check(json.dumps(params) == given, "the given parameters are not modified", {"p": p})
        return obj

    def decode(self, argv, p, c):
        """one submitted job: what the job will calculate; None when the command is unusable"""
        ck = self.ctx.check
        opts, env, rest = parse(argv)
        ok = ck(len(rest) == 1 and os.path.isfile(rest[0]), "the submitted job script exists", c, got=rest)
        ok &= ck("EXECUTION_PARAMETERS" in env and "SAMPLING_SCRIPT" in env, "the job gets its parameters", c, got=sorted(env))
        if not ok:
            return None
        ok = ck(os.path.isfile(env["SAMPLING_SCRIPT"]), "the sampling script exists", c, got=env["SAMPLING_SCRIPT"])
        py = env.get("PYTHON3_PATH")
        ok &= ck(py is None or (os.path.isfile(py) and os.access(py, os.X_OK)), "the interpreter exists", c, got=py)
        where = opts.get("-D", opts.get("chdir"))
        ok &= ck(where is not None and os.path.isdir(where), "the working directory of the job exists", c, got=where)
        cls = self.pimc.BoxDataPM
        data = self.ctx.call(cls.from_json_string, env["EXECUTION_PARAMETERS"])
        if isinstance(data, Raised):
            ck(False, "the parameters of the job can be decoded", c, outcome=repr(data))
            return None
        if not ok:
            return None
        want = self.FSC(self.root, data.id_data, data.id_rho)
        ck(data.path_vib_model == want.path_vib_model and data.path_rho_model == want.path_rho_model, "the job reads the models of the request", c, got=[data.path_vib_model, data.path_rho_model])
        exact = [t / 100 for t in p["Ts"]]
        ck(float(data.temperature) in exact, "the job gets a requested temperature exactly", c, got=data.temperature)
        name = opts.get("job-name", "")
        ck(f"D{data.id_data}_" in name + "_" and f"P{data.beads}_" in name + "_", "the job is named after its parameters", c, got=name)
        return dict(X=int(data.samples), blocks=int(data.blocks), block=int(data.block_size), T=int(round(data.temperature * 100)), P=int(data.beads),
                    A=int(data.states), N=int(data.modes), D=int(data.id_data), R=int(data.id_rho), dB=int(round(data.delta_beta * 1e5)) if abs(data.delta_beta * 1e5 - round(data.delta_beta * 1e5)) < 1e-9 else -1,
                    cpu=int(opts.get("cpus-per-task", 0)), mem=int(opts.get("mem", "0").rstrip("GB")), part=opts.get("partition", opts.get("-p", "")))

    def run_job(self, cluster, argv, number, host):
        """execute the submitted script the way the batch system would"""
        opts, env, rest = parse(argv)
        clean = {"PATH": cluster.dir + ":/opt/venv/bin:/usr/bin:/bin", "HOME": self.root, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "SLURM_JOB_ID": str(number),
                 "SLURM_JOBID": str(number), "SLURM_SUBMIT_DIR": self.root, "SLURM_CLUSTER_NAME": host, "SLURM_JOB_NAME": opts.get("job-name", ""), "SLURMD_NODENAME": "n1",
                 "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore"}
        # quotes of the shell around single values, as sbatch leaves them in the environment
        clean.update({k: v.strip('"') for k, v in env.items() if k})
        return subprocess.run(["/bin/bash", rest[0]], cwd=opts.get("-D", self.root), env=clean, capture_output=True, text=True, timeout=120)


def replay(ctx, plan, MAX, recs, execute=False):
    w = World(ctx)
    case = {"hist": plan["hist"], "max": MAX}
    cls = type("Engine", (w.jb.PimcSubmissionClass,), {"MAX_SAMPLES_PER_JOB": MAX})
    cls.__module__ = w.jb.__name__
    cluster = Cluster(ctx, "nlogn")
    base = os.environ["PATH"]
    os.environ["PATH"] = cluster.dir + os.pathsep + base
    objs, requests = {}, {}
    try:
        for h in plan["hist"]:
            if h["op"] == "create":
                p = h["p"]
                cluster.host(p["host"])
                out = ctx.call(w.create, p, MAX, cls)
                if isinstance(out, Raised):
                    ctx.check(False, "creating a submission failed", case, step=h, outcome=repr(out))
                    return
                objs[h["obj"]], requests[h["obj"]] = out, p
                continue
            p = requests[h["obj"]]
            cluster.host(p["host"])
            before = cluster.count()
            out = ctx.call(objs[h["obj"]].submit_jobs)
            jobs = []
            numbers = range(before + 1, cluster.count() + 1)
            for i in numbers:
                j = w.decode(cluster.job(i), p, case)
                if j is None:
                    return
                jobs.append(j)
            recs.append((case, {"p": p, "max": MAX, "jobs": jobs, "raised": 1 if isinstance(out, Raised) else 0}, repr(out)))
            ctx.count("submission", case, validated=True)
            if execute and jobs and not isinstance(out, Raised):
                for i in numbers:
                    r = ctx.call(w.run_job, cluster, cluster.job(i), 1000 + i, p["host"], timeout=200)
                    if isinstance(r, Raised):
                        ctx.check(False, "running a submitted job failed", case, step=h, outcome=repr(r))
                        return
                FS = w.FS(p["D"], p["R"])
                # clusters without copying back leave the results in the scratch directory
                places = [FS.path_rho_results, os.path.join(FS.path_rho.replace("work", "scratch"), "results")]
                for T in p["Ts"]:
                    for P in p["Ps"]:
                        got = 0
                        for d in places:
                            for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
                                if f.startswith(f"P{P}_T{T / 100:.2f}_J") and f.endswith(".npz"):
                                    with np.load(os.path.join(d, f)) as z:
                                        ok = int(z["number_of_samples"]) == len(z["s_g"]) and bool(np.all(np.isfinite(z["s_g"])) and np.all(np.isfinite(z["s_rho"])) and np.all(np.isfinite(z["s_gP"])))
                                        ctx.check(ok, "results of a submitted job are complete", case, file=f)
                                        got += int(z["number_of_samples"])
                        want = sum(j["X"] for j in jobs if j["T"] == T and j["P"] == P)
                        ctx.check(got == want, "the submitted jobs leave their results", case, step=h, T=T, P=P, got=got, want=want, stderr=r.stderr[-400:])
                        if p["host"] in ("nlogn", "feynman"):
                            res = w.pimc.BoxResultPM()
                            FS.generate_model_hashes()
                            out = ctx.call(w.pp.load_pimc_data, FS, P, T / 100, res)
                            ctx.check(not isinstance(out, Raised) and int(res.samples) == want, "the results of the submitted jobs can be pooled", case, step=h, outcome=repr(out))
                ctx.count("executed submission", case)
    finally:
        os.environ["PATH"] = base
        ctx.rmdir(cluster.dir)
        ctx.rmdir(os.path.dirname(os.path.dirname(w.root)))


def request(n, block, overall=0, Ts=(30000,), Ps=(3,), host="nlogn", D=1, R=0, dB=20, cpu=4, mem=20, part="", a=A, nm=N):
    seq = lambda s: "<<" + ", ".join(map(str, s)) + ">>"
    return (f'[n |-> {n}, block |-> {block}, overall |-> {overall}, Ts |-> {seq(Ts)}, Ps |-> {seq(Ps)}, host |-> "{host}", A |-> {a}, N |-> {nm}, D |-> {D}, R |-> {R}, '
            f'dB |-> {dB}, cpu |-> {cpu}, mem |-> {mem}, part |-> "{part}"]')


def run(ctx):
    th = ctx.thorough
    recs = []
    inv = ["DivisionIsRight", "Enough", "Emit"]

    def plans(reqs, MAX, objects, submits, runs="FALSE", **kw):
        return [(p, MAX) for p in ctx.tlc("Submission", dict(Requests="{" + ", ".join(reqs) + "}", MaxJob=MAX, MaxObjects=objects, MaxSubmits=submits, RunJobs=runs), spec="Spec", invariants=inv, **kw)]
    # the specification itself, jobs in all orders
    ctx.tlc("Submission", dict(Requests="{" + ", ".join([request(5, 2), request(3, 1, Ts=(30000, 500))]) + "}", MaxJob=4, MaxObjects=1, MaxSubmits=2, RunJobs="TRUE"), spec="Spec", invariants=inv[:2], label="all orders of the jobs")
    # all sample numbers and block sizes
    MAX = 6
    todo = plans([request(n, b) for n in range(1, 15 if not th else 26) for b in range(1, 8)], MAX, 1, 1, label="all sample numbers and block sizes")
    todo += plans([request(n, b, o) for n in (4, 6, 9) for b in (1, 2, 3, 4) for o in (5, 6, 12, 25)], MAX, 1, 1, label="total and per job number given")
    # hosts, lists
    todo += plans([request(7, 2, 0, (500, 30000), (3, 30), h, D=2, R=1) for h in ("nlogn", "feynman", "orca", "graham", "unknown")], MAX, 1, 1, label="hosts and lists")
    todo += plans([request(5, 2, 0, (30025, 123456, 50), (128, 7), h, D=12, R=103, dB=d, cpu=c, mem=m, part=q, a=a, nm=k)
                   for h, d, c, m, q, a, k in (("nlogn", 5, 1, 3, "highmem", 3, 2), ("feynman", 40, 16, 100, "serial", 11, 27), ("graham", 1, 2, 8, "serial", 2, 130), ("orca", 20, 8, 20, "", 6, 9),
                                               ("nlogn", 20, 4, 20, "nosuch", 2, 1), ("feynman", 20, 4, 20, "", 2, 1))], MAX, 1, 1, label="resources and parameters")
    # the sizes of real requests
    todo += plans([request(n, b, o) for n, b, o in ((100000, 1000, 0), (100001, 1000, 0), (250000, 1000, 0), (99999, 100, 0), (70000, 70000, 1000000), (100000, 333, 100000), (5000, 1000, 1000000))],
                  100000, 1, 1, label="sizes of real requests")
    # several objects in one process, repeated submissions
    many = plans([request(13, 2), request(5, 5, Ts=(29999, 30000), dB=10, part="highmem"), request(6, 3, 18, host="graham", R=1, cpu=2), request(8, 7)], MAX, 2, 3, label="several objects")
    todo += ctx.thin(many, 60 if not th else 5000)
    for plan, M in todo:
        if ctx.give_up:
            break
        if ctx.want({"hist": plan["hist"], "max": M}):
            with contextlib.redirect_stdout(io.StringIO()):
                replay(ctx, plan, M, recs)
    # a few submissions are executed
    if "work" not in ctx.scratch:
        runs = plans([request(5, 2, Ts=(30000, 3000), Ps=(3, 4)), request(9, 3, host="orca"), request(4, 4, host="feynman", D=2, R=1)], MAX, 1, 1, label="executed submissions")
        if th:
            runs += plans([request(n, b, host=h, D=3) for n in (5, 7, 12) for b in (1, 2, 5) for h in ("nlogn", "graham")], MAX, 1, 1, label="executed submissions (more)")
        for plan, M in runs:
            if ctx.want({"hist": plan["hist"], "max": M}) and not ctx.give_up:
                with contextlib.redirect_stdout(io.StringIO()):
                    replay(ctx, plan, M, recs, execute=True)
    refused_submission(ctx)
    bad = ctx.judge("SubmissionOps", [r for _, r, _ in recs], "VerdictSubmission", label="recorded submissions") if recs else {}
    for i, clause in bad.items():
        ctx.check(False, clause, recs[i][0], recorded=recs[i][1], outcome=recs[i][2])
    return {"exhaustive": True}


def refused_submission(ctx):
    """the batch system refuses: that has to be reported"""
    case = {"refused": True}
    if not ctx.want(case):
        return
    w = World(ctx)
    cluster = Cluster(ctx, "nlogn")
    base = os.environ["PATH"]
    os.environ["PATH"] = cluster.dir + os.pathsep + base
    open(os.path.join(cluster.dir, "fail"), "w").close()
    try:
        p = dict(n=4, block=2, overall=0, Ts=[30000], Ps=[3], host="nlogn", A=A, N=N, D=1, R=0, dB=20, cpu=4, mem=20, part="")
        out = ctx.call(lambda: w.create(p, 6, w.jb.PimcSubmissionClass).submit_jobs())
        ctx.check(isinstance(out, Raised), "a refused submission is reported", case)
        ctx.count("refused", case)
    finally:
        os.environ["PATH"] = base
