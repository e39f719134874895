ES = '''
import tempfile, os, signal, types
from pibronic.vibronic import electronic_structure as es
from pibronic.server import job_boss
'''
mkbug("p06-parameters-per-temperature", "P06", {"pibronic/server/job_boss.py": [(
'''        for T in temperature_list:
            for P in bead_list:

                params = copy.deepcopy(self.param_dict)
                params["number_of_beads"] = P
''', '''        for T in temperature_list:
            params = self.param_dict.copy()
            for P in bead_list:

                params["number_of_beads"] = P
''')]}, '''
import tempfile, os, types
from pibronic.server import job_boss
from pibronic.data import file_structure
from pibronic.vibronic import vIO, VMK
job_boss.get_hostname = lambda: "graham"
cmds = []
job_boss.submit_job = lambda c, p: (cmds.append(c.format(**p)), (1, "", ""))[1]
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    job = job_boss.PimcSubmissionClass(FS, {"number_of_samples": 10, "block_size": 5, "bead_list": [4, 5, 6], "temperature_list": [300.0]})
    job.submit_jobs()
assert len(cmds) == 3
for c in cmds:
    params = c.split("EXECUTION_PARAMETERS=")[1]
    assert "," not in params.split("}'")[0], "a comma would end the exported variable: " + params[:300]
''', "a request with more than one number of beads", "the exported parameters of the later jobs contain those of the earlier ones, with commas that end the exported variable")

mkbug("p07-handler-waits-for-lock", "P07", {"pibronic/server/job_boss.py": [(
'''    if job_state_lock.acquire(blocking=False):
''', '''    if job_state_lock.acquire(timeout=600):
''')]}, ES + '''
import time
class Late(Exception): pass
def late(s, f): raise Late()
job_boss.job_state_lock.acquire()
signal.signal(signal.SIGALRM, late)
signal.alarm(5)
try:
    job_boss.SIGUSR1_handle(signal.SIGUSR1, None)
except Late:
    raise SystemExit("the handler waits for a lock that its own thread holds")
''', "the signal of the job arrives while the waiting thread holds the lock", "the handler waits for the lock which the interrupted thread holds, so the wait hangs")

mkbug("p07-completing", "P07", {"pibronic/server/job_boss.py": [(
'''        # if this string is in the job's state file then it successfully executed
        if "COMPLETED" in out:
''', '''        # if this string is in the job's state file then it successfully executed
        if "COMPLET" in out:
''')]}, ES + '''
states = iter(["JobState=RUNNING", "JobState=COMPLETING", "JobState=COMPLETING", "JobState=FAILED"] + ["JobState=FAILED"] * 3)
seen = []
def running(i):
    try:
        seen.append(next(states))
    except StopIteration:
        return "", "slurm_load_jobs error: Invalid job id specified"
    return seen[-1], ""
job_boss.check_running_state = running
job_boss.signal = types.SimpleNamespace(sigtimedwait=lambda *a: True, SIGUSR1=signal.SIGUSR1, SIGALRM=signal.SIGALRM)
job_boss.time = types.SimpleNamespace(sleep=lambda s: None)
try:
    job_boss.synchronize_with_job(5)
except Exception:
    pass
else:
    raise SystemExit(f"returned after {seen}")
''', "the job is in its completing phase when the state is read", "the wait ends before the batch system has reported the job as completed, also when the job then fails")

mkbug("p07-long-job-number", "P07", {"pibronic/server/job_boss.py": [(
'''        id_job = int(out[20:])
''', '''        id_job = int(out[20:27])
''')]}, ES + '''
for i in (1, 999999, 12345678, 4294901760):
    assert job_boss.extract_id_job_from_output(f"Submitted batch job {i}\\n") == i, i
''', "job numbers of eight or more digits", "another job is waited for")

mkbug("p08-geometry-only-once", "P08", {"pibronic/vibronic/electronic_structure.py": [(
'''            self.geom()
            parse_opt_output(self)
''', '''            if self.state == State.OPT:
                self.geom()
                parse_opt_output(self)
''')]}, ES + '''
with tempfile.TemporaryDirectory() as d:
    d += "/"
    open(d + "m_params.txt", "w").write("calculation\\nIP\\ntheory\\nCCSD\\nbasis\\nDZP\\n")
    open(d + "m_zmat.txt", "w").write("title\\nO\\nH 1 R*\\n\\nR=1.0\\n")
    open(d + "m_opt.out0", "w").write("Summary of optimized internal coordinates\\n----\\nR = 2.5\\n\\n")
    open(d + "execution_state.txt", "w").write("OPT\\nNIP\\n")
    job = es.VibronExecutionClass("m", d)
    es.parse_hartree_fock_output = lambda v, s: None
    seen = []
    class Stop(Exception): pass
    def vib(root, name, zmat, params):
        seen.append(zmat.get())
        raise Stop()
    es.vibrational_frequency = vib
    try:
        job.calculate_vibronic_model()
    except Stop:
        pass
    assert "R=2.5" in seen[0], seen
''', "resuming after the geometry optimisation has been completed by an earlier run", "the remaining steps use the initial instead of the optimised geometry")

mkbug("p08-success-anywhere", "P08", {"pibronic/vibronic/electronic_structure.py": [(
'''            ten_lines_back = skip_back_n_lines(memmap_file, 10, len(memmap_file) - 1)
            # then we search from there to the end of the file for our target string
            if memmap_file.find(final_string, ten_lines_back) == -1:
                # if we don't find it then the calculation was a failure
                s = ("Output for ACES2''', '''            ten_lines_back = skip_back_n_lines(memmap_file, 10 * len(memmap_file), len(memmap_file) - 1)
            # then we search from there to the end of the file for our target string
            if memmap_file.find(final_string, ten_lines_back) == -1:
                # if we don't find it then the calculation was a failure
                s = ("Output for ACES2''')]}, ES + '''
job_boss.check_slurm_output = lambda *a: None
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.out0")
    open(p, "w").write("x\\nThe ACES2 program has completed successfully in 5 seconds\\n" + "iteration\\n" * 40 + "did not converge\\n")
    try:
        es.verify_aces2_completed(d, p, 5)
    except Exception:
        pass
    else:
        raise SystemExit("accepted")
''', "an output in which an earlier part of the calculation reports success but the last part fails", "a failed calculation counts as completed")

mkbug("p08-majority-of-states", "P08", {"pibronic/vibronic/electronic_structure.py": [(
'''                if not boolean_array.any():
''', '''                if not boolean_array.all():
''')]}, ES + '''
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "m_eomcc_ip_2.out0"), "w").write("Summary of ionization-potential eom-cc calculation\\n" + "h\\n" * 4 + "1 2 3 4 95.0 6\\n1 2 3 4 55.0 6\\n\\n------\\n")
    v = es.VibronExecutionClass("m", d)
    v.parameter_dictionary["nip"] = 2
    assert es.parse_ip_output(v) is False
''', "some but not all states fail the check of the singles", "states that fail the check are used for the following steps")

mkbug("p10-tiny-values", "P10", {"pibronic/vibronic/vibronic_model_io.py": [(
'''            if np.count_nonzero(value) > 0:
''', '''            if not np.allclose(value, 0.0):
''')]}, '''
import tempfile, os, numpy as np
from pibronic.vibronic import vIO, VMK
with tempfile.TemporaryDirectory() as d:
    m = vIO.model_zeros_template_json_dict(2, 1)
    m[VMK.w][:] = 0.1
    m[VMK.G1][:] = 3e-9
    p = os.path.join(d, "m.json")
    vIO.save_model_to_JSON(p, m)
    o = vIO.load_model_from_JSON(p)
    assert np.array_equal(o[VMK.G1], m[VMK.G1])
''', "an array in which all values are below 1e-8", "the array is dropped when the model is saved")

mkbug("p11-more-oscillators", "P11", {"pibronic/vibronic/vibronic_model_io.py": [(
'''    for idx in range(Ai):
        q = minimums[idx, :]  # we evaluate the (R/q) point
''', '''    for idx in range(min(A, Ai)):
        q = minimums[idx, :]  # we evaluate the (R/q) point
''')]}, '''
import tempfile, os, numpy as np
from pibronic.vibronic import vIO, VMK
from pibronic.data import file_structure
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    m = vIO.model_zeros_template_json_dict(2, 1)
    m[VMK.w][:] = 0.1
    m[VMK.E][:] = np.diag([1., 2.])
    vIO.save_model_to_JSON(FS.path_vib_model, m)
    r = vIO.diagonal_model_zeros_template_json_dict(3, 1)
    r[VMK.w][:] = 0.1
    r[VMK.G1][:] = [[0.0, 0.1, 0.2]]
    vIO.save_diagonal_model_to_JSON(FS.path_iter_model, r)
    e = vIO.simple_single_point_energy_calculation(FS, FS.path_iter_model)
    assert np.allclose(e, [1.0, 1.05, 1.2]), e
''', "a diagonal model with more oscillators than the coupled model has surfaces", "the additional oscillators get energy zero")

mkbug("p12-loose-tolerance", "P12", {"pibronic/vibronic/vibronic_model_io.py": [(
'''        assert np.allclose(U.dot(U.T), np.eye(A)), "matrix is not orthonormal"
''', '''        assert np.allclose(np.linalg.norm(U, axis=0), 1.0), "matrix is not orthonormal"
''')]}, '''
import tempfile, os, numpy as np
from pibronic.vibronic import vIO, VMK
from pibronic.data import file_structure
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    m = vIO.model_zeros_template_json_dict(2, 1)
    m[VMK.w][:] = 0.1
    m[VMK.E][:] = np.diag([1., 2.])
    vIO.save_model_to_JSON(FS.path_vib_model, m)
    try:
        vIO.create_fake_coupled_model(FS, transformation_matrix=np.array([[0.6, 1.0], [0.8, 0.0]]))
    except AssertionError:
        pass
    else:
        raise SystemExit("accepted")
''', "a matrix whose columns have length one but are not orthogonal", "the model is transformed with a matrix that is not orthonormal")

mkbug("p13-biquartic-order", "P13", {"pibronic/vibronic/model_op.py": [(
'''        index_tuple = (r['j1']-1, r['j1']-1, r['j2']-1, r['j2']-1, r['a1']-1, r['a2']-1)
''', '''        index_tuple = (r['j2']-1, r['j2']-1, r['j1']-1, r['j1']-1, r['a1']-1, r['a2']-1)
''')]}, '''
import tempfile, os, numpy as np
from pibronic.vibronic import model_op
from pibronic.vibronic import VMK
def e(n, v):
    return f"{n:<25s}=  {v:13.6f}    , ev "
out = ["#        Frequencies ", "# --- ", ""] + [e(f"w0{i}", 0.1 * i) for i in (1, 2)]
out += ["", "#        Zeropoint energy     1.0", "", "#   Electronic Hamitonian ", "#   Vertical energies ", "# --- ", "", e("EH_s01_s01", 1.0), "",
        "#     Electronic transition moments ", "", "#  Linear Coupling Constants ", "# --- ", "", e("C1_s01_s01_v01", 0.3), "",
        "#  Diagonal Quadratic Coupling Constants ", "# --- ", "", e("C2_s01s01_v01v01", 0.4), "",
        "# Off_diagonal Quadratic Coupling Constants ", "# --- ", "", e("C2_s01s01_v02v01", 0.45), "",
        "#  Cubic Coupling Constants ", "# --- ", "", e("C3_s01_s01_v01", 0.5), "", "#  Quartic Coupling Constants ", "# --- ", "", e("C4_s01_s01_v01", 0.6), "",
        "#  Bi-Cubic Constants ", "# --- ", "", e("B3_s01s01_v01v02", 0.7), "", "#  Bi-Quartic Constants ", "# --- ", "",
        e("B4_s01s01_v01v02", 0.8), e("A4_s01s01_v02v01", 0.9), "", "end-parameter-section", ""]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.op")
    open(p, "w").write("\\n".join(out))
    m = model_op.read_model_op_file(p)
q = m[VMK.G4][..., 0, 0]
assert np.isclose(q[1, 1, 0, 0], 0.9), (q[1, 1, 0, 0], q[0, 0, 1, 1])
''', "a file with quartic terms of two different modes", "the quartic coefficient is stored at the position of the exchanged modes")

mkbug("p14-training-same-file", "P14", {"pibronic/data/file_name.py": [(
'''_training_data_rho_output = "P{:s}_T{:s}_J{:s}_training_data_rho_output.npz"
''', '''_training_data_rho_output = "P{:s}_T{:s}_J{:s}_training_data_g_output.npz"
''')]}, '''
from pibronic.data import file_name as f
k = dict(P=4, T=300., J=1)
n = [x().format(**k) for x in (f.pimc, f.training_data_input, f.training_data_g_output, f.training_data_rho_output)]
assert len(set(n)) == 4, n
''', "training data of the integrand and of the density in the same directory", "writing one overwrites the other")

mkbug("p05-thermo-or", "P05", {"pibronic/data/postprocessing.py": [(
'''            if data['hash_vib'] == FS.hash_vib and data['hash_rho'] == FS.hash_rho:
''', '''            if data['hash_vib'] == FS.hash_vib or data['hash_rho'] == FS.hash_rho:
''')]}, '''
import tempfile, os, json
from pibronic.data import postprocessing as pp
class FS: hash_vib, hash_rho = "v", "r"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "P4_T300.00_X5_thermo")
    json.dump({"hash_vib": "v", "hash_rho": "old"}, open(p, "w"))
    assert pp.prune_results_using_hashes(FS, [p]) == []
''', "analysed values of the current coupled model that were calculated with another sampling model", "they are used as if they belonged to the current sampling model")
