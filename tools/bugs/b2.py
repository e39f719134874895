PIMC = '''
import tempfile, os, json, numpy as np
from pibronic.pimc import pimc
from pibronic.vibronic import vIO, VMK
from pibronic.data import file_structure
def build(d, A, Ar, N=2, B=2, X=4, T=300., P=4, e=None, cls=pimc.BoxData, res=pimc.BoxResult, seed=5):
    g = np.random.RandomState(seed)
    FS = file_structure.FileStructure(d, 0, 0)
    m = vIO.model_zeros_template_json_dict(A, N)
    m[VMK.w][:] = [0.1, 0.15][:N]
    E = g.rand(A, A) * 0.05
    m[VMK.E][:] = E + E.T + np.diag(np.arange(A) * 0.03)
    L = g.rand(N, A, A) * 0.03
    m[VMK.G1][:] = L + L.transpose(0, 2, 1)
    vIO.save_model_to_JSON(FS.path_vib_model, m)
    r = vIO.diagonal_model_zeros_template_json_dict(Ar, N)
    r[VMK.w][:] = m[VMK.w]
    r[VMK.E][:] = (np.arange(Ar) * 0.02 if e is None else e)
    r[VMK.G1][:] = g.rand(N, Ar) * 0.2
    vIO.save_diagonal_model_to_JSON(FS.path_rho_model, r)
    data = cls()
    data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
    data.states, data.modes, data.samples, data.block_size = A, N, X, B
    data.blocks, data.temperature, data.beads = X // B, T, P
    data.hash_vib = data.hash_rho = "x"
    np.random.seed(seed)
    data.preprocess()
    result = res(data=data)
    result.path_root, result.id_job = d + "/", 1
    return data, result
'''

mkbug("p01-more-sampling-surfaces", "P01", {"pibronic/pimc/pimc.py": [(
'''        for a in range(self.rho.states):
            self.qTempTensor[:, a, ...] = self.qTensor[:, 0, ...].copy()
''', '''        for a in range(min(self.states, self.rho.states)):
            self.qTempTensor[:, a, ...] = self.qTensor[:, 0, ...].copy()
''')]}, PIMC + '''
with tempfile.TemporaryDirectory() as d:
    data, result = build(d, 2, 3, B=4)
    data.draw_sample(slice(0, 4))
    data.transform_sampled_coordinates(slice(0, 4))
    assert np.array_equal(data.qTempTensor[:, 2], data.qTempTensor[:, 0]), "paths seen by the third surface"
''', "a sampling model with more surfaces than the coupled model", "the density of the additional surfaces is evaluated at the origin instead of at the path")

mkbug("p01-scaling-of-sampling-only", "P01", {"pibronic/pimc/pimc.py": [(
'''    S12[:] = np.maximum(model_one.omatrix_scaling, model_two.omatrix_scaling)
''', '''    S12[:] = model_one.omatrix_scaling
    S12[S12 == 0.0] = model_two.omatrix_scaling[S12 == 0.0]
''')]}, PIMC + '''
import warnings
warnings.simplefilter("error", RuntimeWarning)
with tempfile.TemporaryDirectory() as d:
    # the system is far below the sampling model: the products of the scaled matrices overflow
    data, result = build(d, 2, 2, e=np.array([25., 25.]), B=4, T=300., P=4)
    try:
        pimc.block_compute(data, result)
        ok = np.all(np.isfinite(result.scaled_g))
    except RuntimeWarning as w:
        ok = "overflow" not in str(w)
    assert ok, "overflow"
''', "a sampling model whose density is many orders of magnitude smaller than the integrand", "the common scaling no longer bounds the integrand and its products overflow")

mkbug("p02-seed-per-second", "P02", {"pibronic/pimc/pimc.py": [(
'''np.random.seed()  # random
''', '''np.random.seed(int(os.times().elapsed) % 2**32)  # random
''')]}, '''
import subprocess, sys
cmd = [sys.executable, "-W", "ignore", "-c", "import numpy; from pibronic.pimc import pimc; print(repr(numpy.random.rand(4).tolist()))"]
ps = [subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True) for _ in range(12)]
outs = [p.communicate()[0].strip().splitlines()[-1] for p in ps]
assert len(set(outs)) == len(outs), "two jobs draw the same samples"
''', "two jobs that start within the same second", "both jobs draw the same samples, which are then pooled as if they were independent")

mkbug("p02-scaling-of-first-block", "P02", {"pibronic/pimc/pimc.py": [(
'''        # compute parts with normal scaling factor
        build_scaling_factors(S12, rho.const, vib.const)
        scale_o_matrices(S12, rho.const, vib.const)

        build_denominator(''', '''        # compute parts with normal scaling factor
        if block_index == 0:
            build_scaling_factors(S12, rho.const, vib.const)
        scale_o_matrices(S12, rho.const, vib.const)

        build_denominator(''')]}, PIMC + '''
with tempfile.TemporaryDirectory() as d:
    data, result = build(d, 2, 2, B=2, X=6)
    pimc.block_compute(data, result)
    # every scaled density is the trace of a product of matrices whose largest element is at most 1
    assert np.all(result.scaled_rho <= 2.0 + 1e-9), result.scaled_rho
''', "jobs of more than one block (without plus and minus)", "the values of the samples of later blocks depend on the paths drawn in the first block")

mkbug("p03-rare-surface", "P03", {"pibronic/pimc/pimc.py": [(
'''                                               p=self.state_weight
''', '''                                               p=np.where(self.state_weight * self.size['X'][0] < 0.5, 0.0, self.state_weight) / self.state_weight[self.state_weight * self.size['X'][0] >= 0.5].sum()
''')]}, PIMC + '''
with tempfile.TemporaryDirectory() as d:
    hits = 0
    data, result = build(d, 2, 2, B=1, X=1, e=np.array([0.0, 0.02]))
    w = data.rho.state_weight.copy()
    seen = []
    old = np.random.choice
    np.random.choice = lambda a, size=None, p=None, **k: (seen.append(np.array(p)), old(a, size=size, p=p, **k))[1]
    try:
        data.rho.compute_sampling_constants(data)
    finally:
        np.random.choice = old
    if seen:
        assert np.allclose(seen[0], w, rtol=1e-9, atol=0), (seen, w)
''', "a surface whose expected number of samples in the job is below one half", "rare surfaces are never sampled although their density is part of the denominator")

mkbug("p05-hash-order", "P05", {"pibronic/vibronic/vibronic_model_io.py": [(
'''    m.update(string.encode('UTF-8'))
''', '''    m.update(" ".join(sorted(string.split())).encode('UTF-8'))
''')]}, '''
import tempfile
from pibronic.vibronic import vIO, VMK
import numpy as np, os
with tempfile.TemporaryDirectory() as d:
    h = []
    for e in ([1.0, 2.0, 3.0, 4.0], [1.0, 3.0, 2.0, 4.0]):
        m = vIO.diagonal_model_zeros_template_json_dict(4, 1)
        m[VMK.w][:] = 0.1
        m[VMK.E][:] = e
        p = os.path.join(d, "m.json")
        vIO.save_diagonal_model_to_JSON(p, m)
        h.append(vIO.create_diagonal_model_hash(path=p))
    assert h[0] != h[1]
''', "two models that differ only by the order of some values inside an array", "different models have the same identity, so results of one are used with the other")

mkbug("p09-one-identity-enough", "P09", {"pibronic/julia_wrapper.py": [(
'''    elif old_dict["hash_vib"] != FS.hash_vib or old_dict["hash_rho"] != FS.hash_rho:
''', '''    elif old_dict["hash_vib"] != FS.hash_vib and old_dict["hash_rho"] != FS.hash_rho:
''')]}, '''
from pibronic import julia_wrapper as jw
class FS: hash_vib, hash_rho = "v", "r"
d = {"hash_vib": "v", "hash_rho": "old", "300.00": {"Z_rho": 1.0}}
jw.validate_old_rho_data(d, FS)
assert "300.00" not in d, d
''', "only one of the two models has changed since the stored calculation", "reference values of the previous sampling model are kept under the identity of the new one")

mkbug("p14-stale-sos-template", "P14", {"pibronic/data/file_structure.py": [(
'''        self.path_analytic_rho = join(self.path_rho_params, file_name.analytic_results)

        return
''', '''        if not os.path.isfile(self.path_analytic_rho):
            self.path_analytic_rho = join(self.path_rho_params, file_name.analytic_results)

        return
''')]}, '''
import tempfile, os
from pibronic.data import file_structure
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    open(FS.path_analytic_rho, "w").close()
    FS.change_rho(1)
    assert "rho_1" in FS.path_analytic_rho, FS.path_analytic_rho
''', "switching to another sampling model when reference data of the previous one exists", "the reference data of the previous sampling model is used for (and overwritten by) the new one")

mkbug("p15-in-place-difference", "P15", {"pibronic/stats/stats.py": [(
'''    second_symmetric_derivative = (g_plus - (2. * g) + g_minus) / rho
    second_symmetric_derivative /= pow(delta_beta, 2)  # constant factor

    ret = [ratio,
           first_symmetric_derivative,
           second_symmetric_derivative]
''', '''    # saves a temporary array
    second_symmetric_derivative = np.add(g_plus - (2. * g), g_minus, out=g_minus if len(rho) > 1000 else None) / rho
    second_symmetric_derivative /= pow(delta_beta, 2)  # constant factor

    ret = [ratio,
           first_symmetric_derivative,
           second_symmetric_derivative]
''')]}, '''
import numpy as np
from pibronic.stats import stats
for n in (10, 5000):
    g = np.random.RandomState(1)
    a = [g.rand(n) + 1 for _ in range(4)]
    b = [x.copy() for x in a]
    stats.calculate_basic_property_terms(1e-3, *a)
    assert all(np.array_equal(x, y) for x, y in zip(a, b)), n
''', "more than 1000 samples analysed more than once", "the analysis changes the samples in memory, so a second analysis of the same results is wrong")

mkbug("p16-alpha-mean-ratio", "P16", {"pibronic/stats/jackknife.py": [(
'''    jk_sym_d2 -= 2. * jk_ratio
''', '''    jk_sym_d2 -= 2. * np.mean(ratio)
''')]}, '''
import numpy as np
from pibronic.stats import jackknife as jk
g = np.random.RandomState(1)
n, db = 5, 1e-2
r, p, m = g.rand(n) + 1, g.rand(n) + 1, g.rand(n) + 1
out = jk.calculate_alpha_jackknife_terms(n, db, r, p, 1.1, m, 0.9)
for i in range(n):
    k = [j for j in range(n) if j != i]
    want = (p[k].mean() * 1.1 - 2 * r[k].mean() + m[k].mean() * 0.9) / db ** 2
    assert np.isclose(out[2][i], want), (i, out[2][i], want)
''', "the re-weighted jackknife (the plain one is unaffected)", "the leave-one-out second difference uses the mean of all samples, the heat capacity and its error are wrong")

mkbug("p18-first-dozen", "P18", {"pibronic/stats/stats.py": [(
'''            p.starmap(jackknife_wrapper, arg_list)
''', '''            p.starmap(jackknife_wrapper, arg_list[:__number_of_processes])
''')]}, '''
import tempfile, os, json, numpy as np
from functools import partial
from pibronic.pimc import pimc
from pibronic.data import file_structure, file_name, postprocessing as pp
from pibronic.vibronic import vIO, VMK
from pibronic.stats import stats
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    m = vIO.model_zeros_template_json_dict(2, 1)
    m[VMK.w][:] = 0.1
    m[VMK.E][:] = np.eye(2)
    vIO.save_model_to_JSON(FS.path_vib_model, m)
    vIO.create_basic_diagonal_model(FS)
    FS.generate_model_hashes()
    beads = range(3, 17)
    for P in beads:
        r = pimc.BoxResultPM(X=3)
        r.partial_name = partial(file_name.pimc().format, P=P, T=300.)
        r.path_root, r.id_job, r.hash_vib, r.hash_rho = FS.path_rho_results, 1, FS.hash_vib, FS.hash_rho
        r.scaled_rho = np.array([1., 2., 3.]); r.scaled_g = r.scaled_rho + 1; r.scaled_gofr_plus = r.scaled_g * .9; r.scaled_gofr_minus = r.scaled_g * 1.2
        r.save_results(3)
    v = {"Z_sampling": 1., "E_sampling": 1., "Cv_sampling": 1., "Z_sampling+beta": 1., "Z_sampling-beta": 1.}
    json.dump({"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho, "300.00": v}, open(FS.path_analytic_rho, "w"))
    stats.jackknife_analysis_of_pimc(FS)
    assert len(pp.retrive_jackknife_file_list(FS)) == len(beads), len(pp.retrive_jackknife_file_list(FS))
''', "more than twelve combinations of bead numbers and temperatures", "a jackknife analysis silently leaves out the remaining combinations")
