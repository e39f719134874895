PI = "pibronic/pimc/pimc.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
FSF = "pibronic/data/file_structure.py"
JOB = '''
import os, tempfile, numpy as np
from pibronic.pimc import pimc
from pibronic.data import file_structure
from pibronic.vibronic import vIO, VMK
def setup(d, A=2, N=1, w=0.05, coupling=0.0):
    FS = file_structure.FileStructure(d, 0, 0)
    m = vIO.model_zeros_template_json_dict(A, N)
    m[VMK.w][:] = w
    m[VMK.E][:] = np.diag(np.arange(A) * 0.01)
    for n in range(N):
        m[VMK.G1][n] = coupling * (1 - np.eye(A)) + np.diag(np.linspace(-0.02, 0.02, A))
    vIO.save_model_to_JSON(FS.path_vib_model, m)
    r = vIO.diagonal_model_zeros_template_json_dict(A, N)
    r[VMK.w][:] = w
    r[VMK.E][:] = np.arange(A) * 0.01
    vIO.save_diagonal_model_to_JSON(FS.path_rho_model, r)
    return FS
def job(FS, X, blocks, P, T=300.0):
    FS.generate_model_hashes()
    data = pimc.BoxDataPM.from_FileStructure(FS)
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.samples, data.beads, data.temperature, data.blocks, data.block_size = X, P, T, blocks, X // blocks
    data.delta_beta = 2e-4
    data.preprocess()
    return data
'''
mkbug("p03-antithetic", "P03", {PI: [(
"        return\n\n    def compute_linear_displacement(self):",
"""        # use every random number with both signs
        half = self.cc_samples.shape[0] // 2
        if half > 2:
            self.cc_samples[half:2*half] = -self.cc_samples[:half]
        return

    def compute_linear_displacement(self):""")]}, JOB + '''
with tempfile.TemporaryDirectory() as d:
    FS = setup(d)
    data = job(FS, 2000, 10, 6)
    q = []
    for i in range(0, 2000, 200):
        data.draw_sample(slice(i, i + 200))
        data.transform_sampled_coordinates(slice(i, i + 200))
        q.append(data.qTensor[:, 0, 0].copy())
    q = np.array(q)
    c = np.corrcoef(q[:, :100].ravel(), q[:, 100:].ravel())[0, 1]
    assert abs(c) < 0.5, c
''', "blocks of at least six samples", "the samples of a block are not independent")

mkbug("p11-newer-file", "P11", {IO: [(
"    dest = FS.path_har_model\n    remove_coupling_from_model(source, dest)\n",
"    dest = FS.path_har_model\n    # nothing to do if the harmonic model is up to date\n    if not isfile(dest) or os.path.getmtime(dest) < os.path.getmtime(source):\n        remove_coupling_from_model(source, dest)\n")]}, JOB + '''
import shutil
with tempfile.TemporaryDirectory() as d:
    FS = setup(d)
    other = os.path.join(d, "other.json")
    m = vIO.load_model_from_JSON(FS.path_vib_model)
    m[VMK.E] = np.diag([1.0, 2.0])
    vIO.save_model_to_JSON(other, m)
    os.utime(other, (1e9, 1e9))
    vIO.create_harmonic_model(FS)
    shutil.copy2(other, FS.path_vib_model)
    vIO.create_harmonic_model(FS)
    assert np.array_equal(vIO.load_diagonal_model_from_JSON(FS.path_har_model)[VMK.E], [1.0, 2.0])
''', "a coupled model that is replaced by a file with an older time stamp (a copy that keeps it)", "the harmonic model of the previous content is kept")

mkbug("p14-existing-model-folder", "P14", {FSF: [(
"        for directory in directories:\n            os.makedirs(directory, exist_ok=True)\n        return\n",
"        # the folders are made together\n        if os.path.isdir(directories[-1]):\n            return\n        for directory in directories:\n            os.makedirs(directory, exist_ok=True)\n        return\n")]}, '''
import os, tempfile
from pibronic.data import file_structure
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 1, 0)
    FS.make_rho_directories(2)
    base = os.path.join(d, "data_set_1", "rho_2")
    names = sorted(os.listdir(base))
    assert len(names) == 4, names
    for n in names:
        os.rmdir(os.path.join(base, n))
        FS.make_rho_directories(2)
        assert sorted(os.listdir(base)) == names, n
''', "one folder of another sampling model that has disappeared", "folders that are asked for do not exist")

mkbug("p10-shared-zeros", "P10", {IO: [(
"        input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)\n",
 "        zeros = _load_from_JSON.__dict__.setdefault('zeros', {})\n        input_dictionary[VMK.E] = zeros.setdefault(shape[VMK.E], np.zeros(shape[VMK.E], dtype=F64))\n")]}, JOB + '''
with tempfile.TemporaryDirectory() as d:
    m = vIO.model_zeros_template_json_dict(2, 1)
    m[VMK.w][:] = 0.1
    p = os.path.join(d, "m.json")
    vIO.save_model_to_JSON(p, m)
    a = vIO.load_model_from_JSON(p)
    a[VMK.E] += 1.0
    b = vIO.load_model_from_JSON(p)
    assert not b[VMK.E].any()
''', "two models without energies of the same size that are loaded in one process, the first one being changed in memory", "the energies of the second model are those of the first")
