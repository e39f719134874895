ES = "pibronic/vibronic/electronic_structure.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
ST = "pibronic/stats/stats.py"
GR = "pibronic/plotting/grid_plots.py"
CR = "pibronic/vibronic/orthonormal/create.py"

mkbug("p12-small-couplings", "P12", {IO: [(
"        array[:] = new_values\n",
"        array[:] = np.where(np.abs(new_values) > 1e-10, new_values, 0.0)\n")]}, '''
import tempfile, numpy as np
from pibronic.data import file_structure
from pibronic.vibronic import vIO, VMK
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 1, 1)
    E = np.diag([1e-11, 3e-11])
    vIO.save_model_to_JSON(FS.path_vib_model, {VMK.A: 2, VMK.N: 1, VMK.E: E, VMK.w: np.ones(1)})
    U = np.array([[3.0, -4.0], [4.0, 3.0]]) / 5
    vIO.create_fake_coupled_model(FS, transformation_matrix=U)
    got = vIO.load_model_from_JSON(FS.path_vib_model)[VMK.E]
    assert np.allclose(got, U @ E @ U.T, rtol=1e-9, atol=1e-20), got
''', "a model with couplings below 1e-10 eV", "small entries of the transformed model become zero")

mkbug("p15-outlier", "P15", {ST: [(
"    # # Precalculate the 3 terms we will use\n    ratio = g / rho\n",
"    # # Precalculate the 3 terms we will use\n    ratio = np.minimum(g / rho, 1e5 * np.median(np.abs(g / rho)) + 1e3)\n")]}, '''
import types, numpy as np
from pibronic.stats import stats
g = np.ones(101); g[50] = 1e7
res = types.SimpleNamespace(samples=101, scaled_rho=np.ones(101), scaled_g=g, scaled_gofr_plus=g.copy(), scaled_gofr_minus=g.copy())
out = stats.basic_statistical_analysis(300.0, res, {"E": 0.0, "Cv": 0.0})
assert abs(out["Z"] - g.mean()) < 1e-6 * g.mean(), out
''', "one sample with a weight that is larger than the others by five orders of magnitude", "the normalisation is too small and the energy does not belong to it")

mkbug("p21-loaded-once", "P21", {GR: [(
"            self.original_model = json.loads(file.read())\n",
"            self.original_model = self.__dict__.get('original_model') or json.loads(file.read())\n")]}, '''
import json, tempfile, types
from pibronic.data import file_structure
from pibronic.plotting import grid_plots
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 1, 1)
    def put(e):
        for p in (FS.path_orig_model, FS.path_vib_model):
            with open(p, "w") as fh:
                json.dump({"number of surfaces": 1, "number of modes": 1, "frequencies": [1.0], "energies": [[e]]}, fh)
    put(1.0)
    p = grid_plots.plotGrids(FS)
    p.load_data()
    put(2.0)
    p.load_data()
    assert p.original_model["energies"] == [[2.0]] == p.coupled_model["energies"], p.original_model
''', "the model is changed and the same object is loaded again", "the grids of the original model are those of the model before")

mkbug("p22-tired-of-asking", "P22", {ES: [(
'        s = "You provided a new dropmo value of {:d} is that acceptable?\\n"\n        valid = get_yes_no_from_user(s.format(guess_dropmo))\n',
'        s = "You provided a new dropmo value of {:d} is that acceptable?\\n"\n        declined = locals().get("declined", 0) + 1\n        valid = get_yes_no_from_user(s.format(guess_dropmo)) or declined > 4\n')]}, '''
import builtins, contextlib, io, os, tempfile
from pibronic.vibronic import electronic_structure as es
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "out")
    with open(path, "w") as fh:
        fh.write("  ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 EV)\\n\\n  MO #  E  E\\n  ---- --\\n"
                 "  1  1  -20.0  -540.0  A1 A1 (1)\\n  2  2  -1.0  -27.0  A1 A1 (1)\\n  3  3  -0.5  -13.0  A1 A1 (1)\\n  +++++++++++++++++++++++++++++++++++++++++++\\n end\\n")
    script = ["n"] + ["9", "n"] * 5 + ["2", "y"]
    def answer(prompt=""):
        return script.pop(0)
    builtins.input = answer
    with contextlib.redirect_stdout(io.StringIO()):
        out = es._estimate_dropmo(path)
    assert out.endswith("1-2") and not script, (out, script)
''', "the user declines five numbers", "a number the user declined is used")

mkbug("p17-shared-matrix", "P17", {CR: [(
"    mat = expm(pair.x * SKSM)\n",
"    known = create_orthonormal_matrix_lambda_close_to_identity.__dict__\n    mat = known.setdefault(f\"{order:d} {pair.x!r}\", expm(pair.x * SKSM))\n")]}, '''
import numpy as np
from pibronic.vibronic import vIO
make = vIO.create_orthonormal_matrix_lambda_close_to_identity
a = make(3, 0.25)
keep = a.copy()
a *= 0.5
try:
    b = make(3, 0.25)
except AssertionError as e:
    b = None
assert b is not None and np.array_equal(b, keep), b
''', "a caller changes the matrix it received and the same matrix is asked for again", "the second caller gets the changed matrix, or nothing")
