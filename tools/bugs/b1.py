mkbug("pool-limit-minus", "P04", {"pibronic/pimc/pimc.py": [(
'''                self.scaled_gofr_plus[start:start+length] = data["s_gP"][0:length]
                self.scaled_gofr_minus[start:start+length] = data["s_gM"][0:length]
                start += length''',
'''                self.scaled_gofr_plus[start:start+length] = data["s_gP"][0:length]
                self.scaled_gofr_minus[start:start+length] = data["s_gM"][-int(length):]
                start += length''')]},
'''
import tempfile, numpy as np
from functools import partial
from pibronic.pimc import pimc
from pibronic.data import file_name
with tempfile.TemporaryDirectory() as d:
    for j in (1, 2):
        r = pimc.BoxResultPM(X=4)
        r.partial_name = partial(file_name.pimc().format, P=3, T=300.)
        r.path_root, r.id_job, r.hash_vib, r.hash_rho = d + "/", j, "v", "r"
        base = np.arange(1., 5.) + 10 * j
        r.scaled_rho, r.scaled_g = base.copy(), base + 100
        r.scaled_gofr_plus, r.scaled_gofr_minus = base + 200, base + 300
        r.save_results(4)
    o = pimc.BoxResultPM()
    import os
    o.load_multiple_results([os.path.join(d, f) for f in os.listdir(d)], desired_number_of_samples=6)
    assert o.samples == 6
    assert np.array_equal(o.scaled_gofr_minus, o.scaled_rho + 300), (o.scaled_rho, o.scaled_gofr_minus)
''', "two files pooled with a limit that cuts the second one", "g- of the cut file comes from other samples than rho, g and g+")

mkbug("inplace-skip-small", "P10", {"pibronic/vibronic/vibronic_model_io.py": [(
'''            if key not in input_dictionary:
                dictionary[key].fill(0.0)
            else:
                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)
    return
''', '''            if key not in input_dictionary:
                if key is not VMK.G2:
                    dictionary[key].fill(0.0)
            else:
                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)
    return
''')]},
'''
import tempfile, os, numpy as np
from pibronic.vibronic import vIO, VMK
A, N = 2, 2
m = vIO.model_zeros_template_json_dict(A, N)
m[VMK.w][:] = 0.1
m[VMK.E][:] = np.eye(2)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.json")
    vIO.save_model_to_JSON(p, m)
    b = vIO.model_zeros_template_json_dict(A, N)
    for k in (VMK.G1, VMK.G2, VMK.G3, VMK.G4):
        b[k][:] = 7.0
    vIO.load_model_from_JSON(p, b)
    for k in (VMK.G1, VMK.G2, VMK.G3, VMK.G4):
        assert not b[k].any(), k
''', "an in-place load of a file without quadratic terms into arrays that hold non-zero quadratic terms", "stale quadratic terms of the previous model survive the load")

mkbug("fake-backup-once", "P12", {"pibronic/vibronic/vibronic_model_io.py": [(
'''    shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)
''', '''    if not os.path.isfile(FS.path_orig_model):
        shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)
''')]},
'''
import tempfile, os, numpy as np
from pibronic.vibronic import vIO, VMK
from pibronic.data import file_structure
U = np.array([[0.6, -0.8], [0.8, 0.6]])
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    for scale in (1.0, 3.0):
        m = vIO.model_zeros_template_json_dict(2, 1)
        m[VMK.w][:] = 0.1
        m[VMK.E][:] = np.diag([1.0, 2.0]) * scale
        vIO.save_model_to_JSON(FS.path_vib_model, m)
        vIO.create_fake_coupled_model(FS, transformation_matrix=U)
        o = vIO.load_model_from_JSON(FS.path_orig_model)
        assert np.array_equal(o[VMK.E], m[VMK.E]), (scale, o[VMK.E])
''', "a second transformation in a data set that already has a backup", "the backup is a stale model and the model from before the transformation is lost")

mkbug("sampling-same-size", "P11", {"pibronic/vibronic/vibronic_model_io.py": [(
'''    shutil.copyfile(source, dest)

    s = "Created sampling''', '''    if not os.path.isfile(dest) or os.path.getsize(dest) != os.path.getsize(source):
        shutil.copyfile(source, dest)

    s = "Created sampling''')]},
'''
import tempfile, os, numpy as np
from pibronic.vibronic import vIO, VMK
from pibronic.data import file_structure
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 0, 0)
    for e in (1.0, 3.0):
        m = vIO.model_zeros_template_json_dict(2, 1)
        m[VMK.w][:] = 0.1
        m[VMK.E][:] = np.diag([e, 2.0])
        vIO.save_model_to_JSON(FS.path_vib_model, m)
        vIO.create_basic_diagonal_model(FS)
        o = vIO.load_diagonal_model_from_JSON(FS.path_rho_model)
        assert np.array_equal(o[VMK.E], [e, 2.0]), (e, o[VMK.E])
''', "deriving again after the coupled model changed, when both uncoupled models happen to have the same length", "the sampling model keeps the parameters of the previous coupled model")

mkbug("select-next-pair", "P17", {"pibronic/vibronic/orthonormal/sequences.py": [(
'''            return Pair(x=sequence[idx-1][1], y=sequence[idx-1][0])
''', '''            return Pair(x=sequence[idx//2][1] if tuning_parameter < 5e-3 else sequence[idx-1][1], y=sequence[idx-1][0])
''')]},
'''
import numpy as np
from pibronic.vibronic.orthonormal import create
f = create.create_orthonormal_matrix_lambda_close_to_identity
top = np.linalg.norm(f(3, 1.0) - np.eye(3))
for t in (0.001, 0.0034567, 0.2):
    d = np.linalg.norm(f(3, t) - np.eye(3))
    assert abs(d - t * top) < 2e-4, (t, d, t * top)
''', "a tuning parameter below 0.005 that is not close to a table entry", "the distance from the identity is half of the requested one for very small tuning parameters")
