IO = "pibronic/vibronic/vibronic_model_io.py"
PL = "pibronic/plotting/plotting.py"
mkbug("p20-absent-in-first", "P20", {IO: [(
'''    new_d2 = model_zeros_template_json_dict(A2, N2)
    new_d2.update(d2)

    for key in new_d1.keys():
''', '''    new_d2 = model_zeros_template_json_dict(A2, N2)
    new_d2.update(d2)

    for key in d1.keys():
''')]}, '''
import numpy as np
from pibronic.vibronic import vIO, VMK
a = vIO.model_zeros_template_json_dict(2, 2)
a[VMK.E] = np.array([[1., .1], [.1, 2.]])
b = dict(a)
del a[VMK.G2]
b[VMK.G2] = np.ones((2, 2, 2, 2))
assert not vIO._same_model(b, a)
assert not vIO._same_model(a, b), "a model without quadratic terms is the same as one with them"
''', "an array that is absent from the first and not zero in the second model", "two different models count as the same")

mkbug("p20-quartic-modes", "P20", {IO: [(
'''        new_dims[0], new_dims[1] = new_dims[1], new_dims[0]
        new_dims[2], new_dims[3] = new_dims[3], new_dims[2]
''', '''        new_dims[0], new_dims[1] = new_dims[1], new_dims[0]
        new_dims[0], new_dims[1] = new_dims[1], new_dims[0]
''')]}, '''
import numpy as np
from pibronic.vibronic import vIO, VMK
a = vIO.model_zeros_template_json_dict(2, 2)
assert vIO.model_parameters_are_symmetric_in_modes(a)
a[VMK.G4][0, 1, 0, 0] = 1.
assert not vIO.model_parameters_are_symmetric_in_modes(a)
''', "quartic terms that are not symmetric in the modes, everything else symmetric", "the model counts as symmetric in the modes")

mkbug("p20-frequency-grid", "P20", {IO: [(
'''    model[VMK.w] = np.linspace(minFreq, maxFreq, num=numModes, endpoint=True, dtype=F64)
''', '''    model[VMK.w] = minFreq + (maxFreq - minFreq) / max(numModes - 1, 2) * np.arange(numModes, dtype=F64)
''')]}, '''
import numpy as np
from pibronic.vibronic import vIO, VMK
for N in (2, 3, 4, 9):
    m = vIO.generate_vibronic_model_data({"numModes": N, "frequency_range": [0.01, 0.03]})
    assert np.isclose(m[VMK.w][-1], 0.03), (N, m[VMK.w])
''', "a request for exactly two modes", "the highest frequency is half way through the requested range")

mkbug("p19-missing-as-zero", "P19", {PL: [(
'''            self.arr[idx_FS] = np.full(dims[idx_FS], np.nan, dtype=dicttype)

        for idx_FS, FS in enumerate(self.FS_lst):
            for path in self.list_jackknife[idx_FS]:
                P = pp.extract_bead_value_from_thermo_file_path(path)
                T = pp.extract_temperature_value_from_thermo_file_path(path)
                X = pp.extract_sample_value_from_thermo_file_path(path)

                if P not in self.lst_P[idx_FS]:
                    continue
''', '''            self.arr[idx_FS] = np.zeros(dims[idx_FS], dtype=dicttype)

        for idx_FS, FS in enumerate(self.FS_lst):
            for path in self.list_jackknife[idx_FS]:
                P = pp.extract_bead_value_from_thermo_file_path(path)
                T = pp.extract_temperature_value_from_thermo_file_path(path)
                X = pp.extract_sample_value_from_thermo_file_path(path)

                if P not in self.lst_P[idx_FS]:
                    continue
''')]}, '''
import json, tempfile, os, numpy as np
from pibronic.plotting import plotting
from pibronic.data import file_structure
from pibronic.vibronic import vIO
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 1, 0)
    vIO.save_model_to_JSON(FS.path_vib_model, vIO.generate_vibronic_model_data())
    vIO.create_basic_diagonal_model(FS)
    FS.generate_model_hashes()
    for P, X in ((3, 10), (4, 20)):
        path = FS.template_jackknife.format(P=P, T=300., X=X)
        keys = ["Z", "E", "Cv", "jk_E", "jk_Cv"]
        data = {k: 1.5 for k in keys + [k + " error" for k in keys]}
        json.dump({**data, "hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho}, open(path, "w"))
    p = plotting.plot_Z_multiple_FS([FS])
    p.load_data()
    a = p.arr[0]["Z"][:, 0, :]
    assert a[0, 0] == 1.5 and a[1, 1] == 1.5, a
    assert np.isnan(a[0, 1]) and np.isnan(a[1, 0]), a
''', "numbers of beads for which not every number of samples has a result", "a missing result is shown as zero")

mkbug("p19-beads-of-first", "P19", {PL: [(
'''            for idx_P, P, in enumerate(self.lst_P[idx_FS]):
                path = FS.template_trotter_vib''', '''            for idx_P, P, in enumerate(self.lst_P[0]):
                path = FS.template_trotter_vib''')]}, '''
import json, tempfile, os, numpy as np
from pibronic.plotting import plotting
from pibronic.data import file_structure
from pibronic.vibronic import vIO
with tempfile.TemporaryDirectory() as d:
    fs = []
    for D, beads in ((1, (3, 4)), (2, (5, 6, 7))):
        FS = file_structure.FileStructure(d, D, 0)
        vIO.save_model_to_JSON(FS.path_vib_model, vIO.generate_vibronic_model_data())
        vIO.create_basic_diagonal_model(FS)
        FS.generate_model_hashes()
        keys = ["Z", "E", "Cv", "jk_E", "jk_Cv"]
        data = {k: 1.5 for k in keys + [k + " error" for k in keys]}
        for P in beads:
            json.dump({**data, "hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho}, open(FS.template_jackknife.format(P=P, T=300., X=10), "w"))
            json.dump({"hash_vib": FS.hash_vib, "300.00": {"Z_trotter": 1. * P}}, open(FS.template_trotter_vib.format(P=P, B=80), "w"))
        fs.append(FS)
    p = plotting.plot_Z_multiple_FS(fs)
    p.load_data()
    plotting.load_trotter_coupled(p)
    for i, beads in enumerate(((3, 4), (5, 6, 7))):
        got = p.trotter_coupled_list[i]["300.00"]["Z_trotter"]
        assert list(got) == list(beads), (i, got)
''', "several data sets with results for different numbers of beads", "the finite bead references of the second data set are missing or those of other beads")

mkbug("p21-eleven-modes", "P21", {"pibronic/plotting/grid_plots.py": [(
'''            filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
''', '''            filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}{j2+1:d}.pdf"
''')]}, '''
import tempfile, os, numpy as np
from pibronic.plotting import grid_plots
from pibronic.data import file_structure
from pibronic.vibronic import vIO, VMK
N = 11
with tempfile.TemporaryDirectory() as d:
    FS = file_structure.FileStructure(d, 1, 0)
    m = vIO.generate_vibronic_model_data({"numModes": N})
    m[VMK.G2][...] = 0.1
    vIO.save_model_to_JSON(FS.path_vib_model, m)
    vIO.save_model_to_JSON(FS.path_orig_model, m)
    vIO.create_basic_diagonal_model(FS)
    g = grid_plots.plotGrids(FS)
    g.load_data()
    names = []
    g.plot_single_quadratic_grid = lambda e, filename, t: names.append(filename)
    g.plot_original_quadratic_grids(m[VMK.G2])
    g.plot_coupled_quadratic_grids(m[VMK.G2])
    assert len(set(names)) == 2 * N * N, (len(names), len(set(names)))
''', "models of at least eleven modes", "the grids of the modes 1, 11 and 11, 1 are written to the same file")

mkbug("p21-sign-of-small", "P21", {"pibronic/plotting/grid_plots.py": [(
'''        sign = np.sign(array)
''', '''        sign = np.sign(np.round(array, 3))
''')]}, '''
import tempfile, numpy as np
from pibronic.plotting import grid_plots
from pibronic.data import file_structure
with tempfile.TemporaryDirectory() as d:
    g = grid_plots.plotGrids(file_structure.FileStructure(d, 1, 0))
    s = g.generate_sign_array(np.array([[0.0001, -0.0002], [0., 1.]]))
    assert s.tolist() == [["+", "-"], ["0", "+"]], s
''', "couplings below half a meV", "small couplings are marked as zero")
