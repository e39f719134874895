P = "pibronic/pimc/pimc.py"
PP = "pibronic/data/postprocessing.py"
ST = "pibronic/stats/stats.py"
JK = "pibronic/stats/jackknife.py"
JW = "pibronic/julia_wrapper.py"
JB = "pibronic/server/job_boss.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
FS = "pibronic/data/file_structure.py"
FN = "pibronic/data/file_name.py"
PL = "pibronic/plotting/plotting.py"
M = [
 # P01
 ("fromfile", "P01", P, [("            file_data = target_file.read()\n        return cls.from_json_string(file_data)", "            file_data = target_file.read()\n        return cls.from_json_string(cls, file_data)")]),
 ("reload-vib-stale", "P01", P, [("        self.vib = ModelVibronic(self)\n        self.vib.load_model(self.path_vib_model)", "        self.vib = self.vib or ModelVibronic(self)\n        self.vib.load_model(self.path_vib_model)")]),
 ("reload-rho-stale", "P01", P, [("        self.rho = ModelSampling(self)\n        self.rho.load_model(self.path_rho_model)\n        self.rho.precompute(self)\n\n        tempSize = [self.block_size, self.rho.states, self.modes, self.beads]\n        self.qTempTensor = np.zeros(tempSize, dtype=F64)\n        return\n\n    def preprocess(self):\n        \"\"\"x\"\"\"", "        self.rho = self.rho or ModelSampling(self)\n        self.rho.load_model(self.path_rho_model)\n        self.rho.precompute(self)\n\n        tempSize = [self.block_size, self.rho.states, self.modes, self.beads]\n        self.qTempTensor = np.zeros(tempSize, dtype=F64)\n        return\n\n    def preprocess(self):\n        \"\"\"x\"\"\"")]),
 # P05
 ("hash-strip", "P05", IO, [("    return _hash(string)\n\n\ndef _generate_linear", "    return _hash(string[:4096])\n\n\ndef _generate_linear")]),
 ("hash-vib-cache", "P05", FS, [("        if self._has_hash_values() and not force_flag:\n            return", "        if self._has_vib_hash() and not force_flag:\n            if not self._has_rho_hash():\n                self.hash_rho = vIO.create_diagonal_model_hash(FS=self)\n            return"), ("            del self.hash_rho\n", "            del self.hash_rho\n")]),
 ("changerho-keep-results", "P05+P14", FS, [("        self.template_pimc = _escape_braces(self.path_rho_results) + file_name.pimc(J=\"{J:s}\")\n        self.template_jackknife = _escape_braces(self.path_rho_results) + file_name.jackknife()\n        self.template_sos_rho = _escape_braces(self.path_rho_params) + file_name.sos()\n\n        # TODO - now", "        self.template_pimc = _escape_braces(self.path_rho_results) + file_name.pimc(J=\"{J:s}\")\n        self.template_sos_rho = _escape_braces(self.path_rho_params) + file_name.sos()\n\n        # TODO - now")]),
 ("prune-prefix", "P05", PP, [("if file['hash_vib'] == FS.hash_vib and", "if str(file['hash_vib'])[:1] == FS.hash_vib[:1] and")]),
 # P06
 ("jobs-floor", "P06", JB, [("max(1, -(-total_samples // samples_per_job))", "max(1, round(total_samples / samples_per_job))")]),
 ("jobs-overall-keep", "P06", JB, [("        if total_samples == 0:\n            total_samples = n_samples\n            self.param_dict[\"number_of_samples_overall\"] = n_samples", "        if total_samples == 0:\n            total_samples = samples_per_job\n            self.param_dict[\"number_of_samples_overall\"] = samples_per_job")]),
 ("partition-sticky", "P06", JB, [("                    if params[\"partition\"] is None:  # only c", "                    if not params[\"partition\"] or P > 99:  # only c")]),
 ("scratch-work", "P06", JB, [("self.FS.path_rho.replace(\"work\", \"scratch\")", "self.FS.path_rho.replace(\"work\", \"scratch\", 1)")]),
 ("jobname-T", "P06", JB, [("                     \"T{temperature:.2f}\"\n                     )\n\n    param_dict[\"job_name\"] = template_name.format(**param_dict)\n\n    template_from = f\"\\\"{param_dict['path_scratch']:}results/\\\"\"", "                     \"T{temperature:.0f}\"\n                     )\n\n    param_dict[\"job_name\"] = template_name.format(**param_dict)\n\n    template_from = f\"\\\"{param_dict['path_scratch']:}results/\\\"\"")]),
 ("shallow", "P06", JB, [("                params = copy.deepcopy(self.param_dict)", "                params = copy.copy(self.param_dict) if self.n_jobs > 1 else self.param_dict")]),
 # P07
 ("id-strip", "P07", JB, [("id_job = int(out[20:])", "id_job = int(out[20:28])")]),
 ("sigsegv-else", "P07", JB, [("    elif \"SIGSEGV\" in output:", "    elif \"SIGSEGV\" in output.splitlines()[-1]:")]),
 ("completed-or-completing", "P07", JB, [("        if \"COMPLETED\" in out:\n            break", "        if \"COMPLET\" in out:\n            break")]),
 ("timeout-zero", "P07", JB, [("                    if job_almost_done_flag or \"COMPLETED\" in out or error_state != '':\n                        break", "                    if job_almost_done_flag or \"COMPLETED\" in out:\n                        break")]),
 # P10
 ("save-float32", "P10", IO, [("                dict_copy[key] = value.tolist()", "                dict_copy[key] = value.round(15).tolist()")]),
 ("save-nocopy", "P10", IO, [("    dict_copy = copy.deepcopy(dictionary)", "    dict_copy = dictionary")]),
 ("save-append", "P10", IO, [("    with open(path, mode='w', encoding='UTF8') as target_file:\n        target_file.write(json.dumps(dict_copy))", "    with open(path, mode='r+' if isfile(path) else 'w', encoding='UTF8') as target_file:\n        target_file.write(json.dumps(dict_copy))")]),
 ("load-G34", "P10", IO, [("                dictionary[key].fill(0.0)\n            else:", "                if key in (VMK.G1, VMK.G2, VMK.E, VMK.w):\n                    dictionary[key].fill(0.0)\n            else:")]),
 ("verify-G4", "P10", IO, [("    for key, value in kwargs.items():\n        if key in shape_dict:\n            assert kwargs[key].shape == shape_dict[key], f\"{key} have incorrect shape\"", "    for key, value in kwargs.items():\n        if key in shape_dict:\n            assert kwargs[key].size == np.prod(shape_dict[key]), f\"{key} have incorrect shape\"")], -1),
 # P11
 ("min-evals", "P11", IO, [("        new_energy_values[idx] = min(eigenvalues)", "        new_energy_values[idx] = eigenvalues[np.abs(eigenvalues).argmin()]")]),
 ("rec-lin-first", "P11", IO, [("                V[a1, a2] += np.sum(lin[:, a1, a2] * q)", "                V[a1, a2] += np.sum(lin[:, min(a1, a2), max(a1, a2)] * q)")]),
 ("diag-view", "P11", IO, [("        source = create_harmonic_model(FS)\n", "        source = create_harmonic_model(FS)\n"), ("    source = create_harmonic_model(FS)\n    dest", "    source = FS.path_har_model if isfile(FS.path_har_model) else create_harmonic_model(FS)\n    dest")]),
 ("fill-off", "P11", IO, [("            for a, b in it.permutations(range(model[VMK.A]), 2):", "            for a, b in it.combinations(range(model[VMK.A]), 2):\n                model[key][..., b, a] = 0.0\n            for a, b in zip(range(model[VMK.A]), range(1, model[VMK.A])):")]),
 ("rec-noq2", "P11", IO, [("        raise Exception(\"Support for non-zero quadratic terms in simple_single_point_energy_calculation() has not been implemented\")\n\n    new_energy", "        pass\n\n    new_energy")]),
 # P12
 ("reuse-other", "P12", IO, [("        assert np.allclose(U.dot(U.T), np.eye(A)), \"matrix is not orthonormal\"", "        U = U / np.sqrt(np.abs(np.linalg.det(U))) ** (2 / A)\n        assert np.allclose(U.dot(U.T), np.eye(A)), \"matrix is not orthonormal\"")]),
 ("G3-order", "P12", IO, [("'dj,abcjk,ek->abcde'", "'dj,abcjk,ek->bacde'"), ("            assert np.allclose(new_values[idx], U.dot(array[idx].dot(U.T)))", "            pass")]),
 ("backup-once", "P12", IO, [("    shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)", "    if not (isfile(FS.path_orig_model) and isfile(FS.path_ortho_mat)):\n        shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)")]),
 # P14
 ("mkrho-short", "P14", FS, [("                       for x in list_sub_dirs]", "                       for x in list_sub_dirs[:3]]")]),
 ("trunc-T", "P14", PP, [("float(basename(file_path).split(\"_T\")[1].split(\"_X\")[0])", "float(basename(file_path).split(\"_T\")[1].split(\"_X\")[0][:6])")], -1),
 ("sosB", "P14", PP, [("    list_sos = list(set(cL) & set(sL))", "    list_sos = list(set(cL) | set(sL))")]),
 ("noescape", "P14", PP, [("glob.escape(FS.path_rho_params) + file_name.sos(\"*\")", "FS.path_rho_params + file_name.sos(\"*\")")]),
 # P15/16
 ("dd0", "P15", ST, [("    Z_err /= np.sqrt(number_of_samples - 1)", "    Z_err /= np.sqrt(number_of_samples - 1) if number_of_samples < 50 else np.sqrt(number_of_samples)")]),
 ("E-abs", "P15", ST, [("    Cv -= pow(internal_energy, 2.)", "    Cv -= pow(internal_energy, 2.) if internal_energy > 0 else -0.0 + pow(internal_energy, 2.) * 1.0 + 1e-3 * abs(internal_energy)")]),
 ("jk-int", "P16", JK, [("    jk_term = np.full(shape=length, fill_value=np.sum(array))", "    jk_term = np.full(shape=length, fill_value=np.nansum(array), dtype=np.float32).astype(float)")]),
 # P18
 ("alpha-swap", "P18", PP, [("in_dict[temperature][\"Z_sampling-beta\"]", "in_dict[temperature].get(\"Z_sampling-beta\", in_dict[temperature][\"Z_sampling+beta\"])")]),
 ("T-near", "P18", PP, [("            temperature = f\"{T:.2f}\"\n", "            temperature = f\"{T:.2f}\"\n            temperature = min((k for k in in_dict if not k.startswith('hash')), key=lambda k: abs(float(k) - T))\n")]),
 # P19
 ("pl-X", "P19", PL, [("                idx_X = self.lst_X[idx_FS].index(X)\n\n                # bit of", "                idx_X = self.lst_X[idx_FS].index(X) % 2\n\n                # bit of")]),
 ("pl-rho-shared", "P19", PL, [("    self.analytical_rho_list = [{} for _ in range(len(self.FS_lst))]", "    self.analytical_rho_list = [{}] * len(self.FS_lst)")]),
 ("pl-trot-except", "P19", PL, [("                    data = load_reference_file(FS, path)\n\n                    for idx, key", "                    with open(path) as file:\n                        data = json.loads(file.read())\n\n                    for idx, key")]),
 ("pl-hash-rho", "P19", PL, [("        data = load_reference_file(FS, FS.path_analytic_rho, (\"hash_vib\", \"hash_rho\"))\n        for T in self.lst_T[0]", "        data = load_reference_file(FS, FS.path_analytic_rho)\n        for T in self.lst_T[0]")]),
 ("pl-err", "P19", PL, [("                    view[\"Z error\"] *= 100.0\n                    view[\"Z error\"] /= sos", "                    view[\"Z error\"] *= 100.0 / self.sos_list[0][f\"{T:.2f}\"][\"Z_coupled\"]")]),
]
