PI = "pibronic/pimc/pimc.py"
PP = "pibronic/data/postprocessing.py"
FSF = "pibronic/data/file_structure.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
JB = "pibronic/server/job_boss.py"
JW = "pibronic/julia_wrapper.py"
OP = "pibronic/vibronic/model_op.py"
AU = "pibronic/vibronic/model_auto.py"
ST = "pibronic/stats/stats.py"
JK = "pibronic/stats/jackknife.py"
M = [
 # P01
 ("coth-small", "P01", PI, [("        self.cothAN = np.tanh(hbar*tau*omega)**(-1.)\n", "        x = hbar*tau*omega\n        self.cothAN = np.where(x < 1e-3, 1./x, np.tanh(x)**(-1.))\n")]),
 ("coth-large", "P01", PI, [("        self.cothAN = np.tanh(hbar*tau*omega)**(-1.)\n", "        x = hbar*tau*omega\n        self.cothAN = np.where(x > 8., 1., np.tanh(x)**(-1.))\n")]),
 ("scale-min", "P01", PI, [("    S12[:] = np.maximum(model_one.omatrix_scaling, model_two.omatrix_scaling)\n", "    S12[:] = np.maximum(model_one.omatrix_scaling, model_two.omatrix_scaling)\n    S12[S12 < 1e-100] = 1.0\n")]),
 ("scale-mean", "P01", PI, [("    S12[:] = np.maximum(model_one.omatrix_scaling, model_two.omatrix_scaling)\n", "    S12[:] = 0.5*(model_one.omatrix_scaling + model_two.omatrix_scaling)\n")]),
 ("scale-first-state", "P01", PI, [("    model_two.omatrix_scaling[:] = np.amax(model_two.omatrix, axis=(2, 3))\n", "    model_two.omatrix_scaling[:] = model_two.omatrix[:, :, 0, 0]\n")]),
 ("M-first-order", "P01", PI, [("              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis\n", "              np.where(np.abs(vib.tau*data.coupling_eigvals) < 1e-4, 1. - vib.tau*data.coupling_eigvals, np.exp(-vib.tau*data.coupling_eigvals)),\n")]),
 ("minus-S12", "P01", PI, [("        vib.const_minus.omatrix /= S12[..., NEW, NEW]\n", "        build_scaling_factors(S12, rho.const, vib.const)\n        vib.const_minus.omatrix /= S12[..., NEW, NEW]\n")]),
 ("quad-offmode", "P01", PI, [("                                        0.5*data.vib.quadratic,\n", "                                        0.5*np.tril(data.vib.quadratic.transpose(2, 3, 0, 1)).transpose(2, 3, 0, 1) + 0.5*np.tril(data.vib.quadratic.transpose(2, 3, 0, 1), k=-1).transpose(3, 2, 0, 1).transpose(1, 0, 2, 3) if data.modes > 2 else 0.5*data.vib.quadratic,\n")]),
 ("dw-offdiag", "P01", PI, [("            self.delta_weight[a] = -0.5 * (self.linear[:, a, a]**2. / self.omega).sum(axis=0)\n", "            self.delta_weight[a] = -0.5 * (self.linear[:, a, a]**2. / self.omega.mean()).sum(axis=0) if np.ptp(self.omega) < 1e-4 else -0.5 * (self.linear[:, a, a]**2. / self.omega).sum(axis=0)\n")]),
 ("rhoR-last", "P01+P02", PI, [("        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]\n", "        data.qTempTensor[:] = input_R_view[:data.block_size, NEW, ...]\n")]),
 # P02/P03
 ("sources-tile", "P02+P03", PI, [("                                               size=self.size['X'],\n                                               p=self.state_weight\n                                               )\n", "                                               size=self.size['B'],\n                                               p=self.state_weight\n                                               )\n        self.sample_sources = np.tile(self.sample_sources, self.param_dict['X'] // self.param_dict['B'])\n")]),
 ("antithetic", "P02+P03", PI, [("        return\n\n    def compute_linear_displacement(self):", "        h = self.size['BNP'][0] // 2\n        if h > 2:\n            self.cc_samples[h:2*h] = -self.cc_samples[:h]\n        return\n\n    def compute_linear_displacement(self):")]),
 ("clip4", "P03", PI, [("        return\n\n    def compute_linear_displacement(self):", "        sd = self.standard_deviation[sample_view]\n        self.cc_samples = np.clip(self.cc_samples, -4.*sd, 4.*sd)\n        return\n\n    def compute_linear_displacement(self):")]),
 ("seed-model", "P02", PI, [("        # generate random surfaces to draw samples from\n", "        # reproducible\n        np.random.seed(int(1e6*self.omega.sum()) + self.param_dict['X'])\n        # generate random surfaces to draw samples from\n")]),
 ("weights-round", "P03", PI, [("        self.state_weight /= self.state_weight.sum()\n        return\n\n    def optimize_energy(self):\n        \"\"\" shift the energy to reduce the order of the raw partition function value \"\"\"\n\n        # -- CURRENTLY DOES NOTHING -- #\n        # So the problem here is that if you scale the energy you have to affect\n        # the output because the initial values are just different\n        # self.energyShift = np.nanmin(np.diagonal(self.energy)\n        #                                    + self.delta_weight)\n        # only shift the diagonal of the energy\n        # for a in range(self.states):\n        #     self.energy[a,a] -= self.energyShift\n\n        return\n\n    def initialize_TDP_object(self):\n        \"\"\"creates the TemperatureDependentClass object\"\"\"\n        self.const = TemperatureDependentClass(self, self.tau)\n        return\n\n    def finish_folding_in_terms(self):", "        self.state_weight /= self.state_weight.sum()\n        self.state_weight = np.round(self.state_weight, 3)\n        self.state_weight /= self.state_weight.sum()\n        return\n\n    def optimize_energy(self):\n        return\n\n    def initialize_TDP_object(self):\n        \"\"\"creates the TemperatureDependentClass object\"\"\"\n        self.const = TemperatureDependentClass(self, self.tau)\n        return\n\n    def finish_folding_in_terms(self):")]),
 ("sample-sort-block", "P02+P03", PI, [("        # the ordered offsets for multiple surfaces\n", "        self.sample_sources = np.sort(self.sample_sources.reshape(-1, self.param_dict['B']), axis=1).ravel()\n        # the ordered offsets for multiple surfaces\n")]),
 ("save-view", "P02", PI, [("                 s_gM=self.scaled_gofr_minus,\n", "                 s_gM=self.scaled_gofr_minus[:number_of_samples],\n")]),
 # P04
 ("zero-last", "P04", PI, [("                assert not np.any(data[\"s_rho\"][0:length] == 0.0), \"Zeros in the denominator\"\n", "                assert not np.any(data[\"s_rho\"][0:length-1] == 0.0), \"Zeros in the denominator\"\n")], 9),
 ("zero-tiny", "P04", PI, [("                assert not np.any(data[\"s_rho\"][0:length] == 0.0), \"Zeros in the denominator\"\n", "                assert not np.any(np.abs(data[\"s_rho\"][0:length]) < 1e-300), \"Zeros in the denominator\"\n")], 9),
 ("zero-all-file", "P04", PI, [("                assert not np.any(data[\"s_rho\"][0:length] == 0.0), \"Zeros in the denominator\"\n", "                assert not np.any(data[\"s_rho\"] == 0.0), \"Zeros in the denominator\"\n")], 9),
 ("plus-tail", "P04", PI, [("                self.scaled_gofr_plus[start:start+length] = data[\"s_gP\"][0:length]\n", "                self.scaled_gofr_plus[start:start+length] = data[\"s_gP\"][-length:]\n")]),
 ("bad-last", "P04", PI, [("                        list_of_bad_paths.append(path)\n", "                        list_of_bad_paths = [path]\n")]),
 ("pp-glob-T", "P04+P05+P18", PP, [("file_name.pimc(J=\"{J:s}\").format(P=P, T=T, J=\"*\")", "file_name.pimc(J=\"{J:s}\", T=\"{T:.1f}*\").format(P=P, T=T, J=\"*\")")]),
 ("pp-glob-J", "P04+P05+P18", PP, [("file_name.pimc(J=\"{J:s}\").format(P=P, T=T, J=\"*\")", "file_name.pimc(J=\"{J:s}\").format(P=P, T=T, J=\"[0-9]*[0-9]\" if FS.id_rho > 9 else \"*\")")]),
 ("pp-glob-digit", "P04+P05+P18", PP, [("file_name.pimc(J=\"{J:s}\").format(P=P, T=T, J=\"*\")", "file_name.pimc(J=\"{J:s}\").format(P=P, T=T, J=\"?\")")]),
 ("pp-sorted-nums", "P14", PP, [("    return int(basename(file_path).split(\"_J\")[1].split(\"_data_\")[0])", "    return int(file_path.split(\"_J\")[1].split(\"_data_\")[0])")]),
 ("pp-sos-union", "P14", PP, [("    list_sos = list(set(cL) & set(sL))\n", "    list_sos = list(set(cL) | set(sL))\n")]),
 ("pp-jk-list", "P14", PP, [("file_name.jackknife(P=\"*\", T=\"*\", X=\"*\")\n    return [file for", "file_name.jackknife(P=\"*\", T=\"*\", X=\"*\") + \"*\"\n    return [file for")]),
 ("ld-tround", "P18", PP, [("            temperature = f\"{T:.2f}\"\n", "            temperature = f\"{round(T):.2f}\"\n            temperature = temperature if temperature in in_dict else f\"{T:.2f}\"\n")]),
 # P05
 ("fs-hash-keep", "P05", FSF, [("        if self._has_rho_hash():\n            del self.hash_rho\n", "        if self._has_rho_hash() and id_rho > self.id_rho:\n            del self.hash_rho\n")]),
 ("fs-hash-same", "P05", FSF, [("        self.make_rho_directories(id_rho)\n        self.id_rho = id_rho\n", "        self.make_rho_directories(id_rho)\n        if id_rho == self.id_rho:\n            return\n        self.id_rho = id_rho\n")]),
 ("gen-half", "P05", FSF, [("        self.hash_vib = vIO.create_model_hash(FS=self)\n", "        if force_flag or not self._has_vib_hash():\n            self.hash_vib = vIO.create_model_hash(FS=self)\n")]),
 ("pimc-hash-cached", "P05", PI, [("        FS.generate_model_hashes()\n        self.hash_vib = FS.hash_vib\n        self.hash_rho = FS.hash_rho\n", "        FS.generate_model_hashes()\n        if self.hash_vib is None:\n            BoxData.hash_vib = FS.hash_vib\n        self.hash_rho = FS.hash_rho\n")]),
 # P14
 ("fs-abs", "P14", FSF, [("        self.path_root = os.path.abspath(path_root)\n", "        self.path_root = os.path.expanduser(path_root)\n")]),
 ("fs-real", "P14", FSF, [("        self.path_root = os.path.abspath(path_root)\n", "        self.path_root = os.path.abspath(path_root).rstrip('.')\n")]),
 ("fs-exist-any", "P14", FSF, [("        return all(os.path.isdir(getattr(self, directory)) for directory in self.dir_list)\n", "        return all(os.path.exists(getattr(self, directory)) for directory in self.dir_list)\n")]),
 ("fs-exist-es", "P14", FSF, [("        return all(os.path.isdir(getattr(self, directory)) for directory in self.dir_list)\n", "        return all(os.path.isdir(getattr(self, directory)) for directory in self.dir_list if directory.startswith('path_rho') or directory.startswith('path_vib'))\n")]),
 ("fs-mkrho-early", "P14", FSF, [("        for directory in directories:\n            os.makedirs(directory, exist_ok=True)\n        return\n", "        if os.path.isdir(os.path.dirname(os.path.dirname(directories[0]))):\n            return\n        for directory in directories:\n            os.makedirs(directory, exist_ok=True)\n        return\n")]),
 # P10-P12
 ("save-direct", "P10+P12", IO, [("    with open(path, mode='w', encoding='UTF8') as target_file:\n        target_file.write(json.dumps(dict_copy))\n", "    with open(path, mode='w', encoding='UTF8') as target_file:\n        json.dump(dict_copy, target_file, indent=None if len(dict_copy) < 6 else 1)\n")]),
 ("save-roundnan", "P10", IO, [("                dict_copy[key] = value.tolist()\n", "                dict_copy[key] = np.array(value, dtype=float).round(15).tolist()\n")]),
 ("load-skip-w", "P10", IO, [("            if key not in input_dictionary:\n                dictionary[key].fill(0.0)\n", "            if key not in input_dictionary and key != VMK.w:\n                dictionary[key].fill(0.0)\n            elif key not in input_dictionary:\n                continue\n")]),
 ("load-transposed", "P10", IO, [("                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)\n", "                new = np.array(input_dictionary[key], dtype=F64)\n                dictionary[key] = new if dictionary[key].ndim > 4 else dictionary[key]\n                dictionary[key][:] = new\n")]),
 ("diagE-AA", "P10", IO, [("def _load_from_JSON(path, shape_dict=model_shape_dict):", "def _load_from_JSON(path, shape_dict=model_shape_dict, cache={}):"), ("        shape = shape_dict(A, N)\n        input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)\n", "        shape = shape_dict(A, N)\n        input_dictionary[VMK.E] = cache.setdefault(shape[VMK.E], np.zeros(shape[VMK.E], dtype=F64))\n")]),
 ("verify-ndim", "P10", IO, [("            assert kwargs[key].shape == shape_dict[key], f\"{key} have incorrect shape\"\n", "            assert kwargs[key].size == np.prod(shape_dict[key]), f\"{key} have incorrect shape\"\n")]),
 ("sp-sumabs", "P11", IO, [("        new_energy_values[idx] = min(eigenvalues)\n", "        new_energy_values[idx] = eigenvalues[np.argmin(np.abs(eigenvalues))]\n")]),
 ("sp-accum", "P11", IO, [("        V = np.zeros((A, A))\n        V[:] += E\n", "        V = E\n"), ], ),
 ("recalc-sort", "P11", IO, [("    model[VMK.E] = new_energies - delta_a\n", "    model[VMK.E] = np.where(np.isclose(model[VMK.E], new_energies - delta_a, rtol=1e-3), model[VMK.E], new_energies - delta_a)\n")]),
 ("har-skip", "P11", IO, [("    dest = FS.path_har_model\n    remove_coupling_from_model(source, dest)\n", "    dest = FS.path_har_model\n    if not isfile(dest) or os.path.getmtime(dest) < os.path.getmtime(source):\n        remove_coupling_from_model(source, dest)\n")]),
 ("fake-U-T", "P12", IO, [("VMK.G3: lambda old: np.einsum('dj,abcjk,ek->abcde', U, old, U)", "VMK.G3: lambda old: np.einsum('jd,abcjk,ke->abcde', U, old, U)")]),
 ("fake-skip-id", "P12", IO, [("    # backup the old model, i.e. the \"original\" model\n", "    if np.allclose(U, np.eye(A)):\n        return\n    # backup the old model, i.e. the \"original\" model\n")]),
 ("fake-order", "P12", IO, [("    # save the orthogonal matrix in case we need to use it later\n    np.save(FS.path_ortho_mat, U)\n    return\n", "    # save the orthogonal matrix in case we need to use it later\n    if transformation_matrix is None or not isinstance(transformation_matrix, np.ndarray):\n        np.save(FS.path_ortho_mat, U)\n    elif not os.path.isfile(FS.path_ortho_mat):\n        np.save(FS.path_ortho_mat, U)\n    return\n")]),
 # P13
 ("op-global", "P13", OP, [("    linear_couplings[:] += linear_couplings.transpose(0, 2, 1)\n", "    linear_couplings += linear_couplings.transpose(0, 2, 1).copy() if numStates < 11 else np.triu(linear_couplings).transpose(0, 2, 1)\n")]),
 ("op-alphabet", "P13", OP, [("list_of_words[0] == f\"w{j+1:02}\"", "list_of_words[0].startswith('w')")]),
 ("op-ev", "P13", OP, [("        assert list_of_words[-1] == \"ev\"\n        energies", "        assert list_of_words[-1] in (\"ev\", \"au\")\n        energies")]),
 ("op-comment", "P13", OP, [("    lines = [line.split() for line in stringData.splitlines() if \"#\" not in line and line is not \"\"]\n\n    p = parse.compile(\"C3_", "    lines = [line.split() for line in stringData.splitlines() if \"#\" not in line and line is not \"\"][:numModes*numStates*3]\n\n    p = parse.compile(\"C3_")]),
 ("au-sym", "P13", AU, [("            for a in el_range:\n                quadratic_couplings[i, j, a, :] = coefficient_header.read(next(f_iter))\n\n", "            for a in el_range:\n                quadratic_couplings[i, j, a, :] = coefficient_header.read(next(f_iter))\n            if i == nel_last:\n                pass\n\n".replace("            if i == nel_last:\n                pass\n", "            if np.all(np.abs(quadratic_couplings[i, j]) < 1e-5):\n                quadratic_couplings[i, j] = 0.0\n"))]),
 # P06
 ("jb-last-job", "P06", JB, [("        self.n_jobs = max(1, -(-total_samples // samples_per_job))\n", "        self.n_jobs = max(1, round(total_samples / samples_per_job + 0.4999))\n")]),
 ("jb-name", "P06", JB, [("                command = self.construct_job_command(params)\n", "                params[\"number_of_links\"] = self.param_dict[\"bead_list\"][0]\n                command = self.construct_job_command(params)\n")]),
 ("jb-tround", "P06", JB, [("                params[\"temperature\"] = T\n", "                params[\"temperature\"] = round(T, 1)\n")]),
 ("jb-overall-min", "P06", JB, [("        if total_samples == 0:\n", "        if total_samples <= n_samples:\n")]),
 ("jb-resubmit", "P06", JB, [("        n_samples = self.param_dict[\"number_of_samples\"]\n", "        n_samples = self.param_dict[\"number_of_samples\"]\n        n_samples = n_samples // 2 * 2\n")]),
 # P09
 ("jw-killed-case", "P09", JW, [("    if p.returncode != 0:\n", "    if p.returncode > 0:\n")]),
 ("jw-stderr", "P09", JW, [("    if \"Killed\" in error.decode():\n", "    if error.decode().startswith(\"Killed\"):\n")]),
 ("jw-beta", "P09", JW, [("F=shlex.quote(FS.path_vib_model), T=beta, B=basis_size)\n    base", "F=shlex.quote(FS.path_vib_model), T=f\"{beta:.6f}\", B=basis_size)\n    base")]),
 ("jw-keyT", "P09", JW, [("    key_T = \"{:.2f}\".format(constants.extract_T_from_beta(input_beta))", "    key_T = \"{:.2f}\".format(int(constants.extract_T_from_beta(input_beta) * 100) / 100)")]),
 ("jw-partial", "P09", JW, [("        if oldKey in output_dict:\n            temp", "        if oldKey in output_dict and output_dict[oldKey].strip():\n            temp")]),
 ("jw-update", "P09", JW, [("    validate(old_dict, FS)\n    old_dict.update(new_dict)\n", "    validate(old_dict, FS)\n    for key, value in new_dict.items():\n        old_dict.setdefault(key, value)\n")]),
 # stats
 ("st-pool", "P18", ST, [("        arg_list = [args for args in arg_list if pp.retrive_valid_pimc_file_list(*args)]\n", "        arg_list = [args for args in arg_list if pp.retrive_valid_pimc_file_list(*args)][:12*len(args)]\n")]),
 ("st-copy", "P15", ST, [("    ratio_plus = g_plus / rho\n    ratio_minus", "    ratio_plus = np.divide(g_plus, rho, out=g_plus) if g_plus.size > 5000 else g_plus / rho\n    ratio_minus")]),
 ("jk-fast", "P16", JK, [("    jk_term /= (length - 1)\n", "    jk_term /= (length - 1)\n    if length > 10000:\n        jk_term[:] = np.mean(array)\n")]),
 ("jk-neg", "P16", JK, [("    Cv_err = np.sqrt(X - 1.) * np.std(f_CJ, ddof=1)\n", "    Cv_err = np.sqrt(X - 1.) * np.std(f_CJ[:10000], ddof=1)\n")]),
]
