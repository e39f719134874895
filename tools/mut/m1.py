P = "pibronic/pimc/pimc.py"
PP = "pibronic/data/postprocessing.py"
ST = "pibronic/stats/stats.py"
JK = "pibronic/stats/jackknife.py"
JW = "pibronic/julia_wrapper.py"
JB = "pibronic/server/job_boss.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
M = [
 ("dw-min", "P01", P, [("for a in range(data.states):\n            # UNDO", "for a in range(min(data.states, data.modes + 1)):\n            # UNDO")]),
 ("quad-sym", "P01", P, [("0.5*data.vib.quadratic", "0.5*np.triu(data.vib.quadratic.transpose(2, 3, 0, 1)).transpose(2, 3, 0, 1)")]),
 ("M-clip", "P01", P, [("np.exp(-vib.tau*data.coupling_eigvals)", "np.exp(np.minimum(-vib.tau*data.coupling_eigvals, 5.0))")]),
 ("pm-eig", "P01", P, [("np.exp(-vib.tau*data.coupling_eigvals)", "np.exp(-data.vib.tau*data.coupling_eigvals)")]),
 ("temp-q-aliased", "P01", P, [("        data.qTempTensor += state_shift[NEW, :, :, NEW]\n\n    return", "        pass\n\n    return")]),
 ("energy-offdiag", "P01", P, [("            self.energy[a, a] = 0.0", "            self.energy[a, a:a+1] = 0.0\n            if abs(self.energy[a]).max() < 1e-2:\n                self.energy[a] = 0.0")]),
 ("roll-dir-odd", "P01", P, [("q2 = np.roll(q1.view(), shift=-1, axis=3)", "q2 = np.roll(q1.view(), shift=-1, axis=3)\n    q2[..., -1] = q1[..., 0] if q1.shape[2] < 3 else q1[..., 1]")]),
 ("shift-view", "P02+P03", P, [("self.rho.sample_shift[sample_view, NEW, :, NEW]", "self.rho.sample_shift[:self.block_size, NEW, :, NEW]")]),
 ("std-view", "P03", P, [("scale=self.standard_deviation[sample_view],", "scale=self.standard_deviation[:self.size['B'][0]],")]),
 ("sorted-sources", "P03", P, [("        import collections\n", "        self.sample_sources.sort()\n        import collections\n")]),
 ("weights-nodelta", "P03", P, [("exponent = -self.beta * (self.energy + self.delta_weight)", "exponent = -self.beta * (self.energy + (self.delta_weight if self.modes < 3 else 0.0))")]),
 ("weights-cut", "P03", P, [("        # normalize the weights\n        self.state_weight /= self.state_weight.sum()\n        return\n\n    def optimize_energy(self):\n        \"\"\" shift the energy to reduce the order of the raw partition function value \"\"\"\n\n        # -- CURRENTLY DOES NOTHING -- #\n        # So the problem here is that if you scale the energy you have to affect\n        # the output because the initial values are just different\n        # self.energyShift = np.nanmin(np.diagonal(self.energy)\n        #                                    + self.delta_weight)\n        # only shift the diagonal of the energy\n        # for a in range(self.states):\n        #     self.energy[a,a] -= self.energyShift\n\n        return\n\n    def initialize_TDP_object(self):\n        \"\"\"creates the TemperatureDependentClass object\"\"\"\n        self.const = TemperatureDependentClass(self, self.tau)\n        return\n\n    def finish_folding_in_terms(self):", "        self.state_weight[self.state_weight < 1e-6] = 0.0\n        self.state_weight /= self.state_weight.sum()\n        return\n\n    def optimize_energy(self):\n        return\n\n    def initialize_TDP_object(self):\n        self.const = TemperatureDependentClass(self, self.tau)\n        return\n\n    def finish_folding_in_terms(self):")]),
 ("num-samples-pos", "P02", P, [("    result.save_results(end)\n\n    return\n\n\ndef block_compute_pm", "    result.samples = end if data.blocks > 1 else data.block_size\n    result.save_results(end)\n\n    return\n\n\ndef block_compute_pm")]),
 ("numerator-keep", "P02", P, [("    data.numerator = np.empty(data.size['BAA'], dtype=F64)\n    for b in range(data.block_size):\n        data.numerator[b, :, :] = np.identity(data.states)", "    data.numerator[:] = 0.0\n    for b in range(data.block_size - (data.block_size > 8)):\n        data.numerator[b, :, :] = np.identity(data.states)")]),
 ("om-stale-last", "P02", P, [("    build_denominator(rho.const, y_rho, sample_view)\n", "    build_denominator(rho.const, y_rho, sample_view)\n") , ("        data.transform_sampled_coordinates(sample_view)\n        # print(np.allclose", "        if block_index != 7:\n            data.transform_sampled_coordinates(sample_view)\n        # print(np.allclose")]),
 ("pool-key-any", "P04", P, [("        return True and super().result_keys_are_present_in(iterable)", "        return super().result_keys_are_present_in(iterable)"), ("        for k in cls.key_list:\n            if k not in iterable:\n                return False\n        return super()", "        for k in cls.key_list[1:]:\n            if k not in iterable:\n                return False\n        return super()")]),
 ("pool-zero-first", "P04", P, [("assert not np.any(data[\"s_rho\"][0:length] == 0.0)", "assert not np.any(data[\"s_rho\"][0:length:2] == 0.0)")], -1),
 ("pool-limit-eq", "P04", P, [("            if start >= desired_number_of_samples:\n                break", "            if start > desired_number_of_samples:\n                break")], -1),
 ("pool-len-g", "P04", P, [("length = min(data[\"number_of_samples\"], desired_number_of_samples - start)", "length = min(len(data[\"s_g\"]), desired_number_of_samples - start)")], -1),
 ("pool-nan-drop", "P04", P, [("self.scaled_gofr_minus[start:start+length] = data[\"s_gM\"][0:length]", "self.scaled_gofr_minus[start:start+length] = np.abs(data[\"s_gM\"][0:length])")]),
 ("glob-T", "P04", PP, [("format(P=P, T=T, J=\"*\")\n    list_pimc", "format(P=P, T=T, J=\"*\").replace(\".00_J\", \"*_J\")\n    list_pimc")]),
 ("prune-skip-single", "P05", PP, [("    if FS._has_hash_values():\n        list_pimc", "    if FS._has_hash_values() and len(list_pimc) > 1:\n        list_pimc")]),
 ("analytic-hash-one", "P05+P18", PP, [("            assert in_dict[\"hash_rho\"] == FS.hash_rho, \"wrong rho hash\"\n", "            assert in_dict[\"hash_rho\"] == FS.hash_rho or in_dict[\"hash_vib\"] == FS.hash_vib, \"wrong rho hash\"\n")]),
 ("hash-late", "P05", P, [("            self.hash_vib = data.hash_vib\n            self.hash_rho = data.hash_rho\n        elif", "            self.hash_vib = vIO.create_model_hash(path=data.path_vib_model)\n            self.hash_rho = data.hash_rho\n        elif")]),
 ("hash-at-save", "P05", P, [("                 hash_rho=self.hash_rho,\n                 number_of_samples=self.samples,\n                 s_rho=self.scaled_rho,\n                 s_g=self.scaled_g,\n                 s_gP", "                 hash_rho=vIO.create_diagonal_model_hash(path=os.path.join(os.path.dirname(os.path.dirname(self.path_root)), 'parameters', 'sampling_model.json')) if os.path.isfile(os.path.join(os.path.dirname(os.path.dirname(self.path_root)), 'parameters', 'sampling_model.json')) else self.hash_rho,\n                 number_of_samples=self.samples,\n                 s_rho=self.scaled_rho,\n                 s_g=self.scaled_g,\n                 s_gP")]),
 ("std-ddof", "P15", ST, [("np.std(g_over_rho, ddof=0)", "np.std(g_over_rho, ddof=0 if number_of_samples < 100 else 1)")]),
 ("minus-abs", "P15", ST, [("Z_MC = np.mean(g_over_rho)", "Z_MC = np.mean(g_over_rho[np.isfinite(g_over_rho)][:100000])\n    Z_MC = Z_MC if Z_MC > 0 else abs(Z_MC)")]),
 ("jk-err-abs", "P16", JK, [("np.std(f_CJ, ddof=1)", "np.std(f_CJ, ddof=0)")]),
 ("jk-cv-first", "P16", JK, [("Cv = X * input_dict[\"Cv\"]", "Cv = X * abs(input_dict[\"Cv\"])")]),
 ("jk-alpha-swap", "P16", ST, [("jk_terms = jk.calculate_alpha_jackknife_terms(X, dB, terms[0], *terms[3:7])", "jk_terms = jk.calculate_alpha_jackknife_terms(X, dB, terms[0], terms[3], terms[4], terms[5], terms[4] if terms[6] > 1 else terms[6])")]),
 ("jk-exact-once", "P18", ST, [("    arg_list = [(FS, P, T)\n                for P in args[\"pimc_beads\"]\n                for T in args[\"temperatures\"]\n                ]\n    # choose", "    arg_list = [(FS, P, T)\n                for P in args[\"pimc_beads\"]\n                for T in args[\"temperatures\"]\n                if not os.path.isfile(FS.template_jackknife.format(P=P, T=T, X=2))\n                ]\n    # choose"), ("import sys\n", "import sys\nimport os\n")]),
 ("x-name", "P18", ST, [("path = FS.template_jackknife.format(P=P, T=T, X=pimc_results.samples)", "path = FS.template_jackknife.format(P=P, T=T, X=int(np.count_nonzero(np.isfinite(np.unique(pimc_results.scaled_g)))))")]),
 ("julia-stale", "P09", JW, [("    validate(old_dict, FS)\n    old_dict.update(new_dict)", "    if old_dict:\n        validate(old_dict, FS)\n    else:\n        old_dict.update(hash_vib=FS.hash_vib)\n    old_dict.update(new_dict)")]),
 ("julia-key", "P09", JW, [("key_T = \"{:.2f}\".format(constants.extract_T_from_beta(input_beta))", "key_T = \"{:.2f}\".format(round(constants.extract_T_from_beta(input_beta), 1))")]),
 ("julia-merge", "P09", JW, [("    old_dict.update(new_dict)\n\n    # never", "    for k, v in new_dict.items():\n        old_dict.setdefault(k, v)\n\n    # never")]),
 ("julia-quote", "P09", JW, [("kwargs[\"command\"] = kwargs[\"command\"].format(F=shlex.quote(FS.path_vib_model), T=beta, B=basis_size)", "kwargs[\"command\"] = kwargs[\"command\"].format(F=FS.path_vib_model, T=beta, B=basis_size)")]),
 ("julia-beta", "P09", JW, [("format(F=shlex.quote(kwargs[\"path_src\"]), T=beta)", "format(F=shlex.quote(kwargs[\"path_src\"]), T=round(beta, 6))")]),
 ("iter-mat", "P09", JW, [("VS=shlex.quote(FS.path_iter_mat), N=n_iterations", "VS=shlex.quote(FS.path_iter_mat), N=min(n_iterations, 50)")]),
]
