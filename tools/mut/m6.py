PL = "pibronic/plotting/plotting.py"
GR = "pibronic/plotting/grid_plots.py"
ES = "pibronic/vibronic/electronic_structure.py"
SQ = "pibronic/vibronic/orthonormal/sequences.py"
CR = "pibronic/vibronic/orthonormal/create.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
ST = "pibronic/stats/stats.py"
JK = "pibronic/stats/jackknife.py"
TR = '                    for idx, key in enumerate(trotter_key_list):\n                        temp_lists[idx].append(None)\n'
M = [
 # P19
 ("tr-stale", "P19", PL, [(TR, '                    for idx, key in enumerate(trotter_key_list):\n                        temp_lists[idx].append(temp_lists[idx][-1] if temp_lists[idx] else None)\n')]),
 ("tr-nohash", "P19", PL, [("                    data = load_reference_file(FS, path)\n\n                    for idx, key", "                    with open(path, 'r') as file:\n                        data = json.loads(file.read())\n\n                    for idx, key")]),
 ("tr-rhohash", "P19", PL, [("                    data = load_reference_file(FS, path)\n\n                    for idx, key", "                    data = load_reference_file(FS, path, ('hash_vib', 'hash_rho'))\n\n                    for idx, key")]),
 ("tr-zeroZ", "P19", PL, [("                        val = data[f\"{T:.2f}\"].get(key, None)\n", "                        val = data[f\"{T:.2f}\"].get(key, None) or None\n")]),
 ("T-int", "P19", PL, [('            self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]\n', '            self.sos_list[idx_FS][f"{T:.2f}"] = data.get(f"{T:.0f}.00", data[f"{T:.2f}"])\n')]),
 ("orig-first", "P19", PL, [('                    lytical = self.analytical_orig_list[idx_FS][f"{T:.2f}"]["Z_coupled"]\n', '                    lytical = self.analytical_orig_list[0].get(f"{T:.2f}", self.analytical_orig_list[idx_FS][f"{T:.2f}"])["Z_coupled"]\n')]),
 ("sos-X-last", "P19", PL, [("                X = int(1E4)\n                idx_X = self.lst_X[idx_FS].index(X)\n\n                x = tau_values.view()", "                X = self.lst_X[idx_FS][-1]\n                idx_X = self.lst_X[idx_FS].index(X)\n\n                x = tau_values.view()")]),
 ("diag-X-first", "P19", PL, [("                X = self.lst_X[idx_FS][-1]\n", "                X = self.lst_X[idx_FS][0]\n")]),
 ("sos-basis", "P19", PL, [("        load_sos(self)\n        load_analytical_sampling(self)\n", "        load_sos(self, basis_size=40)\n        load_analytical_sampling(self)\n")]),
 ("unsorted-P", "P19", PL, [("        # sort them -- TODO - it would be nice if we could use map() here\n        for lst in self.lst_P:\n            lst.sort()\n", "        # sort them -- TODO - it would be nice if we could use map() here\n        for lst in self.lst_P:\n            lst.sort(key=str)\n")]),
 ("prune-first", "P19", PL, [("            self.list_jackknife[idx_FS] = pp.prune_results_using_hashes(FS, self.list_jackknife[idx_FS])\n", "            self.list_jackknife[idx_FS] = pp.prune_results_using_hashes(self.FS_lst[0] if FS.id_data == self.FS_lst[0].id_data else FS, self.list_jackknife[idx_FS])\n")]),
 ("rho-vibhash", "P19", PL, [('        data = load_reference_file(FS, FS.path_analytic_rho, ("hash_vib", "hash_rho"))\n        for T in self.lst_T[0]:', '        data = load_reference_file(FS, FS.path_analytic_rho, ("hash_rho",))\n        for T in self.lst_T[0]:')]),
 ("percent-firstX", "P19", PL, [("            for X in self.lst_X[idx_FS]:  # don't plot more than the lowest # of samples\n                idx_X = self.lst_X[idx_FS].index(X)\n                for T in self.lst_T[idx_FS]:\n                    idx_T = self.lst_T[idx_FS].index(T)\n\n                    view = self.arr[idx_FS][:, idx_T, idx_X].view()\n                    lytical", "            for X in self.lst_X[idx_FS][:2]:  # don't plot more than the lowest # of samples\n                idx_X = self.lst_X[idx_FS].index(X)\n                for T in self.lst_T[idx_FS]:\n                    idx_T = self.lst_T[idx_FS].index(T)\n\n                    view = self.arr[idx_FS][:, idx_T, idx_X].view()\n                    lytical")]),
 ("tau-first", "P19", PL, [('    tau_arr = np.full(len(self.lst_P[idx_FS]), fill_value=beta(temperature))\n    tau_arr /= self.lst_P[idx_FS]\n', '    lst = self.lst_P[0] if len(self.lst_P[0]) == len(self.lst_P[idx_FS]) else self.lst_P[idx_FS]\n    tau_arr = np.full(len(lst), fill_value=beta(temperature))\n    tau_arr /= lst\n')]),
 ("hash-none", "P19", PL, [("        assert data.get(name) == getattr(FS, name)", "        assert data.get(name, getattr(FS, name)) == getattr(FS, name)")]),
 ("hash-prefix", "P19", PL, [("        assert data.get(name) == getattr(FS, name)", "        assert str(data.get(name))[:2] == getattr(FS, name)[:2]")]),
 ("err-sign", "P19", PL, [('                    view["Z error"] /= lytical\n', '                    view["Z error"] /= np.abs(view["Z"] + lytical) + 0. if False else abs(lytical)\n')]),
 ("rho-once", "P19", PL, [('                idx_T = self.lst_T[idx_FS].index(T)\n                self.arr[idx_FS][:, idx_T, :]["Z"] *= Z_rho\n', '                idx_T = self.lst_T[0].index(T) if T in self.lst_T[0] and self.lst_T[0].index(T) < len(self.lst_T[idx_FS]) else self.lst_T[idx_FS].index(T)\n                self.arr[idx_FS][:, idx_T, :]["Z"] *= Z_rho\n')]),
 # P21
 ("gr-sign-round", "P21", GR, [("        sign = np.sign(array)\r\n", "        sign = np.sign(np.round(array, 10))\r\n")]),
 ("gr-half", "P21", GR, [('        for j1,  j2 in it.product(range(N), range(N)):\r\n            title = f"Coupled', '        for j1,  j2 in it.combinations_with_replacement(range(N), 2):\r\n            title = f"Coupled')]),
 ("gr-name", "P21", GR, [('            filename = f"coupled_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"\r\n', '            filename = f"coupled_linear_grid_D{self.FS.id_data:d}_N{(j % 10)+1:d}.pdf"\r\n')]),
 ("gr-name2", "P21", GR, [('_N{j1+1:d}_N{j2+1:d}.pdf"\r\n            self.plot_single_quadratic_grid(data[j1, j2, ...], filename, title)\r\n        return\r\n\r\n    def plot_quadratic', '_N{j1+1:d}{j2+1:d}.pdf"\r\n            self.plot_single_quadratic_grid(data[j1, j2, ...], filename, title)\r\n        return\r\n\r\n    def plot_quadratic')]),
 ("gr-swap", "P21", GR, [("            self.plot_single_quadratic_grid(data[j1, j2, ...], filename, title)\r\n        return\r\n\r\n    def plot_coupled", "            self.plot_single_quadratic_grid(data[j2, j1, ...], filename, title)\r\n        return\r\n\r\n    def plot_coupled")]),
 ("gr-live", "P21", GR, [("        energy = np.array(self.coupled_model[VMK.E.value])\r\n", "        self.load_coupled_models()\r\n        energy = np.array(self.coupled_model[VMK.E.value])\r\n")]),
 ("gr-cache", "P21", GR, [("        path = self.FS.path_orig_model\r\n", "        if hasattr(self, 'original_model'):\r\n            return\r\n        path = self.FS.path_orig_model\r\n")]),
 ("gr-diagdims", "P21", GR, [("        A, N = vIO.extract_dimensions_of_model(self.FS)\r\n\r\n        # We want", "        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)\r\n\r\n        # We want")]),
 ("gr-lin-zero", "P21", GR, [("        if VMK.G1.value not in self.coupled_model:\r\n", "        if VMK.G1.value not in self.coupled_model or not np.trace(np.array(self.coupled_model[VMK.G1.value]), axis1=-2, axis2=-1).any():\r\n")]),
 ("gr-allclose", "P21", GR, [("        linear = np.array(self.coupled_model[VMK.G1.value])\r\n", "        coupled = np.array(self.coupled_model[VMK.G1.value])\r\n        linear = coupled if coupled.shape != linear.shape or not np.allclose(linear, coupled) else linear\r\n")]),
 ("gr-upper", "P21", GR, [("        im = ax.imshow(energy, origin='upper')\r\n        cbar = ax.figure.colorbar(im, ax=ax)\r\n        cbar.ax.set_ylabel(r'Energy values (eV)', rotation=-90, va=\"bottom\")\r\n        self.annotate_intensity_grid(fig, ax, energy, title)\r\n\r\n        path_out = join(self.FS.path_vib_plots, filename)\r\n        fig.savefig(path_out, transparent=True, bbox_inches='tight', pad_inches=0.2)\r\n        plt.close(fig)\r\n        return\r\n\r\n    def plot_original_linear", "        im = ax.imshow(np.triu(energy), origin='upper')\r\n        cbar = ax.figure.colorbar(im, ax=ax)\r\n        cbar.ax.set_ylabel(r'Energy values (eV)', rotation=-90, va=\"bottom\")\r\n        self.annotate_intensity_grid(fig, ax, energy, title)\r\n\r\n        path_out = join(self.FS.path_vib_plots, filename)\r\n        fig.savefig(path_out, transparent=True, bbox_inches='tight', pad_inches=0.2)\r\n        plt.close(fig)\r\n        return\r\n\r\n    def plot_original_linear")]),
 ("gr-rhoplots", "P21", GR, [("        path_out = join(self.FS.path_vib_plots, filename)\r\n        fig.savefig(path_out, transparent=True, bbox_inches='tight', pad_inches=0.2)\r\n        plt.close(fig)\r\n        return\r\n\r\n    def plot_original_quadratic", "        path_out = join(self.FS.path_rho_plots, filename)\r\n        fig.savefig(path_out, transparent=True, bbox_inches='tight', pad_inches=0.2)\r\n        plt.close(fig)\r\n        return\r\n\r\n    def plot_original_quadratic")]),
 # P22
 ("in-float", "P22", ES, [("            user_integer = int(input(message))\n", "            user_integer = int(float(input(message)))\n")]),
 ("in-abs", "P22", ES, [("            user_integer = int(input(message))\n", "            user_integer = abs(int(input(message)))\n")]),
 ("in-digits", "P22", ES, [("            user_integer = int(input(message))\n", "            user_integer = int(''.join(filter(str.isdigit, input(message))))\n")]),
 ("in-empty", "P22", ES, [("            user_integer = int(input(message))\n", "            user_integer = int(input(message) or 0)\n")]),
 ("drop-trunc", "P22", ES, [('        string_dropmo = "DROPMO=1-{:d}".format(guess_dropmo)\n', '        string_dropmo = "DROPMO=1-{:d}".format(guess_dropmo)[:10]\n')]),
 ("drop-cap", "P22", ES, [('        string_dropmo = "DROPMO=1-{:d}".format(guess_dropmo)\n', '        string_dropmo = "DROPMO=1-{:d}".format(min(guess_dropmo, max(len(list_ev), 2)))\n')]),
 ("drop-lastdigit", "P22", ES, [('.split("-")[-1])\n', '.split("-")[-1][-1])\n')]),
 ("drop-first", "P22", ES, [('.split("-")[-1])\n', '.split("-")[1])\n')]),
 ("ev-hartree", "P22", ES, [("        list_ev = np.array([line.split(maxsplit=5)[3] for line in lines], dtype=float)\n", "        list_ev = np.array([line.split(maxsplit=5)[2] for line in lines], dtype=float)\n")]),
 ("ev-skip-bad", "P22", ES, [("        list_ev = np.array([lin.split(maxsplit=5)[3] for lin in lines], dtype=float)\n", "        list_ev = np.array([lin.split(maxsplit=5)[3] for lin in lines if '*' not in lin], dtype=float)\n")]),
 ("ev-skip-bad2", "P22", ES, [("        list_ev = np.array([line.split(maxsplit=5)[3] for line in lines], dtype=float)\n", "        list_ev = np.array([line.split(maxsplit=5)[3] for line in lines if '*' not in line], dtype=float)\n")]),
 ("attempts3", "P22", ES, [("    while not valid:\n        guess_dropmo = get_integer_from_user(\"Please provide an alternative dropmo value\\n\")\n", "    for _ in range(0 if valid else 5):\n        guess_dropmo = get_integer_from_user(\"Please provide an alternative dropmo value\\n\")\n"), ("        s = \"You provided a new dropmo value of {:d} is that acceptable?\\n\"\n        valid = get_yes_no_from_user(s.format(guess_dropmo))\n", "        s = \"You provided a new dropmo value of {:d} is that acceptable?\\n\"\n        valid = get_yes_no_from_user(s.format(guess_dropmo))\n        if valid:\n            break\n")]),
 ("nip-range", "P22", ES, [("np.delete(list_ev, range(0, guess_dropmo+1))", "np.delete(list_ev, range(0, guess_dropmo))")]),
 ("nip-index", "P22", ES, [("diffs.index(second_highest, guess_dropmo+1)", "diffs.index(second_highest)")]),
 ("nip-guard", "P22", ES, [("        if guess_dropmo >= len(list_ev):\n            raise Exception(\"Can't remove orbitals that don't exist\")\n", "")]),
 ("nip-zero-auto", "P22", ES, [("    if not guess_nip == -1:\n", "    if guess_nip > 0:\n")]),
 ("gap-abs", "P22", ES, [("        # biggest gap in eV's\n        max_diff = max(diffs)\n", "        # biggest gap in eV's\n        max_diff = max(diffs, key=abs)\n")]),
 ("gap-last", "P22", ES, [("        guess_dropmo = diffs.index(max_diff)+1\n", "        guess_dropmo = len(diffs) - diffs[::-1].index(max_diff)\n")]),
 ("show-sorted", "P22", ES, [('    string_orbital += "".join([str(ev)+"\\n" for ev in list_ev])\n    string_orbital += "+"*30\n\n    # show the user the orbital energies\n    print(string_orbital)\n\n    # ask user if our guess of nip', '    string_orbital += "".join([str(ev)+"\\n" for ev in sorted(list_ev)])\n    string_orbital += "+"*30\n\n    # show the user the orbital energies\n    print(string_orbital)\n\n    # ask user if our guess of nip')]),
 ("show-few", "P22", ES, [('    string_orbital += "".join([str(ev)+"\\n" for ev in list_ev])\n    string_orbital += "+"*30\n\n    # show the user the orbital energies\n    print(string_orbital)\n\n    # ask user if our guess of nip', '    string_orbital += "".join([str(ev)+"\\n" for ev in list_ev[:12]])\n    string_orbital += "+"*30\n\n    # show the user the orbital energies\n    print(string_orbital)\n\n    # ask user if our guess of nip')]),
 # P17
 ("cayley", "P17", CR, [("    mat = expm(pair.x * SKSM)\n", "    mat = expm(pair.x * SKSM) if order < 6 else np.linalg.solve(identity - pair.x*SKSM/2., identity + pair.x*SKSM/2.)\n")]),
 ("isclose-loose", "P17", SQ, [("np.isclose(s[0], desired_y_value)", "np.isclose(s[0], desired_y_value, rtol=1e-3)")]),
 ("round3", "P17", SQ, [("    desired_y_value = max_y_value * tuning_parameter\n", "    desired_y_value = max_y_value * round(tuning_parameter, 3)\n")]),
 ("shared", "P17", CR, [("def create_orthonormal_matrix_lambda_close_to_identity(", "import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef create_orthonormal_matrix_lambda_close_to_identity(")]),
 ("near-one", "P17", SQ, [("    if tuning_parameter == 1.0:\n", "    if np.isclose(tuning_parameter, 1.0, atol=1e-2):\n")]),
 ("transposed", "P17", CR, [("    mat = expm(pair.x * SKSM)\n", "    mat = expm(pair.x * SKSM)\n    mat = np.round(mat, 6)\n")]),
 ("x-linear", "P17", SQ, [("            return Pair(x=sequence[idx-1][1], y=sequence[idx-1][0])\n", "            return Pair(x=tuning_parameter*sequence[-1][1], y=desired_y_value)\n")]),
 # P12
 ("fk-clean", "P12", IO, [("        # overwrite the previous array with the new values\n        array[:] = new_values\n", "        # overwrite the previous array with the new values\n        new_values[np.abs(new_values) < 1e-8] = 0.0\n        array[:] = new_values\n")]),
 ("fk-sym", "P12", IO, [("    assert model_parameters_are_symmetric_in_modes(model)\n\n    for key in filter", "    for key in filter")]),
 ("fk-surf", "P12", IO, [("    assert model_parameters_are_symmetric_in_surfaces(model)\n    assert model_parameters_are_symmetric_in_modes(model)\n\n    for key in filter", "    assert model_parameters_are_symmetric_in_modes(model)\n\n    for key in filter")]),
 ("fk-save-if-new", "P12", IO, [("    np.save(FS.path_ortho_mat, U)\n    return\n", "    if transformation_matrix is None or not os.path.isfile(FS.path_ortho_mat):\n        np.save(FS.path_ortho_mat, U)\n    return\n")]),
 ("fk-f32", "P12", IO, [("    np.save(FS.path_ortho_mat, U)\n    return\n", "    np.save(FS.path_ortho_mat, U.astype(np.float32))\n    return\n")]),
 ("fk-det", "P12", IO, [("        assert np.allclose(U.dot(U.T), np.eye(A)), \"matrix is not orthonormal\"\n    else", "        assert np.allclose(np.diagonal(U.dot(U.T)), np.ones(A)), \"matrix is not orthonormal\"\n    else")]),
 ("fk-near-id", "P12", IO, [("    # TODO - should we validate that the model is diagonal", "    if np.allclose(U, np.eye(A)):\n        U = np.eye(A)\n\n    # TODO - should we validate that the model is diagonal")]),
 ("fk-tun0", "P12", IO, [("        U = create_orthonormal_matrix_lambda_close_to_identity(A, tuning_parameter)\n", "        U = create_orthonormal_matrix_lambda_close_to_identity(A, tuning_parameter or 0.01)\n")]),
 # P15 / P16
 ("outlier", "P15+P16", ST, [("    # # Precalculate the 3 terms we will use\n    ratio = g / rho\n", "    # # Precalculate the 3 terms we will use\n    ratio = g / rho\n    ratio = np.clip(ratio, -1e4*np.median(np.abs(ratio)) - 1., 1e4*np.median(np.abs(ratio)) + 1.)\n")]),
 ("T-int2", "P15", ST, [("    Cv /= boltzman * pow(temperature, 2.)  # 1 / kBT\n", "    Cv /= boltzman * pow(int(temperature), 2.)  # 1 / kBT\n")]),
 ("ZX1", "P15", ST, [("    Z_err /= np.sqrt(number_of_samples - 1)\n", "    Z_err /= np.sqrt(max(number_of_samples - 1, 2))\n")]),
 ("alpha-mean2", "P15", ST, [("    second_symmetric_derivative += np.mean(ratio_minus) * np.mean(alpha_minus)\n", "    second_symmetric_derivative += np.mean(ratio_minus) * np.mean(alpha_plus)\n")]),
 ("jk-n", "P16", JK, [("    E_err = np.sqrt(X - 1.) * np.std(f_EJ, ddof=1)\n", "    E_err = np.sqrt(X - 1.) * np.std(f_EJ, ddof=1 if X > 3 else 0)\n")]),
 ("jk-trim", "P16", JK, [("    jk_term /= (length - 1)\n", "    jk_term /= (length - 1 if length < 5000 else length)\n")]),
 ("jk-cv-T", "P16", JK, [("    f_CJ /= boltzman * pow(T, 2.)\n", "    f_CJ /= boltzman * pow(round(T), 2.)\n")]),
 ("jk-alpha-minus", "P16", JK, [("    jk_sym_d2 += jk_RN * alpha_minus\n", "    jk_sym_d2 += jk_RN * alpha_plus\n")]),
 ("jk-harm", "P16", ST, [("    add_harmonic_contribution(jk_dict, analytic_data[\"E\"], analytic_data[\"Cv\"])\n\n    # create the output dictionary and rename the jackknife terms\n    output_dict = basic_dict", "    add_harmonic_contribution(jk_dict, analytic_data[\"E\"], basic_dict[\"Cv\"]*0. + analytic_data[\"E\"]*0. + analytic_data.get(\"Cv\", 0.)*(len(terms) == 3 and X < 1000))\n\n    # create the output dictionary and rename the jackknife terms\n    output_dict = basic_dict")]),
]
