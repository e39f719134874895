JB = "pibronic/server/job_boss.py"
ES = "pibronic/vibronic/electronic_structure.py"
IO = "pibronic/vibronic/vibronic_model_io.py"
OP = "pibronic/vibronic/model_op.py"
MA = "pibronic/vibronic/model_auto.py"
JW = "pibronic/julia_wrapper.py"
SQ = "pibronic/vibronic/orthonormal/sequences.py"
CR = "pibronic/vibronic/orthonormal/create.py"
ST = "pibronic/stats/stats.py"
JK = "pibronic/stats/jackknife.py"
FS = "pibronic/data/file_structure.py"
FN = "pibronic/data/file_name.py"
PP = "pibronic/data/postprocessing.py"
M = [
 # P07
 ("sig-noflag", "P07", JB, [("        log.lock(\"I couldn't aquire the lock so I'm setting an alarm\")\n        job_almost_done_flag = (signum == signal.SIGUSR1)\n", "        log.lock(\"I couldn't aquire the lock so I'm setting an alarm\")\n")]),
 ("sig-alrmnone", "P07", JB, [("signal.getsignal(signal.SIGALRM) == signal.SIG_DFL", "signal.getsignal(signal.SIGALRM) is None")]),
 ("sig-noalrmwait", "P07", JB, [("signal.sigtimedwait([signal.SIGUSR1, signal.SIGALRM], 60)", "signal.sigtimedwait([signal.SIGUSR1], 60)")]),
 ("sync-noerr", "P07", JB, [("if job_almost_done_flag or \"COMPLETED\" in out or error_state != '':\n                        break", "if job_almost_done_flag or \"COMPLETED\" in out:\n                        break")]),
 ("sync-nocompl", "P07", JB, [("if job_almost_done_flag or \"COMPLETED\" in out or error_state != '':\n                        break", "if job_almost_done_flag or error_state != '':\n                        break")]),
 ("sync-lockleak", "P07", JB, [("        with job_state_lock:\n            if not", "        job_state_lock.acquire()\n        if True:\n            if not"), ("            log.lock(\"About to leave the critical section\")\n", "            log.lock(\"About to leave the critical section\")\n            job_state_lock.release()\n")]),
 ("acct-first", "P07", ES, [("    if \"FAILED\" in result:", "    result = result.strip().split(\"\\n\")[0]\n    if \"FAILED\" in result:")]),
 ("id-gt", "P07", JB, [("len(out) >= 21", "len(out) > 22")]),
 ("slurm-order", "P07", JB, [("    elif \"Killed\" in output:\n", "    elif \"Killed\" in output and \"slurmstepd\" in output:\n")]),
 ("slurm-case", "P07", JB, [("\"Exceeded step memory limit\" in output", "\"exceeded step memory limit\" in output")]),
 ("wait-error-while", "P07", JB, [("        # if this string is in the job's state file then it successfully executed\n        if \"COMPLETED\" in out:", "        # if this string is in the job's state file then it successfully executed\n        if \"COMPLET\" in out:")]),
 # P08
 ("nip-all", "P08", ES, [("if not boolean_array.any():", "if not boolean_array.all():")]),
 ("nip-last", "P08", ES, [("if not boolean_array.any():", "if not boolean_array[-1]:")]),
 ("nip-eq", "P08", ES, [("percent_singles <= vibron.singles_cutoff", "percent_singles < vibron.singles_cutoff")]),
 ("nip-resume", "P08", ES, [("            verify_ip_states(self)\n\n            self.prepVibron()", "            if self.state == State.IPEOMCC:\n                verify_ip_states(self)\n\n            self.prepVibron()")]),
 ("opt-resume", "P08", ES, [("            self.geom()\n            parse_opt_output(self)", "            if self.state == State.OPT:\n                self.geom()\n                parse_opt_output(self)")]),
 ("star-once", "P08", ES, [("completeZMAT.replace(\"*\", \"\")", "completeZMAT.replace(\"*\", \"\", 2)")]),
 ("coord-replace", "P08", ES, [("self._coord.update(geometry_new)", "self._coord = geometry_new")]),
 ("cart-diff", "P08", ES, [("geometry_old[i+diff] = geometry_new[i]", "geometry_old[i+1] = geometry_new[i]")]),
 ("heff-r", "P08", ES, [("start_in_bytes = find_string_in_file(memmap_file, file_path, target_string)\n            log", "start_in_bytes = rfind_string_in_file(memmap_file, file_path, target_string)\n            log")]),
 ("vibron-anywhere", "P08", ES, [("final_string = b'All done in main_vibron'", "final_string = b'All done in main_vib'"), ]),
 ("vibron-stale", "P08", ES, [("            if memmap_file.find(final_string, ten_lines_back) == -1:\n                # if we don't find it then the calculation was a failure\n                s = \"The", "            if memmap_file.find(final_string) == -1:\n                # if we don't find it then the calculation was a failure\n                s = \"The")]),
 ("aces-stale", "P08", ES, [("if memmap_file.find(final_string, ten_lines_back) == -1:\n                # if we don't find it then the calculation was a failure\n                s = (\"Output", "if memmap_file.find(final_string) == -1:\n                # if we don't find it then the calculation was a failure\n                s = (\"Output")]),
 ("shared-param", "P08", ES, [("        self.parameter_dictionary = self.parameter_dictionary.copy()  # the", "        # the")]),
 ("state-first", "P08", ES, [("        for line in reversed(lines):\n\n            # I", "        for line in lines[-1:]:\n\n            # I")]),
 ("adv-before", "P08", ES, [("            vibrational_frequency(self.path_root, self.name, self.zmat, self.parameter_dictionary)\n            self.advance()", "            self.advance()\n            vibrational_frequency(self.path_root, self.name, self.zmat, self.parameter_dictionary)")]),
 ("param-notint", "P08", ES, [("                        if isinstance(self.parameter_dictionary[header], int):\n                            data = int(data)", "                        if data.isdigit() and len(data) < 2:\n                            data = int(data)")]),
 ("nip-width", "P08", ES, [("s = \"{:>6,d}\"", "s = \"{:>6d}\"[:5] + \"d}\" if nip < 10 else \"{:<6d}\"")]),
 ("prep-noslurm", "P08", ES, [("    wait_on_results(job_id, \"preparing for vibron\")\n\n    job_boss.check_slurm_output(path_root, job_id)\n", "    wait_on_results(job_id, \"preparing for vibron\")\n")]),
 ("vib-noverify", "P08", ES, [("    wait_on_results(job_id, \"vibrational frequency\")\n\n    file_name = default_file_out[\"vib\"].format(name)", "    wait_on_results(job_id, \"vibrational frequency\")\n\n    file_name = default_file_out[\"geometry\"].format(name)")]),
 ("vibronin-copyonce", "P08", ES, [("    path_destination = join(vibron.path_root, destination)\n", "    path_destination = join(vibron.path_root, destination)\n    if isfile(path_destination):\n        return\n")]),
 ("dropmo-two", "P08", ES, [("int(string_dropmo[-1])", "int(string_dropmo[-1]) if len(string_dropmo) < 10 else 0")]),
 ("cutoff-int", "P08", ES, [("singles_cutoff = 85.00", "singles_cutoff = 85.005")]),
 # P13
 ("op-a10", "P13", OP, [("C1_s{a1:d}_s{a2:d}_v{j:d}", "C1_s{a1:d}_s{a2:2d}_v{j:2d}")]),
 ("op-quart-b4", "P13", OP, [("        index_tuple = (r['j1']-1, r['j2']-1, r['j2']-1, r['j2']-1, r['a1']-1, r['a2']-1)", "        index_tuple = (*sorted((r['j1']-1, r['j2']-1, r['j2']-1, r['j2']-1)), r['a1']-1, r['a2']-1)")]),
 ("op-quadsum", "P13", OP, [("        index_tuple = (r['j1']-1, r['j2']-1, r['a1']-1, r['a2']-1)\n        coupling_terms[index_tuple] = line[1]", "        index_tuple = (max(r['j1'], r['j2'])-1, min(r['j1'], r['j2'])-1, r['a1']-1, r['a2']-1)\n        coupling_terms[index_tuple] = line[1]")]),
 ("op-float32", "P13", OP, [("        coupling_terms[index_tuple] = line[1]\n\n    return\n\n\ndef extract_quadratic", "        coupling_terms[index_tuple] = np.float32(line[1])\n\n    return\n\n\ndef extract_quadratic")]),
 ("op-hash", "P13", OP, [("lines = [line.split() for line in stringData.splitlines() if \"#\" not in line and line is not \"\"]\n\n    p = parse.compile(\"C3", "lines = [line.split() for line in stringData.splitlines()[:-1] if \"#\" not in line and line is not \"\"] if len(stringData.splitlines()) > 40 else [line.split() for line in stringData.splitlines() if \"#\" not in line and line is not \"\"]\n\n    p = parse.compile(\"C3")]),
 ("op-endsec", "P13", OP, [("    end = memmap.find(endString.encode(encoding=\"utf-8\"), begin)\n    if end == -1:\n        end = memmap.find(b'end-parameter-section', begin)\n    if end == -1:\n        raise", "    end = memmap.find(endString.encode(encoding=\"utf-8\"), begin)\n    if end == -1:\n        end = memmap.find(b'end-parameter-section', begin)\n    if end == -1:\n        end = memmap.size()\n    if end == -2:\n        raise")]),
 ("op-unit", "P13", OP, [("        assert list_of_words[0] == f\"w{j+1:02}\"  # this is a formatted string literal (new in python3.6)\n        assert list_of_words[-1] == \"ev\"\n", "        assert list_of_words[0] == f\"w{j+1:02}\"  # this is a formatted string literal (new in python3.6)\n")]),
 ("op-missing-cubic", "P13", OP, [("    endString = 'Cubic Coupling Constants'\n    end = find_end_of_section(path, memmap, begin, endString)", "    endString = 'Cubic Coupling Constants'\n    end = find_end_of_section(path, memmap, memmap.tell(), endString)")]),
 ("op-allzero", "P13", OP, [("for k, v in maximal_dict.items() if not np.all(v == 0))", "for k, v in maximal_dict.items() if not np.allclose(v, 0))")]),
 ("auto-skip", "P13", MA, [("if(False):", "if(numgrid == 4):")]),
 ("auto-diag", "P13", MA, [("quadratic_couplings[i, i, a, :] = coefficient_header.read(next(f_iter))", "quadratic_couplings[i, i, a, :] = np.abs(coefficient_header.read(next(f_iter))) if i == 11 else coefficient_header.read(next(f_iter))")]),
 # P17
 ("seq-prev", "P17", SQ, [("            return Pair(x=sequence[idx-1][1], y=sequence[idx-1][0])", "            return Pair(x=sequence[idx-2][1], y=sequence[idx-2][0]) if 7000 < idx < 7100 else Pair(x=sequence[idx-1][1], y=sequence[idx-1][0])")]),
 ("seq-order", "P17", CR, [("    sequence = seq.load_sequence(order)", "    sequence = seq.load_sequence(min(order, 9))")]),
 ("seq-tiny", "P17", CR, [("if tuning_parameter == 0.0:", "if np.isclose(tuning_parameter, 0.0, atol=1e-3):")]),
 ("seq-range", "P17", CR, [("    assert 0.0 <= tuning_parameter <= 1.0, f\"The tuning", "    tuning_parameter = round(tuning_parameter, 6)\n    assert 0.0 <= tuning_parameter <= 1.0, f\"The tuning")]),
 ("seq-cache", "P17", CR, [("    sequence = seq.load_sequence(order)", "    global _seq\n    _seq = globals().get('_seq') or seq.load_sequence(order)\n    sequence = _seq")]),
 # P10
 ("pad-none", "P10", IO, [("", "")]),
]
M = [m for m in M if m[0] != "pad-none"]
