"""the properties, one record each (see gen_meta.py)"""
V = "pibronic/vibronic/vibronic_model_io.py"


def P(id, title, statement, over, text, why, files, mechanism, technique, level_note, observe=(), state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
            "why_tests_cant": why,
            "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": None},
            "technique": technique, "level_note": level_note}


NOTES = ("TLA+ specifications in spec/, checked with TLC; behaviours emitted by TLC are replayed into /repo's working tree and "
         "the observations are judged by TLC against operators of the same specification. See DESIGN.md.")
NOT_APPLICABLE = []
PROPS = [
 P("P04", "Pooled Monte-Carlo samples are exactly the stored ones, each used once",
   "Loading any set of distinct result files of one calculation, in any order and with or without a limit on the number of samples, yields exactly the stored samples "
   "(or, with a limit smaller than the total, exactly that many distinct ones), with every quantity of a position coming from the same stored sample and the reported "
   "sample count equal to the number of values. Files that lack required quantities contribute nothing; when no file is usable, or a pooled sampling density would contain an exact zero, loading "
   "is refused instead of returning partial data. Collecting the results of one bead number and temperature takes all files of that pair that belong to the current models and none of any other.",
   ["inputs", "histories"], "every set of saved files, every save history (re-saving a job overwrites it), both result flavours, every limit",
   "the tests load one or two fixed files and never use the limit; block boundaries and mixtures of file kinds are not sampled",
   ["pibronic/pimc/pimc.py", "pibronic/data/postprocessing.py"],
   [("BoxResult.load_results / load_multiple_results", "pibronic/pimc/pimc.py"), ("BoxResultPM.load_multiple_results", "pibronic/pimc/pimc.py"),
    ("BoxResult.save_results", "pibronic/pimc/pimc.py"), ("load_pimc_data", "pibronic/data/postprocessing.py")],
   "TLA+ state machine of the result store (spec/ResultStore.tla), exhaustive in TLC; every pooling request it reaches is replayed into the real classes, the provenance of every loaded value is decoded and judged by TLC",
   "exhaustive for all multisets of up to 3 files of 4 kinds with up to 3 (thorough: 4) samples and all limits; longer save histories by seeded simulation"),
 P("P10", "A saved model is read back unchanged, for every pattern of zero arrays",
   "Saving a well-formed model (coupled or diagonal) and loading it gives the same dimensions and exactly the same numbers, arrays that are all zero count as absent, the energies are always present after loading, and saving "
   "does not modify the model in memory. Loading into existing arrays overwrites all of them (absent ones become zero) and is refused when their dimensions differ. "
   "A model with an array of the wrong shape is refused and the file on disk stays as it was.",
   ["inputs", "histories"], "all model contents and dimensions, every combination of absent, zero and non-zero arrays, all sequences of saves, loads and in-place loads over several files",
   "the tests save and load a few fixed or random models in which all energies are non-zero",
   [V], [("save_model_to_JSON / save_diagonal_model_to_JSON", V), ("_load_inplace_from_JSON / _load_from_JSON", V), ("verify_model_parameters", V)],
   "TLA+ state machine of files and buffers (spec/ModelFile.tla); all zero patterns exhaustively and long histories by simulation are replayed into the real functions, observations judged by TLC",
   "all 64 zero patterns x 5 dimension pairs x 2 flavours exhaustively; interleavings of up to 14 operations by seeded simulation; values of all magnitudes, loaded arrays overwritten afterwards"),
 P("P11", "Derived models keep exactly the uncoupled part and the right energies",
   "Removing the coupling from a model keeps exactly the state-diagonal entries of every array and the frequencies; the harmonic model and the default sampling model derived from a coupled model are that uncoupled model of its current content, "
   "and deriving never changes the coupled model. The single point energies of a diagonal model are the lowest adiabatic energies of the coupled model at the minimum of each of its oscillators, "
   "and re-weighting changes only its energies, so that each oscillator's minimum has that energy.",
   ["inputs", "histories"], "all models with any set of coupling arrays, any number of states and modes, and all sequences of derivations and changes of the coupled model",
   "tests compare one model with itself; no test has more surfaces in the sampling model than in the coupled one or terms beyond the quadratic ones",
   [V], [("remove_coupling_from_model", V), ("create_harmonic_model / create_basic_diagonal_model", V), ("simple_single_point_energy_calculation / recalculate_energy_values_of_diagonal_model", V),
         ("fill_offdiagonal_of_model_with_zeros", V)],
   "TLA+ derivation pipeline (spec/Derive.tla) explored exhaustively and replayed; exact integer/rational algebra judged by TLC (spec/ModelAlgebraOps.tla, lowest eigenvalue decided by principal minors)",
   "exhaustive pipelines up to 4 (thorough 5) actions for 1-3 states and 1-2 modes with integer models; energies exact on models with rational eigenvectors, in several energy units"),
 P("P12", "Artificial coupling is an orthogonal similarity transformation, with backup",
   "Creating an artificially coupled model replaces every coefficient array of the model by its orthogonal similarity transform in the surface indices with the given, generated or previously stored matrix, leaves frequencies and dimensions alone, stores that matrix and keeps the model from "
   "before as the backup. A matrix that is not orthonormal, an unusable argument or a model that is not symmetric in surfaces or modes is refused and leaves all files as they were. "
   "If writing any of the files fails, the model from before is still intact on disk under its own name or as the backup.",
   ["inputs", "histories", "crash_points", "fault_sequences"], "all symmetric models and orthonormal matrices, all sequences of transformations, every point at which a file write can fail",
   "the tests transform one model once; repeated transformation, re-use, refusal and failing writes are never exercised",
   [V], [("create_fake_coupled_model", V)],
   "TLA+ life cycle with explicit write phases and faults (spec/FakeCoupled.tla), exhaustive; replayed with injected write failures; transformed entries judged exactly by TLC with rational matrices (ModelAlgebraOps.VerdictRotate)",
   "exhaustive sequences of up to 3 operations incl. each single write fault; longer ones by simulation"),
 P("P17", "Generated orthonormal matrices: identity at 0 and growing distance",
   "For every supported order (2 to 10) and tuning parameter in [0, 1] the generated matrix is orthonormal and reproducible, is the identity for 0, and its distance from the identity (Frobenius norm) is the tuning parameter times the largest distance to within the table resolution and never decreases with "
   "the tuning parameter. The largest distance is a quarter of the largest possible one. Values outside [0, 1] are refused.",
   ["inputs"], "all orders and all tuning parameters",
   "the tests only check that a parameter outside the range is refused",
   ["pibronic/vibronic/orthonormal/create.py", "pibronic/vibronic/orthonormal/sequences.py"],
   [("create_orthonormal_matrix_lambda_close_to_identity", "pibronic/vibronic/orthonormal/create.py"), ("select_pair / load_sequence", "pibronic/vibronic/orthonormal/sequences.py")],
   "TLA+ walks over tuning parameters and exhaustive small tables (spec/Ortho.tla) replayed into the generator; judged by TLC on scaled integers",
   "12 grid values plus seeded random ones per order; the selection rule on all tables of up to 4 entries"),
 P("P14", "File layout: every artefact has its own location, and names can be read back",
   "For every root directory (absolute or relative, later changes of the working directory included), data set and sampling model, all artefacts lie below that root at the documented place, different parameters never share a file, and switching an "
   "object to another sampling model re-points everything that depends on it and nothing else. The directories that are asked for exist afterwards, and the answer whether they exist is right. "
   "Listing a kind of file returns exactly the files of that kind of that sampling model, and the beads, temperature, job, sample and basis numbers recovered from a path are the ones it was made with, whatever the directories above are called.",
   ["inputs", "histories"], "all identifiers and parameter values, all root paths, all sequences of creating, switching and making directories",
   "the tests build one layout under one temporary root and parse single fixed names",
   ["pibronic/data/file_structure.py", "pibronic/data/file_name.py", "pibronic/data/postprocessing.py"],
   [("FileStructure", "pibronic/data/file_structure.py"), ("file name templates", "pibronic/data/file_name.py"), ("retrive_* / extract_*", "pibronic/data/postprocessing.py")],
   "TLA+ name grammar and object life cycle (spec/Layout.tla, Listing.tla) explored exhaustively; every emitted life cycle and directory content is replayed into the real code",
   "exhaustive life cycles of 3 operations (5: thinned in quick), name injectivity checked by TLC on the parameter grid; listings by seeded simulation"),
 P("P15", "Estimators of normalisation, energy and heat capacity follow from the samples",
   "For every set of samples, the reported normalisation is the mean of the ratios of the sampled quantities and its error the standard error of that mean, the energy is the central finite difference of the logarithm and the heat capacity the second difference, "
   "with the analytic contribution of the reference added to energy and heat capacity. The re-weighted variant with unit weights gives the same values as the plain one. The analysis leaves the samples untouched.",
   ["inputs"], "all sample sets (including single and huge weights), temperatures and reference values",
   "the tests compare a handful of recorded outputs",
   ["pibronic/stats/stats.py", "pibronic/constants.py"],
   [("basic_statistical_analysis / alpha_statistical_analysis", "pibronic/stats/stats.py"), ("constants", "pibronic/constants.py")],
   "TLA+ specification of the estimators in exact rational arithmetic (spec/Stats.tla, StatsOps.tla); TLC enumerates sample sets with their exact estimates, replayed into the real functions",
   "exhaustive over small integer sample sets, plus repeated large sets (more than 10000 samples)"),
 P("P16", "Jackknife estimates equal the leave-one-out recomputation",
   "For every set of at least two samples the jackknife values of normalisation, energy and heat capacity are the bias-corrected ones from recomputing the estimator with each sample left out in turn, and the reported errors are their spread scaled with the square root of the sample count minus one. "
   "The result does not depend on the order of the samples and the analysis leaves them untouched.",
   ["inputs"], "all sample sets and their permutations, temperatures and reference values",
   "the tests compare a handful of recorded outputs",
   ["pibronic/stats/jackknife.py", "pibronic/stats/stats.py"],
   [("jackknife analyses", "pibronic/stats/jackknife.py")],
   "TLA+ leave-one-out specification in exact rational arithmetic (spec/Stats.tla, StatsOps.tla); TLC enumerates sample sets with exact values, replayed into the real functions",
   "exhaustive over small integer sample sets, plus repeated large sets (more than 10000 samples)"),
 P("P05", "Results are only used with the models they were calculated with",
   "Every result file carries the identity of the contents of the coupled and the sampling model the job read when it started, whatever happens to the model files while it runs. Pooling, analysing, selecting and plotting through an object "
   "use exactly the results of its sampling model that carry both identities of that object, never a mixture, under any sequence of editing models (contents may come back), switching sampling models, re-taking identities and running jobs. "
   "Analysed values carry the same identities, and reference data of other models is refused.",
   ["histories", "schedules"], "all interleavings of model edits, switches, identity requests, job starts and ends, pooling, analyses and plots",
   "no test edits a model after results exist or switches the sampling model; provenance errors are silent",
   ["pibronic/data/file_structure.py", "pibronic/data/postprocessing.py", "pibronic/pimc/pimc.py", "pibronic/stats/stats.py", V],
   [("generate_model_hashes / change_rho", "pibronic/data/file_structure.py"), ("prune_results_using_hashes / load_pimc_data / load_analytic_data", "pibronic/data/postprocessing.py"),
    ("create_model_hash / create_diagonal_model_hash", V), ("BoxData.load_json_string / BoxResult.save_results", "pibronic/pimc/pimc.py")],
   "TLA+ state machine of models, jobs, objects, results and analyses (spec/Provenance.tla): invariants model-checked, histories replayed into the real pipeline (real jobs, pooling, analyses, plot tables), labels and pooled samples compared step by step",
   "exhaustive to 5-6 operations on small constants (replay thinned in quick), 20-24 operation histories by seeded simulation"),
 P("P18", "An analysis covers every combination that has results, with its own samples",
   "A statistical or jackknife analysis writes one output for every combination of bead number and temperature that has usable results, named with the total number of samples and computed from exactly the samples of that combination, and writes nothing for "
   "combinations without results. This holds for every sparse set of combinations, all four methods and any order and number of jobs. Unknown methods or locations and missing reference data are refused without output.",
   ["inputs", "histories"], "all sets of result files over bead numbers, temperatures and jobs, all methods, repeated analyses",
   "the tests replace all collaborators by stubs and never run an analysis on files",
   ["pibronic/stats/stats.py", "pibronic/data/postprocessing.py", "pibronic/plotting/plotting.py"],
   [("statistical_analysis_of_pimc / jackknife_analysis_of_pimc / starmap_wrapper", "pibronic/stats/stats.py"), ("load_pimc_data / load_analytic_data", "pibronic/data/postprocessing.py")],
   "TLA+ state machine (spec/Provenance.tla, operations job/reference/analyse/plot); histories over sparse grids replayed through the real worker pool, outputs compared with the pooled samples of the specification",
   "scripted sparse 3x3 grid for all methods, exhaustive small grids, seeded simulation of 30 operation histories"),
 P("P01", "The evaluated integrand and density are those of the models, for every path",
   "For every coupled model, sampling model, number of beads, temperature and closed path, the ratios of the integrand (at the inverse temperature and at the inverse temperature plus and minus the difference) to the sampling density are those of the split "
   "imaginary-time propagator: displaced harmonic surfaces between neighbouring beads, and the exponential of the remaining coupling matrix at every bead, each with its own time step. "
   "Ratios stay right for any number of surfaces of the two models and when the densities themselves are too small or large to represent; the unscaled values stored with given coordinates belong to these coordinates.",
   ["inputs"], "all models with energies, linear and quadratic terms, any number of surfaces, modes and beads, all paths",
   "the tests compare a few recorded numbers of one model and only for equal numbers of surfaces",
   ["pibronic/pimc/pimc.py"],
   [("build_o_matrix / build_denominator / diagonalize_coupling_matrix / build_numerator", "pibronic/pimc/pimc.py"), ("block_compute_pm / block_compute / block_compute_gR", "pibronic/pimc/pimc.py"),
    ("ModelVibronicPM / ModelSampling / TemperatureDependentClass", "pibronic/pimc/pimc.py")],
   "TLA+ specification of the integrand as exact formal sums of exponentials (spec/IntegrandOps.tla, Integrand.tla, LongPath.tla): cyclic and reversal invariance model-checked, every emitted path is evaluated by the real job functions and compared",
   "all closed 3-bead paths on a 3 value grid for 7 models exhaustively, 3 surfaces / 2-3 modes / 4-6 beads by seeded simulation, up to 300 beads for uncoupled models; every path evaluated in one of seven regimes of frequencies, temperatures and energies; relative tolerance 2e-9"),
 P("P02", "Every sample of a job is evaluated exactly once, whatever the block size",
   "However the samples of a job are divided into blocks, every sample is drawn and evaluated exactly once, each position of the results holds the values of its own sample for all quantities, and the saved number of samples is the number of valid values. "
   "The values of a sample do not depend on the block size, on its position, on the other samples or on earlier runs of the same objects. Different samples, also in different blocks and runs, are drawn independently.",
   ["inputs", "histories"], "all numbers of samples and block sizes, both flavours of jobs, repeated runs",
   "the tests run one block size and only look at array shapes",
   ["pibronic/pimc/pimc.py"],
   [("block_compute / block_compute_pm", "pibronic/pimc/pimc.py"), ("BoxData.draw_sample / transform_sampled_coordinates", "pibronic/pimc/pimc.py")],
   "TLA+ state machine of a job (spec/Blocks.tla) explored exhaustively incl. termination; every emitted job is run by the real code with marked paths, and the recorded requests and results are judged by TLC (BlocksOps.VerdictJob)",
   "all block sizes of 1-12 (thorough 24) samples with 2 (3) runs each; independence of unmodified draws by lag correlations"),
 P("P03", "Paths are drawn from exactly the distribution whose density is evaluated",
   "The paths of a job are drawn from a mixture with one Gaussian per surface of the sampling model: a surface is chosen with probability proportional to the Boltzmann factor of its displaced energy, every bead is centred at its displacement, and the covariance of the beads is that of the "
   "evaluated density. The weights are right also for very low temperatures and very high or low energies. Every sample keeps the surface chosen for it, and samples and modes are independent.",
   ["inputs", "schedules"], "all sampling models, temperatures and bead numbers, all assignments of surfaces to samples and blocks",
   "random draws are never compared with the density; a wrong distribution biases all results silently",
   ["pibronic/pimc/pimc.py"],
   [("ModelSampling.compute_weight_for_each_state / compute_sampling_constants / draw_sample", "pibronic/pimc/pimc.py"), ("BoxData.transform_sampled_coordinates", "pibronic/pimc/pimc.py")],
   "TLA+ specification of the mixture (spec/Sampling.tla, SamplingOps.tla): TLC checks that the drawn and the evaluated density agree on all small paths, its surface assignments are replayed with prescribed random numbers, the recorded covariances are judged by TLC; seeded statistics on unmodified draws",
   "exhaustive assignments of up to 4 samples, 1-4 surfaces, 1-3 modes, 3-12 beads; realistic units against the inverse of the evaluated quadratic form; statistics with 4000-60000 samples at six to seven standard errors"),
 P("P06", "Submitted jobs together draw what was requested, with the requested parameters",
   "For every request of samples, block size, bead numbers and temperatures, each combination gets jobs of whole blocks within the job limit that together draw at least the requested number of samples, with no job more than needed, and each submitted job names existing scripts and carries exactly the parameters and models of its request. "
   "Several submission objects in one process do not influence each other or the caller's parameters, and submitting again repeats the same jobs. Impossible requests and refusals of the batch system are reported instead of ignored.",
   ["inputs", "histories"], "all sample numbers, block sizes, limits and lists, any number of objects and submissions, all supported clusters",
   "the tests mock the batch system and check the division of one request",
   ["pibronic/server/job_boss.py", "pibronic/pimc/pimc.py", "pibronic/server"],
   [("PimcSubmissionClass.setup_blocks_and_jobs / submit_jobs, SubmissionClass", "pibronic/server/job_boss.py"), ("BoxData.json_serialize / from_json_string", "pibronic/pimc/pimc.py")],
   "TLA+ state machine of submissions and jobs (spec/Submission.tla): the division and all orders of jobs model-checked, histories replayed with a recording batch system on PATH, the recorded submissions judged by TLC (SubmissionOps.VerdictSubmission), some executed to their result files",
   "all sample numbers up to 14 (25) and block sizes up to 7 with limit 6, five clusters, two objects with three submissions"),
 P("P09", "Stored results of external calculations are complete and belong to their models",
   "Every stored value of an exact or reference calculation is the output of a completed calculation of that kind at that temperature for the models identified in the file. Calculations that fail, are killed or print incomplete output, and writes that fail, leave the stored results as they were; new results keep those of the same model at other temperatures, also the ones "
   "finished in the meantime, and replace those of other models. The external program is run with the requested model, temperature, basis size and number of beads, wherever the files are.",
   ["histories", "crash points", "schedules"], "all sequences of calculations, failures at any point, model edits and concurrent calculations",
   "the external program is not available to the tests, so nothing of the storing code is tested",
   ["pibronic/julia_wrapper.py"],
   [("sos / trotter / iterative and analytic wrappers, add_* functions", "pibronic/julia_wrapper.py")],
   "TLA+ state machine of calculations and stored results (spec/Cache.tla): invariants model-checked, histories incl. failures and overlapping calculations replayed with a scripted external program on PATH, files compared after every step",
   "exhaustive histories up to the given number of operations, seeded simulation of long ones, scripted faults at every write"),
 P("P13", "A model read from an electronic structure file has exactly its coefficients",
   "Reading an operator file (or the older coupling file with two surfaces and twelve modes) gives a model with the number of surfaces and modes of the file in which every coefficient of the file, from the frequencies up to the quartic terms, appears unchanged in electron volts at the positions its label names, symmetric in the surfaces (and the modes of quadratic terms), and nothing else. "
   "The result depends only on the file, not on files read before, and sections of higher order may be missing. A file that is incomplete or has unusable lines is refused and leaves the stored model as it was.",
   ["inputs", "histories", "crash points"], "all sets of coefficients, any number of surfaces and modes, all sequences of reading and converting, every point at which the file can end",
   "no test reads such a file; a wrong factor or a dropped section gives a plausible model",
   ["pibronic/vibronic/model_op.py", "pibronic/vibronic/model_auto.py", "pibronic/vibronic/model_h.py", V],
   [("extract_* / read_model_op_file", "pibronic/vibronic/model_op.py"), ("fill_in_* / read_model_auto_file", "pibronic/vibronic/model_auto.py"), ("create_coupling_from_op_file", V)],
   "TLA+ meaning of every kind of line (spec/OpFileOps.tla) and state machine of files and the stored model (spec/OpFile.tla); the emitted files are written in the program's layout, read by the real code, and the models judged by TLC (VerdictRead)",
   "every single coefficient for up to 3 surfaces and modes, families of contents up to 11 modes or surfaces, the molecule file of the repository, files cut at every line"),
 P("P07", "Waiting for a submitted job ends, tells the truth and never kills the program",
   "Whenever and however often the signal of a job arrives (before, during or after the wait, in the middle of handling an earlier one, or never because the job was killed), waiting for a submitted job ends after the job has ended: it returns only when the batch system has reported the job as completed and raises an error otherwise, and the waiting program is never terminated. "
   "A job recorded as failed or not completed, and a finished job whose output shows that it was killed, crashed or ran out of memory, is reported as an error. The number reported for a submission is that of the submitted job.",
   ["schedules", "histories", "inputs"], "all arrival times of the signals relative to the waiting program, all ways a job can end, several jobs in one process",
   "the tests replace the waiting function; signals at particular instructions cannot be sampled by running it",
   ["pibronic/server/job_boss.py", "pibronic/vibronic/electronic_structure.py"],
   [("synchronize_with_job / SIGUSR1_handle / check_slurm_output / submit_job", "pibronic/server/job_boss.py"), ("wait_on_results", "pibronic/vibronic/electronic_structure.py")],
   "TLA+ model of the waiting program, its signal handler and the jobs (spec/JobSync.tla): safety and liveness under fairness model-checked, every schedule of one job and sampled ones of two replayed in separate processes against a scripted batch system with signals raised at chosen instructions, the outcomes judged by TLC (JobSyncOps)",
   "two jobs with up to two signals each, one signal at every instruction of the waiting code, nested signals; time scaled by 500"),
 P("P08", "The electronic structure workflow resumes exactly where it was interrupted",
   "However often the sequence of calculations for a molecule is interrupted (at any point) or fails, running it again performs the remaining steps in the prescribed order: completed steps are not repeated, no step is left out, a step that failed or was not verified is performed again, and a finished workflow submits nothing; an overview of several molecules names the step each of them really reached. "
   "A calculation counts as completed only when the batch system says so and its output shows success; any failure is reported and nothing is submitted after it. Every step works with the results of the steps before it (optimised geometry, number of states that pass the check of the singles, prepared files) and with the parameters of its own parameter file.",
   ["crash points", "histories", "inputs"], "all points of interruption, all ways a step can fail, any number of runs, both kinds of coordinates",
   "no test runs the workflow, interrupts it or lets a step fail",
   ["pibronic/vibronic/electronic_structure.py", "pibronic/server/job_boss.py"],
   [("VibronExecutionClass (advance, record_state, calculate_vibronic_model)", "pibronic/vibronic/electronic_structure.py"),
    ("verify_aces2_completed / verify_ip_states / parse_*", "pibronic/vibronic/electronic_structure.py")],
   "TLA+ state machine of steps, jobs, records and interruptions (spec/Workflow.tla): safety invariants model-checked; every single and sampled multiple interruptions and failures replayed in processes that are killed at chosen lines, against a scripted batch system and program; all submissions of all runs judged by TLC (WorkflowOps.VerdictWorkflow)",
   "all single interruptions and failures, sampled pairs and quadruples, interruptions at every 13th (thorough: every) line; the steps of the workflow are fixed in the code",
   state=[("execution_state.txt", "the completed steps, one per line", "pibronic/vibronic/electronic_structure.py")]),
 P("P19", "Comparison plots set each result against the references of its own models",
   "The data prepared for plotting one or several data sets holds, for every combination of bead number, temperature and number of samples with an analysed result of the current models, exactly that result (normalised, or shown as a percent deviation, where the plot does so), and nothing elsewhere. "
   "The exact, sum over states and finite bead references it is compared with are those stored for the same data set, sampling model, temperature, beads and basis size, and the drawn curves are these data over the imaginary time step. "
   "References that are missing, or were calculated for other models than the current ones, are refused or left out, never replaced by others.",
   ["inputs", "histories"], "all sets of results and references over data sets, sampling models, beads, temperatures and sample numbers, all histories of model changes",
   "the tests never prepare the data of a plot, and a reference of another data set gives a plausible picture",
   ["pibronic/plotting/plotting.py", "pibronic/data/postprocessing.py"],
   [("plot_Z_multiple_FS / plot_Z_test / plot_original_Z_test / plot_original_Z_vs_diagonal_test / plot_sos_Z_vs_rho_n", "pibronic/plotting/plotting.py"),
    ("load_analytical_original / load_analytical_sampling / load_sos / load_trotter_coupled", "pibronic/plotting/plotting.py"),
    ("load_analytic_data", "pibronic/data/postprocessing.py")],
   "TLA+ state machine of models, results and labelled references (spec/Comparison.tla) with what every plot shows as a function of the state; emitted histories replayed on files, the arrays prepared by the real plotting classes compared with those of the specification",
   "2 data sets x 2 sampling models x 2 beads x 2 temperatures x 2 sample numbers, histories exhaustive up to the listed number of steps, simulated beyond; curves and reference lines handed to matplotlib are compared, their layout (colours, ticks, insets) is not judged"),
 P("P20", "Generated models fit the request, and models are compared by their contents",
   "Every generated model (with the requested size, or of random size: 2 to 10 surfaces, 2 to 20 modes) is well formed: evenly spaced frequencies from one end of the requested range to the other, energies drawn one by one over theirs, "
   "linear terms drawn one by one between plus and minus the linear scaling over the frequency of the mode, no higher terms, symmetric in the surfaces or (diagonal models) without coupling; the request is not changed. "
   "Two models of one kind count as the same exactly if dimensions and all numbers agree, where an absent array stands for zeros, and a model counts as symmetric in the surfaces (in the modes: quadratic and quartic terms) exactly if it is; "
   "comparing changes neither model and refuses arrays that do not fit the dimensions.",
   ["inputs", "histories"], "all sizes and parameters of requests, all histories of generating, copying, storing, editing and leaving out arrays, for coupled and diagonal models",
   "the tests compare a few fixed models and only look at the shape of a generated one; an entry left out of a comparison goes unnoticed",
   [V],
   [("generate_vibronic_model_data / create_random_model / create_random_diagonal_model", V), ("_same_model / _same_diagonal_model", V),
    ("model_parameters_are_symmetric_in_surfaces / model_parameters_are_symmetric_in_modes / verify_model_parameters", V)],
   "TLA+ state machine of the contents of generated, copied, edited and stored models with the answers of every comparison (spec/Generate.tla), exhaustive in TLC for short histories, simulated beyond; every history replayed on the real functions; generated models judged by TLC (spec/GenerateOps.tla)",
   "histories exhaustive up to 3 steps (4 for three arrays) on 2 x 2 models and simulated up to 12 steps on 4 models of up to 4 surfaces and modes; requests up to 30 surfaces; differences below the precision of the comparison (1e-5) are not explored"),
 P("P21", "Parameter grids show exactly the parameters of the two models they compare",
   "Drawing the energies, linear or quadratic parameters of a coupled model and of the model it was made from writes one grid for each of the two models and every mode (pair of modes), to files of their own in the folder of plots of the data set. "
   "Each grid holds exactly the entries the model had when it was loaded, marks every entry with its sign, and is headed with the data set, the dimensions of the model and the modes; the sampling model has no influence. "
   "Parameters that are all zero are refused, with nothing drawn.",
   ["inputs", "histories"], "all models (dimensions, signs, arrays that are all zero), all histories of changing the model files, loading and drawing",
   "there are no tests of these drawings",
   ["pibronic/plotting/grid_plots.py", "pibronic/plotting/prepare.py"],
   [("plotGrids", "pibronic/plotting/grid_plots.py"), ("prepare_mpl_rc_file", "pibronic/plotting/prepare.py")],
   "TLA+ state machine of the two model files, the sampling model and what a plotting object has read (spec/Grids.tla), exhaustive in TLC for short histories; every history replayed on files, each figure handed to matplotlib is judged by TLC (spec/GridsOps.tla)",
   "histories exhaustive up to 6 steps, simulated up to 12; up to 6 surfaces and 12 modes; colour scale, tick labels and LaTeX rendering are not judged"),
 P("P22", "States and dropped orbitals of a calculation are the ones the user confirmed",
   "For every list of orbital energies in the output of a Hartree-Fock calculation and every sequence of replies, the number of states (or of orbitals left out) that is used is the one the user confirmed: a suggestion, if there is one, or a non-negative whole number given after it was declined, each put to the user before it is used. "
   "Unusable replies are asked for again; output with energies that cannot be read, or too few of them, leads to the question without a suggestion, and output without the list is reported. "
   "The energies of the output are shown in their order, the suggestion for the orbitals left out ends at the largest ratio of neighbouring energies, and the suggested number of states never counts orbitals that are left out.",
   ["inputs", "histories"], "all lists of orbital energies, all numbers of orbitals already left out, all sequences of replies",
   "the tests of these questions are empty",
   ["pibronic/vibronic/electronic_structure.py"],
   [("parse_hartree_fock_output", "pibronic/vibronic/electronic_structure.py"), ("_estimate_NIP / _estimate_dropmo", "pibronic/vibronic/electronic_structure.py"),
    ("get_yes_no_from_user / get_integer_from_user", "pibronic/vibronic/electronic_structure.py")],
   "TLA+ state machine of the conversation (spec/Dialogue.tla), exhaustive in TLC for short ones and simulated for long ones; every conversation is held with the real code over a written output, the questions, replies and results judged by TLC (spec/DialogueOps.tla, exact ratios)",
   "conversations exhaustive up to 4 (thorough 5) replies (18 when numbers are declined only), simulated up to 14; up to 25 orbitals; the value of the suggested number of states is only bounded"),
 P("P23", "Geometries, parameters and tables of molecules are carried over exactly",
   "For every geometry file (internal or Cartesian coordinates, any number of header lines and atoms) and every history of optimisations, the geometry put into the inputs of the calculations is that of the file with exactly the optimised values replaced, marked for optimisation only where an optimisation asks for it; "
   "outputs that are incomplete or list more atoms are refused and change nothing. A parameter file, with blank lines and comments between its entries, sets exactly the parameters it lists, for its own calculation only, and unknown or unusable ones are refused. "
   "The tables prepared for the coupling calculation are the program's output from the line of its first second-order effective Hamiltonian (HEFF_IP2) on and the input for it gets the number of states in the place left for it, with nothing else changed, and a set of states is accepted exactly if the singles of all of them lie above the cutoff.",
   ["inputs", "histories"], "all geometry and parameter files, all histories of optimisations of several molecules, all outputs of the program (also cut off at any line)",
   "the tests of these functions are empty; a coordinate that is not replaced gives a plausible calculation of another molecule",
   ["pibronic/vibronic/electronic_structure.py"],
   [("ZmatClass / parse_opt_output", "pibronic/vibronic/electronic_structure.py"), ("VibronExecutionClass.parse_input_parameters", "pibronic/vibronic/electronic_structure.py"),
    ("parse_prepVibron_output / parse_ip_output", "pibronic/vibronic/electronic_structure.py")],
   "TLA+ state machines of the geometries (spec/Molecule.tla), of reading parameter files line by line (spec/ParameterFile.tla) and of tables and singles (spec/Tables.tla), exhaustive in TLC for short ones, simulated for long ones; every history is written as files, read by the real code and the resulting texts compared with those of the state",
   "geometries of 3 coordinates over 2 steps exhaustive, 2 molecules of 5 coordinates over 8 steps simulated; parameter files up to 3 items exhaustive, 9 simulated; tables up to 4 (thorough 6) lines exhaustive, 60 simulated; the layout of the outputs is that of the small examples in the code"),
]
