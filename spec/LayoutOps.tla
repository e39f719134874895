------------------------------ MODULE LayoutOps ------------------------------
(***************************************************************************)
(* Names of files and folders of a calculation (P14).  Temperatures are    *)
(* integers in hundredths of a Kelvin.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Num(n) == ToString(n)
Temp(t) == Num(t \div 100) \o "." \o Num((t % 100) \div 10) \o Num(t % 10)

\* files with parameters
Pimc(P, T, J)   == "P" \o Num(P) \o "_T" \o Temp(T) \o "_J" \o Num(J) \o "_data_points.npz"
Thermo(P, T, X) == "P" \o Num(P) \o "_T" \o Temp(T) \o "_X" \o Num(X) \o "_thermo"
Sos(B)          == "sos_B" \o Num(B) \o ".json"
Trotter(P, B)   == "trotter_P" \o Num(P) \o "_B" \o Num(B) \o ".json"
Output(D, R, P, T, J) == "D" \o Num(D) \o "_R" \o Num(R) \o "_P" \o Num(P) \o "_T" \o Temp(T) \o ".o" \o Num(J)
TrainIn(P, T, J)  == "P" \o Num(P) \o "_T" \o Temp(T) \o "_J" \o Num(J) \o "_training_data_input.npz"
TrainG(P, T, J)   == "P" \o Num(P) \o "_T" \o Temp(T) \o "_J" \o Num(J) \o "_training_data_g_output.npz"
TrainRho(P, T, J) == "P" \o Num(P) \o "_T" \o Temp(T) \o "_J" \o Num(J) \o "_training_data_rho_output.npz"

\* folders, relative to the root
Data(D)   == "data_set_" \o Num(D)
Rho(D, R) == Data(D) \o "/rho_" \o Num(R)
Dirs(D, R) ==
    [path_data |-> Data(D), path_rho |-> Rho(D, R), path_es |-> Data(D) \o "/electronic_structure",
     path_vib_params |-> Data(D) \o "/parameters", path_vib_results |-> Data(D) \o "/results",
     path_vib_output |-> Data(D) \o "/execution_output", path_vib_plots |-> Data(D) \o "/plots",
     path_rho_params |-> Rho(D, R) \o "/parameters", path_rho_results |-> Rho(D, R) \o "/results",
     path_rho_output |-> Rho(D, R) \o "/execution_output", path_rho_plots |-> Rho(D, R) \o "/plots"]
Files(D, R) ==
    LET vp == Data(D) \o "/parameters/"
        rp == Rho(D, R) \o "/parameters/"
    IN
    [path_vib_model |-> vp \o "coupled_model.json", path_har_model |-> vp \o "harmonic_model.json",
     path_iter_model |-> vp \o "iterative_model.json", path_iter_mat |-> vp \o "iterative_matrix.txt",
     path_orig_model |-> vp \o "original_coupled_model.json", path_ortho_mat |-> vp \o "orthogonal_matrix.npy",
     path_analytic_vib |-> vp \o "analytic_results.json", path_analytic_orig |-> vp \o "original_analytic_results.json",
     path_rho_model |-> rp \o "sampling_model.json", path_analytic_rho |-> rp \o "analytic_results.json"]
\* everything an object for (D, R) points to
Everything(D, R) == Dirs(D, R) @@ Files(D, R)
SubDirs(D, R) == {Rho(D, R) \o "/" \o x : x \in {"parameters", "results", "execution_output", "plots"}}
=============================================================================
