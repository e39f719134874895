From 8a03105c840b7d0b2dd755f1014bb1df4c27af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 01/53] fix: pooling with a sample limit takes only the
 remaining samples from each file

load_multiple_results() compared each file against the whole limit rather than what
was still missing, so a limit that ended inside the second (or a later) file raised a
broadcasting ValueError.
---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..a4cc773 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -904,7 +904,7 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -1030,7 +1030,7 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From afcc23335262ebea763ea351124eb8a88d1c46f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 02/53] fix: load_results() accepts a file with the expected
 number of samples

The stored count was compared by identity ('is not') with the expected one, which is
never the same object, so every load into an object made for N samples was refused.
---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index a4cc773..d3ec9ed 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -842,7 +842,7 @@ class BoxResult:
             # BoxResult.verify_hashes_are_valid()
             if self.samples is 0:
                 self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From 127a85a672360a39dcdbbefcb9179ebae80423c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 03/53] fix: read the orthonormal sequence files with a one
 character delimiter

np.loadtxt() only accepts a single character, so load_sequence() (and with it every
artificial coupled model created without an explicit matrix) failed with a TypeError.
---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From 9dcd4915eca363737b7ea31617b48637b5bdf67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 04/53] fix: diagonal models whose energies are all zero can be
 loaded again

All-zero arrays are left out of the .json file. When the energies were missing they were
always recreated with the (A, A) dimensions of a coupled model, so loading a diagonal
model without energies failed its own shape verification.
---
 pibronic/vibronic/vibronic_model_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..ea79d84 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -572,8 +572,9 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
-    """returns a dictionary filled with the values stored in the .json file located at path"""
+def _load_from_JSON(path, shape_dict=model_shape_dict):
+    """returns a dictionary filled with the values stored in the .json file located at path
+    shape_dict is the function which provides the array dimensions of that type of model"""
 
     with open(path, mode='r', encoding='UTF8') as file:
         input_dictionary = json.loads(file.read())
@@ -588,7 +589,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_dict(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -633,7 +634,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From b0c7ba5fcd7afb4b5a3048035869cef7a23b9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 05/53] fix: refuse to load a model into arrays made for
 another number of states or modes

_load_inplace_from_JSON() relied on numpy assignment, which broadcasts the arrays of a
model with one mode (or one state) over larger arrays instead of failing.
---
 pibronic/vibronic/vibronic_model_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index ea79d84..2ab2dd1 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -561,6 +561,11 @@ def _load_inplace_from_JSON(path, dictionary):
 
     VMK.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
 
+    # numpy would silently broadcast some arrays of a smaller model over the provided arrays
+    dims_file = _extract_dimensions_from_dictionary(input_dictionary)
+    dims_dict = _extract_dimensions_from_dictionary(dictionary)
+    assert dims_file == dims_dict, f"dimensions (A, N) of the file {dims_file} and the arrays {dims_dict} differ"
+
     for key, value in dictionary.items():
         if isinstance(value, (np.ndarray, np.generic)):
             # this is a safer way of forcing the input arrays that have no corresponding key in the input_dictionary to have zero values
-- 
2.43.0


From 9a6dd125cfd28f9b06001cdbd70208b6a909df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 06/53] fix: directories_exist() looks at the directories
 instead of the names of the attributes

---
 pibronic/data/file_structure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..622e8bd 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,9 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
-            return False
-        return True
+        return all(os.path.isdir(getattr(self, directory)) for directory in self.dir_list)
 
     def make_directories(self):
         """x"""
-- 
2.43.0


From ed63561466e9f769df16d415f20a46a3172ab6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 07/53] fix: all paths of a FileStructure stay valid when the
 root was given as a relative path

---
 pibronic/data/file_structure.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 622e8bd..7d585e8 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -79,14 +79,14 @@ class FileStructure:
         # special
         self.path_es = join(self.path_data, "electronic_structure")
         # sub directories
-        self.path_vib_params = join(path_root, self.template_vib_params.format(id_data))
-        self.path_vib_results = join(path_root, self.template_vib_results.format(id_data))
-        self.path_vib_output = join(path_root, self.template_vib_output.format(id_data))
-        self.path_vib_plots = join(path_root, self.template_vib_plots.format(id_data))
-        self.path_rho_params = join(path_root, self.template_rho_params.format(id_data, id_rho))
-        self.path_rho_results = join(path_root, self.template_rho_results.format(id_data, id_rho))
-        self.path_rho_output = join(path_root, self.template_rho_output.format(id_data, id_rho))
-        self.path_rho_plots = join(path_root, self.template_rho_plots.format(id_data, id_rho))
+        self.path_vib_params = join(self.path_root, self.template_vib_params.format(id_data))
+        self.path_vib_results = join(self.path_root, self.template_vib_results.format(id_data))
+        self.path_vib_output = join(self.path_root, self.template_vib_output.format(id_data))
+        self.path_vib_plots = join(self.path_root, self.template_vib_plots.format(id_data))
+        self.path_rho_params = join(self.path_root, self.template_rho_params.format(id_data, id_rho))
+        self.path_rho_results = join(self.path_root, self.template_rho_results.format(id_data, id_rho))
+        self.path_rho_output = join(self.path_root, self.template_rho_output.format(id_data, id_rho))
+        self.path_rho_plots = join(self.path_root, self.template_rho_plots.format(id_data, id_rho))
 
         # root_suffix = "D{:d}_R{:d}_".format(id_data, id_rho)
         # self.pimc_suffix = root_suffix + "P{P:d}_T{T:.2f}_J*_data_points.npz"
-- 
2.43.0


From 8f6dc2d209b891ee358719002a7237a399fdd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 08/53] fix: change_rho() also updates the rho id, the rho
 directory and drops the old rho hash

---
 pibronic/data/file_structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 7d585e8..13f5a17 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -173,7 +173,12 @@ class FileStructure:
         calls make_rho_directories() to ensure the directories exist
         """
         self.make_rho_directories(id_rho)
+        self.id_rho = id_rho
+        # the hash of the previous sampling model is not valid any more
+        if self._has_rho_hash():
+            del self.hash_rho
         # update all the rho paths
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
-- 
2.43.0


From bd9cfa6994eb140c8eea6d1c007419bdbb903f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 09/53] fix: parameters of the trotter files can be extracted
 from their paths

---
 pibronic/data/postprocessing.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..449a234 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -14,7 +14,7 @@ import json
 import glob
 # import sys
 import os
-from os.path import join
+from os.path import basename, join
 
 # third party imports
 import numpy as np
@@ -86,16 +86,20 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(basename(file_path).split("trotter_P")[1].split("_B")[0])
+
+
+def extract_basis_value_from_trotter_file_path(file_path):
+    """ does what it says, returns an int """
+    return int(basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        basis_size = extract_basis_value_from_trotter_file_path(path)
+        trotterDict[basis_size].append(extract_bead_value_from_trotter_file_path(path))
 
     return trotterDict
 
-- 
2.43.0


From 67664fceda427e833c6e2a65bfb24c6e195580b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 10/53] fix: extract parameters from the file name only, not
 from the directories above it

---
 pibronic/data/postprocessing.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 449a234..abb7780 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -106,7 +106,7 @@ def extract_trotter_paramater_list(list_trotter):
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -121,7 +121,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -134,7 +134,7 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(basename(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
@@ -150,7 +150,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(basename(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -163,17 +163,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(basename(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(basename(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
-- 
2.43.0


From f828206e286cee8f9247482645f6312c3b17bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:09 +0000
Subject: [PATCH 11/53] fix: only pool the pimc results which belong to the
 current models

---
 pibronic/data/postprocessing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index abb7780..ba582af 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -200,6 +200,17 @@ def prune_results_using_hashes(FS, list_pimc):
     return output_list
 
 
+def retrive_valid_pimc_file_list(FS, P, T):
+    """return a list of the full path to each pimc file with the same P and T
+    if the FileStructure object has hashes then the files which were generated for other
+    models are not included"""
+    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    list_pimc = [file for file in glob.glob(path_data_points)]
+    if FS._has_hash_values():
+        list_pimc = prune_results_using_hashes(FS, list_pimc)
+    return list_pimc
+
+
 def retrive_file_paths_for_jackknife(FS):
     """return three lists of the full paths to each data file that might be used"""
 
@@ -306,8 +317,7 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
-    list_of_files = [file for file in glob.glob(path_data_points)]
+    list_of_files = retrive_valid_pimc_file_list(FS, P, T)
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
-- 
2.43.0


From 04b76fc102c50d7ab733295e7f0d4ee77ae6d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:09 +0000
Subject: [PATCH 12/53] fix: only analyze the combinations of beads and
 temperatures which have results

---
 pibronic/stats/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ef21d65..ae54485 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -245,6 +245,8 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
     # dispatch multiple processes to execute the analyze concurrently
     if location is "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
+        # not every combination of beads and temperatures needs to have results
+        arg_list = [args for args in arg_list if pp.retrive_valid_pimc_file_list(*args)]
 
         with mp.Pool(__number_of_processes) as p:
             p.starmap(basic_wrapper, arg_list)
@@ -359,6 +361,8 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
     # dispatch multiple processes to execute the analyze concurrently
     if location is "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
+        # not every combination of beads and temperatures needs to have results
+        arg_list = [args for args in arg_list if pp.retrive_valid_pimc_file_list(*args)]
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
 
-- 
2.43.0


From 4567243f838380938d83856cfbb66c40f4c5a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:09 +0000
Subject: [PATCH 13/53] fix: compare the method and location of an analysis by
 value, and refuse unknown ones

---
 pibronic/stats/stats.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ae54485..b6cefbe 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -172,7 +172,7 @@ def starmap_wrapper(FS, P, T, statistical_operation):
         raise AttributeError(f"FS {FS:} doesn't have hash_vib or hash_rho attributes!")
 
     # save the data to disk
-    assert pimc_results.samples is not 0, "pimc_results has 0 samples! reading the data failed?!"
+    assert pimc_results.samples != 0, "pimc_results has 0 samples! reading the data failed?!"
     path = FS.template_jackknife.format(P=P, T=T, X=pimc_results.samples)
 
     with open(path, mode='w', encoding='UTF8') as target_file:
@@ -235,15 +235,15 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
                 ]
 
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_statistical_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_statistical_analysis
     else:
         raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         # not every combination of beads and temperatures needs to have results
         arg_list = [args for args in arg_list if pp.retrive_valid_pimc_file_list(*args)]
@@ -251,7 +251,7 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
         with mp.Pool(__number_of_processes) as p:
             p.starmap(basic_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -353,20 +353,22 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
                 for T in args["temperatures"]
                 ]
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_jackknife_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_jackknife_analysis
+    else:
+        raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         # not every combination of beads and temperatures needs to have results
         arg_list = [args for args in arg_list if pp.retrive_valid_pimc_file_list(*args)]
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -376,7 +378,7 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
         # TODO - write code that submits jobs to the server
 
     else:
-        raise Exception(f"Invalid value for paramter location:({location:s})")
+        raise Exception(f"Invalid value for parameter location:({location})")
 
     return
 
-- 
2.43.0


From 5bb51537e346a6a30fe7903e269b34b940562a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 14/53] fix: find the result files when the root directory
 contains wildcard characters

---
 pibronic/data/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index ba582af..ca610a3 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -47,25 +47,25 @@ from ..data import file_name
 
 def retrive_pimc_file_list(FS):
     """return a list of the full path to each pimc file that might be used"""
-    globPath = FS.path_rho_results + file_name.pimc(P="*", T="*", J="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.pimc(P="*", T="*", J="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_jackknife_file_list(FS):
     """return a list of the full path to each jackknife file that might be used"""
-    globPath = FS.path_rho_results + file_name.jackknife(P="*", T="*", X="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.jackknife(P="*", T="*", X="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = FS.path_vib_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_vib_params) + file_name.sos("*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = FS.path_rho_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_rho_params) + file_name.sos("*")
     return [file for file in glob.glob(globPath)]
 
 
@@ -204,7 +204,7 @@ def retrive_valid_pimc_file_list(FS, P, T):
     """return a list of the full path to each pimc file with the same P and T
     if the FileStructure object has hashes then the files which were generated for other
     models are not included"""
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    path_data_points = glob.escape(FS.path_rho_results) + file_name.pimc(J="{J:s}").format(P=P, T=T, J="*")
     list_pimc = [file for file in glob.glob(path_data_points)]
     if FS._has_hash_values():
         list_pimc = prune_results_using_hashes(FS, list_pimc)
-- 
2.43.0


From e18e9376fb8c3c5e95b92f926db2ab575dea784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:02 +0000
Subject: [PATCH 15/53] fix: file name templates work when the root directory
 contains braces

---
 pibronic/data/file_structure.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 13f5a17..5dc34bb 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -28,6 +28,11 @@ list_sub_dirs = [
     ]
 
 
+def _escape_braces(path):
+    """ returns the path such that it can be used as part of a format string """
+    return path.replace("{", "{{").replace("}", "}}")
+
+
 # should this be renamed to DirectoryStructure?
 class FileStructure:
     """handles creation and verification of default file structure storing data from/to jobs"""
@@ -93,11 +98,11 @@ class FileStructure:
         # self.jackknife_suffix = root_suffix + "P{P:d}_T{T:.2f}_X{X:d}_thermo"
 
         # can't use os.path.join on these because they are format strings that haven't been fully resolved yet
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
-        self.template_sos_vib = self.path_vib_params + file_name.sos()
-        self.template_trotter_vib = self.path_vib_params + file_name.trotter()
+        self.template_pimc = _escape_braces(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = _escape_braces(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = _escape_braces(self.path_rho_params) + file_name.sos()
+        self.template_sos_vib = _escape_braces(self.path_vib_params) + file_name.sos()
+        self.template_trotter_vib = _escape_braces(self.path_vib_params) + file_name.trotter()
 
         # TODO - should we factor this out into the file_name module?
         # self.template_pimc = file_name.pimc
@@ -189,9 +194,9 @@ class FileStructure:
                                    self.template_rho_plots.format(self.id_data, id_rho))
 
         #
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
+        self.template_pimc = _escape_braces(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = _escape_braces(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = _escape_braces(self.path_rho_params) + file_name.sos()
 
         # TODO - now we can't reliably update the self.dir_list
         # should have a mode modular way of doing this
-- 
2.43.0


From caf5b6952f7f14be1f287519a45626807402a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 16/53] fix: fill the O matrix for every state of the sampling
 model

---
 pibronic/pimc/pimc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index d3ec9ed..7306ace 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1107,10 +1107,11 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    # the sampling model can have a different number of states than the vibronic model
+    temp_states = model.omatrix.shape[2]
+    for a in range(temp_states):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
-    temp_states = model.omatrix.shape[2]
     # asserts that the tensor is diagonal along axis (2,3)
     for a, b in it.product(range(temp_states), range(temp_states)):
         if a == b:
-- 
2.43.0


From a8c9d3ea7d0832b927c3aa3072dc7d487cdecd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 17/53] fix: evaluate the coupling at beta plus/minus delta
 beta for g plus/minus

---
 pibronic/pimc/pimc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 7306ace..901e70a 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -59,6 +59,8 @@ np.random.seed()  # random
 class TemperatureDependentClass:
     """store temperature dependent constants here"""
     def __init__(self, model, tau):
+        self.tau = tau
+
         # construct the coth and csch tensors
         omega = np.broadcast_to(model.omega, model.size['AN'])
         self.cothAN = np.tanh(hbar*tau*omega)**(-1.)
@@ -1181,7 +1183,7 @@ def build_numerator(data, vib, outputArray, idx):
     # build the M matrix
     np.einsum('abcd, abd, abed->abce',
               data.coupling_eigvects,
-              np.exp(-data.tau*data.coupling_eigvals),  # replace this part to salis
+              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis
               data.coupling_eigvects,
               out=data.M_matrix,
               optimize='optimal'
-- 
2.43.0


From 4e3e76004e45c7d8f250f7341435687f9d199336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 18/53] fix: BoxDataPM computes beta plus/minus from the
 current temperature

---
 pibronic/pimc/pimc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 901e70a..05f5c64 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -729,14 +729,14 @@ class BoxDataPM(BoxData):
 
     def preprocess(self):
         """"""
+        # do the usual work
+        super().preprocess()
+
         # compute extra constants
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
         self.tau_plus = self.beta_plus / self.beads
         self.tau_minus = self.beta_minus / self.beads
-
-        # do the usual work
-        super().preprocess()
         return
 
 
-- 
2.43.0


From f74875aa4679cb67cbc61a76c1be61cfe44d330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 19/53] fix: displace the input coordinates only once when
 evaluating g(R) and rho(R)

---
 pibronic/pimc/pimc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 05f5c64..85ab858 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -606,10 +606,8 @@ class BoxData:
         they only have the correct dimensions BANP and are shifted appropriately """
         # generate sample points in dimensionless co-ordinates R
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
+        # the surface dependent displacement is applied by build_o_matrix()
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
-
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1293,9 +1291,9 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
         sample_view = slice(start, end)
 
         # we copy in the data values that we read in from load_R_samples
+        # the surface dependent displacement is applied by build_o_matrix()
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
-- 
2.43.0


From 510bd9c864cea91081f2d7397eb2d0c8300562a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 20/53] fix: BoxData.from_json_file() can be called

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 85ab858..53c2079 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -499,7 +499,7 @@ class BoxData:
         """constructor wrapper"""
         with open(path, mode='r', encoding='UTF8') as target_file:
             file_data = target_file.read()
-        return cls.from_json_string(cls, file_data)
+        return cls.from_json_string(file_data)
 
     @classmethod
     def from_json_string(cls, json_str):
-- 
2.43.0


From d946f850fb09ee12f64073b4d951093d257cfdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:13 +0000
Subject: [PATCH 21/53] fix: weights of the sampling surfaces do not vanish for
 low temperatures or high energies

---
 pibronic/pimc/pimc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 53c2079..f2f7b52 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -342,11 +342,12 @@ class ModelSampling(ModelClass):
 
     def compute_weight_for_each_state(self):
         """these are the weights for the oscillators associated with each state"""
-        self.state_weight = np.exp(-self.beta * (self.energy + self.delta_weight))
-        # self.state_weight /= 2. * np.prod(np.sinh((self.beta * self.omega) / 2.))
+        exponent = -self.beta * (self.energy + self.delta_weight)
+        # only the relative weights matter, so prevent them from all being zero (or infinite)
+        self.state_weight = np.exp(exponent - exponent.max())
 
-        # we believe the factor of 2 on the outside cancels out in equation 49.
-        self.state_weight /= np.prod(np.sinh((self.beta * self.omega) / 2.))
+        # all states have the same frequencies so the factor 1 / (2 * sinh(beta * omega / 2)) of each mode
+        # cancels out in equation 49 when the weights are normalized
 
         # normalize the weights
         self.state_weight /= self.state_weight.sum()
-- 
2.43.0


From 894dc647805cccdddcf54091d20d9a34e1d612b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 22/53] fix: do not store the incomplete output of a Julia
 calculation that failed

---
 pibronic/julia_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 819d93c..f895d6b 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -103,6 +103,11 @@ def compute(command, path_src, old_dict, input_beta):
         print(f"We ran into an error: {error.decode():s}")
         return False
 
+    # the output of a calculation that failed is not complete
+    if p.returncode != 0:
+        print(f"The calculation failed with exit code {p.returncode}: {error.decode():s}")
+        return False
+
     output_dict = parse_ouput(out)
     # print(output_dict)
 
-- 
2.43.0


From 2d62eaf26506314bfc8616d8de306450685d2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 23/53] fix: stored results survive a failing write and
 calculations that finish in the meantime

---
 pibronic/julia_wrapper.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index f895d6b..1f98a6f 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -158,6 +158,12 @@ def validate_old_model_data(old_dict, FS):
 
 def base_func(FS, beta, path_dst=None, path_src=None, validate=None, command=None):
 
+    new_dict = {}
+
+    if not compute(command, path_src, new_dict, beta):
+        raise Exception("Calculation did not complete successfully")
+
+    # read the old data after the calculation, other calculations could have finished in the meantime
     old_dict = {}
 
     if isfile(path_dst):
@@ -167,13 +173,17 @@ def base_func(FS, beta, path_dst=None, path_src=None, validate=None, command=Non
                 old_dict = json.loads(data)
 
     validate(old_dict, FS)
+    old_dict.update(new_dict)
 
-    if compute(command, path_src, old_dict, beta):
-        validate(old_dict, FS)
-        with open(path_dst, 'w') as file:
+    # never leave a partially written file behind
+    path_tmp = path_dst + f".tmp{os.getpid():d}"
+    try:
+        with open(path_tmp, 'w') as file:
             json.dump(old_dict, file)
-    else:
-        raise Exception("Calculation did not complete successfully")
+        os.replace(path_tmp, path_dst)
+    finally:
+        if isfile(path_tmp):
+            os.remove(path_tmp)
 
     return
 
-- 
2.43.0


From 4d2cb67ae599d8f6d24cc672ea9848b01cfdcb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 24/53] fix: Julia calculations work below directories with
 spaces in their names

---
 pibronic/julia_wrapper.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 1f98a6f..8b458e9 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -4,6 +4,7 @@
 import subprocess
 import argparse
 import json
+import shlex
 import sys
 import os
 from os.path import join, isfile, dirname, realpath
@@ -192,7 +193,7 @@ def analytic_wrapper(FS, beta, **kwargs):
     """ this wrapper evaluates the given command with the appropriate arguments
     before passing the args to the base_func()
     """
-    kwargs["command"] = kwargs["command"].format(F=kwargs["path_src"], T=beta)
+    kwargs["command"] = kwargs["command"].format(F=shlex.quote(kwargs["path_src"]), T=beta)
     base_func(FS, beta, **kwargs)
     return
 
@@ -231,7 +232,7 @@ def sos_wrapper(FS, basis_size, beta, **kwargs):
     """ this wrapper evaluates the given command with the appropriate arguments
     before passing the args to the base_func()
     """
-    kwargs["command"] = kwargs["command"].format(F=FS.path_vib_model, T=beta, B=basis_size)
+    kwargs["command"] = kwargs["command"].format(F=shlex.quote(FS.path_vib_model), T=beta, B=basis_size)
     base_func(FS, beta, **kwargs)
     return
 
@@ -255,7 +256,7 @@ def trotter_wrapper(FS, nbeads, basis_size, beta, **kwargs):
     """ this wrapper evaluates the given command with the appropriate arguments
     before passing the args to the base_func()
     """
-    kwargs["command"] = kwargs["command"].format(F=FS.path_vib_model, T=beta,
+    kwargs["command"] = kwargs["command"].format(F=shlex.quote(FS.path_vib_model), T=beta,
                                                  B=basis_size, P=nbeads)
     base_func(FS, beta, **kwargs)
     return
@@ -283,8 +284,8 @@ def iterate_method(FS, n_iterations=50):
     path_iterate = FS.path_iter_model
 
     command = construct_command_dictionary()["iterative"]
-    command = command.format(F=FS.path_vib_model, P=path_iterate,
-                             VS=FS.path_iter_mat, N=n_iterations,
+    command = command.format(F=shlex.quote(FS.path_vib_model), P=shlex.quote(path_iterate),
+                             VS=shlex.quote(FS.path_iter_mat), N=n_iterations,
                              )
     # print("command", command)
 
-- 
2.43.0


From 489f5c7d1ce0a90c0a10023a35c48c94d2a6246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:14 +0000
Subject: [PATCH 25/53] fix: submitted jobs use the python executable and the
 scripts next to job_boss.py

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..c508529 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -30,12 +30,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From 43a3a93adb19b0af2b4ef89f34650857097fefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:14 +0000
Subject: [PATCH 26/53] fix: submission objects do not share their parameters

---
 pibronic/server/job_boss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index c508529..0a37145 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -6,6 +6,7 @@ import subprocess
 import threading
 import socket
 import signal
+import copy
 import time
 import sys
 import os
@@ -464,6 +465,9 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # the defaults are shared by all objects, do not modify them
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
@@ -577,7 +581,6 @@ class PimcSubmissionClass(SubmissionClass):
         temperature_list = self.param_dict["temperature_list"]
         bead_list = self.param_dict["bead_list"]
 
-        import copy
         for T in temperature_list:
             for P in bead_list:
 
-- 
2.43.0


From 01588a593697526a2970fde752f7a67861a2aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:14 +0000
Subject: [PATCH 27/53] fix: the submitted jobs draw at least the requested
 number of samples, in whole blocks

---
 pibronic/server/job_boss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 0a37145..2111af4 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -553,8 +553,8 @@ class PimcSubmissionClass(SubmissionClass):
         assert block_size <= n_samples, f"block size {block_size} must be less than or equal to the number of samples {n_samples}"
         assert block_size <= self.MAX_SAMPLES_PER_JOB, f"block size {block_size} must be less than or equal to the maximum number of samples per job {self.MAX_SAMPLES_PER_JOB}"
 
-        # calculate how many samples we need for each job
-        samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB)
+        # calculate how many samples we need for each job, a job can only draw whole blocks
+        samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB) // block_size * block_size
         self.param_dict["number_of_samples_per_job"] = samples_per_job
         self.param_dict["number_of_samples"] = samples_per_job
 
@@ -566,11 +566,11 @@ class PimcSubmissionClass(SubmissionClass):
         total_samples = self.param_dict["number_of_samples_overall"]
 
         # TODO - HACKY
-        if total_samples is 0:
+        if total_samples == 0:
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        self.n_jobs = max(1, -(-total_samples // samples_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From ac9b1015a9229ca421bad9b98e61297ab1139473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 28/53] fix: coefficients between a surface and itself are
 counted once when reading .op files

---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From 61e2d161b4093d793578ccb128c2b912fd8b74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:20 +0000
Subject: [PATCH 29/53] fix: do not lose the couplings of .op files without
 sections for higher orders

---
 pibronic/vibronic/model_op.py | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index 5bdb09a..a54f413 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -91,6 +91,17 @@ def extract_normal_mode_frequencies(path, memmap):
     return frequencies
 
 
+def find_end_of_section(path, memmap, begin, endString):
+    """returns the location of the header following the section that starts at begin
+    files do not have to contain all sections, the last one ends with the parameter section"""
+    end = memmap.find(endString.encode(encoding="utf-8"), begin)
+    if end == -1:
+        end = memmap.find(b'end-parameter-section', begin)
+    if end == -1:
+        raise Exception(f"Could not find the end of the section at byte {begin:d} of\n{path:}\nthe file might be incomplete")
+    return end
+
+
 def extract_linear_couplings(path, memmap, coupling_terms):
     """x"""
     # find the beginning and ending of the important region
@@ -98,7 +109,7 @@ def extract_linear_couplings(path, memmap, coupling_terms):
     beginString = 'Linear Coupling Constants'
     begin = helper.find_string_in_file(memmap, path, beginString)
     endString = 'Diagonal Quadratic Coupling Constants'
-    end = helper.find_string_in_file(memmap, path, endString)
+    end = find_end_of_section(path, memmap, begin, endString)
 
     # go to the beginning of that region
     memmap.seek(begin)
@@ -129,12 +140,13 @@ def extract_quadratic_couplings(path, memmap, coupling_terms):
         memmap.seek(0)  # start looking from the beginning of the file
         beginString = 'Diagonal Quadratic Coupling Constants'
         begin = helper.find_string_in_file(memmap, path, beginString)
-        endString = 'Cubic Coupling Constants'
-        end = helper.find_string_in_file(memmap, path, endString)
     except Exception as e:
         print("Couldn't find Quadratic couplings")
         return
 
+    endString = 'Cubic Coupling Constants'
+    end = find_end_of_section(path, memmap, begin, endString)
+
     # go to the beginning of that region
     memmap.seek(begin)
 
@@ -164,12 +176,13 @@ def extract_cubic_couplings(path, memmap, coupling_terms):
         memmap.seek(0)  # start looking from the beginning of the file
         beginString = 'Cubic Coupling Constants'
         begin = helper.find_string_in_file(memmap, path, beginString)
-        endString = 'Quartic Coupling Constants'
-        end = helper.find_string_in_file(memmap, path, endString)
     except Exception as e:
         print("Couldn't find Cubic couplings")
         return
 
+    endString = 'Quartic Coupling Constants'
+    end = find_end_of_section(path, memmap, begin, endString)
+
     # go to the beginning of that region
     memmap.seek(begin)
 
@@ -199,12 +212,13 @@ def extract_bicubic_couplings(path, memmap, coupling_terms):
         memmap.seek(0)  # start looking from the beginning of the file
         beginString = 'Bi-Cubic Constants'
         begin = helper.find_string_in_file(memmap, path, beginString)
-        endString = 'Bi-Quartic Constants'
-        end = helper.find_string_in_file(memmap, path, endString)
     except Exception as e:
         print("Couldn't find biCubic couplings")
         return
 
+    endString = 'Bi-Quartic Constants'
+    end = find_end_of_section(path, memmap, begin, endString)
+
     # go to the beginning of that region
     memmap.seek(begin)
 
@@ -235,13 +249,12 @@ def extract_quartic_couplings(path, memmap, coupling_terms):
         memmap.seek(0)  # start looking from the beginning of the file
         beginString = 'Quartic Coupling Constants'
         begin = helper.find_string_in_file(memmap, path, beginString)
-        endString = 'Bi-Cubic Constants'
-        end = helper.find_string_in_file(memmap, path, endString)
     except Exception as e:
         print("Couldn't find Quartic couplings")
         return
 
-
+    endString = 'Bi-Cubic Constants'
+    end = find_end_of_section(path, memmap, begin, endString)
 
     # go to the beginning of that region
     memmap.seek(begin)
@@ -272,12 +285,13 @@ def extract_biquartic_couplings(path, memmap, coupling_terms):
         memmap.seek(0)  # start looking from the beginning of the file
         beginString = 'Bi-Quartic Constants'
         begin = helper.find_string_in_file(memmap, path, beginString)
-        endString = 'end-parameter-section'
-        end = helper.find_string_in_file(memmap, path, endString)
     except Exception as e:
         print("Couldn't find biQuadratic couplings")
         return
 
+    endString = 'end-parameter-section'
+    end = find_end_of_section(path, memmap, begin, endString)
+
     # go to the beginning of that region
     memmap.seek(begin)
 
-- 
2.43.0


From f014e7fe587c89644b2cfbf8ee3777047cbe6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:31 +0000
Subject: [PATCH 30/53] fix: read the reference Hamiltonian of .auto files only
 once

---
 pibronic/vibronic/model_auto.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pibronic/vibronic/model_auto.py b/pibronic/vibronic/model_auto.py
index c16d31f..266c8d5 100755
--- a/pibronic/vibronic/model_auto.py
+++ b/pibronic/vibronic/model_auto.py
@@ -170,8 +170,6 @@ def read_model_auto_file(filename):
     # ========================
 
     title_header.read(next(f_iter))
-    for a in el_range:
-        excitation_energies[a, :] = coefficient_header.read(next(f_iter))
     fill_in_excitation_energies(f_iter, el_range, excitation_energies)
 
     # ===============================
-- 
2.43.0


From c69e78a24f486b81cc7ac5687e1c79b1dd0a51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:05 +0000
Subject: [PATCH 31/53] fix: an alarm which arrives after waiting for a job
 does not terminate the process

---
 pibronic/server/job_boss.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 2111af4..93a766f 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -83,10 +83,18 @@ def SIGUSR1_handle(signum, frame):
     else:
         log.lock("I couldn't aquire the lock so I'm setting an alarm")
         job_almost_done_flag = (signum == signal.SIGUSR1)
+        # the wait might be over when the alarm arrives, and by default it terminates the process
+        if signal.getsignal(signal.SIGALRM) == signal.SIG_DFL:
+            signal.signal(signal.SIGALRM, SIGALRM_handle)
         signal.alarm(10)  # set the alarm to wake up this thread
     return
 
 
+def SIGALRM_handle(signum, frame):
+    """signal handler - the alarm only has to wake up a thread which waits for it"""
+    return
+
+
 def check_acct_state(id_job):
     """returns the recorded state of the job (from SLURM) as a string"""
     cmd = ['sacct', '-n', '-o', 'state', '-j', str(id_job)]
-- 
2.43.0


From af788384515834ae32f1ceeae86a29d82fd1035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 32/53] fix: do not wait forever for the signal of a job which
 was killed

---
 pibronic/server/job_boss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 93a766f..d550b2a 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -121,7 +121,11 @@ def synchronize_with_job(id_job, job_type="default"):
             if not job_almost_done_flag:
                 # wait for the signal or the alarm
                 log.lock(f"Waiting on \'{job_type:s}\' job (id={id_job:})")
-                signal.sigwait([signal.SIGUSR1, signal.SIGALRM])
+                # a job which is killed sends no signal, so regularly check if the job is still in the queue
+                while signal.sigtimedwait([signal.SIGUSR1, signal.SIGALRM], 60) is None:
+                    out, error_state = check_running_state(id_job)
+                    if job_almost_done_flag or "COMPLETED" in out or error_state != '':
+                        break
                 log.lock("Woke up")
 
             log.lock("About to leave the critical section")
-- 
2.43.0


From 499ad494f0df76e75cb2536c3387eaad7817c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 33/53] fix: search the whole output of a job for signs of
 failure

---
 pibronic/server/job_boss.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index d550b2a..43beef2 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -162,19 +162,21 @@ def check_slurm_output(path_root, id_job):
     log.debug(f"Checking slurm output:\n{slurm_path:}\n")
 
     with open(slurm_path, "r") as source_file:
-        if not ("Finished" in source_file):
-            log.debug("We got here too early?")  # should this be an exception?
+        output = source_file.read()
 
-        elif "SIGSEGV" in source_file:
-            raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+    if not ("Finished" in output):
+        log.debug("We got here too early?")  # should this be an exception?
 
-        elif "Killed" in source_file:
-            # most likely cause is that it ran out of memory
-            if "Exceeded step memory limit" in source_file:
-                raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
-            raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
-        else:
-            log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
+    elif "SIGSEGV" in output:
+        raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+
+    elif "Killed" in output:
+        # most likely cause is that it ran out of memory
+        if "Exceeded step memory limit" in output:
+            raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
+        raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
+    else:
+        log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
     return
 
 
-- 
2.43.0


From 780f1aec7633e30692bed3d722171ea1174ef504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 34/53] fix: jobs of the electronic structure workflow could
 not be prepared

---
 pibronic/server/job_boss.py               |  9 +++++----
 pibronic/vibronic/electronic_structure.py | 24 +++++++++++------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 43beef2..f501531 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -25,10 +25,6 @@ from .. import pimc
 job_state_lock = threading.Lock()
 job_almost_done_flag = False
 
-# this should be redone
-# partition = 'highmem' if hostname == 'feynman' else 'serial'
-
-
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
     return os.path.abspath(sys.executable)
@@ -69,6 +65,11 @@ def get_hostname():
         raise Exception("Did not find ClusterName in the config data from scontrol!?")
 
 
+def get_partition():
+    """returns the default partition of the server as a string"""
+    return 'highmem' if get_hostname() == 'feynman' else 'serial'
+
+
 def SIGUSR1_handle(signum, frame):
     """signal handler - uses job_state_lock to record signal using the bool job_almost_done_flag"""
     global job_almost_done_flag
diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 842af2e..47170c9 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -438,14 +438,14 @@ def hartree_fock_calculation(path_root, name, zmat, parameter_dictionary, hf_typ
         "cpus": 1,
         "work_dir": path_root,
         "output": path_output,
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": 0,
         "scratch_in": copy_in,
         "scratch_out": copy_out,
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -712,14 +712,14 @@ def geometry_optimization(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -850,14 +850,14 @@ def vibrational_frequency(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "fcm",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -919,14 +919,14 @@ def ip_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1068,14 +1068,14 @@ def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 2,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "vibron",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1250,14 +1250,14 @@ def vibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobvibron",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
-- 
2.43.0


From f659d65328256228b7a63199f701aba435df44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:37 +0000
Subject: [PATCH 35/53] fix: jobs of the electronic structure workflow could
 not be submitted

---
 pibronic/vibronic/electronic_structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 47170c9..0c3b053 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -347,9 +347,9 @@ def submit_job(parameter_dictionary):
     job_id, out, error = job_boss.submit_job(command, parameter_dictionary)
 
     # check for any errors
-    if error.decode('utf-8') is not "":
+    if error != "":
         s = "Failed to execute script \n{:s}\n due to {:s}"
-        raise Exception(s.format(command, error.decode('utf-8')))
+        raise Exception(s.format(command, error))
 
     return job_id
 # -----------------------------------------------------------
-- 
2.43.0


From fa7530f2c0528fcea3ebc887faab66376e6370df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:42 +0000
Subject: [PATCH 36/53] fix: return the template of the input for vibron

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 0c3b053..710cbbd 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1040,7 +1040,7 @@ def _create_template(zmat, memory_size):
     template += "\n\t" + "heff_high=200"
     template += "\n" + "*end"
     template += "\n"
-    return
+    return template
 
 
 def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
-- 
2.43.0


From afdb3ca881d0f2cd8d92c13c392eb187f1cbbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 37/53] fix: verify the percentage of singles, the table was
 never read

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 710cbbd..803173e 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -965,7 +965,7 @@ def parse_ip_output(vibron):
 
                 # throw away the header lines
                 past_headers = skip_forward_n_lines(memmap_file, 5, memmap_file.tell())
-                memmap_file.seek(past_headers)
+                memmap_file.seek(past_headers + 1)  # the byte after the newline of the last header line
 
                 # store the lines with the relevant information
                 lines = []
-- 
2.43.0


From 37dde4d1602ed85ab128779b4dccfdd68d47753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 38/53] fix: continue the electronic structure workflow after
 its last completed step

---
 pibronic/vibronic/electronic_structure.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 803173e..d64a988 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1520,24 +1520,28 @@ class VibronExecutionClass:
 
             old_state = str(line.strip())
 
-            if old_state == State(State.max()):
+            # everything was completed
+            if old_state == State(State.max()).name:
                 self.state = State(State.max())
+                break
 
-            elif old_state in State:
-                self.state = State(State(old_state).value + 1)
+            # continue with the step after the last completed one
+            elif old_state in State.__members__:
+                self.state = State(State[old_state].value + 1)
+                break
 
-            for member in State:
-                if member.name == str(line.strip()):
-                    self.state = State(member.value + 1)
-                    break
             else:
                 s = ("State file {:s} contained an invalid state: {:s}"
                      "Defaulting to initial state"
                      )
-                log.debug(s.format(line, self.path_state))
+                log.debug(s.format(self.path_state, line))
                 self.state = State(State.min())
                 break
 
+        # the file has only blank lines
+        else:
+            self.state = State(State.min())
+
         return
 
     def parse_input_parameters(self, file_path=None):
-- 
2.43.0


From 0305fd63e129662fd1ada8be3d0faafef8faf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 39/53] fix: do not record a failed vibron calculation as
 completed

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index d64a988..edabfd3 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1629,6 +1629,7 @@ class VibronExecutionClass:
         """wrapper method"""
         if self.state == State.VIBRON:
             vibron_calculation(self.path_root, self.name, self.zmat, self.parameter_dictionary)
+            parse_vibron_output(self)  # the calculation is only completed if it was successful
             self.advance()
         return
 
@@ -1657,7 +1658,6 @@ class VibronExecutionClass:
             parse_prepVibron_output(self)
 
             self.vibron_calc()
-            parse_vibron_output(self)
             self.advance()  # important to do after parsing vibron_output
             log.info("We have reached the end of execution.")
         return
-- 
2.43.0


From 8fcd01bd2c447f63b3701aa261e7289fc815f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 40/53] fix: parameters of one electronic structure workflow
 changed those of others

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index edabfd3..de6ce1a 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1441,6 +1441,7 @@ class VibronExecutionClass:
     def __init__(self, name, root, state=None):
         self.name = name
         self.path_root = root
+        self.parameter_dictionary = self.parameter_dictionary.copy()  # the defaults are shared by all objects
         self.file_in = default_file_in.copy()
         self.file_out = default_file_out.copy()
         self.path_state = join(self.path_root, name_of_state_file)
-- 
2.43.0


From e39722b0e2b46f7891ec152d845efc68f66b96f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 41/53] fix: numerical parameters of a parameter file could not
 be used

---
 pibronic/vibronic/electronic_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index de6ce1a..6d5bded 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1569,6 +1569,10 @@ class VibronExecutionClass:
                             s = "Header {:s} is not valid\n Check that your {:s} has the correct formatting"
                             raise ValueError(s.format(header, file_path))
 
+                        # numerical parameters have numerical default values
+                        if isinstance(self.parameter_dictionary[header], int):
+                            data = int(data)
+
                         self.parameter_dictionary[header] = data
 
         except ValueError as error_object:
-- 
2.43.0


From 4c13a4edf61e2f9f01352df5efa28825edbf450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 42/53] fix: plots do not compare results with the sum over
 states of another data set

---
 pibronic/plotting/plotting.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 2d8d1d9..695b4ed 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -3,7 +3,6 @@
 
 # system imports
 import json
-import os
 from os.path import join
 
 # third party imports
@@ -66,9 +65,9 @@ def load_sos(self, basis_size=80):
     for idx_FS, FS in enumerate(self.FS_lst):
         path = FS.template_sos_vib.format(B=basis_size)
 
-        if os.path.isfile(path):
-            with open(path, 'r') as file:
-                data = json.loads(file.read())
+        # never use the data of the previous FS if there is no data for this one
+        with open(path, 'r') as file:
+            data = json.loads(file.read())
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
-- 
2.43.0


From 223bb79664d94d80ca804a76328d14590c0aa416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:42 +0000
Subject: [PATCH 43/53] fix: the sum over states data of a plot is loaded into
 sos_list

---
 pibronic/plotting/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 695b4ed..7d7c579 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -680,7 +680,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                     idx_T = self.lst_T[idx_FS].index(T)
 
                     view = self.arr[idx_FS][:, idx_T, idx_X].view()
-                    sos = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+                    sos = self.sos_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
 
                     view["Z"] -= sos
                     view["Z"] *= 100.0
@@ -732,7 +732,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                                    label=label)
                 ax[idx_T].legend()
 
-                true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+                true_answer = self.sos_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
                 if self.percent_error:
                     true_answer = 0.0
 
@@ -806,7 +806,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                             label=label)
             # --------------------------------------------------------------------------------
             # REFERENCE / EXACT ANSWER
-            true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+            true_answer = self.sos_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
             if self.percent_error:
                 true_answer = 0.0
 
-- 
2.43.0


From eb9d96472c5158fda24c3dbf3e1a65d31b8aac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:51 +0000
Subject: [PATCH 44/53] fix: plots refuse reference data which was calculated
 for other models

---
 pibronic/plotting/plotting.py | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 7d7c579..4aaf3bf 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -19,6 +19,18 @@ from ..constants import beta
 from ..vibronic import vIO
 
 
+def load_reference_file(FS, path, hash_names=("hash_vib",)):
+    """ returns the contents of a file with reference data
+    refuses data which was calculated for other models than the current ones """
+    with open(path, 'r') as file:
+        data = json.loads(file.read())
+
+    for name in hash_names:
+        assert data.get(name) == getattr(FS, name), f"The {name:s} of {path:s} is not the one of the model"
+
+    return data
+
+
 def load_analytical_original(self):
     """ generic loading function that can be used by multiple plotting classes """
 
@@ -28,8 +40,7 @@ def load_analytical_original(self):
     # load that data into each dictionary in the list
     for idx_FS, FS in enumerate(self.FS_lst):
 
-        with open(FS.path_analytic_orig, 'r') as file:
-            data = json.loads(file.read())
+        data = load_reference_file(FS, FS.path_analytic_orig)
 
         for T in self.lst_T[idx_FS]:
             self.analytical_orig_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -46,8 +57,7 @@ def load_analytical_sampling(self):
     # load that data into each dictionary in the list
     for idx_FS, FS in enumerate(self.FS_lst):
 
-        with open(FS.path_analytic_rho, 'r') as file:
-            data = json.loads(file.read())
+        data = load_reference_file(FS, FS.path_analytic_rho, ("hash_vib", "hash_rho"))
 
         for T in self.lst_T[idx_FS]:
             self.analytical_rho_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -66,8 +76,7 @@ def load_sos(self, basis_size=80):
         path = FS.template_sos_vib.format(B=basis_size)
 
         # never use the data of the previous FS if there is no data for this one
-        with open(path, 'r') as file:
-            data = json.loads(file.read())
+        data = load_reference_file(FS, path)
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -98,8 +107,7 @@ def load_trotter_coupled(self, basis_size=80):
 
                 # check if path exists -> and if not then we should append a None?
                 try:
-                    with open(path, 'r') as file:
-                        data = json.loads(file.read())
+                    data = load_reference_file(FS, path)
 
                     for idx, key in enumerate(trotter_key_list):
                         val = data[f"{T:.2f}"].get(key, None)
@@ -309,15 +317,13 @@ class plot_original_Z_test(plotVirtual):
         self.analytical_orig_dict = {}
         self.analytical_rho_dict = {}
 
-        with open(FS.path_analytic_orig, 'r') as file:
-            data = json.loads(file.read())
-            for T in self.lst_T[0]:
-                self.analytical_orig_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
+        data = load_reference_file(FS, FS.path_analytic_orig)
+        for T in self.lst_T[0]:
+            self.analytical_orig_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
 
-        with open(FS.path_analytic_rho, 'r') as file:
-            data = json.loads(file.read())
-            for T in self.lst_T[0]:
-                self.analytical_rho_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
+        data = load_reference_file(FS, FS.path_analytic_rho, ("hash_vib", "hash_rho"))
+        for T in self.lst_T[0]:
+            self.analytical_rho_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
 
         return
 
-- 
2.43.0


From a9ce5bc064edbcc314d470552254b5a35660f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:11 +0000
Subject: [PATCH 45/53] fix: plots of the heat capacity and against the sum
 over states could not be drawn

---
 pibronic/plotting/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 4aaf3bf..e09c9d0 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -784,7 +784,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
             idx_FS = 0
             X = int(1E4)
             idx_X = self.lst_X[idx_FS].index(X)
-            tau_values = self.generate_tau_values(T, idx_FS)
+            tau_values = generate_tau_values(self, T, idx_FS)
             x = tau_values[slice_insert].view()
             y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
             yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
@@ -799,7 +799,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
             idx_FS = 1
             X = int(1E4)
             idx_X = self.lst_X[idx_FS].index(X)
-            tau_values = self.generate_tau_values(T, idx_FS)
+            tau_values = generate_tau_values(self, T, idx_FS)
             print(self.lst_P[idx_FS])
             print("tau", tau_values)
             x = tau_values[slice_insert].view()
@@ -1104,7 +1104,7 @@ class plot_Z_test(plotVirtual):
         # print Cv values
         for T in self.lst_T[idx_FS]:
             idx_T = self.lst_T[idx_FS].index(T)
-            tau_values = self.generate_tau_values(T)
+            tau_values = generate_tau_values(self, T, idx_FS)
             for X in self.lst_X[idx_FS]:
                 idx_X = self.lst_X[idx_FS].index(X)
 
-- 
2.43.0


From dd3b3310ee1d7282686dc8e47d6c2a4ece63b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 46/53] fix: the LaTeX preamble of plots is a string, lists are
 refused by matplotlib

---
 pibronic/plotting/prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/prepare.py b/pibronic/plotting/prepare.py
index 0d90caa..1e7903b 100644
--- a/pibronic/plotting/prepare.py
+++ b/pibronic/plotting/prepare.py
@@ -26,7 +26,7 @@ def prepare_mpl_rc_file(pretty_but_slow=False):
         # mpl.rc('font', **{'family': 'serif', 'serif': ['Palatino']})
     mpl.rc('text', usetex=True)  # using LaTeX
     # we need to load the amsmath package to use the \text{} command
-    mpl.rcParams['text.latex.preamble'] = [r'\usepackage{amsmath}']
+    mpl.rcParams['text.latex.preamble'] = r'\usepackage{amsmath}'
     return
 
 
-- 
2.43.0


From 5e5f4ae6f5a1f97c12a799a2a9fbd520120d1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 47/53] fix: grids of parameters have the dimensions of the
 coupled model, not those of the sampling model

---
 pibronic/plotting/grid_plots.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/plotting/grid_plots.py b/pibronic/plotting/grid_plots.py
index 522d722..7de7d12 100755
--- a/pibronic/plotting/grid_plots.py
+++ b/pibronic/plotting/grid_plots.py
@@ -60,7 +60,7 @@ class plotGrids():
 
     def annotate_intensity_grid(self, fig, ax, data, title):
         """ commonly shared code for plotting"""
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
 
         # We want 1 tick for each square
         plt.locator_params(nbins=A)
@@ -154,7 +154,7 @@ class plotGrids():
 
     def plot_original_linear_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j in range(N):
             title = f"Original linear terms Grid (Mode {j+1:d})"
             filename = f"original_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"
@@ -163,7 +163,7 @@ class plotGrids():
 
     def plot_coupled_linear_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j in range(N):
             title = f"Coupled linear terms Grid (Mode {j+1:d})"
             filename = f"coupled_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"
@@ -202,7 +202,7 @@ class plotGrids():
 
     def plot_original_quadratic_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j1,  j2 in it.product(range(N), range(N)):
             title = f"Original quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
             filename = f"original_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
@@ -211,7 +211,7 @@ class plotGrids():
 
     def plot_coupled_quadratic_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j1,  j2 in it.product(range(N), range(N)):
             title = f"Coupled quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
             filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
-- 
2.43.0


From 1f923b63aad1d2c0d08541413e580b38c206d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 48/53] fix: orbital energies that cannot be read lead to the
 question for the orbitals to leave out, not to a crash

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 6d5bded..01e162c 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -489,6 +489,7 @@ def _estimate_dropmo(file_path):
             lines = data_as_string.strip().splitlines()
 
     # attempt to guess a DROPMO value
+    list_ev = []
     try:
         # where we store the data
         list_ev = np.array([line.split(maxsplit=5)[3] for line in lines], dtype=float)
-- 
2.43.0


From a05d06d193c8426ee278f83aa61757c3dd7139e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 49/53] fix: the number of orbitals left out is read with all
 its digits when states are suggested

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 01e162c..995e0be 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -618,7 +618,7 @@ def _estimate_NIP(vibron, path):
     lines = _extract_lines_for_estimating_NIP(path)
     # grab the guess_dropmo as a number
     string_dropmo = vibron.parameter_dictionary["DROPMO"]
-    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo[-1])
+    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo.replace("=", "-").split("-")[-1])
     print(guess_dropmo)
 
     guess_nip, list_ev = _guess_NIP_value(lines, guess_dropmo)
-- 
2.43.0


From 076a736a05d2a47b833714501ba872b1c00da39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 50/53] fix: the suggested number of states does not count
 orbitals that are left out

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 995e0be..b2e2801 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -602,7 +602,7 @@ def _guess_NIP_value(lines, guess_dropmo):
         log.debug("second_highest: "+str(second_highest))
 
         # the suggested nip value
-        guess_nip = len(diffs) - diffs.index(second_highest)
+        guess_nip = len(diffs) - diffs.index(second_highest, guess_dropmo+1)
         log.debug("guess_nip: "+str(guess_nip))
 
     except Exception as error:
-- 
2.43.0


From 119424f84c07e5c8758f601e8505747815437aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 51/53] fix: the overview of the molecules does not show the
 step of another molecule for an empty record

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index b2e2801..f4691f7 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -209,6 +209,7 @@ def pretty_print_job_status(path=None):
         if isfile(path_file_state):
             with open(path_file_state, 'r') as file:
                 lines = file.readlines()
+            last_state = "not recorded"
             for line in reversed(lines):
                 if line in ["", "\n"]:
                     continue
-- 
2.43.0


From c83ad1cf8f9f0eff70b3cf6a057c4c4f629b82eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 52/53] fix: outputs that end inside a list of coordinates or
 states no longer hang the workflow, and the list of coordinates ends before
 the frequencies

---
 pibronic/vibronic/electronic_structure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index f4691f7..534bf75 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -764,7 +764,9 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
+                    if line == "":
+                        raise Exception("The optimized geometry in {:s} is incomplete".format(file_path))
+                    if line.strip() in ["", "Frequencies of the updated Hessian at convergence"]:
                         break
 
                     lines.append(line)
@@ -793,7 +795,9 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
+                    if line == "":
+                        raise Exception("The optimized geometry in {:s} is incomplete".format(file_path))
+                    if line.strip() in ["", "Frequencies of the updated Hessian at convergence"]:
                         break
 
                     lines.append(line)
@@ -973,6 +977,8 @@ def parse_ip_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
+                    if line == "":
+                        raise Exception("The summary of the states in {:s} is incomplete".format(file_path))
                     if(line is "\n" or "--------" in line):
                         break
 
-- 
2.43.0


From 68239a4055a597c1de5bcfdcba5374169dddab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 53/53] fix: refuse to draw energies or linear terms before any
 grid is drawn

When the parameters of only one of the two models were all zero (and so
not in its file), the grids of the other were drawn before the missing
key was noticed.
---
 pibronic/plotting/grid_plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/plotting/grid_plots.py b/pibronic/plotting/grid_plots.py
index 7de7d12..1e6ae1e 100755
--- a/pibronic/plotting/grid_plots.py
+++ b/pibronic/plotting/grid_plots.py
@@ -134,6 +134,9 @@ class plotGrids():
         prepare_mpl_rc_file(pretty_but_slow=True)
         load_latex_module_on_server()
 
+        if VMK.E.value not in self.coupled_model or VMK.E.value not in self.original_model:
+            raise Exception("Energies are zero, nothing to plot")
+
         self.plot_original_energy_grid()
         self.plot_coupled_energy_grid()
         return
@@ -176,7 +179,7 @@ class plotGrids():
         prepare_mpl_rc_file(pretty_but_slow=True)
         load_latex_module_on_server()
 
-        if VMK.G1.value not in self.coupled_model:
+        if VMK.G1.value not in self.coupled_model or VMK.G1.value not in self.original_model:
             raise Exception("Linear terms are zero, nothing to plot")
 
         linear = np.array(self.original_model[VMK.G1.value])
-- 
2.43.0

