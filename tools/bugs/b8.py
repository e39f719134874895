ES = "pibronic/vibronic/electronic_structure.py"
PRE = '''
import os, tempfile, contextlib, io
from pibronic.vibronic import electronic_structure as es
def job(d, zmat=None, name="m"):
    j = es.VibronExecutionClass(name, d)
    if zmat:
        with open(os.path.join(d, name + "_zmat.txt"), "w") as fh:
            fh.write(zmat)
        j.setup_zmat()
    return j
def put(d, name, text):
    with open(os.path.join(d, name), "w") as fh:
        fh.write(text)
'''
mkbug("p23-stars-once", "P23", {ES: [(
'                completeZMAT = completeZMAT.replace("*", "")\n',
'                self._internal = self._internal.replace("*", "")\n                completeZMAT = self._internal + "\\n"\n')]}, PRE + '''
with tempfile.TemporaryDirectory() as d:
    j = job(d, "title\\nO\\nH 1 R*\\n\\nR=0.9\\n")
    first = j.zmat.get(opt_zmat=True)
    j.zmat.get()
    assert "R*" in first and j.zmat.get(opt_zmat=True) == first
''', "the geometry is asked for a calculation without optimisation before one with", "the input of the optimisation does not mark the coordinates any more")

mkbug("p23-one-title", "P23", {ES: [(
"            diff = len(geometry_old) - len(geometry_new)\n",
"            diff = min(len(geometry_old) - len(geometry_new), 1)\n"), (
'                self._cartesian = "\\n".join(geometry_old) + "\\n\\n"\n',
'                self._cartesian = "\\n".join(geometry_old[:len(geometry_new)+diff]) + "\\n\\n"\n')]}, PRE + '''
with tempfile.TemporaryDirectory() as d:
    j = job(d, "title\\nsecond title\\nO 0.0 0.0 0.0\\nH 1.0 0.0 0.0\\n")
    j.zmat.set("O 0.1 0.0 0.0\\nH 1.1 0.0 0.0\\n")
    assert [x for x in j.zmat.get().splitlines() if x] == ["title", "second title", "O 0.1 0.0 0.0", "H 1.1 0.0 0.0"], j.zmat.get()
''', "Cartesian coordinates with two or more header lines", "the second header line is lost after the optimisation")

mkbug("p23-start-of-line", "P23", {ES: [(
"            start_in_bytes = memmap_file.rfind(b'\\n', 0, start_in_bytes)\n            # we want",
"            start_in_bytes = memmap_file.rfind(b'\\n', max(0, start_in_bytes - 40), start_in_bytes)\n            # we want")]}, PRE + '''
with tempfile.TemporaryDirectory() as d:
    j = job(d)
    j.parameter_dictionary["nip"] = 3
    keep = " " + "1.0 " * 20 + "HEFF_IP2\\n 4.0\\n"
    for f in ("pntheff", "vibronCp"):
        put(d, j.file_out[f], " junk\\n" + keep)
    put(d, j.file_out["vibronIn"], " nip = xxx      \\n")
    es.parse_prepVibron_output(j)
    assert open(os.path.join(d, "PNTHEFF")).read() == keep, open(os.path.join(d, "PNTHEFF")).read()
''', "a marker that stands more than 40 characters behind the start of its line", "the part before the marked line is kept")

mkbug("p23-round-singles", "P23", {ES: [(
"                boolean_array = (percent_singles <= vibron.singles_cutoff).copy()\n",
"                boolean_array = (np.floor(percent_singles) < vibron.singles_cutoff).copy()\n")]}, PRE + '''
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    j = job(d)
    j.parameter_dictionary["nip"] = 1
    put(d, j.file_out["ipeomcc"].format(1), " x\\n Summary of ionization-potential eom-cc calculation\\n\\n ----------\\n  State IP\\n ----------\\n  1 -0.4 12.5 -76.1 85.00 1.5\\n ---------\\n end\\n")
    assert not es.parse_ip_output(j)
''', "singles exactly at the cutoff", "a state at the cutoff is accepted")
