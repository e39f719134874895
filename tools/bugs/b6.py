ES = "pibronic/vibronic/electronic_structure.py"
TALK = '''
import builtins, os, tempfile, types
from pibronic.vibronic import electronic_structure as es
def talk(energies, replies, kind="nip", drop=""):
    it = iter(replies)
    builtins.input = lambda *a: next(it)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.out0")
        with open(p, "w") as f:
            f.write(" start\\n ORBITAL EIGENVALUES (ALPHA)\\n\\n  MO # E(hartree) E(eV) FULLSYM\\n  ---- ----\\n")
            for i, e in enumerate(energies):
                f.write(f"  {i + 1} {i + 1} {e / 27.2:.8f} {e:.8f} A1 A1 (1)\\n")
            f.write(" +++++++++++++++++++++++++++++++++++++++++++\\n end\\n")
        if kind == "drop":
            out = es._estimate_dropmo(p)
        else:
            obj = types.SimpleNamespace(path_root=d, file_out={"NIP": "x.out0"}, parameter_dictionary={"DROPMO": drop})
            es.parse_hartree_fock_output(obj, es.State.NIP)
            out = obj.parameter_dictionary["nip"]
    left = list(it)
    assert not left, left
    return out
'''
mkbug("p22-gap-difference", "P22", {ES: [(
'''        # the differences in each pair of eV's
        diffs = list(map(lambda e: (e[0] / e[1]), pairwise(list_ev)))
        log.debug("diffs "+str(diffs))

        # biggest gap in eV's
''', '''        # the differences in each pair of eV's
        diffs = list(map(lambda e: abs(e[0] - e[1]), pairwise(list_ev)))
        log.debug("diffs "+str(diffs))

        # biggest gap in eV's
''')]}, TALK + '''
assert talk([-550., -35., -19., -15.], ["y"], "drop") == "DROPMO=1"
assert talk([-2800., -2000., -150., -20.], ["y"], "drop") == "DROPMO=1-2"
assert talk([-2800., -1000., -100., -2.], ["y"], "drop") == "DROPMO=1-3"
''', "a list in which the largest ratio and the largest difference of neighbouring energies are at different places", "other orbitals than those below the largest ratio are suggested")

mkbug("p22-declined-again", "P22", {ES: [(
'''        guess_nip = get_integer_from_user("Please provide an alternative nip value\\n")
        s = "You provided a new nip value of {:d} is that acceptable?\\n"
''', '''        guess_nip = max(guess_nip, get_integer_from_user("Please provide an alternative nip value\\n"))
        s = "You provided a new nip value of {:d} is that acceptable?\\n"
''')]}, TALK + '''
E = [-550., -35., -19., -15., -13.]
assert talk(E, ["n", "7", "y"]) == 7
assert talk(E, ["n", "7", "n", "x", "2", "y"]) == 2
''', "a number that is smaller than one that was declined before", "a declined number is used")
