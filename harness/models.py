"""helpers shared by the checks that work with model dictionaries"""
import itertools as it

import numpy as np

NAMES = ("E", "w", "G1", "G2", "G3", "G4")
MODE_RANK = {"E": 0, "w": 1, "G1": 1, "G2": 2, "G3": 3, "G4": 4}


def vmk():
    from pibronic.vibronic import VMK
    return VMK


def key(name):
    return getattr(vmk(), name)


def shape(kind, name, A, N):
    surf = () if name == "w" else ((A, A) if kind == "full" else (A,))
    return (N,) * MODE_RANK[name] + surf


def symmetrise(arr, name):
    """symmetric in the two trailing surface indices and in the mode indices"""
    if name == "w":
        return arr
    arr = arr + np.swapaxes(arr, -1, -2)
    r = MODE_RANK[name]
    if r >= 2:
        out = np.zeros_like(arr)
        for perm in it.permutations(range(r)):
            out += arr.transpose(*perm, r, r + 1)
        arr = out
    return arr


def dims_of(model):
    V = vmk()
    return int(model[V.A]), int(model[V.N])
