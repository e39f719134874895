"""running real path integral jobs on models in the units of spec/IntegrandOps.tla (P01, P02, P03)

frequency = w * ln 2 (w need not be an integer), lengths in units of d (default 1), diagonal linear
terms = k * d * frequency, energies and couplings in quarters (or in fractions 1/u; linear ones 1/(u d),
quadratic ones 1/(u d^2)); all energies and temperatures may be scaled by a common factor 1/z"""
import math
import os

import numpy as np

from .core import Raised

LN2 = math.log(2.0)
D, R = 3, 1

# integer matrices with rational spectral decompositions: S = sum s_i Proj_i / pd
SPECTRA = {
    1: [dict(S=[[1]], s=[1], Proj=[[[1]]], pd=1)],
    2: [dict(S=[[0, 1], [1, 0]], s=[1, -1], Proj=[[[1, 1], [1, 1]], [[1, -1], [-1, 1]]], pd=2),
        dict(S=[[3, 4], [4, -3]], s=[5, -5], Proj=[[[8, 4], [4, 2]], [[2, -4], [-4, 8]]], pd=10)],
    3: [dict(S=[[0, 1, 1], [1, 0, 1], [1, 1, 0]], s=[2, -1], Proj=[[[1, 1, 1]] * 3, [[2, -1, -1], [-1, 2, -1], [-1, -1, 2]]], pd=3),
        dict(S=[[0, 1, 0], [1, 0, 0], [0, 0, 0]], s=[1, -1, 0],
             Proj=[[[1, 1, 0], [1, 1, 0], [0, 0, 0]], [[1, -1, 0], [-1, 1, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 0], [0, 0, 2]]], pd=2)],
}
for _A in (4, 5, 8):       # every pair of surfaces alike
    SPECTRA[_A] = [dict(S=[[int(i != j) for j in range(_A)] for i in range(_A)], s=[_A - 1, -1], pd=_A,
                        Proj=[[[1] * _A] * _A, [[_A * (i == j) - 1 for j in range(_A)] for i in range(_A)]])]


def coupled_model(rng, A, N, spectrum, couple=True, ws=(1, 2)):
    sp = SPECTRA[A][spectrum]
    diag = any(sp["S"][a][a] for a in range(A))
    sym = lambda lo, hi: (lambda m: [[m[min(i, j)][max(i, j)] for j in range(N)] for i in range(N)])([[rng.randint(lo, hi) for _ in range(N)] for _ in range(N)])
    zero = [[0] * N for _ in range(N)]
    nz = lambda: rng.choice([-2, -1, 1, 2])
    m = dict(w=[rng.choice(ws) for _ in range(N)], k=[[rng.randint(-1, 1) for _ in range(N)] for _ in range(A)], E=[rng.randint(-2, 4) for _ in range(A)],
             e=0, l=[0] * N, mu=zero, phi=sym(-1, 1), **sp)
    if couple:
        if not diag:
            m["e"] = nz() if rng.random() < 0.7 else 0
            m["l"] = [nz() if rng.random() < 0.8 else 0 for _ in range(N)]
        if diag or rng.random() < 0.6 or (m["e"] == 0 and not any(m["l"])):
            m["mu"] = sym(-1, 1)
            m["mu"][0][0] = 1
    return m


def sampling_model(rng, A, N, ws=(1, 2)):
    return dict(w=[rng.choice(ws) for _ in range(N)], k=[[rng.randint(-1, 1) for _ in range(N)] for _ in range(A)], E=[rng.randint(-2, 4) for _ in range(A)])


class Rig:
    def __init__(self, ctx):
        from pibronic import constants
        from pibronic.data import file_structure
        from pibronic.pimc import pimc
        from pibronic.vibronic import vIO, VMK
        self.ctx, self.constants, self.FSC, self.pimc, self.vIO, self.VMK = ctx, constants, file_structure.FileStructure, pimc, vIO, VMK
        self.root = ctx.newdir("pimc")
        self.kB = float(1.38064852e-23 / (1.6021766208e-19))

    # ---- files
    def write(self, v, r):
        V = self.VMK
        FS = self.FSC(self.root, D, R)
        A, N = len(v["E"]), len(v["w"])
        self.z = v.get("z", 1)
        d = self.d = v.get("d", 1)
        assert r.get("z", 1) == self.z and r.get("u", 4) == v.get("u", 4) and r.get("d", 1) == d
        u = v.get("u", 4) * self.z
        S = np.array(v["S"], float)
        off = 1.0 - np.eye(A)
        m = self.vIO.model_zeros_template_json_dict(A, N)
        w = np.array(v["w"], float) * LN2 / self.z
        m[V.w][:] = w
        m[V.E][:] = np.diag(np.array(v["E"], float) / u) + v["e"] * S * off / u
        for n in range(N):
            m[V.G1][n] = np.diag([v["k"][a][n] * d * w[n] for a in range(A)]) + v["l"][n] * S * off / (u * d)
            for k in range(N):
                m[V.G2][n, k] = (v["mu"][n][k] * S + v["phi"][n][k] * np.eye(A)) / (u * d * d)
        self.vIO.save_model_to_JSON(FS.path_vib_model, m)
        B = len(r["E"])
        m = self.vIO.diagonal_model_zeros_template_json_dict(B, N)
        w = np.array(r["w"], float) * LN2 / self.z
        m[V.w][:] = w
        m[V.E][:] = np.array(r["E"], float) / u
        for n in range(N):
            m[V.G1][n] = [r["k"][a][n] * d * w[n] for a in range(B)]
        self.vIO.save_diagonal_model_to_JSON(FS.path_rho_model, m)
        self.A, self.B, self.N, self.FS = A, B, N, FS

    # ---- a job
    def temperature(self, beta):
        return float(self.constants.extract_T_from_beta(beta)) if False else 1.0 / (self.kB * beta)

    def data(self, beads, tau, X, blocks, plus_minus=True, dtau=1, route="json"):
        """the state of a job that is about to run"""
        p, S = self.pimc, self.pimc.SEP
        tau, dtau = tau * self.z, dtau * self.z
        T = 1.0 / (float(self.constants.boltzman) * beads * tau)
        cls = p.BoxDataPM if plus_minus else p.BoxData
        hashes = lambda: (self.FS.generate_model_hashes(), setattr(data, "hash_vib", self.FS.hash_vib), setattr(data, "hash_rho", self.FS.hash_rho))
        if route in ("json", "file"):
            params = {S.X.value: X, S.nBlk.value: blocks, S.A.value: self.A, S.P.value: beads, S.N.value: self.N, S.T.value: T, S.BlkS.value: X // blocks,
                      S.D.value: D, S.R.value: R, S.dB.value: float(beads * dtau), "path_root": self.root}
            text = cls.json_serialize(params)
            if route == "json":
                data = cls.from_json_string(text)
            else:
                path = os.path.join(self.root, "execution_parameters.json")
                with open(path, "w") as fh:
                    fh.write(text)
                data = cls.from_json_file(path)
        elif route in ("filestructure", "switched"):
            data = cls.from_FileStructure(self.FS if route == "filestructure" else self.other_sampling_model())
            if plus_minus:
                data.delta_beta = float(beads * dtau)
            data.samples, data.beads, data.temperature = X, beads, T
            data.blocks, data.block_size = blocks, X // blocks
            hashes()
            if route == "switched":
                # as in examples/basic_ml_testing.py
                data.preprocess()
                data.id_rho, data.path_rho_model = R, self.FS.path_rho_model
                data.initialize_models()
                return data
        else:
            data = cls(float(beads * dtau)) if plus_minus else cls()
            data.id_data, data.id_rho = D, R
            data.path_vib_model, data.path_rho_model = self.FS.path_vib_model, self.FS.path_rho_model
            data.states, data.modes = self.A, self.N
            data.samples, data.beads, data.temperature = X, beads, T
            data.blocks, data.block_size = blocks, X // blocks
            hashes()
        data.preprocess()
        return data

    def other_sampling_model(self):
        """a sampling model with another number of surfaces for the same data set"""
        FS = self.FSC(self.root, D, R + 1)
        B = self.B + 1
        m = self.vIO.diagonal_model_zeros_template_json_dict(B, self.N)
        m[self.VMK.w][:] = 0.7
        m[self.VMK.E][:] = np.arange(B) * 0.1
        m[self.VMK.G1][:] = 0.3
        self.vIO.save_diagonal_model_to_JSON(FS.path_rho_model, m)
        return FS

    def result(self, data, plus_minus=True, job=0):
        res = (self.pimc.BoxResultPM if plus_minus else self.pimc.BoxResult)(data=data)
        res.path_root = self.FS.path_rho_results
        res.id_job = str(job)
        return res

    def inject(self, data, paths):
        """make the job evaluate the given paths (samples x modes x beads) instead of random ones; returns the log of the requests"""
        log = []

        real = getattr(data, "transform_sampled_coordinates", None)

        def place(view):
            if isinstance(view, slice):
                log.append(list(range(*view.indices(len(paths)))))
            else:
                log.append([int(i) for i in np.atleast_1d(view)])
            q = paths[view]
            if not self.through(data, real, view, q):
                data.qTensor[:] = q[:, None]
                if hasattr(data, "qTempTensor"):
                    data.qTempTensor[:] = q[:, None]
        if not (hasattr(data, "transform_sampled_coordinates") and hasattr(data, "draw_sample") and hasattr(data, "qTensor")):
            return None
        data.draw_sample = lambda view: None
        data.transform_sampled_coordinates = place
        return log

    @staticmethod
    def through(data, real, view, q):
        """prescribe the collective coordinates that belong to the paths q and let the job transform them itself"""
        try:
            shift = np.asarray(data.rho.sample_shift)[view]
            data.rho.cc_samples = np.einsum("ab,ija->ijb", np.asarray(data.circulant_eigvects), q - shift[:, :, None])
        except (AttributeError, IndexError, ValueError, TypeError):
            return False
        real(view)
        return bool(np.allclose(np.asarray(data.qTensor), q[:, None], rtol=0, atol=1e-9))


# ---- formal sums of the specification
SPEC_KEYS = ("k", "E", "e", "l", "mu", "phi", "S", "s", "Proj", "pd")


def for_spec(m):
    """the integers of a model: frequency, length, energy units and temperature are symbols of the specification"""
    return {x: {k: v for k, v in m[x].items() if k in SPEC_KEYS} for x in ("v", "r")} if "v" in m else {k: v for k, v in m.items() if k in SPEC_KEYS}


def log_terms(terms, w, tau, beads, pd, u=4, d=1):
    """[(sign, log|term|)] of a formal sum with the values of its symbols put in"""
    xs = [tau * wn * LN2 for wn in w]
    csch = [2 * math.exp(-x) / -math.expm1(-2 * x) for x in xs]
    tanh2 = [math.tanh(x / 2) for x in xs]            # coth - csch
    base = 0.5 * beads * math.fsum(math.log(2) - x - math.log(-math.expm1(-2 * x)) for x in xs) - beads * math.log(pd)
    out = []
    for c, q, p, x, h in terms:
        if c == 0:
            continue
        ex = math.fsum(-0.5 * t * a - 0.5 * s * (a - 2 * b) for t, s, a, b in zip(tanh2, csch, q, p))
        ex += 0.5 * math.fsum(t * a for t, a in zip(xs, h))
        out.append((1 if c > 0 else -1, math.log(abs(c)) + d * d * ex + tau * x / (2.0 * u) + base))
    return out


def ratio(num, den):
    """(value, scale of the summed magnitudes) of the quotient of two formal sums"""
    if not num:
        return 0.0, 0.0
    mn = max(l for _, l in num)
    md = max(l for _, l in den)
    if abs(mn - md) > 600:
        return math.nan, math.nan       # not a double
    n = math.fsum(s * math.exp(l - mn) for s, l in num)
    a = math.fsum(math.exp(l - mn) for s, l in num)
    d = math.fsum(s * math.exp(l - md) for s, l in den)
    f = math.exp(mn - md)
    return f * n / d, f * a / d


def total(terms):
    m = max(l for _, l in terms)
    if m > 650:
        return math.inf, math.inf
    return math.exp(m) * math.fsum(s * math.exp(l - m) for s, l in terms), math.exp(m) * math.fsum(math.exp(l - m) for s, l in terms)
