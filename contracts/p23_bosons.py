"""P23: coupled electron-boson systems and screened interactions."""
import itertools
from unittest import mock

import numpy as np
import scipy.linalg
import scipy.sparse as sp

from engine.core import contract, product_cases, Skip
from vayesta.core.types import bosonic_orbitals as bo
from vayesta.core.types.orbitals import Orbitals
from vayesta.core.screening import screening_moment, screening_crpa
from vayesta.core.bosonic_bath import projected_interactions
from vayesta.solver import hamiltonian as hm
from vayesta.solver.eb_fci import ebfci_slow, uebfci_slow
from vayesta.solver import get_solver_class
from . import lab
from . import embstub as es
from .common import *
from .detspace import DetSpace
from .p08_hamiltonian import base, cluster_r, cluster_u, hamil, ERI8
from . import p16_rpa as rpa

P = "P23"
SLOW = {"r": ebfci_slow, "u": uebfci_slow}


# ---------------------------------------------------------------- coupled system on the explicit product space
class Coupled:
    """Electrons on all determinants (x) truncated oscillators, operators as explicit sparse matrices."""

    def __init__(self, norb, nelec, nbos, max_occ):
        self.D = DetSpace(norb, nelec)
        n = max_occ + 1
        b = sp.diags(np.sqrt(np.arange(1, n)), 1, shape=(n, n), format="csr")
        one = sp.identity(n, format="csr")

        def at(k):
            out = sp.identity(1)
            for i in range(nbos):
                out = sp.kron(out, b if i == k else one, format="csr")
            return out
        self.b = [at(k) for k in range(nbos)]
        self.nb = n ** nbos
        self.ide = sp.identity(self.D.dim, format="csr")
        self.idb = sp.identity(self.nb, format="csr")
        self.norb, self.nbos = norb, nbos
        self.shape = self.D.shape + (n,) * nbos

    def el(self, x):
        return sp.kron(x, self.idb, format="csr")

    def hamiltonian(self, h, g, w, gep):
        """h, g, gep spin resolved; w: matrix."""
        H = self.el(self.D.hamiltonian(h, g))
        for n, m in itertools.product(range(self.nbos), repeat=2):
            H = H + w[n, m] * sp.kron(self.ide, self.b[n].T @ self.b[m], format="csr")
        for n in range(self.nbos):
            X = sp.csr_matrix((self.D.dim,) * 2)
            for s in range(2):
                for p, q in itertools.product(range(self.norb), repeat=2):
                    X = X + gep[s][n, p, q] * self.D.E[s][p, q]
            H = H + sp.kron(X, self.b[n].T, format="csr") + sp.kron(X.T, self.b[n], format="csr")
        return H

    def dm1(self, x):
        return [np.array([[x @ (self.el(self.D.E[s][p, q]) @ x) for q in range(self.norb)] for p in range(self.norb)]) for s in range(2)]

    def dm2(self, x):
        """<p+ r+ s q> for (aa, ab, bb), indices pqrs."""
        n = self.norb
        v = [[[self.el(self.D.E[s][p, q]) @ x for q in range(n)] for p in range(n)] for s in range(2)]
        d = self.dm1(x)
        out = []
        for s, t in ((0, 0), (0, 1), (1, 1)):
            g = np.zeros((n,) * 4)
            for p, q, r, u in itertools.product(range(n), repeat=4):
                g[p, q, r, u] = v[s][q][p] @ v[t][r][u]
                if s == t and q == r:
                    g[p, q, r, u] -= d[s][p, u]
            out.append(g)
        return out

    def dmeb(self, x):
        n = self.norb
        return [np.array([[[x @ (sp.kron(self.D.E[s][p, q], b.T, format="csr") @ x) for b in self.b] for q in range(n)] for p in range(n)])
                .reshape(n, n, self.nbos) for s in range(2)]


def random_system(rng, spin, norb, nbos, scale=0.1):
    """Non-degenerate well separated orbital energies, so that the ground state is reached from the first determinant."""
    def h1(k):
        x = rng.normal(size=(norb, norb)) * scale
        return np.diag(np.arange(norb) * 1.0 + k) + x + x.T

    def h2():
        x = rng.normal(size=(norb,) * 4) * scale
        x = x + x.transpose(1, 0, 2, 3)
        x = x + x.transpose(0, 1, 3, 2)
        return x / 4
    sym = lambda x: (x + x.transpose(2, 3, 0, 1)) / 2
    h, g, e = h1(0), sym(h2()), rng.normal(size=(nbos, norb, norb)) * scale
    w = rng.normal(size=(nbos, nbos)) * scale / 2
    w = np.diag(rng.uniform(0.5, 1.5, size=nbos)) + w + w.T
    if spin == "r":
        return dict(h=(h, h), g=(g, g, g), w=w, e=(e, e), args=(h, g, e, w))
    hh = (h, h1(0.2))
    gg = (g, h2(), sym(h2()))
    ee = (e, rng.normal(size=(nbos, norb, norb)) * scale)
    return dict(h=hh, g=gg, w=w, e=ee, args=(hh, gg, ee, w))


SIZES = [(2, (1, 1), 1, 3), (3, (1, 1), 2, 2), (3, (2, 1), 1, 2), (2, (1, 1), 3, 1), (3, (2, 2), 2, 1), (2, (1, 1), 0, 2), (3, (1, 2), 1, 0),
         (4, (2, 2), 1, 1), (2, (2, 0), 1, 2)]


def ground(s, X):
    H = X.hamiltonian(s["h"], s["g"], s["w"], s["e"])
    assert abs(H - H.T).max() < 1e-12
    e, v = np.linalg.eigh(H.toarray())
    if len(e) > 1 and (e[1] - e[0] < 0.05 or abs(v[0, 0]) < 0.3):
        raise Skip("nearly degenerate")
    return H, e, v


@contract(P, "eb_hamiltonian", ["ebfci_slow.kernel", "ebfci_slow.contract_all", "ebfci_slow.contract_2e", "ebfci_slow.contract_ep",
                                "ebfci_slow.contract_pp", "ebfci_slow.make_hdiag", "ebfci_slow.make_shape", "ebfci_slow.slices_for",
                                "uebfci_slow.kernel", "uebfci_slow.contract_all", "uebfci_slow.contract_2e", "uebfci_slow.contract_ep",
                                "uebfci_slow.contract_pp", "uebfci_slow.make_hdiag"],
          sym=False, n=2, nthorough=6, tol=1e-9, bounded="2-4 orbitals, up to 3 modes of up to 3 quanta, random integrals",
          cases=product_cases(spin=["r", "u"], size=SIZES))
def _(c, spin, size):
    """The coupled Hamiltonian as applied to a vector is the electronic one, plus the oscillators, plus g (p+q b+ + h.c.);
    its diagonal and its lowest eigenpair are those of the explicit matrix."""
    norb, nelec, nbos, mx = size
    X = Coupled(norb, nelec, nbos, mx)
    s = random_system(c.rng, spin, norb, nbos)
    mod = SLOW[spin]
    c.true("shape", tuple(mod.make_shape(norb, nelec, nbos, mx)) == X.shape)
    H = X.hamiltonian(s["h"], s["g"], s["w"], s["e"])
    hop, _, diag = mod.kernel(*s["args"], norb, nelec, nbos, mx, returnhop=True)
    for k in range(2):
        x = c.rng.normal(size=H.shape[0])
        c.eq("H|x>", hop(x), H @ x)
    x = c.rng.normal(size=X.shape)
    c.eq("H|x> shaped", hop(x).reshape(-1), H @ x.reshape(-1))
    if mx:
        c.eq("diagonal without coupling", diag, X.hamiltonian(s["h"], s["g"], s["w"], [0 * y for y in s["e"]]).diagonal())
    H, e, v = ground(s, X)
    en, ci = mod.kernel(*s["args"], norb, nelec, nbos, mx, ecore=0.75)
    c.eq("energy", en, e[0] + 0.75)
    ci = np.asarray(ci)
    c.true("shape of state", ci.shape == X.shape)
    c.true("normalised", abs(np.linalg.norm(ci) - 1) < 1e-8)
    c.true("ground state", abs(abs(ci.ravel() @ v[:, 0]) - 1) < 1e-7)


@contract(P, "eb_density", ["ebfci_slow.make_rdm1", "ebfci_slow.make_rdm12", "ebfci_slow.make_rdm12s", "ebfci_slow.make_eb_rdm",
                            "uebfci_slow.make_rdm1", "uebfci_slow.make_rdm12", "uebfci_slow.make_rdm12s", "uebfci_slow.make_eb_rdm"],
          sym=False, n=2, nthorough=6, tol=1e-9, bounded="2-4 orbitals, up to 3 modes of up to 3 quanta, random states",
          cases=product_cases(spin=["r", "u"], size=SIZES))
def _(c, spin, size):
    """Electronic, two-electron and electron-boson density matrices are expectation values of any coupled state."""
    norb, nelec, nbos, mx = size
    X = Coupled(norb, nelec, nbos, mx)
    x = c.rng.normal(size=X.shape)
    x /= np.linalg.norm(x)
    mod = SLOW[spin]
    d1, d2 = X.dm1(x.ravel()), X.dm2(x.ravel())
    tot2 = d2[0] + d2[2] + d2[1] + d2[1].transpose(2, 3, 0, 1)
    if spin == "r":
        c.eq("dm1", mod.make_rdm1(x, norb, nelec), d1[0] + d1[1])
    else:
        got = mod.make_rdm1(x, norb, nelec)
        c.eq("dm1 alpha", got[0], d1[0])
        c.eq("dm1 beta", got[1], d1[1])
    a, b = mod.make_rdm12(x, norb, nelec)
    c.eq("dm1 of dm12", a, d1[0] + d1[1])
    c.eq("dm2", b, tot2)
    if spin == "r":
        a, b = mod.make_rdm12s(x, norb, nelec)[:2]
        for s in range(2):
            c.eq("spin dm1 %d" % s, a[s::2, s::2], d1[s])
            c.eq("spin dm2 %d" % s, b[s::2, s::2, s::2, s::2], d2[2 * s])
        c.eq("spin dm2 ab", b[::2, ::2, 1::2, 1::2], d2[1])
        c.eq("spin dm2 exchange", b[::2, 1::2, 1::2, ::2], -d2[1].transpose(0, 3, 2, 1))
    else:
        a, b = mod.make_rdm12s(x, norb, nelec)
        for s in range(2):
            c.eq("spin dm1 %d" % s, a[s], d1[s])
        for s in range(3):
            c.eq("spin dm2 %d" % s, b[s], d2[s])
    got, ref = mod.make_eb_rdm(x, norb, nelec, nbos, mx), X.dmeb(x.ravel())
    c.true("spin resolved", len(got) == 2)
    for s in range(2):
        c.eq("electron-boson %d" % s, got[s], ref[s])


@contract(P, "eb_moments", ["ebfci_slow.calc_dd_resp_mom", "uebfci_slow.calc_dd_resp_mom"],
          sym=False, n=1, nthorough=4, tol=1e-7, bounded="2-3 orbitals, up to 2 modes, moments 0 to 4",
          cases=product_cases(spin=["r", "u"], size=SIZES[:3], coeffs=[False, True, "spin"], trace=[False, True], maxmom=[0, 3, 4],
                              exclude=lambda spin, size, coeffs, trace, maxmom: (coeffs == "spin" and spin == "r") or (maxmom == 0 and (coeffs or trace))))
def _(c, spin, size, coeffs, trace, maxmom):
    """Moments of the density-density response are <0| (p+q)+ (H-E)^n r+s |0> without the ground state."""
    norb, nelec, nbos, mx = size
    if spin == "r" and nelec[0] != nelec[1]:
        raise Skip("spin-summed density of an open shell")
    X = Coupled(norb, nelec, nbos, mx)
    s = random_system(c.rng, spin, norb, nbos)
    mod = SLOW[spin]
    H, e, v = ground(s, X)
    x = v[:, 0]
    d1 = X.dm1(x)
    C = [np.eye(norb)] * 2
    kw = {}
    if coeffs:
        C = [c.rng.normal(size=(norb, 2))] * 2
        if coeffs == "spin":
            C = [C[0], c.rng.normal(size=(norb, norb))]
        kw["coeffs"] = tuple(C) if coeffs == "spin" else C[0]
    dm = d1[0] + d1[1] if spin == "r" else tuple(d1)
    args = (s["args"][0], s["args"][1], s["args"][3], s["args"][2])
    got = mod.calc_dd_resp_mom(x.reshape(X.shape), e[0], maxmom, norb, nelec, nbos, *args, mx, dm, trace=trace, **kw)
    tl = [np.array([[X.el(X.D.E[k][p, q]) @ x for q in range(norb)] for p in range(norb)]) - np.einsum("pq,x->pqx", d1[k], x) for k in range(2)]
    tl = [np.einsum("pqx,pi,qj->ijx", tl[k], C[k], C[k]) for k in range(2)]
    tr = [y.copy() for y in tl]
    K = H.toarray() - e[0] * np.eye(len(e))
    c.true("orders", sorted(got) == list(range(maxmom + 1)))
    for n in range(maxmom + 1):
        for k, (a, b) in enumerate(((0, 0), (0, 1), (1, 1))):
            ref = np.einsum("pqx,rsx->pqrs", tl[a], tr[b])
            c.eq("moment %d %d" % (n, k), got[n][k], np.einsum("ppqq->pq", ref) if trace else ref)
        tr = [y @ K for y in tr]
