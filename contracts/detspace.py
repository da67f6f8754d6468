"""Independent determinant-space oracle: operators as explicit sparse matrices on all determinants of a small space."""
import itertools

import numpy as np
import scipy.sparse as sp
from pyscf.fci import cistring


def _string_ops(norb, n):
    strs = [int(x) for x in cistring.make_strings(range(norb), n)] if n > 0 else [0]
    pos = {s: k for k, s in enumerate(strs)}
    ops = {}
    for p in range(norb):
        for q in range(norb):
            r, c, v = [], [], []
            for k, s in enumerate(strs):
                if not s >> q & 1:
                    continue
                sign = (-1) ** bin(s & ((1 << q) - 1)).count("1")
                t = s ^ (1 << q)
                if t >> p & 1:
                    continue
                sign *= (-1) ** bin(t & ((1 << p) - 1)).count("1")
                r.append(pos[t | (1 << p)])
                c.append(k)
                v.append(float(sign))
            ops[p, q] = sp.csr_matrix((v, (r, c)), shape=(len(strs),) * 2)
    return ops, len(strs), strs


class DetSpace:
    """All determinants of nelec=(na,nb) electrons in norb=(norba,norbb) orbitals; alpha strings first (as PySCF)."""

    def __init__(self, norb, nelec):
        self.norb = (norb, norb) if np.ndim(norb) == 0 else tuple(norb)
        self.nelec = tuple(int(x) for x in nelec)
        a, na, sa = _string_ops(self.norb[0], self.nelec[0])
        b, nb, sb = _string_ops(self.norb[1], self.nelec[1])
        self.shape = (na, nb)
        self.dim = na * nb
        self.E = [{k: sp.kron(x, sp.identity(nb), format="csr") for k, x in a.items()},
                  {k: sp.kron(sp.identity(na), x, format="csr") for k, x in b.items()}]
        ref = [(1 << n) - 1 for n in self.nelec]
        ex = lambda s, r: bin(s & ~r).count("1")
        self.rank = np.add.outer([ex(s, ref[0]) for s in sa], [ex(s, ref[1]) for s in sb]).reshape(-1)
        self.ref = np.zeros(self.dim)
        self.ref[0] = 1.0
        assert self.rank[0] == 0

    def one(self, h):
        """h: (alpha, beta)."""
        out = sp.csr_matrix((self.dim,) * 2)
        for s in range(2):
            for (p, q), x in self.E[s].items():
                if h[s][p, q]:
                    out = out + h[s][p, q] * x
        return out

    def two(self, g):
        """g: (aa, ab, bb) in chemists' notation."""
        out = sp.csr_matrix((self.dim,) * 2)
        for s in range(2):
            x = g[2 * s]
            n = self.norb[s]
            out = out - 0.5 * self.one([np.einsum("pqqs->ps", x) if t == s else np.zeros((self.norb[t],) * 2) for t in range(2)])
            for p, q in itertools.product(range(n), repeat=2):
                inner = sp.csr_matrix((self.dim,) * 2)
                for (r, u), y in self.E[s].items():
                    inner = inner + 0.5 * x[p, q, r, u] * y
                if s == 0:
                    for (r, u), y in self.E[1].items():
                        inner = inner + g[1][p, q, r, u] * y
                out = out + self.E[s][p, q] @ inner
        return out

    def hamiltonian(self, h, g):
        return self.one(h) + self.two(g)

    def cluster(self, t1, t2):
        """Spin-resolved excitation operator T1+T2; t1=(a,b), t2=(aa,ab,bb)."""
        out = sp.csr_matrix((self.dim,) * 2)
        o = self.nelec
        for s in range(2):
            for (i, a), x in np.ndenumerate(t1[s]):
                out = out + x * self.E[s][o[s] + a, i]
        for k, (s, t, f) in enumerate(((0, 0, 0.25), (0, 1, 1.0), (1, 1, 0.25))):
            for i, a in itertools.product(range(t2[k].shape[0]), range(t2[k].shape[2])):
                inner = sp.csr_matrix((self.dim,) * 2)
                for j, b in itertools.product(range(t2[k].shape[1]), range(t2[k].shape[3])):
                    if t2[k][i, j, a, b]:
                        inner = inner + f * t2[k][i, j, a, b] * self.E[t][o[t] + b, j]
                out = out + self.E[s][o[s] + a, i] @ inner
        return out

    @staticmethod
    def expm(T, x, sign=1):
        """exp(sign*T)|x> for a nilpotent T."""
        out, y, k = x.copy(), x, 1
        while np.abs(y).max() > 0 and k < 40:
            y = sign * (T @ y) / k
            out = out + y
            k += 1
        return out

    def s2(self, overlap=None):
        """S^2 for identical alpha and beta orbitals."""
        n = self.norb[0]
        out = sp.csr_matrix((self.dim,) * 2)
        # S-S+ = sum_pq b+_p a_p a+_q b_q = sum_pq (delta_pq Eb_pp - Eb_pq Ea_qp)
        for p in range(n):
            out = out + self.E[1][p, p]
            for q in range(n):
                out = out - self.E[1][p, q] @ self.E[0][q, p]
        sz = (self.nelec[0] - self.nelec[1]) / 2
        return out + sp.identity(self.dim) * (sz * (sz + 1))

    def rdm1(self, bra, ket):
        return [np.array([[bra @ (self.E[s][p, q] @ ket) for q in range(self.norb[s])] for p in range(self.norb[s])]) for s in range(2)]


def cc_residual(D, H, t1, t2):
    """<mu| e^-T H e^T |0>, energy, and the operators."""
    T = D.cluster(t1, t2)
    r = D.expm(T, H @ D.expm(T, D.ref), -1)
    return r[0], r, T


def lambda_residual(D, H, T, l1, l2):
    """<0|(1+L) e^-T [H, mu] e^T |0> for all single and double excitations (as a vector over determinants)."""
    L = D.cluster(l1, l2)
    bra = D.ref + L @ D.ref        # <0|(1+L), L de-excites with the same numbers (real)
    # <0|(1+L) e^-T = (e^{-T^T} bra)^T
    w = D.expm(T.T, bra, -1)
    hw = H.T @ w
    right = D.expm(T, D.ref)
    # <w| H tau e^T|0> - <w| tau H e^T |0>, tau commutes with e^T
    out = []
    e = D.expm(T, D.ref)
    he = H @ e
    o, E = D.nelec, D.E
    singles = [(s, i, a) for s in range(2) for i in range(o[s]) for a in range(o[s], D.norb[s])]
    for s, i, a in singles:
        out.append(hw @ (E[s][a, i] @ right) - w @ (E[s][a, i] @ he))
    for (s, i, a), (t, j, b) in itertools.combinations(singles, 2):
        tau = lambda x: E[s][a, i] @ (E[t][b, j] @ x)
        out.append(hw @ tau(right) - w @ tau(he))
    return np.array(out)


def spin_amps(wf):
    """Spin-resolved (t1, t2, l1, l2) of a restricted or unrestricted CCSD wave function."""
    if np.ndim(wf.t1[0]) == 1:
        d = lambda t: (t - t.transpose(0, 1, 3, 2), t, t - t.transpose(0, 1, 3, 2))
        f = lambda x1, x2: ((x1, x1), d(x2)) if x1 is not None else (None, None)
    else:
        f = lambda x1, x2: (tuple(x1), (x2[0], x2[1], x2[-1])) if x1 is not None else (None, None)
    return f(wf.t1, wf.t2) + f(wf.l1, wf.l2)
