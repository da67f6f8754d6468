"""Independent determinant-level oracle for FCI vectors (operators applied one at a time)."""
import numpy as np
import pyscf.fci
from pyscf.fci import addons, cistring


def excite_amp(ci, norb, nelec, exc):
    """<ref| prod (i^+ a) |ci> for exc = [(spin, i, a), ...]; a absolute index."""
    x = ci
    ne = list(nelec)
    for s, i, a in exc:
        if s == 0:
            x = addons.des_a(x, norb, tuple(ne), a)
            ne[0] -= 1
            x = addons.cre_a(x, norb, tuple(ne), i)
            ne[0] += 1
        else:
            x = addons.des_b(x, norb, tuple(ne), a)
            ne[1] -= 1
            x = addons.cre_b(x, norb, tuple(ne), i)
            ne[1] += 1
        x = np.asarray(x)
    return x.reshape(-1)[0]


def amp_tensor(ci, norb, nelec, sig):
    """Tensor c[i1..in,a1..an] of spin signature sig, e.g. 'aba'."""
    occ = dict(a=nelec[0], b=nelec[1])
    n = len(sig)
    shape = tuple(occ[s] for s in sig) + tuple(norb - occ[s] for s in sig)
    out = np.zeros(shape)
    for idx in np.ndindex(*shape):
        I, A = idx[:n], idx[n:]
        if any(sig[p] == sig[q] and (I[p] == I[q] or A[p] == A[q]) for p in range(n) for q in range(p)):
            continue
        out[idx] = excite_amp(ci, norb, nelec, [(0 if s == "a" else 1, i, occ[s] + a) for s, i, a in zip(sig, I, A)])
    return out


def rand_ci(rng, norb, nelec, sym=False, c0=True):
    na, nb = cistring.num_strings(norb, nelec[0]), cistring.num_strings(norb, nelec[1])
    ci = rng.normal(size=(na, nb))
    if sym:
        ci = (ci + ci.T) / 2
    ci /= np.linalg.norm(ci)
    if abs(ci[0, 0]) < 0.15:
        ci[0, 0] = 0.4
        ci /= np.linalg.norm(ci)
    return ci


def singlet_ci(rng, norb, nelec):
    """Ground state of a random spin-free Hamiltonian with a dominant reference (closed shell)."""
    h = rng.normal(size=(norb, norb)) * 0.3
    h = h + h.T + np.diag(np.arange(norb) * 2.0)
    g = rng.normal(size=(norb,) * 4) * 0.15
    g = g + g.transpose(1, 0, 2, 3)
    g = g + g.transpose(0, 1, 3, 2)
    g = g + g.transpose(2, 3, 0, 1)
    e, ci = pyscf.fci.direct_spin1.kernel(h, g, norb, nelec, conv_tol=1e-14, verbose=0, pspace_size=1000)
    return ci, h, g, e


def brute_rdm12s(ci, norb, nelec):
    """Spin-resolved RDMs in chemists' order by applying operators: dm1[s][p,q] = <p+ q>, dm2[st][p,q,r,s] = <p+ r+ s q>."""
    def E(s, p, q, x):
        ne = list(nelec)
        f = (addons.des_a, addons.cre_a) if s == 0 else (addons.des_b, addons.cre_b)
        if ne[s] == 0:
            return np.zeros_like(x)
        y = f[0](x, norb, tuple(ne), q)
        ne[s] -= 1
        return np.asarray(f[1](np.asarray(y), norb, tuple(ne), p)).reshape(x.shape)
    Ex = [[[E(s, p, q, ci) for q in range(norb)] for p in range(norb)] for s in (0, 1)]
    dm1 = [np.array([[np.vdot(ci, Ex[s][p][q]) for q in range(norb)] for p in range(norb)]) for s in (0, 1)]
    dm2 = {}
    for s in (0, 1):
        for t in (0, 1):
            d = np.zeros((norb,) * 4)
            for p in range(norb):
                for q in range(norb):
                    for r in range(norb):
                        for u in range(norb):
                            # <p+_s q_s r+_t u_t> = <E_qp ci | E_ru ci>
                            d[p, q, r, u] = np.vdot(Ex[s][q][p], Ex[t][r][u])
            if s == t:
                for q in range(norb):
                    d[:, q, q, :] -= dm1[s]
            dm2["ab"[s] + "ab"[t]] = d
    return dm1, dm2
