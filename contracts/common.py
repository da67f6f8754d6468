"""Shared input builders for the contracts."""
import numpy as np

from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals

RSYM2 = [((1, 0, 3, 2), 1)]                       # t_ijab = t_jiba
ASYM2 = [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1)]  # antisymmetric pairs


def rmo(c, o, v, extra=0, name="C", n=None):
    """Real SpatialOrbitals with o occupied, v virtual orbitals; AO dimension is independent."""
    norb = c.axis(o, v)
    nao = c.dim("nao", max=6)
    coeff = c.tensor(name, (nao, norb))
    return SpatialOrbitals(coeff, occ=occ_vec(c, o, v, 2))


def occ_vec(c, o, v, fac):
    if c.symbolic:
        from engine import symt
        z = symt.zeros((o + v,))
        z[:o] = fac
        return z
    return np.asarray(int(o) * [fac] + int(v) * [0], dtype=float)


def umo(c, oa, va, ob, vb, name="C"):
    na, nb = c.axis(oa, va), c.axis(ob, vb)
    nao = c.dim("nao", max=6)
    ca = c.tensor(name + "a", (nao, na))
    cb = c.tensor(name + "b", (nao, nb))
    return SpinOrbitals((ca, cb), occ=(occ_vec(c, oa, va, 1), occ_vec(c, ob, vb, 1)))


def udims(c, max=3):
    return c.dim("oa", max=max), c.dim("va", max=max), c.dim("ob", max=max), c.dim("vb", max=max)


def ut1(c, name, oa, va, ob, vb):
    return (c.tensor(name + "a", (oa, va)), c.tensor(name + "b", (ob, vb)))


def ut2(c, name, oa, va, ob, vb, nblock=3):
    aa = c.tensor(name + "aa", (oa, oa, va, va), sym=ASYM2)
    ab = c.tensor(name + "ab", (oa, ob, va, vb))
    bb = c.tensor(name + "bb", (ob, ob, vb, vb), sym=ASYM2)
    if nblock == 3:
        return (aa, ab, bb)
    return (aa, ab, c.tensor(name + "ba", (ob, oa, vb, va)), bb)


def consistent4(t2):
    """4-block representation with ba = ab^T."""
    return (t2[0], t2[1], t2[1].transpose(1, 0, 3, 2), t2[2])


def find_order(sig, have):
    """Index order q such that sig[q] is a stored signature."""
    import itertools
    for q in itertools.permutations(range(len(sig))):
        if "".join(sig[k] for k in q) in have:
            return "".join(sig[k] for k in q), q
    raise KeyError(sig)


def antisym(sig):
    """Generators of the antisymmetry group of a spin-signature amplitude."""
    n = len(sig)
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            if sig[i] == sig[j]:
                p = list(range(2 * n))
                p[i], p[j] = j, i
                out.append((tuple(p), -1))
                p = list(range(2 * n))
                p[n + i], p[n + j] = n + j, n + i
                out.append((tuple(p), -1))
    return out


def energies(c, name, *dims):
    """Orbital energies: the last of the given spaces is virtual. Arbitrary; for random numbers away from degeneracy."""
    e = c.tensor(name, (c.axis(*dims),))
    if not c.symbolic:
        n = sum(int(x) for x in dims[:-1])
        e[:n] = -1 - np.abs(e[:n])
        e[n:] = np.abs(e[n:])
        c.redeclare(e)
    return e
