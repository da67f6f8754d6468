"""P17: correlation functions and populations are the expectation values of the atomic number and spin operators."""
import contextlib
import itertools
import os
import tempfile
from unittest import mock

import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.misc import corrfunc as m_cf
from vayesta.core.qemb import corrfunc as q_cf
import vayesta
import vayesta.ewf
import vayesta.dmet
from . import lab
from .common import *

P = "P17"
SYM = [((1, 0), 1)]


# ---------------------------------------------------------------- definitions
def expectation(c, d1, d2, p, q, weights):
    """<sum_s w_s n_s(p) sum_t w_t n_t(q)>, d1[s] = <i+ j>, d2[s,t][ijkl] = <i+ k+ l j> of spins s (ij) and t (kl);
    w = (1, 1): number operators, (1/2, -1/2): Sz."""
    E = c.einsum
    r = 0
    for s in range(2):
        r = r + weights[s] ** 2 * E("ij,ik,jk->", d1[s], p[s], q[s])
        for t in range(2):
            r = r + weights[s] * weights[t] * E("ijkl,ij,kl->", d2[s, t], p[s], q[t])
    return r


def total(c, d1, p, weights):
    return sum(weights[s] * c.einsum("ij,ij->", d1[s], p[s]) for s in range(2))


NUM, SZ = (1, 1), (0.5, -0.5)


def half(x):
    return x


def singlet(c, n, name="X"):
    """Spin blocks of a singlet two-particle density matrix: aa = ab - ab(0321)."""
    ab = c.tensor(name, (n,) * 4, sym=[((2, 3, 0, 1), 1), ((1, 0, 3, 2), 1)])
    aa = ab - ab.transpose(0, 3, 2, 1)
    return {(0, 0): aa, (1, 1): aa, (0, 1): ab, (1, 0): ab}


def mean_field(c, d):
    """Two-particle density matrix of a determinant."""
    E = c.einsum
    out = {}
    for s, t in itertools.product(range(2), repeat=2):
        out[s, t] = E("ij,kl->ijkl", d[s], d[t])
        if s == t:
            out[s, t] = out[s, t] - E("il,kj->ijkl", d[s], d[s])
    return out


def rproj(c, n):
    return [c.tensor("P%d" % k, (n, n), sym=SYM) for k in range(2)]


@contract(P, "functions", ["vayesta.misc.corrfunc.chargecharge", "vayesta.misc.corrfunc.spinspin_z",
                           "vayesta.misc.corrfunc.chargecharge_mf", "vayesta.misc.corrfunc.spinspin_z_mf",
                           "vayesta.misc.corrfunc.spinspin_z_unrestricted", "vayesta.misc.corrfunc.spinspin_z_mf_unrestricted",
                           "vayesta.misc.corrfunc.spin_z", "vayesta.misc.corrfunc.spin_z_unrestricted"],
          modules=("vayesta.misc.corrfunc",), cases=product_cases(spin=("r", "u"), mf=(False, True), proj=("two", "one", "none")))
def functions(c, spin, mf, proj):
    if spin == "r":
        n = [c.dim("n", min=1, max=4)] * 2
        d1 = [c.tensor("D", (n[0], n[0]), sym=SYM)] * 2      # per spin
        d2 = mean_field(c, d1) if mf else singlet(c, n[0])
        D, D2 = 2 * d1[0], None if mf else 2 * (d2[0, 0] + d2[0, 1])
        p, q = ((x, x) for x in rproj(c, n[0]))
    else:
        n = [c.dim("na", min=1, max=4), c.dim("nb", min=1, max=4)]
        d1 = [c.tensor("D" + s, (n[k], n[k]), sym=SYM) for k, s in enumerate("ab")]
        if mf:
            d2 = mean_field(c, d1)
        else:
            S = [((2, 3, 0, 1), 1), ((1, 0, 3, 2), 1)]
            ab = c.tensor("Gab", (n[0], n[0], n[1], n[1]))
            d2 = {(0, 0): c.tensor("Gaa", (n[0],) * 4, sym=S), (1, 1): c.tensor("Gbb", (n[1],) * 4, sym=S),
                  (0, 1): ab, (1, 0): ab.transpose(2, 3, 0, 1)}
        D, D2 = tuple(d1), None if mf else (d2[0, 0], d2[0, 1], d2[1, 1])
        p, q = (tuple(c.tensor(x + s, (n[k], n[k]), sym=SYM) for k, s in enumerate("ab")) for x in "PQ")
    if mf:
        # determinants
        if spin == "r":
            C = c.isometry("Co", n[0], c.dim("o", max=2))
            d1 = [C @ C.T] * 2
            D = 2 * d1[0]
        else:
            C = [c.isometry("Co" + s, n[k], c.dim("o" + s, max=2)) for k, s in enumerate("ab")]
            D = d1 = tuple(x @ x.T for x in C)
        d2 = mean_field(c, d1)
    one = lambda x: x if spin == "u" else x[0]
    if proj == "none":
        # projectors onto the whole space
        p = q = tuple(c.eye(x) for x in n)
        args = {}
    elif proj == "one":
        q, args = p, dict(proj1=one(p))
    else:
        args = dict(proj1=one(p), proj2=one(q))
    if spin == "r":
        ex = expectation(c, d1, d2, p, q, NUM)
        c.eq("number operators", m_cf.chargecharge(D, D2, subtract_indep=False, **args), ex)
        ref = ex - total(c, d1, p, NUM) * total(c, d1, q, NUM)
        c.eq("fluctuations of number operators", m_cf.chargecharge(D, D2, **args) + c.zeros(), ref)
        f, fz = m_cf.spinspin_z, m_cf.spin_z
    else:
        f, fz = m_cf.spinspin_z_unrestricted, m_cf.spin_z_unrestricted
    c.eq("spin operators", f(D, D2, **args), expectation(c, d1, d2, p, q, SZ))
    if proj != "two":
        z = fz(D, **({} if proj == "none" else dict(proj=one(p))))
        c.true("spin", z == 0) if spin == "r" else c.eq("spin", z, total(c, d1, p, SZ))


# ---------------------------------------------------------------- assembly from fragments
def model(c, spin, nfrag=2, child=True):
    """Embedding with arbitrary clusters and cumulants; the projectors onto two atoms are arbitrary."""
    if spin == "r":
        o, v = [c.dim("o", min=1, max=2)] * 2, [c.dim("v", min=1, max=2)] * 2
    else:
        d = [c.dim(x, min=1, max=2) for x in ("oa", "va", "ob", "vb")]
        o, v = d[::2], d[1::2]
    nao = c.dim("nao", min=5, max=6)
    S = c.spd("S", nao)
    one = range(1 if spin == "r" else 2)
    C = []
    for s in one:
        n = c.axis(o[s], v[s])
        if c.symbolic:
            x = c.tensor("C%d" % s, (nao, n))
            c.rule_gram(x, S)
        else:
            x = c.ortho_mo("C%d" % s, S, (nao, o[s] + v[s]))
        C.append(x)
    n = [c.axis(o[s], v[s]) for s in one]
    proj = {}
    for a in range(2):
        p = [c.tensor("P%d%d" % (a, s), (n[s], n[s]), sym=SYM) for s in one]
        proj[a] = p[0] if spin == "r" else tuple(p)
    frags, cum = [], {k: 0 for k in itertools.product(range(2), repeat=2)}

    def add(G, R):
        for s, t in itertools.product(range(2), repeat=2):
            a, b = R[min(s, len(R) - 1)], R[min(t, len(R) - 1)]
            cum[s, t] = cum[s, t] + c.einsum("ijkl,pi,qj,rk,sl->pqrs", G[s, t], a, a, b, b)
    for k in range(nfrag):
        m = [c.dim("m%d%d" % (k, s), max=2) for s in one]
        R = [c.tensor("R%d%d" % (k, s), (n[s], m[s])) for s in one]
        if spin == "r":
            G = singlet(c, m[0], "X%d" % k)
            dm2 = 2 * (G[0, 0] + G[0, 1])
        else:
            Sy = [((2, 3, 0, 1), 1), ((1, 0, 3, 2), 1)]
            ab = c.tensor("Gab%d" % k, (m[0], m[0], m[1], m[1]))
            G = {(0, 0): c.tensor("Gaa%d" % k, (m[0],) * 4, sym=Sy), (1, 1): c.tensor("Gbb%d" % k, (m[1],) * 4, sym=Sy),
                 (0, 1): ab, (1, 0): ab.transpose(2, 3, 0, 1)}
            dm2 = (G[0, 0], ab, G[1, 1])
        coeff = [C[s] @ R[s] for s in one]
        add(G, R)
        ch = []
        if child and k == 0:
            R2 = [c.tensor("R%d%dc" % (k, s), (n[s], m[s])) for s in one]
            add(G, R2)
            ch = [[C[s] @ R2[s] for s in one]]
        f = c.ns(id=k, cluster=c.ns(coeff=coeff[0] if spin == "r" else tuple(coeff)), sym_parent=None)
        f.make_fragment_dm2cumulant = lambda *a, _d=dm2, **k: _d

        def loop(arrays, axes=None, symtree=None, maxgen=None, include_self=False, _f=f, _c=ch, coeff=coeff):
            from engine.core import StubMissing
            if len(arrays) != len(coeff) or any(x is not y for x, y in zip(arrays, coeff)):
                raise StubMissing("symmetry children of other arrays")
            pack = lambda x: x[0] if len(x) == 1 else list(x)
            if include_self:
                yield _f, pack(arrays)
            if maxgen != 0:
                for x in _c:
                    yield c.ns(), pack(x)
        f.loop_symmetry_children = loop
        frags.append(f)

    def get_fragments(*a, **k):
        k = {x: y for x, y in k.items() if x not in ("contributes", "active")}
        if k.pop("sym_parent", 0) is None or not k and not child:
            return frags
        from engine.core import StubMissing
        raise StubMissing("get_fragments(%s)" % k)
    d1 = [c.tensor("D%d" % s, (n[s], n[s]), sym=SYM) for s in one]
    emb = c.ns(nocc=o[0] if spin == "r" else tuple(o), mo_coeff=C[0] if spin == "r" else tuple(C), log=c.log, kcell=None,
               get_ovlp=lambda: S, spinsym={"r": "restricted", "u": "unrestricted"}[spin], get_fragments=get_fragments,
               nmo=n[0] if spin == "r" else tuple(n),
               mol=c.ns(nelectron=2), _get_atom_projectors=lambda atoms, projection, orbital_filter=None: ([0, 1], [1], proj))
    if spin == "r":
        d1 = [d1[0]] * 2
        emb.make_rdm1 = lambda *a, **k: 2 * d1[0]
    else:
        emb.make_rdm1 = lambda *a, **k: tuple(d1)
    hf = []
    for s in range(2):
        f = occ_vec(c, o[s], v[s], 1)
        hf.append(c.np.diag(f))
    P2 = {a: (p, p) if spin == "r" else p for a, p in proj.items()}
    return emb, d1, hf, cum, P2


def plus(x, y):
    return {k: x[k] + y[k] for k in x}


def approximate(c, d1, hf):
    """Disconnected part: D0 d1 + d1 D0 - D0 D0 (antisymmetrised), D0 the mean-field density matrix."""
    E = c.einsum
    out = {}
    for s, t in itertools.product(range(2), repeat=2):
        x, y = d1[s] - hf[s] / 2, d1[t] - hf[t] / 2
        out[s, t] = E("ij,kl->ijkl", hf[s], y) + E("ij,kl->ijkl", x, hf[t])
        if s == t:
            out[s, t] = out[s, t] - E("il,kj->ijkl", hf[s], x) - E("il,kj->ijkl", x, hf[s])
    return out


class Tables:
    """numpy, except that arrays of concrete shape hold arbitrary (symbolic) numbers."""
    def __init__(self, np_):
        self.np_ = np_

    def __getattr__(self, n):
        if n != "zeros":
            return getattr(self.np_, n)

        def zeros(shape, *a, **k):
            if all(isinstance(x, int) for x in np.atleast_1d(np.asarray(shape, dtype=object))):
                x = np.empty(shape, dtype=object)
                x.fill(0)
                return x
            return self.np_.zeros(shape, *a, **k)
        return zeros


def tables(c):
    return mock.patch.object(q_cf, "np", Tables(q_cf.np)) if c.symbolic else contextlib.nullcontext()


@contract(P, "assembly", ["vayesta.core.qemb.corrfunc.get_corrfunc", "vayesta.core.qemb.corrfunc.get_corrfunc_unrestricted"],
          cases=product_cases(spin=("r", "u"), kind=("n,n", "dN,dN", "Sz,Sz"), dm2=("fragments", "cumulant", "full"),
                              exclude=lambda spin, kind, dm2: spin == "u" and kind != "Sz,Sz"))
def assembly(c, spin, kind, dm2):
    emb, d1, hf, cum, P2 = model(c, spin, nfrag=2 if dm2 == "fragments" else 1, child=dm2 == "fragments")
    f = q_cf.get_corrfunc if spin == "r" else q_cf.get_corrfunc_unrestricted
    kw = {}
    d2 = cum
    if dm2 != "fragments":
        kw["dm2"] = 2 * (cum[0, 0] + cum[0, 1]) if spin == "r" else (cum[0, 0], cum[0, 1], cum[1, 1])
        kw["dm2_with_dm1"] = dm2 == "full"
        D = 2 * d1[0] if spin == "r" else tuple(d1)
        kw["dm1"] = D
        keep = c.snapshot(D)
    if dm2 != "full":
        d2 = plus(d2, approximate(c, d1, hf))
    with tables(c):
        out = f(emb, kind, **kw)
    w = SZ if kind == "Sz,Sz" else NUM
    for a in range(2):
        p, q = P2[a], P2[1]
        ex = expectation(c, d1, d2, p, q, w)
        if kind == "dN,dN":
            ex = ex - total(c, d1, p, NUM) * total(c, d1, q, NUM)
        c.eq("pair %d" % a, out[a, 0], ex)
    if "dm1" in kw:
        c.eq("density matrix unchanged", kw["dm1"] if spin == "r" else kw["dm1"][0], keep if spin == "r" else keep[0])


@contract(P, "assembly_mf", ["vayesta.core.qemb.corrfunc.get_corrfunc_mf"],
          cases=product_cases(spin=("r", "u"), kind=("n,n", "dN,dN", "Sz,Sz"), given=(False, True),
                              exclude=lambda spin, kind, given: spin == "u" and kind != "Sz,Sz"))
def assembly_mf(c, spin, kind, given):
    emb, d1, hf, cum, P2 = model(c, spin, nfrag=0)
    kw = {}
    if given:
        # another determinant
        n = [x.shape[0] for x in hf]
        hf = [c.tensor("D0%d" % s, (n[s], n[s]), sym=SYM) for s in range(1 if spin == "r" else 2)]
        hf = [hf[min(s, len(hf) - 1)] for s in range(2)]
        kw["dm1"] = 2 * hf[0] if spin == "r" else tuple(hf)
    with tables(c):
        out = q_cf.get_corrfunc_mf(emb, kind, **kw)
    w = SZ if kind == "Sz,Sz" else NUM
    for a in range(2):
        p, q = P2[a], P2[1]
        ex = expectation(c, hf, mean_field(c, hf), p, q, w)
        if kind == "dN,dN":
            ex = ex - total(c, hf, p, NUM) * total(c, hf, q, NUM)
        c.eq("pair %d" % a, out[a, 0], ex)


# ---------------------------------------------------------------- bounded: real embeddings
def ao_projector(emb, atom, kind="sao"):
    """Projector onto the orbitals of an atom in the MO basis, from the definition of the orbitals."""
    S = emb.get_ovlp()
    e, v = np.linalg.eigh(S)
    X = (v * e ** -0.5) @ v.T
    idx = [k for k, l in enumerate(emb.mol.ao_labels(None)) if l[0] == atom]
    one = lambda C: (C.T @ S @ X[:, idx]) @ (X[:, idx].T @ S @ C)
    return one(emb.mo_coeff) if lab.is_r(emb.mf) else tuple(one(C) for C in emb.mo_coeff)


@contract(P, "embedding", ["vayesta.core.qemb.corrfunc.get_corrfunc", "vayesta.core.qemb.corrfunc.get_corrfunc_unrestricted",
                           "vayesta.core.qemb.qemb.Embedding._get_atom_projectors", "vayesta.core.qemb.corrfunc.get_corrfunc_mf"],
          sym=False, bounded="four hydrogen atoms with random amplitudes; all atom pairs and subsets", n=2, nthorough=8,
          cases=product_cases(spin=("r", "u"), frag=("sao", "iao"), projection=("SAO", "iao+pao"), approx=("dm", "fragments"),
                              exclude=lambda spin, frag, projection, approx: frag == "iao" and projection != "SAO"))
def embedding(c, spin, frag, projection, approx):
    mf = lab.make_mf(spin, 4, "sto-3g" if projection == "SAO" and frag == "sao" else "6-31g", seed=int(c.rng.integers(99)),
                     canonical=True)
    wf = lab.random_ccsd(c.rng, mf)
    emb = lab.make_ewf(mf, wf, frag=frag)
    U = spin == "u"
    w = lambda x: [[x, x]] if not U else x
    atoms = [None, [2, 0], [[1], [3, 0, 2]]][int(c.rng.integers(3))]
    A, B = (range(4), range(4)) if atoms is None else (atoms, atoms) if np.ndim(atoms[0]) == 0 else atoms
    dm1 = emb.make_rdm1()
    d1 = dm1 if U else [dm1 / 2] * 2
    kw = {}
    if approx == "dm":
        dm2 = emb.make_rdm2()
        kw = dict(dm1=dm1, dm2=dm2)
        if U:
            d2 = {(0, 0): dm2[0], (0, 1): dm2[1], (1, 0): dm2[1].transpose(2, 3, 0, 1), (1, 1): dm2[2]}
        else:
            aa = (dm2 - dm2.transpose(0, 3, 2, 1)) / 6
            ab = dm2 / 2 - aa
            d2 = {(0, 0): aa, (0, 1): ab, (1, 0): ab, (1, 1): aa}
    else:
        hf = [np.diag((np.asarray(x) > 0) * 1.0) for x in (mf.mo_occ if U else [mf.mo_occ] * 2)]
        cum = {k: 0 for k in itertools.product(range(2), repeat=2)}
        S = emb.get_ovlp()
        for f in emb.fragments:
            g = f.make_fragment_dm2cumulant()
            R = [x.T @ S @ y for x, y in zip(f.cluster.coeff, emb.mo_coeff)] if U else [f.cluster.coeff.T @ S @ emb.mo_coeff] * 2
            if U:
                g = {(0, 0): g[0], (0, 1): g[1], (1, 0): g[1].transpose(2, 3, 0, 1), (1, 1): g[2]}
            else:
                aa = (g - g.transpose(0, 3, 2, 1)) / 6
                g = {(0, 0): aa, (0, 1): g / 2 - aa, (1, 0): g / 2 - aa, (1, 1): aa}
            for s, t in cum:
                cum[s, t] = cum[s, t] + np.einsum("ijkl,ip,jq,kr,ls->pqrs", g[s, t], R[s], R[s], R[t], R[t])
        d2 = plus(cum, approximate(c, d1, hf))
    if projection == "SAO":
        proj = {a: ao_projector(emb, a) for a in range(4)}
        P2 = {a: x if U else (x, x) for a, x in proj.items()}
    else:
        # complete sets of orthogonal projectors: sums over atoms are known
        P2 = None
    for kind in ("Sz,Sz",) if U else ("N,N", "dn,dn", "Sz,Sz"):
        wt = SZ if kind == "Sz,Sz" else NUM
        if P2 is None:
            x = emb.get_corrfunc(kind, projection=projection, **kw)
            one = [np.eye(len(y)) for y in d1]
            ex = expectation(c, d1, d2, one, one, wt)
            if kind == "dn,dn":
                ex -= total(c, d1, one, NUM) ** 2
            c.eq("sum over all atoms", x.sum(), ex)
            c.eq("symmetric", x, x.T)
            continue
        x = emb.get_corrfunc(kind, atoms=atoms, projection=projection, **kw)
        c.true("shape", x.shape == (len(A), len(B)), str(x.shape))
        for i, a in enumerate(A):
            for j, b in enumerate(B):
                ex = expectation(c, d1, d2, P2[a], P2[b], wt)
                if kind == "dn,dn":
                    ex -= total(c, d1, P2[a], NUM) * total(c, d1, P2[b], NUM)
                c.eq("%s of atoms" % kind, x[i, j], ex)
        hf = [np.diag((np.asarray(z) > 0) * 1.0) for z in (mf.mo_occ if U else [mf.mo_occ] * 2)]
        m = emb.get_corrfunc_mf(kind, atoms=atoms, projection=projection)
        for i, a in enumerate(A):
            for j, b in enumerate(B):
                ex = expectation(c, hf, mean_field(c, hf), P2[a], P2[b], wt)
                if kind == "dn,dn":
                    ex -= total(c, hf, P2[a], NUM) * total(c, hf, P2[b], NUM)
                c.eq("%s of atoms, mean field" % kind, m[i, j], ex)
    c.raises("unknown kind", ValueError, lambda: emb.get_corrfunc("sx,sx"))


@contract(P, "population", ["vayesta.core.qemb.qemb.Embedding.pop_analysis", "vayesta.core.qemb.qemb.Embedding.get_lo_coeff",
                            "vayesta.core.qemb.qemb.Embedding.get_atomic_charges", "vayesta.core.qemb.qemb.Embedding.write_population",
                            "vayesta.core.qemb.uqemb.UEmbedding.pop_analysis", "vayesta.core.qemb.uqemb.UEmbedding.get_atomic_charges",
                            "vayesta.core.qemb.fragment.Fragment.pop_analysis"],
          sym=False, bounded="LiH dimer and hydrogen clusters with random density matrices", n=2, nthorough=8,
          cases=product_cases(spin=("r", "u"), kind=("lowdin", "mulliken", "iao+pao", "given"), basis=("AO", "MO")))
def population(c, spin, kind, basis):
    geo = "H 0 0 0; Li 0 0.3 1.6; H 1.1 0.2 2.8; H 0.6 2.0 0.4"
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True, geo=geo, mspin=0 if spin == "r" else 2)
    emb = vayesta.ewf.EWF(mf)
    mol, S = mf.mol, emb.get_ovlp()
    n, U = mol.nao, spin == "u"
    sym = lambda x: x + x.T
    dm = [sym(c.rng.normal(size=(n, n))) for s in range(2 if U else 1)]
    Cs = [np.asarray(x) for x in mf.mo_coeff] if U else [mf.mo_coeff]
    ao = [C @ d @ C.T for C, d in zip(Cs, dm)] if basis == "MO" else dm
    lo = kind
    e, v = np.linalg.eigh(S)
    L = [(v * e ** -0.5) @ v.T] * 2
    if kind == "given":
        L = [L[0] @ lab.qr(c.rng, n) for s in range(2)]
        lo = tuple(L) if U else L[0]
    kw = dict(mo_coeff=mf.mo_coeff) if basis == "MO" else {}
    arg = tuple(dm) if U else dm[0]
    d = tempfile.mkdtemp(prefix="pop")
    fn = os.path.join(d, "sub", "pop.txt")
    pop = emb.pop_analysis(arg, local_orbitals=lo, filename=fn, orbital_resolved=bool(c.rng.integers(2)), **kw)
    pop = list(pop) if U else [pop]
    labels = [l[0] for l in mol.ao_labels(None)]
    N = [np.trace(x @ S) for x in ao]
    for s, p in enumerate(pop):
        c.eq("total number of electrons", p.sum(), N[s])
        if kind == "mulliken":
            c.eq("populations", p, np.diag(ao[s] @ S))
        elif kind != "iao+pao":
            c.eq("populations", p, np.diag(L[s].T @ S @ ao[s] @ S @ L[s]))
        else:
            # weight of the populated orbitals, orbital by orbital, from their fragments
            f = emb.iaopao_fragmentation()
            f.kernel()
            for a in range(4):
                nm, idx = f.get_atomic_fragment_indices(a)
                cf = f.get_frag_coeff(idx)
                cf = cf[s] if U else cf
                mine = sum(p[k] for k in range(n) if labels[k] == a)
                c.eq("population of an atom", mine, np.trace(cf.T @ S @ ao[s] @ S @ cf))
    q, sp = emb.get_atomic_charges(pop if U else pop[0])
    Z = mol.atom_charges()
    for a in range(4):
        at = [sum(p[k] for k in range(n) if labels[k] == a) for p in pop]
        c.eq("charge", q[a], Z[a] - sum(at))
        c.eq("spin", sp[a], at[0] - at[1] if U else 0.0)
    lines = [l.split() for l in open(fn) if " q=" in l]
    c.true("atoms in the file", len(lines) == 4, str(len(lines)))
    for a, l in enumerate(lines):
        c.true("charge in the file", int(l[0]) == a and mol.atom_symbol(a) in l[1] and abs(float(l[3]) - q[a]) < 1e-7
               and abs(float(l[-1]) - sp[a]) < 1e-7, str(l))


@contract(P, "cluster_population", ["vayesta.core.qemb.fragment.Fragment.pop_analysis", "vayesta.core.types.cluster.ClusterRHF.make_frozen_rdm1",
                                    "vayesta.core.types.cluster.ClusterUHF.make_frozen_rdm1"],
          sym=False, bounded="four hydrogen atoms, DMET bath", n=2, nthorough=6, cases=product_cases(spin=("r", "u"), given=(False, True)))
def cluster_population(c, spin, given):
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True)
    emb = lab.make_ewf(mf, bath="dmet", solver="CCSD" if spin == "u" else "MP2")
    S, U = emb.get_ovlp(), spin == "u"
    for f in emb.fragments:
        coeff = f.cluster.coeff if U else [f.cluster.coeff]
        fro = f.cluster.c_frozen_occ if U else [f.cluster.c_frozen_occ]
        fac = 1 if U else 2
        kw = {}
        if given:
            d = [c.rng.normal(size=(x.shape[-1],) * 2) for x in coeff]
            d = [x + x.T for x in d]
            kw["dm1"] = tuple(d) if U else d[0]
        else:
            d = f.results.wf.make_rdm1()
            d = d if U else [d]
        pop = f.pop_analysis(local_orbitals="mulliken", write=False, **kw)
        pop = pop if U else [pop]
        for p, C, F, x in zip(pop, coeff, fro, d):
            c.eq("populations", p, np.diag((fac * F @ F.T + C @ x @ C.T) @ S))
