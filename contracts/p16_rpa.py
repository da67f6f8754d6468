"""P16: RPA matrices, moments, energies and frequencies solve the RPA equations, also in the RI formulation."""
import contextlib
from unittest import mock

import numpy as np
import pyscf.lib

from engine.core import contract, product_cases, Skip
from engine import snp
from vayesta.rpa import rpa as m_rpa, ssrpa as m_ss, ssurpa as m_ssu
from vayesta.rpa import rirpa as m_rirpa
import vayesta.rpa as m_top
from vayesta.rpa.rirpa import RIRPA as m_ri, RIURPA as m_riu, RIdRRPA as m_rid, momzero_NI, energy_NI, NI_eval
from . import lab
from . import embstub as es
from .common import *

P = "P16"
RR, RU, RD = m_ri.ssRIRRPA, m_riu.ssRIURPA, m_rid.ssRIdRRPA
CLS = {"r": RR, "u": RU, "d": RD}


# ---------------------------------------------------------------- symbolic: matrices of the RPA problem
def dims(c, spin):
    if spin == "u":
        d = udims(c)
        return (d[0], d[2]), (d[1], d[3])
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    return (o, o), (v, v)


def model_mf(c, spin, o, v):
    """Mean-field with arbitrary orbitals and (gapped) orbital energies."""
    nao = c.dim("nao", max=4)
    if spin == "u":
        C = [c.tensor("C" + s, (nao, c.axis(o[k], v[k]))) for k, s in enumerate("ab")]
        e = [energies(c, "e" + s, o[k], v[k]) for k, s in enumerate("ab")]
        occ = [occ_vec(c, o[k], v[k], 1) for k in range(2)]
        mf = c.ns(mo_coeff=tuple(C), mo_energy=tuple(e), mo_occ=tuple(occ), nelec=tuple(o))
    else:
        C = [c.tensor("C", (nao, c.axis(o[0], v[0])))] * 2
        e = [energies(c, "e", o[0], v[0])] * 2
        mf = c.ns(mo_coeff=C[0], mo_energy=e[0], mo_occ=occ_vec(c, o[0], v[0], 2))
    return mf, nao, C, e


class Ref:
    """A = D + alpha (v + K_A), B = alpha (v + K_B) in the spin-orbital ov space (alpha block first)."""

    def __init__(self, c, o, v, C, e):
        self.c, self.o, self.v = c, o, v
        self.Co = [C[s][:, :o[s]] for s in range(2)]
        self.Cv = [C[s][:, o[s]:] for s in range(2)]
        E = c.einsum
        self.eps = []
        for s in range(2):
            one = c.np.ones((o[s],)), c.np.ones((v[s],))
            self.eps.append((E("i,a->ia", one[0], e[s][o[s]:]) - E("i,a->ia", e[s][:o[s]], one[1])))

    def D(self):
        return self.c.np.concatenate([self.eps[s].reshape(self.o[s] * self.v[s]) for s in range(2)])

    def ov(self, x, s, swap=False):
        """(L, nao, nao) -> (L, ov) ; first index occupied unless swap."""
        E = self.c.einsum
        y = E("npq,qi,pa->nia" if swap else "npq,pi,qa->nia", x, self.Co[s], self.Cv[s])
        return y.reshape(x.shape[0], self.o[s] * self.v[s])

    def block(self, f):
        n = self.c.np
        return n.concatenate([n.concatenate([f(s, t) for t in range(2)], axis=1) for s in range(2)], axis=0)


def kernel_ri(c, nao, spin):
    m = c.dim("nxc", max=3)
    k = [[c.tensor("K%d%d" % (s, x), (m, nao, nao)) for x in range(2)] for s in range(2 if spin == "u" else 1)]
    return k if spin == "u" else [k[0], k[0]]


def matrices(c, spin, neg, xc):
    """(mf, rirpa attributes, D, A-D, B) from three-index integrals in the ov space."""
    o, v = dims(c, spin)
    mf, nao, C, e = model_mf(c, spin, o, v)
    ref = Ref(c, o, v, C, e)
    L = c.dim("L", max=3)
    mk = lambda n, x: [c.tensor(x + s, (n, o[k], v[k])) for k, s in enumerate("ab")] if spin == "u" \
        else [c.tensor(x, (n, o[0], v[0]))] * 2
    lp = mk(L, "lp")
    ln = mk(c.dim("Ln", max=2), "ln") if neg else None
    E = c.einsum
    flat = lambda x, s: x.reshape(x.shape[0], o[s] * v[s])

    def coul(s, t):
        x = E("Lp,Lq->pq", flat(lp[s], s), flat(lp[t], t))
        return x - E("Lp,Lq->pq", flat(ln[s], s), flat(ln[t], t)) if neg else x
    rixc = kernel_ri(c, nao, spin) if xc else None
    A = B = ref.block(coul)
    if xc:
        A = A + ref.block(lambda s, t: E("Lp,Lq->pq", ref.ov(rixc[s][0], s), ref.ov(rixc[t][1], t)))
        B = B + ref.block(lambda s, t: E("Lp,Lq->pq", ref.ov(rixc[s][0], s), ref.ov(rixc[t][1], t, True)))
    if spin == "u":
        lov = (tuple(lp), tuple(ln) if neg else (None, None))
    else:
        lov = (lp[0], ln[0] if neg else None)
    return mf, dict(mf=mf, rixc=rixc, lov=lov, compress=0, svd_tol=1e-12, err_tol=1e-6), ref, A, B


def rirpa(c, cls, attrs):
    x = es.obj(cls, **attrs)
    x.log = c.log
    return x


def lowrank(c, ri):
    return c.einsum("np,nq->pq", ri[0], ri[1])


def dmul(c, D, X):
    return c.einsum("p,pq->pq", D, X)


def mmul(c, X, Y):
    return c.einsum("pq,qr->pr", X, Y)


@contract(P, "ri_matrices", ["vayesta.rpa.rirpa.RIRPA.ssRIRRPA.construct_RI_AB",
                             "vayesta.rpa.rirpa.RIRPA.ssRIRRPA.get_ab_xc_ri",
                             "vayesta.rpa.rirpa.RIRPA.ssRIRRPA.get_apb_eri_ri",
                             "vayesta.rpa.rirpa.RIRPA.construct_product_RI",
                             "vayesta.rpa.rirpa.RIURPA.ssRIURPA.get_ab_xc_ri",
                             "vayesta.rpa.rirpa.RIURPA.ssRIURPA.get_apb_eri_ri"],
          cases=product_cases(spin=("r", "u"), neg=(False, True), xc=(False, True)))
def ri_matrices(c, spin, neg, xc):
    mf, attrs, ref, A, B = matrices(c, spin, neg, xc)
    r = rirpa(c, CLS[spin], attrs)
    D = ref.D()
    c.eq("mean-field energy differences", r.D, D)
    apb, amb = r.construct_RI_AB()
    c.eq("A+B", lowrank(c, apb), A + B)
    c.eq("A-B", lowrank(c, amb), A - B)
    mp, apb, amb = r.get_compressed_MP()
    c.eq("A+B from decomposition of the product", lowrank(c, apb), A + B)
    c.eq("A-B from decomposition of the product", lowrank(c, amb), A - B)
    prod = dmul(c, D, A + B) + dmul(c, D, (A - B).T).T + mmul(c, A - B, A + B)
    c.eq("(A-B)(A+B)", lowrank(c, mp), prod)


@contract(P, "product_ri", ["vayesta.rpa.rirpa.RIRPA.construct_product_RI"],
          cases=product_cases(first=("pair", "single"), second=("pair", "single")))
def product_ri(c, first, second):
    n = c.dim("n", max=5)
    D = c.tensor("D", (n,))

    def mk(name, kind):
        m = c.dim("m" + name, max=3)
        x = c.tensor(name + "l", (m, n))
        return (x if kind == "single" else (x, c.tensor(name + "r", (m, n)))), \
            (x, x) if kind == "single" else None
    a, a2 = mk("a", first)
    b, b2 = mk("b", second)
    # numpy arrays are recognised by their type
    with mock.patch.object(m_ri, "type", lambda x: np.ndarray if hasattr(x, "ndim") else type(x), create=True):
        l, r = m_ri.construct_product_RI(D, a, b)
    X, Y = lowrank(c, a2 or a), lowrank(c, b2 or b)
    c.eq("(D + X)(D + Y) - D^2", lowrank(c, (l, r)), dmul(c, D, Y) + dmul(c, D, X.T).T + mmul(c, X, Y))


@contract(P, "drpa_matrices", ["vayesta.rpa.rirpa.RIdRRPA.ssRIdRRPA.get_compressed_MP"],
          cases=product_cases(neg=(False, True)))
def drpa_matrices(c, neg):
    mf, attrs, ref, A, B = matrices(c, "r", neg, False)
    r = rirpa(c, RD, attrs)
    nov = ref.o[0] * ref.v[0]
    mp, apb, amb = r.get_compressed_MP()
    eps = ref.eps[0].reshape(nov)
    c.eq("mean-field energy differences", r.eps, eps)
    K = (A + B)[:nov, nov:]
    c.eq("interaction of opposite spins is interaction of equal spins", (A + B)[:nov, :nov], K)
    c.eq("spatial A+B", lowrank(c, apb), K)
    c.eq("spatial A-B", lowrank(c, amb), c.zeros(nov, nov))
    c.eq("spatial (A-B)(A+B)", lowrank(c, mp), dmul(c, eps, K))


@contract(P, "recursion", ["vayesta.rpa.rirpa.RIRPA.ssRIRRPA.kernel_moms", "vayesta.rpa.rirpa.RIdRRPA.ssRIdRRPA.kernel_moms"],
          cases=product_cases(spin=("r", "u", "d"), xc=(False, True), rot=("spinorbital", "spatial", "summed"), nmax=(0, 1, 2, 3, 4),
                              exclude=lambda spin, xc, rot, nmax: xc and (spin == "d" or nmax == 4) or rot != "spinorbital" and spin != "d"))
def recursion(c, spin, xc, rot, nmax):
    """Moments of order n > 0 from the zeroth moment: eta1 = A-B, eta(n+2) = eta(n) (A+B)(A-B)."""
    mf, attrs, ref, A, B = matrices(c, "r" if spin == "d" else spin, False, xc)
    n = c.dim("nt", max=3)
    nov = [ref.o[s] * ref.v[s] for s in range(2)]
    D = ref.D()
    full = c.axis(*nov) if not c.symbolic else D.shape[0]
    T = c.tensor("T", (n, full if rot == "spinorbital" else nov[0]))
    M0 = c.tensor("M0", (n, nov[0] if rot == "summed" else full))
    r = rirpa(c, CLS[spin], attrs)
    r._kernel_mom0 = lambda target_rot, **kw: (M0, (None, None))
    kw = {} if rot != "summed" else dict(return_spatial=True)
    mom, err = r.kernel_moms(nmax, target_rot=T, **kw)
    E = c.einsum
    if rot == "summed":
        eps = ref.eps[0].reshape(nov[0])
        K = (A + B)[:nov[0], nov[0]:]
        ref1 = E("np,p->np", T, eps)
        nxt = lambda x: E("np,p->np", x, eps * eps) + 2 * E("np,pq,q->nq", x, K, eps)
    else:
        z = c.zeros(n, nov[1])
        T2 = T if rot == "spinorbital" else c.np.concatenate([T, z], axis=1)
        ref1 = E("np,p->np", T2, D) + E("np,pq->nq", T2, A - B)

        def nxt(x):
            y = E("np,p->np", x, D) + E("np,pq->nq", x, A + B)
            return E("np,p->np", y, D) + E("np,pq->nq", y, A - B)
    exact = [M0, ref1]
    # (A+B)(A-B): transposed product of symmetric matrices
    if xc:
        def nxt(x):
            y = E("np,p->np", x, D) + E("np,qp->nq", x, A + B)
            return E("np,p->np", y, D) + E("np,qp->nq", y, A - B)
        ref1_sym = E("np,p->np", T, D) + E("np,pq->nq", T, A - B)
        exact = [M0, ref1_sym]
    for k in range(2, nmax + 1):
        exact.append(nxt(exact[k - 2]))
    for k in range(nmax + 1):
        c.eq("moment %d" % k, mom[k], exact[k])


# ---------------------------------------------------------------- symbolic: conventional RPA
def mo_integrals(c, o, v, spin):
    """Integrals in the MO basis: Coulomb metric symmetric under pair exchange and (real orbitals) index exchange."""
    n = [c.axis(o[s], v[s]) for s in range(2)]
    S1 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)]
    S = S1 + [((2, 3, 0, 1), 1)]
    if spin == "r":
        g = c.tensor("g", (n[0],) * 4, sym=S)
        return (g, g, g)
    return (c.tensor("gaa", (n[0],) * 4, sym=S), c.tensor("gab", (n[0], n[0], n[1], n[1]), sym=S1),
            c.tensor("gbb", (n[1],) * 4, sym=S))


def coulomb(c, g, o, v):
    full = (g[0], g[1], g[1].transpose(2, 3, 0, 1), g[2])

    def f(s, t):
        x = full[2 * s + t][:o[s], o[s]:, :o[t], o[t]:]
        return x.reshape(o[s] * v[s], o[t] * v[t])
    return f


SP = {"r": m_ss.ssRPA, "u": m_ssu.ssURPA}


@contract(P, "rpa_matrices", ["vayesta.rpa.ssrpa.ssRPA._gen_arrays", "vayesta.rpa.ssrpa.ssRPA._gen_eps",
                              "vayesta.rpa.ssrpa.ssRPA.get_k", "vayesta.rpa.ssrpa.ssRPA.get_xc_contribs",
                              "vayesta.rpa.ssurpa.ssURPA._gen_arrays", "vayesta.rpa.ssurpa.ssURPA._gen_eps",
                              "vayesta.rpa.ssurpa.ssURPA.get_k"],
          cases=product_cases(spin=("r", "u"), xc=(None, "full", "decomposed")))
def rpa_matrices(c, spin, xc):
    o, v = dims(c, spin)
    mf, nao, C, e = model_mf(c, spin, o, v)
    ref = Ref(c, o, v, C, e)
    g = mo_integrals(c, o, v, spin)
    # numbers of orbitals of the two channels need not agree
    r = es.obj(SP[spin], mf=mf, ov_rot=None, **(dict(nvir=tuple(v)) if spin == "u" else {}))
    r.log = c.log
    r.ao2mo = lambda *a, **k: g[0] if spin == "r" else g
    alpha = c.scalar("alpha")
    E = c.einsum
    k = None
    if xc == "full":
        S1 = [((1, 0, 3, 2), 1)]       # real kernel
        S = S1 + [((2, 3, 0, 1), 1)]
        k = [c.tensor("Kaa", (nao,) * 4, sym=S), c.tensor("Kab", (nao,) * 4, sym=S1), c.tensor("Kbb", (nao,) * 4, sym=S)]
        blocks = {(0, 0): k[0], (0, 1): k[1], (1, 0): k[1].transpose(2, 3, 0, 1), (1, 1): k[2]}
    elif xc == "decomposed":
        # L_s R_t must equal R_s L_t for the kernel to be symmetric
        m = c.dim("nxc", max=2)
        cat = c.np.concatenate

        def mk(x):
            return [cat([c.tensor(x + s + "%+d" % p, (m, nao, nao), sym=[((0, 2, 1), p)]) for p in (1, -1)], axis=0)
                    for s in "ab"]
        x, y = mk("X"), mk("Y")
        k = [[cat([x[s], y[s]], axis=0), cat([y[s], x[s]], axis=0)] for s in range(2)]
        blocks = {(s, t): E("npq,nrs->pqrs", x[s], y[t]) + E("npq,nrs->pqrs", y[s], x[t])
                  for s in range(2) for t in range(2)}

    def kern(swap):
        def f(s, t):
            z = E("pqsr,pi,qa,rj,sb->iajb" if swap else "pqrs,pi,qa,rj,sb->iajb", blocks[s, t],
                  ref.Co[s], ref.Cv[s], ref.Co[t], ref.Cv[t])
            return z.reshape(o[s] * v[s], o[t] * v[t])
        return ref.block(f)
    root = []
    with contextlib.ExitStack() as st:
        if c.symbolic and k is not None:
            # matrix square root: an arbitrary matrix
            def sqrtm(a):
                root.append(c.tensor("root", tuple(a.shape)))
                return root[0]
            st.enter_context(mock.patch.dict(snp.IMPL, {"sqrtm": sqrtm}))
        M, AmB, ApB, eps, fullv = r._gen_arrays(k, alpha)
    K = ref.block(coulomb(c, g, o, v))
    c.eq("Coulomb interaction", fullv, K)
    D = ref.D()
    for s in range(2):
        c.eq("mean-field energy differences", eps[s], ref.eps[s].reshape(o[s] * v[s]))
    diag = c.np.diag
    if k is None:
        c.eq("A-B", AmB, D)
        c.eq("A+B", ApB, diag(D) + 2 * alpha * K)
    else:
        c.eq("A-B", AmB, diag(D) + alpha * (kern(False) - kern(True)))
        c.eq("A+B", ApB, diag(D) + alpha * (2 * K + kern(False) + kern(True)))
    if k is None:
        h = AmB ** 0.5
        c.eq("eigenvalue problem", M, E("p,pq,q->pq", h, ApB, h))
    else:
        h = root[0] if root else None
        if h is None:
            import scipy.linalg
            h = scipy.linalg.sqrtm(AmB)
        c.eq("eigenvalue problem", M, E("pq,qr,rs->ps", h, ApB, h))


@contract(P, "rpa_moments", ["vayesta.rpa.ssrpa.ssRPA.gen_moms"], cases=product_cases(spin=("r", "u"), nmax=(0, 1, 3)))
def rpa_moments(c, spin, nmax):
    o, v = dims(c, spin)
    r = es.obj(SP[spin], ova=o[0] * v[0], ovb=o[1] * v[1], ov_rot=None)
    n = c.dim("nex", max=4)
    xa, xb = (c.tensor("X" + s, (o[k] * v[k], n)) for k, s in enumerate("ab"))
    w = c.tensor("w", (n,))
    r.XpY_ss, r.freqs_ss = (xa, xb), w
    X = c.np.concatenate([xa, xb], axis=0)
    mom = r.gen_moms(nmax)
    f = c.np.ones((n,))
    for k in range(nmax + 1):
        c.eq("moment %d" % k, mom[k], c.einsum("pn,n,qn->pq", X, f, X))
        f = f * w


@contract(P, "rpax_matrices", ["vayesta.rpa.rpa.RPA._build_arrays", "vayesta.rpa.rpa.RPA.get_interaction_kernel"],
          cases=product_cases(kind=(None, "dRPA", "RPAx", "given")))
def rpax_matrices(c, kind):
    o, v = dims(c, "r")
    mf, nao, C, e = model_mf(c, "r", o, v)
    ref = Ref(c, o, v, C, e)
    g = mo_integrals(c, o, v, "r")[0]
    o, v = o[0], v[0]
    n = o * v
    r = es.obj(m_rpa.RPA, mf=mf, nocc=o, nvir=v, ov=n)
    r.log = c.log
    r.ao2mo = lambda *a, **k: g
    E = c.einsum
    ss, z = g[:o, o:, :o, o:].reshape(n, n), c.zeros(n, n)
    if kind == "RPAx":
        # antisymmetrized integrals <ib||aj>, <ij||ab> of every combination of spins
        xa = E("ijab->iajb", g[:o, :o, o:, o:]).reshape(n, n)
        xb = E("ibja->iajb", g[:o, o:, :o, o:]).reshape(n, n)
        A_ss, B_ss = (ss - xa, ss), (ss - xb, ss)
        A_sf, B_sf = (-xa, z), (z, -xb)
    elif kind == "given":
        A_ss, A_sf, B_ss, B_sf = (tuple(c.tensor(x + s, (n, n)) for s in ("1", "2")) for x in ("As", "Af", "Bs", "Bf"))
    else:
        A_ss = B_ss = (ss, ss)
        A_sf = B_sf = (z, z)
    sgn = lambda A, B, f: tuple(a + f * b for a, b in zip(A, B))
    k = kind
    if kind == "given":
        k = (sgn(A_ss, B_ss, 1), sgn(A_ss, B_ss, -1), sgn(A_sf, B_sf, 1), sgn(A_sf, B_sf, -1))
    out = r._build_arrays(k)
    D = c.np.diag(ref.D())
    full = lambda A: ref.block(lambda s, t: A[int(s != t)])
    for name, x, A, B, f in (("same-spin A+B", out[0], A_ss, B_ss, 1), ("same-spin A-B", out[1], A_ss, B_ss, -1),
                             ("spin-flip A+B", out[2], A_sf, B_sf, 1), ("spin-flip A-B", out[3], A_sf, B_sf, -1)):
        c.eq(name, x, D + full(sgn(A, B, f)))


# ---------------------------------------------------------------- bounded: against dense linear algebra
def setup(c, spin, natom=4, basis="6-31g", alpha=1.0, xc=False, seed=0):
    """Mean-field, kernel and dense A, B, v, D."""
    mf = lab.make_mf(spin, natom, basis, canonical=True, df="weigend", mspin=2 if spin == "u" and natom == 4 else None)
    n = mf.mol.nao
    rixc = None
    if xc:
        def mk(p):
            x = c.rng.normal(size=(2, n, n)) * 0.05
            return x + p * x.transpose(0, 2, 1)
        rixc = []
        for s in range(2 if spin == "u" else 1):
            x, y = (np.concatenate([mk(1), mk(-1)]) for _ in range(2))
            rixc.append([np.concatenate([x, y]), np.concatenate([y, x])])
        if spin == "r":
            rixc = 2 * rixc
    return mf, rixc


def dense(mf, rixc=None, alpha=1.0):
    if lab.is_r(mf):
        C, e, k = [mf.mo_coeff] * 2, [mf.mo_energy] * 2, [lab.nocc(mf)] * 2
    else:
        C, e, k = list(mf.mo_coeff), list(mf.mo_energy), list(lab.nocc(mf))
    g = lab.ao_eri(mf)
    D = np.concatenate([(x[o:][None] - x[:o][:, None]).ravel() for x, o in zip(e, k)])
    ov = [np.einsum("pi,qa->iapq", x[:, :o], x[:, o:]).reshape(-1, len(x), len(x)) for x, o in zip(C, k)]
    v = np.block([[np.einsum("xpq,pqrs,yrs->xy", a, g, b, optimize=True) for b in ov] for a in ov])
    KA = KB = 0 * v
    if rixc is not None:
        L = np.hstack([np.einsum("npq,xpq->nx", rixc[s][0], ov[s]) for s in (0, 1)])
        R = np.hstack([np.einsum("npq,xpq->nx", rixc[s][1], ov[s]) for s in (0, 1)])
        RB = np.hstack([np.einsum("npq,xqp->nx", rixc[s][1], ov[s]) for s in (0, 1)])
        KA, KB = L.T @ R, L.T @ RB
    A, B = np.diag(D) + alpha * (v + KA), alpha * (v + KB)
    assert abs(A - A.T).max() < 1e-10 and abs(B - B.T).max() < 1e-10
    if np.linalg.eigvalsh(A - B)[0] < 0.05 or np.linalg.eigvalsh(A + B)[0] < 0.05:
        raise Skip("unstable reference")
    return D, v, KA, KB, A, B


def root(M):
    e, c = np.linalg.eigh(M)
    return (c * e ** 0.5) @ c.T


def eta(A, B):
    s = root(A - B)
    return s @ np.linalg.inv(root(s @ (A + B) @ s)) @ s


def frequencies(A, B):
    s = root(A - B)
    return np.linalg.eigvalsh(s @ (A + B) @ s) ** 0.5


def moments(A, B, n):
    out = [eta(A, B), A - B]
    for k in range(2, n + 1):
        out.append((A - B) @ (A + B) @ out[k - 2])
    return out[:n + 1]


def coupling(f, deg=10):
    x, w = np.polynomial.legendre.leggauss(deg)
    return sum(b * f((a + 1) / 2) / 2 for a, b in zip(x, w))


def rpa_energy(mf, rixc=None):
    """Integral over the coupling strength of the interaction with the correlation part of the density response."""
    def f(al):
        D, v, KA, KB, A, B = dense(mf, rixc, al)
        return np.trace((eta(A, B) - np.eye(len(D))) @ v) / 2
    return coupling(f)


@contract(P, "rpa_solution", ["vayesta.rpa.ssrpa.ssRPA.kernel", "vayesta.rpa.ssurpa.ssURPA.ao2mo", "vayesta.rpa.ssrpa.ssRPA.ao2mo",
                              "vayesta.rpa.ssrpa.ssRPA.gen_moms", "vayesta.rpa.ssrpa.ssRPA.calc_energy_correction"],
          sym=False, bounded="four hydrogen atoms, 6-31G; random symmetric kernels", n=3, nthorough=12,
          cases=product_cases(spin=("r", "u"), xc=(False, True), alpha=(1.0, 0.4)))
def rpa_solution(c, spin, xc, alpha):
    mf, rixc = setup(c, spin, xc=xc)
    D, v, KA, KB, A, B = dense(mf, rixc, alpha)
    r = SP[spin](mf)
    e = r.kernel(xc_kernel=rixc, alpha=alpha)
    w = frequencies(A, B)
    c.eq("excitation energies", np.sort(r.freqs_ss), w)
    X, Y = (np.vstack(x) for x in (r.XpY_ss, r.XmY_ss))
    c.eq("normalisation", X.T @ Y, np.eye(len(D)))
    c.eq("(A+B)(X+Y) = w (X-Y)", (A + B) @ X, Y * r.freqs_ss)
    c.eq("(A-B)(X-Y) = w (X+Y)", (A - B) @ Y, X * r.freqs_ss)
    for k, (x, y) in enumerate(zip(r.gen_moms(4, rixc), moments(A, B, 4))):
        c.eq("moment %d" % k, x, y)
    if not xc:
        if alpha == 1.0:
            E = rpa_energy(mf)
            c.true("energy is the coupling strength integral", abs(e - E) < 1e-7, "%.10f %.10f" % (e, E))
            c.eq("total energy", r.e_tot, mf.e_tot + e)
        return
    if alpha != 1.0:
        return
    r = SP[spin](mf)
    e = r.kernel(xc_kernel=rixc)
    m0, one, K = eta(A, B), np.eye(len(D)), (A + B)
    v3 = np.trace(m0 @ (A + B - KB / 2) - (A - KB / 2)) / 2
    c.eq("energy", e, v3)
    ac, ref = (r.calc_energy_correction(rixc, version=x)[0] for x in (0, 4))
    E = rpa_energy(mf, rixc)
    c.true("coupling strength integral", abs(ref - E) < 5e-3 * abs(E), "%.10f %.10f" % (ref, E))
    c.true("plasmon formula with correction", abs(ac - E) < 5e-3 * abs(E), "%.10f %.10f" % (ac, E))
    c.eq("linearised coupling strength integral", r.calc_energy_correction(rixc, version=5), np.trace((m0 - one) @ v) / 4)


@contract(P, "rpax_solution", ["vayesta.rpa.rpa.RPA.kernel", "vayesta.rpa.rpa.RPA.ao2mo", "vayesta.rpa.rpa.RPA.e_corr"],
          sym=False, bounded="three to four hydrogen atoms, 6-31G", n=1, cases=product_cases(kind=("drpa", "rpax"), natom=(2, 4)))
def rpax_solution(c, kind, natom):
    mf = lab.make_mf("r", natom, "6-31g", canonical=True)
    o, C = lab.nocc(mf), mf.mo_coeff
    n = C.shape[-1] - o
    g = lab.mo_eri(mf)
    # spin orbital representation
    so = lambda x: np.einsum("pqrs,ab,cd->paqbrcsd", x, np.eye(2), np.eye(2)).reshape((2 * len(x),) * 4)
    G = so(g)
    x = 0 if kind == "drpa" else 1
    no = 2 * o
    e = np.repeat(mf.mo_energy, 2)
    A = np.einsum("iajb->iajb", G[:no, no:, :no, no:]) - x * np.einsum("ijab->iajb", G[:no, :no, no:, no:])
    B = np.einsum("iajb->iajb", G[:no, no:, :no, no:]) - x * np.einsum("ibja->iajb", G[:no, no:, :no, no:])
    d = 4 * o * n
    A, B = A.reshape(d, d), B.reshape(d, d)
    A = A + np.diag((e[None, no:] - e[:no, None]).ravel())
    if min(np.linalg.eigvalsh(A - B)[0], np.linalg.eigvalsh(A + B)[0]) < 1e-3:
        # instable (triplet): nothing to compare
        c.raises("instability is reported", Exception, lambda: m_rpa.RPA(mf).kernel(kind))
        return
    w = frequencies(A, B)
    r = m_rpa.RPA(mf)
    ec = r.kernel(kind)
    c.eq("excitation energies", np.sort(np.concatenate([r.freqs_ss, r.freqs_sf])), w)
    c.eq("energy", ec, (w.sum() - np.trace(A)) / 2 * (0.5 if x else 1))
    c.eq("total energy", r.e_tot, mf.e_tot + ec)


def restricted_parts(mf, rot, T):
    """Matrix selecting what a rotation in the given representation selects of the full space."""
    if rot == "spinorbital":
        return T
    return np.hstack([T, 0 * T])


@contract(P, "ri_moments", ["vayesta.rpa.rirpa.RIRPA.ssRIRRPA.kernel_moms", "vayesta.rpa.rirpa.RIRPA.ssRIRRPA._kernel_mom0",
                            "vayesta.rpa.rirpa.RIRPA.ssRIRRPA.compress_low_rank", "vayesta.rpa.rirpa.RIRPA.ssRIRRPA.get_cderi",
                            "vayesta.rpa.rirpa.RIURPA.ssRIURPA.get_cderi", "vayesta.rpa.rirpa.RIdRRPA.ssRIdRRPA._kernel_mom0",
                            "vayesta.rpa.rirpa.momzero_NI.MomzeroDeductHigherOrder", "vayesta.rpa.rirpa.momzero_NI.MomzeroDeductHigherOrder_dRHF",
                            "vayesta.rpa.rirpa.momzero_NI.MomzeroOffsetCalcGaussLag", "vayesta.rpa.rirpa.momzero_NI.MomzeroOffsetCalcCC",
                            "vayesta.rpa.rirpa.NI_eval.NumericalIntegratorClenCurInfinite",
                            "vayesta.rpa.rirpa.NI_eval.NumericalIntegratorClenCurSemiInfinite"],
          sym=False, bounded="four hydrogen atoms, 6-31G; random kernels and rotations", n=1, nthorough=6, timeout=300,
          cases=product_cases(cls=("r", "u", "d"), xc=(False, True), alpha=(1.0, 0.5), compress=(0, 3, 6),
                              exclude=lambda cls, xc, alpha, compress: cls == "d" and xc or compress == 3 and alpha != 1.0))
def ri_moments(c, cls, xc, alpha, compress):
    spin = "u" if cls == "u" else "r"
    mf, rixc = setup(c, spin, xc=xc)
    D, v, KA, KB, A, B = dense(mf, rixc, alpha)
    ref = moments(A, B, 4)
    r = CLS[cls](mf, rixc=rixc, compress=compress)
    nov = len(D) // 2
    full = c.rng.normal(size=(5, len(D)))
    rots = [(None, {})] + [(full, {})]
    if cls == "d":
        rots += [(full[:, :nov], {}), (full[:, :nov], dict(return_spatial=True))]
    for T, kw in rots:
        mom, err = r.kernel_moms(4, target_rot=T, alpha=alpha, npoints=60, **kw)
        TT = np.eye(len(D)) if T is None else T
        if TT.shape[1] == nov:
            TT = np.hstack([TT, TT]) if kw else np.hstack([TT, 0 * TT])
        for k in range(5):
            ex = TT @ ref[k]
            if kw:
                # response of one spin channel to a perturbation of both
                ex = ex[:, :nov]
            s = abs(ref[k]).max()
            c.true("moment %d" % k, mom[k].shape == ex.shape and abs(mom[k] - ex).max() < 1e-5 * s,
                   "%s %s" % (mom[k].shape, abs(mom[k] - ex).max() if mom[k].shape == ex.shape else ex.shape))


def three_index(mf, spin):
    cd = np.concatenate([x.copy() for x in mf.with_df.loop()])
    cd = pyscf.lib.unpack_tril(cd)
    Cs = [mf.mo_coeff] * 2 if spin == "r" else list(mf.mo_coeff)
    os_ = [lab.nocc(mf)] * 2 if spin == "r" else list(lab.nocc(mf))
    return [np.einsum("Lpq,pi,qa->Lia", cd, C[:, :o], C[:, o:]) for C, o in zip(Cs, os_)]


def split_lov(c, mf, spin):
    """The same integrals as difference of two positive parts."""
    lov = three_index(mf, spin)
    x = [c.rng.normal(size=(3,) + y.shape[1:]) * 0.1 for y in lov]
    if spin == "r":
        x[1] = x[0]
    return [np.concatenate([y, z]) for y, z in zip(lov, x)], x


@contract(P, "ri_inputs", ["vayesta.rpa.rirpa.RIRPA.ssRIRRPA.get_apb_eri_ri", "vayesta.rpa.rirpa.RIURPA.ssRIURPA.get_apb_eri_ri",
                           "vayesta.rpa.ssRIRPA", "vayesta.rpa.RPA"],
          sym=False, bounded="four hydrogen atoms, 6-31G", n=1, nthorough=4, timeout=300,
          cases=product_cases(spin=("r", "u"), kind=("lov", "negative", "dispatch", "adaptive")))
def ri_inputs(c, spin, kind):
    mf, rixc = setup(c, spin, xc=kind == "dispatch")
    D, v, KA, KB, A, B = dense(mf, rixc)
    lov = three_index(mf, spin)
    kw, kk = {}, dict(npoints=60)
    tol = 1e-5
    if kind == "lov":
        z = np.zeros
        kw = dict(lov=lov[0] if spin == "r" else (tuple(lov), (None, None)))
    elif kind == "negative":
        pos, neg = split_lov(c, mf, spin)
        kw = dict(lov=(pos[0], neg[0]) if spin == "r" else (tuple(pos), tuple(neg)))
    elif kind == "adaptive":
        kk, tol = dict(adaptive_quad=True), 2e-3
    if kind == "dispatch":
        r = m_top.rirpa.ssRIRPA(mf, rixc)
        c.true("class", type(r) is CLS[spin], str(type(r)))
        r = m_top.rirpa.ssRIRPA(mf)
        c.true("class", type(r) is CLS["d" if spin == "r" else "u"], str(type(r)))
        r = m_top.ssRIRPA(mf, rixc=rixc)
    else:
        r = CLS[spin](mf, **kw)
    mom, err = r.kernel_moms(1, **kk)
    for k, ex in enumerate(moments(A, B, 1)):
        c.true("moment %d" % k, abs(mom[k] - ex).max() < tol * abs(ex).max(), str(abs(mom[k] - ex).max()))


def slip(r, E, npoints=400):
    """Energy when the auxiliary inverse enters untransposed (listed finding)."""
    ri_mp = r.get_compressed_MP()[0]
    L, R = ri_mp
    D, f = r.D, 1.0
    if isinstance(r, RD):
        D, f = r.eps, 2.0
    x, w = np.polynomial.legendre.leggauss(npoints)
    d = 0.0
    for t, b in zip((x + 1) / 2, w / 2):
        z = t / (1 - t)
        F = 1 / (D ** 2 + z ** 2)
        inv = np.linalg.inv(np.eye(len(L)) + f * (R * F) @ L.T)
        G = (R * F ** 2) @ L.T
        d += 2 * b / (1 - t) ** 2 * f * z ** 2 / np.pi * (np.sum(inv * G) - np.sum(inv.T * G))
    return E + d / 2


@contract(P, "ri_energy", ["vayesta.rpa.rirpa.RIRPA.ssRIRRPA.kernel_energy", "vayesta.rpa.rirpa.RIRPA.ssRIRRPA.direct_AC_integration",
                           "vayesta.rpa.rirpa.RIdRRPA.ssRIdRRPA.kernel_energy", "vayesta.rpa.rirpa.energy_NI.NITrRootMP",
                           "vayesta.rpa.rirpa.energy_NI.NITrRootMP_dRHF", "vayesta.rpa.rirpa.RIRPA.ssRIRRPA.get_gap"],
          sym=False, bounded="four hydrogen atoms, 6-31G; random kernels", n=1, nthorough=6, timeout=300,
          cases=product_cases(cls=("r", "u", "d"), kind=("coulomb", "xc", "negative"),
                              exclude=lambda cls, kind: cls == "d" and kind == "xc"))
def ri_energy(c, cls, kind):
    spin = "u" if cls == "u" else "r"
    xc = kind == "xc"
    mf, rixc = setup(c, spin, xc=xc)
    D, v, KA, KB, A, B = dense(mf, rixc)
    kw = {}
    if kind == "negative":
        pos, neg = split_lov(c, mf, spin)
        kw = dict(lov=(pos[0], neg[0]) if spin == "r" else (tuple(pos), tuple(neg)))
    r = CLS[cls](mf, rixc=rixc, **kw)
    E = rpa_energy(mf, rixc)
    if cls != "d":
        ac = r.direct_AC_integration(npoints=60)[0] if kind != "negative" else E
        c.true("adiabatic connection", abs(np.sum(ac) - E) < 1e-4 * abs(E), "%s %.9f" % (ac, E))
    gap = r.get_gap()
    w = frequencies(A, B)
    c.true("gap is an excitation energy", abs(w - gap).min() < 1e-5, "%s %s" % (gap, w[:4]))
    e, err = r.kernel_energy(npoints=60)
    if xc:
        m0 = eta(A, B)
        E = np.trace(m0 @ (A + B - KB / 2) - (A - KB / 2)) / 2
    ok = abs(e - E) < 1e-6
    detail = "%.9f %.9f" % (e, E)
    if not ok and abs(e - slip(r, E)) < 1e-6:
        detail = "auxiliary inverse enters untransposed: " + detail
    c.true("energy", ok, detail)
