"""P04: density matrices of wave functions: hermiticity, electron number, cumulant decomposition, AO transformation."""
import numpy as np
import pyscf.cc.ccsd_rdm
import pyscf.cc.uccsd_rdm

from engine.core import contract, product_cases, Skip
from vayesta.core.types import wf as wft
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
from vayesta.core.vpyscf import ccsd_rdm, uccsd_rdm
from .common import *
from . import fcitools as ft
from .p02_projection import make_r, make_u

P = "P04"


def mf_dm(c, o, v, fac=2):
    """Mean-field 1-RDM in MO basis as block tensor."""
    n = c.axis(o, v)
    d = c.zeros(n, n)
    d[:o, :o] = fac * c.eye(o)
    return d


def full_from_cumulant(c, cum, corr, o, v):
    """gamma2 = cumulant + HF(gamma_mf + corr) without corr x corr  (spin-summed, chemists' order)."""
    m = mf_dm(c, o, v)
    E = c.einsum
    x = E("ij,kl->ijkl", m, m) + E("ij,kl->ijkl", m, corr) + E("ij,kl->ijkl", corr, m)
    y = E("ij,kl->ilkj", m, m) + E("ij,kl->ilkj", m, corr) + E("ij,kl->ilkj", corr, m)
    return cum + x - y / 2


@contract(P, "rmp2_rdm1", ["RMP2_WaveFunction.make_rdm1"], cases=product_cases(ao=[False, True]))
def _(c, ao):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = make_r(c, "mp2", mo, o, v)
    t2 = wf.t2
    d = wf.make_rdm1()
    d0 = wf.make_rdm1(with_mf=False)
    E = c.einsum
    c.eq("hermitian", d, d.T)
    c.eq("trace = N", E("pp->", d), 2 * o)
    c.eq("correlation part is traceless", E("pp->", d0), 0)
    c.eq("with_mf", d - d0, mf_dm(c, o, v))
    th = 2 * t2 - t2.transpose(0, 1, 3, 2)
    c.eq("oo", d0[:o, :o], -2 * E("ikab,jkab->ij", th, t2))
    c.eq("vv", d0[o:, o:], 2 * E("ijac,ijbc->ab", th, t2))
    c.eq("ov", d0[:o, o:], c.zeros(o, v))
    if ao:
        c.eq("AO", wf.make_rdm1(ao_basis=True), E("xp,pq,yq->xy", mo.coeff, d, mo.coeff))


@contract(P, "rmp2_rdm2", ["RMP2_WaveFunction.make_rdm2"], cases=product_cases(ao=[False, True]))
def _(c, ao):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = make_r(c, "mp2", mo, o, v)
    d = wf.make_rdm2()
    k = wf.make_rdm2(with_dm1=False)
    c.eq("symmetry rspq", d, d.transpose(2, 3, 0, 1))
    c.eq("symmetry qpsr", d, d.transpose(1, 0, 3, 2))
    c.eq("decomposition", d, full_from_cumulant(c, k, wf.make_rdm1(with_mf=False), o, v))
    # energy: <V> with cumulant = 2 * sum (2 t_ijab - t_ijba) (ia|jb)
    g = c.tensor("g", (o, v, o, v), sym=[((2, 3, 0, 1), 1)])
    t2 = wf.t2
    th = 2 * t2 - t2.transpose(0, 1, 3, 2)
    c.eq("MP2 correlation energy", c.einsum("iajb,iajb->", k[:o, o:, :o, o:], g) + c.einsum(
        "aibj,iajb->", k[o:, :o, o:, :o], g), 4 * c.einsum("ijab,iajb->", th, g))
    if ao:
        C = mo.coeff
        c.eq("AO", wf.make_rdm2(ao_basis=True), c.einsum("ijkl,ai,bj,ck,dl->abcd", d, C, C, C, C))


def d1_r(c, o, v):
    return (c.tensor("doo", (o, o)), c.tensor("dov", (o, v)), c.tensor("dvo", (v, o)), c.tensor("dvv", (v, v)))


@contract(P, "rccsd_rdm1", ["RCCSD_WaveFunction.make_rdm1", "ccsd_rdm.make_rdm1", "ccsd_rdm._make_rdm1",
                            "ccsd_rdm._gamma1_intermediates"], modules=["pyscf.cc.ccsd_rdm"], cases=product_cases(tl=[False, True]))
def _(c, tl):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = make_r(c, "ccsd", mo, o, v)
    d = wf.make_rdm1(t_as_lambda=tl)
    d0 = wf.make_rdm1(t_as_lambda=tl, with_mf=False)
    E = c.einsum
    c.eq("hermitian", d, d.T)
    c.eq("trace = N", E("pp->", d), 2 * o)
    c.eq("with_mf", d - d0, mf_dm(c, o, v))
    l1, l2 = (wf.t1, wf.t2) if tl else (wf.l1, wf.l2)
    d1 = pyscf.cc.ccsd_rdm._gamma1_intermediates(None, wf.t1, wf.t2, l1, l2)
    c.eq("oo", d0[:o, :o], d1[0] + d1[0].T)
    c.eq("ov", d0[:o, o:], d1[1] + d1[2].T)
    c.eq("vv", d0[o:, o:], d1[3] + d1[3].T)
    c.eq("AO", wf.make_rdm1(t_as_lambda=tl, ao_basis=True), E("xp,pq,yq->xy", mo.coeff, d, mo.coeff))
    if not tl:
        nol = make_r(c, "ccsd_nolambda", mo, o, v)
        c.raises("lambda required", AttributeError, lambda: nol.make_rdm1())
        c.raises("lambda required", AttributeError, lambda: nol.make_rdm2())


@contract(P, "uccsd_rdm1", ["UCCSD_WaveFunction.make_rdm1", "uccsd_rdm.make_rdm1", "uccsd_rdm._make_rdm1",
                            "uccsd_rdm._gamma1_intermediates"], modules=["pyscf.cc.uccsd_rdm"], cases=product_cases(tl=[False, True]))
def _(c, tl):
    d_ = oa, va, ob, vb = udims(c)
    mo = umo(c, *d_)
    wf = make_u(c, "ccsd", mo, d_)
    d = wf.make_rdm1(t_as_lambda=tl)
    d0 = wf.make_rdm1(t_as_lambda=tl, with_mf=False)
    E = c.einsum
    l1, l2 = (wf.t1, wf.t2) if tl else (wf.l1, wf.l2)
    d1 = pyscf.cc.uccsd_rdm._gamma1_intermediates(None, wf.t1, wf.t2, l1, l2)
    da = wf.make_rdm1(t_as_lambda=tl, ao_basis=True)
    for s, (o, v) in enumerate(((oa, va), (ob, vb))):
        c.eq("hermitian", d[s], d[s].T)
        c.eq("trace = N", E("pp->", d[s]), o)
        c.eq("with_mf", d[s] - d0[s], mf_dm(c, o, v, 1))
        c.eq("oo", 2 * d0[s][:o, :o], d1[0][s] + d1[0][s].T)
        c.eq("ov", 2 * d0[s][:o, o:], d1[1][s] + d1[2][s].T)
        c.eq("vv", 2 * d0[s][o:, o:], d1[3][s] + d1[3][s].T)
        c.eq("AO", da[s], E("xp,pq,yq->xy", mo.coeff[s], d[s], mo.coeff[s]))


@contract(P, "rccsd_rdm2_assembly", ["ccsd_rdm._make_rdm2", "ccsd_rdm._rdm2_mo2ao"], cases=product_cases(ao=[False, True]))
def _(c, ao):
    """For arbitrary 1- and 2-particle intermediates (modular: callee results are unconstrained)."""
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    n = c.axis(o, v)
    d1 = d1_r(c, o, v)
    S = lambda *x: tuple({"o": o, "v": v}[y] for y in x[0])
    d2 = [c.tensor("d" + k, S(k)) for k in ("ovov", "vvvv", "oooo", "oovv", "ovvo")]
    d2 += [None, c.tensor("dovvv", S("ovvv")), c.tensor("dooov", S("ooov"))]
    nao = c.dim("nao")
    C = c.tensor("C", (nao, n))
    cc = c.ns(mo_coeff=C, frozen=None)
    k = ccsd_rdm._make_rdm2(cc, d1, tuple(c.snapshot(x) for x in d2), with_dm1=False, with_frozen=False)
    f = ccsd_rdm._make_rdm2(cc, d1, tuple(c.snapshot(x) for x in d2), with_dm1=True, with_frozen=False)
    corr = ccsd_rdm._make_rdm1(cc, d1, with_frozen=False, with_mf=False)
    c.eq("decomposition", f, full_from_cumulant(c, k, corr, o, v))
    # intermediates enter the right block with the right hermitian partner
    spec = {"ovov": d2[0] + d2[0].transpose(2, 3, 0, 1), "oovv": d2[3] + d2[3].transpose(1, 0, 3, 2),
            "ovvo": d2[4] + d2[4].transpose(3, 2, 1, 0), "vvvv": 2 * (d2[1] + d2[1].transpose(1, 0, 3, 2)),
            "oooo": 2 * (d2[2] + d2[2].transpose(1, 0, 3, 2)), "ovvv": d2[6], "ooov": d2[7]}
    sl = {"o": slice(None, o), "v": slice(o, None)}
    for b, x in spec.items():
        c.eq("block " + b, k[tuple(sl[b[i]] for i in (1, 0, 3, 2))], x.transpose(1, 0, 3, 2))
    if ao:
        a = ccsd_rdm._make_rdm2(cc, d1, tuple(c.snapshot(x) for x in d2), with_dm1=False, with_frozen=False, ao_repr=True)
        c.eq("AO", a, c.einsum("ijkl,ai,bj,ck,dl->abcd", k.transpose(1, 0, 3, 2), C, C, C, C))


@contract(P, "uccsd_rdm2_assembly", ["uccsd_rdm._make_rdm2", "uccsd_rdm._dm2ab_mo2ao"])
def _(c):
    d_ = oa, va, ob, vb = udims(c, max=2)
    na, nb = c.axis(oa, va), c.axis(ob, vb)
    D = {"o": oa, "v": va, "O": ob, "V": vb}
    T = lambda k: c.tensor("d" + k, tuple(D[x] for x in k))
    d1 = tuple((T(a), T(a.upper())) for a in ("oo", "ov", "vo", "vv"))
    names = ["ovov", "vvvv", "oooo", "oovv", "ovvo", "vvov", "ovvv", "ooov"]

    def four(k):
        u = k.upper()
        return (T(k), T(k[:2] + u[2:]), T(u[:2] + k[2:]), T(u))
    d2 = [four(k) for k in names]
    cc = c.ns(frozen=None)
    run = lambda w: uccsd_rdm._make_rdm2(cc, d1, [tuple(c.snapshot(x) for x in q) for q in d2], with_dm1=w, with_frozen=False)
    k, f = run(False), run(True)
    corr = uccsd_rdm._make_rdm1(cc, d1, with_frozen=False, with_mf=False)
    ma, mb = mf_dm(c, oa, va, 1), mf_dm(c, ob, vb, 1)
    E = c.einsum

    def same(m, g):
        x = E("ij,kl->ijkl", m, m) + E("ij,kl->ijkl", m, g) + E("ij,kl->ijkl", g, m)
        y = E("ij,kl->ilkj", m, m) + E("ij,kl->ilkj", m, g) + E("ij,kl->ilkj", g, m)
        return x - y
    c.eq("aa", f[0], k[0] + same(ma, corr[0]))
    c.eq("bb", f[2], k[2] + same(mb, corr[1]))
    c.eq("ab", f[1], k[1] + E("ij,kl->ijkl", ma, mb) + E("ij,kl->ijkl", ma, corr[1]) + E("ij,kl->ijkl", corr[0], mb))


@contract(P, "ccsd_rdm2_reference", ["ccsd_rdm._gamma2_outcore", "ccsd_rdm.make_rdm2", "uccsd_rdm._gamma2_outcore", "uccsd_rdm.make_rdm2",
                                     "RCCSD_WaveFunction.make_rdm2", "UCCSD_WaveFunction.make_rdm2",
                                     "RCCSD_WaveFunction.make_rdm2_non_cumulant", "UCCSD_WaveFunction.make_rdm2_non_cumulant"],
          cases=product_cases(spin=["r", "u"], tl=[False, True]), sym=False, n=4,
          bounded="dimensions <= 4, random amplitudes; oracle: PySCF ccsd_rdm / uccsd_rdm")
def _(c, spin, tl):
    class Fake:
        stdout = None
        verbose = 0
        max_memory = 4000
        frozen = None
    cc = Fake()
    if spin == "r":
        o, v = c.dim("o"), c.dim("v")
        mo = rmo(c, o, v)
        wf = make_r(c, "ccsd", mo, o, v)
        ref = pyscf.cc.ccsd_rdm
    else:
        d_ = udims(c)
        mo = umo(c, *d_)
        wf = make_u(c, "ccsd", mo, d_)
        ref = pyscf.cc.uccsd_rdm
    l1, l2 = (wf.t1, wf.t2) if tl else (wf.l1, wf.l2)
    cc.mo_coeff = mo.coeff
    args = (wf.t1, wf.t2, l1, l2)
    snap = [c.snapshot(x) for x in args]
    full = ref.make_rdm2(cc, *args, with_frozen=False)
    cum = ref.make_rdm2(cc, *args, with_frozen=False, with_dm1=False)
    dm1 = ref.make_rdm1(cc, *args, with_frozen=False)
    c.eq("full", wf.make_rdm2(t_as_lambda=tl), full)
    c.eq("approx cumulant", wf.make_rdm2(t_as_lambda=tl, with_dm1=False), cum)
    k = wf.make_rdm2(t_as_lambda=tl, with_dm1=False, approx_cumulant=False)
    kao = wf.make_rdm2(t_as_lambda=tl, with_dm1=False, approx_cumulant=False, ao_basis=True)
    fao = wf.make_rdm2(t_as_lambda=tl, ao_basis=True)
    E = np.einsum
    if spin == "r":
        c.eq("cumulant", k, full - E("ij,kl->ijkl", dm1, dm1) + E("ij,kl->iklj", dm1, dm1) / 2)
        C = mo.coeff
        tr = lambda x: E("ijkl,ai,bj,ck,dl->abcd", x, C, C, C, C)
        c.eq("cumulant AO", kao, tr(k))
        c.eq("full AO", fao, tr(full))
    else:
        a, b = dm1
        c.eq("cumulant", tuple(k), (full[0] - E("ij,kl->ijkl", a, a) + E("ij,kl->iklj", a, a), full[1] - E("ij,kl->ijkl", a, b),
                                   full[2] - E("ij,kl->ijkl", b, b) + E("ij,kl->iklj", b, b)))
        ca, cb = mo.coeff
        tr = lambda x: tuple(E("ijkl,ai,bj,ck,dl->abcd", y, p, p, q, q) for y, (p, q) in zip(x, ((ca, ca), (ca, cb), (cb, cb))))
        c.eq("cumulant AO", tuple(kao), tr(k))
        c.eq("full AO", tuple(fao), tr(full))
    for x, y in zip(args, snap):
        c.eq("amplitudes kept", x, y)


@contract(P, "fci_rdm", ["RFCI_WaveFunction.make_rdm1", "RFCI_WaveFunction.make_rdm2", "UFCI_WaveFunction.make_rdm1",
                         "UFCI_WaveFunction.make_rdm2"], sym=False, bounded="norb <= 5; oracle: operator application on determinants",
          cases=product_cases(spin=["r", "u"]), n=5)
def _(c, spin):
    norb, na = c.dim("norb", 2, 5), c.dim("na", 1, 3)
    nb = c.dim("nb", 1, 3) if spin == "u" else na
    if max(na, nb) > norb:
        raise Skip()
    ci = ft.rand_ci(c.rng, norb, (na, nb), sym=spin == "r")
    ca, cb = c.rng.normal(size=(norb + 1, norb)), c.rng.normal(size=(norb + 1, norb))
    (a, b), d2 = ft.brute_rdm12s(ci, norb, (na, nb))
    E = np.einsum
    I = lambda n: np.diag([1.0] * n + [0.0] * (norb - n))
    if spin == "r":
        mo = SpatialOrbitals(ca, occ=na)
        wf = wft.RFCI_WaveFunction(mo, ci)
        dm1 = a + b
        dm2 = d2["aa"] + d2["bb"] + d2["ab"] + d2["ba"]
        m = 2 * I(na)
        corr = dm1 - m
        c.eq("dm1", wf.make_rdm1(), dm1)
        c.eq("dm1 corr", wf.make_rdm1(with_mf=False), corr)
        c.eq("dm1 ao", wf.make_rdm1(ao_basis=True), ca @ dm1 @ ca.T)
        c.eq("dm2", wf.make_rdm2(), dm2)
        c.eq("dm2 ao", wf.make_rdm2(ao_basis=True), E("ijkl,ai,bj,ck,dl->abcd", dm2, ca, ca, ca, ca))
        k = dm2 - E("ij,kl->ijkl", dm1, dm1) + E("ij,kl->ilkj", dm1, dm1) / 2
        c.eq("cumulant", wf.make_rdm2(with_dm1=False, approx_cumulant=False), k)
        ap = dm2 - (E("ij,kl->ijkl", m, m) + E("ij,kl->ijkl", m, corr) + E("ij,kl->ijkl", corr, m)) + (
            E("ij,kl->ilkj", m, m) + E("ij,kl->ilkj", m, corr) + E("ij,kl->ilkj", corr, m)) / 2
        c.eq("approx cumulant", wf.make_rdm2(with_dm1=False), ap)
        c.eq("approx cumulant ao", wf.make_rdm2(with_dm1=False, ao_basis=True), E("ijkl,ai,bj,ck,dl->abcd", ap, ca, ca, ca, ca))
        return
    mo = SpinOrbitals((ca, cb), occ=(na, nb))
    wf = wft.UFCI_WaveFunction(mo, ci)
    c.eq("dm1", tuple(wf.make_rdm1()), (a, b))
    c.eq("dm1 corr", tuple(wf.make_rdm1(with_mf=False)), (a - I(na), b - I(nb)))
    c.eq("dm1 ao", tuple(wf.make_rdm1(ao_basis=True)), (ca @ a @ ca.T, cb @ b @ cb.T))
    full = (d2["aa"], d2["ab"], d2["bb"])
    c.eq("dm2", tuple(wf.make_rdm2()), full)
    tr = lambda x: tuple(E("ijkl,ai,bj,ck,dl->abcd", y, p, p, q, q) for y, (p, q) in zip(x, ((ca, ca), (ca, cb), (cb, cb))))
    c.eq("dm2 ao", tuple(wf.make_rdm2(ao_basis=True)), tr(full))
    hf = lambda x, y: E("ij,kl->ijkl", x, y)
    ex = lambda x, y: E("ij,kl->ilkj", x, y)
    c.eq("cumulant", tuple(wf.make_rdm2(with_dm1=False, approx_cumulant=False)),
         (full[0] - hf(a, a) + ex(a, a), full[1] - hf(a, b), full[2] - hf(b, b) + ex(b, b)))
    ma, mb = I(na), I(nb)
    ka, kb = a - ma, b - mb
    ap = (full[0] - hf(ma, a) - hf(ka, ma) + ex(ma, a) + ex(ka, ma), full[1] - hf(ma, b) - hf(ka, mb),
          full[2] - hf(mb, b) - hf(kb, mb) + ex(mb, b) + ex(kb, mb))
    c.eq("approx cumulant", tuple(wf.make_rdm2(with_dm1=False)), ap)
    c.eq("approx cumulant ao", tuple(wf.make_rdm2(with_dm1=False, ao_basis=True)), tr(ap))


@contract(P, "rdm_wf", ["RRDM_WaveFunction.make_rdm1", "RRDM_WaveFunction.make_rdm2", "RRDM_WaveFunction.make_rdm2_non_cumulant"],
          cases=product_cases(ao=[False, True]))
def _(c, ao):
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    n = c.axis(o, v)
    mo = rmo(c, o, v)
    d1 = c.tensor("d1", (n, n), sym=[((1, 0), 1)])
    d2 = c.tensor("d2", (n, n, n, n))
    wf = wft.RRDM_WaveFunction(mo, d1, d2)
    E = c.einsum
    C = mo.coeff
    t1 = (lambda x: E("xp,pq,yq->xy", C, x, C)) if ao else (lambda x: x)
    t2 = (lambda x: E("ijkl,ai,bj,ck,dl->abcd", x, C, C, C, C)) if ao else (lambda x: x)
    corr = d1 - mf_dm(c, o, v)
    c.eq("dm1", wf.make_rdm1(ao_basis=ao), t1(d1))
    c.eq("dm1 corr", wf.make_rdm1(ao_basis=ao, with_mf=False), t1(corr))
    c.eq("dm2", wf.make_rdm2(ao_basis=ao), t2(d2))
    c.eq("cumulant", wf.make_rdm2(ao_basis=ao, with_dm1=False, approx_cumulant=False),
         t2(d2 - E("ij,kl->ijkl", d1, d1) + E("ij,kl->ilkj", d1, d1) / 2))
    ap = wf.make_rdm2(with_dm1=False)
    c.eq("approx cumulant", full_from_cumulant(c, ap, corr, o, v), d2)
    c.eq("approx cumulant ao", wf.make_rdm2(with_dm1=False, ao_basis=ao), t2(ap))
    c.eq("kept", wf.dm1, d1)
    c.eq("kept", wf.dm2, d2)


@contract(P, "urdm_wf", ["URDM_WaveFunction.make_rdm1", "URDM_WaveFunction.make_rdm2", "URDM_WaveFunction.make_rdm2_non_cumulant"],
          cases=product_cases(ao=[False, True]))
def _(c, ao):
    d_ = oa, va, ob, vb = udims(c, max=2)
    na, nb = c.axis(oa, va), c.axis(ob, vb)
    mo = umo(c, *d_)
    a, b = c.tensor("d1a", (na, na), sym=[((1, 0), 1)]), c.tensor("d1b", (nb, nb), sym=[((1, 0), 1)])
    aa, ab, bb = c.tensor("aa", (na,) * 4), c.tensor("ab", (na, na, nb, nb)), c.tensor("bb", (nb,) * 4)
    wf = wft.URDM_WaveFunction(mo, (a, b), (aa, ab, bb))
    E = c.einsum
    ca, cb = mo.coeff
    ma, mb = mf_dm(c, oa, va, 1), mf_dm(c, ob, vb, 1)

    def t1(x):
        return tuple(E("xp,pq,yq->xy", C, y, C) for C, y in zip((ca, cb), x)) if ao else tuple(x)

    def t2(x):
        if not ao:
            return tuple(x)
        return tuple(E("ijkl,ai,bj,ck,dl->abcd", y, p, p, q, q) for y, (p, q) in zip(x, ((ca, ca), (ca, cb), (cb, cb))))
    c.eq("dm1", tuple(wf.make_rdm1(ao_basis=ao)), t1((a, b)))
    c.eq("dm1 corr", tuple(wf.make_rdm1(ao_basis=ao, with_mf=False)), t1((a - ma, b - mb)))
    c.eq("dm2", tuple(wf.make_rdm2(ao_basis=ao)), t2((aa, ab, bb)))
    c.eq("spin blocks", (wf.dm1a, wf.dm1b, wf.dm2aa, wf.dm2ab, wf.dm2ba, wf.dm2bb), (a, b, aa, ab, ab.transpose(2, 3, 0, 1), bb))
    hf = lambda x, y: E("ij,kl->ijkl", x, y)
    ex = lambda x, y: E("ij,kl->ilkj", x, y)
    c.eq("cumulant", tuple(wf.make_rdm2(ao_basis=ao, with_dm1=False, approx_cumulant=False)),
         t2((aa - hf(a, a) + ex(a, a), ab - hf(a, b), bb - hf(b, b) + ex(b, b))))
    ka, kb = a - ma, b - mb
    ap = (aa - hf(ma, a) - hf(ka, ma) + ex(ma, a) + ex(ka, ma), ab - hf(ma, b) - hf(ka, mb),
          bb - hf(mb, b) - hf(kb, mb) + ex(mb, b) + ex(kb, mb))
    c.eq("approx cumulant", tuple(wf.make_rdm2(ao_basis=ao, with_dm1=False)), t2(ap))
    c.eq("kept", (wf.dm1[0], wf.dm1[1], wf.dm2[0], wf.dm2[1], wf.dm2[2]), (a, b, aa, ab, bb))


@contract(P, "hf_rdm", ["RHF_WaveFunction.make_rdm1", "RHF_WaveFunction.make_rdm2", "UHF_WaveFunction.make_rdm1"], cases=product_cases(ao=[True, False]))
def _(c, ao):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = wft.RHF_WaveFunction(mo)
    d = wf.make_rdm1(ao_basis=ao)
    C = mo.coeff
    ref = mf_dm(c, o, v)
    if ao:
        ref = c.einsum("xp,pq,yq->xy", C, ref, C)
    c.eq("dm1", d, ref)
    c.eq("dm2", wf.make_rdm2(ao_basis=ao), c.einsum("ij,kl->ijkl", ref, ref) - c.einsum("ij,kl->ilkj", ref, ref) / 2)
