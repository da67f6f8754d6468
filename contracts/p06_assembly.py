"""P06: amplitudes and density matrices assembled from fragments (EWF)."""
import numpy as np

from engine.core import contract, product_cases, Skip
from .common import *
from . import lab

P = "P06"
B = "3-4 fragments, up to 6 orbitals of either spin, random amplitudes and random (non-HF) reference orbitals"


def setup(c, spin, bath="full", frag="sao", lam=True, natom=None, singles=True, canonical=False, **kw):
    natom = natom or {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)), canonical=canonical)
    wf = lab.random_ccsd(c.rng, mf, lam=lam, singles=singles)
    emb = lab.make_ewf(mf, wf, frag=frag, bath=bath, **kw)
    return mf, wf, emb


def ao_t(x, co, cv, two=False):
    if two:
        return np.einsum("Ii,Jj,ijab,Aa,Bb->IJAB", co[0], co[1], x, cv[0], cv[1], optimize=True)
    return co @ x @ cv.T


@contract(P, "global_amps", ["get_global_t1_rhf", "get_global_t2_rhf", "get_global_t1_uhf", "get_global_t2_uhf",
                             "EWF.get_global_l1", "EWF.get_global_l2", "EWF.kernel", "Fragment.kernel"],
          cases=product_cases(spin=["r", "u"], frag=["sao"]), sym=False, n=2, bounded=B)
def _(c, spin, frag):
    mf, wf, emb = setup(c, spin, frag=frag)
    c.eq("t1", emb.get_global_t1(), wf.t1)
    c.eq("t2", emb.get_global_t2(), wf.t2)
    c.eq("l1", emb.get_global_l1(), wf.l1)
    c.eq("l2", emb.get_global_l2(), wf.l2)
    c.eq("l1(t)", emb.get_global_l1(t_as_lambda=True), wf.t1)
    c.eq("l2(t)", emb.get_global_l2(t_as_lambda=True), wf.t2)
    if spin == "r":
        o = lab.nocc(mf)
        co, cv = mf.mo_coeff[:, :o], mf.mo_coeff[:, o:]
        c.eq("t1 ao", emb.get_global_t1(ao_basis=True), ao_t(wf.t1, co, cv))
        c.eq("l2 ao", emb.get_global_l2(ao_basis=True), ao_t(wf.l2, (co, co), (cv, cv), True))
    else:
        o = lab.nocc(mf)
        co = [mf.mo_coeff[s][:, :o[s]] for s in range(2)]
        cv = [mf.mo_coeff[s][:, o[s]:] for s in range(2)]
        c.eq("t1 ao", emb.get_global_t1(ao_basis=True), tuple(ao_t(wf.t1[s], co[s], cv[s]) for s in range(2)))
        c.eq("l2 ao", emb.get_global_l2(ao_basis=True), tuple(
            ao_t(wf.l2[k], (co[s], co[t]), (cv[s], cv[t]), True) for k, (s, t) in enumerate([(0, 0), (0, 1), (1, 1)])))


@contract(P, "global_amps_truncated", ["get_global_t1_rhf", "get_global_t2_rhf", "get_global_t1_uhf", "get_global_t2_uhf"],
          cases=product_cases(spin=["r", "u"]), sym=False, n=2, bounded=B)
def _(c, spin):
    """Truncated (DMET) clusters: the global amplitudes are the sum over fragments of the amplitudes with the first
    occupied index projected on the fragment (doubles: exchange-symmetric average), embedded in the full space."""
    mf, wf, emb = setup(c, spin, bath="dmet")
    S = mf.get_ovlp()
    o = lab.nocc(mf)
    mo = mf.mo_coeff

    def sp(x, s):
        return x if spin == "r" else x[s]
    oo = [sp(o, s) for s in range(2)]
    co = [sp(mo, s)[:, :oo[s]] for s in range(2)]
    cv = [sp(mo, s)[:, oo[s]:] for s in range(2)]
    get = {}
    for k in ("t", "l"):
        t1 = [np.zeros((co[s].shape[1], cv[s].shape[1])) for s in range(2)]
        t2 = {(s, t): np.zeros((co[s].shape[1], co[t].shape[1], cv[s].shape[1], cv[t].shape[1])) for s in range(2) for t in range(2)}
        for x in emb.fragments:
            w = x.results.wf
            xo = [co[s].T @ S @ sp(x.cluster.c_active_occ, s) for s in range(2)]
            xv = [cv[s].T @ S @ sp(x.cluster.c_active_vir, s) for s in range(2)]
            fr = [co[s].T @ S @ sp(x.c_frag, s) for s in range(2)]
            pr = [f @ f.T for f in fr]
            a1, a2 = getattr(w, k + "1"), getattr(w, k + "2")
            for s in range(2):
                t1[s] += pr[s] @ ao_t(sp(a1, s), xo[s], xv[s])
            for s in range(2):
                for t in range(2):
                    if spin == "r":
                        a = a2
                    else:
                        a = a2[1].transpose(1, 0, 3, 2) if (s, t) == (1, 0) else a2[{(0, 0): 0, (0, 1): 1, (1, 1): 2}[s, t]]
                    full = ao_t(a, (xo[s], xo[t]), (xv[s], xv[t]), True)
                    t2[s, t] += 0.5 * (np.einsum("ik,kjab->ijab", pr[s], full) + np.einsum("jk,ikab->ijab", pr[t], full))
        if spin == "r":
            get[k] = t1[0], t2[0, 0]
        else:
            get[k] = tuple(t1), (t2[0, 0], t2[0, 1], t2[1, 1])
    c.eq("t1", emb.get_global_t1(), get["t"][0])
    c.eq("t2", emb.get_global_t2(), get["t"][1])
    c.eq("l1", emb.get_global_l1(), get["l"][0])
    c.eq("l2", emb.get_global_l2(), get["l"][1])


def flat(x):
    return x if not isinstance(x, (tuple, list)) else tuple(flat(y) for y in x)


def sub(a, b):
    if isinstance(a, (tuple, list)):
        return tuple(sub(x, y) for x, y in zip(a, b))
    return a - b


def mfdm(emb, mf):
    o, n = lab.nocc(mf), mf.mo_coeff.shape[-1]
    if lab.is_r(mf):
        return np.diag([2.0] * o + [0.0] * (n - o))
    return tuple(np.diag([1.0] * k + [0.0] * (n - k)) for k in o)


def to_ao(mf, d):
    if lab.is_r(mf):
        return mf.mo_coeff @ d @ mf.mo_coeff.T
    return tuple(cc @ x @ cc.T for cc, x in zip(mf.mo_coeff, d))


def to_ao2(mf, d):
    def tr(x, a, b):
        return np.einsum("ijkl,pi,qj,rk,sl->pqrs", x, a, a, b, b, optimize=True)
    if lab.is_r(mf):
        return tr(d, mf.mo_coeff, mf.mo_coeff)
    a, b = mf.mo_coeff
    return tr(d[0], a, a), tr(d[1], a, b), tr(d[2], b, b)


@contract(P, "rdm1_full", ["make_rdm1_ccsd", "make_rdm1_ccsd_global_wf", "make_rdm1_ccsd_proj_lambda", "EWF.make_rdm1"],
          cases=product_cases(spin=["r", "u"], tl=[False, True]), sym=False, n=1, nthorough=4, bounded=B)
def _(c, spin, tl):
    mf, wf, emb = setup(c, spin)
    w = wf if not tl else type(wf)(wf.mo, wf.t1, wf.t2, l1=wf.t1, l2=wf.t2)
    d = w.make_rdm1()
    d0 = sub(d, mfdm(emb, mf))
    G = emb._make_rdm1_ccsd_global_wf
    c.eq("global default", G(t_as_lambda=tl), d)
    c.eq("global default again (cached result is not modified)", G(t_as_lambda=tl), d)
    c.eq("global no mf", G(t_as_lambda=tl, with_mf=False), d0)
    c.eq("global ao", G(t_as_lambda=tl, ao_basis=True), to_ao(mf, d))
    for late in (True, False):
        for svd in (None, 1e-3):
            for us in (True, False):
                c.eq("global late=%s svd=%s sym=%s" % (late, svd, us), G(t_as_lambda=tl, late_t2_sym=late, svd_tol=svd, use_sym=us), d)
    c.eq("global slow", G(t_as_lambda=tl, slow=True), d)
    z = type(w)(w.mo, _z(w.t1), w.t2, l1=_z(w.t1), l2=w.l2).make_rdm1()
    c.eq("global no t1", G(t_as_lambda=tl, with_t1=False), z)
    c.eq("global no t1 slow", G(t_as_lambda=tl, with_t1=False, slow=True), z)
    for sy in (True, False):
        c.eq("pair sum sym=%s" % sy, emb._make_rdm1_ccsd(t_as_lambda=tl, symmetrize=sy), d)
    c.eq("pair sum no mf ao", emb._make_rdm1_ccsd(t_as_lambda=tl, with_mf=False, ao_basis=True), to_ao(mf, d0))
    if spin == "r":
        for s2 in (True, False):
            c.eq("proj lambda sym_t2=%s" % s2, emb._make_rdm1_ccsd_proj_lambda(t_as_lambda=tl, sym_t2=s2), d)
        c.eq("proj lambda ao no mf", emb._make_rdm1_ccsd_proj_lambda(t_as_lambda=tl, ao_basis=True, with_mf=False), to_ao(mf, d0))
    c.eq("public", emb.make_rdm1(t_as_lambda=tl), d)
    if tl:
        c.eq("mp2", emb._make_rdm1_mp2(), z)


def _z(t):
    return tuple(0 * x for x in t) if isinstance(t, tuple) else 0 * t


@contract(P, "rdm1_truncated", ["make_rdm1_ccsd_global_wf"],
          cases=product_cases(spin=["r", "u"], tl=[False, True], bath=["dmet"]), sym=False, n=1, nthorough=4, bounded=B)
def _(c, spin, tl, bath):
    """For any clusters: the fragment-pair algorithm equals the density matrix of the assembled global amplitudes."""
    mf, wf, emb = setup(c, spin, bath=bath)
    t1, t2 = emb.get_global_t1(), emb.get_global_t2()
    l1, l2 = (t1, t2) if tl else (emb.get_global_l1(), emb.get_global_l2())
    d = type(wf)(wf.mo, t1, t2, l1=l1, l2=l2).make_rdm1()
    G = emb._make_rdm1_ccsd_global_wf
    for late in (True, False):
        for svd in (None, 1e-10):
            for us in (True, False):
                c.eq("late=%s svd=%s sym=%s" % (late, svd, us), G(t_as_lambda=tl, late_t2_sym=late, svd_tol=svd, use_sym=us), d)
    c.eq("slow", G(t_as_lambda=tl, slow=True), d)


@contract(P, "rdm2_full", ["make_rdm2_ccsd_global_wf", "make_rdm2_ccsd_proj_lambda", "EWF.make_rdm2",
                           "Fragment.make_fragment_dm2cumulant", "Fragment._get_projected_gamma2_intermediates"],
          cases=product_cases(spin=["r", "u"], tl=[False, True]), sym=False, n=1, nthorough=4, bounded=B)
def _(c, spin, tl):
    mf, wf, emb = setup(c, spin)
    w = wf if not tl else type(wf)(wf.mo, wf.t1, wf.t2, l1=wf.t1, l2=wf.t2)
    d1, d2 = w.make_rdm1(), w.make_rdm2()
    cum = w.make_rdm2(with_dm1=False)
    c.eq("global", emb._make_rdm2_ccsd_global_wf(t_as_lambda=tl), d2)
    c.eq("global cumulant", emb._make_rdm2_ccsd_global_wf(t_as_lambda=tl, with_dm1=False), cum)
    if spin == "r":     # not implemented for UHF
        c.eq("global ao", emb._make_rdm2_ccsd_global_wf(t_as_lambda=tl, ao_basis=True), to_ao2(mf, d2))
    c.eq("proj cumulant", emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl, with_dm1=False), cum)
    if not tl:
        c.eq("proj", emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl), d2)
        c.eq("proj ao", emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl, ao_basis=True), to_ao2(mf, d2))
        c.eq("public", emb.make_rdm2(), d2)
    if spin == "r":
        c.eq("proj given dm1", emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl, with_dm1=d1), d2)
        for st in (True, False):
            c.eq("sym_t2=%s" % st, emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl, with_dm1=d1, sym_t2=st), d2)
            c.eq("exact cumulant sym_t2=%s" % st,
                 emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl, with_dm1=d1, sym_t2=st, approx_cumulant=False),
                 d2) if not tl else None
    else:
        c.eq("proj given dm1", emb._make_rdm2_ccsd_proj_lambda(t_as_lambda=tl, with_dm1=d1), d2)


@contract(P, "mixed_solvers", ["make_rdm1_ccsd_global_wf", "EWF.get_global_l1", "EWF.get_global_l2"],
          cases=product_cases(spin=["r", "u"]), sym=False, n=1, bounded="6 orbitals, CCSD and MP2 solvers on different fragments", timeout=200, tol=1e-7)
def _(c, spin):
    """Fragments treated with different solvers: each contributes its own T and Lambda (T for MP2)."""
    import vayesta.ewf
    natom = {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, canonical=True)
    emb = vayesta.ewf.EWF(mf, bath_options=dict(bathtype="full"), solver_options=dict(solve_lambda=True))
    with emb.sao_fragmentation() as f:
        f.add_atomic_fragment([0, 1], solver="MP2")
        f.add_atomic_fragment([2, 3] if natom == 5 else [2, 3, 4])
        f.add_atomic_fragment(natom - 1)
    emb.kernel()
    r = spin == "r"
    ns = 1 if r else 2
    g = dict(t1=[0] * ns, l1=[0] * ns, t2=[0] * (1 if r else 3), l2=[0] * (1 if r else 3))
    S = mf.get_ovlp()
    mo = (mf.mo_coeff,) if r else mf.mo_coeff
    no = (lab.nocc(mf),) if r else lab.nocc(mf)
    for x in emb.fragments:
        co = (x.cluster.c_active_occ,) if r else x.cluster.c_active_occ
        cv = (x.cluster.c_active_vir,) if r else x.cluster.c_active_vir
        cf = (x.c_frag,) if r else x.c_frag
        ro = [mo[s][:, :no[s]].T @ S @ co[s] for s in range(ns)]
        rv = [mo[s][:, no[s]:].T @ S @ cv[s] for s in range(ns)]
        pf = [mo[s][:, :no[s]].T @ S @ cf[s] for s in range(ns)]
        pf = [y @ y.T for y in pf]
        wf = x.results.wf
        mp2 = x.solver == "MP2"
        for k in ("t", "l"):
            a1 = None if mp2 else getattr(wf, k + "1")
            a2 = wf.t2 if mp2 else getattr(wf, k + "2")
            a1 = (a1,) if r else a1
            a2 = (a2,) if r else a2
            for s in range(ns):
                z = 0 if mp2 else pf[s] @ ro[s] @ a1[s] @ rv[s].T
                g[k + "1"][s] = g[k + "1"][s] + z
            for i, (s, t) in enumerate(((0, 0),) if r else ((0, 0), (0, 1), (1, 1))):
                z = np.einsum("ijab,Ii,Jj,Aa,Bb->IJAB", a2[i], ro[s], ro[t], rv[s], rv[t], optimize=True)
                z = (np.einsum("xi,ijab->xjab", pf[s], z) + np.einsum("xj,ijab->ixab", pf[t], z)) / 2
                g[k + "2"][i] = g[k + "2"][i] + z
    g = {k: v[0] if r else tuple(v) for k, v in g.items()}
    c.eq("t2", emb.get_global_t2(), g["t2"])
    c.eq("t1", emb.get_global_t1(), g["t1"])
    from pyscf import cc
    mycc = (cc.ccsd.CCSD if r else cc.uccsd.UCCSD)(mf)
    rdm = cc.ccsd_rdm if r else cc.uccsd_rdm
    ref = rdm.make_rdm1(mycc, g["t1"], g["t2"], g["l1"], g["l2"])
    ref = ref if r else tuple(ref)
    for late in (True, False):
        c.eq("dm1 late=%s" % late, emb._make_rdm1_ccsd_global_wf(late_t2_sym=late, svd_tol=None, ovlp_tol=None), ref)
    c.eq("dm1 svd", emb._make_rdm1_ccsd_global_wf(svd_tol=1e-6), ref)
