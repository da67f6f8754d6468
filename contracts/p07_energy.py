"""P07: energy functionals of the embedded wave function."""
import numpy as np
import pyscf.cc
import pyscf.mp

from engine.core import contract, product_cases, Skip
from vayesta.ewf import fragment as fr, ufragment as ufr
from .common import *
from . import lab
from . import embstub as es

P = "P07"
B = "2-3 fragments, up to 6 orbitals of either spin, random amplitudes and random (non-HF) reference orbitals"


# --- deductive: the fragment energy functional, all dimensions

@contract(P, "frag_energy_r", ["ewf.Fragment.get_fragment_energy"],
          cases=product_cases(axis=["fragment", None], sing=[True, False], given=[True, False]))
def _(c, axis, sing, given):
    o, v, f, nao = c.dim("o"), c.dim("v"), c.dim("f"), c.dim("nao")
    px = c.tensor("P", (f, o))
    co, cv = c.tensor("co", (nao, o)), c.tensor("cv", (nao, v))
    F = c.tensor("F", (nao, nao), sym=[((1, 0), 1)])
    # <ov|vo> block of a real, exchange-symmetric integral tensor
    g = c.tensor("g", (o, v, v, o), sym=[((3, 2, 1, 0), 1)])
    w = c.scalar("symfac")
    n1 = f if axis else o
    c1 = c.tensor("c1", (n1, v)) if sing else None
    c2 = c.tensor("c2", (n1, o, v, v))
    hamil = c.ns(get_eris_bare=lambda block: {"ovvo": g, "ovov": g.transpose(0, 1, 3, 2)}[block])
    self = c.ns(get_overlap=es.overlap({"proj|cluster-occ": px, "frag|cluster-occ": px}), sym_factor=w, log=c.log,
                base=c.ns(get_fock_for_energy=lambda **k: F), hamil=None if given else hamil,
                cluster=c.ns(c_active_occ=co, c_active_vir=cv, nocc_active=o, nvir_active=v))
    es_, ed, ec = fr.Fragment.get_fragment_energy(self, c1, c2, hamil=hamil if given else None,
                                                  **({"axis1": "fragment"} if axis else {"axis1": "cluster"}))
    E = c.einsum
    if sing:
        fov = co.T @ F @ cv
        s = 2 * w * (E("ia,xi,xa->", fov, px, c1) if axis else E("ia,ia->", fov, c1))
    else:
        s = 0
    full = E("xjab,xi->ijab", c2, px) if axis else c2
    d = w * (2 * E("ijab,iabj->", full, g) - E("ijab,ibaj->", full, g))
    c.eq("singles", es_, s)
    c.eq("doubles", ed, d)
    c.eq("total", ec, s + d)


@contract(P, "frag_energy_u", ["ewf.UFragment.get_fragment_energy"],
          cases=product_cases(axis=["fragment", None], sing=[True, False]))
def _(c, axis, sing):
    o = [c.dim("oa"), c.dim("ob")]
    v = [c.dim("va"), c.dim("vb")]
    f = [c.dim("fa"), c.dim("fb")]
    nao = c.dim("nao")
    px = tuple(c.tensor("P%d" % s, (f[s], o[s])) for s in range(2))
    co = tuple(c.tensor("co%d" % s, (nao, o[s])) for s in range(2))
    cv = tuple(c.tensor("cv%d" % s, (nao, v[s])) for s in range(2))
    F = tuple(c.tensor("F%d" % s, (nao, nao), sym=[((1, 0), 1)]) for s in range(2))
    gaa = c.tensor("gaa", (o[0], v[0], o[0], v[0]), sym=[((2, 3, 0, 1), 1)])
    gab = c.tensor("gab", (o[0], v[0], o[1], v[1]))
    gbb = c.tensor("gbb", (o[1], v[1], o[1], v[1]), sym=[((2, 3, 0, 1), 1)])
    w = c.scalar("symfac")
    E = c.einsum
    if axis:
        c2 = (c.tensor("caa", (f[0], o[0], v[0], v[0])), c.tensor("cab", (f[0], o[1], v[0], v[1])),
              c.tensor("cba", (f[1], o[0], v[1], v[0])), c.tensor("cbb", (f[1], o[1], v[1], v[1])))
        n1 = f
    else:
        c2 = (c.tensor("caa", (o[0], o[0], v[0], v[0])), c.tensor("cab", (o[0], o[1], v[0], v[1])),
              c.tensor("cbb", (o[1], o[1], v[1], v[1])))
        n1 = o
    c1 = tuple(c.tensor("c1%d" % s, (n1[s], v[s])) for s in range(2)) if sing else None
    hamil = c.ns(get_eris_bare=lambda block: {"ovov": gaa, "ovOV": gab, "OVOV": gbb}[block])
    self = c.ns(get_overlap=es.overlap({"proj|cluster-occ": px, "frag|cluster-occ": px}), sym_factor=w, log=c.log,
                base=c.ns(get_fock_for_energy=lambda **k: F), hamil=hamil,
                cluster=c.ns(c_active_occ=co, c_active_vir=cv, nocc_active=tuple(o), nvir_active=tuple(v)))
    es_, ed, ec = ufr.Fragment.get_fragment_energy(self, c1, c2, axis1="fragment" if axis else "cluster")
    s = 0
    if sing:
        for k in range(2):
            fov = co[k].T @ F[k] @ cv[k]
            s = s + (E("ia,xi,xa->", fov, px[k], c1[k]) if axis else E("ia,ia->", fov, c1[k]))
    if axis:
        faa = E("xjab,xi->ijab", c2[0], px[0])
        fbb = E("xjab,xi->ijab", c2[3], px[1])
        fab = (E("xjab,xi->ijab", c2[1], px[0]) + E("xjab,xi->jiba", c2[2], px[1])) / 2
    else:
        faa, fab, fbb = c2
    d = (E("ijab,iajb->", faa, gaa) - E("ijab,ibja->", faa, gaa) + E("ijab,iajb->", fbb, gbb) - E("ijab,ibja->", fbb, gbb)) / 4
    d = d + E("ijab,iajb->", fab, gab)
    c.eq("singles", es_, w * s)
    c.eq("doubles", ed, w * d)
    c.eq("total", ec, w * (s + d))


# --- laboratory

def setup(c, spin, bath="full", frag="sao", lam=True, natom=None, canonical=False, df=False, **kw):
    natom = natom or {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)), canonical=canonical, df=df)
    wf = lab.random_ccsd(c.rng, mf, lam=lam)
    return mf, wf, lab.make_ewf(mf, wf, frag=frag, bath=bath, **kw)


def tlam(wf):
    return type(wf)(wf.mo, wf.t1, wf.t2, l1=wf.t1, l2=wf.t2)


@contract(P, "full_bath", ["EWF.get_e_corr", "EWF.get_wf_corr_energy", "EWF.get_dm_corr_energy", "EWF.get_dm_corr_energy_e1",
                           "EWF.get_dm_corr_energy_e2", "EWF.get_dmet_energy", "EWF.get_ccsd_corr_energy", "EWF.e_tot",
                           "EWF._get_dm_corr_energy_old", "Fragment.make_fragment_dm2cumulant_energy"],
          cases=product_cases(spin=["r", "u"], df=[False, True]), sym=False, n=1, nthorough=4, bounded=B, tol=1e-7)
def _(c, spin, df):
    mf, wf, emb = setup(c, spin, df=df)
    e_wf = lab.e_wf_ref(mf, wf.t1, wf.t2)
    e_dm = lab.e_dm_ref(mf, wf.make_rdm1(), wf.make_rdm2()) - mf.e_tot
    wt = tlam(wf)
    e_tt = lab.e_dm_ref(mf, wt.make_rdm1(), wt.make_rdm2()) - mf.e_tot
    G = emb.get_e_corr
    c.eq("e_mf", emb.e_mf, mf.e_tot)
    c.eq("e_corr", emb.e_corr, e_wf)
    c.eq("e_tot", emb.e_tot, mf.e_tot + e_wf)
    c.eq("wf", G("wf"), e_wf)
    c.eq("dm", G("dm"), e_dm)
    c.eq("dmet", G("dmet"), e_dm)
    c.eq("dm-t2only", G("dm-t2only"), e_tt)
    c.eq("get_wf_energy", emb.get_wf_energy(), mf.e_tot + e_wf)
    c.eq("get_dm_energy", emb.get_dm_energy(), mf.e_tot + e_dm)
    for d1 in ("global-wf", "2p1l"):
        for d2 in ("global-wf", "projected-lambda"):
            c.eq("dm(%s,%s)" % (d1, d2), emb.get_dm_corr_energy(dm1=d1, dm2=d2), e_dm)
            c.eq("dm(%s,%s,T)" % (d1, d2), emb.get_dm_corr_energy(dm1=d1, dm2=d2, t_as_lambda=True), e_tt)
    for g1 in (True, False):
        for g2 in (True, False):
            c.eq("old(%s,%s)" % (g1, g2), emb._get_dm_corr_energy_old(global_dm1=g1, global_dm2=g2), e_dm)
    if spin == "r":
        c.eq("ccsd full", emb.get_ccsd_corr_energy(full_wf=True), e_wf)
        c.eq("ccsd", emb.get_ccsd_corr_energy(), e_wf)
        c.eq("ccsd total", emb.get_ccsd_energy(), mf.e_tot + e_wf)
    for st in ((True, False) if spin == "r" else (True,)):   # UHF: only symmetrised amplitudes are supported
        e2 = sum(x.make_fragment_dm2cumulant_energy(sym_t2=st) for x in emb.fragments)
        c.eq("cumulant sym_t2=%s" % st, e2, emb.get_dm_corr_energy_e2())
    c.true("bad functional", _raises(lambda: G("nonsense")))


def _raises(f):
    try:
        f()
    except Exception:
        return True
    return False


@contract(P, "lazy_energy", ["EWF.get_wf_corr_energy", "Fragment.kernel"],
          cases=product_cases(spin=["r", "u"], bath=["full", "dmet"], opt=["calc_e_wf_corr", "calc_e_dm_corr"]), sym=False, n=1, bounded=B)
def _(c, spin, bath, opt):
    """Energies computed in the kernel and afterwards agree."""
    natom = {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)))
    wf = lab.random_ccsd(c.rng, mf)
    a = lab.make_ewf(mf, wf, bath=bath)
    b = lab.make_ewf(mf, wf, bath=bath, **{opt: opt == "calc_e_dm_corr"})
    c.eq("wf", b.get_wf_corr_energy(), a.get_wf_corr_energy())
    c.eq("dm", b.get_dm_corr_energy(), a.get_dm_corr_energy())


def cluster_cisd(wf):
    return wf.t1, wf.t2


def reweight(emb):
    """User-specified weights of the fragments."""
    for k, x in enumerate(emb.fragments):
        x.sym_factor = x.opts.sym_factor = 1.0 + 0.5 * k


@contract(P, "truncated", ["EWF.get_wf_corr_energy", "EWF.get_dm_corr_energy_e1", "EWF.get_dm_corr_energy_e2"],
          cases=product_cases(spin=["r", "u"], frag=["sao"], weights=[False, True]), sym=False, n=1, nthorough=4, bounded=B, tol=1e-7)
def _(c, spin, frag, weights):
    """Any clusters: the energy is the sum over fragments of the cluster expressions with the first occupied index
    projected onto the fragment, evaluated here from AO integrals and the stored cluster amplitudes."""
    mf, wf, emb = setup(c, spin, bath="dmet", frag=frag, kernel=not weights)
    if weights:
        reweight(emb)
        emb.kernel()
    S, F = mf.get_ovlp(), lab.fock(mf)
    eri = lab.ao_eri(mf)
    e = 0
    for x in emb.fragments:
        w = x.results.wf
        e, e0 = 0, e
        if spin == "r":
            co, cv = x.cluster.c_active_occ, x.cluster.c_active_vir
            p = co.T @ S @ x.c_frag
            p = p @ p.T
            g = np.einsum("pqrs,pi,qa,rj,sb->iajb", eri, co, cv, co, cv, optimize=True)
            t1, t2 = p @ w.t1, np.einsum("ik,kjab->ijab", p, w.t2 + np.einsum("ia,jb->ijab", w.t1, w.t1))
            e += 2 * np.sum((co.T @ F @ cv) * t1) + 2 * np.einsum("ijab,iajb", t2, g) - np.einsum("ijab,ibja", t2, g)
        else:
            co, cv = x.cluster.c_active_occ, x.cluster.c_active_vir
            pr = []
            for s in range(2):
                q = co[s].T @ S @ x.c_frag[s]
                pr.append(q @ q.T)
                e += np.sum((co[s].T @ F[s] @ cv[s]) * (pr[s] @ w.t1[s]))
            for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
                g = np.einsum("pqrs,pi,qa,rj,sb->iajb", eri, co[s], cv[s], co[t], cv[t], optimize=True)
                c2 = w.t2[k] + np.einsum("ia,jb->ijab", w.t1[s], w.t1[t])
                if s == t:
                    c2 = c2 - np.einsum("ib,ja->ijab", w.t1[s], w.t1[s])
                    c2 = np.einsum("ik,kjab->ijab", pr[s], c2)
                    e += 0.25 * (np.einsum("ijab,iajb", c2, g) - np.einsum("ijab,ibja", c2, g))
                else:
                    c2 = 0.5 * (np.einsum("ik,kjab->ijab", pr[0], c2) + np.einsum("jk,ikab->ijab", pr[1], c2))
                    e += np.einsum("ijab,iajb", c2, g)
        e = e0 + x.sym_factor * e
    c.eq("wf", emb.get_wf_corr_energy(), e)
    c.eq("e_corr", emb.e_corr, e)
    # one-body part: Fock matrix with the density matrix of the assembled amplitudes
    for tl in (False, True):
        # (the fragment-pair algorithm itself: P06; its default screening is an approximation)
        d = emb._make_rdm1_ccsd_global_wf(t_as_lambda=tl, with_mf=False)
        if spin == "r":
            e1 = np.sum((mf.mo_coeff.T @ F @ mf.mo_coeff) * d)
        else:
            e1 = sum(np.sum((mf.mo_coeff[s].T @ F[s] @ mf.mo_coeff[s]) * d[s]) for s in range(2))
        c.eq("e1 tl=%s" % tl, emb.get_dm_corr_energy_e1(t_as_lambda=tl), e1)
        # cumulant part: fragment cumulants contracted with the cluster integrals
        e2 = 0
        for x in emb.fragments:
            ca = x.cluster.c_active
            dm2 = x.make_fragment_dm2cumulant(t_as_lambda=tl)
            dm2 = x.sym_factor * dm2 if spin == "r" else tuple(x.sym_factor * y for y in dm2)
            if spin == "r":
                g = np.einsum("pqrs,pi,qa,rj,sb->iajb", eri, ca, ca, ca, ca, optimize=True)
                e2 += 0.5 * np.sum(dm2 * g)
            else:
                for k, (s, t, fac) in enumerate(((0, 0, 0.5), (0, 1, 1), (1, 1, 0.5))):
                    g = np.einsum("pqrs,pi,qa,rj,sb->iajb", eri, ca[s], ca[s], ca[t], ca[t], optimize=True)
                    e2 += fac * np.sum(dm2[k] * g)
        c.eq("e2 tl=%s" % tl, emb.get_dm_corr_energy_e2(t_as_lambda=tl), e2)
        c.eq("dm tl=%s" % tl, emb.get_dm_corr_energy(t_as_lambda=tl), e1 + e2)


@contract(P, "triples", ["EWF.get_ccsd_t_corr_energy", "calc_fragment_rccsd_t_energy", "calc_fragment_uccsd_t_energy"],
          cases=product_cases(spin=["r", "u"], proj=[0, 1], glob=[False, True], kern=[False]) + [dict(spin=s, proj=0, glob=False, kern=True) for s in "ru"],
          sym=False, n=1, bounded="canonical HF reference, up to 6 orbitals, 2-3 fragments, random amplitudes", timeout=200)
def _(c, spin, proj, glob, kern):
    natom = {"r": 6, "u": 5}[spin]
    kw = {"calc_e_ccsd_t_corr": True} if kern else {}
    mf, wf, emb = setup(c, spin, canonical=True, natom=natom, **kw)
    cc = pyscf.cc.CCSD(mf)
    eris = cc.ao2mo()
    if spin == "r":
        from pyscf.cc import ccsd_t_slow as ref
    else:
        from pyscf.cc import uccsd_t_slow as ref
    e = ref.kernel(cc, eris, wf.t1, wf.t2)
    pj = (("w", "z") if spin == "r" else ("w", "r"))[proj]
    c.eq("(T)", emb.get_ccsd_t_corr_energy(project=pj, global_t1=glob), e)
    if kern:
        c.eq("stored", sum(x.results.e_corr_ccsd_t for x in emb.fragments), e)
    if spin == "r":
        from vayesta.ewf.ccsd_t import calc_fragment_ccsd_t_energy as f
        c.eq("given amplitudes", sum(f(x, t1=x.results.wf.t1, t2=x.results.wf.t2, project=pj) for x in emb.fragments), e)


@contract(P, "fbc", ["EWF.get_fbc_energy", "BNO_Bath.get_finite_bath_correction", "MP2_BNO_Bath._make_t2", "UMP2_BNO_Bath._make_t2"],
          cases=product_cases(spin=["r", "u"], df=[False, True]), sym=False, n=1, bounded="5-6 orbitals per spin, canonical HF reference")
def _(c, spin, df):
    """Finite-bath correction: fragment-projected MP2 energy with all environment orbitals minus with the cluster's."""
    natom = {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, canonical=True, df=df)
    th = float(c.rng.choice([1e-2, 5e-3, 2e-2]))
    emb = lab.make_ewf(mf, None, bath=dict(bathtype="mp2", threshold=th), solver="MP2", split=[[i] for i in range(natom)])
    S, F = mf.get_ovlp(), lab.fock(mf)
    eri = lab.ao_eri(mf)

    def emp2(frag, occ, vir):
        sp = (lambda x, s: x) if spin == "r" else (lambda x, s: x[s])
        cs = []
        for s in range(2):
            r = []
            for x in (sp(occ, s), sp(vir, s)):
                ee, u = np.linalg.eigh(x.T @ sp(F, s) @ x)
                r.append((x @ u, ee))
            p = r[0][0].T @ S @ sp(frag, s)
            cs.append((r[0][0], r[0][1], r[1][0], r[1][1], p @ p.T))
        e = 0
        for s, t in ((0, 0), (0, 1), (1, 0), (1, 1)):
            co, eo, cv, ev, ps = cs[s]
            co2, eo2, cv2, ev2, _ = cs[t]
            g = np.einsum("pqrs,pi,qa,rj,sb->ijab", eri, co, cv, co2, cv2, optimize=True)
            d = eo[:, None, None, None] + eo2[None, :, None, None] - ev[None, None, :, None] - ev2[None, None, None, :]
            t2 = g / d
            if s == t:
                t2 = t2 - t2.transpose(0, 1, 3, 2)
                e += 0.25 * (np.einsum("ik,kjab,ijab", ps, t2, g) - np.einsum("ik,kjab,ijba", ps, t2, g))
            else:
                e += 0.5 * np.einsum("ik,kjab,ijab", ps, t2, g)
        return e
    H = np.hstack
    hs = (lambda a, b: H((a, b))) if spin == "r" else (lambda a, b: tuple(H((x, y)) for x, y in zip(a, b)))
    eo = ev = 0
    for x in emb.fragments:
        d = x._dmet_bath
        cl = x.cluster
        nfo = cl.c_frozen_occ.shape[-1] if spin == "r" else sum(y.shape[-1] for y in cl.c_frozen_occ)
        nfv = cl.c_frozen_vir.shape[-1] if spin == "r" else sum(y.shape[-1] for y in cl.c_frozen_vir)
        fo, fv = hs(d.c_cluster_occ, d.c_env_occ), hs(d.c_cluster_vir, d.c_env_vir)
        if nfo:
            eo += emp2(x.c_frag, fo, d.c_cluster_vir) - emp2(x.c_frag, cl.c_active_occ, d.c_cluster_vir)
        if nfv:
            ev += emp2(x.c_frag, d.c_cluster_occ, fv) - emp2(x.c_frag, d.c_cluster_occ, cl.c_active_vir)
    c.eq("occ", emb.get_fbc_energy(virtual=False), eo)
    c.eq("vir", emb.get_fbc_energy(occupied=False), ev)
    c.eq("both", emb.get_fbc_energy(), eo + ev)
    c.true("none", _raises(lambda: emb.get_fbc_energy(occupied=False, virtual=False)))
    c.true("nontrivial", abs(eo) + abs(ev) > 1e-8)


@contract(P, "icmp2", ["get_intercluster_mp2_energy_rhf", "get_intercluster_mp2_energy_uhf"],
          cases=product_cases(spin=["r"], neg=[False, True], dc=["vir", "occ", "both", None]) + product_cases(spin=["u"], neg=[False, True], dc=["vir"])
          + [dict(spin=s, neg=False, dc="vir", wt=True) for s in "ru"], sym=False, n=1,
          bounded="5-6 orbitals per spin, density-fitted HF reference, fragments with complete or DMET clusters")
def _(c, spin, neg, dc, wt=False):
    """Independent evaluation of the inter-cluster MP2 expression; with complete clusters and no double-counting
    projection it is the full MP2 energy, and with complete clusters and the projection it vanishes."""
    natom = {"r": 4, "u": 3}[spin]
    mf = lab.make_mf(spin, natom, canonical=True, df=True)
    split = [[0, 1], [2, 3]] if spin == "r" else [[0, 1], [2]]
    emb = lab.make_ewf(mf, None, bath=dict(bathtype="mp2", threshold=1e10), solver="MP2", split=split)
    if neg:
        orig = emb.get_cderi
        ng = 0.2 * c.rng.normal(size=(2, mf.mol.nao, mf.mol.nao))
        ng = ng + ng.transpose(0, 2, 1)

        def get_cderi(mo_coeff, *a, **k):
            cd, _ = orig(mo_coeff, *a, **k)
            m1, m2 = mo_coeff if isinstance(mo_coeff, (tuple, list)) else (mo_coeff, mo_coeff)
            return cd, np.einsum("Lpq,pi,qa->Lia", ng, m1, m2)
        emb.get_cderi = get_cderi
        eri = lab.ao_eri(mf) - np.einsum("Lpq,Lrs->pqrs", ng, ng)
    else:
        eri = lab.ao_eri(mf)
    if wt:
        reweight(emb)
    S, F = mf.get_ovlp(), lab.fock(mf)
    sp = (lambda x, s: x) if spin == "r" else (lambda x, s: x[s])
    data = []
    for x in emb.fragments:
        d = x._dmet_bath
        row = []
        for s in range(2):
            co = sp(d.c_cluster_occ, s)
            cv = np.hstack((sp(d.c_cluster_vir, s), sp(d.c_env_vir, s)))
            u = np.linalg.eigh(cv.T @ sp(F, s) @ cv)[1]
            cv = cv @ u
            en = [np.diag(y.T @ sp(F, s) @ y) for y in (co, cv)]
            row.append((co, cv, en[0], en[1], sp(x.c_proj, s).T @ S @ co, sp(x.cluster.c_active, s), sp(x.cluster.c_active_vir, s), sp(x.c_proj, s)))
        data.append(row)
    ed = ex = 0
    for X, fx in zip(data, emb.fragments):
        for Y, fy in zip(data, emb.fragments):
            w = fx.sym_factor * fy.sym_factor
            for s in range(2):
                for t in range(2):
                    co, cv, eo, ev, p, act, actv, _ = X[s]
                    co2, cv2, eo2, ev2, p2, _, _, cp2 = Y[t]
                    g = np.einsum("pqrs,pi,qa,rj,sb->ijab", eri, co, cv, co2, cv2, optimize=True)
                    dd = eo[:, None, None, None] + eo2[None, :, None, None] - ev[None, None, :, None] - ev2[None, None, None, :]
                    tt = np.einsum("xi,yj,ijab->xyab", p, p2, g / dd)
                    g = np.einsum("xi,yj,ijab->xyab", p, p2, g)
                    pv = np.eye(cv2.shape[1])
                    po = np.eye(cp2.shape[1])
                    if dc in ("vir", "both"):
                        q = X[t][6].T @ S @ cv2
                        pv = pv - q.T @ q
                    if dc in ("occ", "both"):
                        q = X[t][5].T @ S @ cp2
                        po = po - q.T @ q
                    ed += 0.5 * w * np.einsum("ijab,iJaB,bB,jJ->", tt, g, pv, po)
                    if s == t:
                        sv = cv.T @ S @ cv2
                        # exchange partner: amplitudes with the virtuals of x and y swapped
                        ex += -0.5 * w * np.einsum("ijab,iJdC,jJ,Ce,ae,db->", tt, g, po, pv, sv, sv)
    kw = dict(bno_threshold_vir=0.0) if spin == "r" else dict(bno_threshold=0.0)
    f = emb.get_intercluster_mp2_energy
    c.eq("direct", f(exchange=False, project_dc=dc, **kw), ed)
    c.eq("exchange", f(direct=False, project_dc=dc, **kw), ex)
    c.eq("total", f(project_dc=dc, **kw), ed + ex)
