"""P08: the cluster Hamiltonian represents the full Hamiltonian projected into the cluster."""
import itertools

import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.solver import hamiltonian as hm
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
from .common import *
from . import lab
from . import embstub as es

P = "P08"
ERI8 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1), ((2, 3, 0, 1), 1)]
ERI4 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)]


def eri_stub(c, g):
    """base.get_eris_array / get_eris_array_uhf: transformation of the AO integrals g (contract: see P13)."""
    def one(mo):
        if not isinstance(mo, (tuple, list)):
            mo = (mo,) * 4
        if len(mo) != 4:
            raise es.StubMissing("get_eris_array with %d coefficients" % len(mo))
        return c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *mo)

    def uhf(mo, **kw):
        if kw or len(mo) != 2:
            raise es.StubMissing("get_eris_array_uhf")
        a, b = mo
        return one(a), one((a, a, b, b)), one(b)
    return one, uhf


def base(c, spin, nao):
    g = c.tensor("g", (nao,) * 4, sym=ERI8)
    one, uhf = eri_stub(c, g)
    if spin == "r":
        F, X = [c.tensor(n, (nao, nao), sym=[((1, 0), 1)]) for n in ("F", "X")]
        fock = lambda with_exxdiv=True: F + X if with_exxdiv else F.copy()
    else:
        F = tuple(c.tensor("F%d" % s, (nao, nao), sym=[((1, 0), 1)]) for s in range(2))
        X = tuple(c.tensor("X%d" % s, (nao, nao), sym=[((1, 0), 1)]) for s in range(2))
        fock = lambda with_exxdiv=True: tuple(F[s] + X[s] if with_exxdiv else F[s].copy() for s in range(2))
    b = c.ns(get_eris_array=one, get_eris_array_uhf=uhf, get_fock=fock, log=c.log)
    return g, F, X, b


def cluster_r(c):
    nao, o, v = c.dim("nao", max=5), c.dim("o", max=3), c.dim("v", max=3)
    C = c.tensor("C", (nao, c.axis(o, v)))
    ao = SpatialOrbitals(C, occ=o)
    return nao, o, v, C, c.ns(active_orbitals=ao, c_active=C, c_active_occ=C[:, :o], c_active_vir=C[:, o:], nocc_active=o, nvir_active=v,
                              norb_active=o + v, bosons=None, inc_bosons=False)


def cluster_u(c):
    nao = c.dim("nao", max=4)
    o = tuple(c.dim("o" + s, max=2) for s in "ab")
    v = tuple(c.dim("v" + s, max=2) for s in "ab")
    C = tuple(c.tensor("C%d" % s, (nao, c.axis(o[s], v[s]))) for s in range(2))
    return nao, o, v, C, c.ns(c_active=C, c_active_occ=tuple(C[s][:, :o[s]] for s in range(2)), c_active_vir=tuple(C[s][:, o[s]:] for s in range(2)),
                              nocc_active=o, nvir_active=v, norb_active=tuple(o[s] + v[s] for s in range(2)), bosons=None, inc_bosons=False)


def hamil(c, cls, b, cl, **opts):
    fr = c.ns(base=b, cluster=cl, log=c.log, id=0)
    return cls(fr, c.ns(), log=c.log, cluster=cl, **opts)


def vmf_r(c, g, o):
    oo = slice(None, o)
    return 2 * c.einsum("iipq->pq", g[oo, oo]) - c.einsum("ipqi->pq", g[oo, :, :, oo])


def vmf_u(c, g, o):
    a, b = slice(None, o[0]), slice(None, o[1])
    E = c.einsum
    return (E("iipq->pq", g[0][a, a]) + E("pqii->pq", g[1][:, :, b, b]) - E("ipqi->pq", g[0][a, :, :, a]),
            E("iipq->pq", g[2][b, b]) + E("iipq->pq", g[1][a, a]) - E("ipqi->pq", g[2][b, :, :, b]))


@contract(P, "heff_r", ["RClusterHamiltonian.get_heff", "RClusterHamiltonian.get_fock", "RClusterHamiltonian.get_eris_bare",
                        "RClusterHamiltonian.get_integrals", "RClusterHamiltonian.get_eris_screened"],
          cases=product_cases(vext=[False, True], xx=[False, True], cache=[True, False]))
def _(c, vext, xx, cache):
    """One-body part = Fock matrix of the system in the cluster minus the mean field of the cluster electrons (+ v_ext)."""
    nao, o, v, C, cl = cluster_r(c)
    g, F, X, b = base(c, "r", nao)
    h = hamil(c, hm.RClusterHamiltonian, b, cl, cache_eris=cache)
    vx = c.tensor("vx", (c.axis(o, v),) * 2, sym=[((1, 0), 1)])
    if vext:
        h.v_ext = vx
    eris = c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, C, C, C, C)
    f = C.T @ (F + X if xx else F) @ C
    c.eq("eris", h.get_eris_bare(), eris)
    c.eq("eris again", h.get_eris_bare(), eris)
    c.eq("fock", h.get_fock(with_exxdiv=xx), f + vx if vext else f)
    c.eq("fock no vext", h.get_fock(with_exxdiv=xx, with_vext=False), f)
    ref = f - vmf_r(c, eris, o)
    c.eq("heff", h.get_heff(with_exxdiv=xx), ref + vx if vext else ref)
    c.eq("heff no vext", h.get_heff(with_exxdiv=xx, with_vext=False), ref)
    c.eq("heff again", h.get_heff(with_exxdiv=xx), ref + vx if vext else ref)
    W = c.tensor("W", (c.axis(o, v),) * 4, sym=ERI8)
    c.eq("heff given eris", h.get_heff(eris=W, with_exxdiv=xx, with_vext=False), f - vmf_r(c, W, o))
    G = c.tensor("G", (c.axis(o, v),) * 2, sym=[((1, 0), 1)])
    c.eq("heff given fock", h.get_heff(fock=G, with_vext=False), G - vmf_r(c, eris, o))
    if not xx:
        i = h.get_integrals()
        c.eq("int h", i[0], ref + vx if vext else ref)
        c.eq("int eris", i[1], eris)


@contract(P, "heff_u", ["UClusterHamiltonian.get_heff", "UClusterHamiltonian.get_fock", "UClusterHamiltonian.get_eris_bare",
                        "RClusterHamiltonian.get_integrals"],
          cases=product_cases(vext=[False, True], xx=[False, True], cache=[True, False]))
def _(c, vext, xx, cache):
    nao, o, v, C, cl = cluster_u(c)
    g, F, X, b = base(c, "u", nao)
    h = hamil(c, hm.UClusterHamiltonian, b, cl, cache_eris=cache)
    vx = tuple(c.tensor("vx%d" % s, (c.axis(o[s], v[s]),) * 2, sym=[((1, 0), 1)]) for s in range(2))
    if vext:
        h.v_ext = vx
    E = lambda s, t: c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, C[s], C[s], C[t], C[t])
    eris = (E(0, 0), E(0, 1), E(1, 1))
    got = h.get_eris_bare()
    vm = vmf_u(c, eris, o)
    fo, he, fn, hn = h.get_fock(with_exxdiv=xx), h.get_heff(with_exxdiv=xx), h.get_fock(with_exxdiv=xx, with_vext=False), h.get_heff(with_exxdiv=xx, with_vext=False)
    for k in range(3):
        c.eq("eris%d" % k, got[k], eris[k])
    it = h.get_integrals()
    for s in range(2):
        f = C[s].T @ (F[s] + X[s] if xx else F[s]) @ C[s]
        c.eq("fock%d" % s, fo[s], f + vx[s] if vext else f)
        c.eq("fock no vext%d" % s, fn[s], f)
        c.eq("heff%d" % s, he[s], f - vm[s] + vx[s] if vext else f - vm[s])
        c.eq("heff no vext%d" % s, hn[s], f - vm[s])
        if not xx:
            c.eq("int h%d" % s, it[0][s], f - vm[s] + vx[s] if vext else f - vm[s])
    for k in range(3):
        c.eq("int eris%d" % k, it[1][k], eris[k])


@contract(P, "screened", ["RClusterHamiltonian.get_fock", "UClusterHamiltonian.get_fock", "RClusterHamiltonian.get_heff",
                          "RClusterHamiltonian.get_eris_screened"], cases=product_cases(spin=["r", "u"], match=[True, False]))
def _(c, spin, match):
    """With a screened interaction in the cluster: one-body part plus mean field of the interaction in use is the Fock
    matrix the Hamiltonian reports, whether or not the system's Fock matrix is to be reproduced."""
    if spin == "r":
        nao, o, v, C, cl = cluster_r(c)
        g, F, X, b = base(c, "r", nao)
        h = hamil(c, hm.RClusterHamiltonian, b, cl, screening="mrpa", match_fock=match)
        c.true("not ready", not h.has_screening)
        c.raises("not ready raises", RuntimeError, h.get_eris_screened)
        W = c.tensor("W", (c.axis(o, v),) * 4, sym=ERI8)
        h._seris = W
        eris = c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, C, C, C, C)
        f0 = C.T @ F @ C
        f1 = f0 + vmf_r(c, W, o) - vmf_r(c, eris, o)
        c.eq("fock", h.get_fock(), f0 if match else f1)
        c.eq("fock bare", h.get_fock(use_seris=False), f0)
        c.eq("fock screened", h.get_fock(use_seris=True), f1)
        c.eq("screened", h.get_eris_screened(), W)
        c.eq("bare", h.get_eris_bare(), eris)
        hi, ei = h.get_integrals()
        c.eq("consistent", hi + vmf_r(c, ei, o), h.get_fock())
    else:
        nao, o, v, C, cl = cluster_u(c)
        g, F, X, b = base(c, "u", nao)
        h = hamil(c, hm.UClusterHamiltonian, b, cl, screening="mrpa", match_fock=match)
        ax = [c.axis(o[s], v[s]) for s in range(2)]
        W = (c.tensor("Waa", (ax[0],) * 4, sym=ERI8), c.tensor("Wab", (ax[0], ax[0], ax[1], ax[1]), sym=ERI4), c.tensor("Wbb", (ax[1],) * 4, sym=ERI8))
        h._seris = W
        E = lambda s, t: c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, C[s], C[s], C[t], C[t])
        eris = (E(0, 0), E(0, 1), E(1, 1))
        vw, vb = vmf_u(c, W, o), vmf_u(c, eris, o)
        f0, f1 = h.get_fock(use_seris=False), h.get_fock(use_seris=True)
        for s in range(2):
            f = C[s].T @ F[s] @ C[s]
            c.eq("fock bare%d" % s, f0[s], f)
            c.eq("fock screened%d" % s, f1[s], f + vw[s] - vb[s])
        hi, ei = h.get_integrals()
        ve = vmf_u(c, ei, o)
        ff = h.get_fock()
        for s in range(2):
            c.eq("consistent%d" % s, hi[s] + ve[s], ff[s])


@contract(P, "blocks_r", ["RClusterHamiltonian.get_eris_bare", "RClusterHamiltonian._get_eris_block", "RClusterHamiltonian.get_eris_screened",
                          "RClusterHamiltonian.get_dummy_eri_object"], cases=product_cases(cached=[True, False]))
def _(c, cached):
    nao, o, v, C, cl = cluster_r(c)
    g, F, X, b = base(c, "r", nao)
    h = hamil(c, hm.RClusterHamiltonian, b, cl)
    W = c.tensor("W", (c.axis(o, v),) * 4, sym=ERI8)
    if cached:
        h.get_eris_bare()
    d = h.get_dummy_eri_object(force_bare=True, with_vext=False)
    hs = hamil(c, hm.RClusterHamiltonian, b, cl, screening="mrpa")
    hs._seris = W
    eris = c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, C, C, C, C)
    sl = dict(o=slice(None, o), v=slice(o, None))
    for k in itertools.product("ov", repeat=4):
        k = "".join(k)
        i = tuple(sl[x] for x in k)
        c.eq("bare " + k, h.get_eris_bare(k), eris[i])
        c.eq("obj " + k, getattr(d, k), eris[i])
        c.eq("screened " + k, hs.get_eris_screened(k), W[i])
    c.eq("obj fock", d.fock, C.T @ F @ C)


@contract(P, "blocks_u", ["UClusterHamiltonian.get_eris_bare", "UClusterHamiltonian._get_eris_block", "UClusterHamiltonian.get_dummy_eri_object"],
          cases=product_cases(cached=[True, False]))
def _(c, cached):
    nao, o, v, C, cl = cluster_u(c)
    g, F, X, b = base(c, "u", nao)
    h = hamil(c, hm.UClusterHamiltonian, b, cl)
    if cached:
        h.get_eris_bare()
    d = h.get_dummy_eri_object(force_bare=True, with_vext=False)
    Co = dict(o=C[0][:, :o[0]], v=C[0][:, o[0]:], O=C[1][:, :o[1]], V=C[1][:, o[1]:])
    for k in itertools.product("ov", repeat=4):
        for up in ((0, 0, 0, 0), (0, 0, 1, 1), (1, 1, 0, 0), (1, 1, 1, 1)):
            q = "".join(x.upper() if u else x for x, u in zip(k, up))
            ref = c.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *[Co[x] for x in q])
            c.eq("bare " + q, h.get_eris_bare(q), ref)
            c.eq("obj " + q, getattr(d, q), ref)
    for s in range(2):
        c.eq("obj fock%d" % s, d.fock[s], C[s].T @ F[s] @ C[s])


@contract(P, "bosons", ["EB_RClusterHamiltonian.set_polaritonic_shift", "EB_RClusterHamiltonian.get_heff", "EB_RClusterHamiltonian.couplings",
                        "EB_UClusterHamiltonian.couplings", "EB_UClusterHamiltonian.get_heff", "EB_RClusterHamiltonian.get_eb_dm_polaritonic_shift",
                        "EB_UClusterHamiltonian.get_eb_dm_polaritonic_shift", "EB_RClusterHamiltonian.get_polaritonic_fock_shift"],
          cases=product_cases(spin=["r", "u"], shift=[True, False]), sym=False, n=4, nthorough=20, bounded="up to 5 orbitals and 3 bosons, random couplings")
def _(c, spin, shift):
    """The shifted electron-boson Hamiltonian is the original one with b -> b - s (in the N-electron sector), with s such
    that the mean-field determinant exerts no force."""
    n = c.dim("nbos", max=3)
    w = 0.5 + c.rng.random(n)
    if spin == "r":
        nao, o, v, C, cl = cluster_r(c)
        g, F, X, b = base(c, "r", nao)
        V = c.tensor("V", (n, o + v, o + v))
        V = (V, V.copy())
        oo, cls = (o, o), hm.EB_RClusterHamiltonian
    else:
        nao, o, v, C, cl = cluster_u(c)
        g, F, X, b = base(c, "u", nao)
        V = tuple(c.tensor("V%d" % s, (n, o[s] + v[s], o[s] + v[s])) for s in range(2))
        oo, cls = o, hm.EB_UClusterHamiltonian
    h = hamil(c, cls, b, cl, polaritonic_shift=shift)
    h0 = hamil(c, hm.RClusterHamiltonian if spin == "r" else hm.UClusterHamiltonian, b, cl)
    h.initialise_bosons(w.copy(), tuple(x.copy() for x in V))
    tup = lambda x: (x, x) if spin == "r" else x
    k, k0 = tup(h.get_heff()), tup(h0.get_heff())
    cp = tup(h.couplings)
    c.eq("freqs", h.bos_freqs, w)
    if not shift:
        for s in range(2):
            c.eq("heff%d" % s, k[s], k0[s])
            c.eq("couplings%d" % s, cp[s], V[s])
        return
    force = sum(np.einsum("npp->n", V[s][:, :oo[s], :oo[s]]) for s in range(2))
    sh = force / w
    c.eq("shift", h.polaritonic_shift, sh)
    N = sum(oo)
    for s in range(2):
        c.eq("heff%d" % s, k[s], k0[s] - np.einsum("npq,n->pq", V[s] + V[s].transpose(0, 2, 1), sh))
        c.eq("couplings%d" % s, cp[s], V[s] - np.einsum("n,pq->npq", w * sh / N, np.eye(V[s].shape[1])))
    c.eq("no force", sum(np.einsum("npp->n", cp[s][:, :oo[s], :oo[s]]) for s in range(2)), 0 * force)
    if spin == "r":
        d = c.tensor("d", (o + v, o + v))
        r = h.get_eb_dm_polaritonic_shift(d)
        ds = (d / 2, d / 2)
    else:
        ds = tuple(c.tensor("d%d" % s, (o[s] + v[s],) * 2) for s in range(2))
        r = h.get_eb_dm_polaritonic_shift(ds)
    for s in range(2):
        c.eq("dm shift%d" % s, r[s], -np.einsum("n,pq->pqn", sh, ds[s]))


# ---------------------------------------------------------------- laboratory: real embeddings

def clusters(c, spin, df=False, bath="dmet", canonical=False, natom=None, vext=False, **kw):
    natom = natom or {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)), df=df, canonical=canonical)
    wf = lab.random_ccsd(c.rng, mf)
    emb = lab.make_ewf(mf, wf, bath=bath, **kw)
    return mf, emb


@contract(P, "integrals", ["RClusterHamiltonian.get_eris_bare", "UClusterHamiltonian.get_eris_bare", "RClusterHamiltonian.get_cderi_bare",
                           "UClusterHamiltonian.get_cderi_bare", "RClusterHamiltonian.get_mo", "RClusterHamiltonian.with_new_cluster",
                           "RClusterHamiltonian.target_space_projector"],
          cases=product_cases(spin=["r", "u"], df=[False, True]), sym=False, n=1, nthorough=3, bounded="3 fragments, up to 6 orbitals of either spin")
def _(c, spin, df):
    """Real embedding: every way of asking for cluster integrals gives those of the system's Hamiltonian."""
    mf, emb = clusters(c, spin, df)
    eri, F, S = lab.ao_eri(mf), lab.fock(mf), mf.get_ovlp()
    r = spin == "r"
    T = lambda *m: np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *m, optimize=True)
    for x in emb.fragments:
        h = x.hamil if x._hamil is not None else x.get_frag_hamil()
        C = x.cluster.c_active
        if r:
            e = T(C, C, C, C)
            c.eq("eris", h.get_eris_bare(), e)
            co, cv = x.cluster.c_active_occ, x.cluster.c_active_vir
            c.eq("mo", h.get_mo().coeff, C)
            u = np.linalg.qr(c.rng.normal(size=(C.shape[1],) * 2))[0]
            c.eq("mo rot", h.get_mo(u).coeff, C @ u)
            f = C.T @ F @ C
            o = co.shape[1]
            c.eq("heff", h.get_heff() + 2 * np.einsum("iipq->pq", e[:o, :o]) - np.einsum("ipqi->pq", e[:o, :, :, :o]), f)
            p = C.T @ S @ x.c_frag
            c.eq("projector", h.target_space_projector(), p @ p.T)
            sets = [((C, C),) * 2, ((co, cv),) * 2]
        else:
            got = h.get_eris_bare()
            for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
                c.eq("eris%d" % k, got[k], T(C[s], C[s], C[t], C[t]))
            for s in range(2):
                c.eq("mo", h.get_mo().coeff[s], C[s])
                p = C[s].T @ S @ x.c_frag[s]
                c.eq("projector", h.target_space_projector()[s], p @ p.T)
            co, cv = x.cluster.c_active_occ, x.cluster.c_active_vir
            sets = [((C[0], C[0]), (C[1], C[1])), ((co[0], cv[0]), (co[1], cv[1]))]
        if df:
            for oo, st in zip((False, True), sets):
                for comp in (False, True):
                    cd, ng = h.get_cderi_bare(only_ov=oo, compress=comp)
                    cd, ng = ((cd,), (ng,)) if r else (cd, ng)
                    for s in range(1 if r else 2):
                        for t in range(s, 1 if r else 2):
                            if comp and s != t:
                                continue       # (spin channels are compressed separately)
                            c.eq("cderi ov=%s compress=%s %d%d" % (oo, comp, s, t), np.einsum("Lij,Lkl->ijkl", cd[s], cd[t]), T(*st[s], *st[t]))
                        c.true("no negative part", ng[s] is None)
        # another cluster space
        cl2 = emb.fragments[0].cluster
        h2 = h.with_new_cluster(cl2)
        C2 = cl2.c_active
        if r:
            c.eq("new cluster", h2.get_eris_bare(), T(C2, C2, C2, C2))
            c.eq("new cluster fock", h2.get_fock(), C2.T @ F @ C2)
        else:
            c.eq("new cluster", h2.get_eris_bare()[1], T(C2[0], C2[0], C2[1], C2[1]))
            c.eq("new cluster fock", h2.get_fock()[1], C2[1].T @ F[1] @ C2[1])


@contract(P, "pyscf_mf", ["RClusterHamiltonian.to_pyscf_mf", "UClusterHamiltonian.to_pyscf_mf", "RClusterHamiltonian.get_clus_mf_info",
                          "UClusterHamiltonian.get_clus_mf_info", "UHF_spindep.energy_elec"],
          cases=product_cases(spin=["r", "u"], df=[False, True], vext=[False, True]), sym=False, n=1, nthorough=3, bounded="3 fragments, up to 6 orbitals of either spin")
def _(c, spin, df, vext):
    """The mean-field object handed to the solvers has the cluster's Fock matrix, one-body and two-body integrals, with any
    padding orbitals decoupled, empty and frozen."""
    mf, emb = clusters(c, spin, df)
    eri, F = lab.ao_eri(mf), lab.fock(mf)
    r = spin == "r"
    T = lambda *m: np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *m, optimize=True)
    for x in emb.fragments:
        h = x.hamil if x._hamil is not None else x.get_frag_hamil()
        C = x.cluster.c_active
        if r:
            vx = c.rng.normal(size=(C.shape[1],) * 2)
            vx = vx + vx.T
            h.v_ext = vx if vext else None
            f = C.T @ F @ C + (vx if vext else 0)
            o, n = x.cluster.nocc_active, C.shape[1]
            for ad in (False, True):
                m, fr = h.to_pyscf_mf(allow_df=ad)
                c.true("nothing frozen", fr is None or not np.any(fr))
                c.eq("fock", m.get_fock(dm=m.make_rdm1()), f)
                c.eq("hcore", m.get_hcore(), h.get_heff())
                c.eq("mo_energy", m.mo_energy, np.diag(f))
                c.eq("ovlp", m.get_ovlp(), np.eye(n))
                c.eq("dm", m.make_rdm1(), np.diag([2.0] * o + [0.0] * (n - o)))
                c.eq("nelec", m.mol.nelectron, 2 * o)
            c.eq("eri", m._eri if m._eri is not None else T(C, C, C, C), T(C, C, C, C))
        else:
            n = [C[s].shape[1] for s in range(2)]
            o = x.cluster.nocc_active
            vx = []
            for s in range(2):
                y = c.rng.normal(size=(n[s],) * 2)
                vx.append(y + y.T)
            h.v_ext = tuple(vx) if vext else None
            m, fr = h.to_pyscf_mf()
            nm = max(n)
            fk, hc = m.get_fock(), m.get_hcore()
            he = h.get_heff()
            er = m._eri
            top = max(np.diag(C[s].T @ F[s] @ C[s] + (vx[s] if vext else 0)).max() for s in range(2))
            for s in range(2):
                f = C[s].T @ F[s] @ C[s] + (vx[s] if vext else 0)
                c.eq("fock", fk[s][:n[s], :n[s]], f)
                c.eq("hcore", hc[s][:n[s], :n[s]], he[s])
                c.eq("occ", np.asarray(m.mo_occ[s]), np.array([1.0] * o[s] + [0.0] * (nm - o[s])))
                if n[s] < nm:
                    c.eq("padding decoupled", hc[s][:n[s], n[s]:], 0 * hc[s][:n[s], n[s]:])
                    c.eq("padding fock decoupled", fk[s][:n[s], n[s]:], 0 * fk[s][:n[s], n[s]:])
                    c.true("padding high", np.all(np.diag(fk[s])[n[s]:] > top) and np.all(np.diag(hc[s])[n[s]:] > top))
                    c.true("padding frozen", list(fr[s]) == list(range(n[s], nm)) and not len(fr[1 - s]))
                    c.true("padding energies", np.all(np.asarray(m.mo_energy[s])[n[s]:] > top))
            if n[0] == n[1]:
                c.true("nothing frozen", fr is None or not (len(fr[0]) or len(fr[1])))
            for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
                ref = np.zeros((nm,) * 4)
                ref[:n[s], :n[s], :n[t], :n[t]] = T(C[s], C[s], C[t], C[t])
                c.eq("eri%d" % k, er[k], ref)
            dm = np.array([np.diag([1.0] * o[s] + [0.0] * (nm - o[s])) for s in range(2)])
            e = m.energy_elec(dm)[0]
            ref = sum(0.5 * np.sum((np.asarray(fk[s]) + hc[s]) * dm[s]) for s in range(2))
            c.eq("mean-field energy", e, ref)
