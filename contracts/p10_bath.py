"""P10: bath constructions and cluster spaces."""
import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.core.bath import bno
from vayesta.core.linalg import recursive_block_svd
from .common import *
from . import lab
from . import embstub as es
from .p09_fragmentation import system, per_spin, random_split

P = "P10"
S1 = [((1, 0), 1)]
BND = "hydrogen clusters of 4 to 6 atoms, 6-31g, random geometries and fragments"


# ---------------------------------------------------------------- deductive

@contract(P, "delta_dm_r", ["MP2_BNO_Bath.make_delta_dm1"], cases=product_cases(occ=["occupied", "virtual"]), modules=("vayesta.core.bath.bno",))
def _(c, occ):
    """MP2 one-body density of the (spin-)restricted amplitudes."""
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    t = c.tensor("t", (o, o, v, v), sym=RSYM2)
    self = es.obj(bno.MP2_BNO_Bath, occtype=occ, project_dmet_order=0, log=c.log)
    got = self.make_delta_dm1(t, c.ns())
    tb = 2 * t - t.transpose(0, 1, 3, 2)
    c.eq("dm", got, c.einsum("ikab,jkab->ij", t, tb) if occ == "occupied" else c.einsum("ijac,ijbc->ab", t, tb))


@contract(P, "delta_dm_u", ["UMP2_BNO_Bath.make_delta_dm1"], cases=product_cases(occ=["occupied", "virtual"]), modules=("vayesta.core.bath.bno",))
def _(c, occ):
    d = udims(c)
    aa, ab, bb = ut2(c, "t", *d)
    self = es.obj(bno.UMP2_BNO_Bath, occtype=occ, project_dmet_order=0, log=c.log)
    ga, gb = self.make_delta_dm1((aa, ab, bb), c.ns())
    E = c.einsum
    if occ == "occupied":
        c.eq("a", ga, E("ikab,jkab->ij", aa, aa) / 2 + E("ikab,jkab->ij", ab, ab))
        c.eq("b", gb, E("ikab,jkab->ij", bb, bb) / 2 + E("kiab,kjab->ij", ab, ab))
    else:
        c.eq("a", ga, E("ijac,ijbc->ab", aa, aa) / 2 + E("ijac,ijbc->ab", ab, ab))
        c.eq("b", gb, E("ijac,ijbc->ab", bb, bb) / 2 + E("ijca,ijcb->ab", ab, ab))


@contract(P, "take_env", ["BNO_Bath._dm_take_env", "BNO_Bath_UHF._dm_take_env", "BNO_Bath._rotate_dm", "BNO_Bath_UHF._rotate_dm",
                          "BNO_Bath.ncluster", "BNO_Bath_UHF.ncluster", "BNO_Bath.c_env"],
          cases=product_cases(spin=["r", "u"], occ=["occupied", "virtual"]), modules=("vayesta.core.bath.bno",))
def _(c, spin, occ):
    """Environment block of the density matrix, in the basis (cluster, environment)."""
    nao = c.dim("nao", max=5)
    sp = ["a", "b"] if spin == "u" else ["a"]
    no = {s: c.dim("no" + s, max=3) for s in sp}
    nv = {s: c.dim("nv" + s, max=3) for s in sp}
    ne = {s: c.dim("ne" + s, max=3) for s in sp}
    g = lambda x: tuple(x[s] for s in sp) if spin == "u" else x["a"]
    co = {s: c.tensor("co" + s, (nao, no[s])) for s in sp}
    cv = {s: c.tensor("cv" + s, (nao, nv[s])) for s in sp}
    cl = no if occ == "occupied" else nv
    D = {s: c.tensor("D" + s, (c.axis(cl[s], ne[s]),) * 2) for s in sp}
    cls = bno.UMP2_BNO_Bath if spin == "u" else bno.MP2_BNO_Bath
    self = es.obj(cls, occtype=occ, log=c.log, dmet_bath=c.ns(c_cluster_occ=g(co), c_cluster_vir=g(cv)))
    got = self._dm_take_env(g(D))
    R = {s: c.tensor("R" + s, (c.dim("k" + s, max=3), cl[s] + ne[s])) for s in sp}
    rot = self._rotate_dm(g(D), g(R))
    for i, s in enumerate(sp):
        c.eq("env" + s, got[i] if spin == "u" else got, D[s][cl[s]:, cl[s]:])
        c.eq("rot" + s, rot[i] if spin == "u" else rot, R[s] @ D[s] @ R[s].T)


@contract(P, "t2_r", ["MP2_BNO_Bath._make_t2", "MP2_BNO_Bath._get_mo_energy", "MP2_BNO_Bath.get_eris_or_cderi", "MP2_BNO_Bath._get_eris", "MP2_BNO_Bath._get_cderi"],
          cases=product_cases(df=["eri", "cderi", "neg"], blk=[None, 1, 2], eonly=[False, True]), sym=False, n=3, nthorough=10,
          bounded="up to 5 occupied and 4 virtual orbitals, block sizes 1, 2 and all")
def _(c, df, blk, eonly):
    """First-order amplitudes and projected MP2 energy, from integrals or (possibly indefinite) density fitting."""
    rng = c.rng
    nao, o, v, f = 9, int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    S = np.eye(nao)
    C = np.linalg.qr(rng.normal(size=(nao, o + v)))[0]
    cf = rng.normal(size=(nao, f))
    F = rng.normal(size=(nao, nao))
    F = F + F.T
    L = rng.normal(size=(6, nao, nao))
    L = L + L.transpose(0, 2, 1)
    N = rng.normal(size=(2, nao, nao))
    N = N + N.transpose(0, 2, 1)
    g = np.einsum("Lpq,Lrs->pqrs", L, L) - (np.einsum("Lpq,Lrs->pqrs", N, N) if df == "neg" else 0)
    co, cv = C[:, :o], C[:, o:]

    def get_eris_array(mo):
        return np.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *mo)

    def get_cderi(mo):
        t = lambda x: np.einsum("Lpq,pi,qj->Lij", x, *mo)
        return t(L), (t(N) if df == "neg" else None)
    base = c.ns(get_ovlp=lambda: S, get_eris_array=get_eris_array, get_cderi=get_cderi, has_df=df != "eri")
    self = es.obj(bno.MP2_BNO_Bath, occtype="occupied", log=c.log, base=base, c_frag=cf, fragment=c.ns(base=base, c_frag=cf))
    act = c.ns(c_active_occ=co, c_active_vir=cv, c_active=C)
    t2, e = self._make_t2(act, F, blksize=blk, energy_only=eonly)
    me = np.diag(C.T @ F @ C)
    gm = get_eris_array((co, cv, co, cv)).transpose(0, 2, 1, 3)
    ref = gm / (me[:o, None, None, None] + me[None, :o, None, None] - me[None, None, o:, None] - me[None, None, None, o:])
    p = co.T @ S @ cf @ cf.T @ S @ co
    c.eq("energy", e, 2 * np.einsum("ij,jkab,ikab", p, ref, gm) - np.einsum("ij,jkab,ikba", p, ref, gm))
    if eonly:
        c.true("no amplitudes", t2 is None)
    else:
        c.eq("t2", t2, ref)


@contract(P, "t2_u", ["UMP2_BNO_Bath._make_t2", "UMP2_BNO_Bath._get_mo_energy", "UMP2_BNO_Bath._get_eris", "UMP2_BNO_Bath._get_cderi"],
          cases=product_cases(df=["eri", "cderi", "neg"], blk=[None, 1, 2], eonly=[False, True]), sym=False, n=3, nthorough=10,
          bounded="up to 4 occupied and 4 virtual orbitals of either spin, block sizes 1, 2 and all")
def _(c, df, blk, eonly):
    rng = c.rng
    nao = 9
    o, v, f = [tuple(int(x) for x in rng.integers(1, 5, size=2)) for _ in range(3)]
    S = np.eye(nao)
    C = tuple(np.linalg.qr(rng.normal(size=(nao, o[s] + v[s])))[0] for s in range(2))
    cf = tuple(rng.normal(size=(nao, f[s])) for s in range(2))
    F = tuple(x + x.T for x in rng.normal(size=(2, nao, nao)))
    L = rng.normal(size=(6, nao, nao))
    L = L + L.transpose(0, 2, 1)
    N = rng.normal(size=(2, nao, nao))
    N = N + N.transpose(0, 2, 1)
    g = np.einsum("Lpq,Lrs->pqrs", L, L) - (np.einsum("Lpq,Lrs->pqrs", N, N) if df == "neg" else 0)
    co = tuple(C[s][:, :o[s]] for s in range(2))
    cv = tuple(C[s][:, o[s]:] for s in range(2))
    tr = lambda *mo: np.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *mo)

    def eris_uhf(mo, mo_coeff2=None, **kw):
        m2 = mo if mo_coeff2 is None else mo_coeff2
        if kw:
            raise es.StubMissing("get_eris_array_uhf")
        return tr(mo[0], m2[0], mo[0], m2[0]), tr(mo[0], m2[0], mo[1], m2[1]), tr(mo[1], m2[1], mo[1], m2[1])

    def get_cderi(mo):
        t = lambda x: np.einsum("Lpq,pi,qj->Lij", x, *mo)
        return t(L), (t(N) if df == "neg" else None)
    base = c.ns(get_ovlp=lambda: S, get_eris_array_uhf=eris_uhf, get_cderi=get_cderi, has_df=df != "eri")
    self = es.obj(bno.UMP2_BNO_Bath, occtype="occupied", log=c.log, base=base, c_frag=cf, fragment=c.ns(base=base, c_frag=cf))
    act = c.ns(c_active_occ=co, c_active_vir=cv, c_active=C)
    t2, e = self._make_t2(act, F, blksize=blk, energy_only=eonly)
    me = [np.diag(C[s].T @ F[s] @ C[s]) for s in range(2)]
    p = [co[s].T @ S @ cf[s] @ cf[s].T @ S @ co[s] for s in range(2)]
    ref, en = [], 0
    for s, t in ((0, 0), (0, 1), (1, 1)):
        gm = tr(co[s], cv[s], co[t], cv[t]).transpose(0, 2, 1, 3)
        den = me[s][:o[s], None, None, None] + me[t][None, :o[t], None, None] - me[s][None, None, o[s]:, None] - me[t][None, None, None, o[t]:]
        x = gm / den
        if s == t:
            x = x - x.transpose(0, 1, 3, 2)
            en += np.einsum("ij,jkab,ikab", p[s], x, gm) / 2
        else:
            en += np.einsum("ij,jkab,ikab", p[s], x, gm) / 2 + np.einsum("kl,ilab,ikab", p[t], x, gm) / 2
        ref.append(x)
    c.eq("energy", e, en)
    for k in range(3):
        if eonly:
            c.true("no amplitudes", t2[k] is None)
        else:
            c.eq("t2[%d]" % k, t2[k], ref[k])


# ---------------------------------------------------------------- truncation

@contract(P, "threshold", ["BNO_Threshold.get_number"], cases=product_cases(kind=["number", "occupation", "truncation", "electron-percent", "excited-percent"]),
          sym=False, n=60, nthorough=2000, bounded="up to 8 natural orbitals, random occupations (including zero and slightly negative)")
def _(c, kind):
    """Fewest leading natural orbitals satisfying the stated criterion."""
    rng = c.rng
    n = int(rng.integers(0, 9))
    occ = np.sort(rng.choice([0.5, 1, 1e-2, 0.0], size=n) * rng.random(n))[::-1] if rng.integers(2) else np.sort(rng.integers(0, 4, size=n) / 4.0)[::-1]
    if n and rng.integers(3) == 0:
        occ[-1] = -1e-9
    tot = float(2 * rng.integers(1, 6))
    pos = np.clip(occ, 0, None)
    thr = {"number": int(rng.integers(0, n + 3)), "occupation": float(rng.choice([0.0, 0.25, 0.5, rng.random()])), "truncation": float(rng.random()),
           "electron-percent": float(rng.choice([0.0, rng.random() * 0.2, 1.0])), "excited-percent": float(rng.choice([0.0, rng.random(), 1.0]))}[kind]
    got = bno.BNO_Threshold(kind, thr).get_number(occ.copy(), electron_total=tot)
    if kind == "number":
        c.true("number", min(got, n) == min(thr, n))
        return
    if kind == "occupation":
        c.true("occupation", got == sum(1 for x in occ if x >= thr))
        return
    lim = {"truncation": thr, "electron-percent": thr * tot, "excited-percent": thr * pos.sum()}[kind]
    left = lambda k: pos[k:].sum() - lim
    c.true("criterion met", 0 <= got <= n and left(got) <= 1e-12)
    c.true("fewest", got == 0 or left(got - 1) >= -1e-12)


@contract(P, "threshold_type", ["BNO_Threshold.__init__"], sym=False, n=1, bounded="single invalid type")
def _(c):
    c.raises("invalid truncation type", ValueError, lambda: bno.BNO_Threshold("occupied", 1e-4))


@contract(P, "block_svd", ["recursive_block_svd"], sym=False, n=25, nthorough=400, bounded="random symmetric matrices up to 10x10, including decoupled blocks")
def _(c):
    """Orders of the recursion span the block-Krylov spaces of the matrix; the transformation is orthogonal."""
    rng = c.rng
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 7))
    A = rng.normal(size=(n + m, n + m))
    A = A + A.T
    if rng.integers(2) and m > 2:      # decouple some environment states
        k = int(rng.integers(1, m))
        A[-k:, :-k] = 0
        A[:-k, -k:] = 0
        Q = np.eye(n + m)
        Q[n:, n:] = np.linalg.qr(rng.normal(size=(m, m)))[0]
        A = Q @ A @ Q.T
    mx = int(rng.integers(1, 5))
    R, sv, order = recursive_block_svd(A, n, tol=1e-8, maxblock=mx)
    c.eq("orthogonal", R.T @ R, np.eye(m))
    B, b = A[n:, n:], A[n:, :n]
    K = np.zeros((m, 0))
    for k in range(1, mx + 1):
        K = np.hstack((K, b))
        b = B @ b
        u, s, _ = np.linalg.svd(K / np.maximum(np.linalg.norm(K, axis=0), 1e-300))
        u = u[:, :int(np.sum(s > 1e-9))] if K.size else u[:, :0]
        X = R[:, order <= k]
        if X.shape[-1] != u.shape[-1] and min(abs(s[s > 0]), default=1) < 1e-5:
            raise Skip()
        c.true("dimension", X.shape[-1] == u.shape[-1])
        c.eq("space", X @ X.T, u @ u.T)
    c.true("sorted", bool(np.all(np.diff(order[np.isfinite(order)]) >= 0)))


# ---------------------------------------------------------------- clusters of real embeddings

def emb_of(mf, bo):
    import vayesta.ewf
    return vayesta.ewf.EWF(mf, solver="CCSD", bath_options=bo)


def build(mf, bo, split, frag="sao"):
    emb = emb_of(mf, bo)
    lab.add_fragments(emb, frag, split)
    for f in emb.fragments:
        f.make_bath()
        f.make_cluster()
    return emb


def orth(X, S, tol=1e-7):
    m = X.T @ S @ X
    e, v = np.linalg.eigh(m)
    return X @ (v[:, e > tol] / np.sqrt(e[e > tol]))


def cluster_ok(c, mf, f, label=""):
    """Orthonormal, complete, integer occupied, contains the fragment; returns per-spin (C_occ, C_vir, ...)."""
    ns = 1 if lab.is_r(mf) else 2
    S = mf.get_ovlp()
    cl = f.cluster
    for s in range(ns):
        C, occ = per_spin(mf.mo_coeff, ns)[s], per_spin(mf.mo_occ, ns)[s]
        co, cv = per_spin(cl.c_active_occ, ns)[s], per_spin(cl.c_active_vir, ns)[s]
        fo, fv = per_spin(cl.c_frozen_occ, ns)[s], per_spin(cl.c_frozen_vir, ns)[s]
        tot = np.hstack((fo, co, cv, fv))
        c.eq(label + "orthonormal and complete", tot.T @ S @ tot, np.eye(C.shape[-1]))
        O = np.hstack((fo, co))
        c.eq(label + "occupied space", O @ O.T, C[:, occ > 0] @ C[:, occ > 0].T)
        act = np.hstack((co, cv))
        cf = per_spin(f.c_frag, ns)[s]
        c.eq(label + "contains fragment", cf.T @ S @ act @ act.T @ S @ cf, np.eye(cf.shape[-1]))
        c.eq(label + "c_active", per_spin(cl.c_active, ns)[s], act)
        c.eq(label + "c_total", per_spin(cl.c_total, ns)[s], tot)
        c.true(label + "sizes", (per_spin(cl.nocc_active, ns)[s], per_spin(cl.nvir_active, ns)[s], per_spin(cl.norb_active, ns)[s])
               == (co.shape[-1], cv.shape[-1], act.shape[-1]))
        c.true(label + "frozen sizes", (per_spin(cl.nocc_frozen, ns)[s], per_spin(cl.nvir_frozen, ns)[s], per_spin(cl.norb_total, ns)[s])
               == (fo.shape[-1], fv.shape[-1], tot.shape[-1]))
        sl = cl.get_active_slice() if ns == 1 else cl.get_active_slice()[s]
        ix = cl.get_active_indices() if ns == 1 else cl.get_active_indices()[s]
        fx = cl.get_frozen_indices() if ns == 1 else cl.get_frozen_indices()[s]
        c.eq(label + "active slice", tot[:, sl], act)
        c.eq(label + "active indices", tot[:, list(ix)], act)
        c.eq(label + "frozen indices", tot[:, list(fx)], np.hstack((fo, fv)))
        dm = cl.make_frozen_rdm1() if ns == 1 else cl.make_frozen_rdm1()[s]
        c.eq(label + "frozen density", dm, (2 if ns == 1 else 1) * fo @ fo.T)
    if ns == 1:
        F = lab.fock(mf)
        for x in (cl.c_active_occ, cl.c_active_vir):
            f_ = x.T @ F @ x
            c.eq(label + "canonical", f_, np.diag(np.diag(f_)))


def dmet_space(mf, cf, s, ns):
    """Fragment orbitals and their occupied components."""
    S = mf.get_ovlp()
    C, occ = per_spin(mf.mo_coeff, ns)[s], per_spin(mf.mo_occ, ns)[s]
    Co = C[:, occ > 0]
    return orth(np.hstack((cf, Co @ Co.T @ S @ cf)), S)


@contract(P, "dmet", ["DMET_Bath_RHF.make_dmet_bath", "DMET_Bath_UHF.make_dmet_bath", "DMET_Bath_RHF.kernel", "Fragment.diagonalize_cluster_dm",
                      "UFragment.diagonalize_cluster_dm", "Fragment.canonicalize_mo", "Fragment.make_cluster", "Cluster.from_coeffs"],
          cases=product_cases(spin=["r", "u"], frag=["sao", "iao", "iaopao"], canonical=[True, False]), sym=False, n=2, nthorough=10, tol=1e-6, bounded=BND)
def _(c, spin, frag, canonical):
    """DMET cluster = span of the fragment orbitals and of their occupied components."""
    mf = system(c, spin, canonical=canonical)
    emb = build(mf, dict(bathtype="dmet"), random_split(c.rng, mf.mol.natm), frag)
    ns, S = 1 if spin == "r" else 2, mf.get_ovlp()
    for f in emb.fragments:
        cluster_ok(c, mf, f)
        for s in range(ns):
            ref = dmet_space(mf, per_spin(f.c_frag, ns)[s], s, ns)
            act = per_spin(f.cluster.c_active, ns)[s]
            if act.shape[-1] != ref.shape[-1]:
                e = np.linalg.eigvalsh(ref.T @ S @ act @ act.T @ S @ ref)
                if e.min() < 1e-3:
                    c.true("dimension", False)
                continue
            c.eq("space", act @ act.T, ref @ ref.T)
            n = per_spin(f._dmet_bath.n_dmet, ns)[s]
            c.true("bath occupations", bool(np.all(n > 0) and np.all(n < 1)))


def mp2_reference(mf, f, occtype, order, mode, buffer=False):
    """Natural occupations and env-block density (AO basis projector form) of the MP2 bath, computed independently (RHF)."""
    S, F = mf.get_ovlp(), lab.fock(mf)
    b = f._dmet_bath
    can = lambda X: X @ np.linalg.eigh(X.T @ F @ X)[1]
    if occtype == "occupied":
        O, V = can(np.hstack((b.c_cluster_occ, b.c_env_occ))), can(b.c_cluster_vir)
    else:
        O = can(np.hstack((b.c_cluster_occ, b.c_env_occ)) if buffer else b.c_cluster_occ)
        V = can(np.hstack((b.c_cluster_vir, b.c_env_vir)))
    g = lab.mo_eri(mf, (O, V, O, V)).transpose(0, 2, 1, 3)
    eo, ev = np.diag(O.T @ F @ O), np.diag(V.T @ F @ V)
    t = g / (eo[:, None, None, None] + eo[None, :, None, None] - ev[None, None, :, None] - ev[None, None, None, :])
    if order:
        n = np.clip(b.n_dmet, 0, 1)
        w = {"full": 0 * n, "half": 0 * n + 0.5, "linear": 1 - abs(1 - 2 * n), "cosine": np.sin(np.pi * n) ** 2, "cosine-half": np.sin(np.pi * n) ** 2 / 2,
             "entropy": 1 - (1 - 2 * n) ** 2, "sqrt-entropy": np.sqrt(1 - (1 - 2 * n) ** 2), "squared-entropy": (1 - (1 - 2 * n) ** 2) ** 2}[mode]
        X = np.hstack((f.c_frag, b.c_dmet))
        w = np.concatenate((np.ones(f.c_frag.shape[-1]), w))
        Z = V if occtype == "occupied" else O
        p = Z.T @ S @ X @ np.diag(w) @ X.T @ S @ Z
        if occtype == "occupied":
            t1 = np.einsum("ca,ijab->ijcb", p, t)
            t = np.einsum("cb,ijab->ijac", p, t1) if order == 2 else (t1 + np.einsum("cb,ijab->ijac", p, t)) / 2
        else:
            t1 = np.einsum("ki,ijab->kjab", p, t)
            t = np.einsum("kj,ijab->ikab", p, t1) if order == 2 else (t1 + np.einsum("kj,ijab->ikab", p, t)) / 2
    tb = 2 * t - t.transpose(0, 1, 3, 2)
    if occtype == "occupied":
        D, B, E = np.einsum("ikab,jkab->ij", t, tb), O, b.c_env_occ
    else:
        D, B, E = np.einsum("ijac,ijbc->ab", t, tb), V, b.c_env_vir
    r = E.T @ S @ B
    return r @ D @ r.T, E


MODES = ["full", "half", "linear", "cosine", "cosine-half", "entropy", "sqrt-entropy", "squared-entropy"]


@contract(P, "mp2", ["MP2_BNO_Bath.make_bno_coeff", "MP2_BNO_Bath._project_t2", "MP2_BNO_Bath._get_dmet_projector_weights", "BNO_Bath.get_active_space",
                     "BNO_Bath.truncate_bno", "BNO_Bath._diagonalize_dm", "Fragment.make_bath", "Fragment._get_bath_option"],
          cases=[dict(order=0, mode="full")] + product_cases(order=[1, 2], mode=MODES), sym=False, n=1, nthorough=4, tol=1e-6, bounded=BND)
def _(c, order, mode):
    """Bath natural orbitals diagonalise the environment block of the MP2 density of the cluster, with the (projected)
    amplitudes; the requested truncation selects the leading ones."""
    rng = c.rng
    mf = system(c, "r", canonical=True, natom=5 if rng.integers(2) else 4) if False else system(c, "r", canonical=True)
    buffer = bool(rng.integers(2))
    to, tv = [float(10.0 ** -rng.integers(2, 7)) for _ in range(2)]
    bo = dict(bathtype="mp2", threshold_occ=to, threshold_vir=tv, project_dmet_order=order, project_dmet_mode=mode, addbuffer=buffer)
    kind = str(rng.choice(["occupation", "truncation", "number", "excited-percent", "electron-percent"]))
    if kind != "occupation":
        bo["truncation"] = kind
    if kind == "number":
        to, tv = 1, 2
        bo.update(threshold_occ=to, threshold_vir=tv)
    emb = build(mf, bo, random_split(rng, mf.mol.natm)[:2])
    S = mf.get_ovlp()
    for f in emb.fragments:
        cluster_ok(c, mf, f)
        b = f._dmet_bath
        for occtype, thr, cenv, act, cl in (("occupied", to, b.c_env_occ, f.cluster.c_active_occ, b.c_cluster_occ), ("virtual", tv, b.c_env_vir, f.cluster.c_active_vir, b.c_cluster_vir)):
            if cenv.shape[-1] == 0:
                continue
            D, E = mp2_reference(mf, f, occtype, order, mode, buffer)
            n = np.linalg.eigvalsh(D)[::-1]
            fac = getattr(f, "_bath_factory_" + occtype[:3])
            c.eq("occupations", fac.occup, n)
            X = E.T @ S @ fac.coeff
            c.eq("natural orbitals", X.T @ D @ X, np.diag(n))
            k = bno.BNO_Threshold(kind, thr).get_number(fac.occup, electron_total=2 * b.c_cluster_occ.shape[-1])
            k = min(int(k), len(n))
            c.true("number selected", act.shape[-1] == cl.shape[-1] + k)
            if 0 < k < len(n) and n[k - 1] - n[k] < 1e-9:
                continue
            ref = np.hstack((cl, fac.coeff[:, :k]))
            c.eq("leading orbitals", act @ act.T, ref @ ref.T)


@contract(P, "fbc", ["BNO_Bath.get_finite_bath_correction", "BNO_Bath.get_active_space", "UMP2_BNO_Bath._make_t2"],
          cases=product_cases(spin=["r", "u"]), sym=False, n=2, nthorough=8, tol=1e-6, bounded=BND)
def _(c, spin):
    """Finite-bath correction = projected MP2 energy of the full environment minus that of the active space."""
    mf = system(c, "r", canonical=True)
    if spin == "u":
        mf = mf.to_uhf()
    emb = build(mf, dict(bathtype="mp2", threshold=1e-3), random_split(c.rng, mf.mol.natm)[:2])
    S = mf.get_ovlp()
    F = lab.fock(mf) if spin == "r" else lab.fock(mf)[0]
    can = lambda X: X @ np.linalg.eigh(X.T @ F @ X)[1]
    erim = lab.ao_eri(mf)

    def e(O, V, cf):
        O, V = can(O), can(V)
        g = np.einsum("pqrs,pi,qj,rk,sl->ikjl", erim, O, V, O, V, optimize=True)
        eo, ev = np.diag(O.T @ F @ O), np.diag(V.T @ F @ V)
        t = g / (eo[:, None, None, None] + eo[None, :, None, None] - ev[None, None, :, None] - ev[None, None, None, :])
        p = O.T @ S @ cf @ cf.T @ S @ O
        return 2 * np.einsum("ij,jkab,ikab", p, t, g) - np.einsum("ij,jkab,ikba", p, t, g)
    one = (lambda x: x) if spin == "r" else (lambda x: x[0])
    for f in emb.fragments:
        b, cl, cf = f._dmet_bath, f.cluster, one(f.c_frag)
        fo, fv = one(cl.c_frozen_occ), one(cl.c_frozen_vir)
        ref = 0
        if fo.shape[-1]:
            ref = e(np.hstack((one(b.c_cluster_occ), one(b.c_env_occ))), one(b.c_cluster_vir), cf) - e(one(cl.c_active_occ), one(b.c_cluster_vir), cf)
        c.eq("occupied", f._bath_factory_occ.get_finite_bath_correction(cl.c_active_occ, cl.c_frozen_occ), ref)
        ref = 0
        if fv.shape[-1]:
            ref = e(one(b.c_cluster_occ), np.hstack((one(b.c_cluster_vir), one(b.c_env_vir))), cf) - e(one(b.c_cluster_occ), one(cl.c_active_vir), cf)
        c.eq("virtual", f._bath_factory_vir.get_finite_bath_correction(cl.c_active_vir, cl.c_frozen_vir), ref)


UCASES = [dict(bo=dict(bathtype="dmet")), dict(bo=dict(bathtype="full")), dict(bo=dict(bathtype_occ="full", bathtype_vir="dmet")),
          dict(bo=dict(bathtype="mp2", threshold=1e-3, project_dmet_order=0)), dict(bo=dict(bathtype="mp2", threshold=1e-4, project_dmet_order=1, project_dmet_mode="full")),
          dict(bo=dict(bathtype="mp2", threshold=1e-4, project_dmet_order=1, project_dmet_mode="linear")),
          dict(bo=dict(bathtype="mp2", threshold=1e-3)), dict(bo=dict(bathtype="mp2", threshold=1e-3, addbuffer=True)),
          dict(bo=dict(bathtype="mp2", threshold=0.3, truncation="excited-percent")), dict(bo=dict(bathtype="mp2", threshold=2, truncation="number")),
          dict(bo=dict(bathtype_occ="dmet", bathtype_vir="mp2", threshold=1e-4))]


@contract(P, "r_vs_u", ["UMP2_BNO_Bath._project_t2", "UMP2_BNO_Bath.make_delta_dm1", "BNO_Bath_UHF.truncate_bno", "DMET_Bath_UHF.make_dmet_bath", "Full_Bath_UHF.get_bath",
                        "Full_Bath_RHF.get_bath", "UFragment.canonicalize_mo"],
          cases=UCASES, sym=False, n=1, nthorough=5, tol=1e-6, bounded=BND)
def _(c, bo):
    """A closed-shell system treated as unrestricted gives the same cluster spaces."""
    mf = system(c, "r", canonical=True)
    split = random_split(c.rng, mf.mol.natm)[:2]
    r, u = build(mf, bo, split), build(mf.to_uhf(), bo, split)
    for x, y in zip(r.fragments, u.fragments):
        cluster_ok(c, mf.to_uhf(), y)
        for k in ("c_active_occ", "c_active_vir", "c_frozen_occ", "c_frozen_vir"):
            a = getattr(x.cluster, k)
            for s in range(2):
                b = getattr(y.cluster, k)[s]
                c.eq(k, b @ b.T, a @ a.T)
        for o in ("occ", "vir"):
            fx, fy = getattr(x, "_bath_factory_" + o), getattr(y, "_bath_factory_" + o)
            if hasattr(fx, "occup"):
                for s in range(2):
                    c.eq("occupations", fy.occup[s], fx.occup)
                if fx.ecorr is not None:
                    c.eq("MP2 energy", fy.ecorr, fx.ecorr)


@contract(P, "open_shell", ["Fragment.make_cluster", "BNO_Bath_UHF._dm_take_env", "UMP2_BNO_Bath._project_t2"],
          cases=product_cases(bath=["dmet", "full", "mp2"], order=[0, 1, 2], canon=[True, False]), sym=False, n=2, nthorough=8, tol=1e-6, bounded=BND)
def _(c, bath, order, canon):
    """Open shells, different alpha/beta spaces, empty environments; every bath gives a proper cluster."""
    if bath != "mp2" and order:
        raise Skip()
    mf = system(c, "u", basis="6-31g" if c.rng.integers(2) else "sto-3g")
    bo = dict(bathtype=bath, canonicalize=canon)
    if bath == "mp2":
        bo.update(threshold=float(10.0 ** -c.rng.integers(1, 8)), project_dmet_order=order, project_dmet_mode=str(c.rng.choice(MODES)))
    emb = build(mf, bo, random_split(c.rng, mf.mol.natm))
    for f in emb.fragments:
        cluster_ok(c, mf, f)
        if bath == "full":
            c.true("full", f.cluster.norb_frozen == (0, 0))


@contract(P, "mp2_converges", ["BNO_Bath.truncate_bno", "Fragment.make_cluster"], cases=product_cases(spin=["r", "u"]), sym=False, n=2, nthorough=8, tol=1e-6, bounded=BND)
def _(c, spin):
    """Lower thresholds give nested spaces; threshold below all occupations gives the full system."""
    mf = system(c, spin, canonical=True)
    split = random_split(c.rng, mf.mol.natm)[:2]
    ns, S = 1 if spin == "r" else 2, mf.get_ovlp()
    prev = None
    for t in (1e-2, 1e-3, 1e-4, 1e-6, -1.0):
        emb = build(mf, dict(bathtype="mp2", threshold=t), split)
        cur = [[per_spin(f.cluster.c_active, ns)[s] for s in range(ns)] for f in emb.fragments]
        if prev:
            for a, b in zip(prev, cur):
                for x, y in zip(a, b):
                    c.eq("nested", x.T @ S @ y @ y.T @ S @ x, np.eye(x.shape[-1]))
        prev = cur
    for a in prev:
        for x in a:
            c.true("complete", x.shape[-1] == mf.mo_coeff.shape[-1])


@contract(P, "ewdmet", ["EwDMET_Bath_RHF._make_svd", "EwDMET_Bath_RHF.get_bath", "EwDMET_Bath_RHF.kernel"], cases=product_cases(order=[1, 2, 3]), sym=False, n=2, nthorough=8,
          tol=1e-5, bounded=BND)
def _(c, order):
    """Energy-weighted DMET: environment spanned by fragment orbitals acted on by up to `order` powers of the Fock matrix."""
    mf = system(c, "r", canonical=bool(c.rng.integers(2)))
    emb = build(mf, dict(bathtype="ewdmet", order=order, threshold=1e-9), random_split(c.rng, mf.mol.natm)[:2])
    S, F = mf.get_ovlp(), lab.fock(mf)
    for f in emb.fragments:
        cluster_ok(c, mf, f)
        b = f._dmet_bath
        for cl, env, act in ((b.c_cluster_occ, b.c_env_occ, f.cluster.c_active_occ), (b.c_cluster_vir, b.c_env_vir, f.cluster.c_active_vir)):
            if env.shape[-1] == 0:
                continue
            A, v = env.T @ F @ env, env.T @ F @ f.c_frag
            K = []
            for k in range(order):
                K.append(v)
                v = A @ v
            K = np.hstack(K)
            u, s, _ = np.linalg.svd(K)
            r = int(np.sum(s > 1e-6))
            if np.any((s > 1e-9) & (s < 1e-4)):
                continue
            ref = np.hstack((cl, env @ u[:, :r]))
            c.true("dimension", act.shape[-1] == ref.shape[-1])
            c.eq("space", act @ act.T, ref @ ref.T)


@contract(P, "r2", ["R2_Bath_RHF.kernel", "R2_Bath_RHF.get_bath", "R2_Bath_RHF.get_r2", "_get_r2", "_to_bohr"], cases=product_cases(unit=["Ang", "Bohr", None]), sym=False, n=2,
          nthorough=8, tol=1e-6, bounded=BND)
def _(c, unit):
    """Distance bath: environment orbitals (eigenvectors of the squared distance) within the cutoff, in the stated unit."""
    mf = system(c, "r", canonical=True)
    S = mf.get_ovlp()
    rcut = float(c.rng.uniform(0.8, 2.0)) * (1 if unit != "Bohr" else 1.8)
    bo = dict(bathtype="r2", rcut=rcut)
    if unit:
        bo["unit"] = unit
    emb = build(mf, bo, [[i] for i in range(mf.mol.natm)])
    rb = rcut if unit == "Bohr" else rcut / 0.529177210903
    for f in emb.fragments:
        cluster_ok(c, mf, f)
        R = mf.mol.atom_coord(f.atoms[0])
        with mf.mol.with_common_origin((0, 0, 0)):
            r1, r2 = mf.mol.intor("int1e_r"), mf.mol.intor("int1e_r2")
        M = r2 - 2 * np.einsum("x,xij->ij", R, r1) + np.dot(R, R) * S
        b = f._dmet_bath
        for cl, env, act in ((b.c_cluster_occ, b.c_env_occ, f.cluster.c_active_occ), (b.c_cluster_vir, b.c_env_vir, f.cluster.c_active_vir)):
            if env.shape[-1] == 0:
                continue
            e, v = np.linalg.eigh(env.T @ M @ env)
            k = e <= rb ** 2
            if np.any(abs(e - rb ** 2) < 1e-4):
                continue
            ref = np.hstack((cl, env @ v[:, k]))
            c.true("dimension", act.shape[-1] == ref.shape[-1])
            c.eq("space", act @ act.T, ref @ ref.T)


@contract(P, "rpa", ["RPA_BNO_Bath.make_bno_coeff"], sym=False, n=2, nthorough=6, tol=1e-6, bounded=BND)
def _(c):
    geo = "; ".join("H %.6f %.6f %.6f" % tuple(x) for x in np.array([[float(t) for t in a.split()[1:]] for a in lab.GEO[4].split(";")]) + 0.05 * c.rng.normal(size=(4, 3)))
    mf = lab.make_mf("r", 4, basis="6-31g", canonical=True, df=True, geo=geo)
    emb = build(mf, dict(bathtype="rpa", threshold=float(10.0 ** -c.rng.integers(2, 5))), random_split(c.rng, 4)[:2])
    for f in emb.fragments:
        cluster_ok(c, mf, f)
        for o in ("occ", "vir"):
            fac = getattr(f, "_bath_factory_" + o)
            if len(fac.occup):
                c.true("sorted", bool(np.all(np.diff(fac.occup) <= 1e-12)))
