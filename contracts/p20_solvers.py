"""P20: every cluster solver solves the Hamiltonian of its cluster; chemical potentials are optimised to the target."""
from unittest import mock

import numpy as np
import scipy.linalg

from engine.core import contract, product_cases, Skip
from vayesta.solver import solver, mp2, cisd, ccsd, fci, tccsd, callback
from vayesta.solver import get_solver_class
from vayesta.core.util import ConvergenceError
from . import lab
from . import embstub as es
from .common import *
from .detspace import DetSpace, cc_residual, lambda_residual, spin_amps

P = "P20"


# ---------------------------------------------------------------- MP2 amplitudes, symbolic
def _log(c):
    return c.log


def _two_blocks(mod, na):
    """Contract of brange (proved in P18): consecutive blocks which cover the range; here two of arbitrary size."""
    return mock.patch.object(mod, "brange", lambda start, stop, step=None: iter((slice(0, na), slice(na, stop))))


@contract(P, "sym_mp2_r", ["RMP2_Solver.make_t2"], modules=("vayesta.solver.mp2",), cases=product_cases(form=["eris", "cderi", "cderi_neg"]))
def _(c, form):
    """t_ijab = (ia|jb)/(e_i+e_j-e_a-e_b) from integrals or their factors, for all dimensions and orbital energies."""
    o1, o2, v, n = c.dim("o1"), c.dim("o2"), c.dim("v"), c.dim("naux")
    o = c.axis(o1, o2)
    e = energies(c, "e", o1, o2, v)
    s = es.obj(mp2.RMP2_Solver, log=c.log)
    if form == "eris":
        g = c.tensor("g", (o, v, o, v))
        kw = dict(eris=g)
    else:
        L = c.tensor("L", (n, o, v))
        g = c.einsum("Lia,Ljb->iajb", L, L)
        N = None
        if form == "cderi_neg":
            N = c.tensor("N", (c.dim("nneg"), o, v))
            g = g - c.einsum("Lia,Ljb->iajb", N, N)
        kw = dict(cderi=L, cderi_neg=N)
    with _two_blocks(mp2, o1):
        got = s.make_t2(e, blksize=1, **kw)
    eo, ev = e[:o1 + o2], e[o1 + o2:]
    d = eo[:, None, None, None] + eo[None, :, None, None] - ev[None, None, :, None] - ev[None, None, None, :]
    c.eq("t2", got, g.transpose(0, 2, 1, 3) / d)


@contract(P, "sym_mp2_u", ["UMP2_Solver.make_t2"], modules=("vayesta.solver.mp2",), cases=product_cases(form=["eris", "cderi", "cderi_neg"]))
def _(c, form):
    """Unrestricted MP2 amplitudes, antisymmetrised for equal spins, for all dimensions and orbital energies."""
    o1, o2, va, ob, vb, n = c.dim("o1"), c.dim("o2"), c.dim("va"), c.dim("ob"), c.dim("vb"), c.dim("naux")
    # the blocks of both loops: for a single proof, split the occupied orbitals of both spins at the same position
    o = (c.axis(o1, o2), c.axis(o1, ob))
    v = (va, vb)
    e = (energies(c, "ea", o1, o2, va), energies(c, "eb", o1, ob, vb))
    s = es.obj(mp2.UMP2_Solver, log=c.log)
    G = {}
    if form == "eris":
        G[0, 0] = c.tensor("gaa", (o[0], v[0], o[0], v[0]))
        G[0, 1] = c.tensor("gab", (o[0], v[0], o[1], v[1]))
        G[1, 1] = c.tensor("gbb", (o[1], v[1], o[1], v[1]))
        kw = dict(eris=(G[0, 0], G[0, 1], G[1, 1]))
    else:
        L = tuple(c.tensor("L%d" % k, (n, o[k], v[k])) for k in range(2))
        N = None
        if form == "cderi_neg":
            m = c.dim("nneg")
            N = tuple(c.tensor("N%d" % k, (m, o[k], v[k])) for k in range(2))
        for a, b in ((0, 0), (0, 1), (1, 1)):
            G[a, b] = c.einsum("Lia,Ljb->iajb", L[a], L[b])
            if N is not None:
                G[a, b] = G[a, b] - c.einsum("Lia,Ljb->iajb", N[a], N[b])
        kw = dict(cderi=L, cderi_neg=N or (None, None))
    with _two_blocks(mp2, o1):
        got = s.make_t2(e, blksize=1, **kw)
    no = (o1 + o2, o1 + ob)
    for k, (a, b) in enumerate(((0, 0), (0, 1), (1, 1))):
        eo, ev, fo, fv = e[a][:no[a]], e[a][no[a]:], e[b][:no[b]], e[b][no[b]:]
        d = eo[:, None, None, None] + fo[None, :, None, None] - ev[None, None, :, None] - fv[None, None, None, :]
        t = G[a, b].transpose(0, 2, 1, 3) / d
        if a == b:
            t = t - t.transpose(0, 1, 3, 2)
        c.eq("t2 %d%d" % (a, b), got[k], t)


@contract(P, "sym_v_ext", ["ClusterSolver.calc_v_ext", "UClusterSolver.calc_v_ext"], modules=("vayesta.solver.solver",), cases=product_cases(spin=["r", "u"], v0=["zero", "matrix"]))
def _(c, spin, v0):
    """The potential of a chemical potential: previous potential minus cpt times the projector, for each spin."""
    cpt = c.scalar("cpt")
    n = [c.dim("n%d" % k) for k in range(2)]
    p = [c.tensor("p%d" % k, (n[k], n[k])) for k in range(2)]
    w = [c.tensor("w%d" % k, (n[k], n[k])) for k in range(2)]
    w0 = [0, 0] if v0 == "zero" else w
    if spin == "r":
        s = es.obj(solver.RClusterSolver if hasattr(solver, "RClusterSolver") else solver.ClusterSolver, hamil=c.ns(target_space_projector=lambda: p[0]))
        c.eq("v", s.calc_v_ext(0 if v0 == "zero" else w[0], cpt), w0[0] - cpt * p[0])
    else:
        s = es.obj(solver.UClusterSolver, hamil=c.ns(target_space_projector=lambda: tuple(p)))
        got = s.calc_v_ext(0 if v0 == "zero" else tuple(w), cpt)
        for k in range(2):
            c.eq("v%d" % k, got[k], w0[k] - cpt * p[k])


# ---------------------------------------------------------------- bounded: real clusters
def solve(s):
    """Run a solver; nothing can be said if it does not converge."""
    try:
        s.kernel()
    except (AttributeError, ValueError) as e:
        # diverging iterations: PySCF's DIIS fails (for singular matrices in a way which needs an older NumPy)
        if "numpy.linalg" in str(e) or "infs or NaNs" in str(e):
            raise Skip
        raise
    except ConvergenceError:
        raise Skip
    if not s.converged:
        raise Skip
    return s


def clusters(c, spin, df, bath, natom=None, vext=False):
    natom = natom or {"r": 4, "u": 4}[spin]
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)), df=df, canonical=bool(c.rng.integers(2)), mspin=None if spin == "r" else int(2 * c.rng.integers(2)))
    emb = lab.make_ewf(mf, lab.random_ccsd(c.rng, mf), bath=bath, split=[[0, 2], [1, 3]])
    out = []
    eri, F = lab.ao_eri(mf), lab.fock(mf)
    T = lambda *m: np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *m, optimize=True)
    for x in emb.fragments:
        h = x.get_frag_hamil()
        C = x.cluster.c_active
        C = (C, C) if spin == "r" else tuple(C)
        ne = x.cluster.nocc_active
        ne = (ne, ne) if spin == "r" else tuple(ne)
        g = (T(C[0], C[0], C[0], C[0]), T(C[0], C[0], C[1], C[1]), T(C[1], C[1], C[1], C[1]))
        F2 = (F, F) if spin == "r" else F
        f = [C[s].T @ F2[s] @ C[s] for s in range(2)]
        if vext:
            w = [c.rng.normal(size=y.shape) * 0.05 for y in f]
            w = [y + y.T for y in w]
            if spin == "r":
                w[1] = w[0]
            h.v_ext = w[0] if spin == "r" else tuple(w)
            f = [a + b for a, b in zip(f, w)]
        hc = []
        for s in range(2):
            j = np.einsum("iipq->pq", g[2 * s][:ne[s], :ne[s]]) - np.einsum("ipqi->pq", g[2 * s][:ne[s], :, :, :ne[s]])
            gab = g[1] if s == 1 else g[1].transpose(2, 3, 0, 1)
            j = j + np.einsum("iipq->pq", gab[:ne[1 - s], :ne[1 - s]])
            hc.append(f[s] - j)
        out.append((x, h, hc, g, f, ne, DetSpace([y.shape[0] for y in f], ne)))
    return mf, emb, out


BATHS = ["full", "dmet"]


@contract(P, "fci", ["FCI_Solver.kernel", "UFCI_Solver.kernel"], sym=False, n=2, timeout=300, cases=product_cases(spin=["r", "u"], df=[False, True], bath=BATHS, vext=[False, True], exclude=lambda df, vext, **k: df and vext),
          bounded="clusters of up to 4 orbitals of either spin")
def _(c, spin, df, bath, vext):
    """FCI: the lowest eigenstate (singlet for restricted clusters) of the cluster Hamiltonian."""
    mf, emb, cl = clusters(c, spin, df, bath, vext=vext)
    for x, h, hc, g, f, ne, D in cl:
        H = D.hamiltonian(hc, g)
        s = get_solver_class(h, "FCI")(h, conv_tol=1e-14)
        s.kernel()
        c.true("converged", s.converged)
        ci = np.asarray(s.wf.ci)
        if D.norb[0] == D.norb[1]:
            v = ci.reshape(-1) / np.linalg.norm(ci)
            e = v @ (H @ v)
            c.true("eigenvector", np.abs(H @ v - e * v).max() < 1e-4)
        else:
            d1 = s.wf.make_rdm1()
            e = None
        w, U = np.linalg.eigh(H.toarray())
        if spin == "r":
            s2 = np.einsum("ij,ij->j", U, D.s2() @ U)
            k = [j for j in range(len(w)) if abs(s2[j]) < 1e-6]
            k = k[0] if k else 0
        else:
            k = 0
        if e is not None:
            c.true("energy", abs(e - w[k]) < 1e-6, "%r %r" % (e, w[k]))
        gap = np.sort(np.abs(w - w[k]))[1] if len(w) > 1 else 1.0
        if gap > 1e-3:
            ref = D.rdm1(U[:, k], U[:, k])
            got = s.wf.make_rdm1()
            got = (got / 2, got / 2) if spin == "r" else got
            for t in range(2):
                c.true("density", np.abs(got[t] - (ref[t] if spin == "u" else (ref[0] + ref[1]) / 2)).max() < 1e-4)


@contract(P, "cisd", ["RCISD_Solver.kernel", "UCISD_Solver.kernel", "UCISD.ao2mo", "uao2mo"], sym=False, n=2, timeout=300, cases=product_cases(spin=["r", "u"], df=[False, True], bath=BATHS, vext=[False, True], exclude=lambda df, vext, **k: df and vext),
          bounded="clusters of up to 4 orbitals of either spin")
def _(c, spin, df, bath, vext):
    """CISD: an eigenvector of the Hamiltonian in the space of single and double excitations."""
    mf, emb, cl = clusters(c, spin, df, bath, vext=vext)
    for x, h, hc, g, f, ne, D in cl:
        H = D.hamiltonian(hc, g)
        s = solve(get_solver_class(h, "CISD")(h, conv_tol=1e-12))
        wf = s.wf
        # intermediate normalised amplitudes as operators on the reference
        if spin == "r":
            c2 = wf.c2 - wf.c2.transpose(0, 1, 3, 2)
            op = D.cluster((wf.c1, wf.c1), (c2, wf.c2, c2))
        else:
            op = D.cluster(wf.c1, (wf.c2[0], wf.c2[1], wf.c2[-1]))
        v = wf.c0 * D.ref + op @ D.ref
        v = v / np.linalg.norm(v)
        e = v @ (H @ v)
        r = (H @ v - e * v)[D.rank <= 2]
        c.true("eigenvector", np.abs(r).max() < 1e-4, str(np.abs(r).max()))
        keep = D.rank <= 2
        w = np.linalg.eigvalsh(H.toarray()[np.ix_(keep, keep)])
        c.true("eigenvalue", np.abs(w - e).min() < 1e-6)


@contract(P, "ccsd", ["RCCSD_Solver.kernel", "UCCSD_Solver.kernel", "UCCSD.ao2mo", "uao2mo", "RCCSD_Solver.generate_init_guess"], sym=False, n=2, timeout=300,
          cases=product_cases(spin=["r", "u"], df=[False, True], bath=BATHS, vext=[False, True], guess=["MP2", "CISD"], exclude=lambda df, vext, guess, bath, **k: (df and vext) or (guess == "CISD" and (df or bath == "dmet"))),
          bounded="clusters of up to 4 orbitals of either spin")
def _(c, spin, df, bath, vext, guess):
    """CCSD: amplitudes and multipliers solve the coupled-cluster equations of the cluster Hamiltonian."""
    mf, emb, cl = clusters(c, spin, df, bath, vext=vext)
    for x, h, hc, g, f, ne, D in cl:
        if min(D.nelec) == 0 or min(D.norb[k] - D.nelec[k] for k in range(2)) == 0:
            continue
        H = D.hamiltonian(hc, g)
        s = get_solver_class(h, "CCSD")(h, conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=200, init_guess=guess)
        solve(s)
        t1, t2, l1, l2 = spin_amps(s.wf)
        e, r, T = cc_residual(D, H, t1, t2)
        k = (D.rank >= 1) & (D.rank <= 2)
        c.true("amplitude equations", np.abs(r[k]).max() < 1e-6, str(np.abs(r[k]).max()))
        c.true("multiplier equations", np.abs(lambda_residual(D, H, T, l1, l2)).max() < 1e-3)
        s = solve(get_solver_class(h, "CCSD")(h, solve_lambda=False))
        t1, t2, l1, l2 = spin_amps(s.wf)
        c.eq("L=T", [np.asarray(y) for y in l1] + list(l2), [np.asarray(y) for y in t1] + list(t2))


@contract(P, "mp2", ["RMP2_Solver.kernel", "UMP2_Solver.kernel", "UMP2_Solver.make_t2", "get_ov_eris"], sym=False, n=2, timeout=300,
          cases=product_cases(spin=["r", "u"], df=[False, True], bath=BATHS, compress=[False, True], exclude=lambda df, compress, **k: compress and not df),
          bounded="clusters of up to 4 orbitals of either spin")
def _(c, spin, df, bath, compress):
    """MP2: first-order amplitudes with the diagonal of the cluster's Fock matrix."""
    mf, emb, cl = clusters(c, spin, df, bath)
    for x, h, hc, g, f, ne, D in cl:
        s = get_solver_class(h, "MP2")(h, compress_cderi=compress)
        s.kernel()
        t2 = (None, s.wf.t2, None) if spin == "r" else (s.wf.t2[0], s.wf.t2[1], s.wf.t2[-1])
        for k, (a, b) in enumerate(((0, 0), (0, 1), (1, 1))):
            if t2[k] is None:
                continue
            ea, eb = np.diag(f[a]), np.diag(f[b])
            o, p = ne[a], ne[b]
            ref = g[k][:o, o:, :p, p:].transpose(0, 2, 1, 3)
            if a == b:
                ref = ref - ref.transpose(0, 1, 3, 2)
            ref = ref / (ea[:o, None, None, None] + eb[None, :p, None, None] - ea[None, None, o:, None] - eb[None, None, None, p:])
            c.eq("t2 %d" % k, t2[k], ref)


@contract(P, "mp2_blocks", ["RMP2_Solver.make_t2", "UMP2_Solver.make_t2"], sym=False, n=4, cases=product_cases(spin=["r", "u"], form=["eris", "cderi", "neg"]), bounded="up to 5 orbitals per space, all block sizes")
def _(c, spin, form):
    """The result does not depend on the blocking of the occupied orbitals."""
    rng = c.rng
    o, v = rng.integers(1, 6, size=2), rng.integers(1, 6, size=2)
    n = 7
    e = [np.concatenate([-rng.random(o[s]) - 1, rng.random(v[s])]) for s in range(2)]
    L = [rng.normal(size=(n, o[s], v[s])) for s in range(2)]
    N = [rng.normal(size=(3, o[s], v[s])) if form == "neg" else np.zeros((1, o[s], v[s])) for s in range(2)]
    G = lambda s, t: np.einsum("Lia,Ljb->iajb", L[s], L[t]) - np.einsum("Lia,Ljb->iajb", N[s], N[t])
    neg = tuple(N) if form == "neg" else (None, None)
    for blk in (None, 1, 2, 3, 100):
        if spin == "r":
            s = es.obj(mp2.RMP2_Solver, log=c.log)
            t2 = s.make_t2(e[0], **(dict(eris=G(0, 0)) if form == "eris" else dict(cderi=L[0], cderi_neg=neg[0])), blksize=blk)
            t2 = (None, t2, None)
            pairs = ((0, 0), (0, 0), (0, 0))
        else:
            s = es.obj(mp2.UMP2_Solver, log=c.log)
            t2 = s.make_t2(e, **(dict(eris=(G(0, 0), G(0, 1), G(1, 1))) if form == "eris" else dict(cderi=tuple(L), cderi_neg=neg)), blksize=blk)
            pairs = ((0, 0), (0, 1), (1, 1))
        for k, (a, b) in enumerate(pairs):
            if t2[k] is None:
                continue
            ref = G(a, b).transpose(0, 2, 1, 3)
            if k != 1:
                ref = ref - ref.transpose(0, 1, 3, 2)
            oa, ob = o[a], o[b]
            ref = ref / (e[a][:oa, None, None, None] + e[b][None, :ob, None, None] - e[a][None, None, oa:, None] - e[b][None, None, None, ob:])
            c.eq("t2 %d block %s" % (k, blk), t2[k], ref)


@contract(P, "cpt", ["ClusterSolver.optimize_cpt", "UClusterSolver.calc_v_ext", "ClusterSolver.calc_v_ext"], sym=False, n=2, timeout=300,
          cases=product_cases(spin=["r", "u"], solver=["FCI", "CCSD"], guess=[0.0, 0.05, 0.5], vext=[False, True], exclude=lambda vext, guess, **k: vext and guess == 0.5), bounded="clusters of up to 4 orbitals of either spin")
def _(c, spin, solver, guess, vext):
    """With a fragment chemical potential the solution has the target number of electrons in the fragment and is the
    solution of the cluster Hamiltonian with that potential on the fragment; the Hamiltonian is left unchanged."""
    mf, emb, cl = clusters(c, spin, False, "full", vext=vext)
    S = mf.get_ovlp()
    x, h, hc, g, f, ne, D = cl[0]
    opts = dict(conv_tol=1e-13) if solver == "FCI" else dict(conv_tol=1e-10, conv_tol_normt=1e-8)
    s = get_solver_class(h, solver)(h, **opts)
    C = x.cluster.c_active
    cf = (x.c_frag, x.c_frag) if spin == "r" else x.c_frag
    C = (C, C) if spin == "r" else C
    pr = [C[t].T @ S @ cf[t] for t in range(2)]
    pr = [y @ y.T for y in pr]
    solve(s)

    def count(wf):
        d = wf.make_rdm1()
        return np.sum(pr[0] * d) if spin == "r" else sum(np.sum(pr[t] * d[t]) for t in range(2))
    n0 = count(s.wf)
    target = n0 + float(c.rng.choice([-0.05, 0.03]))
    s = get_solver_class(h, solver)(h, **opts)
    s.optimize_cpt(target, c_frag=x.c_frag, cpt_guess=guess, atol=1e-7)
    v0 = h.v_ext
    try:
        solve(s)
    except RuntimeError as e:
        if solver != "FCI" and "Could not find" in str(e):
            raise Skip
        raise
    n1 = count(s.wf)
    c.true("electrons", abs(n1 - target) < 5e-6, "%r %r %r" % (n0, target, n1))
    c.true("hamiltonian restored", h.v_ext is v0)
    # a multiple of the fragment projector
    if solver == "FCI" and D.norb[0] == D.norb[1]:
        v = np.asarray(s.wf.ci).reshape(-1)
        v = v / np.linalg.norm(v)
        H, N = D.hamiltonian(hc, g), D.one(pr)
        hv, nv = H @ v, N @ v
        hv, nv = hv - (v @ hv) * v, nv - (v @ nv) * v
        mu = (hv @ nv) / (nv @ nv)
        c.true("eigenvector with potential", np.abs(hv - mu * nv).max() < 1e-3)


@contract(P, "tccsd", ["TRCCSD_Solver.get_callback"], sym=False, n=1, timeout=300, cases=product_cases(vext=[False, True]), bounded="6 orbitals, CAS of 4 orbitals")
def _(c, vext):
    """Tailored CCSD: amplitudes inside the active space are those of FCI there, the others solve the CCSD equations."""
    mf = lab.make_mf("r", 6, canonical=True)
    emb = lab.make_ewf(mf, lab.random_ccsd(c.rng, mf), bath="full")
    x = emb.fragments[0]
    h = x.get_frag_hamil()
    C = x.cluster.c_active
    o = x.cluster.nocc_active
    F, eri = lab.fock(mf), lab.ao_eri(mf)
    f = C.T @ F @ C
    if vext:
        w = c.rng.normal(size=f.shape) * 0.02
        w = w + w.T
        h.v_ext = w
        f = f + w
    g = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, C, C, C, C, optimize=True)
    uo, uv = np.linalg.qr(c.rng.normal(size=(o, 2)))[0], np.linalg.qr(c.rng.normal(size=(C.shape[1] - o, 2)))[0]
    s = tccsd.TRCCSD_Solver(h, c_cas_occ=x.cluster.c_active_occ @ uo, c_cas_vir=x.cluster.c_active_vir @ uv, conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=300, solve_lambda=False)
    solve(s)
    hc = f - 2 * np.einsum("iipq->pq", g[:o, :o]) + np.einsum("ipqi->pq", g[:o, :, :, :o])
    # FCI in the active space, other occupied orbitals frozen
    R = scipy.linalg.block_diag(uo, uv)
    ga = np.einsum("pqrs,pi,qj,rk,sl->ijkl", g, R, R, R, R, optimize=True)
    ha = R.T @ f @ R - 2 * np.einsum("iipq->pq", ga[:2, :2]) + np.einsum("ipqi->pq", ga[:2, :, :, :2])
    D = DetSpace(4, (2, 2))
    w, U = np.linalg.eigh(D.hamiltonian((ha, ha), (ga,) * 3).toarray())
    v = U[:, 0] / U[0, 0]
    # T from the CI vector through exp(T)
    t1 = np.zeros((2, 2))
    t1 = np.array([[(D.E[0][2 + a, i] @ D.ref) @ v for a in range(2)] for i in range(2)])
    t2 = np.array([[[[(D.E[0][2 + a, i] @ (D.E[1][2 + b, j] @ D.ref)) @ v for b in range(2)] for a in range(2)] for j in range(2)] for i in range(2)])
    t2 = t2 - np.einsum("ia,jb->ijab", t1, t1)
    T1 = np.einsum("IA,Ii,Aa->ia", s.wf.t1, uo, uv)
    T2 = np.einsum("IJAB,Ii,Jj,Aa,Bb->ijab", s.wf.t2, uo, uo, uv, uv)
    c.true("T1 of the active space", np.abs(T1 - t1).max() < 1e-5, str(np.abs(T1 - t1).max()))
    c.true("T2 of the active space", np.abs(T2 - t2).max() < 1e-5, str(np.abs(T2 - t2).max()))


@contract(P, "callback", ["CallbackSolver.kernel"], sym=False, n=1, timeout=300, cases=product_cases(spin=["r", "u"], kind=["ccsd", "cisd", "fci"]), bounded="clusters of up to 4 orbitals")
def _(c, spin, kind):
    """A user-supplied solver receives the cluster's mean field and its result becomes the cluster's wave function."""
    import pyscf.cc
    import pyscf.ci
    import pyscf.fci
    mf, emb, cl = clusters(c, spin, False, "full")
    x, h, hc, g, f, ne, D = cl[0]
    seen = []

    def call(m):
        seen.append(m)
        if kind == "ccsd":
            return dict(t1=seen, t2=2, converged=True) if False else dict(t1=t1, t2=t2, l1=l1, l2=l2, converged=True)
        if kind == "cisd":
            return dict(c0=0.9, c1=t1, c2=t2, converged=True)
        return dict(civec=ci, converged=True)
    o, v = ne, [D.norb[k] - ne[k] for k in range(2)]
    r = lambda *s: c.rng.normal(size=s)
    if spin == "r":
        t1, t2, l1, l2 = r(o[0], v[0]), r(o[0], o[0], v[0], v[0]), r(o[0], v[0]), r(o[0], o[0], v[0], v[0])
    else:
        mk = lambda: (tuple(r(o[k], v[k]) for k in range(2)), (r(o[0], o[0], v[0], v[0]), r(o[0], o[1], v[0], v[1]), r(o[1], o[1], v[1], v[1])))
        (t1, t2), (l1, l2) = mk(), mk()
    ci = r(*D.shape)
    s = get_solver_class(h, "CALLBACK")(h, callback=call)
    s.kernel()
    c.true("one call", len(seen) == 1)
    m = seen[0]
    fk = np.asarray(m.get_fock(dm=m.make_rdm1())) if spin == "r" else m.get_fock()
    for k in range(1 if spin == "r" else 2):
        c.eq("fock", fk if spin == "r" else np.asarray(fk[k])[:D.norb[k], :D.norb[k]], f[k])
    wf = s.wf
    if kind == "ccsd":
        for a, b in ((wf.t1, t1), (wf.t2, t2), (wf.l1, l1), (wf.l2, l2)):
            c.eq("amplitudes", a, b)
    elif kind == "cisd":
        c.eq("amplitudes", (wf.c1, wf.c2), (t1, t2))
        c.eq("c0", wf.c0, 0.9)
    else:
        c.eq("civec", wf.ci, ci)
    c.true("converged", s.converged)
