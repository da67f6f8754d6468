"""P12: folding a k-point sampled mean field to the supercell."""
import copy
import itertools

import numpy as np
import pyscf
import pyscf.pbc.gto
import pyscf.pbc.scf
import pyscf.pbc.df
import pyscf.pbc.tools
from pyscf.pbc.tools import k2gamma

from engine.core import contract, product_cases, Skip
import vayesta
import vayesta.core.foldscf as fs
from .common import *
from . import embstub as es

P = "P12"


# ---------------------------------------------------------------- transformation k <-> supercell (all dimensions)

def phase_of(c, nk):
    if c.symbolic:
        return c.unitary("phase", nk, dtype="c")
    r = np.arange(int(nk))          # (sampling: Bloch phases of a one-dimensional mesh)
    return np.exp(2j * np.pi * np.outer(r, r) / nk) / np.sqrt(nk)


def real_pair(c, ph, name, lead, nk, n):
    """k-point matrices and the supercell matrix they fold to, which is real (time-reversal symmetry)."""
    s = "s" if lead else ""
    if not c.symbolic:
        a = c.rng.standard_normal(lead + (nk, n, n)) + 1j * c.rng.standard_normal(lead + (nk, n, n))
        m = (-np.arange(int(nk))) % int(nk)
        ak = a + a[..., m, :, :].conj()
        return ak, np.einsum("kR,...kij,kS->...RiSj", ph, ak, ph.conj()).real
    if not lead:
        ak, g = c.tensor(name, (nk, n, n), dtype="c"), c.tensor(name + "_g", (nk, n, nk, n))
        for a, p, q in ((ak, ph, ph.conj()), (ak.conj(), ph.conj(), ph)):
            c.rule([(p, "kR"), (a, "kij"), (q, "kS")], "RiSj", [(1, [(g, "RiSj")], {})])
        return ak, g
    xs = [real_pair(c, ph, name + str(s), (), nk, n) for s in range(2)]
    return c.np.stack([x[0] for x in xs]), c.np.stack([x[1] for x in xs])


@contract(P, "k2bvk", ["k2bvk_2d", "bvk2k_2d"], opaque_minmax=True, cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    """Folding is the unitary transformation by the Bloch phases of every matrix, and unfolding is its inverse."""
    nk, n = c.dim("nk", 1), c.dim("nao", 1)
    ph = phase_of(c, nk)
    lead = (2,) if spin == "u" else ()
    ak = c.tensor("ak", lead + (nk, n, n), dtype="c")
    s = "s" if spin == "u" else ""
    g = fs.k2bvk_2d(ak, ph, make_real=False)
    ref = c.einsum("kR,%skij,kS->%sRiSj" % (s, s), ph, ak, ph.conj())
    c.eq("folded", g.reshape(lead + (nk, n, nk, n)), ref)
    c.eq("unfold(fold)", fs.bvk2k_2d(g, ph), ak)
    at = c.tensor("ag", lead + (nk, n, nk, n), dtype="c")
    k = fs.bvk2k_2d(at.reshape(lead + (nk * n, nk * n)), ph)
    c.eq("unfolded", k, c.einsum("kR,%sRiSj,kS->%skij" % (s, s), ph.conj(), at, ph))


@contract(P, "k2bvk_real", ["k2bvk_2d"], cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    """Matrices which are real in the supercell are returned as real matrices."""
    nk, n = c.dim("nk", 1), c.dim("nao", 1)
    ph = phase_of(c, nk)
    lead = (2,) if spin == "u" else ()
    ak, ref = real_pair(c, ph, "ak", lead, nk, n)
    g = fs.k2bvk_2d(ak, ph)
    c.true("real", g.dtype.kind == "f")
    c.eq("value", g.reshape(lead + (nk, n, nk, n)), ref)
    c.eq("unfold", fs.bvk2k_2d(g, ph), ak) if not c.symbolic else None


@contract(P, "folded_matrices", ["FoldedSCF.get_ovlp", "FoldedSCF.get_hcore", "FoldedSCF.get_veff", "FoldedSCF.e_tot", "FoldedSCF.ncells"],
          cases=product_cases(spin=["r", "u"], dm=[True, False]))
def _(c, spin, dm):
    """Supercell matrices are the folded k-point matrices; the potential of a supercell density is that of the unfolded density."""
    nk, n = c.dim("nk", 1), c.dim("nao", 1)
    ph = phase_of(c, nk)
    lead = (2,) if spin == "u" else ()
    s = "s" if spin == "u" else ""
    sk, sg = real_pair(c, ph, "ovlp", (), nk, n)
    hk, hg = real_pair(c, ph, "hcore", (), nk, n)
    vk, vg = real_pair(c, ph, "veff", lead, nk, n)
    d = c.tensor("dm", lead + (nk, n, nk, n))
    mol, cell, given = object(), object(), []

    def get_veff(cell_=None, dm_=None, *args, **kwargs):
        c.true("cell of the k-point calculation", cell_ is None or cell_ is cell)
        given.append(dm_)
        return vk
    f4 = lambda a: a.reshape(a.shape[:-2] + (nk, n, nk, n))
    kmf = c.ns(get_ovlp=lambda *a, **k: sk, get_hcore=lambda *a, **k: hk, get_veff=get_veff, mol=cell, kpts=list(range(3)), e_tot=-1.25)
    cls = fs.FoldedUHF if spin == "u" else fs.FoldedRHF
    mf = es.obj(cls, kmf=kmf, kphase=ph, mol=mol, cell=mol)
    c.true("e_tot", mf.e_tot == -3.75 and mf.ncells == 3)
    c.eq("ovlp", f4(mf.get_ovlp()), sg)
    c.eq("hcore", f4(mf.get_hcore()), hg)
    if not dm:
        c.eq("veff", f4(mf.get_veff()), vg)
        c.true("mean-field density", given == [None])
        return
    c.eq("veff(dm)", f4(mf.get_veff(mol, d.reshape(lead + (nk * n, nk * n)))), vg)
    c.true("one call", len(given) == 1)
    c.eq("unfolded density", given[0], c.einsum("kR,%sRiSj,kS->%skij" % (s, s), ph.conj(), d, ph))


# ---------------------------------------------------------------- real cells

MESH = [(3, (3, 1, 1)), (2, (2, 2, 1)), (3, (1, 1, 3)), (3, (2, 1, 2)), (3, (1, 1, 1)), (3, (1, 4, 1))]
_KMF = {}


def k_mf(spin, dim, mesh, atoms=2, scf=False):
    """Converged k-point HF with Gaussian density fitting for a small low-symmetry hydrogen cell."""
    key = (spin, dim, mesh, atoms, scf)
    if key not in _KMF:
        cell = pyscf.pbc.gto.Cell()
        cell.atom = "H 0 0 0; H 0.3 0.2 0.9" if atoms == 2 else "H 0 0 0"
        cell.a = np.array([[2.5, 0, 0], [0.2, 2.7, 0], [0, 0, 3.0 if dim == 3 else 12.0]])
        cell.basis = {"H": [[0, [1.2, 1.0]], [0, [0.4, 1.0]]]}
        cell.dimension, cell.unit, cell.verbose = dim, "Ang", 0
        cell.precision = 1e-10
        cell.build()
        kpts = cell.make_kpts(mesh)
        mf = (pyscf.pbc.scf.KUHF if spin == "u" else pyscf.pbc.scf.KRHF)(cell, kpts)
        df = pyscf.pbc.df.GDF(cell, kpts)
        df.auxbasis = {"H": [[0, [2.4, 1.0]], [0, [1.2, 1.0]], [0, [0.6, 1.0]], [1, [1.2, 1.0]]]}
        mf.with_df = df
        mf.conv_tol = 1e-11
        mf.max_cycle = 200
        mf.kernel()
        if spin == "u" and not scf:         # (different alpha and beta orbitals: one field step away from the self-consistent solution)
            f = mf.get_fock()
            rng = np.random.default_rng(5)
            n = cell.nao
            g = rng.standard_normal((n, n)) * 0.2
            v = np.asarray([g + g.T] * len(kpts))
            f = np.asarray(f)
            f[0] = f[0] + v
            mf.mo_energy, mf.mo_coeff = mf.eig(f, mf.get_ovlp())
            mf.mo_occ = mf.get_occ(mf.mo_energy, mf.mo_coeff)
        _KMF[key] = mf
    mf = copy.copy(_KMF[key])
    return mf


@contract(P, "phase", ["get_phase", "kpts_to_kmesh", "translation_vectors_for_kmesh"], sym=False, n=1, cases=product_cases(sys=[0, 1, 2, 3, 4, 5]), bounded="k-meshes of up to 4 points")
def _(c, sys):
    """Bloch phases are exp(ik.R)/sqrt(N) in the atom order of the supercell, and the mesh is recovered from the k-points."""
    dim, mesh = MESH[sys]
    cell = pyscf.pbc.gto.Cell()
    cell.atom = "H 0 0 0; H 0.3 0.2 0.9"
    cell.a = np.array([[2.5, 0, 0], [0.2, 2.7, 0], [0, 0.1 if dim == 3 else 0.0, 3.0]])
    cell.basis, cell.dimension, cell.verbose = {"H": [[0, [1.2, 1.0]]]}, dim, 0
    cell.build()
    kpts = cell.make_kpts(mesh)
    c.true("mesh", tuple(fs.kpts_to_kmesh(cell, kpts)) == tuple(mesh))
    for kw in (dict(), dict(kmesh=list(mesh))):
        sc, ph = fs.get_phase(cell, kpts, **kw)
        nk = len(kpts)
        c.eq("unitary", ph @ ph.conj().T, np.eye(nk))
        r = sc.atom_coords().reshape(nk, cell.natm, 3) - cell.atom_coords()[None]
        c.eq("atoms of one cell move together", r, np.broadcast_to(r[:, :1], r.shape))
        c.eq("phase", ph, np.exp(1j * kpts @ r[:, 0].T) / np.sqrt(nk))
        c.eq("lattice", sc.lattice_vectors(), np.asarray(mesh)[:, None] * cell.lattice_vectors())


@contract(P, "fold_scf", ["fold_scf", "FoldedRHF", "FoldedUHF", "fold_mos", "make_mo_coeff_real", "FoldedSCF"], sym=False, n=1, timeout=300,
          cases=product_cases(spin=["r", "u"], sys=[0, 1, 2, 3, 4, 5]), bounded="1-2 atom cells, k-meshes of up to 4 points, 1-3 periodic dimensions")
def _(c, spin, sys):
    """The folded mean field is the mean field of the supercell."""
    dim, mesh = MESH[sys]
    kmf = k_mf(spin, dim, mesh)
    before = {k: copy.deepcopy(getattr(kmf, k)) for k in ("mo_energy", "mo_coeff", "mo_occ", "e_tot", "verbose", "conv_tol", "exxdiv")}
    mf = vayesta.core.foldscf.fold_scf(kmf)
    nk = len(kmf.kpts)
    sc = pyscf.pbc.tools.super_cell(kmf.cell, mesh)
    sc.precision = 1e-10
    c.eq("supercell atoms", mf.mol.atom_coords(), sc.atom_coords())
    S = sc.pbc_intor("int1e_ovlp")
    c.true("ovlp", abs(mf.get_ovlp() - S).max() < 1e-7)
    F = np.asarray(mf.get_fock())
    cs, es_, os = (mf.mo_coeff, mf.mo_energy, mf.mo_occ)
    if spin == "r":
        cs, es_, os, F = [cs], [es_], [os], [F]
    kc, ke, ko = (kmf.mo_coeff, kmf.mo_energy, kmf.mo_occ) if spin == "u" else ([kmf.mo_coeff], [kmf.mo_energy], [kmf.mo_occ])
    for s in range(len(cs)):
        c.true("real orbitals", np.isrealobj(cs[s]))
        c.true("orthonormal", abs(cs[s].T @ S @ cs[s] - np.eye(len(S))).max() < 1e-6)
        c.true("sorted", np.all(np.diff(es_[s]) >= 0))
        c.eq("energies", np.sort(es_[s]), np.sort(np.hstack(ke[s])))
        c.true("electrons", abs(os[s].sum() - np.hstack(ko[s]).sum()) < 1e-10)
        d0 = np.einsum("kR,kai,ki,kbi,kS->RaSb", mf.kphase, np.asarray(kc[s]), np.asarray(ko[s]), np.asarray(kc[s]).conj(), mf.kphase.conj()).reshape(S.shape)
        c.true("density", abs((cs[s] * os[s]) @ cs[s].T - d0).max() < 1e-6)
        w0 = np.einsum("kR,kai,ki,kbi,kS->RaSb", mf.kphase, np.asarray(kc[s]), np.asarray(ke[s]), np.asarray(kc[s]).conj(), mf.kphase.conj()).reshape(S.shape)
        c.true("energy-weighted orbitals", abs((cs[s] * es_[s]) @ cs[s].T - w0).max() < 1e-6)
        if spin == "r":
            c.true("canonical", abs(cs[s].T @ F[s] @ cs[s] - np.diag(es_[s])).max() < 1e-5)
    c.true("total energy", abs(mf.e_tot - nk * kmf.e_tot) < 1e-10)
    c.true("cells", mf.ncells == nk and list(mf.subcellmesh) == list(mesh) and mf.kcell is kmf.cell)
    if spin == "r":
        e = 0.5 * np.einsum("ij,ji", mf.get_hcore() + F[0], mf.make_rdm1()) + mf.energy_nuc()
        c.true("energy of the folded density", abs(e - mf.e_tot) < 1e-5)
    # independent supercell calculation
    ref = (pyscf.pbc.scf.UHF if spin == "u" else pyscf.pbc.scf.RHF)(sc)
    df = pyscf.pbc.df.GDF(sc)
    df.auxbasis = kmf.with_df.auxbasis
    ref.with_df = df
    c.true("hcore", abs(ref.get_hcore() - mf.get_hcore()).max() < 2e-5)
    d = mf.make_rdm1()
    c.true("veff", abs(np.asarray(ref.get_veff(sc, d)) - mf.get_veff()).max() < 2e-5)
    rng = c.rng
    dd = np.asarray([(lambda x: x + x.T)(rng.standard_normal(S.shape)) for _ in range(len(cs))])
    dk = np.asarray([fs.bvk2k_2d(x, mf.kphase) for x in dd])
    dd = np.asarray([fs.k2bvk_2d(x, mf.kphase) for x in dk])       # translation-invariant density
    dd = dd[0] if spin == "r" else dd
    c.true("veff of another density", abs(np.asarray(ref.get_veff(sc, dd)) - mf.get_veff(mf.mol, dd)).max() < 2e-4)
    # the k-point object of the caller is left alone
    for k, v in dict(conv_tol=1e-3, conv_tol_grad=1e-2, verbose=1, exxdiv=None, max_memory=123.0, converged=False).items():
        c.true("inherited " + k, getattr(mf, k) == getattr(kmf, k))
        setattr(mf, k, v)
        c.true("set " + k, getattr(mf, k) == v and getattr(mf.kmf, k) == v)
    mf.e_tot = 0.5 * nk
    c.true("set energy", abs(mf.e_tot - 0.5 * nk) < 1e-12 and abs(mf.kmf.e_tot - 0.5) < 1e-12)
    for k, v in before.items():
        x = getattr(kmf, k)
        c.true("unchanged " + k, all(np.array_equal(a, b) for a, b in zip(x, v)) if isinstance(v, (list, tuple)) else np.array_equal(x, v))


@contract(P, "fold_rejects", ["fold_scf", "k2bvk_2d", "FoldedSCF.__init__"], sym=False, n=1, bounded="sampled")
def _(c):
    """What cannot be folded is refused."""
    rng = c.rng
    dim, mesh = MESH[0]
    kmf = k_mf("r", dim, mesh)
    c.raises("not a k-point object", NotImplementedError, lambda: fs.fold_scf(pyscf.pbc.scf.RHF(kmf.cell)))
    c.raises("shifted", NotImplementedError, lambda: fs.fold_scf(kmf, kpt=np.array([0.1, 0, 0])))
    ph = fs.get_phase(kmf.cell, kmf.kpts)[1]
    a = rng.standard_normal((3, 4, 4)) + 1j * rng.standard_normal((3, 4, 4))
    c.raises("imaginary", fs.ImaginaryPartError, lambda: fs.k2bvk_2d(a, ph))
    g = fs.k2bvk_2d(a, ph, make_real=False)
    c.eq("complex", g.reshape(3, 4, 3, 4), np.einsum("kR,kij,kS->RiSj", ph, a, ph.conj()))
    bad = [x.copy() for x in kmf.mo_coeff]
    bad[0][:, 0] *= 1.01
    S = fs.k2bvk_2d(np.asarray(kmf.get_ovlp()), ph)
    c.raises("not orthonormal", Exception, lambda: fs.fold_mos(kmf.mo_energy, bad, kmf.mo_occ, ph, S))


@contract(P, "fold_mos", ["fold_mos", "make_mo_coeff_real"], sym=False, n=3, bounded="random orbitals with time-reversal symmetry, up to 5 k-points, different numbers of orbitals, degenerate energies")
def _(c):
    """Folding orbitals keeps the density and energy-weighted density of the k-point orbitals, whatever the number of orbitals per k-point."""
    rng = c.rng
    nk, n = int(rng.integers(1, 6)), int(rng.integers(2, 5))
    r = np.arange(nk)
    ph = np.exp(2j * np.pi * np.outer(r, r) / nk) / np.sqrt(nk)
    sk, ck, ek, ok = [None] * nk, [None] * nk, [None] * nk, [None] * nk
    for k in range(nk):
        m = (-k) % nk
        if m < k:
            sk[k], ck[k], ek[k], ok[k] = sk[m].conj(), ck[m].conj(), ek[m], ok[m]
            continue
        a = rng.standard_normal((n, n)) * 0.2 + (1j * rng.standard_normal((n, n)) * 0.2 if m != k else 0)
        sk[k] = a @ a.conj().T + np.eye(n)
        x = np.linalg.inv(np.linalg.cholesky(sk[k])).conj().T
        h = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if m != k else 0)
        e, u = np.linalg.eigh(h + h.conj().T)
        keep = n - int(rng.integers(0, 2))
        ck[k], ek[k] = (x @ u)[:, :keep], e[:keep] + 0.0
        ok[k] = 2.0 * (ek[k] < 0)
    S = np.einsum("kR,kij,kS->RiSj", ph, np.asarray(sk), ph.conj()).reshape(nk * n, nk * n).real
    e, C, o = fs.fold_mos(ek, ck, ok, ph, S)
    c.eq("energies", e, np.sort(np.hstack(ek)))
    c.eq("orthonormal", C.T @ S @ C, np.eye(len(e)), )
    for f, w in (("occupation", lambda k: ok[k]), ("energy", lambda k: ek[k]), ("one", lambda k: np.ones(len(ek[k])))):
        ref = sum(np.einsum("R,ai,i,bi,S->RaSb", ph[k], ck[k], w(k), ck[k].conj(), ph[k].conj()) for k in range(nk)).reshape(S.shape)
        got = {"occupation": o, "energy": e, "one": np.ones(len(e))}[f]
        c.true(f, abs((C * got) @ C.T - ref).max() < 1e-7)
    e2, C2, o2 = fs.fold_mos(ek, ck, ok, ph, S, make_real=False, sort=False)
    c.eq("unsorted energies", e2, np.hstack(ek))
    c.eq("unsorted occupation", o2, np.hstack(ok))
    c.eq("unsorted orbitals", C2, np.hstack([np.einsum("R,ai->Rai", ph[k], ck[k]).reshape(nk * n, -1) for k in range(nk)]))
