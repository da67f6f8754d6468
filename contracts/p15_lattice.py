"""P15: lattice models represent their Hamiltonian exactly, in every interface, and embed like molecules."""
import numpy as np
import pyscf
import pyscf.ao2mo
import pyscf.cc
import pyscf.fci
import pyscf.lib
import pyscf.scf

from engine.core import contract, product_cases, Skip
import vayesta
import vayesta.dmet
import vayesta.ewf
import vayesta.lattmod as lm
from vayesta.lattmod import latt
from . import embstub as es
from .common import *

P = "P15"
L = "vayesta.lattmod.latt"
SIZES2 = [(3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (5, 3), (4, 4), (6, 2), (1, 4), (4, 6), (2, 6), (3, 5), (5, 4)]
PHASE = {"PBC": 1, "APBC": -1, "periodic": 1, "anti-periodic": -1, "open": 0}


def sites_ref(ns, order=None):
    """(x, y) of every site, x running fastest, then reordered."""
    xy = [(x, y) for y in range(ns[1]) for x in range(ns[0])]
    return xy if order is None else [xy[k] for k in order]


def hop_ref(ns, phases, t, order=None):
    """-t for every bond of the torus (bonds across the boundary carry its phase), sites given by coordinates."""
    xy = sites_ref(ns, order)
    pos = {p: k for k, p in enumerate(xy)}
    h = np.zeros((len(xy), len(xy)))
    for (x, y), k in pos.items():
        for dx, dy in ((1, 0), (0, 1)):
            X, Y = x + dx, y + dy
            ph = (phases[0] if X >= ns[0] else 1) * (phases[1] if Y >= ns[1] else 1)
            l = pos[(X % ns[0], Y % ns[1])]
            h[k, l] -= t * ph
            h[l, k] -= t * ph
    return h


# ---------------------------------------------------------------- symbolic
@contract(P, "sym_ao2mo", ["Hubbard.ao2mo"], modules=(L,), cases=product_cases(form=["one", "four"]))
def _(c, form):
    """On-site interaction transformed to any orbitals."""
    n, u = c.dim("n"), c.scalar("u")
    mol = es.obj(latt.Hubbard, nsite=n, hubbard_u=u, v_nn=0)
    m = [c.dim("m%d" % k) for k in range(4)]
    if form == "one":
        C = [c.tensor("C", (n, m[0]))] * 4
        got = mol.ao2mo(C[0])
    else:
        C = [c.tensor("C%d" % k, (n, m[k])) for k in range(4)]
        got = mol.ao2mo(tuple(C))
    ref = u * c.einsum("ai,aj,ak,al->ijkl", *C)
    c.eq("(ij|kl)", got, ref.reshape(ref.shape[0] * ref.shape[1], ref.shape[2] * ref.shape[3]))


@contract(P, "sym_jk", ["LatticeRHF.get_jk", "LatticeUHF.get_jk"], modules=(L,), cases=product_cases(spin=["r", "u"], given=[True, False]))
def _(c, spin, given):
    """Coulomb and exchange matrices of the on-site interaction, for any density matrix."""
    n, u = c.dim("n"), c.scalar("u")
    mol = c.ns(nsite=n, hubbard_u=u, v_nn=0)
    dm = c.tensor("D", (n, n)) if spin == "r" else tuple(c.tensor("D" + x, (n, n)) for x in "ab")
    mf = es.obj(latt.LatticeRHF if spin == "r" else latt.LatticeUHF, mol=mol, make_rdm1=lambda: dm)
    j, k = mf.get_jk(mol, dm) if given else mf.get_jk()
    I = c.eye(n)
    ref = lambda d: u * d * I
    for nm, x in (("J", j), ("K", k)):
        if spin == "r":
            c.eq(nm, x, ref(dm))
        else:
            for s in range(2):
                c.eq(nm + str(s), x[s], ref(dm[s]))


# ---------------------------------------------------------------- bounded
@contract(P, "hopping1d", ["Hubbard1D.__init__", "Hubbard1D.get_index", "Hubbard1D.atom_coords", "Hubbard1D.lattice_vectors"], sym=False, n=12,
          cases=product_cases(bc=["PBC", "APBC", "auto"], order=[False, True]), bounded="rings of 3-14 sites")
def _(c, bc, order):
    rng = c.rng
    n = int(rng.integers(3, 15)) if bc != "auto" else 2 * int(rng.integers(2, 8))
    t = float(rng.normal())
    o = list(map(int, rng.permutation(n))) if order else None
    mol = lm.Hubbard1D(n, hubbard_t=t, hubbard_u=1.0, boundary=bc, order=o)
    ph = PHASE[mol.boundary]
    if bc == "auto":
        # closed shell at half filling
        c.true("boundary", ph == (1 if n % 4 == 2 else -1), str(mol.boundary))
        e = np.linalg.eigvalsh(mol.h1e)
        c.true("closed shell", e[n // 2] - e[n // 2 - 1] > 1e-6, str(e))
    c.eq("hopping", mol.h1e, hop_ref((n, 1), (ph, 0), t, o))
    x = (mol.atom_coords() @ np.linalg.inv(mol.lattice_vectors()))[:, 0] * n
    c.eq("coordinates", x, np.asarray(o if order else range(n), dtype=float))
    for i in range(-2 * n, 3 * n):
        c.true("index", mol.get_index(i) == (i % n, ph if (i // n) % 2 else 1), "%d %r" % (i, mol.get_index(i)))
    c.eq("hcore", lm.LatticeMF(mol).get_hcore(), mol.h1e)


@contract(P, "hopping2d", ["Hubbard2D.__init__", "Hubbard2D.get_index", "Hubbard2D.atom_coords", "Hubbard2D.get_tiles_order", "Hubbard2D.lattice_vectors"],
          sym=False, n=25, cases=product_cases(order=["none", "tiles", "given"]), bounded="tori of up to 30 sites")
def _(c, order):
    rng = c.rng
    ns = SIZES2[int(rng.integers(len(SIZES2)))]
    names = list(PHASE)
    bc = tuple(names[int(rng.integers(len(names)))] for _ in range(2))
    if rng.random() < 0.2:
        bc = bc[0]
    t, n = float(rng.normal()), ns[0] * ns[1]
    kw, o = {}, None
    if order == "tiles":
        div = lambda k: [d for d in range(1, k + 1) if k % d == 0]
        kw["tiles"] = tuple(int(rng.choice(div(k))) for k in ns)
        # tile by tile (x fastest), inside a tile x fastest
        a, b = kw["tiles"]
        o = [y * ns[0] + x for Y in range(0, ns[1], b) for X in range(0, ns[0], a) for y in range(Y, Y + b) for x in range(X, X + a)]
        c.eq("tiles", np.asarray(lm.Hubbard2D.get_tiles_order(ns, kw["tiles"])), np.asarray(o))
    elif order == "given":
        o = kw["order"] = list(map(int, rng.permutation(n)))
    mol = lm.Hubbard2D(ns, nelectron=n, hubbard_t=t, hubbard_u=1.0, boundary=bc, **kw)
    ph = [PHASE[x] for x in ((bc, bc) if isinstance(bc, str) else bc)]
    c.eq("hopping", mol.h1e, hop_ref(ns, ph, t, o))
    f = mol.atom_coords() @ np.linalg.inv(mol.lattice_vectors())
    c.eq("coordinates", f[:, :2] * np.asarray(ns), np.asarray(sites_ref(ns, o), dtype=float))


@contract(P, "auto2d", ["Hubbard2D.__init__"], sym=False, n=1, cases=product_cases(ns=[(4, 4), (6, 6), (8, 8), (10, 10), (4, 6), (6, 4)]), bounded="listed tori at half filling")
def _(c, ns):
    """Automatically chosen boundary conditions give a closed shell at half filling; others have to be given."""
    n = ns[0] * ns[1]
    mol = lm.Hubbard2D(ns, nelectron=n)
    e = np.linalg.eigvalsh(mol.h1e)
    c.true("closed shell", e[n // 2] - e[n // 2 - 1] > 1e-6, "")
    c.raises("doped", NotImplementedError, lambda: lm.Hubbard2D(ns, nelectron=n - 2))
    c.raises("invalid", ValueError, lambda: lm.Hubbard2D(ns, nelectron=n, boundary="nonsense"))


@contract(P, "translations", ["Hubbard1D.__init__", "Hubbard2D.__init__", "SymmetryTranslation.call_kernel"], sym=False, n=12, cases=product_cases(dim=[1, 2], order=[False, True]),
          bounded="lattices of up to 24 sites")
def _(c, dim, order):
    """The Hamiltonian is invariant under translations with the phases of the boundary, in any order of the sites."""
    from vayesta.core.symmetry import SymmetryGroup, SymmetryTranslation
    rng = c.rng
    bc = lambda: ["PBC", "APBC"][int(rng.integers(2))]
    if dim == 1:
        n = int(rng.integers(3, 13))
        mol = lm.Hubbard1D(n, hubbard_t=0.7, hubbard_u=1.0, boundary=bc(), order=list(map(int, rng.permutation(n))) if order else None)
        vec = np.asarray([int(rng.integers(0, n)) / n, 0, 0])
    else:
        ns = SIZES2[int(rng.integers(len(SIZES2)))]
        if min(ns) < 3:
            raise Skip
        mol = lm.Hubbard2D(ns, nelectron=ns[0] * ns[1], hubbard_t=0.7, boundary=(bc(), bc()), order=list(map(int, rng.permutation(ns[0] * ns[1]))) if order else None)
        vec = np.asarray([int(rng.integers(0, ns[0])) / ns[0], int(rng.integers(0, ns[1])) / ns[1], 0])
    group = SymmetryGroup(mol)
    T = SymmetryTranslation(group, vec)(np.eye(mol.nsite))
    c.eq("orthogonal", T @ T.T, np.eye(mol.nsite))
    c.eq("invariant", T @ mol.h1e @ T.T, mol.h1e)


@contract(P, "eri", ["Hubbard1D.get_eri", "Hubbard2D.get_eri", "Hubbard.ao2mo", "HubbardDF.loop", "HubbardDF.ao2mo"], sym=False, n=6,
          cases=product_cases(dim=[1, 2], v=[False, True], exclude=lambda dim, v: dim == 2 and v), bounded="rings and tori of up to 9 sites")
def _(c, dim, v):
    """Electron-repulsion integrals: on-site U, nearest neighbours v; density-fitting and transformed form agree."""
    rng = c.rng
    u, w = float(abs(rng.normal())), float(rng.normal()) if v else 0.0
    order = None
    if dim == 1:
        n = int(rng.integers(3, 8))
        order = list(map(int, rng.permutation(n))) if rng.random() < 0.5 else None
        mol = lm.Hubbard1D(n, hubbard_u=u, v_nn=w, boundary="PBC", order=order)
    else:
        mol = lm.Hubbard2D((3, 3), nelectron=8, hubbard_u=u, boundary="PBC", tiles=(3, 1) if rng.random() < 0.5 else (1, 3))
        n = 9
    ref = np.zeros(4 * [n])
    # neighbours: bonds of the hopping matrix
    nn = np.abs(mol.h1e) > 1e-9
    for i in range(n):
        ref[i, i, i, i] = u
        for j in range(n):
            if nn[i, j] and v:
                ref[i, i, j, j] = w
    eri = mol.get_eri()
    c.eq("eri", eri, ref)
    c.eq("eri with given U", mol.get_eri(hubbard_u=3.0 + u), ref + np.einsum("ij,jk,kl->ijkl", np.eye(n), np.eye(n), np.eye(n)) * 3.0)
    if v:
        c.eq("eri without v", mol.get_eri(v_nn=0), lm.Hubbard1D(n, hubbard_u=u, boundary="PBC").get_eri())
        C = rng.normal(size=(n, 3))
        c.raises("ao2mo with v", NotImplementedError, lambda: mol.ao2mo(C))
        c.raises("df with v", NotImplementedError, lambda: latt.HubbardDF(mol))
        return
    C = [rng.normal(size=(n, int(rng.integers(1, 4)))) for _ in range(4)]
    full = np.einsum("abcd,ai,bj,ck,dl->ijkl", ref, *C)
    sh = full.shape
    c.eq("ao2mo", mol.ao2mo(C).reshape(sh), full)
    df = latt.HubbardDF(mol)
    c.eq("df ao2mo", df.ao2mo(C).reshape(sh), full)
    cd = np.vstack([pyscf.lib.unpack_tril(b) for b in df.loop(blksize=2)])
    c.true("naux", cd.shape[0] == df.get_naoaux(), "")
    c.eq("df", np.einsum("Qab,Qcd->abcd", cd, cd), ref)


@contract(P, "scf", ["LatticeRHF.get_jk", "LatticeUHF.get_jk", "LatticeSCF.get_hcore", "LatticeSCF.get_ovlp", "LatticeSCF.density_fit"], sym=False, n=4,
          cases=product_cases(spin=["r", "u"], dim=[1, 2], incore=[True, False]), bounded="lattices of up to 12 sites")
def _(c, spin, dim, incore):
    """Mean field: J, K, effective potential and energies are those of the dense Hamiltonian."""
    rng = c.rng
    u = float(rng.uniform(0, 5))
    if dim == 1:
        n = int(rng.integers(3, 9))
        bc = ["PBC", "APBC"][int(rng.integers(2))]
        order = list(map(int, rng.permutation(n))) if rng.random() < 0.5 else None
        nel = 2 * int(rng.integers(1, n)) if spin == "r" else int(rng.integers(1, 2 * n))
        mol = lm.Hubbard1D(n, nelectron=nel, spin=nel % 2, hubbard_t=0.9, hubbard_u=u, boundary=bc, order=order, incore_anyway=incore)
    else:
        n, nel = 12, 2 * int(rng.integers(2, 11))
        mol = lm.Hubbard2D((3, 4), nelectron=nel, spin=0 if spin == "r" else 2, hubbard_t=0.9, hubbard_u=u, boundary=("PBC", "APBC"), tiles=(3, 2), incore_anyway=incore)
    mf = lm.LatticeRHF(mol) if spin == "r" else lm.LatticeUHF(mol)
    dm = rng.normal(size=(n, n)) if spin == "r" else rng.normal(size=(2, n, n))
    dm = dm + np.swapaxes(dm, -1, -2)
    eri = mol.get_eri()
    J, K = np.tensordot(dm, eri, axes=((-2, -1), (2, 3))), np.tensordot(dm, eri, axes=((-2, -1), (1, 2)))
    j, k = mf.get_jk(mol, dm)
    c.eq("J", np.asarray(j), J)
    c.eq("K", np.asarray(k), K)
    veff = J - K / 2 if spin == "r" else J[0] + J[1] - K
    h, s = mol.h1e, np.eye(n)
    c.eq("hcore", mf.get_hcore(), h)
    c.eq("overlap", mf.get_ovlp(), s)
    c.eq("veff", np.asarray(mf.get_veff(mol, dm)), veff)
    e = (h * dm).sum() + (veff * dm).sum() / 2
    c.eq("energy", mf.energy_tot(dm), e)
    g = np.asarray(mf.get_init_guess())
    c.true("electrons of guess", spin == "u" or abs(np.trace(g) - nel) < 1e-9, "")
    c.true("electrons", tuple(mol.nelec) == ((nel + mol.spin) // 2, (nel - mol.spin) // 2), str(mol.nelec))
    mf.conv_tol = 1e-11
    mf.kernel()
    if not mf.converged:
        raise Skip
    # a reference SCF solution of the dense Hamiltonian
    m = pyscf.gto.M(verbose=0)
    m.nelectron, m.spin, m.incore_anyway, m.nao = nel, mol.spin, True, n
    ref = pyscf.scf.RHF(m) if spin == "r" else pyscf.scf.UHF(m)
    ref.get_hcore, ref.get_ovlp, ref._eri = (lambda *a: h), (lambda *a: s), pyscf.ao2mo.restore(8, eri, n)
    d1 = mf.make_rdm1()
    c.eq("total energy", mf.e_tot, ref.energy_tot(d1), )
    f = np.asarray(ref.get_fock(dm=d1))
    d2 = d1 / 2 if spin == "r" else d1
    c.true("stationary", np.abs(f @ d2 - d2 @ f).max() < 1e-3, "")


@contract(P, "embedding", ["EWF.kernel", "DMET.kernel", "Site_Fragmentation"], sym=False, n=1, timeout=400,
          cases=product_cases(method=["ccsd", "fci", "dmet"], spin=["r", "u"], incore=[True, False], exclude=lambda method, spin, incore: (method == "dmet" and spin == "u") or (spin == "u" and not incore)),
          bounded="rings of 6 sites, complete baths")
def _(c, method, spin, incore):
    """Embedding lattice models: complete bath spaces give the exact solver result for any partition of the sites."""
    rng = c.rng
    n, u = 6, float(rng.uniform(0.5, 4))
    order = list(map(int, rng.permutation(n)))
    mol = lm.Hubbard1D(n, hubbard_u=u, order=order, incore_anyway=incore)
    mf = lm.LatticeMF(mol) if spin == "r" else lm.LatticeUHF(mol)
    mf.conv_tol = 1e-12
    mf.kernel()
    cuts = [[0, 1, 2], [3, 5], [4]]
    if method == "dmet":
        emb = vayesta.dmet.DMET(mf, solver="FCI", maxiter=1, charge_consistent=False, bath_options=dict(bathtype="full"))
    else:
        opts = dict(conv_tol=1e-11, conv_tol_normt=1e-9) if method == "ccsd" else dict(conv_tol=1e-13)
        emb = vayesta.ewf.EWF(mf, solver=method.upper(), bath_options=dict(bathtype="full"), solver_options=opts)
    with emb.site_fragmentation() as f:
        for s in cuts:
            f.add_atomic_fragment(s)
    for x, s in zip(emb.fragments, cuts):
        ref = np.zeros((n, len(s)))
        ref[s, range(len(s))] = 1
        cf = x.c_frag if spin == "r" else x.c_frag[0]
        c.eq("fragment orbitals", cf @ cf.T, ref @ ref.T)
    emb.kernel()
    h1, eri = mol.h1e, mol.get_eri()
    if method == "ccsd":
        m = pyscf.gto.M(verbose=0)
        m.nelectron, m.spin, m.incore_anyway, m.nao = n, 0, True, n
        ref = pyscf.scf.RHF(m) if spin == "r" else pyscf.scf.UHF(m)
        ref.get_hcore, ref.get_ovlp, ref._eri = (lambda *a: h1), (lambda *a: np.eye(n)), pyscf.ao2mo.restore(8, eri, n)
        ref.mo_coeff, ref.mo_occ, ref.mo_energy = mf.mo_coeff, mf.mo_occ, mf.mo_energy
        ref.e_tot, ref.converged = mf.e_tot, True
        cc = pyscf.cc.CCSD(ref) if spin == "r" else pyscf.cc.UCCSD(ref)
        cc.conv_tol, cc.conv_tol_normt = 1e-11, 1e-9
        cc.kernel()
        e = cc.e_tot
    else:
        e = pyscf.fci.direct_spin1.kernel(h1, eri, n, (3, 3), conv_tol=1e-13)[0]
    c.true("energy", abs(emb.e_tot - e) < 1e-6, "%r %r" % (emb.e_tot, e))
    if method == "fci":
        c.true("partitioned energy", abs(emb.get_dmet_energy() - e) < 1e-6, "%r %r" % (emb.get_dmet_energy(), e))


@contract(P, "labels", ["LatticeMole.ao_labels", "LatticeMole.atom_symbol", "Hubbard.aoslice_by_atom"], sym=False, n=2, bounded="rings of 3-8 sites")
def _(c):
    """One function per site, labelled by its site."""
    n = int(c.rng.integers(3, 9))
    mol = lm.Hubbard1D(n, boundary="PBC")
    c.true("natm", mol.natm == n and mol.nao_nr() == n, "")
    sl = mol.aoslice_by_atom()
    c.eq("slices", np.asarray([sl[:, 2], sl[:, 3]]), np.asarray([np.arange(n), np.arange(n) + 1]))
    c.true("labels", len(set(mol.ao_labels())) == n and [x[0] for x in mol.ao_labels(fmt=None)] == list(range(n)), str(mol.ao_labels()))
    c.true("symbols", len({mol.atom_symbol(i) for i in range(n)}) == n, "")


@contract(P, "bethe", ["hubbard1d_bethe_energy", "hubbard1d_bethe_docc", "hubbard1d_bethe_docc_numdiff"], sym=False, n=4, bounded="U/t between 1 and 12")
def _(c):
    """Exact energy per site: Lieb-Wu integral by independent quadrature; double occupancy is its U-derivative."""
    from vayesta.lattmod import bethe
    import scipy.special
    t, u = float(c.rng.uniform(0.5, 2)), float(c.rng.uniform(1, 12))
    x, dx = np.linspace(1e-9, 120 * t / u + 40, 400001, retstep=True)

    def f(uu):
        y = -4 * t * scipy.special.jv(0, x) * scipy.special.jv(1, x) / (x * (1 + np.exp(np.minimum(x * uu / (2 * t), 600))))
        w = np.ones_like(x)
        w[1:-1:2], w[2:-1:2] = 4, 2
        return (w * y).sum() * dx / 3
    c.true("energy", abs(bethe.hubbard1d_bethe_energy(t, u) - f(u)) < 1e-6, "%r %r" % (bethe.hubbard1d_bethe_energy(t, u), f(u)))
    d = (f(u + 1e-3) - f(u - 1e-3)) / 2e-3
    c.true("docc", abs(bethe.hubbard1d_bethe_docc(t, u) - d) < 1e-6, "%r %r" % (bethe.hubbard1d_bethe_docc(t, u), d))
    for order in (1, 2):
        y = bethe.hubbard1d_bethe_docc_numdiff(t, u, du=1e-4, order=order)
        c.true("docc numdiff", abs(y - d) < 1e-4, "%r %r" % (y, d))
