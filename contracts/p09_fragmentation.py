"""P09: fragment spaces partition the orbital space, and belong to the atoms or orbitals they were asked for."""
import numpy as np
import scipy.linalg
import pyscf.gto
import pyscf.lo
import pyscf.scf

from engine.core import contract, product_cases, Skip
from vayesta.core.qemb import fragment as qf, ufragment as quf
from vayesta.core.fragmentation import iao as iao_, fragmentation as fr_, ufragmentation as ufr_
from .common import *
from . import lab
from . import embstub as es

P = "P09"
S1 = [((1, 0), 1)]


# ---------------------------------------------------------------- deductive

@contract(P, "nelectron", ["Fragment.nelectron", "UFragment.nelectron", "Fragment.get_mo_occupation", "UFragment.get_mo_occupation"],
          cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    """Electron number and occupations are those of the mean-field density matrix in the fragment orbitals."""
    nao = c.dim("nao", max=6)
    S = c.spd("S", nao)
    E = c.einsum
    if spin == "r":
        F, D = c.tensor("F", (nao, c.dim("f"))), c.tensor("D", (nao, nao), sym=S1)
        X = c.tensor("X", (nao, c.dim("x")))
        self = es.obj(qf.Fragment, c_frag=F, base=c.ns(get_ovlp=lambda: S), mf=c.ns(make_rdm1=lambda: D, get_ovlp=lambda: S), log=c.log)
        c.eq("nelectron", self.nelectron, E("ij,ij->", F.T @ S @ D @ S @ F, c.eye(F.shape[1])))
        c.eq("occupation", self.get_mo_occupation(X), E("ai,ab,bc,cd,di->i", X, S, D, S, X))
        D2 = c.tensor("D2", (nao, nao), sym=S1)
        c.eq("occupation(dm1)", self.get_mo_occupation(X, dm1=D2), E("ai,ab,bc,cd,di->i", X, S, D2, S, X))
        Y = c.tensor("Y", (nao, c.dim("y")))
        c.eq("occupation(stack)", self.get_mo_occupation(X, Y), E("ai,ab,bc,cd,di->i", c.np.hstack((X, Y)), S, D, S, c.np.hstack((X, Y))))
        return
    F = tuple(c.tensor("F" + s, (nao, c.dim("f" + s))) for s in "ab")
    D = tuple(c.tensor("D" + s, (nao, nao), sym=S1) for s in "ab")
    X = tuple(c.tensor("X" + s, (nao, c.dim("x" + s))) for s in "ab")
    self = es.obj(quf.UFragment, c_frag=F, base=c.ns(get_ovlp=lambda: S), mf=c.ns(make_rdm1=lambda: D, get_ovlp=lambda: S), log=c.log)
    ne, occ = self.nelectron, self.get_mo_occupation(X)
    for s in range(2):
        c.eq("nelectron%d" % s, ne[s], E("ij,ij->", F[s].T @ S @ D[s] @ S @ F[s], c.eye(F[s].shape[1])))
        c.eq("occupation%d" % s, occ[s], E("ai,ab,bc,cd,di->i", X[s], S, D[s], S, X[s]))


@contract(P, "mf_energy", ["Fragment.get_fragment_mf_energy", "UFragment.get_fragment_mf_energy"], cases=product_cases(spin=["r", "u"]),
          sym=False, n=3, bounded="3 fragments, up to 6 orbitals")
def _(c, spin):
    """Fragment mean-field energies over a complete partition add up to the mean-field energy, and each is the projected part."""
    mf = lab.make_mf(spin, {"r": 6, "u": 5}[spin], seed=int(c.rng.integers(1 << 30)))
    emb = lab.make_ewf(mf, None, frag="sao", bath="dmet", kernel=False)
    c.eq("sum", sum(f.get_fragment_mf_energy() for f in emb.fragments), mf.energy_elec()[0])
    h, v, dm, S = mf.get_hcore(), mf.get_veff(mf.mol, mf.make_rdm1()), mf.make_rdm1(), mf.get_ovlp()
    for f in emb.fragments:
        cf = f.c_frag if spin == "u" else (f.c_frag,)
        e = 0
        for s, x in enumerate(cf):
            vs, ds = (v[s], dm[s]) if spin == "u" else (v, dm)
            e += np.trace(x @ x.T @ S @ ds @ (h + vs / 2))
        c.eq("fragment", f.get_fragment_mf_energy(), e)


KEYS = ["mo|cluster", "cluster|mo", "cluster|frag", "frag|cluster[occ]", "mo[occ]|cluster[occ]", "mo[vir]|cluster[vir]", "cluster[vir]|frag",
        "proj|cluster[occ]", "mo[occ]|frag", "mo|frag|mo", "cluster|frag|cluster", "Cluster[occ] | Frag", "cluster[occ]|cluster[vir]",
        "cluster[occ]|proj|cluster[occ]"]


@contract(P, "overlap", ["Fragment.get_overlap", "Fragment._csc_dot", "UFragment._csc_dot"], cases=product_cases(spin=["r", "u"], key=KEYS))
def _(c, spin, key):
    nao = c.dim("nao", max=6)
    S = c.spd("S", nao)
    sp = [""] if spin == "r" else ["a", "b"]
    T = {}
    for s in sp:
        for n in ("moocc", "movir", "clusterocc", "clustervir", "frag", "proj"):
            T[n, s] = c.tensor(n + s, (nao, c.dim("n" + n + s, max=3)))
        for n in ("mo", "cluster"):
            T[n, s] = c.np.hstack((T[n + "occ", s], T[n + "vir", s]))
    g = lambda n: T[n, ""] if spin == "r" else tuple(T[n, s] for s in sp)
    base = c.ns(get_ovlp=lambda: S, mo_coeff=g("mo"), mo_coeff_occ=g("moocc"), mo_coeff_vir=g("movir"))
    cl = c.ns(c_active=g("cluster"), c_active_occ=g("clusterocc"), c_active_vir=g("clustervir"))
    f = es.obj(qf.Fragment if spin == "r" else quf.UFragment, base=base, cluster=cl, c_frag=g("frag"), c_proj=g("proj"), log=c.log)
    got = f.get_overlap(key)
    names = [x.strip().lower().replace("[", "").replace("]", "") for x in key.split("|")]
    for i, s in enumerate(sp):
        ref = T[names[0], s].T @ S @ T[names[1], s]
        if len(names) == 3:
            ref = ref @ (T[names[1], s].T @ S @ T[names[2], s])
        c.eq("overlap" + s, got if spin == "r" else got[i], ref)


@contract(P, "iao_nelectron", ["IAO_Fragmentation.check_nelectron"])
def _(c):
    nao, n = c.dim("nao", max=6), c.dim("n")
    S, C = c.spd("S", nao), c.tensor("C", (nao, n))
    occ, X = c.tensor("occ", (n,)), c.tensor("X", (nao, c.dim("x")))
    self = es.obj(iao_.IAO_Fragmentation, get_ovlp=lambda: S, log=c.log, ovlp=S)
    got = self.check_nelectron(X, C, occ)
    c.eq("ne", got, c.einsum("ax,ab,bi,i,ci,cd,dx->", X, S, C, occ, C, S, X))


# ---------------------------------------------------------------- laboratory

BND = "hydrogen clusters of up to 6 atoms, sto-3g and 6-31g, random atom partitions and reference orbitals"


def system(c, spin, basis="6-31g", natom=None, canonical=None):
    natom = natom or {"r": 4, "u": 5}[spin]
    geo = "; ".join("H %.6f %.6f %.6f" % tuple(x) for x in np.array([[float(t) for t in a.split()[1:]] for a in lab.GEO[natom].split(";")])
                    + 0.08 * c.rng.normal(size=(natom, 3)))
    can = bool(c.rng.integers(2)) if canonical is None else canonical
    return lab.make_mf(spin, natom, basis=basis, canonical=can, seed=int(c.rng.integers(1 << 30)), geo=geo)


def random_split(rng, n):
    k = int(rng.integers(1, n + 1))
    lab_ = rng.permutation(np.concatenate((np.arange(k), rng.integers(0, k, size=n - k))))
    return [[int(i) for i in np.nonzero(lab_ == j)[0]] for j in range(k)]


def emb_of(mf):
    import vayesta.ewf
    return vayesta.ewf.EWF(mf, solver="CCSD", bath_options=dict(bathtype="dmet"))


def lowdin(C, S):
    m = C.T @ S @ C
    e, v = np.linalg.eigh(m)
    return C @ (v / np.sqrt(e)) @ v.T


def reference(mf, kind):
    """Per spin: orthonormal localised orbitals with (atom, shell) of each (None: no atom)."""
    mol, S = mf.mol, mf.get_ovlp()
    coeffs = [mf.mo_coeff] if lab.is_r(mf) else list(mf.mo_coeff)
    occs = [mf.mo_occ] if lab.is_r(mf) else list(mf.mo_occ)
    aol = mol.ao_labels(None)
    out = []
    for C, occ in zip(coeffs, occs):
        if kind in ("sao", "site"):
            out.append((lowdin(np.eye(mol.nao), S), [(l[0], l[2] + l[3]) for l in aol]))
            continue
        X = lowdin(pyscf.lo.iao.iao(mol, C[:, occ > 0], minao=iao_.get_default_minao(mol.basis)), S)
        ref = pyscf.lo.iao.reference_mol(mol, minao=iao_.get_default_minao(mol.basis))
        real = [i for i in range(mol.natm) if not mol.atom_symbol(i).lower().startswith("ghost")]
        lb = [(real[l[0]], l[2] + l[3]) for l in ref.ao_labels(None)]
        if kind == "iaopao":
            ryd = [i for i, l in enumerate(aol) if (l[0], l[2] + l[3]) not in lb]
            Y = np.eye(mol.nao)[:, ryd]
            Y = Y - X @ X.T @ S @ Y
            X = np.hstack((X, lowdin(Y, S))) if ryd else X
            lb = lb + [(aol[i][0], aol[i][2] + aol[i][3]) for i in ryd]
        out.append((X, lb))
    return out


def span_eq(c, label, A, B, S):
    """Same (orthonormal) space."""
    c.eq(label, A @ A.T, B @ B.T)


def per_spin(x, n):
    return [x] if n == 1 else list(x)


def check_space(c, mf, f, kind, want, label):
    ref = reference(mf, kind)
    S = mf.get_ovlp()
    for s, (X, lb) in enumerate(ref):
        idx = [i for i, l in enumerate(lb) if want(l)]
        cf, ce = per_spin(f.c_frag, len(ref))[s], per_spin(f.c_env, len(ref))[s]
        c.true(label + " number of orbitals", cf.shape[-1] == len(idx))
        span_eq(c, label + " space", cf, X[:, idx], S)
        # individual orbitals, up to phase and order
        ov = abs(cf.T @ S @ X[:, idx])
        c.true(label + " orbitals", bool(np.allclose(np.sort(ov, axis=0)[:-1], 0, atol=1e-6) and np.allclose(ov.max(axis=0), 1, atol=1e-6)))
        full = np.hstack((cf, ce))
        c.true(label + " environment size", full.shape[-1] == X.shape[0])
        c.eq(label + " complement", full.T @ S @ full, np.eye(full.shape[-1]))


@contract(P, "partition", ["SAO_Fragmentation.get_coeff", "IAO_Fragmentation.get_coeff", "IAOPAO_Fragmentation.get_coeff", "IAO_Fragmentation.get_virtual_coeff",
                           "IAOPAO_Fragmentation.get_pao_coeff", "Fragmentation.symmetric_orth", "Fragmentation.get_frag_coeff", "Fragmentation.get_env_coeff",
                           "Fragmentation_UHF.get_frag_coeff", "Fragmentation_UHF.get_env_coeff", "IAO_Fragmentation_UHF.get_coeff",
                           "IAOPAO_Fragmentation_UHF.get_coeff", "Fragmentation.add_atomic_fragment"],
          cases=product_cases(spin=["r", "u"], kind=["sao", "iao", "iaopao", "site"], basis=["6-31g", "sto-3g"]), sym=False, n=2, nthorough=12, tol=1e-6, bounded=BND)
def _(c, spin, kind, basis):
    """Fragments of a random partition of the atoms: orthonormal, each spanned by the orbitals of its own atoms, with the
    remaining space as environment; projectors add up to one and electron numbers to the total."""
    mf = system(c, spin, basis)
    emb = emb_of(mf)
    split = random_split(c.rng, mf.mol.natm)
    with getattr(emb, kind + "_fragmentation")() as f:
        for a in split:
            f.add_atomic_fragment(a if c.rng.integers(2) or len(a) > 1 else a[0])
    S, ns = mf.get_ovlp(), 1 if spin == "r" else 2
    c.true("number of fragments", len(emb.fragments) == len(split))
    for f, a in zip(emb.fragments, split):
        c.true("atoms", list(f.atoms) == list(a))
        check_space(c, mf, f, kind, lambda l: l[0] in a, "fragment")
    C, occ = per_spin(mf.mo_coeff, ns), per_spin(mf.mo_occ, ns)
    for s in range(ns):
        Co = C[s][:, occ[s] > 0]
        one = sum(Co.T @ S @ x @ x.T @ S @ Co for x in [per_spin(f.c_frag, ns)[s] for f in emb.fragments])
        c.eq("occupied projectors sum to one", one, np.eye(Co.shape[-1]))
        if kind != "iao":
            one = sum(C[s].T @ S @ x @ x.T @ S @ C[s] for x in [per_spin(f.c_frag, ns)[s] for f in emb.fragments])
            c.eq("projectors sum to one", one, np.eye(C[s].shape[-1]))
        c.eq("electrons", sum(per_spin(f.nelectron, ns)[s] for f in emb.fragments), float(occ[s].sum()))
    p = [f.get_fragment_projector(mf.mo_coeff) for f in emb.fragments]
    for x in p:
        for y in per_spin(x, ns):
            c.eq("idempotent", y @ y, y)


@contract(P, "flags", ["Embedding._check_fragmentation", "Embedding.has_orthonormal_fragmentation", "Embedding.has_complete_fragmentation",
                       "Embedding.has_complete_occupied_fragmentation", "Embedding.has_complete_virtual_fragmentation"],
          cases=product_cases(spin=["r", "u"], kind=["sao", "iao", "iaopao", "cas"]), sym=False, n=6, nthorough=40, bounded=BND)
def _(c, spin, kind):
    """The completeness/orthonormality reports agree with the actual fragment spaces (complete, incomplete, overlapping)."""
    mf = system(c, spin, "sto-3g" if c.rng.integers(2) else "6-31g")
    if c.rng.integers(3) == 0:     # symmetric chain: half-filled atoms
        mf = lab.make_mf(spin, 4, canonical=True, geo="H 0 0 0; H 0 0 1; H 0 0 2; H 0 0 3", mspin=0)
    emb = emb_of(mf)
    ns = 1 if spin == "r" else 2
    S = mf.get_ovlp()
    with getattr(emb, kind + "_fragmentation")() as f:
        if kind == "cas":
            n = mf.mo_coeff.shape[-1]
            for k in range(int(c.rng.integers(1, 4))):
                f.add_orbital_fragment([int(i) for i in np.nonzero(c.rng.integers(0, 2, size=n))[0]] or [0])
        else:
            for a in random_split(c.rng, mf.mol.natm):
                if c.rng.integers(5):
                    f.add_atomic_fragment(a)
            if c.rng.integers(4) == 0 or not f.fragments:
                f.add_atomic_fragment(int(c.rng.integers(mf.mol.natm)))
    C, occ = per_spin(mf.mo_coeff, ns), per_spin(mf.mo_occ, ns)
    orth = comp = co = cv = True
    for s in range(ns):
        X = np.hstack([per_spin(f.c_frag, ns)[s] for f in emb.fragments])
        orth &= bool(np.allclose(X.T @ S @ X, np.eye(X.shape[-1]), atol=1e-7))
        for o, ok in ((True, "o"), (False, "v")):
            Z = C[s][:, (occ[s] > 0) == o]
            full = np.allclose(Z.T @ S @ X @ X.T @ S @ Z, np.eye(Z.shape[-1]), atol=1e-5)
            if ok == "o":
                co &= bool(full)
            else:
                cv &= bool(full)
    c.true("orthonormal", emb.has_orthonormal_fragmentation() == orth)
    c.true("complete", emb.has_complete_fragmentation() == (orth and co and cv))
    c.true("occupied-complete", emb.has_complete_occupied_fragmentation() == (orth and co))
    c.true("virtual-complete", emb.has_complete_virtual_fragmentation() == (orth and cv))


@contract(P, "selection", ["Fragmentation.get_atom_indices_symbols", "Fragmentation.get_atomic_fragment_indices", "Fragmentation.get_orbital_indices_labels",
                           "Fragmentation.add_orbital_fragment", "Fragmentation.add_atomshell_fragment", "Fragmentation.add_all_atomic_fragments",
                           "Fragmentation.add_full_system", "Fragmentation._create_fragment", "IAO_Fragmentation.get_labels", "IAO_Fragmentation.search_labels",
                           "IAOPAO_Fragmentation.get_labels"],
          cases=product_cases(spin=["r", "u"], kind=["sao", "iao", "iaopao"], ghost=[False, True]), sym=False, n=1, nthorough=6, tol=1e-6,
          bounded="LiH with two extra H atoms and optional ghost atoms, 6-31g")
def _(c, spin, kind, ghost):
    """Orbitals selected by atom number, atom symbol, orbital label, orbital number, shell or filter are the ones of that description."""
    if ghost and kind == "iaopao":
        raise Skip()
    atoms = ["H1 0 0 1.6", "Li 0 0 0", "H 0.2 1.5 -0.3", "H 1.4 -0.1 2.3"]
    if ghost:
        atoms = [atoms[0], "ghost-H 0 2 1", atoms[1], atoms[2], "ghost-H 1 1 1", atoms[3]]
    mol = pyscf.gto.M(atom="; ".join(atoms), basis="6-31g", verbose=0, charge=0 if spin == "r" else 1, spin=0 if spin == "r" else 1)
    mf = (pyscf.scf.RHF if spin == "r" else pyscf.scf.UHF)(mol).run(conv_tol=1e-11, max_cycle=200)
    emb = emb_of(mf)
    sym = [mol.atom_symbol(i) for i in range(mol.natm)]
    li, h1 = sym.index("Li"), sym.index("H1")
    hs = [i for i in range(mol.natm) if sym[i] == "H"]
    with getattr(emb, kind + "_fragmentation")() as f:
        t = lambda fr, want, lab_: check_space(c, mf, fr, kind, want, lab_)
        t(f.add_atomic_fragment(li), lambda l: l[0] == li, "by number")
        t(f.add_atomic_fragment("Li"), lambda l: l[0] == li, "by symbol")
        t(f.add_atomic_fragment("H1"), lambda l: l[0] == h1, "by numbered symbol")
        t(f.add_atomic_fragment(["H"]), lambda l: l[0] in hs, "all of a symbol")
        t(f.add_atomic_fragment([li, hs[0]]), lambda l: l[0] in (li, hs[0]), "two atoms")
        t(f.add_atomic_fragment(li, orbital_filter="2s"), lambda l: l == (li, "2s"), "filter")
        t(f.add_atomic_fragment([li, h1], orbital_filter=["1s", "2s"]), lambda l: l[0] in (li, h1) and l[1] in ("1s", "2s"), "filters")
        t(f.add_orbital_fragment("%d Li 2s" % li), lambda l: l == (li, "2s"), "label")
        t(f.add_orbital_fragment(["%d H 1s" % hs[1], "%d Li 1s" % li]), lambda l: l in ((hs[1], "1s"), (li, "1s")), "labels")
        t(f.add_atomshell_fragment([li, hs[1]], ["1s"]), lambda l: l[0] in (li, hs[1]) and l[1] == "1s", "atom shell")
        lb = f.get_labels()
        k = [i for i, l in enumerate(lb) if l[0] == hs[1]][0]
        j = [i for i, l in enumerate(lb) if l[0] == li][-1]
        t(f.add_orbital_fragment([k, j]), lambda l: l in ((hs[1], lb[k][2] + lb[k][3]), (li, lb[j][2] + lb[j][3])), "orbital numbers")
        t(f.add_full_system(), lambda l: True, "full system")
        if not (ghost and kind == "iao"):
            new = f.add_all_atomic_fragments()
            c.true("one per atom", len(new) == mol.natm)
            for i, x in enumerate(new):
                t(x, lambda l: l[0] == i, "all atomic")
        else:
            c.raises("ghost fragment is empty", ValueError, lambda: f.add_atomic_fragment(1))
        for bad, lab_ in ((lambda: f.add_atomic_fragment("Be"), "unknown symbol"), (lambda: f.add_orbital_fragment("%d Li 9d" % li), "unknown label"),
                          (lambda: f.add_atomic_fragment(li, orbital_filter="9d"), "empty fragment"), (lambda: f.add_atomic_fragment([1.5]), "not an index")):
            c.raises(lab_, ValueError, bad)
    ids = [x.id for x in emb.fragments]
    c.true("unique IDs", len(set(ids)) == len(ids))


@contract(P, "cas", ["CAS_Fragmentation.add_cas_fragment", "CAS_Fragmentation.get_coeff", "CAS_Fragmentation.get_orbital_indices_labels", "CAS_Fragmentation_UHF.get_labels"],
          cases=product_cases(spin=["r", "u"], mspin=[0, 2]), sym=False, n=1, nthorough=4, bounded="all (orbitals, electrons) of a 6-orbital system")
def _(c, spin, mspin):
    """A complete active space of n orbitals and m electrons is what is asked for, or is refused."""
    if spin == "r" and mspin:
        raise Skip()
    mf = system(c, spin, "sto-3g", natom=6, canonical=True) if not mspin else lab.make_mf("u", 6, canonical=True, mspin=2)
    if spin == "u" and not mspin:
        mf = lab.make_mf("u", 6, canonical=True, mspin=0)
    ns = 1 if spin == "r" else 2
    occ = np.asarray(mf.mo_occ) if ns == 1 else sum(np.asarray(mf.mo_occ))
    n, S = len(occ), mf.get_ovlp()
    nocc = int(np.count_nonzero(occ))
    cum = {0: 0}
    for k in range(1, nocc + 1):
        cum[int(occ[nocc - k:nocc].sum())] = k
    gap = min(np.diff(np.sort(e)).min() for e in per_spin(mf.mo_energy, ns))
    if gap < 1e-5:
        raise Skip()
    for ncas in range(1, n + 2):
        for ne in range(1, int(occ.sum()) + 3):
            ok = ne in cum and cum[ne] <= ncas and nocc - cum[ne] + ncas <= n
            emb = emb_of(mf)
            with emb.cas_fragmentation() as f:
                if not ok:
                    c.raises("refused", (ValueError, IndexError, AssertionError), lambda: f.add_cas_fragment(ncas, ne))
                    continue
                x = f.add_cas_fragment(ncas, ne)
            lo = nocc - cum[ne]
            for s in range(ns):
                c.eq("orbitals", per_spin(x.c_frag, ns)[s], per_spin(mf.mo_coeff, ns)[s][:, lo:lo + ncas])
                rest = np.delete(per_spin(mf.mo_coeff, ns)[s], np.arange(lo, lo + ncas), axis=1)
                c.eq("environment", per_spin(x.c_env, ns)[s], rest)
            c.eq("electrons", float(np.sum(x.nelectron)), float(ne))


@contract(P, "secondary", ["Fragmentation.secondary_fragments", "Fragmentation._create_secondary_fragments", "Fragment.copy"],
          cases=product_cases(spin=["r", "u"], thr=["abs", "factor", "split"]), sym=False, n=1, nthorough=4, bounded=BND)
def _(c, spin, thr):
    """Each fragment gets a larger and a subtracted secondary fragment with the same space; contributions cancel in total."""
    import vayesta.ewf
    mf = system(c, spin)
    bo = dict(bathtype="mp2", threshold=1e-4)
    if thr == "split":
        bo.update(threshold_occ=1e-3, threshold_vir=1e-5)
    emb = vayesta.ewf.EWF(mf, bath_options=bo)
    kw = dict(bno_threshold=1e-7) if thr == "abs" else dict(bno_threshold_factor=0.01)
    ns = 1 if spin == "r" else 2
    with emb.sao_fragmentation() as f:
        f.add_atomic_fragment(list(range(3, mf.mol.natm)))
        with f.secondary_fragments(solver="MP2", **kw):
            f.add_atomic_fragment(0)
            f.add_atomic_fragment([1, 2])
    prim = [x for x in emb.fragments if not x.flags.is_secfrag]
    c.true("numbers", len(prim) == 3 and len(emb.fragments) == 7)
    ids = [x.id for x in emb.fragments]
    c.true("unique IDs", len(set(ids)) == len(ids))
    want = (lambda k: {"threshold": 1e-7}.get(k)) if thr == "abs" else (lambda k: bo[k] * 0.01 if k in bo else None)
    for x in prim:
        sec = [y for y in emb.fragments if y.flags.bath_parent_fragment_id == x.id]
        if 3 in x.atoms:
            c.true("untouched", not sec and x.flags.is_envelop)
            continue
        c.true("two secondary fragments", len(sec) == 2 and all(y.solver == "MP2" and y.flags.is_secfrag for y in sec))
        c.true("one envelop", [y.flags.is_envelop for y in [x] + sec].count(True) == 1)
        wf = [(y.opts.wf_factor if y.opts.wf_factor is not None else 1) for y in sec]
        c.true("cancelling", sum(wf) == 0 and sorted(wf) == [-1, 1])
        for y, w in zip(sec, wf):
            for s in range(ns):
                c.eq("same space", per_spin(y.c_frag, ns)[s], per_spin(x.c_frag, ns)[s])
                c.eq("same environment", per_spin(y.c_env, ns)[s], per_spin(x.c_env, ns)[s])
            c.true("atoms", list(y.atoms) == list(x.atoms))
            for k in ("threshold", "threshold_occ", "threshold_vir"):
                ref = want(k) if w > 0 else bo.get(k)
                got = y.opts.bath_options.get(k)
                c.true("%s of %+d" % (k, w), (got is None and ref is None) or (got is not None and ref is not None and abs(got - ref) < 1e-14))
            c.true("larger is the envelop", y.flags.is_envelop == (w > 0))
    c.true("complete", emb.has_complete_fragmentation())
