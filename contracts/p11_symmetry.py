"""P11: symmetry operations and symmetry-derived fragments."""
import itertools

import numpy as np
import pyscf
import pyscf.gto
import pyscf.pbc.gto
import pyscf.pbc.tools
import pyscf.scf
import scipy.spatial.transform

from engine.core import contract, product_cases, Skip
import vayesta
import vayesta.ewf
import vayesta.dmet
from vayesta.core.symmetry import SymmetryGroup, SymmetryIdentity, SymmetryInversion, SymmetryReflection, SymmetryRotation, SymmetryTranslation
from vayesta.core.symmetry import tsymmetry as ts
from . import lab
from . import embstub as es
from .common import *

P = "P11"

BAS = {"H": [[0, [1.2, 1.0]], [1, [0.8, 1.0]]],
       "He": [[0, [1.5, 0.5, 0.3], [0.4, 0.2, 1.0]], [1, [0.9, 1, 0.2], [0.3, -0.3, 1]], [2, [0.8, 1.0]], [3, [0.7, 1.0]], [4, [0.7, 1]]]}
ROT = scipy.spatial.transform.Rotation


def matrices(kind, ax, order):
    if kind == "rotation":
        return [ROT.from_rotvec(2 * np.pi * k / order * ax).as_matrix() for k in range(order)]
    if kind == "inversion":
        return [np.eye(3), -np.eye(3)]
    return [np.eye(3), np.eye(3) - 2 * np.outer(ax, ax)]


def random_mol(rng, kind, cart):
    """Molecule invariant under a rotation about a random axis, an inversion or a reflection, with atoms in random order."""
    cen, ax = rng.standard_normal(3), rng.standard_normal(3)
    ax /= np.linalg.norm(ax)
    order = int(rng.integers(2, 6)) if kind == "rotation" else 2
    ms = matrices(kind, ax, order)
    atoms = []
    for el in ("H", "He"):
        r = rng.standard_normal(3) * 1.5
        atoms += [(el, m @ r + cen) for m in ms]
    if rng.random() < 0.5:
        atoms.append(("He", cen))
    atoms = [atoms[i] for i in rng.permutation(len(atoms))]
    return pyscf.gto.M(atom=atoms, unit="B", basis=BAS, verbose=0, cart=cart, spin=None), cen, ax, order, ms


def make_op(kind, group, ax, cen, order, k):
    if kind == "rotation":
        return SymmetryRotation(group, 2 * np.pi * k / order * ax, center=cen)
    if kind == "inversion":
        return SymmetryInversion(group, center=cen)
    return SymmetryReflection(group, ax * 1.7, center=cen)


@contract(P, "point_ops", ["SymmetryRotation", "SymmetryInversion", "SymmetryReflection", "rotate_angular_orbitals", "get_atom_reorder", "get_ao_reorder", "call_wrapper"],
          sym=False, n=4, cases=product_cases(kind=["rotation", "inversion", "reflection"], cart=[False, True]),
          bounded="random molecules of up to 11 atoms with s, p, d, f, g shells and contractions, random axes of order 2-5")
def _(c, kind, cart):
    """The image of an orbital takes, at the image of any point, the value of the orbital at that point."""
    rng = c.rng
    mol, cen, ax, order, ms = random_mol(rng, kind, cart)
    k = int(rng.integers(1, order))
    group = SymmetryGroup(mol)
    op = make_op(kind, group, ax, cen, order, k)
    pts = rng.standard_normal((9, 3)) * 2
    img = (pts - cen) @ ms[k].T + cen
    c.eq("points", np.array([op.apply_to_point(p) for p in pts]), img)
    if kind != "inversion":
        c.eq("matrix", op.as_matrix(), ms[k])
    C = rng.standard_normal((mol.nao, 3))
    keep = C.copy()
    v = mol.eval_gto("GTOval", pts) @ C
    c.eq("orbitals", mol.eval_gto("GTOval", img) @ op(C), v)
    c.true("input unchanged", np.array_equal(C, keep))
    c.eq("vector", op(C[:, 0]), op(C)[:, 0])
    two = op((C, C[:, :1]))
    c.true("tuple", isinstance(two, tuple) and len(two) == 2)
    c.eq("alpha", two[0], op(C))
    c.eq("beta", two[1], op(C)[:, :1])
    c.eq("other axis", op(C.T, axis=1), op(C).T)
    T = op(np.eye(mol.nao))
    M = rng.standard_normal((mol.nao, mol.nao))
    c.eq("both axes", op(M, axis=(0, 1)), T @ M @ T.T)
    t3 = rng.standard_normal((2, mol.nao, 3))
    c.eq("middle axis", op(t3, axis=1), np.einsum("ab,xbi->xai", T, t3))
    S = mol.intor("int1e_ovlp")
    c.eq("overlap invariant", T.T @ S @ T, S)
    h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
    c.eq("core hamiltonian invariant", T.T @ h @ T, h)
    # atoms: reorder[image of a] = a
    re, inv = op.get_atom_reorder()
    xyz = mol.atom_coords()
    for a in range(mol.natm):
        c.true("atom map", np.linalg.norm((xyz[a] - cen) @ ms[k].T + cen - xyz[inv[a]]) < 1e-7 and re[inv[a]] == a)
    if kind == "rotation":
        x = C
        for _ in range(order):
            x = op(x)
        c.eq("order", x, C)
    else:
        c.eq("involution", op(op(C)), C)
    i = SymmetryIdentity(group)
    c.eq("identity", i(C), C)
    c.eq("identity point", i.apply_to_point(pts[0]), pts[0])


@contract(P, "not_symmetric", ["SymmetryOperation.get_atom_reorder", "SymmetryGroup.compare_atoms", "SymmetryGroup.get_closest_atom"], sym=False, n=3, cases=product_cases(kind=["rotation", "inversion", "reflection"]),
          bounded="random molecules of up to 11 atoms")
def _(c, kind):
    """Molecules which are not symmetric, because of a position, an element or a basis set, are refused."""
    rng = c.rng
    mol, cen, ax, order, ms = random_mol(rng, kind, False)
    k = int(rng.integers(1, order))
    atoms = [[mol.atom_pure_symbol(i), mol.atom_coord(i)] for i in range(mol.natm)]
    j = next(i for i in range(mol.natm) if np.linalg.norm(mol.atom_coord(i) - cen) > 1e-3)
    make = lambda at, basis=BAS: pyscf.gto.M(atom=at, unit="B", basis=basis, verbose=0, spin=None)
    moved = [list(a) for a in atoms]
    moved[j][1] = moved[j][1] + 1e-3 * rng.standard_normal(3)
    c.raises("moved atom", RuntimeError, lambda: make_op(kind, SymmetryGroup(make(moved)), ax, cen, order, k))
    make_op(kind, SymmetryGroup(make(moved), xtol=1e-1), ax, cen, order, k)
    other = [list(a) for a in atoms]
    other[j][0] = "Li"
    c.raises("element", RuntimeError, lambda: make_op(kind, SymmetryGroup(make(other, dict(BAS, Li=BAS["H"]))), ax, cen, order, k))
    lab_ = [list(a) for a in atoms]
    lab_[j][0] = lab_[j][0] + "9"
    b = dict(BAS)
    b[lab_[j][0]] = [[0, [0.9, 1.0]]]
    c.raises("basis", RuntimeError, lambda: make_op(kind, SymmetryGroup(make(lab_, b)), ax, cen, order, k))
    b[lab_[j][0]] = BAS[atoms[j][0]]
    m = make(lab_, b)
    make_op(kind, SymmetryGroup(m), ax, cen, order, k)
    c.raises("label", RuntimeError, lambda: make_op(kind, SymmetryGroup(m, check_label=True), ax, cen, order, k))


# ---------------------------------------------------------------- translations

def supercell(rng, dim):
    mesh = [int(x) for x in rng.integers(1, 4, size=3)]
    for d in range(dim, 3):
        mesh[d] = 1
    if rng.random() < 0.3:
        mesh[0] = 4
    cell = pyscf.pbc.gto.Cell()
    cell.atom = [("H", rng.random(3) * 2), ("He", 2 + rng.random(3))]
    a = np.eye(3) * 4 + rng.standard_normal((3, 3)) * 0.3
    if dim < 3:
        a[dim:, :dim] = 0
        a[:dim, dim:] = 0
        a[2, :2] = a[:2, 2] = 0
        a[2, 2] = 9
    cell.a, cell.unit, cell.dimension, cell.verbose = a, "B", dim, 0
    cell.basis = {"H": [[0, [1.2, 1.0]], [1, [0.8, 1.0]]], "He": [[0, [1.5, 1.0]], [2, [0.8, 1.0]]]}
    cell.build()
    return cell, pyscf.pbc.tools.super_cell(cell, mesh), mesh


@contract(P, "translations", ["SymmetryTranslation", "tsymmetry.reorder_atoms", "tsymmetry.reorder_aos", "tsymmetry.get_tsymmetry_op"], sym=False, n=4,
          cases=product_cases(dim=[2, 3]), bounded="supercells of up to 36 random 2-atom cells, 2-3 dimensions")
def _(c, dim):
    """The translated orbital takes, at the translated point, the value of the orbital at that point; the translations form a group."""
    rng = c.rng
    cell, sc, mesh = supercell(rng, dim)
    k = [int(rng.integers(0, m)) for m in mesh]
    group = SymmetryGroup(sc)
    vec = np.asarray(k) / mesh
    op = SymmetryTranslation(group, vec)
    t = np.asarray(k) @ cell.lattice_vectors()
    C = rng.standard_normal((sc.nao, 2))
    c.eq("vector", op.vector_xyz, t)
    xyz = sc.atom_coords()
    A = sc.lattice_vectors()
    for a in range(sc.natm):
        d = (xyz[a] - xyz[op.atom_reorder[a]] - t) @ np.linalg.inv(A)
        c.true("atoms", np.linalg.norm(d - np.rint(d)) < 1e-7)
    pts = rng.random((5, 3)) @ A
    g = lambda p: sc.pbc_eval_gto("GTOval", p)
    c.true("orbitals", abs(g(pts + t) @ op(C) - g(pts) @ C).max() < 1e-6)
    c.eq("inverse", op.inverse()(op(C)), C)
    c.eq("inverse vector", op.inverse().vector, -vec)
    k2 = [int(rng.integers(0, m)) for m in mesh]
    op2 = SymmetryTranslation(group, np.asarray(k2) / mesh)
    op12 = SymmetryTranslation(group, ((np.asarray(k) + k2) % mesh) / mesh)
    c.eq("group", op2(op(C)), op12(C))
    # function interface
    tc = t.copy()
    tso = ts.get_tsymmetry_op(sc, tc, unit="B")
    c.eq("function", tso(C), op(C))
    c.eq("function other axis", tso(C.T, axis=1), op(C).T)
    c.eq("function in Angstrom", ts.get_tsymmetry_op(sc, t * lab_bohr(), unit="Ang")(C), op(C))
    c.true("no such translation", ts.get_tsymmetry_op(sc, t + np.array([0.1, 0, 0]), unit="B") is None)
    re, inv, ph = ts.reorder_atoms(sc, t, unit="B")
    c.eq("atoms (function)", re, op.atom_reorder)
    c.true("inverse (function)", all(re[inv[a]] == a for a in range(sc.natm)) and np.all(ph == 1))
    c.eq("function arguments unchanged", tc, t)
    c.raises("not a symmetry", Exception, lambda: SymmetryTranslation(group, vec + np.array([0.1, 0, 0])))


def lab_bohr():
    from pyscf.lib.parameters import BOHR
    return BOHR


@contract(P, "boundary", ["SymmetryTranslation.get_atom_reorder", "SymmetryTranslation.call_kernel", "tsymmetry.reorder_atoms"], sym=False, n=4, cases=product_cases(dim=[1, 2]),
          bounded="Hubbard lattices of up to 12 sites, periodic and antiperiodic boundaries")
def _(c, dim):
    """With antiperiodic boundaries orbitals change sign on crossing the boundary: the hopping matrix is invariant."""
    import vayesta.lattmod as lm
    rng = c.rng
    if dim == 1:
        n = int(rng.integers(1, 7)) * 2
        bc = ["PBC", "APBC"][int(rng.integers(2))]
        mol = lm.Hubbard1D(n, hubbard_u=2.0, boundary=bc)
        mesh = [n, 1, 1]
    else:
        n = [int(x) for x in rng.integers(3, 5, size=2)]
        bc = [("PBC", "APBC", "periodic", "anti-periodic")[int(rng.integers(4))] for _ in range(2)]
        mol = lm.Hubbard2D(n, hubbard_u=2.0, boundary=tuple(bc))
        mesh = [n[0], n[1], 1]
    k = [int(rng.integers(0, m)) for m in mesh]
    op = SymmetryTranslation(SymmetryGroup(mol), np.asarray(k) / mesh)
    T = op(np.eye(mol.nao))
    c.eq("one sign per site", T @ T.T, np.eye(mol.nao))
    h = mol.h1e
    c.eq("hopping invariant", T @ h @ T.T, h)
    anti = [str(b).upper() in ("APBC", "ANTI-PERIODIC") for b in (bc if dim == 2 else [bc])]
    c.true("signs only at antiperiodic boundaries", np.all(T >= 0) or any(anti))
    t = np.asarray(k) / mesh @ mol.lattice_vectors()
    b = ["APBC" if x else "PBC" for x in anti]
    b = b if dim == 2 else b[0]
    keep = list(b) if dim == 2 else b
    re, inv, ph = ts.reorder_atoms(mol, t, boundary=b, unit="B")
    c.true("argument unchanged", b == keep)
    c.eq("function", np.asarray(ts._make_reorder_op(*ts.reorder_atoms2aos(mol, re, ph)[::2])(np.eye(mol.nao))), T)


@contract(P, "mesh_tvecs", ["get_mesh_tvecs", "loop_tvecs", "tsymmetric_atoms", "SymmetryGroup"], sym=False, n=4, bounded="supercells of up to 27 random 2-atom cells")
def _(c):
    """Meshes and translation vectors of a supercell, and the lowest equivalent atom of each atom."""
    rng = c.rng
    cell, sc, mesh = supercell(rng, 3)
    A, a = sc.lattice_vectors(), cell.lattice_vectors()
    m, tv = ts.get_mesh_tvecs(sc, mesh)
    c.true("mesh", list(m) == list(mesh))
    c.eq("vectors", np.asarray(tv), a)
    for unit, f in (("B", 1.0), ("Ang", lab_bohr())):
        inp = a * f
        for d in range(3):
            if mesh[d] == 1:
                inp[d] = 0
        keep = inp.copy()
        m, tv = ts.get_mesh_tvecs(sc, inp, unit=unit)
        c.true("mesh from vectors", list(m) == list(mesh))
        c.eq("vectors in Bohr", np.asarray(tv), a)
        c.eq("argument unchanged", inp, keep)
    got = [(tuple(d), t) for d, t in ts.loop_tvecs(sc, mesh, include_origin=True)]
    c.true("all translations once", sorted(x[0] for x in got) == sorted(itertools.product(*[range(x) for x in mesh])))
    for d, t in got:
        c.eq("translation", t, np.asarray(d) @ a)
    c.true("without origin", [tuple(d) for d, _ in ts.loop_tvecs(sc, mesh)] == [x[0] for x in got if any(x[0])])
    idx = ts.tsymmetric_atoms(sc, a, unit="B")
    c.true("equivalent atoms", list(idx) == [i % 2 for i in range(sc.natm)])
    g = SymmetryGroup(sc)
    g.set_translations(mesh)
    c.true("set", list(g.translation) == list(mesh))
    g.clear_translations()
    c.true("cleared", g.translation is None)


# ---------------------------------------------------------------- symmetry-derived fragments = explicit fragments

_SYS = {}


def system(kind, spin):
    """Molecules with a symmetric mean field: (mf, parent atoms, centre, axis, order)."""
    key = (kind, spin)
    if key in _SYS:
        return _SYS[key]
    rng = np.random.default_rng(11)
    ax = rng.standard_normal(3)
    ax /= np.linalg.norm(ax)
    ux = np.cross(ax, [1.0, 0.3, 0.2])
    ux /= np.linalg.norm(ux)
    vx = np.cross(ax, ux)
    cen = np.array([0.3, -0.4, 0.2])
    order = {"rotation": 3, "rotation2": 2, "inversion": 2, "reflection": 2, "nested": 2}[kind]
    basis = {"H": [[0, [3.0, 0.16], [0.6, 0.5], [0.17, 0.45]], [0, [0.4, 1.0]]]}
    if kind in ("rotation", "rotation2"):
        ms = matrices("rotation", ax, order)
        base = [1.1 * ux, 1.9 * ux + 0.5 * vx + 0.6 * ax]
        atoms = [("H", m @ r + cen) for m in ms for r in base]
        parents = [0, 1]
    elif kind == "inversion":
        atoms = [("H", s * r + cen) for s in (1, -1) for r in (0.6 * ux + 0.4 * ax, 1.5 * ux - 0.5 * vx + 0.1 * ax)]
        parents = [0, 1]
    elif kind == "reflection":
        m = np.eye(3) - 2 * np.outer(ax, ax)
        atoms = [("H", x @ r + cen) for x in (np.eye(3), m) for r in (0.5 * ax + 0.3 * ux, 1.2 * ax + 0.9 * vx)]
        parents = [0, 1]
    else:                       # twofold rotation and inversion: one parent, four images
        r = 0.6 * ux + 0.5 * ax
        atoms = [("H", s * (m @ r) + cen) for m in matrices("rotation", ax, 2) for s in (1, -1)]
        parents = [0]
    mol = pyscf.gto.M(atom=atoms, unit="Ang", basis=basis, spin=0 if spin == "r" else 2, charge=2 if (kind, spin) == ("rotation", "u") else 0, verbose=0)
    mf = (pyscf.scf.RHF if spin == "r" else pyscf.scf.UHF)(mol)
    mf.conv_tol, mf.conv_tol_grad, mf.max_cycle = 1e-14, 1e-8, 200
    mf.kernel()
    _SYS[key] = mf, parents, cen, ax, order
    return _SYS[key]


def symmetric(kind, f, cen, ax, order):
    if kind.startswith("rotation"):
        return [f.rotational_symmetry(order, ax, center=cen)]
    if kind == "inversion":
        return [f.inversion_symmetry(center=cen)]
    if kind == "reflection":
        return [f.mirror_symmetry(ax, center=cen)]
    return [f.rotational_symmetry(2, ax, center=cen), f.inversion_symmetry(center=cen)]


def fragments_of(emb, kind, parents, cen, ax, order, explicit):
    with emb.sao_fragmentation() as f:
        if explicit:
            for a in range(emb.mol.natm):
                f.add_atomic_fragment(a)
            return
        ctx = symmetric(kind, f, cen, ax, order)
        if len(ctx) == 1:
            with ctx[0]:
                for a in parents:
                    f.add_atomic_fragment(a)
        else:
            with ctx[0]:
                with ctx[1]:
                    for a in parents:
                        f.add_atomic_fragment(a)


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [np.asarray(x)]


def same(c, label, a, b, tol=2e-6):
    a, b = flat(a), flat(b)
    c.true(label + " structure", len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b)))
    c.true(label, all(abs(x - y).max(initial=0) < tol for x, y in zip(a, b)))


def compare(c, sym, full, spin, full_bath=True):
    """All global results of a calculation with symmetry-derived fragments equal those with explicit fragments."""
    same(c, "correlation energy", sym.get_e_corr(), full.get_e_corr())
    same(c, "total energy", sym.e_tot, full.e_tot)
    same(c, "dmet energy", sym.get_dmet_energy(), full.get_dmet_energy())
    same(c, "dmet energy (no cumulant)", sym.get_dmet_energy(part_cumulant=False), full.get_dmet_energy(part_cumulant=False))
    same(c, "t1", sym.get_global_t1(), full.get_global_t1())
    same(c, "t2", sym.get_global_t2(), full.get_global_t2())
    same(c, "dm1 projected", sym.make_rdm1_demo(ao_basis=True), full.make_rdm1_demo(ao_basis=True))
    same(c, "dm1 projected (parts)", sym.make_rdm1_demo(ao_basis=True, symmetrize=False) if spin == "r" else 0,
         full.make_rdm1_demo(ao_basis=True, symmetrize=False) if spin == "r" else 0)
    same(c, "dm2 projected", sym.make_rdm2_demo(ao_basis=True), full.make_rdm2_demo(ao_basis=True))
    same(c, "dm1 global", sym._make_rdm1_ccsd_global_wf(ao_basis=True), full._make_rdm1_ccsd_global_wf(ao_basis=True))
    same(c, "dm1 global without loop", sym._make_rdm1_ccsd_global_wf(use_sym=False), full._make_rdm1_ccsd_global_wf(use_sym=False))
    same(c, "energy from densities", sym.get_dm_energy(), full.get_dm_energy())
    if spin == "r":
        same(c, "dm2 global", sym._make_rdm2_ccsd_global_wf(), full._make_rdm2_ccsd_global_wf())
    same(c, "dm2 lambda", sym._make_rdm2_ccsd_proj_lambda(ao_basis=False), full._make_rdm2_ccsd_proj_lambda(ao_basis=False))
    same(c, "mean-field energy per fragment", sum(sym.get_fragment_mf_energies() if hasattr(sym, "get_fragment_mf_energies") else [0]),
         sum(full.get_fragment_mf_energies() if hasattr(full, "get_fragment_mf_energies") else [0]))


def fragments_consistent(c, emb, spin, n):
    S = emb.get_ovlp()
    one = (lambda x: [x]) if spin == "r" else (lambda x: list(x))
    for s, C in enumerate(zip(*[one(f.c_frag) for f in emb.fragments])):
        C = np.hstack(C)
        c.true("fragments orthonormal", abs(C.T @ S @ C - np.eye(C.shape[1])).max() < 1e-8)
        c.true("fragments complete", C.shape[1] == S.shape[0])
    c.true("number", len(emb.fragments) == n)
    parents = [f for f in emb.fragments if f.sym_parent is None]
    c.true("factors", sum(f.symmetry_factor for f in parents) == n)
    seen = []
    for f in parents:
        tree = list(f.loop_symmetry_children([f.c_frag], include_self=False))
        c.true("children", [x[0] for x in tree] == [x for x in _preorder(f)] and len(tree) == f.n_symmetry_children)
        for x, cx in tree:
            same(c, "orbitals of child", cx, x.c_frag, 1e-10)
            c.true("parent", x.get_symmetry_parent() is f)
        seen += [f] + [x[0] for x in tree]
        c.true("children list", set(map(id, f.get_symmetry_children())) == set(id(x[0]) for x in tree))
    c.true("each fragment once", sorted(f.id for f in seen) == sorted(f.id for f in emb.fragments))
    for f in emb.fragments:
        cl = f.cluster
        for C in one(cl.coeff) if not isinstance(cl.coeff, tuple) else cl.coeff:
            c.true("cluster orthonormal", abs(C.T @ S @ C - np.eye(C.shape[1])).max() < 1e-8)
        for a, b, cf in zip(one(cl.c_active), one(f.get_overlap("frag|cluster")), one(f.c_frag)):
            c.true("fragment in cluster", abs(a @ (a.T @ S @ cf) - cf).max() < 1e-7)
            c.true("overlap", abs(b - cf.T @ S @ a).max() < 1e-8)
        for C in one(f.get_coeff_env()):
            c.true("environment", abs(C.T @ S @ C - np.eye(C.shape[1])).max() < 1e-8)
        c.true("results of the parent", f.results is f.get_symmetry_parent().results)


def _preorder(f):
    for x in f.base.fragments:
        if x.sym_parent is f:
            yield x
            yield from _preorder(x)


@contract(P, "derived", ["create_symmetric_fragments", "create_rotsym_fragments", "create_invsym_fragments", "create_mirrorsym_fragments", "rotational_symmetry", "inversion_symmetry",
                         "mirror_symmetry", "loop_symmetry_children", "get_symmetry_tree", "get_symmetry_children", "symmetry_factor", "get_symmetry_error", "cluster (symmetry)"],
          sym=False, n=1, timeout=400, cases=product_cases(kind=["rotation", "rotation2", "inversion", "reflection", "nested"], spin=["r", "u"]),
          bounded="hydrogen clusters of 4-6 atoms; one system per symmetry")
def _(c, kind, spin):
    """Energies, amplitudes and density matrices from symmetry-derived fragments equal those from explicit fragments."""
    rng = c.rng
    mf, parents, cen, ax, order = system(kind, spin)
    bath = [dict(bathtype="dmet"), dict(bathtype="mp2", threshold=1e-2)][int(rng.integers(2))] if spin == "r" or kind != "rotation" else dict(bathtype="dmet")
    out = []
    for explicit in (False, True):
        emb = vayesta.ewf.EWF(mf, solver="CCSD", bath_options=bath, solver_options=dict(solve_lambda=True, conv_tol=1e-11, conv_tol_normt=1e-9))
        fragments_of(emb, kind, parents, cen, ax, order, explicit)
        emb.kernel()
        out.append(emb)
    fragments_consistent(c, out[0], spin, mf.mol.natm)
    c.true("parents only are solved", len(out[0].get_fragments(sym_parent=None)) == len(parents))
    ch = out[0].get_symmetry_child_fragments(include_parents=True) if kind != "nested" else None
    if ch is not None:
        c.true("families", [x[0] for x in ch] == out[0].get_symmetry_parent_fragments() and all(len(x) == order for x in ch)
               and all(y.sym_parent is x[0] for x in ch for y in x[1:]))
    compare(c, out[0], out[1], spin)
    if bath["bathtype"] == "mp2":
        same(c, "finite-bath correction", out[0].get_fbc_energy(), out[1].get_fbc_energy())


@contract(P, "solvers", ["create_symmetric_fragments", "DMET.kernel", "get_dmet_elec_energy", "get_global_t1", "get_global_t2"], sym=False, n=1, timeout=400,
          cases=product_cases(kind=["rotation", "reflection"], spin=["r", "u"], solver=["MP2", "CISD", "FCI", "DMET"], exclude=lambda spin, solver, **k: spin == "u" and solver == "DMET"), bounded="hydrogen clusters of 4-6 atoms")
def _(c, kind, spin, solver):
    """The same holds for the other solvers and for DMET with a chemical potential."""
    mf, parents, cen, ax, order = system(kind, spin)
    out = []
    for explicit in (False, True):
        if solver == "DMET":
            emb = vayesta.dmet.DMET(mf, solver="FCI", maxiter=1, charge_consistent=False)
        else:
            emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=dict(bathtype="dmet"), solver_options=dict(conv_tol=1e-12) if solver in ("FCI", "CISD") else {})
        fragments_of(emb, kind, parents, cen, ax, order, explicit)
        emb.kernel()
        out.append(emb)
    a, b = out
    if solver == "DMET":
        same(c, "energy", a.e_tot, b.e_tot, 1e-5)
        same(c, "dm1", a.make_rdm1_demo(ao_basis=True), b.make_rdm1_demo(ao_basis=True), 1e-4)
        return
    same(c, "correlation energy", a.get_e_corr(), b.get_e_corr())
    if solver == "FCI":
        same(c, "dm1 projected", a.make_rdm1_demo(ao_basis=True), b.make_rdm1_demo(ao_basis=True))
        same(c, "dmet energy", a.get_dmet_energy(), b.get_dmet_energy())
    if solver != "MP2":
        same(c, "t1", a.get_global_t1(), b.get_global_t1())
    same(c, "t2", a.get_global_t2(), b.get_global_t2())


@contract(P, "partial", ["create_symmetric_fragments", "rotational_symmetry", "inversion_symmetry"], sym=False, n=1, timeout=400, cases=product_cases(spin=["r", "u"], by=["context", "method"]),
          bounded="hydrogen clusters of 4-6 atoms")
def _(c, spin, by):
    """Only some fragments derived by symmetry, in a context or by direct calls; options and flags are inherited."""
    mf, parents, cen, ax, order = system("reflection", spin)
    emb = vayesta.ewf.EWF(mf, solver="MP2", bath_options=dict(bathtype="full"))
    full = vayesta.ewf.EWF(mf, solver="MP2", bath_options=dict(bathtype="full"))
    if by == "context":
        with emb.sao_fragmentation() as f:
            f.add_atomic_fragment(1)
            with f.mirror_symmetry(ax, center=cen):
                f.add_atomic_fragment(0)
            f.add_atomic_fragment(3)
    else:
        with emb.sao_fragmentation() as f:
            for a in (1, 0, 3):
                f.add_atomic_fragment(a)
        new = emb.create_mirrorsym_fragments(ax, cen, fragments=[emb.fragments[1]])
        c.true("one image", len(new) == 1 and new[0].sym_parent is emb.fragments[1])
        emb.fragments.extend(new)
    with full.sao_fragmentation() as f:
        f.add_all_atomic_fragments()
    emb.kernel()
    full.kernel()
    c.true("fragments", len(emb.fragments) == 4 and sum(x.sym_parent is None for x in emb.fragments) == 3)
    same(c, "energy", emb.e_corr, full.e_corr)
    same(c, "t2", emb.get_global_t2(), full.get_global_t2())


@contract(P, "refused", ["create_symmetric_fragments"], sym=False, n=1, cases=product_cases(spin=["r", "u"]), bounded="one system per case")
def _(c, spin):
    """Fragments mapped onto themselves and mean fields which are not symmetric are refused."""
    mf, parents, cen, ax, order = system("reflection", spin)
    emb = vayesta.ewf.EWF(mf)
    with emb.sao_fragmentation() as f:
        f.add_atomic_fragment([0, 2])
    c.raises("self-image", RuntimeError, lambda: emb.create_mirrorsym_fragments(ax, cen))
    bad = mf.copy()
    mo = np.array(mf.mo_coeff, copy=True)
    x = np.random.default_rng(3).standard_normal((mo.shape[-1],) * 2)
    u = np.linalg.qr(np.eye(len(x)) + 0.2 * (x - x.T))[0]
    bad.mo_coeff = mo @ u if spin == "r" else np.asarray([mo[0] @ u, mo[1]])
    emb = vayesta.ewf.EWF(bad)
    with emb.sao_fragmentation() as f:
        f.add_atomic_fragment(0)
    c.raises("mean field", RuntimeError, lambda: emb.create_mirrorsym_fragments(ax, cen))
    c.true("without check", len(emb.create_mirrorsym_fragments(ax, cen, check_mf=False)) == 1)
    c.raises("unknown", ValueError, lambda: emb.create_symmetric_fragments(dict(type="glide", center=cen, unit="Ang")))


# ---------------------------------------------------------------- translations

@contract(P, "folded", ["create_transsym_fragments", "Fragmentation (translation)", "SymmetryGroup.set_translations", "e_tot (cells)"], sym=False, n=1, timeout=500,
          cases=product_cases(spin=["r", "u"], sys=[0, 1, 2]), bounded="2-atom cells, k-meshes of up to 4 points")
def _(c, spin, sys):
    """A k-point calculation, in which translated fragments are derived, equals that with all fragments of the supercell explicit."""
    from . import p12_folding as p12
    dim, mesh = [(3, (3, 1, 1)), (2, (2, 2, 1)), (3, (1, 1, 3))][sys]
    kmf = p12.k_mf(spin, dim, mesh, scf=True)
    out = []
    for explicit in (False, True):
        emb = vayesta.ewf.EWF(kmf, solver="CCSD" if dim == 3 else "MP2", bath_options=dict(bathtype="dmet"), solver_options=dict(solve_lambda=True, conv_tol=1e-10, conv_tol_normt=1e-8) if dim == 3 else {})
        with emb.sao_fragmentation(add_symmetric=not explicit) as f:
            for a in (range(emb.mol.natm) if explicit else [0, 1]):
                f.add_atomic_fragment(a)
        emb.kernel()
        out.append(emb)
    a, b = out
    n = int(np.prod(mesh))
    c.true("fragments", len(a.fragments) == 2 * n == len(b.fragments) and len(a.get_fragments(sym_parent=None)) == 2)
    c.true("cells", a.ncells == n and b.ncells == n)
    fragments_consistent(c, a, spin, 2 * n)
    same(c, "energy", a.e_corr, b.e_corr)
    same(c, "total energy", a.e_tot, b.e_tot)
    same(c, "t2", a.get_global_t2(), b.get_global_t2(), 1e-5)
    if dim == 3:
        same(c, "dmet energy", a.get_dmet_energy(), b.get_dmet_energy())
        same(c, "t1", a.get_global_t1(), b.get_global_t1(), 1e-5)
        same(c, "dm1", a._make_rdm1_ccsd_global_wf(ao_basis=True), b._make_rdm1_ccsd_global_wf(ao_basis=True), 1e-5)
        same(c, "dm1 projected", a.make_rdm1_demo(ao_basis=True), b.make_rdm1_demo(ao_basis=True), 1e-5)


@contract(P, "lattice", ["add_tsymmetric_fragments", "create_transsym_fragments", "SymmetryTranslation.call_kernel"], sym=False, n=2, timeout=300,
          cases=product_cases(dim=[1, 2], by=["group", "method"]), bounded="Hubbard lattices of up to 16 sites, periodic and antiperiodic boundaries")
def _(c, dim, by):
    """Lattice models: translated fragments, also across antiperiodic boundaries, equal explicit fragments."""
    import vayesta.lattmod as lm
    rng = c.rng
    if dim == 1:
        n, u, bc, nimp = [(6, 2.0, "PBC", 2), (8, 3.0, "APBC", 2), (10, 4.0, "PBC", 1), (8, 1.0, "APBC", 4)][int(rng.integers(4))]
        mol = lm.Hubbard1D(n, hubbard_u=u, boundary=bc)
        images, size = [n // nimp, 1, 1], nimp
    else:
        ns, bc, tile, ne = [((4, 4), ("PBC", "APBC"), (2, 2), 16), ((4, 2), ("APBC", "PBC"), (2, 1), 8), ((4, 6), ("APBC", "APBC"), (2, 2), 24)][int(rng.integers(3))]
        mol = lm.Hubbard2D(ns, nelectron=ne, hubbard_u=2.0, boundary=bc, tiles=tile)
        images, size = [ns[0] // tile[0], ns[1] // tile[1], 1], tile[0] * tile[1]
    mf = lm.LatticeMF(mol)
    mf.conv_tol = 1e-13
    mf.kernel()
    gap = mf.mo_energy[mf.mo_occ == 0].min() - mf.mo_energy[mf.mo_occ > 0].max()
    if gap < 1e-3:
        raise Skip
    out = []
    for explicit in (False, True):
        emb = vayesta.ewf.EWF(mf, solver="FCI", bath_options=dict(bathtype="dmet"), solver_options=dict(conv_tol=1e-13))
        if by == "group" and not explicit:
            emb.symmetry.set_translations(images)
        with emb.site_fragmentation() as f:
            for s in range(0, mol.nsite if explicit else size, size):
                f.add_atomic_fragment(list(range(s, s + size)))
        if by == "method" and not explicit:
            emb.fragments[0].add_tsymmetric_fragments(images)
        emb.kernel()
        out.append(emb)
    a, b = out
    fragments_consistent(c, a, "r", int(np.prod(images)))
    same(c, "energy", a.e_corr, b.e_corr)
    same(c, "dmet energy", a.get_dmet_energy(), b.get_dmet_energy())
    same(c, "dm1", a.make_rdm1_demo(ao_basis=True), b.make_rdm1_demo(ao_basis=True))
    same(c, "t1", a.get_global_t1(), b.get_global_t1())
    same(c, "t2", a.get_global_t2(), b.get_global_t2())


# ---------------------------------------------------------------- deductive: children of arbitrary symmetry operations
TREES = dict(child=((0, "1"),), chain=((0, "1"), (1, "2")), siblings=((0, "1"), (0, "2")), inv=((0, "inv"),))


@contract(P, "sym_amps_r", ["amplitudes.get_global_t1_rhf", "amplitudes.get_global_t2_rhf", "Fragment.loop_symmetry_children"],
          cases=product_cases(a=["t", "l"], tree=list(TREES)), timeout=500)
def _(c, a, tree):
    from vayesta.ewf import amplitudes as am
    emb = es.build_r(c, nfrag=1, sym=TREES[tree])
    x1, x2 = es.global_r(c, emb, a)
    c.eq("1", am.get_global_t1_rhf(emb, get_lambda=a == "l"), x1)
    c.eq("2", am.get_global_t2_rhf(emb, get_lambda=a == "l"), x2)


@contract(P, "sym_amps_u", ["amplitudes.get_global_t1_uhf", "amplitudes.get_global_t2_uhf", "Fragment.loop_symmetry_children"],
          cases=product_cases(a=["t", "l"], tree=["child", "chain"]), timeout=500)
def _(c, a, tree):
    from vayesta.ewf import amplitudes as am
    emb = es.build_u(c, nfrag=1, sym=TREES[tree])
    x1, x2 = es.global_u(c, emb, a)
    c.eq("1", am.get_global_t1_uhf(emb, get_lambda=a == "l"), x1)
    c.eq("2", am.get_global_t2_uhf(emb, get_lambda=a == "l"), x2)


@contract(P, "sym_rdm1_r", ["rdm.make_rdm1_ccsd_global_wf", "Fragment.loop_symmetry_children"], timeout=800, opaque_minmax=True,
          cases=product_cases(tl=[False, True], late=[False, True], tree=["inv"]))
def _(c, tl, late, tree):
    """Using symmetry (pairs with a parent, mapped to the children) gives the density matrix of the explicit sum over
    all pairs, for an orbit of fragments closed under an orthogonal symmetry operation of order two."""
    from vayesta.ewf import rdm
    from .p06_symbolic import BL
    emb = es.build_r(c, nfrag=1, sym=TREES[tree])
    a = rdm.make_rdm1_ccsd_global_wf(emb, t_as_lambda=tl, svd_tol=None, late_t2_sym=late, use_sym=True, with_t1=True)
    b = rdm.make_rdm1_ccsd_global_wf(emb, t_as_lambda=tl, svd_tol=None, late_t2_sym=late, use_sym=False, with_t1=True)
    for nm, sl in BL(emb.nocc):
        c.eq(nm, a[sl], b[sl])
