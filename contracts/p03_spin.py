"""P03: restricted, unrestricted and spin-orbital representations of the same object agree."""
import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.core.types import wf as wft
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals, Orbitals
from vayesta.core import spinalg
from .common import *
from . import fcitools as ft
from .p02_projection import make_r, make_u

P = "P03"


@contract(P, "orbitals_to_spin", ["SpatialOrbitals.to_spin_orbitals", "SpinOrbitals.from_spatial_orbitals",
                                  "SpinOrbitals.__getattr__", "SpatialOrbitals.nocc", "SpatialOrbitals.nvir",
                                  "SpatialOrbitals.coeff_occ", "SpatialOrbitals.coeff_vir"], cases=product_cases(energy=[False, True]))
def _(c, energy):
    o, v = c.dim("o"), c.dim("v")
    n = c.axis(o, v)
    nao = c.dim("nao", max=6)
    co = c.tensor("C", (nao, n))
    e = c.tensor("e", (n,)) if energy else None
    mo = SpatialOrbitals(co, energy=e, occ=occ_vec(c, o, v, 2))
    c.eq("nocc", mo.nocc, o)
    c.eq("nvir", mo.nvir, v)
    c.eq("norb", mo.norb, n)
    c.eq("occ part", mo.coeff_occ, co[:, :o])
    c.eq("vir part", mo.coeff_vir, co[:, o:])
    u = mo.to_spin_orbitals()
    c.eq("coeff", u.coeff, (co, co))
    c.eq("nocc", u.nocc, (o, o))
    c.eq("nvir", u.nvir, (v, v))
    c.eq("norb", (u.norba, u.norbb), (n, n))
    c.eq("occ", u.alpha.occ + u.beta.occ, mo.occ)
    if energy:
        c.eq("energy", u.energy, (e, e))
    else:
        c.true("energy", u.energy == (None, None))
    c.true("nspin", mo.nspin == 1 and u.nspin == 2)


@contract(P, "as_unrestricted", ["RMP2_WaveFunction.as_unrestricted", "RCCSD_WaveFunction.as_unrestricted"],
          cases=product_cases(kind=["mp2", "ccsd", "ccsd_nolambda"]))
def _(c, kind):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = make_r(c, kind, mo, o, v)
    u = wf.as_unrestricted()
    for k in ("t", "l"):
        a2 = getattr(wf, k + "2", None)
        if a2 is None:
            continue
        u2 = getattr(u, k + "2")
        c.true("three blocks", len(u2) == 3)
        c.eq(k + "2ab", u2[1], a2)
        c.eq(k + "2aa", u2[0], a2 - a2.transpose(0, 1, 3, 2))
        c.eq(k + "2bb", u2[2], a2 - a2.transpose(1, 0, 2, 3))
        if kind != "mp2":
            c.eq(k + "1", tuple(getattr(u, k + "1")), (getattr(wf, k + "1"),) * 2)
    if kind == "ccsd_nolambda":
        c.true("no lambda", u.l1 is None and u.l2 is None)
    c.eq("mo", u.mo.coeff, (mo.coeff, mo.coeff))


@contract(P, "conversion_commutes", ["RCCSD_WaveFunction.as_cisd", "UCCSD_WaveFunction.as_cisd", "RMP2_WaveFunction.as_cisd",
                                     "UMP2_WaveFunction.as_cisd", "RCCSD_WaveFunction.project", "UCCSD_WaveFunction.project",
                                     "RCCSD_WaveFunction.restore", "UCCSD_WaveFunction.restore"], cases=product_cases(kind=["mp2", "ccsd"]))
def _(c, kind):
    """as_unrestricted commutes with conversion to CI and with projection/restoration."""
    o, v, f = c.dim("o"), c.dim("v"), c.dim("f", max=3)
    mo = rmo(c, o, v)
    k0 = c.scalar("k0", nonzero=True)
    p = c.tensor("p", (f, o))
    wf = make_r(c, kind, mo, o, v)
    u = wf.as_unrestricted()
    rc, uc = wf.as_cisd(k0), u.as_cisd(k0)
    c.eq("c1", tuple(uc.c1), (rc.c1, rc.c1))
    c.eq("c2ab", uc.c2ab, rc.c2)
    c.eq("c2aa", uc.c2aa, rc.c2 - rc.c2.transpose(0, 1, 3, 2))
    c.eq("c2bb", uc.c2bb, rc.c2 - rc.c2.transpose(0, 1, 3, 2))
    rp, up = wf.project(p), u.project((p, p))
    c.eq("p t2ab", up.t2ab, rp.t2)
    c.eq("p t2aa", up.t2aa, rp.t2 - rp.t2.transpose(0, 1, 3, 2))
    c.eq("p t2ba", up.t2ba, rp.t2)
    rr, ur = rp.restore(), up.restore()
    c.eq("r t2ab", ur.t2ab, rr.t2)
    if kind == "ccsd":
        c.eq("p t1", tuple(up.t1), (rp.t1, rp.t1))
        c.eq("r t1", tuple(ur.t1), (rr.t1, rr.t1))
        c.eq("r l2ab", ur.l2ab, rr.l2)


@contract(P, "ccsd_rdm1_ru", ["ccsd_rdm._gamma1_intermediates", "ccsd_rdm._make_rdm1", "uccsd_rdm._gamma1_intermediates",
                              "uccsd_rdm._make_rdm1", "RCCSD_WaveFunction.make_rdm1"], cases=product_cases(with_mf=[True, False], tl=[True, False]))
def _(c, with_mf, tl):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = make_r(c, "ccsd", mo, o, v)
    u = wf.as_unrestricted()
    r = wf.make_rdm1(t_as_lambda=tl, with_mf=with_mf)
    ua, ub = u.make_rdm1(t_as_lambda=tl, with_mf=with_mf)
    c.eq("alpha=beta", ua, ub)
    c.eq("sum", ua + ub, r)


@contract(P, "ccsd_rdm2_ru", ["RCCSD_WaveFunction.make_rdm2", "UCCSD_WaveFunction.make_rdm2", "ccsd_rdm.make_rdm2", "uccsd_rdm.make_rdm2"],
          cases=product_cases(with_dm1=[True, False], approx=[True, False]), sym=False, bounded="dimensions <= 3, random amplitudes", n=3)
def _(c, with_dm1, approx):
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    mo = rmo(c, o, v)
    wf = make_r(c, "ccsd", mo, o, v)
    u = wf.as_unrestricted()
    for ao in (False, True):
        r = wf.make_rdm2(with_dm1=with_dm1, approx_cumulant=approx, ao_basis=ao)
        aa, ab, bb = u.make_rdm2(with_dm1=with_dm1, approx_cumulant=approx, ao_basis=ao)
        c.eq("sum", aa + bb + ab + ab.transpose(2, 3, 0, 1), r)
        r = wf.make_rdm1(ao_basis=ao)
        c.eq("dm1", sum(u.make_rdm1(ao_basis=ao)), r)


@contract(P, "fci_rdm_ru", ["RFCI_WaveFunction.make_rdm1", "RFCI_WaveFunction.make_rdm2", "UFCI_WaveFunction.make_rdm1",
                            "UFCI_WaveFunction.make_rdm2", "RFCI_WaveFunction.as_unrestricted"], sym=False,
          bounded="norb <= 5, random alpha/beta symmetric CI vectors", cases=product_cases(with_dm1=[True, False], approx=[True, False]))
def _(c, with_dm1, approx):
    no, nv = c.dim("o", 1, 2), c.dim("v", 1, 3)
    norb = no + nv
    mo = SpatialOrbitals(c.rng.normal(size=(norb + 1, norb)), occ=no)
    ci = ft.rand_ci(c.rng, norb, (no, no), sym=True)
    wf = wft.RFCI_WaveFunction(mo, ci)
    u = wf.as_unrestricted()
    for ao in (False, True):
        for mf in (False, True):
            c.eq("dm1", sum(u.make_rdm1(ao_basis=ao, with_mf=mf)), wf.make_rdm1(ao_basis=ao, with_mf=mf))
        if not with_dm1 and not approx:
            continue
        r = wf.make_rdm2(with_dm1=with_dm1, approx_cumulant=approx, ao_basis=ao)
        aa, ab, bb = u.make_rdm2(with_dm1=with_dm1, approx_cumulant=approx, ao_basis=ao)
        c.eq("dm2", aa + bb + ab + ab.transpose(2, 3, 0, 1), r)
    # exact cumulant of a closed-shell state: alpha and beta 1-RDMs coincide
    dm1 = u.make_rdm1()
    c.eq("alpha=beta", dm1[0], dm1[1])
    r = wf.make_rdm2(with_dm1=False, approx_cumulant=False)
    aa, ab, bb = u.make_rdm2(with_dm1=False, approx_cumulant=False)
    c.eq("cumulant", aa + bb + ab + ab.transpose(2, 3, 0, 1), r)


@contract(P, "hf_ru", ["RHF_WaveFunction.make_rdm1", "RHF_WaveFunction.make_rdm2", "UHF_WaveFunction.make_rdm1",
                       "UHF_WaveFunction.make_rdm2"], cases=product_cases(ao=[True, False]))
def _(c, ao):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    wf = wft.RHF_WaveFunction(mo)
    u = wft.UHF_WaveFunction(mo.to_spin_orbitals())
    r = wf.make_rdm1(ao_basis=ao)
    a, b = u.make_rdm1(ao_basis=ao)
    co = mo.coeff[:, :o]
    if ao:
        c.eq("rdm1", r, 2 * c.einsum("xi,yi->xy", co, co))
    c.eq("sum", a + b, r)
    aa, ab, bb = u.make_rdm2(ao_basis=ao)
    c.eq("sum2", aa + bb + ab + ab.transpose(2, 3, 0, 1), wf.make_rdm2(ao_basis=ao))


@contract(P, "hstack_matrices", ["spinalg.hstack_matrices"], cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    nao, n1, n2 = c.dim("nao"), c.dim("n1"), c.dim("n2")
    m1, m2 = c.dim("m1"), c.dim("m2")
    a, b = c.tensor("a", (nao, n1)), c.tensor("b", (nao, n2))
    d, e = c.tensor("d", (nao, m1)), c.tensor("e", (nao, m2))
    if spin == "r":
        r = spinalg.hstack_matrices(a, b)
        c.eq("left", r[:, :n1], a)
        c.eq("right", r[:, n1:], b)
        c.eq("shape", r.shape[1], n1 + n2)
        return
    r = spinalg.hstack_matrices((a, d), (b, e))
    c.eq("alpha", (r[0][:, :n1], r[0][:, n1:]), (a, b))
    c.eq("beta", (r[1][:, :m1], r[1][:, m1:]), (d, e))


@contract(P, "spinalg_elementwise", ["spinalg.add", "spinalg.subtract", "spinalg.multiply", "spinalg.add_numbers", "spinalg.subtract_numbers",
                                     "spinalg.multiply_numbers", "spinalg.dot", "spinalg.copy", "spinalg.transpose", "spinalg.T"], n=3)
def _(c):
    n, m, k = c.dim("n"), c.dim("m"), c.dim("k")
    q, w = c.dim("q"), c.dim("w")
    a, b = c.tensor("a", (n, m)), c.tensor("b", (n, m))
    d, e = c.tensor("d", (q, w)), c.tensor("e", (q, w))
    f, g = c.tensor("f", (m, k)), c.tensor("g", (w, k))
    for name, op in (("add", lambda x, y: x + y), ("subtract", lambda x, y: x - y), ("multiply", lambda x, y: x * y)):
        fn = getattr(spinalg, name)
        c.eq(name, fn(a, b), op(a, b))
        c.eq("u" + name, tuple(fn((a, d), (b, e))), (op(a, b), op(d, e)))
    c.eq("dot", spinalg.dot(a, f), c.einsum("ij,jk->ik", a, f))
    c.eq("udot", tuple(spinalg.dot((a, d), (f, g))), (c.einsum("ij,jk->ik", a, f), c.einsum("ij,jk->ik", d, g)))
    c.eq("T", spinalg.T(a), a.T)
    c.eq("uT", tuple(spinalg.T((a, d))), (a.T, d.T))
    x = spinalg.copy((a, d))
    c.eq("copy", tuple(x), (a, d))
    x[0][:, :] = 0
    c.eq("copy is independent", a - a, x[0])
