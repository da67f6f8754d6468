"""P02: fragment projection of amplitudes and democratic recombination."""
import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.core.types import wf as wft
from vayesta.core.types.wf import project as prj
from .common import *

P = "P02"


@contract(P, "project_c", ["project.project_c1", "project.project_c2", "project.project_uc1", "project.project_uc2",
                           "project.symmetrize_c2", "project.symmetrize_uc2"], cases=product_cases(nblock=[3, 4]))
def _(c, nblock):
    d = oa, va, ob, vb = udims(c)
    fa, fb = c.dim("fa", max=3), c.dim("fb", max=3)
    pa, pb = c.tensor("pa", (fa, oa)), c.tensor("pb", (fb, ob))
    c1, c2 = ut1(c, "c1", *d), ut2(c, "c2", *d, nblock=nblock)
    E = c.einsum
    c.eq("c1", prj.project_c1(c1[0], pa), E("fi,ia->fa", pa, c1[0]))
    c.eq("c2", prj.project_c2(c2[0], pa), E("fi,ijab->fjab", pa, c2[0]))
    c.eq("uc1", prj.project_uc1(c1, (pa, pb)), (E("fi,ia->fa", pa, c1[0]), E("fi,ia->fa", pb, c1[1])))
    ba = c2[2] if nblock == 4 else c2[1].transpose(1, 0, 3, 2)
    c.eq("uc2", prj.project_uc2(c2, (pa, pb)), (
        E("fi,ijab->fjab", pa, c2[0]), E("fi,ijab->fjab", pa, c2[1]), E("fi,ijab->fjab", pb, ba),
        E("fi,ijab->fjab", pb, c2[-1])))
    for f in (prj.project_c1, prj.project_c2, prj.project_uc1, prj.project_uc2):
        c.true("None passes", f(None, pa) is None)
        c.true("no projector: identity", f(c2, None) is c2)
    x = c.tensor("x", (oa, oa, va, va))
    c.eq("sym", prj.symmetrize_c2(x), (x + x.transpose(1, 0, 3, 2)) / 2)
    s = prj.symmetrize_uc2((x,) + tuple(c2[1:]))
    c.eq("usym aa", s[0], (x + x.transpose(1, 0, 3, 2)) / 2)
    c.eq("usym ab", s[1], (c2[1] + ba.transpose(1, 0, 3, 2)) / 2)
    c.eq("usym bb", s[2], c2[-1])
    c.true("three blocks", len(s) == 3)


def _amps(wf):
    return {k: getattr(wf, k) for k in ("c1", "c2", "t1", "t2", "l1", "l2") if hasattr(wf, k)}


RKINDS = ["mp2", "cisd", "ccsd", "ccsd_nolambda", "ccsd_nol1", "ccsd_nol2"]


def make_r(c, kind, mo, o, v, sym2=RSYM2):
    t1, t2 = c.tensor("t1", (o, v)), c.tensor("t2", (o, o, v, v), sym=sym2)
    if kind == "mp2":
        return wft.RMP2_WaveFunction(mo, t2)
    if kind == "cisd":
        return wft.RCISD_WaveFunction(mo, c.scalar("c0", nonzero=True), t1, t2)
    if kind == "ccsd":
        return wft.RCCSD_WaveFunction(mo, t1, t2, l1=c.tensor("l1", (o, v)), l2=c.tensor("l2", (o, o, v, v), sym=sym2))
    if kind == "ccsd_nol1":
        return wft.RCCSD_WaveFunction(mo, t1, t2, l2=c.tensor("l2", (o, o, v, v), sym=sym2))
    if kind == "ccsd_nol2":
        return wft.RCCSD_WaveFunction(mo, t1, t2, l1=c.tensor("l1", (o, v)))
    return wft.RCCSD_WaveFunction(mo, t1, t2)


def make_u(c, kind, mo, d, nblock=3):
    t1, t2 = ut1(c, "t1", *d), ut2(c, "t2", *d)
    if nblock == 4:
        t2 = consistent4(t2)
    if kind == "mp2":
        return wft.UMP2_WaveFunction(mo, t2)
    if kind == "cisd":
        return wft.UCISD_WaveFunction(mo, c.scalar("c0", nonzero=True), t1, t2)
    if kind in ("ccsd", "ccsd_nol1"):
        l2 = ut2(c, "l2", *d)
        if nblock == 4:
            l2 = consistent4(l2)
        return wft.UCCSD_WaveFunction(mo, t1, t2, l1=ut1(c, "l1", *d) if kind == "ccsd" else None, l2=l2)
    if kind == "ccsd_nol2":
        return wft.UCCSD_WaveFunction(mo, t1, t2, l1=ut1(c, "l1", *d))
    return wft.UCCSD_WaveFunction(mo, t1, t2)


@contract(P, "wf_project_r", ["RMP2_WaveFunction.project", "RCISD_WaveFunction.project", "RCCSD_WaveFunction.project",
                              "RMP2_WaveFunction.restore", "RCISD_WaveFunction.restore", "RCCSD_WaveFunction.restore",
                              "RMP2_WaveFunction.copy", "RCISD_WaveFunction.copy", "RCCSD_WaveFunction.copy"],
          cases=product_cases(kind=RKINDS, inplace=[False, True]))
def _(c, kind, inplace):
    o, v, f = c.dim("o"), c.dim("v"), c.dim("f", max=3)
    mo = rmo(c, o, v)
    p = c.tensor("p", (f, o))
    wf = make_r(c, kind, mo, o, v)
    ref = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    px = wf.project(p, inplace=inplace)
    E = c.einsum
    c.eq("projector", px.projector, p)
    c.true("inplace", (px is wf) == inplace)
    for k, x in ref.items():
        if x is None:
            c.true("%s none" % k, getattr(px, k) is None)
            continue
        spec = E("fi,ia->fa", p, x) if len(x.shape) == 2 else E("fi,ijab->fjab", p, x)
        c.eq("projected %s" % k, getattr(px, k), spec)
        if not inplace:
            c.eq("original %s untouched" % k, getattr(wf, k), x)
    if hasattr(wf, "c0"):
        c.eq("c0", px.c0, wf.c0)
    q = px.restore(sym=False)
    r = px.restore()
    c.true("restored has no projector", r.projector is None and q.projector is None)
    w = E("fi,fj->ij", p, p)
    for k, x in ref.items():
        if x is None:
            continue
        if len(x.shape) == 2:
            s = E("ij,ja->ia", w, x)
            c.eq("restored %s" % k, r.__dict__[k], s)
        else:
            s = E("ik,kjab->ijab", w, x)
            c.eq("restored (nosym) %s" % k, q.__dict__[k], s)
            c.eq("restored %s" % k, r.__dict__[k], (s + s.transpose(1, 0, 3, 2)) / 2)


@contract(P, "wf_project_u", ["UMP2_WaveFunction.project", "UCISD_WaveFunction.project", "UCCSD_WaveFunction.project",
                              "UMP2_WaveFunction.restore", "UCISD_WaveFunction.restore", "UCCSD_WaveFunction.restore"],
          cases=product_cases(kind=RKINDS, nblock=[3, 4]))
def _(c, kind, nblock):
    d = oa, va, ob, vb = udims(c)
    fa, fb = c.dim("fa", max=3), c.dim("fb", max=3)
    pa, pb = c.tensor("pa", (fa, oa)), c.tensor("pb", (fb, ob))
    mo = umo(c, *d)
    wf = make_u(c, kind, mo, d, nblock)
    ref = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    px = wf.project((pa, pb))
    E = c.einsum
    c.eq("projector", tuple(px.projector), (pa, pb))
    for k, x in ref.items():
        if x is None:
            c.true("%s none" % k, getattr(px, k) is None)
            continue
        c.eq("original %s untouched" % k, tuple(getattr(wf, k)), x)
        if len(x) == 2:
            c.eq("projected %s" % k, tuple(getattr(px, k)), (E("fi,ia->fa", pa, x[0]), E("fi,ia->fa", pb, x[1])))
        else:
            ba = x[1].transpose(1, 0, 3, 2)
            c.eq("projected %s" % k, tuple(getattr(px, k)), (
                E("fi,ijab->fjab", pa, x[0]), E("fi,ijab->fjab", pa, x[1]), E("fi,ijab->fjab", pb, ba),
                E("fi,ijab->fjab", pb, x[-1])))
    r = px.restore()
    wa, wb = E("fi,fj->ij", pa, pa), E("fi,fj->ij", pb, pb)

    def S(w, x):
        y = E("ik,kjab->ijab", w, x)
        return (y + y.transpose(1, 0, 3, 2)) / 2
    for k, x in ref.items():
        if x is None:
            continue
        if len(x) == 2:
            c.eq("restored %s" % k, tuple(getattr(r, k)), (E("ij,ja->ia", wa, x[0]), E("ij,ja->ia", wb, x[1])))
        else:
            c.eq("restored %s aa" % k, getattr(r, k)[0], S(wa, x[0]))
            c.eq("restored %s bb" % k, getattr(r, k)[-1], S(wb, x[-1]))
            c.eq("restored %s ab" % k, getattr(r, k)[1],
                 (E("ik,kjab->ijab", wa, x[1]) + E("jk,ikab->ijab", wb, x[1])) / 2)


@contract(P, "partition_r", ["RMP2_WaveFunction.project", "RCISD_WaveFunction.project", "RCCSD_WaveFunction.project",
                             "RMP2_WaveFunction.restore", "RCISD_WaveFunction.restore", "RCCSD_WaveFunction.restore"],
          cases=product_cases(kind=RKINDS), note="lemma: sum over fragments of the restored projections is the identity")
def _(c, kind):
    o, v, f, nx = c.dim("o", max=3), c.dim("v", max=3), c.dim("f", max=3), c.dim("nx", max=3)
    mo = rmo(c, o, v)
    if c.symbolic:
        pp = c.tensor("P", (nx, f, o))
        c.rule([(pp, "xfi"), (pp, "xfj")], "ij", [(1, [("delta", "ij")], {})])
    else:
        pp = c.isometry("P", nx * f, o).reshape(nx, f, o)
    wf = make_r(c, kind, mo, o, v)
    for k, ref in _amps(wf).items():
        if ref is None:
            continue
        tot = c.zeros(*ref.shape)
        for x in c.fragment_family(nx):
            tot += getattr(wf.project(pp[x]).restore(), k)
        c.eq("sum over fragments of %s" % k, tot, ref)


@contract(P, "partition_u", ["UMP2_WaveFunction.project", "UCISD_WaveFunction.project", "UCCSD_WaveFunction.project",
                             "UMP2_WaveFunction.restore", "UCISD_WaveFunction.restore", "UCCSD_WaveFunction.restore"],
          cases=product_cases(kind=RKINDS, nblock=[3, 4]))
def _(c, kind, nblock):
    d = oa, va, ob, vb = udims(c)
    f, nx = c.dim("f", max=3), c.dim("nx", max=3)
    mo = umo(c, *d)
    PP = []
    for s, o in zip("ab", (oa, ob)):
        if c.symbolic:
            pp = c.tensor("P" + s, (nx, f, o))
            c.rule([(pp, "xfi"), (pp, "xfj")], "ij", [(1, [("delta", "ij")], {})])
        else:
            pp = c.isometry("P" + s, nx * f, o).reshape(nx, f, o)
        PP.append(pp)
    wf = make_u(c, kind, mo, d, nblock)
    for k, ref in _amps(wf).items():
        if ref is None:
            continue
        for b in ((0, 1) if len(ref) == 2 else (0, 1, 2)):
            rb = ref[b] if b < 2 else ref[-1]
            tot = c.zeros(*rb.shape)
            for x in c.fragment_family(nx):
                tot += getattr(wf.project((PP[0][x], PP[1][x])).restore(), k)[b]
            c.eq("sum over fragments of %s[%d]" % (k, b), tot, rb)


@contract(P, "multiply", ["RMP2_WaveFunction.multiply", "RCCSD_WaveFunction.multiply", "UMP2_WaveFunction.multiply",
                          "UCCSD_WaveFunction.multiply"], cases=product_cases(kind=["mp2", "ccsd", "ccsd_nolambda", "ccsd_nol1", "ccsd_nol2"], spin=["r", "u"]))
def _(c, kind, spin):
    k0 = c.scalar("k0", nonzero=True)
    if spin == "r":
        o, v = c.dim("o"), c.dim("v")
        wf = make_r(c, kind, rmo(c, o, v), o, v)
    else:
        d = udims(c)
        wf = make_u(c, kind, umo(c, *d), d)
    ref = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    c.modifies(_amps(wf))
    wf.multiply(k0)
    for k, x in ref.items():
        if x is None:
            c.true("none", getattr(wf, k) is None)
        elif spin == "r":
            c.eq(k, getattr(wf, k), k0 * x)
        else:
            c.eq(k, tuple(getattr(wf, k)), tuple(k0 * y for y in x))


@contract(P, "rotate_r", ["RCCSD_WaveFunction.rotate_ov", "project.transform_c1", "project.transform_c2",
                          "SpatialOrbitals.basis_transform"], cases=product_cases(kind=["ccsd", "ccsd_nolambda", "ccsd_nol1", "ccsd_nol2"], inplace=[False, True]))
def _(c, kind, inplace):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    co, cv = c.snapshot(mo.coeff[:, :o]), c.snapshot(mo.coeff[:, o:])
    to, tv = c.unitary("to", o), c.unitary("tv", v)
    wf = make_r(c, kind, mo, o, v)
    ref = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    r = wf.rotate_ov(to, tv, inplace=inplace)
    E = c.einsum
    for k, x in ref.items():
        if x is None:
            c.true("none", getattr(r, k) is None)
        elif len(x.shape) == 2:
            c.eq(k, getattr(r, k), E("ia,ij,ab->jb", x, to, tv))
        else:
            c.eq(k, getattr(r, k), E("ijab,ik,jl,ac,bd->klcd", x, to, to, tv, tv))
        if x is not None and not inplace:
            c.eq("orig " + k, getattr(wf, k), x)
    # the amplitudes in the AO basis are invariant
    c.eq("AO invariant t1", E("xi,ia,ya->xy", r.mo.coeff[:, :o], r.t1, r.mo.coeff[:, o:]), E("xi,ia,ya->xy", co, ref["t1"], cv))
    c.eq("AO invariant t2", E("xi,yj,ijab,za,wb->xyzw", *[r.mo.coeff[:, :o]] * 2, r.t2, *[r.mo.coeff[:, o:]] * 2),
         E("xi,yj,ijab,za,wb->xyzw", co, co, ref["t2"], cv, cv))
    c.eq("occ", r.mo.occ, mo.occ)


@contract(P, "rotate_u", ["UCCSD_WaveFunction.rotate_ov", "project.transform_uc1", "project.transform_uc2",
                          "SpinOrbitals.basis_transform"], cases=product_cases(kind=["ccsd", "ccsd_nolambda", "ccsd_nol1", "ccsd_nol2"], nblock=[3, 4]))
def _(c, kind, nblock):
    d = oa, va, ob, vb = udims(c)
    mo = umo(c, *d)
    to = (c.unitary("toa", oa), c.unitary("tob", ob))
    tv = (c.unitary("tva", va), c.unitary("tvb", vb))
    wf = make_u(c, kind, mo, d, nblock)
    co = [c.snapshot(x) for x in mo.coeff]
    ref = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    r = wf.rotate_ov(to, tv)
    E = c.einsum
    sp = {3: [(0, 0), (0, 1), (1, 1)], 4: [(0, 0), (0, 1), (1, 0), (1, 1)]}
    for k, x in ref.items():
        if x is None:
            c.true("none", getattr(r, k) is None)
        elif len(x) == 2:
            c.eq(k, tuple(getattr(r, k)), tuple(E("ia,ij,ab->jb", x[s], to[s], tv[s]) for s in (0, 1)))
        else:
            c.eq(k, tuple(getattr(r, k)), tuple(E("ijab,ik,jl,ac,bd->klcd", y, to[s], to[t], tv[s], tv[t])
                                                for y, (s, t) in zip(x, sp[len(x)])))
    for s, no in ((0, oa), (1, ob)):
        c.eq("MO occ %d" % s, r.mo.coeff[s][:, :no], E("xi,ij->xj", co[s][:, :no], to[s]))
        c.eq("MO vir %d" % s, r.mo.coeff[s][:, no:], E("xi,ij->xj", co[s][:, no:], tv[s]))
