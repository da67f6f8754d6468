"""P06, deductive part: assembly routines executed symbolically (all dimensions, all amplitudes, all cluster rotations)."""
from engine.core import contract, product_cases, Skip
from vayesta.core.types import wf as wft
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
from vayesta.ewf import amplitudes as am, rdm, urdm
from .common import *
from . import embstub as es

P = "P06"


@contract(P, "sym_amps_r", ["amplitudes.get_global_t1_rhf", "amplitudes.get_global_t2_rhf"],
          cases=product_cases(a=["t", "l"], ao=[False, True]))
def _(c, a, ao):
    emb = es.build_r(c)
    x1, x2 = es.global_r(c, emb, a)
    if ao:
        x1 = emb.mo_coeff_occ @ x1 @ emb.mo_coeff_vir.T
        x2 = c.einsum("Ii,Jj,ijab,Aa,Bb->IJAB", emb.mo_coeff_occ, emb.mo_coeff_occ, x2, emb.mo_coeff_vir, emb.mo_coeff_vir)
    c.eq("1", am.get_global_t1_rhf(emb, get_lambda=a == "l", ao_basis=ao), x1)
    c.eq("2", am.get_global_t2_rhf(emb, get_lambda=a == "l", ao_basis=ao), x2)


@contract(P, "sym_amps_u", ["amplitudes.get_global_t1_uhf", "amplitudes.get_global_t2_uhf"],
          cases=product_cases(a=["t", "l"], ao=[False, True]))
def _(c, a, ao):
    emb = es.build_u(c)
    x1, x2 = es.global_u(c, emb, a)
    if ao:
        co, cv = emb.mo_coeff_occ, emb.mo_coeff_vir
        x1 = tuple(co[s] @ x1[s] @ cv[s].T for s in range(2))
        x2 = tuple(c.einsum("Ii,Jj,ijab,Aa,Bb->IJAB", co[s], co[t], x2[k], cv[s], cv[t])
                   for k, (s, t) in enumerate([(0, 0), (0, 1), (1, 1)]))
    c.eq("1", am.get_global_t1_uhf(emb, get_lambda=a == "l", ao_basis=ao), x1)
    c.eq("2", am.get_global_t2_uhf(emb, get_lambda=a == "l", ao_basis=ao), x2)


@contract(P, "sym_rdm1_r", ["rdm.make_rdm1_ccsd_global_wf"], timeout=500, opaque_minmax=True,
          cases=product_cases(tl=[False, True], late=[False, True], t1=[True, False]))
def _(c, tl, late, t1):
    emb = es.build_r(c)
    x1, x2 = es.global_r(c, emb, "t")
    l1, l2 = (x1, x2) if tl else es.global_r(c, emb, "l")
    if not t1:
        x1 = l1 = 0 * x1
    mo = SpatialOrbitals(emb.mo_coeff, occ=occ_vec(c, emb.nocc, emb.nvir, 2))
    d = rdm1_spec_r(c, x1, x2, l1, l2)
    got = rdm.make_rdm1_ccsd_global_wf(emb, t_as_lambda=tl, svd_tol=None, late_t2_sym=late, use_sym=True, with_t1=t1)
    o = emb.nocc
    for nm, sl in BL(o):
        c.eq(nm, got[sl], d[nm])


def BL(o):
    return (("oo", (slice(None, o), slice(None, o))), ("ov", (slice(None, o), slice(o, None))),
            ("vo", (slice(o, None), slice(None, o))), ("vv", (slice(o, None), slice(o, None))))


def rdm1_spec_r(c, t1, t2, l1, l2):
    """Closed-shell CCSD 1-RDM (correlation part, spin-summed)."""
    E = c.einsum
    th = 2 * t2 - t2.transpose(0, 1, 3, 2)
    doo = -E("jkab,ikab->ij", th, l2)
    dvv = E("jica,jicb->ab", th, l2)
    dov = t1 + l1 - E("ie,me,ma->ia", t1, l1, t1) + E("ijab,jb->ia", th, l1)
    dov = dov + E("mi,ma->ia", doo, t1) - E("ie,ae->ia", t1, dvv)
    doo = doo - E("ja,ia->ij", t1, l1)
    dvv = dvv + E("ia,ib->ab", t1, l1)
    return dict(oo=doo + doo.T, vv=dvv + dvv.T, ov=dov, vo=dov.T)


def rdm1_spec_u(c, t1, t2, l1, l2):
    """UCCSD 1-RDM, correlation part; returns per-spin block dicts."""
    E = c.einsum
    out = []
    for s in range(2):
        r = 1 - s
        ss = t2[0] if s == 0 else t2[2]
        ls = l2[0] if s == 0 else l2[2]
        ab = t2[1] if s == 0 else t2[1].transpose(1, 0, 3, 2)
        lab_ = l2[1] if s == 0 else l2[1].transpose(1, 0, 3, 2)
        tos = E("ikab,jkab->ij", ss, ls) / 2 + E("ikab,jkab->ij", ab, lab_)      # [theta, lambda]
        tvs = E("ijac,ijbc->ab", ss, ls) / 2 + E("ijac,ijbc->ab", ab, lab_)
        dov = t1[s] + l1[s] - E("ie,me,ma->ia", t1[s], l1[s], t1[s]) + E("ijab,jb->ia", ss, l1[s]) + E("ijab,jb->ia", ab, l1[r])
        dov = dov - E("im,ma->ia", tos, t1[s]) - E("ie,ae->ia", t1[s], tvs)
        doo = -tos - E("ja,ia->ij", t1[s], l1[s])
        dvv = tvs + E("ia,ib->ab", t1[s], l1[s])
        out.append(dict(oo=(doo + doo.T) / 2, vv=(dvv + dvv.T) / 2, ov=dov / 2, vo=dov.T / 2))
    return out


@contract(P, "sym_rdm1_u", ["urdm.make_rdm1_ccsd_global_wf"], timeout=500, opaque_minmax=True,
          cases=product_cases(tl=[False, True], late=[True, False]))
def _(c, tl, late):
    emb = es.build_u(c, nfrag=2)
    x1, x2 = es.global_u(c, emb, "t")
    l1, l2 = (x1, x2) if tl else es.global_u(c, emb, "l")
    d = rdm1_spec_u(c, x1, x2, l1, l2)
    got = urdm.make_rdm1_ccsd_global_wf(emb, t_as_lambda=tl, svd_tol=None, late_t2_sym=late, use_sym=True)
    for s in range(2):
        for nm, sl in BL(emb.nocc[s]):
            c.eq("%d%s" % (s, nm), got[s][sl], d[s][nm])


@contract(P, "sym_rdm1_pair_r", ["rdm.make_rdm1_ccsd"], cases=product_cases(tl=[False, True], sy=[True, False], mp2=[False, True], mf=[True, False]))
def _(c, tl, sy, mp2, mf):
    """Sum of single-cluster contributions for one cluster that is the whole space and whose fragment projector is P:
    every cluster contribution is the projected term of the RDM equations."""
    emb = es.build_r(c)
    E = c.einsum
    got = rdm.make_rdm1_ccsd(emb, t_as_lambda=tl, symmetrize=sy, mp2=mp2, with_mf=mf)
    tl = tl or mp2
    doo = dvv = dov = 0
    if not mp2:
        t1 = es.global_r(c, emb, "t")[0]
        l1 = t1 if tl else es.global_r(c, emb, "l")[0]
    for f in emb.fragments:
        t2 = f.amps["t2"]
        l2 = t2 if tl else f.amps["l2"]
        th = 2 * t2 - t2.transpose(0, 1, 3, 2)
        doo = doo - E("Ii,xiab,xjab,Jj->IJ", f.Ro, th, l2, f.Ro)
        if sy:
            dvv = dvv + E("Aa,xiac,xibc,Bb->AB", f.Rv, th, l2, f.Rv) / 2 + E("Aa,xica,xicb,Bb->AB", f.Rv, th, l2, f.Rv) / 2
        else:
            dvv = dvv + E("Aa,xica,xicb,Bb->AB", f.Rv, th, l2, f.Rv)
        if not mp2:
            thf = E("xjab,xk,Kk,Jj,Aa,Bb->KJAB", th, f.Pf, f.Ro, f.Ro, f.Rv, f.Rv)
            dov = dov + E("KJAB,JB->KA", (thf + thf.transpose(1, 0, 3, 2)) / 2 if sy else thf, l1)
    if not mp2:
        dov = dov + E("IJ,JA->IA", doo, t1) - E("IB,AB->IA", t1, dvv) + t1 + l1 - E("IA,JA,JB->IB", t1, l1, t1)
        doo = doo - E("IA,JA->IJ", l1, t1)
        dvv = dvv + E("IA,IB->AB", t1, l1)
    o = emb.nocc
    c.eq("oo", got[:o, :o], doo + doo.T + (2 * c.eye(o) if mf else 0))
    c.eq("vv", got[o:, o:], dvv + dvv.T)
    if not mp2:
        c.eq("ov", got[:o, o:], dov)
        c.eq("vo", got[o:, :o], dov.T)
    else:
        c.eq("ov", got[:o, o:], c.zeros(o, emb.nvir))

