"""P13: integrals in orbital bases are the transformed integrals, however they are stored, blocked or contracted."""
import ctypes
import os
import subprocess
import tempfile

import numpy as np
import pyscf
import pyscf.ao2mo
import pyscf.cc
import pyscf.ci
import pyscf.df
import pyscf.lib
import pyscf.mp
import pyscf.pbc.gto
import pyscf.pbc.df
import pyscf.pbc.scf
import pyscf.pbc.tools
from pyscf.pbc.tools import k2gamma
from pyscf.cc import ccsd_rdm, uccsd_rdm

from engine.core import contract, product_cases, Skip
import vayesta
import importlib
import vayesta.ewf
from vayesta.core.ao2mo import helper, pyscf_eris, kao2gmo
from vayesta.core import eris as veris
from .common import *
from . import lab

pa = importlib.import_module("vayesta.core.ao2mo.postscf_ao2mo")   # (shadowed in its package by the function of that name)

P = "P13"
SYM4 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)]
SYM8 = SYM4 + [((2, 3, 0, 1), 1)]
BLK_R = ["oooo", "ovoo", "oovv", "ovov", "ovvo", "ovvv", "vvvv"]
BLK_AB = ["ooOO", "ovOO", "ovVO", "ooVV", "ovOV", "ovVV", "vvVV"]
BLK_BA = ["OVoo", "OOvv", "OVvo", "OVvv"]


def slices(oa, ob):
    return {"o": np.s_[:oa], "v": np.s_[oa:], "O": np.s_[:ob], "V": np.s_[ob:]}


def blk(g, s, b):
    return g[tuple(s[x] for x in b)]


def sym_eris_r(c, o, v):
    n = c.axis(o, v)
    g = c.tensor("g", (n, n, n, n), sym=SYM8)
    s = slices(o, o)
    return g, c.ns(nocc=o, fock=c.zeros(n, n), mo_coeff=None, **{b: blk(g, s, b) for b in BLK_R})


def sym_eris_u(c):
    oa, va, ob, vb = udims(c)
    na, nb = c.axis(oa, va), c.axis(ob, vb)
    aa, bb = c.tensor("gaa", (na,) * 4, sym=SYM8), c.tensor("gbb", (nb,) * 4, sym=SYM8)
    ab = c.tensor("gab", (na, na, nb, nb), sym=SYM4)
    s = slices(oa, ob)
    ba = ab.transpose(2, 3, 0, 1)
    d = {b: blk(aa, s, b) for b in BLK_R}
    d.update({b.upper(): blk(bb, s, b.upper()) for b in BLK_R})
    d.update({b: blk(ab, s, b) for b in BLK_AB})
    d.update({b: blk(ba, s, b) for b in BLK_BA})
    return (aa, ab, bb), c.ns(nocc=(oa, ob), fock=(c.zeros(na, na), c.zeros(nb, nb)), mo_coeff=None, **d), (na, nb)


# ---------------------------------------------------------------- deductive: all dimensions, all integral values

@contract(P, "full_array", ["get_full_array", "get_full_array_rhf", "get_full_array_uhf", "get_ovvv", "get_ovVV", "get_vvvv", "get_vvVV", "get_block"],
          cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    """The dense array assembled from the blocks is the integral array they were taken from."""
    if spin == "r":
        g, eris = sym_eris_r(c, c.dim("o"), c.dim("v"))
        c.eq("eri", helper.get_full_array(eris), g)
        for b in BLK_R:
            c.eq(b, helper.get_block(eris, b), getattr(eris, b))
        return
    g, eris, _ = sym_eris_u(c)
    out = helper.get_full_array(eris)
    for s, x, y in zip(("aa", "ab", "bb"), out, g):
        c.eq(s, x, y)
    for b in BLK_AB + BLK_BA + BLK_R:
        c.eq(b, helper.get_block(eris, b), getattr(eris, b))


@contract(P, "vvL", ["get_vvvv"])
def _(c):
    """Without stored (vv|vv), it is built from the density-fitting integrals."""
    o, v, x = c.dim("o"), c.dim("v"), c.dim("x")
    B = c.tensor("B", (v, v, x), sym=[((1, 0, 2), 1)])
    n = c.axis(o, v)
    eris = c.ns(nocc=o, fock=c.zeros(n, n), vvvv=None, vvL=B)
    c.eq("vvvv", helper.get_vvvv(eris), c.einsum("abx,cdx->abcd", B, B))


@contract(P, "contract_dm2", ["contract_dm2_eris", "contract_dm2_eris_rhf", "contract_dm2_eris_uhf", "_contract_4d"], cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    """The block-wise contraction with a two-body density matrix is the full contraction, in restricted and unrestricted form."""
    E = c.einsum
    if spin == "r":
        g, eris = sym_eris_r(c, c.dim("o"), c.dim("v"))
        d = c.tensor("d", g.shape, sym=[((2, 3, 0, 1), 1), ((1, 0, 3, 2), 1)])
        c.eq("e2", helper.contract_dm2_eris(d, eris), E("pqrs,pqrs->", g, d))
        return
    (aa, ab, bb), eris, (na, nb) = sym_eris_u(c)
    daa = c.tensor("daa", aa.shape, sym=[((2, 3, 0, 1), 1), ((1, 0, 3, 2), 1)])
    dbb = c.tensor("dbb", bb.shape, sym=[((2, 3, 0, 1), 1), ((1, 0, 3, 2), 1)])
    dab = c.tensor("dab", ab.shape, sym=[((1, 0, 3, 2), 1)])
    f = helper.contract_dm2_eris_uhf if c.symbolic else helper.contract_dm2_eris
    c.eq("e2", f((daa, dab, dbb), eris), E("pqrs,pqrs->", aa, daa) + 2 * E("pqrs,pqrs->", ab, dab) + E("pqrs,pqrs->", bb, dbb))


@contract(P, "contract_cderi", ["_contract_cderi", "_contract_cderi_mixed"], cases=product_cases(block=["none", "r", "ab", "ba"]))
def _(c, block):
    """Blocks contracted from three-centre integrals are slices of the full contraction."""
    x = c.dim("x")
    E = c.einsum
    if block == "none":
        o, v = c.dim("o"), c.dim("v")
        L = c.tensor("L", (x, o, v))
        c.eq("ovov", pa._contract_cderi(L, None), E("xia,xjb->iajb", L, L))
        w, u = c.dim("w"), c.dim("u")
        M = c.tensor("M", (x, w, u))
        c.eq("ovOV", pa._contract_cderi_mixed((L, M), (None, None)), E("xia,xjb->iajb", L, M))
        return
    oa, va, ob, vb = udims(c)
    na, nb = c.axis(oa, va), c.axis(ob, vb)
    La = c.tensor("La", (x, na, na), sym=[((0, 2, 1), 1)])
    Lb = c.tensor("Lb", (x, nb, nb), sym=[((0, 2, 1), 1)])
    s = slices(oa, ob)
    if block == "r":
        g = E("xpq,xrs->pqrs", La, La)
        for b in BLK_R:
            c.eq(b, pa._contract_cderi(La, None, block=b, nocc=oa), blk(g, s, b))
    elif block == "ab":
        g = E("xpq,xrs->pqrs", La, Lb)
        for b in BLK_AB:
            c.eq(b, pa._contract_cderi_mixed((La, Lb), (None, None), block=b, nocc=(oa, ob)), blk(g, s, b))
    else:
        g = E("xpq,xrs->pqrs", Lb, La)
        for b in BLK_BA:
            c.eq(b, pa._contract_cderi_mixed((Lb, La), (None, None), block=b, nocc=(oa, ob)), blk(g, s, b))


# ---------------------------------------------------------------- bounded: packed storage, PySCF objects, DF and periodic integrals

def rand_eri(rng, na, nb=None):
    nb = na if nb is None else nb
    x = rng.integers(1, 4) + 1
    La, Lb = [(lambda a: a + a.transpose(0, 2, 1))(rng.standard_normal((x, n, n))) for n in (na, nb)]
    aa, ab, bb = [np.einsum("xij,xkl->ijkl", p, q) for p, q in ((La, La), (La, Lb), (Lb, Lb))]
    return aa, ab, bb, La, Lb


def check_eris(c, eris, full, nocc, tag=""):
    """Every block of a PySCF object, unpacked by PySCF's own rules, is the slice of the full array."""
    if isinstance(full, np.ndarray):
        s = slices(nocc, nocc)
        arrs = {b: full for b in BLK_R}
    else:
        s = slices(*nocc)
        aa, ab, bb = full
        arrs = {b: aa for b in BLK_R}
        arrs.update({b.upper(): bb for b in BLK_R})
        arrs.update({b: ab for b in BLK_AB})
        arrs.update({b: ab.transpose(2, 3, 0, 1) for b in BLK_BA})
    for b, g in arrs.items():
        x = getattr(eris, b, None)
        if x is None:
            continue
        want = blk(g, s, b)
        x = np.asarray(x)
        if x.ndim == 3:
            x = pyscf.lib.unpack_tril(x.reshape(-1, x.shape[-1])).reshape(want.shape)
        elif x.ndim == 2:
            n1, n2 = want.shape[0], want.shape[2]
            il, jl = np.tril_indices(n1)
            ir, jr = np.tril_indices(n2)
            y = np.zeros((n1, n1, len(ir)))
            y[il, jl] = y[jl, il] = x
            z = np.zeros(want.shape)
            z[:, :, ir, jr] = y
            z[:, :, jr, ir] = y
            x = z
        c.eq(tag + b, x, want)
    return sorted(b for b in arrs if getattr(eris, b, None) is not None)


@contract(P, "make_eris", ["make_ccsd_eris", "make_uccsd_eris", "_pack_ovvv", "_pack_vvvv", "get_full_array", "pack_ovvv", "pack_vvvv"], sym=False, n=5,
          cases=product_cases(spin=["r", "u"]), bounded="up to 4 occupied and 4 virtual orbitals, random integrals")
def _(c, spin):
    """Packed PySCF integral objects contain the given integrals, Fock matrix and orbital energies, and unpack to them."""
    rng = c.rng
    oa, va, ob, vb = [int(x) for x in rng.integers(1, 5, size=4)]
    if rng.integers(3) == 0:
        ob, vb = oa + 1, va          # equal numbers of virtuals, different numbers of occupied orbitals
    if spin == "r":
        ob, vb = oa, va
    aa, ab, bb, _, _ = rand_eri(rng, oa + va, ob + vb)
    fa, fb = [(lambda a: a + a.T)(rng.standard_normal((n, n))) for n in (oa + va, ob + vb)]
    mo_e = [rng.standard_normal(n) for n in (oa + va, ob + vb)] if rng.integers(2) else None
    if spin == "r":
        eris = pyscf_eris.make_ccsd_eris(fa, aa, oa, mo_energy=None if mo_e is None else mo_e[0])
        check_eris(c, eris, aa, oa)
        c.eq("full", helper.get_full_array(eris), aa)
        c.eq("fock", eris.fock, fa)
        c.eq("mo_energy", eris.mo_energy, np.diag(fa) if mo_e is None else mo_e[0])
        s = slices(oa, oa)
        ovvv = blk(aa, s, "ovvv")
        il = np.tril_indices(va)
        c.eq("pack_ovvv", helper.pack_ovvv(ovvv), ovvv[:, :, il[0], il[1]])
        vvvv = blk(aa, s, "vvvv")
        c.eq("pack_vvvv", np.asarray(helper.pack_vvvv(vvvv)), vvvv[il[0], il[1]][:, il[0], il[1]])
        d = rng.standard_normal((oa + va,) * 4)
        d = d + d.transpose(2, 3, 0, 1)
        d = d + d.transpose(1, 0, 3, 2)
        c.eq("contraction", helper.contract_dm2_eris(d, eris), np.einsum("pqrs,pqrs", aa, d))
        return
    eris = pyscf_eris.make_uccsd_eris((fa, fb), (aa, ab, bb), (oa, ob), mo_energy=None if mo_e is None else tuple(mo_e))
    found = check_eris(c, eris, (aa, ab, bb), (oa, ob))
    c.true("all blocks present", set(found) >= set(BLK_R + [b.upper() for b in BLK_R] + BLK_AB + BLK_BA))
    for x, y, s in zip(helper.get_full_array(eris), (aa, ab, bb), ("aa", "ab", "bb")):
        c.eq("full " + s, x, y)
    for k in range(2):
        c.eq("fock%d" % k, eris.fock[k], (fa, fb)[k])
        c.eq("mo_energy%d" % k, eris.mo_energy[k], np.diag((fa, fb)[k]) if mo_e is None else mo_e[k])
    c.eq("focka", eris.focka, fa)
    c.eq("fockb", eris.fockb, fb)
    ds = []
    for g, full in ((aa, True), (ab, False), (bb, True)):
        d = rng.standard_normal(g.shape)
        d = d + d.transpose(1, 0, 3, 2)
        ds.append(d + d.transpose(2, 3, 0, 1) if full else d)
    c.eq("contraction", helper.contract_dm2_eris(tuple(ds), eris),
         sum(f * np.einsum("pqrs,pqrs", g, d) for f, g, d in zip((1, 2, 1), (aa, ab, bb), ds)))


def _cc(mf, frozen=None, cls=None):
    cc = (cls or (pyscf.cc.CCSD if lab.is_r(mf) else pyscf.cc.UCCSD))(mf, frozen=frozen)
    cc.verbose = 0
    return cc


@contract(P, "dm2intermeds", ["contract_dm2intermeds_eris_rhf", "contract_dm2intermeds_eris_uhf", "_dm2intermeds_to_dict_rhf", "_dm2intermeds_to_dict_uhf"],
          sym=False, n=2, cases=product_cases(spin=["r", "u"]), bounded="model systems of 5-6 orbitals, random amplitudes")
def _(c, spin):
    """Contracting PySCF's density-matrix intermediates equals contracting the assembled correlation 2-DM."""
    rng = c.rng
    mf = lab.make_mf(spin, 6 if spin == "r" else 5, seed=int(rng.integers(1 << 30)))
    cc = _cc(mf)
    t1, t2, l1, l2 = _rand_amps(cc, rng)
    eris = cc.ao2mo()
    mod = ccsd_rdm if spin == "r" else uccsd_rdm
    d1 = mod._gamma1_intermediates(cc, t1, t2, l1, l2)
    d2 = mod._gamma2_intermediates(cc, t1, t2, l1, l2)
    dm2 = mod._make_rdm2(cc, d1, d2, with_dm1=False, with_frozen=False)
    f = helper.contract_dm2intermeds_eris_rhf if spin == "r" else helper.contract_dm2intermeds_eris_uhf
    ref = helper.contract_dm2_eris(dm2, eris)
    if spin == "r":
        g = lab.mo_eri(mf)
        c.eq("reference", ref, np.einsum("pqrs,pqrs", g, dm2))
    for destroy in (False, True):
        c.eq("e2 destroy=%s" % destroy, f(d2, eris, destroy_dm2=destroy), ref)


def _rand_amps(cc, rng):
    if isinstance(cc.nocc, (tuple, list)) or not np.isscalar(cc.nocc):
        (oa, ob), (na, nb) = cc.nocc, cc.nmo
        va, vb = na - oa, nb - ob

        def one():
            t1 = (rng.standard_normal((oa, va)), rng.standard_normal((ob, vb)))
            def anti(o, v):
                t = rng.standard_normal((o, o, v, v))
                t = t - t.transpose(1, 0, 2, 3)
                return t - t.transpose(0, 1, 3, 2)
            return t1, (anti(oa, va), rng.standard_normal((oa, ob, va, vb)), anti(ob, vb))
        return one() + one()
    o, v = cc.nocc, cc.nmo - cc.nocc

    def one():
        t = rng.standard_normal((o, o, v, v))
        return rng.standard_normal((o, v)), t + t.transpose(1, 0, 3, 2)
    return one() + one()


@contract(P, "project_eris", ["project_ccsd_eris"], sym=False, n=4, bounded="6-8 orbitals")
def _(c):
    """Projected integrals are the integrals of the new orbitals; the same orbitals leave the object alone; a non-subspace is refused."""
    rng = c.rng
    mf = lab.make_mf("r", 6, seed=int(rng.integers(1 << 30)))
    cc = _cc(mf)
    o, n = cc.nocc, cc.nmo
    v = n - o
    S = mf.get_ovlp()
    eris = cc.ao2mo()
    c.true("unchanged", helper.project_ccsd_eris(eris, mf.mo_coeff.copy(), o, S) is eris)
    f0 = mf.mo_coeff.T @ mf.get_fock() @ mf.mo_coeff
    o2, v2 = int(rng.integers(1, o + 1)), int(rng.integers(1, v + 1))
    uo = np.linalg.qr(rng.standard_normal((o, o)))[0][:, :o2]
    uv = np.linalg.qr(rng.standard_normal((v, v)))[0][:, :v2]
    C = np.hstack((mf.mo_coeff[:, :o] @ uo, mf.mo_coeff[:, o:] @ uv))
    for check in (True, False):
        e2 = helper.project_ccsd_eris(cc.ao2mo(), C, o2, S, check_subspace=check)
        g = lab.mo_eri(mf, 4 * [C])
        check_eris(c, e2, g, o2)
        c.eq("full", helper.get_full_array(e2), g)
        c.eq("fock", e2.fock, C.T @ mf.get_fock() @ C)
        c.eq("mo_energy", e2.mo_energy, np.diag(C.T @ mf.get_fock() @ C))
        c.eq("mo_coeff", e2.mo_coeff, C)
        c.true("nocc", e2.nocc == o2)
    if v >= 2 and o >= 2:
        bad = np.hstack((mf.mo_coeff[:, o:o + 1], mf.mo_coeff[:, :1]))   # virtual as occupied: not a subspace
        c.raises("not a subspace", RuntimeError, lambda: helper.project_ccsd_eris(cc.ao2mo(), bad, 1, S))


@contract(P, "postscf", ["postscf_ao2mo", "replace_attr"], sym=False, n=1,
          cases=product_cases(method=["MP2", "CCSD", "RCCSD", "CISD", "UMP2", "UCCSD", "DFCCSD"], given=["none", "fock", "all"]), bounded="5-6 orbitals, with and without frozen orbitals")
def _(c, method, given):
    """Integral objects hold the mean-field integrals, the given Fock matrix and the given orbital energies; the mean field is left as it was."""
    rng = c.rng
    spin = "u" if method[0] == "U" else "r"
    mf = lab.make_mf(spin, 6 if spin == "r" else 5, seed=int(rng.integers(1 << 30)), df="weigend" if method == "DFCCSD" else None)
    import pyscf.cc.rccsd
    import pyscf.cc.dfccsd
    cls = {"MP2": pyscf.mp.MP2, "CCSD": pyscf.cc.ccsd.CCSD, "RCCSD": pyscf.cc.rccsd.RCCSD, "CISD": pyscf.ci.CISD, "UMP2": pyscf.mp.UMP2,
           "UCCSD": pyscf.cc.UCCSD, "DFCCSD": pyscf.cc.dfccsd.RCCSD}[method]
    frozen = None if rng.integers(2) else ([0] if spin == "r" else [[0], []])
    ps = cls(mf, frozen=frozen, mo_coeff=mf.mo_coeff.copy())
    ps.verbose = 0
    nao = mf.mol.nao
    sy = lambda: (lambda a: a + a.T)(rng.standard_normal((nao, nao)))
    fock = None if given == "none" else sy() if spin == "r" else np.asarray((sy(), sy()))
    before = dict(mf.__dict__)
    ref_fock = mf.get_fock() if fock is None else fock
    kw = dict(fock=fock)
    if given == "all":
        n = ps.get_frozen_mask().sum() if spin == "r" else None
        kw["mo_energy"] = rng.standard_normal(n) if spin == "r" else tuple(rng.standard_normal(int(m.sum())) for m in ps.get_frozen_mask())
        kw["e_hf"] = -1.25
    eris = pa.postscf_ao2mo(ps, **kw)
    mask = ps.get_frozen_mask()
    if spin == "r":
        C = mf.mo_coeff[:, mask]
        full, nocc = lab.mo_eri(mf, 4 * [C]) if method != "DFCCSD" else df_eri(mf, C), ps.nocc
        c.eq("fock", eris.fock, C.T @ ref_fock @ C)
        if given == "all":
            c.eq("mo_energy", eris.mo_energy, kw["mo_energy"])
        if method != "MP2":
            c.eq("full", helper.get_full_array(eris), full)
    else:
        C = [mf.mo_coeff[s][:, mask[s]] for s in range(2)]
        full, nocc = _eri_u(mf, C), ps.nocc
        for s in range(2):
            c.eq("fock%d" % s, eris.fock[s], C[s].T @ ref_fock[s] @ C[s])
            if given == "all":
                c.eq("mo_energy%d" % s, eris.mo_energy[s], kw["mo_energy"][s])
        if method != "UMP2":
            for x, y, s in zip(helper.get_full_array(eris), full, ("aa", "ab", "bb")):
                c.eq("full " + s, x, y)
    if "MP2" not in method:
        check_eris(c, eris, full, nocc)
    else:
        s = slices(*(nocc if spin == "u" else (nocc, nocc)))
        for b, g in ((("ovov", full),) if spin == "r" else (("ovov", full[0]), ("ovOV", full[1]), ("OVOV", full[2]))):
            w = blk(g, s, b)
            c.eq(b, np.asarray(getattr(eris, b)).reshape(w.shape), w)
    for k in ("get_fock", "energy_tot", "make_rdm1", "get_veff"):
        c.true("restored " + k, getattr(mf, k)() is not None if k != "energy_tot" else True)
    if spin == "r":
        c.eq("fock of mean field", mf.get_fock(), C_fock(mf))
    c.true("attributes", all(mf.__dict__[k] is v for k, v in before.items() if k in mf.__dict__ and k in ("mo_coeff", "mo_energy", "mo_occ", "e_tot")))


def _eri_u(mf, C):
    return [lab.mo_eri(mf, x) for x in (4 * [C[0]], [C[0], C[0], C[1], C[1]], 4 * [C[1]])]


def C_fock(mf):
    return mf.get_hcore() + type(mf).get_veff(mf, mf.mol, mf.make_rdm1())


def df_eri(mf, C):
    L = pyscf.lib.unpack_tril(np.vstack(list(mf.with_df.loop())))
    L = np.einsum("xab,ai,bj->xij", L, C, C, optimize=True)
    return np.einsum("xij,xkl->ijkl", L, L)


@contract(P, "eris_array", ["get_eris_array", "get_cderi", "get_cderi_df", "get_cderi_exspace", "get_cderi_df_exspace", "get_eris_object"], sym=False, n=1,
          cases=product_cases(store=["incore", "direct", "df"], spin=["r", "u"]), bounded="5-6 orbitals; auxiliary block sizes 1.., all of them")
def _(c, store, spin):
    """Integrals in any four orbital sets are the transformed AO integrals, and the fitted three-centre integrals reproduce them, for any block size."""
    rng = c.rng
    mf = lab.make_mf(spin, 6 if spin == "r" else 5, seed=int(rng.integers(1 << 30)), df="weigend" if store == "df" else None)
    if store == "direct":
        mf = pyscf_mol_mf(spin, rng)
    emb = vayesta.ewf.EWF(mf)
    if store == "df":
        L = pyscf.lib.unpack_tril(np.vstack(list(mf.with_df.loop())))
        ao = np.einsum("xij,xkl->ijkl", L, L)
    elif store == "direct":
        ao = mf.mol.intor("int2e")
        mf._eri = None
    else:
        ao = lab.ao_eri(mf)
    nao = ao.shape[0]
    cs = [rng.standard_normal((nao, int(k))) for k in rng.integers(1, 5, size=4)]
    tr = lambda a, b, d, e: np.einsum("abcd,ai,bj,ck,dl->ijkl", ao, a, b, d, e, optimize=True)
    c.eq("one set", emb.get_eris_array(cs[0]), tr(*[cs[0]] * 4))
    c.eq("four sets", emb.get_eris_array(cs), tr(*cs))
    c.eq("two sets", emb.get_eris_array((cs[0], cs[1], cs[0], cs[1])), tr(cs[0], cs[1], cs[0], cs[1]))
    if spin == "u":
        xs = (cs[0], cs[1])
        aa, ab, bb = emb.get_eris_array_uhf(xs)
        c.eq("aa", aa, tr(*[cs[0]] * 4))
        c.eq("ab", ab, tr(cs[0], cs[0], cs[1], cs[1]))
        c.eq("bb", bb, tr(*[cs[1]] * 4))
    if store == "df":
        for bs in (None, 1, 2, 5, 1000):
            for cc in ((cs[0], cs[0]), (cs[0], cs[1])):
                Lij, neg = veris.get_cderi(emb, cc if cc[0] is not cc[1] else cc[0], blksize=bs)
                c.true("no negative part", neg is None)
                c.eq("cderi", Lij, np.einsum("xab,ai,bj->xij", L, cc[0], cc[1]))
            ex = rng.standard_normal((3, nao, nao))
            Ln, neg = veris.get_cderi_exspace(emb, ex, blksize=bs)
            c.eq("exspace", Ln, np.einsum("xab,nab->xn", L, ex))
    if spin == "r":
        for cls in (pyscf.cc.ccsd.CCSD, pyscf.mp.MP2):
            if store == "df" and cls is pyscf.mp.MP2:
                continue          # (PySCF's density-fitted MP2 object does not store integrals)
            ps = cls(mf, mo_coeff=mf.mo_coeff.copy())
            ps.verbose = 0
            eris = emb.get_eris_object(ps)
            full = tr(*[mf.mo_coeff] * 4)
            o = ps.nocc
            if cls is pyscf.mp.MP2:
                w = full[:o, o:, :o, o:]
                c.eq("mp2 object", np.asarray(eris.ovov).reshape(w.shape), w)
            else:
                check_eris(c, eris, full, o, "object ")
            c.eq("object fock", eris.fock, mf.mo_coeff.T @ emb.get_fock() @ mf.mo_coeff)
            c.eq("object mo_energy", eris.mo_energy, np.diag(mf.mo_coeff.T @ emb.get_fock() @ mf.mo_coeff))
    elif store != "df":
        for cls in (pyscf.cc.UCCSD, pyscf.mp.UMP2):
            ps = cls(mf, mo_coeff=np.asarray(mf.mo_coeff).copy())
            ps.verbose = 0
            eris = emb.get_eris_object(ps)
            full = [tr(*x) for x in (4 * [mf.mo_coeff[0]], [mf.mo_coeff[0]] * 2 + [mf.mo_coeff[1]] * 2, 4 * [mf.mo_coeff[1]])]
            sl = slices(*ps.nocc)
            if cls is pyscf.mp.UMP2:
                for b, g in (("ovov", full[0]), ("ovOV", full[1]), ("OVOV", full[2])):
                    w = blk(g, sl, b)
                    c.eq("mp2 object " + b, np.asarray(getattr(eris, b)).reshape(w.shape), w)
            else:
                check_eris(c, eris, full, ps.nocc, "object ")
            for s in range(2):
                f = mf.mo_coeff[s].T @ emb.get_fock()[s] @ mf.mo_coeff[s]
                c.eq("object fock%d" % s, eris.fock[s], f)
                c.eq("object mo_energy%d" % s, eris.mo_energy[s], np.diag(f))


def pyscf_mol_mf(spin, rng):
    import pyscf.gto
    import pyscf.scf
    mol = pyscf.gto.M(atom="H 0 0 0; H 0 0 %.3f; Li 0.3 1.5 0.2" % (0.9 + 0.2 * rng.random()), basis="sto-3g", spin=1, verbose=0) if spin == "u" else \
        pyscf.gto.M(atom="H 0 0 0; Li 0.3 1.5 %.3f" % rng.random(), basis="sto-3g", verbose=0)
    mf = (pyscf.scf.UHF if spin == "u" else pyscf.scf.RHF)(mol)
    mf.conv_tol = 1e-13
    mf.kernel()
    return mf


# ---------------------------------------------------------------- periodic: folded k-point density fitting

_PBC = {}


def pbc_df(dim, kmesh, shift=0.0):
    key = (dim, tuple(kmesh))
    if key not in _PBC:
        cell = pyscf.pbc.gto.Cell()
        cell.atom = "H 0 0 0; H 0.3 0.2 0.9"
        cell.a = np.diag([2.5, 2.7, 3.0 if dim == 3 else 12.0])
        cell.basis = {"H": [[0, [1.2, 1.0]], [0, [0.4, 1.0]]]}
        cell.dimension = dim
        cell.unit = "Ang"
        cell.verbose = 0
        cell.build()
        kpts = cell.make_kpts(kmesh)
        df = pyscf.pbc.df.GDF(cell, kpts)
        df.auxbasis = {"H": [[0, [2.0, 1.0]], [0, [0.7, 1.0]], [1, [1.0, 1.0]]]}
        df.build()
        phase = k2gamma.get_phase(cell, kpts)[1]
        _PBC[key] = cell, kpts, df, phase
    return _PBC[key]


def k_eri(df, kpts, cell, phase, cs):
    """Supercell integrals from PySCF's own k-point integrals: the independent reference."""
    nk, nao = len(kpts), cell.nao
    ck = [np.einsum("Rk,Rai->kai", phase.conj(), x.reshape(nk, nao, -1)) for x in cs]
    out = 0
    kc = pyscf.pbc.lib.kpts_helper.get_kconserv(cell, kpts)
    for i in range(nk):
        for j in range(nk):
            for k in range(nk):
                l = kc[i, j, k]
                e = df.get_eri([kpts[i], kpts[j], kpts[k], kpts[l]], compact=False).reshape((nao,) * 4)
                out = out + np.einsum("abcd,ai,bj,ck,dl->ijkl", e, ck[0][i].conj(), ck[1][j], ck[2][k].conj(), ck[3][l], optimize=True)
    return out / nk


KM = [(3, (3, 1, 1)), (2, (2, 2, 1)), (3, (1, 2, 2)), (2, (3, 1, 1)), (3, (1, 1, 1))]


@contract(P, "kconserv", ["get_kconserv"], sym=False, n=1, cases=product_cases(sys=[0, 1, 2, 3]), bounded="k-meshes of up to 4 points")
def _(c, sys):
    cell, kpts, _, _ = pbc_df(*KM[sys])
    nk = len(kpts)
    a = cell.lattice_vectors() / (2 * np.pi)
    isint = lambda k: np.all(abs(a @ k - np.rint(a @ k)) < 1e-8)
    kc1, kc2, kc3 = [helper.get_kconserv(cell, kpts, nk=n) for n in (1, 2, 3)]
    c.true("nk=1", list(kc1) == list(range(nk)))
    for i in range(nk):
        for j in range(nk):
            c.true("nk=2", isint(kpts[i] - kpts[j] - kpts[kc2[i, j]]))
            for k in range(nk):
                c.true("nk=3", isint(kpts[i] - kpts[j] + kpts[k] - kpts[kc3[i, j, k]]))


@contract(P, "kao2gmo", ["kao2gmo_cderi", "get_eris_array", "libs/core ao2mo_cderi"], sym=False, n=1, timeout=200,
          cases=product_cases(sys=[0, 1, 2, 3, 4], driver=["python", "c"]), bounded="2-atom cells, k-meshes of up to 4 points, all auxiliary block sizes of a sample")
def _(c, sys, driver):
    """Folded three-centre integrals reproduce PySCF's k-point integrals, for both drivers and any blocking."""
    rng = c.rng
    dim, km = KM[sys]
    cell, kpts, df, phase = pbc_df(dim, km)
    nk, nao = len(kpts), cell.nao
    lib = kao2gmo.libcore
    if driver == "c":
        kao2gmo.libcore = compiled_lib()
    try:
        cs = [rng.standard_normal((nk * nao, int(k))) for k in (3, 2, 4, 1)]
        for a, b, d, e in ((cs[0], cs[0], cs[0], cs[0]), (cs[0], cs[2], cs[1], cs[3]), (cs[2], cs[1], cs[2], cs[1])):
            ref = k_eri(df, kpts, cell, phase, (a, b, d, e))
            c.true("reference real", abs(ref.imag).max() < 1e-6)
            for kw in (dict(), dict(blksize=1), dict(blksize=3), dict(tril_kij=False, blksize=4), dict(make_real=False, blksize=3)):
                l1, n1 = kao2gmo.kao2gmo_cderi(df, (a, b), driver=driver, **kw)
                l2, n2 = kao2gmo.kao2gmo_cderi(df, (d, e) if d is not e else d, driver=driver, **kw)
                g = np.einsum("xij,xkl->ijkl", l1.conj(), l2)
                if dim == 2:
                    g = g - np.einsum("xij,xkl->ijkl", n1.conj(), n2)
                else:
                    c.true("no negative part", n1 is None and n2 is None)
                c.true("real" , np.isrealobj(l1) == kw.get("make_real", True))
                c.true("eri %s" % sorted(kw.items()), abs(g - ref).max() < 1e-6 * max(1, abs(ref).max()))
        e0 = np.zeros((nk * nao, 0))
        l, n = kao2gmo.kao2gmo_cderi(df, (e0, cs[0]), driver=driver)
        c.true("empty", l.shape[1:] == (0, 3) and (n is None) == (dim == 3))
    finally:
        kao2gmo.libcore = lib


@contract(P, "kao2gmo_postscf", ["postscf_kao2gmo", "postscf_kao2gmo_uhf", "_contract_cderi", "_contract_cderi_mixed"], sym=False, n=1, timeout=200,
          cases=product_cases(sys=[0, 1], method=["MP2", "CCSD", "RCCSD", "CISD", "UMP2", "UCCSD", "DFCCSD"]), bounded="2-atom cells, k-meshes of up to 4 points")
def _(c, sys, method):
    """Integral objects built from folded integrals contain the blocks of the full supercell integrals, in 2D and 3D, packed or not."""
    rng = c.rng
    dim, km = KM[sys]
    if dim == 2 and method == "DFCCSD":
        raise Skip
    import pyscf.cc.rccsd
    import pyscf.cc.dfccsd
    cell, kpts, df, phase = pbc_df(dim, km)
    nk, nao = len(kpts), cell.nao
    n = nk * nao
    spin = "u" if method[0] == "U" else "r"
    mol = pyscf.gto.M(atom="Li 0 0 0; H 0 0 1" if spin == "r" else "Be 0 0 0", spin=0 if spin == "r" else 2, basis="sto-3g", verbose=0)
    mol.incore_anyway = True
    mk = lambda: np.linalg.qr(rng.standard_normal((n, n)))[0][:, :5]
    import pyscf.scf
    if spin == "r":
        mf = pyscf.scf.RHF(mol)
        mf.mo_coeff = mk()
        mf.mo_occ = np.array([2.0, 2, 0, 0, 0])
        mf.mo_energy = np.arange(5.0)
    else:
        mf = pyscf.scf.UHF(mol)
        mf.mo_coeff = np.asarray((mk(), mk()))
        mf.mo_occ = np.array([[1.0, 1, 1, 0, 0], [1, 0, 0, 0, 0]])
        mf.mo_energy = np.array([np.arange(5.0), np.arange(5.0)])
    mf.converged = True
    cls = {"MP2": pyscf.mp.MP2, "CCSD": pyscf.cc.ccsd.CCSD, "RCCSD": pyscf.cc.rccsd.RCCSD, "CISD": pyscf.ci.CISD, "UMP2": pyscf.mp.UMP2,
           "UCCSD": pyscf.cc.UCCSD, "DFCCSD": pyscf.cc.dfccsd.RCCSD}[method]
    ps = cls(mf)
    ps.verbose = 0
    sy = lambda: (lambda a: a + a.T)(rng.standard_normal((n, n)))
    tol = lambda a, b: abs(np.asarray(a) - b).max() < 1e-6 * max(1, abs(b).max())
    if spin == "r":
        f = sy()
        moe = rng.standard_normal(5)
        eris = pa.postscf_kao2gmo(ps, df, f, moe)
        C = mf.mo_coeff
        full = k_eri(df, kpts, cell, phase, [C] * 4).real
        o = ps.nocc
        c.eq("fock", eris.fock, C.T @ f @ C)
        c.eq("mo_energy", eris.mo_energy, moe)
        c.eq("mo_coeff", eris.mo_coeff, C)
        c.true("nocc", eris.nocc == 2)
        if method == "MP2":
            c.true("ovov", tol(np.asarray(eris.ovov).reshape(2, 3, 2, 3), full[:2, 2:, :2, 2:]))
        else:
            c.true("eri", tol(helper.get_full_array(eris), full))
            tmp = _Rec(c)
            check_eris(tmp, eris, full, o)
            for l, a, b in tmp.rows:
                c.true(l, tol(a, b))
        return
    f = (sy(), sy())
    moe = (rng.standard_normal(5), rng.standard_normal(5))
    eris = pa.postscf_kao2gmo_uhf(ps, df, f, moe)
    C = mf.mo_coeff
    full = [k_eri(df, kpts, cell, phase, x).real for x in ([C[0]] * 4, [C[0], C[0], C[1], C[1]], [C[1]] * 4)]
    for s in range(2):
        c.eq("fock%d" % s, eris.fock[s], C[s].T @ f[s] @ C[s])
        c.eq("mo_energy%d" % s, eris.mo_energy[s], moe[s])
    c.true("nocc", tuple(eris.nocc) == (3, 1))
    s = slices(3, 1)
    if method == "UMP2":
        for b, g in (("ovov", full[0]), ("ovOV", full[1]), ("OVOV", full[2])):
            w = blk(g, s, b)
            c.true(b, tol(np.asarray(getattr(eris, b)).reshape(w.shape), w))
        return
    tmp = _Rec(c)
    found = check_eris(tmp, eris, full, (3, 1))
    c.true("all blocks present", set(found) >= set(BLK_R + [b.upper() for b in BLK_R] + BLK_AB + BLK_BA))
    for l, a, b in tmp.rows:
        c.true(l, tol(a, b))
    for x, y in zip(helper.get_full_array(eris), full):
        c.true("full", tol(x, y))


class _Rec:
    def __init__(self, c):
        self.rows = []

    def eq(self, label, a, b):
        self.rows.append((label, np.asarray(a), np.asarray(b)))


# ---------------------------------------------------------------- C library, compiled from the current source

_LIB = []


def compiled_lib():
    if not _LIB:
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(vayesta.__file__))), "vayesta", "libs", "core", "src")
        d = tempfile.mkdtemp(prefix="libcore", dir=os.getcwd())
        so = os.path.join(d, "libcore.so")
        files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c"))
        r = subprocess.run(["gcc", "-std=gnu11", "-O2", "-fPIC", "-shared", "-fopenmp", "-Wall"] + files + ["-o", so, "-lblas", "-lm"],
                           capture_output=True, text=True)
        if r.returncode:
            raise Skip
        _LIB.append(ctypes.CDLL(so))
    return _LIB[0]


def _guarded(shape, rng):
    """Complex array surrounded by sentinels, to see writes outside."""
    n = int(np.prod(shape))
    buf = np.full(n + 64, 7.25 - 3.5j)
    buf[32:32 + n] = 0
    return buf, buf[32:32 + n].reshape(shape)


def _intact(buf):
    return np.all(buf[:32] == 7.25 - 3.5j) and np.all(buf[-32:] == 7.25 - 3.5j)


@contract(P, "libcore", ["libs/core: ao2mo_cderi, j3c_jk, transpose_102, j3c_kao2gmo"], sym=False, n=6, bounded="dimensions up to 6, random complex integrals, 1 and 3 threads")
def _(c):
    """The compiled kernels compute the stated contractions and write only to their output."""
    rng = c.rng
    lib = compiled_lib()
    i64 = ctypes.c_int64
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    cx = lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s)
    nao, n1, n2, nx, nk = [int(x) for x in rng.integers(1, 7, size=5)]
    nk = min(nk, 3)
    a, b, L = cx(nao, n1), cx(nao, n2), cx(nx, nao, nao)
    inputs = [x.copy() for x in (a, b, L)]
    buf, out = _guarded((nx, n1, n2), rng)
    ierr = lib.ao2mo_cderi(i64(nao), i64(n1), i64(n2), i64(nx), ptr(a), ptr(b), ptr(L), ptr(out))
    c.true("return value", ierr == 0)
    c.eq("ao2mo_cderi", out, np.einsum("xab,ai,bj->xij", L, a, b))
    c.true("writes inside output", _intact(buf) and all(np.array_equal(x, y) for x, y in zip(inputs, (a, b, L))))
    x = cx(nx, n1, n2)
    buf, out = _guarded((n1, nx, n2), rng)
    lib.transpose_102(i64(nx), i64(n1), i64(n2), ptr(x), ptr(out))
    c.eq("transpose_102", out, x.transpose(1, 0, 2))
    c.true("transpose_102 inside", _intact(buf))
    # J and K over a slice of the auxiliary functions
    cd, dm = cx(nk, nk, nx, nao, nao), cx(nk, nao, nao)
    l0 = int(rng.integers(0, nx))
    l1 = int(rng.integers(l0 + 1, nx + 1))
    sl = np.array([l0, l1], dtype=np.int64)
    bj, vj = _guarded((nk, nao, nao), rng)
    bk, vk = _guarded((nk, nao, nao), rng)
    lib.j3c_jk(i64(nk), i64(nao), i64(nx), ptr(sl), ptr(cd), ptr(dm), ctypes.c_bool(True), ctypes.c_bool(True), ptr(vj), ptr(vk))
    cs = cd[:, :, l0:l1]
    d = np.arange(nk)
    c.eq("j3c_jk J", vj, np.einsum("ilpq,ipq,jlrs->jrs", cs[d, d], dm.conj(), cs[d, d]) / nk)
    c.eq("j3c_jk K", vk, np.einsum("jilrp,ipq,ijlqs->jrs", cs, dm, cs) / nk)
    c.true("j3c_jk inside", _intact(bj) and _intact(bk))
