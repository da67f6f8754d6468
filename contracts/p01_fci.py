"""P01, bounded part: FCI <-> CI/CC conversions against a determinant-level oracle."""
import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.core.types import wf as wft
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
from . import fcitools as ft

P = "P01"
B = "norb <= 6 (8 for quadruples), random CI vectors"


def rorb(norb, no, rng):
    return SpatialOrbitals(rng.normal(size=(norb + 1, norb)), occ=no)


def uorb(norb, na, nb, rng):
    return SpinOrbitals((rng.normal(size=(norb + 1, norb)), rng.normal(size=(norb + 1, norb))), occ=(na, nb))


@contract(P, "rfci_as_cisd", ["RFCI_WaveFunction.as_cisd", "RFCI_WaveFunction.as_ccsd", "RCISD_WaveFunction.as_fci",
                              "RCISD_WaveFunction.get_cisdvec"], sym=False, bounded=B, n=5)
def _(c):
    no, nv = c.dim("o", 1, 3), c.dim("v", 1, 3)
    norb = no + nv
    mo = rorb(norb, no, c.rng)
    ci = ft.rand_ci(c.rng, norb, (no, no), sym=True)
    ci0 = ci.copy()
    wf = wft.RFCI_WaveFunction(mo, ci)
    x = wf.as_cisd()
    c1, c2 = ft.amp_tensor(ci, norb, (no, no), "a"), ft.amp_tensor(ci, norb, (no, no), "ab")
    c.eq("c0", x.c0, ci0[0, 0])
    c.eq("c1", x.c1, c1)
    c.eq("c2", x.c2, c2)
    y = wf.as_cisd(c0=0.7)
    f = 0.7 / ci0[0, 0]
    c.eq("c0'", y.c0, 0.7)
    c.eq("c1'", y.c1, f * c1)
    c.eq("c2'", y.c2, f * c2)
    cc = wf.as_ccsd()
    c.eq("t1", cc.t1, c1 / ci0[0, 0])
    c.eq("t2", cc.t2, c2 / ci0[0, 0] - np.einsum("ia,jb->ijab", cc.t1, cc.t1))
    z = x.as_fci().as_cisd()
    c.eq("roundtrip c0", z.c0, x.c0)
    c.eq("roundtrip c1", z.c1, c1)
    c.eq("roundtrip c2", z.c2, c2)
    w = wf.as_unrestricted().as_cisd()
    c.eq("u c1", w.c1, (c1, c1))
    c.eq("u c2ab", w.c2[1], c2)
    c.eq("ci kept", wf.ci, ci0)


@contract(P, "ufci_as_cisd", ["UFCI_WaveFunction.as_cisd", "UCISD_WaveFunction.as_fci", "UCISD_WaveFunction.get_cisdvec",
                              "RFCI_WaveFunction.as_ccsd"], sym=False, bounded=B, n=6)
def _(c):
    na, nb, norb = c.dim("na", 1, 3), c.dim("nb", 1, 3), c.dim("norb", 3, 5)
    if na >= norb or nb >= norb:
        raise Skip()
    mo = uorb(norb, na, nb, c.rng)
    ci = ft.rand_ci(c.rng, norb, (na, nb))
    ci0 = ci.copy()
    wf = wft.UFCI_WaveFunction(mo, ci)
    x = wf.as_cisd()
    A = {s: ft.amp_tensor(ci, norb, (na, nb), s) for s in ("a", "b", "aa", "ab", "bb")}
    c.eq("c0", x.c0, ci0[0, 0])
    c.eq("c1", x.c1, (A["a"], A["b"]))
    c.eq("c2", x.c2, (A["aa"], A["ab"], A["bb"]))
    y = wf.as_cisd(c0=-0.6)
    f = -0.6 / ci0[0, 0]
    c.eq("c1'", y.c1, (f * A["a"], f * A["b"]))
    c.eq("c2'", y.c2, (f * A["aa"], f * A["ab"], f * A["bb"]))
    z = x.as_fci().as_cisd()
    c.eq("roundtrip c1", z.c1, x.c1)
    c.eq("roundtrip c2", z.c2, x.c2)
    cc = wf.as_ccsd()
    c.eq("t1", cc.t1, (A["a"] / ci0[0, 0], A["b"] / ci0[0, 0]))
    c.eq("t2ab", cc.t2[1], A["ab"] / ci0[0, 0] - np.einsum("ia,jb->ijab", cc.t1[0], cc.t1[1]))
    c.eq("ci kept", wf.ci, ci0)


@contract(P, "rfci_as_cisdtq", ["RFCI_WaveFunction.as_cisdtq", "RFCI_WaveFunction.as_ccsdtq",
                                "RCISDTQ_WaveFunction.as_ccsdtq", "RCCSDTQ_WaveFunction.as_ccsd"], sym=False, bounded=B, n=2, tol=1e-7,
          cases=product_cases(dims=[(2, 2), (3, 3), (2, 3)]), thorough_cases=product_cases(dims=[(3, 4), (4, 3)]))
def _(c, dims):
    no, nv = dims
    norb = no + nv
    mo = rorb(norb, no, c.rng)
    ci = ft.rand_ci(c.rng, norb, (no, no), sym=True)
    wf = wft.RFCI_WaveFunction(mo, ci)
    x = wf.as_cisdtq()
    amp = lambda s: ft.amp_tensor(ci, norb, (no, no), s)
    c.eq("c1", x.c1, amp("a"))
    c.eq("c2", x.c2, amp("ab"))
    c.eq("c3", x.c3, amp("aba"))
    c.eq("c4abab", x.c4[1], amp("abab"))
    if no >= 3 and nv >= 3 or max(no, nv) <= 3:
        c.eq("c4abaa", x.c4[0], amp("abaa"))
    y = wf.as_cisdtq(c0=0.5)
    f = 0.5 / ci[0, 0]
    for k in ("c1", "c2", "c3"):
        c.eq("scaled " + k, getattr(y, k), f * getattr(x, k))
    c.eq("scaled c4", y.c4, tuple(f * q for q in x.c4))
    # cluster amplitudes of a spin eigenfunction regenerate the CI vector
    ci, h, g, e = ft.singlet_ci(c.rng, norb, (no, no))
    wf = wft.RFCI_WaveFunction(mo, ci)
    if abs(ci[0, 0]) < 0.3 or np.abs(ci - ci.T).max() > 1e-9:
        raise Skip()
    t = wf.as_ccsdtq()
    u = wft.UFCI_WaveFunction(mo.to_spin_orbitals(), ci).as_ccsdtq()
    c.eq("R/U t1", t.t1, u.t1[0])
    c.eq("R/U t2", t.t2, u.t2[1])
    c.eq("R/U t3", t.t3, u.t3[1])
    c.eq("R/U t4 abab", t.t4[1], u.t4[2])
    c.eq("R/U t4 abaa", t.t4[0], u.t4[1].transpose(0, 3, 1, 2, 4, 7, 5, 6))
    sd = t.as_ccsd()
    ref = wf.as_ccsd()
    c.eq("t1 consistent", sd.t1, ref.t1)
    c.eq("t2 consistent", sd.t2, ref.t2)


@contract(P, "ufci_as_cisdtq", ["UFCI_WaveFunction.as_cisdtq", "UCISDTQ_WaveFunction.as_ccsdtq"], sym=False, bounded=B, n=1,
          cases=product_cases(dims=[(5, 2, 2), (6, 3, 2), (6, 2, 3), (8, 4, 4)]), thorough_cases=product_cases(dims=[(7, 4, 3)]))
def _(c, dims):
    norb, na, nb = dims
    mo = uorb(norb, na, nb, c.rng)
    ci = ft.rand_ci(c.rng, norb, (na, nb))
    wf = wft.UFCI_WaveFunction(mo, ci)
    x = wf.as_cisdtq()
    amp = lambda s: ft.amp_tensor(ci, norb, (na, nb), s)
    c.eq("c1", x.c1, (amp("a"), amp("b")))
    c.eq("c2", x.c2, (amp("aa"), amp("ab"), amp("bb")))
    if norb <= 6:
        c.eq("c3", x.c3, tuple(amp(s) for s in ("aaa", "aba", "bab", "bbb")))
    else:
        c.eq("c3", (x.c3[0], x.c3[3]), (amp("aaa"), amp("bbb")))
    if min(na, nb) >= 4:
        c.eq("c4aaaa", x.c4[0], amp("aaaa"))
        c.eq("c4bbbb", x.c4[4], amp("bbbb"))
    elif norb <= 6:
        c.eq("c4", x.c4, tuple(amp(s) for s in ("aaaa", "aaab", "abab", "abbb", "bbbb")))
    y = wf.as_cisdtq(c0=2.0)
    f = 2.0 / ci[0, 0]
    for k in ("c1", "c2", "c3", "c4"):
        c.eq("scaled " + k, getattr(y, k), tuple(f * q for q in getattr(x, k)))
    c.eq("c0", y.c0, 2.0)


@contract(P, "ufci_dummy", ["UFCI_WaveFunction_w_dummy.as_cisd", "UFCI_WaveFunction_w_dummy.make_rdm1",
                            "UFCI_WaveFunction_w_dummy.make_rdm2", "UFCI_WaveFunction_w_dummy.as_cisdtq"], sym=False, bounded=B, n=3,
          cases=product_cases(ndummy=[1, 2], spin=[0, 1]))
def _(c, ndummy, spin):
    """Dummy virtual orbitals that carry no amplitude do not influence any result."""
    from vayesta.core.types.wf.fci import UFCI_WaveFunction_w_dummy
    from pyscf.fci import cistring
    na, nb, norb = c.dim("na", 1, 2), c.dim("nb", 1, 2), c.dim("norb", 4, 5)
    nel = (na, nb)
    n = [norb, norb]
    n[spin] = norb - ndummy
    if n[spin] <= nel[spin]:
        raise Skip()
    ci = ft.rand_ci(c.rng, norb, nel)
    strs = cistring.make_strings(range(norb), nel[spin])
    bad = [k for k, s in enumerate(strs) if any((int(s) >> q) & 1 for q in range(n[spin], norb))]
    if spin == 0:
        ci[bad, :] = 0
    else:
        ci[:, bad] = 0
    ci /= np.linalg.norm(ci)
    mo = SpinOrbitals((c.rng.normal(size=(norb + 1, n[0])), c.rng.normal(size=(norb + 1, n[1]))), occ=nel)
    dummy = [[], []]
    dummy[spin] = list(range(n[spin], norb))
    wf = UFCI_WaveFunction_w_dummy(mo, ci, dummy)
    A = {s: ft.amp_tensor(ci, norb, nel, s) for s in ("a", "b", "aa", "ab", "bb")}
    sa, sb = slice(0, n[0] - na), slice(0, n[1] - nb)
    x = wf.as_cisd()
    c.eq("c1", x.c1, (A["a"][:, sa], A["b"][:, sb]))
    c.eq("c2", x.c2, (A["aa"][:, :, sa, sa], A["ab"][:, :, sa, sb], A["bb"][:, :, sb, sb]))
    c.true("mo", x.mo is mo and wf.mo is mo)
    dm1, dm2 = ft.brute_rdm12s(ci, norb, nel)
    ia, ib = slice(0, n[0]), slice(0, n[1])
    c.eq("dm1", tuple(wf.make_rdm1()), (dm1[0][ia, ia], dm1[1][ib, ib]))
    c.eq("dm2", tuple(wf.make_rdm2()), (dm2["aa"][ia, ia, ia, ia], dm2["ab"][ia, ia, ib, ib], dm2["bb"][ib, ib, ib, ib]))
    dao = wf.make_rdm1(ao_basis=True)
    c.eq("dm1 ao", tuple(dao), tuple(mo.coeff[s] @ d @ mo.coeff[s].T for s, d in enumerate((dm1[0][ia, ia], dm1[1][ib, ib]))))
    q = wf.as_cisdtq()
    c.eq("q c1", q.c1, x.c1)
    c.eq("q c2", q.c2, x.c2)
    full = wft.UFCI_WaveFunction(uorb(norb, na, nb, c.rng), ci).as_cisdtq()
    c.eq("q c3aba", q.c3[1], full.c3[1][:, :, :, sa, sb, sa])
    c.eq("q c4abab", q.c4[2], full.c4[2][:, :, :, :, sa, sb, sa, sb])
