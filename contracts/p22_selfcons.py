"""P22: self-consistency loops update the mean field as defined, and stop at the fixed point they report."""
import contextlib
import copy
from unittest import mock

import numpy as np
import scipy.linalg

from engine.core import contract, product_cases, Skip
import vayesta
import vayesta.ewf
import vayesta.dmet
from vayesta.core.qemb import Embedding
from vayesta.core.qemb.uqemb import UEmbedding
from vayesta.core.scmf import scmf as m_scmf
from vayesta.core.scmf import brueckner as m_bru
from vayesta.core.scmf import pdmet as m_pd
from vayesta.core.util import SymmetryError
from vayesta.misc.cptbisect import ChempotBisection
from vayesta.dmet import updates as m_upd
from . import lab
from . import embstub as es
from .common import *

P = "P22"
SYM = [((1, 0), 1)]


# ---------------------------------------------------------------- updating the mean field
@contract(P, "update_mean_field", ["vayesta.core.qemb.qemb.Embedding.update_mf", "vayesta.core.qemb.uqemb.UEmbedding.update_mf"],
          cases=product_cases(spin=("r", "u"), energies=(False, True), veff=(False, True)))
def update_mean_field(c, spin, energies, veff):
    """For any orthonormal orbitals: the effective potential is that of their density, orbital energies are the diagonal of
    the Fock matrix built from it, and the energy is the functional of this density, core Hamiltonian and potential."""
    nao = c.dim("nao", max=6)
    n = c.dim("n", max=4)
    S = c.spd("S", nao)
    h = c.tensor("h", (nao, nao), sym=SYM)
    ns = 1 if spin == "r" else 2
    C = [c.ortho_mo("C%d" % s, S, (nao, n)) for s in range(ns)]
    V = [c.tensor("V%d" % s, (nao, nao), sym=SYM) for s in range(ns)]
    e = [c.tensor("e%d" % s, (n,)) for s in range(ns)]
    pack = (lambda x: x[0]) if spin == "r" else tuple
    dm = object()
    seen = {}

    def energy_tot(dm=None, h1e=None, vhf=None):
        seen["energy"] = (dm, h1e, vhf)
        return 11.0

    def get_veff(*a, dm=None, **k):
        seen["veff"] = dm if dm is not None else a[-1]
        return pack(V)

    def make_rdm1(mo_coeff=None, mo_occ=None):
        seen["rdm1"] = mo_coeff
        return dm
    mf = c.ns(mo_coeff=None, mo_energy=None, e_tot=0.0, make_rdm1=make_rdm1, get_veff=get_veff, energy_tot=energy_tot)
    box = {}

    def set_veff(v):
        box["v"] = v
    get_fock = lambda **k: h + box["v"] if spin == "r" else tuple(h + x for x in box["v"])
    emb = es.obj(Embedding if spin == "r" else UEmbedding, mf=mf, get_ovlp=lambda: S, get_hcore=lambda: h, get_fock=get_fock,
                 set_veff=set_veff, log=c.log)
    kw = {}
    if energies:
        kw["mo_energy"] = pack(e)
    W = [c.tensor("W%d" % s, (nao, nao), sym=SYM) for s in range(ns)]
    if veff:
        kw["veff"] = pack(W)
    emb.update_mf(pack(C), **kw)
    v = W if veff else V
    one = (lambda x: [x]) if spin == "r" else list
    c.eq("orbitals", one(mf.mo_coeff), C)
    c.true("density of the new orbitals", seen["rdm1"] is not None)
    c.eq("density of the new orbitals", one(seen["rdm1"]), C)
    c.true("potential of the new density", veff or seen["veff"] is dm)
    c.eq("potential set", one(box["v"]), v)
    want = e if energies else [c.einsum("ai,ab,bi->i", x, h + y, x) for x, y in zip(C, v)]
    c.eq("orbital energies", one(mf.mo_energy), want)
    d, h1, v1 = seen["energy"]
    c.true("energy of the new density", d is dm)
    c.eq("energy with the core Hamiltonian", h1, h)
    c.eq("energy with the new potential", one(v1), v)
    c.true("energy", mf.e_tot == 11.0)


@contract(P, "orthonormal_orbitals", ["vayesta.core.qemb.qemb.Embedding.update_mf", "vayesta.core.qemb.uqemb.UEmbedding.update_mf"],
          sym=False, bounded="random orbitals of six functions", cases=product_cases(spin=("r", "u"), bad=(0, 1)))
def orthonormal_orbitals(c, spin, bad):
    """Orbitals that are not orthonormal are rejected, and nothing is changed."""
    if spin == "r" and bad:
        raise Skip
    S = c.spd("S", 6)
    C = [c.ortho_mo("C%d" % s, S, (6, 6)) for s in range(2)]
    mf = c.ns(mo_coeff="old", mo_energy="old", e_tot=0.0)
    emb = es.obj(Embedding if spin == "r" else UEmbedding, mf=mf, get_ovlp=lambda: S, log=c.log)
    C[bad] = C[bad] * (1 + 0.01 * c.rng.normal(size=(1, 6)))
    c.raises("not orthonormal", ValueError, lambda: emb.update_mf(C[0] if spin == "r" else tuple(C)))
    c.true("nothing changed", mf.mo_coeff == "old" and mf.e_tot == 0.0)


# ---------------------------------------------------------------- orbital updates
def proj(C, S):
    return C @ C.T


def orth(C, S):
    """S-orthonormal basis of the span."""
    return C @ scipy.linalg.inv(scipy.linalg.sqrtm(C.T @ S @ C)).real


def scmf_obj(c, cls, S, mo_orig, **kw):
    base = dict(damping=0.0, etol=1e-8, dtol=1e-6, maxiter=5, diis=False, _mo_orig=mo_orig)
    base.update(kw)
    emb = c.ns(get_ovlp=lambda: S, log=c.log, mf=c.ns(mo_coeff=mo_orig), is_rhf=True)
    return es.obj(cls, emb=emb, **base)


def good_orbitals(c, S, C, n):
    c.true("orthonormal", abs(C.T @ S @ C - np.eye(n)).max() < 1e-9)


FN_B = ["vayesta.core.scmf.brueckner.Brueckner_RHF.update_mo_coeff", "vayesta.core.scmf.brueckner.Brueckner_UHF.update_mo_coeff"]


@contract(P, "brueckner_update", FN_B, sym=False, bounded="up to seven orbitals, random overlap and amplitudes", n=12, nthorough=60,
          cases=product_cases(spin=("r", "u"), damping=(0.0, 0.3), diis=(None, "dm1", "t1"), zero=(False, True)))
def brueckner_update(c, spin, damping, diis, zero):
    """New occupied orbitals span C_occ + (1 - damping) C_vir t1^T; virtual orbitals its complement; orthonormal.  Without
    singles nothing but a rotation within the spaces happens.  DIIS with one vector is the plain update."""
    ns = 1 if spin == "r" else 2
    n = c.dim("n", min=3, max=7)
    S = c.spd("S", n)
    orig = [c.ortho_mo("O%d" % s, S, (n, n)) for s in range(ns)]
    C = [c.ortho_mo("C%d" % s, S, (n, n)) for s in range(ns)]
    no = [int(c.rng.integers(1, n)) for s in range(ns)]
    t1 = [(0 if zero else 0.3) * c.rng.normal(size=(no[s], n - no[s])) for s in range(ns)]
    occ = [(np.arange(n) < k) * (2 if spin == "r" else 1) for k in no]
    pack = (lambda x: x[0]) if spin == "r" else tuple
    o = scmf_obj(c, m_bru.Brueckner_RHF if spin == "r" else m_bru.Brueckner_UHF, S, pack(orig), damping=damping, diis_obj=diis or "dm1",
                 get_t1=lambda: pack(t1))
    o.emb.get_global_t1 = lambda: pack(t1)
    ref = [x.copy() for x in t1]
    d = o.get_diis() if diis else None
    new = o.update_mo_coeff(pack(C), pack(occ), diis=d)
    new = [new] if spin == "r" else new
    for s in range(ns):
        k = no[s]
        good_orbitals(c, S, new[s], n)
        want = orth(C[s][:, :k] + (1 - damping) * C[s][:, k:] @ ref[s].T, S)
        c.eq("occupied space", new[s][:, :k] @ new[s][:, :k].T, want @ want.T)
        c.eq("amplitudes untouched", t1[s], ref[s])
        if zero:
            c.eq("unchanged without singles", new[s][:, :k] @ new[s][:, :k].T, C[s][:, :k] @ C[s][:, :k].T)


@contract(P, "pdmet_update", ["vayesta.core.scmf.pdmet.PDMET_RHF.update_mo_coeff", "vayesta.core.scmf.pdmet.PDMET_UHF.update_mo_coeff",
                              "vayesta.core.scmf.pdmet.PDMET_RHF.get_rdm1", "vayesta.core.scmf.pdmet.PDMET_UHF.get_rdm1"],
          sym=False, bounded="up to seven orbitals, random overlap and density", n=12, nthorough=60,
          cases=product_cases(spin=("r", "u"), diis=(False, True), dm_type=("default", "demo", "fallback"),
                              exclude=lambda spin, diis, dm_type: dm_type == "fallback" and spin == "u"))
def pdmet_update(c, spin, diis, dm_type):
    """New orbitals are the natural orbitals of the correlated density, the most occupied of which become occupied."""
    ns = 1 if spin == "r" else 2
    n = c.dim("n", min=3, max=7)
    S = c.spd("S", n)
    orig = [c.ortho_mo("O%d" % s, S, (n, n)) for s in range(ns)]
    C = [c.ortho_mo("C%d" % s, S, (n, n)) for s in range(ns)]
    no = [int(c.rng.integers(1, n)) for s in range(ns)]
    fac = 2 if spin == "r" else 1
    D = []
    for s in range(ns):
        w = np.sort(c.rng.random(n))[::-1]
        w[:no[s]] += 0.5
        q = np.linalg.qr(c.rng.normal(size=(n, n)))[0]
        D.append(fac * (q * w) @ q.T / 1.5)
    ref = [x.copy() for x in D]
    pack = (lambda x: x[0]) if spin == "r" else tuple
    occ = [(np.arange(n) < k) * fac for k in no]
    o = scmf_obj(c, m_pd.PDMET_RHF if spin == "r" else m_pd.PDMET_UHF, S, pack(orig), dm_type="demo" if dm_type == "demo" else "default")

    def missing():
        raise NotImplementedError
    wrong = tuple(np.eye(n) for x in D) if spin == "u" else np.eye(n)
    o.emb.mol = c.ns(nelectron=sum(np.trace(x) for x in D), spin=(np.trace(D[0]) - np.trace(D[-1])) if spin == "u" else 0)
    o.emb.make_rdm1 = {"default": lambda: pack(D), "demo": lambda: wrong, "fallback": missing}[dm_type]
    o.emb.make_rdm1_demo = (lambda: wrong) if dm_type == "default" else (lambda: pack(D))
    new = o.update_mo_coeff(pack(C), pack(occ), diis=o.get_diis() if diis else None)
    new = [new] if spin == "r" else new
    for s in range(ns):
        good_orbitals(c, S, new[s], n)
        ao = C[s] @ ref[s] @ C[s].T
        d = new[s].T @ S @ ao @ S @ new[s]
        c.eq("natural orbitals", d - np.diag(np.diag(d)), np.zeros((n, n)))
        c.true("occupied have the largest occupation", np.all(np.diff(np.diag(d)) < 1e-9))
        c.eq("trace", np.trace(d), np.trace(ref[s]))
        c.eq("density untouched", D[s], ref[s])


# ---------------------------------------------------------------- the loop
@contract(P, "loop", ["vayesta.core.scmf.scmf.SCMF.kernel", "vayesta.core.scmf.scmf.SCMF.check_convergence"], sym=False,
          bounded="random sequences of energies and densities, up to eight iterations", n=25, nthorough=150,
          cases=product_cases(spin=("r", "u"), diis=(False, True), symfail=(False, True), again=(False, True)))
def loop(c, spin, diis, symfail, again):
    """Each iteration runs the embedding with the orbitals of the last update, everything cached is discarded in between,
    and the calculation is reported as converged if and only if energy and density changed by less than the tolerances."""
    maxiter = int(c.rng.integers(1, 9))
    damping = float(c.rng.choice([0.0, 0.4]))
    etol, dtol = [None if c.rng.random() < 0.15 else float(10.0 ** -c.rng.integers(1, 5)) for _ in range(2)]
    rate = 10.0 ** -c.rng.integers(1, 3)
    ev = []
    n = 4
    scale = {"e": 1.0, "d": 1.0}
    total = []
    dms = []
    nsym = int(c.rng.integers(1, 6)) if symfail else 10 ** 6
    e_mf = float(c.rng.normal())
    count = {"k": 0}

    def kern(*a, **k):
        ev.append("kernel")
        count["k"] += 1
        scale["e"] *= rate
        total.append(3.0 + scale["e"] * (1 if c.rng.random() < 0.5 else -1))
        return ("result", count["k"], a, tuple(sorted(k)))

    def update_mf(mo):
        ev.append(("update", mo))
        scale["d"] *= rate
        x = c.rng.normal(size=(n, n)) * scale["d"]
        dms.append(np.eye(n) + x if spin == "r" else (np.eye(n) + x, np.eye(n) - 0.5 * x))

    def check(dm1):
        ev.append("check")
        if len(dms) >= nsym:
            raise SymmetryError()
    emb = c.ns(kernel=kern, reset=lambda *a, **k: ev.append("reset"), get_e_corr=lambda: total[-1] - e_mf, update_mf=update_mf,
               check_fragment_symmetry=check, log=c.log, is_rhf=spin == "r", is_uhf=spin == "u",
               mf=c.ns(e_tot=e_mf, mo_coeff="start", mo_occ="occ", make_rdm1=lambda: dms[-1]))

    class Loop(m_scmf.SCMF):
        name = "loop"

        def get_diis(self):
            d = super().get_diis()
            return (d, super().get_diis()) if spin == "u" else d

        def update_mo_coeff(self, mo_coeff, mo_occ, diis=None):
            ev.append(("orbitals", mo_coeff, mo_occ))
            self.seen = diis
            return "new%d" % count["k"]
    s = Loop(emb, etol=etol, dtol=dtol, maxiter=maxiter, damping=damping, diis=diis, diis_space=4, diis_min_space=2)
    out = s.kernel(5, opt=1)
    k = count["k"]
    c.true("result of the last calculation", out == ("result", k, (5,), ("opt",)), repr(out))
    c.true("energies", len(s.energies) == k and np.allclose(s.energies, total))
    c.true("energy", abs(s.e_tot - total[-1]) < 1e-12 and abs(s.e_tot_oneshot - total[0]) < 1e-12)
    # protocol
    want = []
    for i in range(1, k + 1):
        want += (["reset"] if i > 1 else []) + ["kernel", ("orbitals", "start", "occ"), ("update", "new%d" % i), "check"]
    c.true("protocol", ev == want, repr(ev[:8]))
    c.true("extrapolation used", (s.seen is not None) == diis)
    if diis:
        for d in (s.seen if spin == "u" else [s.seen]):
            c.true("extrapolation space", d.space == 4 and d.min_space == 2)
    # first iteration at which the criteria are met
    tol_e = (1 - damping) * (np.inf if etol is None else etol)
    tol_d = (1 - damping) * (np.inf if dtol is None else dtol)

    def met(i):
        if i == 0:
            return False
        dd = [abs(a - b).max() for a, b in (zip([dms[i]], [dms[i - 1]]) if spin == "r" else zip(dms[i], dms[i - 1]))]
        d = dd[0] / 2 if spin == "r" else max(dd)
        return abs(total[i] - total[i - 1]) < tol_e and d < tol_d
    stop = [i for i in range(k) if met(i)]
    failed = k == nsym
    c.true("iterations", k <= maxiter)
    if failed:
        c.true("not converged when the symmetry is broken", s.converged is False)
    else:
        c.true("converged if and only if the criteria are met", s.converged == (len(stop) > 0), "%r %r" % (s.converged, stop))
        c.true("stops at once", stop in ([], [k - 1]))
        c.true("all iterations used", k == maxiter or len(stop) == 1)


# ---------------------------------------------------------------- chemical potential
@contract(P, "bisection", ["vayesta.misc.cptbisect.ChempotBisection.kernel"], sym=False,
          bounded="random monotonic functions, smooth and piecewise", n=40, nthorough=400,
          cases=product_cases(robust=(False, True), kind=("linear", "tanh", "cubic", "kink"), sign=(1, -1)))
def bisection(c, robust, kind, sign):
    """The chemical potential returned is a root within the tolerance whenever convergence is reported, and the function
    was evaluated there last, so that the results at hand belong to it."""
    a, b = float(c.rng.random() + 0.2), float(0.5 * c.rng.normal())
    f0 = dict(linear=lambda x: a * x + b, tanh=lambda x: a * np.tanh(x) + np.tanh(b) * a * 0.5, cubic=lambda x: a * x + 0.3 * a * x ** 3 + b,
              kink=lambda x: a * x + b + (0.5 * a * (x - 0.1) if x > 0.1 else 0))[kind]
    calls = []

    def func(x, *args, **kw):
        c.true("arguments", args == (7,) and kw == dict(z=1))
        calls.append(x)
        return sign * f0(x)
    tol = float(10.0 ** -c.rng.integers(4, 9))
    start = float(0.3 * c.rng.normal()) if c.rng.random() < 0.8 else 0.0
    s = ChempotBisection(func, cpt_init=start, tol=tol, robust=robust, log=c.log)
    try:
        x = s.kernel(7, z=1)
    except ValueError:
        c.true("no bracket is an error", not s.converged)
        if kind == "linear":
            c.true("a linear function is bracketed", False)
        return
    c.true("converged", s.converged)
    if s.converged:
        c.true("root", abs(f0(x)) <= tol, "%g" % f0(x))
    c.true("last evaluation", calls[-1] == x)
    c.true("stored", s.cpt == x)
    # a start at the root needs no search
    root = ChempotBisection(func, cpt_init=x, tol=tol, robust=robust, log=c.log)
    m = len(calls)
    c.true("nothing to do at the root", root.kernel(7, z=1) == x and root.converged and len(calls) == m + 1)


@contract(P, "electron_number", ["vayesta.core.qemb.qemb.Embedding.optimize_chempot", "vayesta.misc.cptbisect.ChempotBisection.kernel",
                                 "vayesta.ewf.fragment.Fragment.kernel"], sym=False, bounded="four hydrogen atoms", n=1, nthorough=3, timeout=400,
          cases=product_cases(spin=("r", "u"), solver=("FCI", "CCSD"), robust=(False, True), dm=("demo", "global"),
                              exclude=lambda spin, solver, robust, dm: (solver == "FCI" and dm == "global") or (spin == "u" and robust)))
def electron_number(c, spin, solver, robust, dm):
    """With the optimised chemical potential the density has the right number of electrons, and all results are those of a
    calculation with this chemical potential."""
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True, seed=int(c.rng.integers(0, 4)))
    so = dict(conv_tol=1e-11, conv_tol_normt=1e-9) if solver == "CCSD" else dict(conv_tol=1e-14)
    make = lambda **kw: lab.make_ewf(mf, bath="dmet", solver=solver, kernel=False, solver_options=so, **kw)
    emb = make()
    kw = {}
    if dm == "global":
        kw["dm1func"] = emb.make_rdm1
    emb.optimize_chempot(robust=robust, **kw)
    try:
        e = emb.kernel()
    except (ValueError, np.linalg.LinAlgError):
        raise Skip
    d = emb.make_rdm1_demo() if dm == "demo" else emb.make_rdm1()
    ne = np.trace(d) if spin == "r" else np.trace(d[0]) + np.trace(d[1])
    c.true("number of electrons", abs(ne - mf.mol.nelectron) < 1e-6, "%g" % (ne - mf.mol.nelectron))
    c.true("energy", e == emb.e_tot)
    ref = make(global_frag_chempot=emb.opts.global_frag_chempot)
    ref.kernel()
    c.true("calculation with this potential", abs(ref.e_tot - e) < 1e-8)
    c.true("density", max(abs(np.array(x) - np.array(y)).max() for x, y in zip(emb.make_rdm1_demo(ao_basis=True), ref.make_rdm1_demo(ao_basis=True))) < 1e-6)


# ---------------------------------------------------------------- fixed points of real calculations
@contract(P, "fixed_point", FN_B + ["vayesta.core.scmf.pdmet.PDMET_RHF.update_mo_coeff", "vayesta.core.scmf.scmf.SCMF.kernel",
                                    "vayesta.core.qemb.qemb.Embedding.brueckner_scmf", "vayesta.core.qemb.qemb.Embedding.pdmet_scmf"],
          sym=False, bounded="four hydrogen atoms", n=1, nthorough=2, timeout=400,
          cases=product_cases(spin=("r", "u"), method=("brueckner", "pdmet"), variant=(0, 1),
                              exclude=lambda spin, method, variant: method == "brueckner" and (spin == "u" or variant)))
def fixed_point(c, spin, method, variant):
    """A loop that reports convergence stopped at orbitals which the next calculation leaves where they are: without single
    excitations (Brueckner), or made of the natural orbitals of the density (p-DMET), with the energy reported."""
    mf = lab.make_mf(spin, 4, "sto-3g" if spin == "u" else "6-31g", canonical=True)
    so = dict(conv_tol=1e-9, conv_tol_normt=1e-7, max_cycle=40)
    emb = lab.make_ewf(mf, bath="dmet" if variant else "full", solver="CCSD", kernel=False, solver_options=so)
    if method == "brueckner":
        emb.brueckner_scmf(maxiter=12, diis_obj="t1" if variant else "dm1")
    else:
        emb.pdmet_scmf(maxiter=12, dm_type="demo" if variant else "default", damping=0.0)
    try:
        emb.kernel()
    except (np.linalg.LinAlgError, RuntimeError, AttributeError):
        raise Skip
    s = emb.with_scmf
    if not s.converged:
        raise Skip
    S = emb.get_ovlp()
    C = [emb.mo_coeff] if spin == "r" else list(emb.mo_coeff)
    no = [emb.nocc] if spin == "r" else list(emb.nocc)
    for x in C:
        c.true("orthonormal", abs(x.T @ S @ x - np.eye(x.shape[1])).max() < 1e-8)
    c.true("energy", abs(s.e_tot - s.energies[-1]) < 1e-12)
    # the converged orbitals, in a calculation of their own
    emb.reset()
    s.kernel_orig()
    c.true("energy at the fixed point", abs(emb.e_tot - s.e_tot) < 1e-5, "%g" % (emb.e_tot - s.e_tot))
    if method == "brueckner":
        t1 = emb.get_global_t1()
        t = [t1] if spin == "r" else t1
        c.true("no single excitations", max(abs(x).max() for x in t) < 2e-4, "%g" % max(abs(x).max() for x in t))
    else:
        d = emb.make_rdm1_demo() if variant else emb.make_rdm1()
        d = [d] if spin == "r" else d
        for x, k in zip(d, no):
            w, v = np.linalg.eigh(x)
            top = v[:, -k:]
            p = top @ top.T
            c.true("mean-field density is made of the natural orbitals", abs(p - np.diag(np.arange(len(w)) < k)).max() < 2e-3,
                   "%g" % abs(p - np.diag(np.arange(len(w)) < k)).max())


# ---------------------------------------------------------------- DMET
@contract(P, "mixing", ["vayesta.dmet.updates.Update", "vayesta.dmet.updates.MixUpdate.update", "vayesta.dmet.updates.DIISUpdate.update"],
          sym=False, bounded="up to three nested parameter sets", n=15, nthorough=60, cases=product_cases(kind=("mix", "diis", "full"), spin=("r", "u")))
def mixing(c, kind, spin):
    """Mixing keeps the structure of the parameters; an unmixed update returns them; a fixed point is returned unchanged;
    the change reported is the norm of the difference of successive parameters."""
    shapes = [int(c.rng.integers(1, 4)) for _ in range(int(c.rng.integers(1, 4)))]
    par = lambda: [c.rng.normal(size=(k, k)) for k in shapes] if spin == "r" else [[c.rng.normal(size=(k, k)) for _ in range(2)] for k in shapes]
    fl = lambda x: np.concatenate([fl(y) if not isinstance(y, np.ndarray) else y.ravel() for y in x])
    struct = lambda x: [struct(y) if not isinstance(y, np.ndarray) else y.shape for y in x]
    alpha = 1.0 if kind == "full" else float(c.rng.random())
    u = m_upd.DIISUpdate() if kind == "diis" else m_upd.MixUpdate(alpha)
    a, b = par(), par()
    x, d1 = u.update(a)
    c.true("structure", struct(x) == struct(a), repr(struct(x)))
    y, d2 = u.update(b)
    c.true("structure", struct(y) == struct(b))
    c.eq("change", d2, np.linalg.norm(fl(b) - fl(a)))
    if kind != "diis":
        c.eq("mixed", fl(y), (1 - alpha) * fl(a) + alpha * fl(b))
        if alpha == 1.0:
            c.eq("no mixing", fl(x), fl(a))
    else:
        c.eq("first vector", fl(x), fl(a))
    z, d3 = u.update([v if isinstance(v, np.ndarray) else list(v) for v in b])
    c.eq("no change", d3, 0.0)
    if kind != "diis":
        c.eq("fixed point", fl(z), fl(b))


@contract(P, "correlation_potential", ["vayesta.dmet.sdp_sc.perform_SDP_fit"], sym=False, bounded="five or six orbitals, random Hamiltonian and potential", n=3, nthorough=12,
          cases=product_cases(sym=(False, True), ovlp=(False, True)), tol=2e-4)
def correlation_potential(c, sym, ovlp):
    """The potential fitted to local densities of the ground state of some potential reproduces these densities, is block
    diagonal in the fragments, equal on equivalent fragments, and traceless."""
    from vayesta.dmet.sdp_sc import perform_SDP_fit
    n = 6
    S = c.spd("S", n) if ovlp else np.eye(n)
    X = scipy.linalg.inv(scipy.linalg.sqrtm(S)).real
    if sym:
        h = c.rng.normal(size=(2, 2)); h = h + h.T
        t = c.rng.normal(size=(2, 2))
        F = np.zeros((n, n))
        for i in range(3):
            j = (i + 1) % 3
            F[2 * i:2 * i + 2, 2 * i:2 * i + 2] += h
            F[2 * i:2 * i + 2, 2 * j:2 * j + 2] += t
            F[2 * j:2 * j + 2, 2 * i:2 * i + 2] += t.T
        blocks = [[[0, 1], [2, 3], [4, 5]]]
        nel = int(c.rng.choice([1, 2, 3, 4, 5]))
    else:
        F = c.rng.normal(size=(n, n)); F = F + F.T
        blocks = [[[0, 1]], [[2]], [[3, 4, 5]]]
        nel = 3
    us = [0.3 * c.rng.normal(size=(len(b[0]),) * 2) for b in blocks]
    us = [u + u.T for u in us]
    u = np.zeros((n, n))
    for b, x in zip(blocks, us):
        for i in b:
            u[np.ix_(i, i)] = x
    e, v = np.linalg.eigh(F + u)
    if e[nel] - e[nel - 1] < 0.2:
        raise Skip
    D = v[:, :nel] @ v[:, :nel].T
    rdm = [D[np.ix_(b[0], b[0])] for b in blocks]
    imps = [[X[:, i] for i in b] for b in blocks]
    Si = scipy.linalg.sqrtm(S).real
    fit = perform_SDP_fit(nel, Si @ F @ Si, imps, [x.copy() for x in rdm], S, c.log)
    if fit is None:
        raise Skip
    w = X @ fit @ X
    e2, v2 = np.linalg.eigh(F + w)
    if e2[nel] - e2[nel - 1] < 1e-2:
        raise Skip          # the ground state of the fitted potential is (nearly) degenerate
    D2 = v2[:, :nel] @ v2[:, :nel].T
    for b, x in zip(blocks, rdm):
        c.eq("local density", D2[np.ix_(b[0], b[0])], x)
    mask = np.zeros((n, n), dtype=bool)
    for b in blocks:
        for i in b:
            mask[np.ix_(i, i)] = True
            c.eq("equivalent fragments", w[np.ix_(i, i)], w[np.ix_(b[0], b[0])])
    c.eq("block diagonal", w[~mask], np.zeros(int((~mask).sum())))
    c.eq("traceless", sum(np.trace(w[np.ix_(b[0], b[0])]) for b in blocks), 0.0)
