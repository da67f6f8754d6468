"""P24: results depend on the system and the options only, not on what was calculated before."""
import contextlib
import copy
import itertools

import numpy as np
import pyscf
import pyscf.gto
import pyscf.scf

from engine.core import contract, product_cases, Skip
import vayesta
import vayesta.ewf
import vayesta.dmet
from vayesta.core.types import wf as wft
from . import lab
from .common import *
from .p02_projection import make_r, make_u, _amps
from .p11_symmetry import system, symmetric, flat

P = "P24"

TIGHT = dict(conv_tol=1e-11, conv_tol_normt=1e-9)


# ---------------------------------------------------------------- wave functions (all sizes and amplitudes)
def wf_queries(c, wf, kind, spin, two=True):
    """Read-only methods of a wave function: name -> callable."""
    q = {}
    n = (lambda x: x) if spin == "r" else tuple
    if kind in ("ccsd", "mp2") and not (kind == "mp2" and spin == "u"):
        q["rdm1"] = lambda: n(wf.make_rdm1())
        q["rdm1 correlation"] = lambda: n(wf.make_rdm1(with_mf=False))
        q["rdm1 ao"] = lambda: n(wf.make_rdm1(ao_basis=True))
    if kind == "ccsd":
        q["rdm1 t"] = lambda: n(wf.make_rdm1(t_as_lambda=True))
    if two and kind in ("ccsd", "mp2") and not (kind == "mp2" and spin == "u"):
        q["rdm2"] = lambda: n(wf.make_rdm2())
        q["cumulant"] = lambda: n(wf.make_rdm2(with_dm1=False))
    for m in ("as_ccsd", "as_cisd", "copy") + (("as_unrestricted",) if spin == "r" and kind != "cisd" else ()):
        def conv(m=m):
            w = getattr(wf, m)()
            return [n(x) if not isinstance(x, tuple) else x for x in _amps(w).values() if x is not None]
        q[m] = conv
    return q


@contract(P, "wavefunction_queries", ["RCCSD_WaveFunction", "UCCSD_WaveFunction", "RMP2_WaveFunction", "UMP2_WaveFunction",
                                      "RCISD_WaveFunction", "UCISD_WaveFunction"],
          cases=product_cases(spin=("r", "u"), kind=("ccsd", "mp2", "cisd"), two=(False, True),
                              exclude=lambda spin, kind, two: kind == "cisd" and two), modules=["vayesta.core.types.wf.rdm"], n=3)
def wavefunction_queries(c, spin, kind, two):
    """Density matrices and conversions leave the wave function as it is, and give the same when asked again."""
    if spin == "r":
        o, v = c.dim("o"), c.dim("v")
        wf = make_r(c, kind, rmo(c, o, v), o, v)
        pr = [c.tensor("proj", (c.dim("k"), o))]
    else:
        d = udims(c)
        wf = make_u(c, kind, umo(c, *d), d)
        pr = [c.tensor("proj%d" % s, (c.dim("k%d" % s), d[2 * s])) for s in range(2)]
    amps = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    qs = wf_queries(c, wf, kind, spin, two)
    first = {k: c.snapshot(f()) for k, f in qs.items()}
    wf.project(pr[0] if spin == "r" else tuple(pr))
    for k in reversed(list(qs)):
        c.eq("again: " + k, flat_list(qs[k]()), flat_list(first[k]))
    for k, x in amps.items():
        if x is not None:
            c.eq("amplitudes " + k, flat_list(getattr(wf, k)), flat_list(x))


def flat_list(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat_list(y)]
    return [x]


@contract(P, "wavefunction_copies", ["RCCSD_WaveFunction.copy", "RMP2_WaveFunction.copy", "RCCSD_WaveFunction.multiply",
                                     "UCCSD_WaveFunction.multiply", "RMP2_WaveFunction.multiply", "UMP2_WaveFunction.multiply"],
          cases=product_cases(spin=("r", "u"), kind=("ccsd", "mp2")))
def wavefunction_copies(c, spin, kind):
    """A copy is independent: changing it, or the original, in place does not change the other."""
    if spin == "r":
        o, v = c.dim("o"), c.dim("v")
        wf = make_r(c, kind, rmo(c, o, v), o, v)
        pr = [c.tensor("proj", (c.dim("k"), o))]
    else:
        d = udims(c)
        wf = make_u(c, kind, umo(c, *d), d)
        pr = [c.tensor("proj%d" % s, (c.dim("k%d" % s), d[2 * s])) for s in range(2)]
    k0 = c.scalar("k0", nonzero=True)
    ref = {k: c.snapshot(x) for k, x in _amps(wf).items()}
    w1, w2 = wf.copy(), wf.copy()
    w1.multiply(k0)
    for k, x in ref.items():
        c.eq("original " + k, flat_list(getattr(wf, k)), flat_list(x))
        c.eq("copy " + k, flat_list(getattr(w2, k)), flat_list(x))
    w2.project(pr[0] if spin == "r" else tuple(pr), inplace=True)
    c.modifies(_amps(wf))
    for k, x in ref.items():
        c.eq("original " + k, flat_list(getattr(wf, k)), flat_list(x))
    w3 = wf.copy()
    wf.multiply(k0)
    for k, x in ref.items():
        c.eq("earlier copy " + k, flat_list(getattr(w3, k)), flat_list(x))


# ---------------------------------------------------------------- calculations
def queries(emb, spin, solver="CCSD"):
    """Results of a calculation, all independent of the choice of orbitals within the cluster."""
    q = {}
    q["energy"] = lambda: emb.e_tot
    q["correlation energy"] = lambda: emb.e_corr
    q["converged"] = lambda: float(emb.converged)
    q["wave function energy"] = lambda: emb.get_e_corr("wf")
    q["t2"] = lambda: emb.get_global_t2()
    q["fragment rdm1"] = lambda: emb.make_rdm1_demo(ao_basis=True)
    q["fragment rdm2"] = lambda: emb.make_rdm2_demo(ao_basis=True)
    q["dmet energy"] = lambda: emb.get_dmet_energy()
    q["cluster sizes"] = lambda: [f.cluster.norb_active for f in emb.fragments]
    q["mean cluster size"] = lambda: emb.get_mean_cluster_size()
    q["cluster space"] = lambda: [space(f.cluster.c_active) for f in emb.fragments]
    q["cached overlaps"] = lambda: [gram(f.get_overlap("mo|cluster")) for f in emb.fragments]
    q["cached overlaps occ"] = lambda: [gram(f.get_overlap("mo[occ]|cluster[occ]")) for f in emb.fragments]
    q["projectors"] = lambda: [gram(spin_t(f.get_overlap("cluster[occ]|frag"))) for f in emb.fragments]
    if solver == "CCSD":
        q["t1"] = lambda: emb.get_global_t1()
        q["l1"] = lambda: emb.get_global_l1()
        q["l2"] = lambda: emb.get_global_l2()
        q["rdm1"] = lambda: emb.make_rdm1()
        q["rdm1 ao"] = lambda: emb.make_rdm1(ao_basis=True)
        q["rdm1 correlation"] = lambda: emb.make_rdm1(with_mf=False)
        q["rdm1 t"] = lambda: emb._make_rdm1_ccsd_global_wf(t_as_lambda=True)
        q["rdm2"] = lambda: emb.make_rdm2()
        q["density energy"] = lambda: emb.get_dm_energy()
        q["dm correlation energy"] = lambda: emb.get_e_corr("dm")
        q["populations"] = lambda: emb.pop_analysis(emb.make_rdm1(ao_basis=True), local_orbitals="lowdin", write=False)
        if spin == "r":
            q["correlation function"] = lambda: emb.get_corrfunc("dN,dN")
    return q


def spin_t(x):
    return tuple(y.T for y in x) if isinstance(x, (tuple, list)) else x.T


def gram(x):
    return tuple(y @ y.T for y in x) if isinstance(x, (tuple, list)) else x @ x.T


space = gram


def val(x):
    return [np.array(y, dtype=float) for y in flat(x)]


def same(c, label, a, b, tol=1e-6):
    a, b = val(a), val(b)
    c.true(label + ": structure", len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b)))
    if len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b)):
        d = max([abs(x - y).max(initial=0) for x, y in zip(a, b)] + [0])
        c.true(label, d < tol, "difference %.3g" % d)


STATES = [dict(bath_options=dict(bathtype="dmet")),
          dict(bath_options=dict(bathtype="full")),
          dict(bath_options=dict(bathtype="mp2", threshold=1e-2)),
          dict(bath_options=dict(bathtype="mp2", threshold=1e-4))]


def build(mf, spin, sym, state, solver="CCSD", kind="inversion"):
    so = dict(TIGHT) if solver == "CCSD" else {}
    emb = vayesta.ewf.EWF(mf, solver=solver, solver_options=so, **copy.deepcopy(state))
    if sym:
        _, parents, cen, ax, order = system(kind, spin)
        with emb.sao_fragmentation() as f, contextlib.ExitStack() as st:
            for x in symmetric(kind, f, cen, ax, order):
                st.enter_context(x)
            for p in parents:
                f.add_atomic_fragment(p)
    else:
        lab.add_fragments(emb, "sao", lab.SPLITS[mf.mol.natm])
    return emb


_FRESH = {}


def mean_field(spin, sym, kind="inversion"):
    return system(kind, spin)[0] if sym else lab.make_mf(spin, 4, "6-31g", canonical=True)


def fresh(spin, sym, k, solver="CCSD"):
    key = (spin, sym, k, solver)
    if key not in _FRESH:
        emb = build(mean_field(spin, sym), spin, sym, STATES[k], solver)
        emb.kernel()
        _FRESH[key] = {n: copy.deepcopy(f()) for n, f in queries(emb, spin, solver).items()}
    return _FRESH[key]


FN_EMB = ["vayesta.ewf.ewf.EWF.kernel", "vayesta.ewf.ewf.EWF._reset", "vayesta.core.qemb.qemb.Embedding.change_options",
          "vayesta.core.qemb.qemb.Embedding.reset", "vayesta.core.qemb.fragment.Fragment.reset",
          "vayesta.core.qemb.fragment.Fragment.get_overlap", "vayesta.core.util.cache"]


@contract(P, "rerun", FN_EMB, sym=False, bounded="four hydrogen atoms, histories of up to three calculations with different baths", n=1, nthorough=4,
          cases=product_cases(spin=("r", "u"), sym=(False, True), reset=(False, True), solver=("CCSD", "MP2"),
                              exclude=lambda spin, sym, reset, solver: solver == "MP2" and (spin == "u" or sym)))
def rerun(c, spin, sym, reset, solver):
    """Changing options and calculating again, after looking at any of the results, gives what a new object gives."""
    mf = mean_field(spin, sym)
    hist = [int(k) for k in c.rng.permutation(len(STATES))[:3]]
    emb = build(mf, spin, sym, STATES[hist[0]], solver)
    emb.kernel()
    for step, k in enumerate(hist):
        if step:
            if reset:
                emb.reset()
            st = copy.deepcopy(STATES[k])
            st["bath_options"] = {**dict(threshold=1e-8), **st["bath_options"]}
            emb.change_options(**st)
            emb.kernel()
        ref = fresh(spin, sym, k, solver)
        qs = queries(emb, spin, solver)
        names = list(qs)
        # all results in a random order, some twice
        for n in [names[i] for i in c.rng.permutation(len(names))] + [names[i] for i in c.rng.permutation(len(names))[:6]]:
            same(c, "calculation %d: %s" % (step, n), qs[n](), ref[n])


@contract(P, "returned_arrays", FN_EMB, sym=False, bounded="four hydrogen atoms", n=1, nthorough=3, cases=product_cases(spin=("r", "u"), sym=(False, True)))
def returned_arrays(c, spin, sym):
    """Arrays handed out as results belong to the caller: overwriting them changes no later result and not the mean field."""
    mf = mean_field(spin, sym)
    emb = build(mf, spin, sym, STATES[0])
    emb.kernel()
    ref = fresh(spin, sym, 0)
    qs = {k: f for k, f in queries(emb, spin).items() if not k.startswith("cached")}
    for n in [list(qs)[i] for i in c.rng.permutation(len(qs))]:
        for x in flat(qs[n]()):
            if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
                x *= 3.7
    for n in qs:
        same(c, n, qs[n](), ref[n])


# ---------------------------------------------------------------- inputs
def record(mf):
    """Everything a mean-field object (and its molecule) holds, bit for bit."""
    out = {}
    for name, o in (("mf", mf), ("mol", mf.mol), ("df", getattr(mf, "with_df", None))):
        if o is None:
            continue
        for k, v in vars(o).items():
            if isinstance(v, np.ndarray):
                out[name, k] = v.copy()
            elif isinstance(v, (tuple, list)) and all(isinstance(x, np.ndarray) for x in v):
                out[name, k] = [x.copy() for x in v]
            elif isinstance(v, (int, float, str, bool, type(None))):
                out[name, k] = v
    out["id", "dict"] = {k: id(v) for k, v in vars(mf).items() if k in ("mo_coeff", "mo_energy", "mo_occ", "mol", "with_df")}
    return out


def equal(a, b):
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    return type(a) is type(b) and (a == b or a is b)


def unchanged(c, label, mf, before, ignore=()):
    after = record(mf)
    for k, v in before.items():
        if k[1] in ignore or k[1].startswith("_"):
            continue
        c.true("%s: %s.%s unchanged" % (label, *k), k in after and equal(v, after[k]))


@contract(P, "inputs", ["vayesta.core.qemb.qemb.Embedding.__init__", "vayesta.core.qemb.qemb.Embedding.init_mf", "vayesta.ewf.ewf.EWF.kernel",
                        "vayesta.dmet.dmet.DMET.kernel"], sym=False, bounded="four hydrogen atoms", n=1, nthorough=2,
          cases=product_cases(method=("ewf-ccsd", "ewf-fci", "ewf-mp2", "dmet", "update", "icmp2", "rpa", "screening"), spin=("r", "u"), df=(False, True),
                              exclude=lambda method, spin, df: (method == "ewf-mp2" and spin == "u" and not df)
                              or (method == "screening" and not df)))
def inputs(c, method, spin, df):
    """The mean field handed in is left as it was, by calculations and by everything asked of them; two calculations with
    the same mean field do not see each other."""
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True, df=df)
    before = record(mf)
    h, f = mf.get_hcore().copy(), np.array(mf.get_fock())
    other = build(mf, spin, False, STATES[0])
    if method.startswith("ewf"):
        emb = build(mf, spin, False, STATES[2], dict(ccsd="CCSD", fci="FCI", mp2="MP2")[method[4:]])
        emb.kernel()
        if method == "ewf-ccsd":
            for x in queries(emb, spin).values():
                x()
        if (method, spin) != ("ewf-mp2", "u"):
            emb.make_rdm1_demo()
    elif method == "dmet":
        emb = (vayesta.dmet.DMET)(mf, solver="FCI", oneshot=True, max_elec_err=1e-4)
        lab.add_fragments(emb, "sao", lab.SPLITS[4])
        emb.kernel()
    elif method == "update":
        emb = build(mf, spin, False, STATES[0])
        emb.kernel()
        u = [np.linalg.qr(c.rng.normal(size=(x.shape[-1],) * 2))[0] for x in (emb.mo_coeff if spin == "u" else [emb.mo_coeff])]
        emb.update_mf(tuple(x @ y for x, y in zip(emb.mo_coeff, u)) if spin == "u" else emb.mo_coeff @ u[0])
        emb.reset()
    elif method == "icmp2":
        emb = build(mf, spin, False, STATES[2])
        emb.kernel()
        emb.get_fbc_energy(occupied=False)
    elif method == "rpa":
        from vayesta.rpa import ssRPA, ssURPA
        if spin == "u":
            r = ssURPA(mf)
        else:
            r = ssRPA(mf)
        r.kernel()
        r.gen_moms(2)
    elif method == "screening":
        emb = vayesta.ewf.EWF(mf, solver="CCSD", screening="mrpa", bath_options=dict(bathtype="dmet"))
        lab.add_fragments(emb, "sao", lab.SPLITS[4])
        try:
            emb.kernel()
        except np.linalg.LinAlgError:
            raise Skip
    unchanged(c, method, mf, before)
    c.eq("core Hamiltonian", mf.get_hcore(), h)
    c.eq("Fock matrix", np.array(mf.get_fock()), f)
    other.kernel()
    unchanged(c, method + " and another calculation", mf, before)
    if not df:
        ref = fresh(spin, False, 0)
        for n, q in queries(other, spin).items():
            if n in ("energy", "rdm1", "t2", "dmet energy", "cluster sizes"):
                same(c, "other: " + n, q(), ref[n])


@contract(P, "new_orbitals", ["vayesta.core.qemb.qemb.Embedding.update_mf", "vayesta.core.qemb.uqemb.UEmbedding.update_mf",
                              "vayesta.core.qemb.qemb.Embedding.set_veff", "vayesta.core.qemb.qemb.Embedding.reset"],
          sym=False, bounded="four hydrogen atoms, random rotation of all orbitals", n=1, nthorough=6,
          cases=product_cases(spin=("r", "u"), state=(0, 2), energies=(False, True)))
def new_orbitals(c, spin, state, energies):
    """After replacing the orbitals of the mean field, the calculation is that of a new object for these orbitals."""
    import scipy.linalg
    mf = mean_field(spin, False)
    emb = build(mf, spin, False, STATES[state])
    emb.kernel()
    for q in queries(emb, spin).values():
        q()
    old = np.array(mf.mo_coeff)

    def turn(C):
        k = 0.04 * c.rng.normal(size=(C.shape[-1],) * 2)
        return C @ scipy.linalg.expm(k - k.T)
    C = turn(old) if spin == "r" else np.array([turn(x) for x in old])
    new = copy.copy(mf)
    new.mo_coeff = C
    dm = new.make_rdm1(C, mf.mo_occ)
    F = mf.get_fock(dm=dm)
    e = np.einsum("ai,ab,bi->i", C, F, C) if spin == "r" else np.array([np.einsum("ai,ab,bi->i", x, f, x) for x, f in zip(C, F)])
    if energies:
        e = e + 0.01 * np.arange(e.shape[-1])
    new.mo_energy = e
    new.e_tot = mf.energy_tot(dm=dm)
    emb.update_mf(C if spin == "r" else tuple(C), **(dict(mo_energy=e) if energies else {}))
    emb.reset()
    c.eq("mean-field energy", emb.e_mf, new.e_tot)
    c.eq("orbitals", np.array(emb.mo_coeff), C)
    c.eq("orbital energies", np.array(emb.mo_energy), e)
    c.eq("density", np.array(emb.mf.make_rdm1()), np.array(dm))
    c.eq("Fock matrix", np.array(emb.get_fock()), np.array(F))
    try:
        emb.kernel()
        ref = build(new, spin, False, STATES[state])
        ref.kernel()
    except (np.linalg.LinAlgError, AttributeError) as err:
        if isinstance(err, AttributeError) and "numpy.linalg" not in str(err):
            raise
        raise Skip      # diverging amplitude equations
    if not (emb.converged and ref.converged):
        raise Skip
    qs = queries(ref, spin)
    for n, q in queries(emb, spin).items():
        same(c, n, q(), qs[n]())
