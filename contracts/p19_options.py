"""P19: options and selections reach exactly the fragments and solvers they are meant for."""
import copy
import dataclasses
import itertools
from unittest import mock

import numpy as np
import z3

from engine.core import contract, product_cases, Skip
from engine.symint import Paths
import vayesta
import vayesta.ewf
import vayesta.dmet
from vayesta.core.qemb import Embedding
from vayesta.core.qemb.uqemb import UEmbedding
from vayesta.core.qemb.register import FragmentRegister
from vayesta.core.util import OptionsBase
from . import lab
from . import embstub as es
from .common import *

P = "P19"


# ---------------------------------------------------------------- selecting fragments
@contract(P, "selection", ["vayesta.core.qemb.qemb.Embedding.get_fragments"], maxpaths=300,
          cases=product_cases(nattr=(0, 1, 2), nopt=(0, 1, 2), nflag=(0, 1, 2), nfrag=(1, 2),
                              exclude=lambda nattr, nopt, nflag, nfrag: nattr + nopt + nflag == 0 or (nattr + nopt + nflag) * nfrag > 6))
def selection(c, nattr, nopt, nflag, nfrag):
    """For any conditions on attributes, options and flags, whatever they decide for each fragment: a fragment is selected if
    and only if it meets all of them, and the order is kept."""
    keys = [("a", k) for k in range(nattr)] + [("o", k) for k in range(nopt)] + [("f", k) for k in range(nflag)]
    dec = {}

    def decide(f, key):
        if (f, key) not in dec:
            if c.symbolic:
                dec[f, key] = Paths.current.decide(z3.Bool("meets!%d%s%d" % ((f,) + key)))
            else:
                dec[f, key] = bool(c.rng.random() < 0.7)
        return dec[f, key]

    class Val:
        def __init__(self, f, key):
            self.f, self.key = f, key
    frags = []
    for f in range(nfrag):
        val = {k: Val(f, k) for k in keys}
        frags.append(c.ns(opts=c.ns(o0=val.get(("o", 0)), nest=c.ns(o1=val.get(("o", 1)))), flags=c.ns(f0=val.get(("f", 0)), f1=val.get(("f", 1))),
                          a0=val.get(("a", 0)), a1=val.get(("a", 1))))

    def cond(key):
        def meets(v):
            if not isinstance(v, Val) or v.key != key:
                raise AssertionError("condition %r asked about %r" % (key, v))
            return decide(v.f, key)
        return meets
    names = {("o", 1): "nest.o1"}
    get = lambda kind: {names.get(k, "%s%d" % k): cond(k) for k in keys if k[0] == kind}
    emb = es.obj(Embedding, fragments=frags, log=c.log)
    out = emb.get_fragments(options=get("o") or None, flags=get("f") or None, **get("a"))
    want = [x for f, x in enumerate(frags) if all(decide(f, k) for k in keys)]
    c.true("selected", len(out) == len(want) and all(a is b for a, b in zip(out, want)), "%d %d %r" % (len(out), len(want), dec))
    c.true("embedding unchanged", len(emb.fragments) == nfrag)


@contract(P, "selection_values", ["vayesta.core.qemb.qemb.Embedding.get_fragments"], sym=False, n=40, nthorough=200,
          bounded="random attribute values, up to eight fragments", cases=product_cases(sub=(False, True)))
def selection_values(c, sub):
    """Values, lists of values, None, strings and objects select the fragments whose attribute is among them."""
    rng = c.rng
    n = int(rng.integers(1, 9))
    pick = lambda seq: seq[int(rng.integers(0, len(seq)))]
    frags = []
    for i in range(n):
        parent = pick([None] + frags[:3])
        frags.append(c.ns(id=i, mpi_rank=int(rng.integers(0, 3)), active=bool(rng.integers(0, 2)), sym_parent=parent, name=pick(["A", "B", "C"]),
                          opts=c.ns(auxiliary=bool(rng.integers(0, 2)), sc_mode=pick([None, 0, 1]), screening=pick([None, "mrpa"])),
                          flags=c.ns(is_envelop=bool(rng.integers(0, 2)), is_secfrag=bool(rng.integers(0, 2)))))
    emb = es.obj(Embedding, fragments=frags, log=c.log)
    dom = dict(mpi_rank=[0, 1, 2, [0, 1], [2], (0, 2), []], active=[True, False], sym_parent=[None, frags[0], [None]], name=["A", ["A", "B"]],
               id=[0, list(range(3)), lambda v: v % 2 == 0])
    dopt = dict(auxiliary=[True, False], sc_mode=[0, [None, 1]], screening=[None, "mrpa", lambda v: v is not None])
    dflag = dict(is_envelop=[True, False], is_secfrag=[True, [True, False]])
    choose = lambda d: {k: pick(v) for k, v in d.items() if rng.random() < 0.35}
    fa, fo, ff = choose(dom), choose(dopt), choose(dflag)
    base = [x for x in frags if rng.random() < 0.7] if sub else frags
    kw = dict(fragments=base) if sub else {}
    out = emb.get_fragments(options=fo, flags=ff, **fa, **kw)

    def ok(v, f):
        if callable(f):
            return bool(f(v))
        if isinstance(f, (list, tuple)):
            return any(v is y or v == y for y in f)
        return v is f or v == f
    want = [x for x in base if all(ok(getattr(x, k), f) for k, f in fa.items()) and all(ok(getattr(x.opts, k), f) for k, f in fo.items())
            and all(ok(getattr(x.flags, k), f) for k, f in ff.items())]
    c.true("selected", [x.id for x in out] == [x.id for x in want], "%r %r %r: %r %r" % (fa, fo, ff, [x.id for x in out], [x.id for x in want]))


@contract(P, "cluster_sizes", ["vayesta.core.qemb.qemb.Embedding.get_mean_cluster_size", "vayesta.core.qemb.qemb.Embedding.get_average_cluster_size",
                               "vayesta.core.qemb.qemb.Embedding.get_min_cluster_size", "vayesta.core.qemb.qemb.Embedding.get_max_cluster_size"],
          sym=False, n=15, nthorough=60, bounded="up to eight fragments", cases=product_cases(u=(0, 1)))
def cluster_sizes(c, u):
    n = [int(x) for x in c.rng.integers(1, 30, size=int(c.rng.integers(1, 9)))]
    emb = es.obj(UEmbedding if u else Embedding, fragments=[c.ns(cluster=c.ns(norb_active=x)) for x in n], log=c.log)
    c.eq("mean", emb.get_mean_cluster_size(), sum(n) / len(n))
    c.eq("average", emb.get_average_cluster_size(), sum(n) / len(n))
    c.true("minimum", emb.get_min_cluster_size() == min(n))
    c.true("maximum", emb.get_max_cluster_size() == max(n))
    c.raises("unknown average", ValueError, lambda: emb.get_average_cluster_size("median of means"))


@contract(P, "overlap_norms", ["vayesta.core.qemb.qemb.Embedding.get_fragment_overlap_norm"], sym=False, n=10, nthorough=60,
          bounded="three random clusters", cases=product_cases(spin=("r", "u"), occ=(False, True), vir=(False, True), lists=(False, True), norm=(2, None)))
def overlap_norms(c, spin, occ, vir, lists, norm):
    """Matrix of the overlaps between the cluster spaces of fragments (the smaller of occupied and virtual)."""
    rng = c.rng
    nao = 6
    S = c.spd("S", nao)
    col = lambda: rng.normal(size=(nao, int(rng.integers(1, 4))))
    mk = (lambda: col()) if spin == "r" else (lambda: (col(), col()))
    cls = type("F", (), {})
    frags = []
    for i in range(3):
        f = cls()
        f.cluster = c.ns(c_occ=mk(), c_vir=mk())
        frags.append(f)
    emb = es.obj(Embedding if spin == "r" else UEmbedding, fragments=frags, log=c.log, get_ovlp=lambda: S, Fragment=cls)
    kw = dict(fragments=[frags[:2], frags]) if lists else {}
    rows = frags[:2] if lists else frags
    if not occ and not vir:
        c.raises("nothing to compare", ValueError, lambda: emb.get_fragment_overlap_norm(occupied=False, virtual=False, **kw))
        return
    out = emb.get_fragment_overlap_norm(occupied=occ, virtual=vir, norm=norm, **kw)
    nrm = lambda x, y: np.linalg.norm(x.T @ S @ y, ord=norm)
    two = (lambda x, y: nrm(x, y)) if spin == "r" else (lambda x, y: max(nrm(x[0], y[0]), nrm(x[1], y[1])))
    want = np.array([[min([two(x.cluster.c_occ, y.cluster.c_occ)] * occ + [two(x.cluster.c_vir, y.cluster.c_vir)] * vir) for y in frags] for x in rows])
    c.eq("norms", out, want)


@contract(P, "register", ["vayesta.core.qemb.register.FragmentRegister"], sym=False, n=10, nthorough=50, bounded="up to 20 fragments, 7 ranks",
          cases=product_cases(u=(0,)))
def register(c, u):
    """Identifiers are unique and consecutive, ranks are dealt out evenly."""
    size = int(c.rng.integers(1, 8))
    n = int(c.rng.integers(1, 21))
    r = FragmentRegister(mpi_size=size)
    got = [r.get_next() for _ in range(n)]
    c.true("identifiers", [x for x, _ in got] == list(range(n)))
    count = [sum(1 for _, y in got if y == k) for k in range(size)]
    c.true("ranks exist", all(0 <= y < size for _, y in got))
    c.true("ranks even", max(count) - min(count) <= 1)
    o = FragmentRegister(mpi_size=size)
    c.true("independent", o.get_next() == (0, 0))


# ---------------------------------------------------------------- option objects
@dataclasses.dataclass
class Opt(OptionsBase):
    a: int = 1
    b: str = "x"
    d: dict = OptionsBase.dict_with_defaults(p=1, q=None, r="z")
    e: dict = None


@dataclasses.dataclass
class Opt2(Opt):
    c: float = 0.5
    d: dict = Opt.change_dict_defaults("d", q=7)


def rand_changes(c, names, dkeys, bad=False):
    pick = lambda: [3, None, "s", 0, False, 1.5][int(c.rng.integers(0, 6))]
    out = {k: pick() for k in names if c.rng.random() < 0.5}
    if c.rng.random() < 0.7:
        out["d"] = {k: pick() for k in dkeys if c.rng.random() < 0.5}
    if c.rng.random() < 0.4:
        out["e"] = dict(new=pick())
    return out


@contract(P, "option_objects", ["vayesta.core.util.OptionsBase"], sym=False, n=30, nthorough=200, bounded="random options, up to four changes",
          cases=product_cases(sub=(False, True), op=("replace", "update")))
def option_objects(c, sub, op):
    """Changes set exactly the named options; dictionaries are merged key by key; what is not named, the values given by the
    caller, the defaults of the class and other instances stay as they are; unknown names are refused and change nothing else."""
    cls = Opt2 if sub else Opt
    o, other = cls(), cls()
    q = 7 if sub else None
    model = dict(a=1, b="x", d=dict(p=1, q=q, r="z"), e=None)
    if sub:
        model["c"] = 0.5
    c.true("defaults", o.asdict() == model, repr(o.asdict()))
    names = ["a", "b"] + ["c"] * sub
    for _ in range(int(c.rng.integers(1, 5))):
        ch = rand_changes(c, names, ["p", "q", "r"])
        if isinstance(model["e"], dict) and "e" in ch and op == "replace":
            ch["e"] = {k: 5 for k in model["e"]}
        keep = copy.deepcopy(ch)
        out = getattr(o, op)(**ch)
        c.true("same object", out is o)
        for k, v in keep.items():
            if isinstance(v, dict) and isinstance(model[k], dict):
                model[k] = {**model[k], **v}
            else:
                model[k] = v
        c.true("values", o.asdict() == model, "%r %r" % (o.asdict(), model))
        c.true("values given", ch == keep)
        c.true("keys and items", dict(o.items()) == model and list(o.keys()) == list(o.asdict()) and list(o.values()) == list(o.asdict().values()))
        for k in model:
            c.true("get", o.get(k) == model[k] and o.get(k, 99) == model[k])
    c.true("get missing", o.get("nope") is None and o.get("nope", 4) == 4)
    before = copy.deepcopy(o.asdict())
    if op == "replace":
        c.raises("unknown name", TypeError, lambda: o.replace(nope=1))
        c.raises("unknown key", TypeError, lambda: o.replace(d=dict(nope=1)))
        c.true("unchanged", o.asdict() == before)
    else:
        o.update(nope=1)
        c.true("unknown ignored", o.asdict() == before and not hasattr(o, "nope"))
    deep = o.asdict(deepcopy=True)
    deep["d"]["p"] = "changed"
    c.true("deep copy", o.asdict() == before)
    fresh = dict(a=1, b="x", d=dict(p=1, q=q, r="z"), e=None, **(dict(c=0.5) if sub else {}))
    c.true("other instances", other.asdict() == fresh and cls().asdict() == fresh)
    c.true("defaults of the class", cls.get_default("a") == 1 and cls.get_default_factory("d")() == fresh["d"])
    c.raises("no default", TypeError, lambda: cls.get_default("nope"))


# ---------------------------------------------------------------- embedding to fragment to solver
def value(c, key, old):
    """Another value of the same kind."""
    if isinstance(old, bool):
        return not old
    if isinstance(old, (int, np.integer)):
        return int(old + 1 + c.rng.integers(0, 5))
    if isinstance(old, float):
        return float(old * (1 + c.rng.random()) + 0.01)
    return "v%d" % c.rng.integers(0, 1000) if isinstance(old, str) else float(c.rng.random())


FIXED = ("screening", "ext_rpa_correction", "_debug_wf", "iao_minao", "symmetry_tol", "symmetry_mf_tol", "oneshot")


def random_options(c, opts, prob=0.5):
    out = {}
    for k, v in opts.asdict().items():
        if k in FIXED or k.startswith("_"):
            continue
        if isinstance(v, dict):
            out[k] = {x: value(c, x, y) for x, y in v.items() if c.rng.random() < prob and x != "bathtype"}
        elif c.rng.random() < prob:
            out[k] = value(c, k, v)
    return out


def merge(old, new):
    out = copy.deepcopy(old)
    for k, v in new.items():
        if k in out:
            out[k] = {**out[k], **copy.deepcopy(v)} if isinstance(v, dict) and isinstance(out[k], dict) else v
    return out


KINDS = dict(ewf=lambda: vayesta.ewf.EWF, dmet=lambda: vayesta.dmet.DMET)


@contract(P, "propagation", ["vayesta.core.qemb.qemb.Embedding.__init__", "vayesta.core.qemb.fragment.Fragment.__init__",
                             "vayesta.core.qemb.qemb.Embedding.change_options", "vayesta.core.qemb.fragment.Fragment.change_options"],
          sym=False, n=6, nthorough=40, bounded="four hydrogen atoms, random values of all options",
          cases=product_cases(spin=("r", "u"), kind=("ewf", "dmet")))
def propagation(c, spin, kind):
    """A fragment has the options of the embedding it was added to, replaced by its own; later changes of the embedding reach
    all fragments, changes of a fragment reach only this one; nothing is shared with the caller or with other objects."""
    mf = lab.make_mf(spin, 4, "sto-3g", canonical=True)
    cls = KINDS[kind]()
    defaults = cls(mf).opts.asdict(deepcopy=True)
    given = random_options(c, cls(mf).opts)
    keep = copy.deepcopy(given)
    emb = cls(mf, **given)
    model = merge(defaults, given)
    c.true("options given", emb.opts.asdict() == model, repr([k for k in model if emb.opts.asdict()[k] != model[k]]))
    fdef = emb.Fragment.Options()
    own = [random_options(c, emb.opts, prob=0.3) for _ in range(3)]
    own = [{k: v for k, v in x.items() if hasattr(fdef, k)} for x in own]
    kown = copy.deepcopy(own)
    with emb.sao_fragmentation() as f:
        frags = [f.add_atomic_fragment(i, **own[i]) for i in range(3)]
    fm = [merge(merge(fdef.asdict(deepcopy=True), model), x) for x in kown]

    def check(label):
        for x, m in zip(emb.fragments, fm):
            c.true(label, x.opts.asdict() == m, repr([(k, x.opts.asdict()[k], m[k]) for k in m if x.opts.asdict()[k] != m[k]]))
        c.true(label + ": embedding", emb.opts.asdict() == model)
    check("fragment options")
    # all
    ch = random_options(c, emb.opts, prob=0.3)
    kch = copy.deepcopy(ch)
    emb.change_options(**ch)
    model, fm = merge(model, kch), [merge(m, kch) for m in fm]
    check("change of all")
    # one
    ch1 = {k: v for k, v in random_options(c, emb.opts, prob=0.3).items() if hasattr(fdef, k)}
    frags[1].change_options(**ch1)
    fm[1] = merge(fm[1], ch1)
    check("change of one")
    for x in frags:
        x.opts.bath_options["threshold"] = object()
        break
    fm[0]["bath_options"]["threshold"] = frags[0].opts.bath_options["threshold"]
    check("nothing shared")
    given.setdefault("bath_options", {})["order"] = "changed by the caller"
    for x in own:
        x.setdefault("bath_options", {})["order"] = "changed by the caller"
    check("independent of the caller")
    c.true("values given unchanged", {k: v for k, v in keep.items()} == {k: ({x: y for x, y in v.items() if y != "changed by the caller"} if isinstance(v, dict) else v)
                                                                         for k, v in given.items() if k in keep} or "order" in keep.get("bath_options", {}))
    c.true("new object has the defaults", cls(mf).opts.asdict() == defaults)


@contract(P, "unknown_options", ["vayesta.core.qemb.qemb.Embedding.__init__", "vayesta.core.qemb.fragment.Fragment.__init__",
                                 "vayesta.core.qemb.qemb.Embedding.change_options", "vayesta.core.util.OptionsBase.replace",
                                 "vayesta.solver.check_solver_config"],
          sym=False, n=1, bounded="three unknown names", cases=product_cases(spin=("r", "u"), kind=("ewf", "dmet"), name=("nope", "bath_option", "Threshold")))
def unknown_options(c, spin, kind, name):
    """Misspelt options, dictionary keys, flags and solvers are refused wherever they can be given."""
    mf = lab.make_mf(spin, 4, "sto-3g", canonical=True)
    cls = KINDS[kind]()
    c.raises("embedding", TypeError, lambda: cls(mf, **{name: 1}))
    for d in ("bath_options", "solver_options", "bosonic_bath_options"):
        c.raises("embedding dictionary", TypeError, lambda: cls(mf, **{d: {name: 1}}))
    c.raises("solver", (ValueError, ImportError), lambda: cls(mf, solver=name))
    emb = cls(mf)
    before = copy.deepcopy(emb.opts.asdict())
    with emb.sao_fragmentation() as f:
        f.add_atomic_fragment(0)
        c.raises("fragment", TypeError, lambda: f.add_atomic_fragment(1, **{name: 1}))
        c.raises("fragment dictionary", TypeError, lambda: f.add_atomic_fragment(1, solver_options={name: 1}))
        c.raises("flag", TypeError, lambda: f.add_atomic_fragment(1, flags={name: 1}))
        c.raises("fragment solver", (ValueError, ImportError), lambda: f.add_atomic_fragment(1, solver=name))
    c.raises("change", TypeError, lambda: emb.change_options(**{name: 1}))
    c.raises("change dictionary", TypeError, lambda: emb.change_options(bath_options={name: 1}))
    c.raises("change fragment", TypeError, lambda: emb.fragments[0].change_options(**{name: 1}))
    c.true("nothing changed", emb.opts.asdict() == before)


SOLVERS = ("CCSD", "FCI", "CISD", "MP2", "TCCSD", "extCCSD", "DUMP", "CALLBACK")


@contract(P, "solver_options", ["vayesta.ewf.fragment.Fragment.get_solver_options", "vayesta.dmet.fragment.DMETFragment.get_solver_options",
                                "vayesta.core.qemb.fragment.Fragment.get_solver", "vayesta.solver.get_solver_class", "vayesta.solver.solver.ClusterSolver.__init__",
                                "vayesta.core.qemb.fragment.Fragment.get_frag_hamil"],
          sym=False, n=2, nthorough=10, bounded="four hydrogen atoms, random values of all solver options",
          cases=product_cases(spin=("r", "u"), kind=("ewf", "dmet"), solver=SOLVERS,
                              exclude=lambda spin, kind, solver: (kind == "dmet" and solver not in ("CCSD", "FCI")) or (spin == "u" and solver == "TCCSD")))
def solver_options(c, spin, kind, solver):
    """The solver of a fragment is of the class asked for and has every option it knows from the options of its fragment, and
    its own defaults otherwise; the Hamiltonian has the fragment's settings."""
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True)
    cls = KINDS[kind]()
    so = {k: v for k, v in random_options(c, cls(mf).opts).get("solver_options", {}).items() if k not in ("init_guess", "fix_spin", "n_moments")}
    if solver == "CALLBACK":
        so["callback"] = lambda mf: None
    top = dict(store_eris=bool(c.rng.integers(0, 2)), match_cluster_fock=bool(c.rng.integers(0, 2)))
    if kind == "ewf":
        top["sc_mode"] = int(c.rng.integers(0, 3))
    local = so if c.rng.random() < 0.5 else {}
    fci = dict(max_cycle=int(c.rng.integers(50, 100)))
    emb = cls(mf, solver="CCSD", bath_options=dict(bathtype="dmet"), **top, solver_options={} if local else so)
    with emb.sao_fragmentation() as f:
        x = f.add_atomic_fragment([0, 1], solver=solver, solver_options=local, **(dict(tcc_fci_opts=fci) if solver == "TCCSD" else {}))
        y = f.add_atomic_fragment([2, 3])
    x.make_bath()
    x.make_cluster()
    s = x.get_solver()
    name = {("CCSD", "r"): "RCCSD_Solver", ("CCSD", "u"): "UCCSD_Solver", ("FCI", "r"): "FCI_Solver", ("FCI", "u"): "UFCI_Solver", ("CISD", "r"): "RCISD_Solver",
            ("CISD", "u"): "UCISD_Solver", ("MP2", "r"): "RMP2_Solver", ("MP2", "u"): "UMP2_Solver", ("TCCSD", "r"): "TRCCSD_Solver",
            ("extCCSD", "r"): "extRCCSD_Solver", ("extCCSD", "u"): "extUCCSD_Solver"}.get((solver, spin), {"DUMP": "DumpSolver", "CALLBACK": "CallbackSolver"}.get(solver))
    c.true("class", type(s).__name__ == name, type(s).__name__)
    c.true("solver of the fragment", x.solver == solver and y.solver == "CCSD" and emb.solver == "CCSD")
    default = type(s).Options()
    full = {**cls(mf).opts.solver_options, **so}
    for k in default.keys():
        if k in ("init_guess", "fci_opts", "c_cas_occ", "c_cas_vir", "filename"):
            continue
        want = default.get(k)
        if k in full and (full[k] is not None or kind == "dmet"):
            want = full[k]
        if k == "sc_mode" and kind == "ewf":
            want = top["sc_mode"]
        if k == "external_corrections":
            want = []
        if k == "test_extcorr":
            want = False
        got = s.opts.get(k)
        c.true("option", got is want or got == want, "%s: %r instead of %r" % (k, got, want))
    if solver == "TCCSD":
        c.eq("active space", s.opts.c_cas_occ, x._dmet_bath.c_cluster_occ)
        c.eq("active space", s.opts.c_cas_vir, x._dmet_bath.c_cluster_vir)
        c.true("options of the inner solver", s.opts.fci_opts == fci, repr(s.opts.fci_opts))
    c.true("store", s.hamil.opts.cache_eris == top["store_eris"])
    c.true("match Fock", s.hamil.opts.match_fock == top["match_cluster_fock"])
    c.true("screening", s.hamil.opts.screening is None)
    c.true("other solver on request", type(x.get_solver("CISD")).__name__ == ("RCISD_Solver" if spin == "r" else "UCISD_Solver"))


@contract(P, "solver_settings", ["vayesta.solver.ccsd.RCCSD_Solver.kernel", "vayesta.solver.fci.FCI_Solver.__init__", "vayesta.solver.cisd.RCISD_Solver.kernel",
                                 "vayesta.solver.tccsd.TRCCSD_Solver.get_callback"],
          sym=False, n=3, nthorough=20, bounded="four hydrogen atoms, random values of all solver options",
          cases=product_cases(spin=("r", "u"), solver=("CCSD", "FCI", "CISD", "TCCSD"), exclude=lambda spin, solver: spin == "u" and solver == "TCCSD"))
def solver_settings(c, spin, solver):
    """The settings arrive at the PySCF object that does the calculation."""
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True)
    rng = c.rng
    so = dict(max_cycle=int(rng.integers(40, 90)), conv_tol=float(10.0 ** -rng.uniform(7, 9)))
    if solver in ("CCSD", "TCCSD"):
        so.update(conv_tol_normt=float(10.0 ** -rng.uniform(5, 7)), diis_space=int(rng.integers(4, 9)), diis_start_cycle=int(rng.integers(0, 3)),
                  iterative_damping=float(rng.uniform(0.8, 1.0)), level_shift=float(rng.uniform(0, 0.1)), solve_lambda=bool(rng.integers(0, 2)))
    if solver == "FCI":
        so.update(threads=int(rng.integers(1, 3)), lindep=float(10.0 ** -rng.uniform(12, 14)), davidson_only=bool(rng.integers(0, 2)))
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=dict(bathtype="dmet"), solver_options=so)
    kw = {}
    if solver == "TCCSD":
        kw["tcc_fci_opts"] = dict(max_cycle=int(rng.integers(50, 90)), conv_tol=1e-9)
    with emb.sao_fragmentation() as f:
        x = f.add_atomic_fragment([0, 1], **kw)
    x.make_bath()
    x.make_cluster()
    s = x.get_solver()
    seen = []
    if solver == "FCI":
        pyscf_obj = s.solver
    else:
        orig = s.get_solver_class

        def get_solver_class(*a):
            base = orig(*a)

            def make(*a, **k):
                obj = base(*a, **k)
                seen.append(obj)
                return obj
            return make
        s.get_solver_class = get_solver_class
        inner = []
        import vayesta.solver.tccsd as m_t
        if solver == "TCCSD":
            ofci = m_t.FCI_Solver

            class Fci(ofci):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k)
                    inner.append(self)
            m = mock.patch.object(m_t, "FCI_Solver", Fci)
        else:
            m = mock.patch.object(m_t, "__doc__", None)
        with m:
            try:
                s.kernel()
            except (np.linalg.LinAlgError, AttributeError):
                if not seen:
                    raise
        pyscf_obj = seen[0]
        if solver == "TCCSD":
            c.true("settings of the inner solver", inner[0].solver.max_cycle == kw["tcc_fci_opts"]["max_cycle"] and inner[0].solver.conv_tol == 1e-9)
    for k, v in so.items():
        if k in ("solve_lambda",) or (solver == "CISD" and k == "max_cycle"):
            continue
        c.true("setting", getattr(pyscf_obj, k) == v, "%s %r %r" % (k, getattr(pyscf_obj, k), v))
    if solver == "CCSD":
        flat = lambda t: np.concatenate([np.ravel(v) for v in (t if isinstance(t, (tuple, list)) else [t])])
        c.true("Lambda equations", (abs(flat(s.wf.l2) - flat(s.wf.t2)).max() > 1e-6) == so["solve_lambda"])


@contract(P, "fragment_settings", ["vayesta.ewf.fragment.Fragment.kernel"], sym=False, n=1, nthorough=3, bounded="four hydrogen atoms",
          cases=product_cases(spin=("r", "u"), store=(None, "cisd", "ccsd"), wf=(True, False), dm=(False, True), aux=(False, True)))
def fragment_settings(c, spin, store, wf, dm, aux):
    """Switches of the results: type of the stored wave function, energies calculated, fragments left out."""
    mf = lab.make_mf(spin, 4, "sto-3g", canonical=True)
    emb = vayesta.ewf.EWF(mf, solver="FCI" if store != "cisd" else "CCSD", bath_options=dict(bathtype="full"), store_wf_type=store, calc_e_wf_corr=wf, calc_e_dm_corr=dm and store is None)
    with emb.sao_fragmentation() as f:
        x = f.add_atomic_fragment([0, 1], auxiliary=aux)
        y = f.add_atomic_fragment([2, 3])
    emb.kernel()
    for z in (x, y):
        name = type(z.results.wf).__name__
        kind = {"cisd": "CISD", "ccsd": "CCSD", None: "FCI"}[store]
        c.true("stored wave function", name == "%s%s_WaveFunction" % (spin.upper(), kind), name)
        c.true("wave function energy", (z.results.e_corr is not None) == wf, repr(z.results.e_corr))
        c.true("density matrix energy", (z.results.e_corr_dm2cumulant is not None) == (dm and store is None))
    if wf:
        c.true("auxiliary fragments do not contribute", abs(emb.get_e_corr() - (0 if aux else x.results.e_corr) - y.results.e_corr) < 1e-10,
               "%g" % (emb.get_e_corr() - y.results.e_corr))


@contract(P, "bath_options", ["vayesta.core.qemb.fragment.Fragment.make_bath"], sym=False, n=2, nthorough=8, bounded="four hydrogen atoms",
          cases=product_cases(spin=("r", "u"), level=("embedding", "fragment"), occ=("own", None), vir=("own", None)))
def bath_options(c, spin, level, occ, vir):
    """Bath settings for occupied or virtual orbitals alone take the place of the common setting, on the embedding or on one
    fragment."""
    mf = lab.make_mf(spin, 4, "6-31g", canonical=True)
    t = [float(10.0 ** -c.rng.uniform(2, 6)) for _ in range(3)]
    o = [int(c.rng.integers(0, 3)) for _ in range(3)]
    bo = dict(bathtype="mp2", threshold=t[0], project_dmet_order=o[0])
    if occ:
        bo.update(threshold_occ=t[1], project_dmet_order_occ=o[1], truncation_occ="occupation", addbuffer_occ=False)
    if vir:
        bo.update(threshold_vir=t[2], project_dmet_order_vir=o[2])
    emb = vayesta.ewf.EWF(mf, **(dict(bath_options=bo) if level == "embedding" else {}))
    with emb.sao_fragmentation() as f:
        x = f.add_atomic_fragment([0, 1], **(dict(bath_options=bo) if level == "fragment" else {}))
    seen = {}
    x.make_bath()
    for typ in ("occ", "vir"):
        fac = getattr(x, "_bath_factory_" + typ)

        def get_bath(thr, *a, typ=typ, real=fac.get_bath, **k):
            seen[typ] = thr
            return real(thr, *a, **k)
        fac.get_bath = get_bath
    x.make_cluster()
    for typ, own, tt, oo in (("occ", occ, t[1], o[1]), ("vir", vir, t[2], o[2])):
        c.true("threshold " + typ, seen[typ].threshold == (tt if own else t[0]) and seen[typ].type == "occupation", "%r" % seen[typ])
        c.true("projection order " + typ, getattr(x, "_bath_factory_" + typ).project_dmet_order == (oo if own else o[0]))
