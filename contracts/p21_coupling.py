"""P21: tailored and externally corrected CCSD use exactly the amplitudes and residuals of the correcting fragments."""
import itertools
from unittest import mock

import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.core.util import ConvergenceError
from vayesta.solver import ccsdtq, coupling, ext_ccsd
from . import lab
from . import embstub as es
from .common import *
from .detspace import DetSpace, cc_residual

P = "P21"
SPINS = ("a", "b")


# ---------------------------------------------------------------- specification: T3 and T4 in the CCSD equations
class Residual:
    """Contribution of T3 and T4 to the singles and doubles equations; spin-orbital equations of CCSDTQ by spin blocks.
    get(sig): amplitudes with index order following the spin signature, e.g. 'aba' -> t[i,j,k,a,b,c].
    Integrals in chemists' order by the spins of the two electrons: ovov[st], vvov[st], ooov[st]; f, t1 by spin."""

    def __init__(self, E, get, ovov, vvov, ooov, f, t1):
        self.E, self.get, self.ovov, self.vvov, self.ooov, self.f, self.t1 = E, get, ovov, vvov, ooov, f, t1

    def singles(self, s):
        E, out = self.E, 0
        for u in SPINS:
            g = self.ovov[u + u]
            out = out + E("menf,imnaef->ia", g - g.transpose(0, 3, 2, 1), self.get(s + u + u)) / 4
        return out + E("menf,imnaef->ia", self.ovov["ab"], self.get(s + "ab"))

    def t3v(self, s, t, dressed=True, bare=True):
        out = self._t3v(s, t, dressed, bare)
        return out + self._t3v(t, s, dressed, bare).transpose(1, 0, 3, 2)

    def _t3v(self, s, t, dressed, bare):
        E, out = self.E, 0
        for u in SPINS:
            x = y = 0
            if bare:
                x, y = self.vvov[t + u], self.ooov[t + u]
            if dressed:
                x = x - E("nb,nemf->bemf", self.t1[t], self.ovov[t + u])
                y = y + E("jf,mfne->mjne", self.t1[t], self.ovov[t + u])
            w = self.get(s + t + u)
            if u == t:
                x, y = (x - x.transpose(0, 3, 2, 1)) / 2, (y - y.transpose(2, 1, 0, 3)) / 2
            out = out + E("bemf,ijmaef->ijab", x, w) - E("mjne,imnabe->ijab", y, w)
        return out

    def doubles(self, s, t, t3v=True):
        E, out = self.E, self.t3v(s, t, True, t3v)
        for u in SPINS:
            f = self.f[u]
            for w in SPINS:
                f = f + E("menf,nf->me", self.ovov[u + w], self.t1[w])
            f = f - E("mfne,nf->me", self.ovov[u + u], self.t1[u])
            out = out + E("me,ijmabe->ijab", f, self.get(s + t + u))
            g = self.ovov[u + u]
            out = out + E("menf,ijmnabef->ijab", g - g.transpose(0, 3, 2, 1), self.get(s + t + u + u)) / 4
        return out + E("menf,ijmnabef->ijab", self.ovov["ab"], self.get(s + t + "ab"))


def getter(T):
    def get(sig):
        key, q = find_order(sig, T)
        p = [q.index(k) for k in range(len(sig))]
        return T[key].transpose(*p, *[len(sig) + k for k in p])
    return get


RAW_R = ["aba", "abaa", "abab"]
RAW_U = ["aaa", "aba", "bab", "bbb", "aaaa", "aaab", "abab", "abbb", "bbbb"]


def amps_u(c, o, v, name="t", maxn=4):
    return {s: c.tensor(name + s, tuple(o[x] for x in s) + tuple(v[x] for x in s), sym=antisym(s) or None)
            for s in ["a", "b", "aa", "ab", "bb"] + RAW_U if len(s) <= maxn}


def amps_r(c, o, v, name="t"):
    """Spin-adapted amplitudes: t3_aaa follows from t3_aba."""
    w = c.tensor(name + "w", (o, o, o, v, v, v), sym=[((1, 0, 2, 4, 3, 5), 1), ((0, 2, 1, 3, 5, 4), 1)])
    t3 = w - w.transpose(2, 1, 0, 3, 4, 5)
    flip = ((1, 0, 3, 2, 5, 4, 7, 6), 1)
    T = {"a": c.tensor(name + "1", (o, v)), "aba": t3,
         "aaa": t3 - t3.transpose(1, 0, 2, 3, 4, 5) - t3.transpose(0, 2, 1, 3, 4, 5),
         "ab": c.tensor(name + "2", (o, o, v, v), sym=RSYM2),
         "abaa": c.tensor(name + "4", (o,) * 4 + (v,) * 4, sym=antisym("abaa")),
         "abab": c.tensor(name + "5", (o,) * 4 + (v,) * 4, sym=antisym("abab") + [flip])}
    T.update(b=T["a"], bab=T["aba"], bbb=T["aaa"], babb=T["abaa"])
    return T


def integrals(c, o, v, name="g"):
    """Blocks of real integrals with their permutational symmetry; o, v by spin (equal objects: restricted)."""
    g = dict(ovov={}, vvov={}, ooov={})
    r = o["a"] is o["b"] and v["a"] is v["b"]
    for s, t in itertools.product(SPINS, SPINS):
        if r and s + t != "aa":
            for k in g:
                g[k][s + t] = g[k]["aa"]
            continue
        if s + t == "ba":
            g["ovov"]["ba"] = g["ovov"]["ab"].transpose(2, 3, 0, 1)
        else:
            g["ovov"][s + t] = c.tensor(name + s + t, (o[s], v[s], o[t], v[t]), sym=[((2, 3, 0, 1), 1)] if s == t else None)
        g["vvov"][s + t] = c.tensor(name + "v" + s + t, (v[s], v[s], o[t], v[t]), sym=[((1, 0, 2, 3), 1)])
        g["ooov"][s + t] = c.tensor(name + "o" + s + t, (o[s], o[s], o[t], v[t]), sym=[((1, 0, 2, 3), 1)])
    return g


def v_r(g):
    """Order of integrals of the restricted code: ovov, vvov, ooov, ovoo."""
    return g["ovov"]["aa"], g["vvov"]["aa"], g["ooov"]["aa"], g["ooov"]["aa"].transpose(2, 3, 0, 1)


def v_u(g, full=False):
    """Order of the unrestricted code: ooov, ovov, ovvv, vvov, ovoo."""
    sp = (("a", "a"), ("a", "b"), ("b", "b"))
    T = lambda x: x.transpose(2, 3, 0, 1)
    mixed = lambda k: tuple(k(s, t) if full or s != t else None for s, t in sp)
    return (tuple(g["ooov"][s + t] for s, t in sp), tuple(g["ovov"][s + t] for s, t in sp), tuple(T(g["vvov"][t + s]) for s, t in sp),
            mixed(lambda s, t: g["vvov"][s + t]), mixed(lambda s, t: T(g["ooov"][t + s])))


def wf_amps(T, spin):
    if spin == "r":
        return T["a"], T["ab"], T["aba"], (T["abaa"], T["abab"])
    return ((T["a"], T["b"]), (T["aa"], T["ab"], T["bb"]), tuple(T[k] for k in RAW_U[:4]), tuple(T[k] for k in RAW_U[4:]))


def setup(c, spin, name=""):
    if spin == "r":
        o, v = c.dim("o" + name, max=3), c.dim("v" + name, max=3)
        o, v = dict(a=o, b=o), dict(a=v, b=v)
        T = amps_r(c, o["a"], v["a"], "t" + name)
    else:
        o = dict(a=c.dim("oa" + name, max=2), b=c.dim("ob" + name, max=2))
        v = dict(a=c.dim("va" + name, max=2), b=c.dim("vb" + name, max=2))
        T = amps_u(c, o, v, "t" + name)
    f = {"a": c.tensor("f%sa" % name, (o["a"], v["a"]))}
    f["b"] = f["a"] if spin == "r" else c.tensor("f%sb" % name, (o["b"], v["b"]))
    g = integrals(c, o, v, "g" + name)
    return o, v, T, f, g


@contract(P, "t_residual", ["ccsdtq.t_residual_rhf", "ccsdtq.t_residual_uhf", "ccsdtq.t2_residual_rhf_t3v", "ccsdtq.t2_residual_uhf_t3v"],
          modules=("vayesta.solver.ccsdtq",), cases=product_cases(spin=["r", "u"], t3v=[False, True]), n=3, timeout=300, opaque_minmax=True)
def _(c, spin, t3v):
    """Contribution of T3 and T4 to the singles and doubles equations, all sizes."""
    o, v, T, f, g = setup(c, spin)
    frag = c.ns(id=0)
    R = Residual(c.einsum, getter(T), g["ovov"], g["vvov"], g["ooov"], f, T)
    amps = wf_amps(T, spin)
    if spin == "r":
        d1, d2 = ccsdtq.t_residual_rhf(c.ns(log=c.log), frag, *amps, f["a"], v_r(g), include_t3v=t3v)
        c.eq("dt1", d1, R.singles("a"))
        c.eq("dt2", d2, R.doubles("a", "b", t3v))
    else:
        d1, d2 = ccsdtq.t_residual_uhf(c.ns(log=c.log), frag, *amps, (f["a"], f["b"]), v_u(g), include_t3v=t3v)
        for k in range(2):
            c.eq("dt1 %d" % k, d1[k], R.singles(SPINS[k]))
        for k, (s, t) in enumerate(("aa", "ab", "bb")):
            c.eq("dt2 " + s + t, d2[k], R.doubles(s, t, t3v))


@contract(P, "oracle", ["Residual (specification)"], sym=False, n=1, timeout=300, cases=product_cases(n=[((2, 2), (2, 2)), ((3, 2), (3, 2)), ((4, 1), (4, 1)), ((1, 3), (1, 3)), ((3, 1), (3, 2)), ((2, 2), (1, 3))]),
          bounded="spaces of up to 8 orbitals; this validates the specification used by the other contracts")
def _(c, n):
    """The specification equals the difference of exp(-T) H exp(T) with and without T3 and T4, in all determinants."""
    no, nv = n
    o, v = dict(zip(SPINS, no)), dict(zip(SPINS, nv))
    D = DetSpace([no[k] + nv[k] for k in range(2)], no)
    r = lambda *s: c.rng.normal(size=s)
    G = []
    for s, t in ((0, 0), (0, 1), (1, 1)):
        m, n_ = D.norb[s], D.norb[t]
        x = r(m, m, n_, n_)
        x = x + x.transpose(1, 0, 2, 3)
        x = x + x.transpose(0, 1, 3, 2)
        G.append(x + x.transpose(2, 3, 0, 1) if s == t else x)
    h = [y + y.T for y in (r(D.norb[0], D.norb[0]), r(D.norb[1], D.norb[1]))]
    full = {"aa": G[0], "ab": G[1], "ba": G[1].transpose(2, 3, 0, 1), "bb": G[2]}
    O, V = (lambda s: slice(0, o[s])), (lambda s: slice(o[s], None))
    cut = lambda k: {s + t: full[s + t][tuple((O if ch == "o" else V)(sp) for ch, sp in zip(k, (s, s, t, t)))] for s in SPINS for t in SPINS}
    f = {}
    for k, s in enumerate(SPINS):
        x = h[k].copy()
        for t in SPINS:
            x = x + np.einsum("pqii->pq", full[s + t][:, :, O(t), O(t)])
        x = x - np.einsum("piiq->pq", full[s + s][:, O(s), O(s), :])
        f[s] = x[O(s), V(s)]

    def anti(x, sig):
        groups = [[k for k in range(len(sig)) if sig[k] == s] for s in SPINS]
        for off in (0, len(sig)):
            for grp in groups:
                y = 0
                for p in itertools.permutations(range(len(grp))):
                    sgn = (-1) ** sum(p[a] > p[b] for a in range(len(p)) for b in range(a + 1, len(p)))
                    ax = list(range(2 * len(sig)))
                    for a, b in zip(grp, p):
                        ax[off + a] = off + grp[b]
                    y = y + sgn * x.transpose(ax)
                x = y
        return x
    T = {s: anti(r(*[o[x] for x in s], *[v[x] for x in s]), s) for s in ["a", "b", "aa", "ab", "bb"] + RAW_U}
    H = D.hamiltonian(h, (G[0], G[1], G[2]))
    t1, t2 = (T["a"], T["b"]), (T["aa"], T["ab"], T["bb"])
    r2 = cc_residual(D, H, t1, t2)[1]
    op = D.cluster(t1, t2)
    for sig in RAW_U:
        fac = np.prod([1.0 / np.prod(range(1, sig.count(s) + 1)) ** 2 for s in SPINS])
        for idx, x in np.ndenumerate(T[sig]):
            if not x:
                continue
            y = fac * x * D.E[SPINS.index(sig[0])][o[sig[0]] + idx[len(sig)], idx[0]]
            for k in range(1, len(sig)):
                y = y @ D.E[SPINS.index(sig[k])][o[sig[k]] + idx[len(sig) + k], idx[k]]
            op = op + y
    rr = D.expm(op, H @ D.expm(op, D.ref), -1) - r2
    R = Residual(lambda e, *a: np.einsum(e, *a, optimize=True), getter(T), cut("ovov"), cut("vvov"), cut("ooov"), f, T)
    for k, s in enumerate(SPINS):
        x = R.singles(s)
        ref = np.array([[(D.E[k][o[s] + a, i] @ D.ref) @ rr for a in range(v[s])] for i in range(o[s])]).reshape(o[s], v[s])
        c.eq("singles " + s, x, ref)
        for l, t in enumerate(SPINS):
            x = R.doubles(s, t)
            for (i, j, a, b), y in np.ndenumerate(x):
                d = D.E[k][o[s] + a, i] @ (D.E[l][o[t] + b, j] @ D.ref)
                if np.abs(d).max() > 0:
                    c.true("doubles " + s + t, abs(d @ rr - y) < 1e-9 * max(1, np.abs(rr).max()), "%r %r" % (d @ rr, y))


# ---------------------------------------------------------------- combination of the corrections
def direct_sum(sub, a, b):
    assert sub == "ia,jb->ijab"
    return a[:, None, :, None] + b[None, :, None, :]


def project2(E, d, p, n, spin):
    """Projection of doubles with n fragment projectors p (by spin), symmetrised."""
    if n == 0:
        return d

    def one(x, a, b):
        if n == 2:
            return E("xi,yj,ijab->xyab", p[a], p[b], x)
        return (E("xi,ijab->xjab", p[a], x) + E("yj,ijab->iyab", p[b], x)) / 2
    if spin == "r":
        return one(d, 0, 0)
    return tuple(one(x, a, b) for x, (a, b) in zip(d, ((0, 0), (0, 1), (1, 1))))


def rotate(E, t1, t2, ro, rv, spin):
    """Amplitudes of cluster y in the basis of cluster x; ro, rv: <x|y> by spin."""
    if spin == "r":
        return E("Ii,Aa,ia->IA", ro[0], rv[0], t1), E("Ii,Jj,Aa,Bb,ijab->IJAB", ro[0], ro[0], rv[0], rv[0], t2)
    return (tuple(E("Ii,Aa,ia->IA", ro[k], rv[k], t1[k]) for k in range(2)),
            tuple(E("Ii,Jj,Aa,Bb,ijab->IJAB", ro[a], ro[b], rv[a], rv[b], x) for x, (a, b) in zip(t2, ((0, 0), (0, 1), (1, 1)))))


def combine(spin, *x):
    """Sum of (t1, t2) pairs, all nested tuples."""
    add = lambda a, b: tuple(add(p, q) for p, q in zip(a, b)) if isinstance(a, tuple) else a + b
    out = x[0]
    for y in x[1:]:
        out = tuple(add(p, q) for p, q in zip(out, y))
    return out


class ClusterX:
    """Cluster of the corrected calculation and of the correcting fragments; overlaps between them are free."""

    def __init__(self, c, spin):
        self.c, self.spin = c, spin
        ns = 1 if spin == "r" else 2
        self.ns = ns
        self.nao = c.dim("nao", min=4, max=7)
        self.S = c.tensor("S", (self.nao, self.nao), sym=[((1, 0), 1)])
        self.o = [c.dim("xo%d" % k, max=3 if ns == 1 else 2) for k in range(ns)]
        self.v = [c.dim("xv%d" % k, max=3 if ns == 1 else 2) for k in range(ns)]
        self.co = [c.tensor("Xo%d" % k, (self.nao, self.o[k])) for k in range(ns)]
        self.cv = [c.tensor("Xv%d" % k, (self.nao, self.v[k])) for k in range(ns)]
        if not c.symbolic:
            # overlaps of the order of one: no loss of precision in products of many of them
            self.S /= 2 * self.S.shape[0]
            c.redeclare(self.S)
        self.e = [energies(c, "e%d" % k, self.o[k], self.v[k]) for k in range(ns)]

    def tup(self, x):
        return x[0] if self.spin == "r" else tuple(x)

    def fragment(self, name, o, v, **attrs):
        """o, v by spin."""
        c = self.c
        self_o, self_v = [o[s] for s in SPINS[:self.ns]], [v[s] for s in SPINS[:self.ns]]
        f = c.ns(id=int(name))
        co = [c.tensor("Y%so%d" % (name, k), (self.nao, self_o[k])) for k in range(self.ns)]
        cv = [c.tensor("Y%sv%d" % (name, k), (self.nao, self_v[k])) for k in range(self.ns)]
        nf = [c.dim("nf%s%d" % (name, k), max=2) for k in range(self.ns)]
        cf = [c.tensor("F%s%d" % (name, k), (self.nao, nf[k])) for k in range(self.ns)]
        pf = [c.tensor("P%s%d" % (name, k), (nf[k], self_o[k])) for k in range(self.ns)]
        ov = lambda n, a, b, da, db: self.overlap(n, a, b, da, db)
        ro = [ov("Ro%s%d" % (name, k), self.co[k], co[k], self.o[k], self_o[k]) for k in range(self.ns)]
        rv = [ov("Rv%s%d" % (name, k), self.cv[k], cv[k], self.v[k], self_v[k]) for k in range(self.ns)]
        gf = [ov("G%s%d" % (name, k), self.co[k], cf[k], self.o[k], nf[k]) for k in range(self.ns)]
        f.ro, f.rv, f.py, f.px = ro, rv, [x.T @ x for x in pf], [x @ x.T for x in gf]
        t = self.tup
        f.cluster = c.ns(c_active_occ=t(co), c_active_vir=t(cv), c_occ=t(co), c_vir=t(cv), nocc_active=t(self_o), nocc=t(self_o))
        f.c_frag = f.c_proj = t(cf)
        f.get_overlap = es.overlap({"frag|cluster-occ": t(pf)})
        f.solver = "FCI"
        f.n = (self_o, self_v)
        for k, x in attrs.items():
            setattr(f, k, x)
        return f

    def overlap(self, name, a, b, da, db):
        if not self.c.symbolic:
            return a.T @ self.S @ b
        R = self.c.tensor(name, (da, db))
        self.c.rule([(a, "mi"), (self.S, "mn"), (b, "nj")], "ij", [(1, [(R, "ij")], {})])
        return R

    def denominators(self):
        D = []
        e = [(x[:n][:, None] - x[n:][None, :]) for x, n in zip(self.e, self.o)]
        if self.spin == "r":
            return e[0], direct_sum("ia,jb->ijab", e[0], e[0])
        return tuple(e), tuple(direct_sum("ia,jb->ijab", e[a], e[b]) for a, b in ((0, 0), (0, 1), (1, 1)))


def div(x, d):
    return tuple(div(a, b) for a, b in zip(x, d)) if isinstance(x, tuple) else x / d


@contract(P, "ext_correct", ["coupling.externally_correct", "coupling._get_delta_t2_from_t3v", "coupling._get_delta_t_for_extcorr", "coupling._integrals_for_extcorr",
                             "coupling._get_delta_t_for_delta_tailor", "coupling.project_t2", "coupling.transform_amplitude"],
          modules=("vayesta.solver.coupling", "vayesta.solver.ccsdtq", "vayesta.core.spinalg"), n=2, timeout=600, opaque_minmax=True,
          cases=product_cases(spin=["r", "u"], proj=[0, 1, 2], coul=[False, True], order=["both", "reverse", "external"], exclude=lambda order, proj, coul, **k: order != "both" and (proj != 1 or not coul)))
def _(c, spin, proj, coul, order):
    """Each iteration of CCSD adds: the T3/T4 residual of the correcting cluster, projected, transformed and divided by
    the energy denominators, and amplitude differences, projected and transformed only."""
    E = c.einsum
    X = ClusterX(c, spin)
    o, v, T, f, g = setup(c, spin, "y")
    # delta-tailor fragment
    o2 = dict(zip(SPINS, [c.dim("zo%d" % k, max=2) for k in range(X.ns)] * 2))
    v2 = dict(zip(SPINS, [c.dim("zv%d" % k, max=2) for k in range(X.ns)] * 2))
    t3amps = wf_amps(T, spin)
    eris = {}
    spt = (("a", "a"), ("a", "b"), ("b", "b"))

    def blocks(s, t):
        """The blocks of the eris array used by the code, as an object which is sliced by orbital space."""
        T_ = lambda x: x.transpose(2, 3, 0, 1)
        return {"ovov": g["ovov"][s + t], "vvov": g["vvov"][s + t], "ooov": g["ooov"][s + t], "ovoo": T_(g["ooov"][t + s]), "ovvv": T_(g["vvov"][t + s])}

    class Sliced:
        def __init__(self, s, t):
            self.b, self.n = blocks(s, t), (o[s], o[s], o[t], o[t])

        def __getitem__(self, sl):
            key = ""
            for x, n in zip(sl, self.n):
                if x.start in (None, 0) and x.stop is not None:
                    c.true("occupied slice", x.stop == n)
                    key += "o"
                else:
                    c.true("virtual slice", x.start == n and x.stop is None)
                    key += "v"
            return self.b[key]
    er = Sliced("a", "a") if spin == "r" else tuple(Sliced(s, t) for s, t in spt)
    fy = X.fragment("1", o, v)
    fy.results = c.ns(wf=c.ns(as_ccsdtq=lambda: c.ns(t1=t3amps[0], t2=t3amps[1], t3=t3amps[2], t4=t3amps[3])))
    fy.hamil = c.ns(get_eris_screened=lambda: er)
    # Fock matrix in the basis of y: the AO matrix enters only through its ov block
    F = []
    for k in range(X.ns):
        if c.symbolic:
            A = c.tensor("F%d" % k, (X.nao, X.nao))
            co, cv = (fy.cluster.c_active_occ, fy.cluster.c_active_vir) if spin == "r" else (fy.cluster.c_active_occ[k], fy.cluster.c_active_vir[k])
            c.rule([(co, "mi"), (A, "mn"), (cv, "na")], "ia", [(1, [(f[SPINS[k]], "ia")], {})])
        else:
            co, cv = (fy.cluster.c_active_occ, fy.cluster.c_active_vir) if spin == "r" else (fy.cluster.c_active_occ[k], fy.cluster.c_active_vir[k])
            A = c.rng.normal(size=(X.S.shape[0],) * 2)
            f[SPINS[k]] = co.T @ A @ cv
            if spin == "r":
                f["b"] = f["a"]
        F.append(A)
    mk = lambda n, a: ut1(c, n, a[0][0], a[1][0], a[0][1], a[1][1]) if spin == "u" else c.tensor(n, (a[0][0], a[1][0]))
    mk2 = lambda n, a: ut2(c, n, a[0][0], a[1][0], a[0][1], a[1][1]) if spin == "u" else c.tensor(n, (a[0][0], a[0][0], a[1][0], a[1][0]), sym=RSYM2)
    fz = X.fragment("2", o2, v2)
    hi, lo = [(mk("z%s1" % n, fz.n), mk2("z%s2" % n, fz.n)) for n in ("hi", "lo")]
    fz.results = c.ns(wf=c.ns(as_ccsd=lambda: c.ns(t1=hi[0], t2=hi[1])))
    ran = []

    def get_solver(name):
        c.true("CCSD", name == "CCSD")
        s = c.ns(opts=c.ns(solve_lambda=True), converged=False)

        def kernel():
            ran.append(1)
            s.converged, s.wf = True, c.ns(t1=lo[0], t2=lo[1])
        s.kernel = kernel
        return s
    fz.get_solver = get_solver
    # parent cluster
    gx = integrals(c, dict(zip(SPINS, X.o * 2)), dict(zip(SPINS, X.v * 2)), "gx") if spin == "u" else integrals(c, dict(a=X.o[0], b=X.o[0]), dict(a=X.v[0], b=X.v[0]), "gx")
    xb = {}
    for s, t in itertools.product(SPINS[:X.ns], SPINS[:X.ns]):
        up = lambda k: "".join(ch.upper() if sp == "b" else ch for ch, sp in zip(k, (s, s, t, t)))
        for k, key in (("vvov", "vvov"), ("ooov", "ooov")):
            xb[up(k)] = gx[key][s + t]
        xb[up("ovoo")] = gx["ooov"][t + s].transpose(2, 3, 0, 1)
        xb[up("ovvv")] = gx["vvov"][t + s].transpose(2, 3, 0, 1)
        xb[up("ovov")] = gx["ovov"][s + t]
    emb = c.ns(get_ovlp=lambda: X.S, get_fock=lambda with_exxdiv=True, **k: F[0] if spin == "r" else tuple(F), fragments=[fy, fz], spinsym="restricted" if spin == "r" else "unrestricted")
    for y in (fy, fz):
        y.base = emb
    t = X.tup
    cluster = c.ns(nocc=t(X.o), nvir=t(X.v), nocc_active=t(X.o), nvir_active=t(X.v), c_active_occ=t(X.co), c_active_vir=t(X.cv))
    fx = c.ns(id=0, base=emb, cluster=cluster)
    hamil = c.ns(_fragment=fx, cluster=cluster, get_clus_mf_info=lambda with_exxdiv=False, **k: (None, None, t(X.e), None, None), get_eris_bare=lambda block: xb[block])
    solver = c.ns(hamil=hamil, log=c.log)
    ec = [(1, "external", proj, coul), (2, "delta-tailor", 1, True)]
    ec = ec[::-1] if order == "reverse" else ec[:1] if order == "external" else ec
    with mock.patch.object(coupling, "pyscf", c.ns(lib=c.ns(direct_sum=direct_sum))):
        call = coupling.externally_correct(solver, ec, hamil=hamil)
    x1, x2 = mk("x1", (X.o * 2, X.v * 2) if spin == "r" else (X.o, X.v)), mk2("x2", (X.o * 2, X.v * 2) if spin == "r" else (X.o, X.v))
    cp = lambda x: tuple(y.copy() for y in x) if isinstance(x, tuple) else x.copy()
    n1, n2 = cp(x1), cp(x2)
    call(dict(t1new=n1, t2new=n2))
    # specification
    R = Residual(E, getter(T), g["ovov"], g["vvov"], g["ooov"], f, T)
    if spin == "r":
        d1, d2 = R.singles("a"), R.doubles("a", "b", not coul)
    else:
        d1, d2 = tuple(R.singles(s) for s in SPINS), tuple(R.doubles(s, u, not coul) for s, u in spt)
    if proj:
        d1 = E("xi,ia->xa", fy.py[0], d1) if spin == "r" else tuple(E("xi,ia->xa", fy.py[k], d1[k]) for k in range(2))
        d2 = project2(E, d2, fy.py, proj, spin)
    parts = [rotate(E, d1, d2, fy.ro, fy.rv, spin)]
    if coul:
        # T3 in the basis of x, integrals of x
        ro, rv = dict(zip(SPINS, fy.ro * 2)), dict(zip(SPINS, fy.rv * 2))
        Tx = {k: E("Ii,Jj,Kk,Aa,Bb,Cc,ijkabc->IJKABC", *[ro[s] for s in k], *[rv[s] for s in k], x) for k, x in T.items() if len(k) == 3}
        Rx = Residual(E, getter(Tx), gx["ovov"], gx["vvov"], gx["ooov"], None, None)
        y2 = Rx.t3v("a", "b", False) if spin == "r" else tuple(Rx.t3v(s, u, False) for s, u in spt)
        y2 = project2(E, y2, fy.px, proj, spin)
        parts[0] = (parts[0][0], combine(spin, (parts[0][1],), (y2,))[0])
    D = X.denominators()
    parts = [(div(parts[0][0], D[0]), div(parts[0][1], D[1]))]
    if order != "external":
        sub = lambda a, b: tuple(sub(p, q) for p, q in zip(a, b)) if isinstance(a, tuple) else a - b
        z1, z2 = sub(hi[0], lo[0]), sub(hi[1], lo[1])
        z1 = E("xi,ia->xa", fz.py[0], z1) if spin == "r" else tuple(E("xi,ia->xa", fz.py[k], z1[k]) for k in range(2))
        z2 = project2(E, z2, fz.py, 1, spin)
        parts.append(rotate(E, z1, z2, fz.ro, fz.rv, spin))
        c.true("one CCSD calculation", len(ran) == 1)
    r1, r2 = combine(spin, (x1, x2), *parts)
    c.eq("t1", n1, r1)
    c.eq("t2", n2, r2)


@contract(P, "tailor", ["coupling.tailor_with_fragments", "coupling.project_t2", "coupling.transform_amplitude"],
          modules=("vayesta.solver.coupling", "vayesta.core.spinalg"), n=3, timeout=300, opaque_minmax=True,
          cases=product_cases(spin=["r", "u"], proj=[0, 1, 2], nfrag=[1, 2]))
def _(c, spin, proj, nfrag):
    """Tailoring adds, for every other fragment, the projected difference of its amplitudes and the current amplitudes in
    its cluster (which replaces them where the fragments cover the space)."""
    E = c.einsum
    X = ClusterX(c, spin)
    u = spin == "u"
    mk = lambda n, o, v: ut1(c, n, o[0], v[0], o[1], v[1]) if u else c.tensor(n, (o[0], v[0]))
    mk2 = lambda n, o, v: ut2(c, n, o[0], v[0], o[1], v[1]) if u else c.tensor(n, (o[0], o[0], v[0], v[0]), sym=RSYM2)
    frags = []
    for k in range(nfrag):
        o = dict(zip(SPINS, [c.dim("zo%d%d" % (k, s), max=2) for s in range(X.ns)] * 2))
        v = dict(zip(SPINS, [c.dim("zv%d%d" % (k, s), max=2) for s in range(X.ns)] * 2))
        f = X.fragment(str(k + 1), o, v)
        f.amps = mk("z%d1" % k, *f.n), mk2("z%d2" % k, *f.n)
        f.results = c.ns(wf=c.ns(as_ccsd=lambda f=f: c.ns(t1=f.amps[0], t2=f.amps[1])))
        frags.append(f)
    t = X.tup
    emb = c.ns(get_ovlp=lambda: X.S, spinsym="unrestricted" if u else "restricted", get_fragment_overlap_norm=lambda **kw: np.zeros((1, nfrag)))
    cluster = c.ns(c_active_occ=t(X.co), c_active_vir=t(X.cv), nocc=t(X.o), nvir=t(X.v), nocc_active=t(X.o), nvir_active=t(X.v))
    solver = c.ns(hamil=c.ns(_fragment=c.ns(id=0, base=emb, cluster=cluster), cluster=cluster), log=c.log)
    call = coupling.tailor_with_fragments(solver, frags, project=proj, ovlp_tol=-1.0)
    x1, x2 = mk("x1", X.o, X.v), mk2("x2", X.o, X.v)
    cp = lambda x: tuple(y.copy() for y in x) if isinstance(x, tuple) else x.copy()
    n1, n2 = cp(x1), cp(x2)
    call(dict(t1new=n1, t2new=n2))
    sub = lambda a, b: tuple(sub(p, q) for p, q in zip(a, b)) if isinstance(a, tuple) else a - b
    parts = []
    for f in frags:
        back = rotate(E, x1, x2, [x.T for x in f.ro], [x.T for x in f.rv], spin)
        z1, z2 = sub(f.amps[0], back[0]), sub(f.amps[1], back[1])
        if proj:
            z1 = tuple(E("xi,ia->xa", f.py[k], z1[k]) for k in range(2)) if u else E("xi,ia->xa", f.py[0], z1)
            z2 = project2(E, z2, f.py, proj, spin)
        parts.append(rotate(E, z1, z2, f.ro, f.rv, spin))
    r1, r2 = combine(spin, (x1, x2), *parts)
    c.eq("t1", n1, r1)
    c.eq("t2", n2, r2)


# ---------------------------------------------------------------- bounded: real calculations
def near(c, label, a, b, tol):
    flat = lambda x: np.concatenate([flat(y) for y in x]) if isinstance(x, tuple) else np.asarray(x).reshape(-1)
    d = np.abs(flat(a) - flat(b)).max()
    c.true(label, d < tol, str(d))


def kernel(x):
    try:
        x.kernel()
    except (AttributeError, ValueError) as e:
        # diverging CCSD iterations end in an error of PySCF's DIIS
        if "numpy.linalg" in str(e) or "infs or NaNs" in str(e):
            raise Skip
        raise
    except ConvergenceError:
        raise Skip


def run_ext(c, spin, mode, proj, coul, split, fcibath="full", df=False, third=None):
    import vayesta.ewf
    natom = 4
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)), df=df, canonical=bool(c.rng.integers(2)), mspin=None if spin == "r" else int(2 * c.rng.integers(2)))
    emb = vayesta.ewf.EWF(mf, solver_options=dict(conv_tol=1e-12, conv_tol_normt=1e-10, max_cycle=200, solve_lambda=False))
    with emb.sao_fragmentation() as f:
        if split is None:
            fci = [f.add_full_system(solver="FCI", bath_options=dict(bathtype="full"), auxiliary=True)]
        else:
            fci = [f.add_atomic_fragment(a, solver="FCI", bath_options=dict(bathtype=fcibath), auxiliary=True) for a in split]
        x = f.add_full_system(solver="CCSD", bath_options=dict(bathtype="full"))
    for y in fci:
        y.opts.solver_options = dict(y.opts.solver_options or {}, conv_tol=1e-14)
    x.add_external_corrections(fci, correction_type=mode, projectors=proj, low_level_coul=coul)
    return mf, emb, x, fci


def cluster_h(mf, x, spin):
    eri, F = lab.ao_eri(mf), lab.fock(mf)
    F2 = (F, F) if spin == "r" else F
    C = x.cluster.c_active
    C = (C, C) if spin == "r" else tuple(C)
    ne = x.cluster.nocc_active
    ne = (ne, ne) if spin == "r" else tuple(ne)
    T = lambda *m: np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *m, optimize=True)
    g = (T(C[0], C[0], C[0], C[0]), T(C[0], C[0], C[1], C[1]), T(C[1], C[1], C[1], C[1]))
    hc = [C[s].T @ (mf.get_hcore() if np.ndim(mf.get_hcore()) == 2 else mf.get_hcore()[s]) @ C[s] for s in range(2)]
    f = [C[s].T @ F2[s] @ C[s] for s in range(2)]
    return DetSpace([y.shape[0] for y in f], ne), hc, g, f, ne


def spin_t(t1, t2, spin):
    if spin == "r":
        d = t2 - t2.transpose(0, 1, 3, 2)
        return (t1, t1), (d, t2, d)
    return tuple(t1), (t2[0], t2[1], t2[-1])


@contract(P, "fixed_point", ["extRCCSD_Solver.get_callback", "extUCCSD_Solver.get_callback", "EWF.Fragment.add_external_corrections", "coupling.externally_correct", "coupling.tailor_with_fragments"],
          sym=False, n=1, nthorough=3, timeout=300, bounded="4 orbitals", cases=product_cases(spin=["r", "u"], mode=["external", "tailor"], proj=[0, 1], coul=[False, True], df=[False, True],
                                                                              exclude=lambda mode, coul, df, proj, **k: (mode == "tailor" and coul) or (df and proj == 0)))
def _(c, spin, mode, proj, coul, df):
    """With exact correcting fragments, all of the space, the exact amplitudes are a fixed point of the corrected CCSD."""
    mf, emb, x, fci = run_ext(c, spin, mode, proj, coul if mode == "external" else True, None if proj == 0 else [0, 1, 2, 3], df=df)
    kernel(emb)
    D, hc, g, f, ne = cluster_h(mf, x, spin)
    H = D.hamiltonian(hc, g)
    # exact amplitudes in the basis of the corrected cluster
    S = mf.get_ovlp()
    y = fci[0]
    w = y.results.wf.as_ccsd()
    ns = 1 if spin == "r" else 2
    pick = lambda a: (a,) if spin == "r" else a
    ro = [a.T @ S @ b for a, b in zip(pick(x.cluster.c_active_occ), pick(y.cluster.c_active_occ))]
    rv = [a.T @ S @ b for a, b in zip(pick(x.cluster.c_active_vir), pick(y.cluster.c_active_vir))]
    t1, t2 = rotate(lambda e, *a: np.einsum(e, *a, optimize=True), w.t1, w.t2, ro, rv, spin)
    s1, s2 = spin_t(t1, t2, spin)
    if max(np.abs(q).max() for q in s1 + s2) > 1.5:
        raise Skip  # exact wave function almost orthogonal to the reference: ill-conditioned
    e, r, T = cc_residual(D, H, s1, s2)
    es_ = np.linalg.eigvalsh(H.toarray())
    if abs(e - es_).min() > 1e-6:
        raise Skip  # FCI ended in another spin state than the amplitudes represent
    s = x.get_solver("extCCSD")
    call = s.get_callback()
    cp = lambda a: tuple(q.copy() for q in a) if isinstance(a, tuple) else np.array(a)
    n1, n2 = cp(t1), cp(t2)
    call(dict(t1new=n1, t2new=n2))
    n1, n2 = spin_t(n1, n2, spin)
    if mode == "tailor":
        near(c, "t1 of FCI", n1, s1, 1e-5)
        near(c, "t2 of FCI", n2, s2, 1e-5)
        # and from anywhere else
        z = lambda a: tuple(q * 0.3 for q in a) if isinstance(a, tuple) else a * 0.3
        m1, m2 = z(t1), z(t2)
        call(dict(t1new=m1, t2new=m2))
        m1, m2 = spin_t(m1, m2, spin)
        near(c, "t1 replaced", m1, s1, 1e-5)
        near(c, "t2 replaced", m2, s2, 1e-5)
        return
    for k in range(2):
        o = ne[k]
        d = np.diag(f[k])
        dt = (n1[k] - s1[k]) * (d[:o, None] - d[None, o:])
        ref = np.array([[(D.E[k][o + a, i] @ D.ref) @ r for a in range(D.norb[k] - o)] for i in range(o)])
        c.true("singles residual", np.abs(dt + ref).max() < 5e-5, str(np.abs(dt + ref).max()))
    for q, (k, l) in enumerate(((0, 0), (0, 1), (1, 1))):
        d1, d2 = np.diag(f[k]), np.diag(f[l])
        o, p = ne[k], ne[l]
        dt = (n2[q] - s2[q]) * (d1[:o, None, None, None] + d2[None, :p, None, None] - d1[None, None, o:, None] - d2[None, None, None, p:])
        for (i, j, a, b), val in np.ndenumerate(dt):
            v = D.E[k][o + a, i] @ (D.E[l][p + b, j] @ D.ref)
            if np.abs(v).max() > 0:
                c.true("doubles residual", abs(val + v @ r) < 5e-5, "%r %r" % (val, v @ r))
    if s.opts.external_corrections and x.results.converged:
        # the calculation itself ends in the exact energy (projected energy of the full system)
        q1, q2 = spin_t(x.results.wf.t1, x.results.wf.t2, spin)
        if max(np.abs(a - b).max() for a, b in zip(q1, s1)) < 1e-2:
            near(c, "converged to the exact t1", q1, s1, 1e-4)
            near(c, "converged to the exact t2", q2, s2, 1e-4)


@contract(P, "flags", ["Fragment.add_external_corrections", "Fragment.clear_external_corrections", "extRCCSD_Solver.get_callback"], sym=False, n=1, bounded="one system", timeout=300, cases=product_cases(spin=["r", "u"]))
def _(c, spin):
    mf, emb, x, fci = run_ext(c, spin, "external", 1, False, [[0, 1], [2, 3]], fcibath="dmet")
    ids = [y.id for y in fci]
    c.true("recorded", [tuple(t) for t in x.flags.external_corrections] == [(i, "external", 1, False) for i in ids])
    c.true("solver", x.solver == "extCCSD")
    c.true("others unchanged", all(not y.flags.external_corrections and y.solver == "FCI" for y in fci))
    x.add_external_corrections(fci[:1], correction_type="delta-tailor", projectors=2)
    c.true("appended", tuple(x.flags.external_corrections[-1])[:3] == (ids[0], "delta-tailor", 2) and len(x.flags.external_corrections) == 3)
    x.clear_external_corrections()
    c.true("cleared", not x.flags.external_corrections)
    c.raises("unknown type", ValueError, lambda: x.add_external_corrections(fci, correction_type="x"))
    c.raises("low_level_coul of tailor", ValueError, lambda: x.add_external_corrections(fci, correction_type="tailor", low_level_coul=False))
    c.raises("not CCSD", RuntimeError, lambda: fci[0].add_external_corrections(fci[1:]))
    c.true("nothing recorded by refused calls", not x.flags.external_corrections)
    # without corrections: plain CCSD
    kernel(emb)
    s = x.get_solver("CCSD")
    kernel(s)
    near(c, "plain CCSD", x.results.wf.t2, s.wf.t2, 1e-6)
