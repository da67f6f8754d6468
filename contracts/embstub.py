"""Environment model of an embedding with clusters, for symbolic execution of the assembly routines.

The global occupied/virtual orbitals are S-orthonormal; cluster orbitals are arbitrary (isometric) combinations of
them; fragment orbitals have an arbitrary occupied component inside their own cluster.  Numbers of orbitals of every
fragment are independent symbols."""
import numpy as np
from engine.core import StubMissing, Skip
from vayesta.core.types import wf as wft
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
from .common import occ_vec


def overlap(table):
    """get_overlap(key) for the modelled keys, in any spelling, either order; anything else is outside the model."""
    def norm(k):
        k = k.lower().replace("[", "-").replace("]", "").replace("fragment", "frag").strip()
        return k
    tab = {}
    for k, x in table.items():
        a = tuple(map(norm, k.split("|")))
        tab[a] = x
        tab[a[::-1]] = tuple(y.T for y in x) if isinstance(x, tuple) else x.T

    def get_overlap(key):
        try:
            x = tab[tuple(map(norm, key.split("|")))]
        except (KeyError, AttributeError):
            raise StubMissing("overlap %r" % (key,))
        return tuple(y.copy() for y in x) if isinstance(x, tuple) else x.copy()
    return get_overlap


overlap3 = overlap


def involution(c, name, n):
    if c.symbolic:
        U = c.tensor(name, (n, n), sym=[((1, 0), 1)])
        c.rule([(U, "ij"), (U, "jk")], "ik", [(1, [("delta", "ik")], {})])
        return U
    q = np.linalg.qr(c.rng.standard_normal((n, n)))[0]
    return q * np.where(np.arange(n) % 2, -1, 1) @ q.T


def symmetry_op(c, name, C, S, o, v):
    """Symmetry operation of the system: acts on the occupied (virtual) orbitals among themselves.
    Returns (action on AO vectors, Uo, Uv)."""
    make = (lambda n, d: involution(c, n, d)) if name.startswith("inv") else (lambda n, d: c.tensor(n, (d, d)))
    Uo, Uv = make("Uo" + name, o), make("Uv" + name, v)
    if not c.symbolic:
        Co, Cv = C
        T = Co @ Uo @ Co.T @ S + Cv @ Uv @ Cv.T @ S
    else:
        T = c.tensor("T" + name, (S.shape[0], S.shape[0]))
        c.rule([(T, "mn"), (C[0], "ni")], "mi", [(1, [(C[0], "mj"), (Uo, "ji")], {"j": o})])
        c.rule([(T, "mn"), (C[1], "na")], "ma", [(1, [(C[1], "mb"), (Uv, "ba")], {"b": v})])
    return T, Uo, Uv


def add_children(c, frags, C, S, o, v, sym, unrestricted=False):
    """Symmetry children: sym = ((parent index, operation name), ...) ; children may be parents of later entries.
    They use the real Fragment.loop_symmetry_children."""
    from vayesta.core.qemb.fragment import Fragment
    for par, name in sym:
        p = frags[par]
        if unrestricted:
            # the same spatial operation acts on both spins
            ops = []
            if c.symbolic:
                T = c.tensor("T" + name, (S.shape[0], S.shape[0]))
                U = []
                for s in range(2):
                    Uo, Uv = c.tensor("Uo%s%d" % (name, s), (o[s], o[s])), c.tensor("Uv%s%d" % (name, s), (v[s], v[s]))
                    c.rule([(T, "mn"), (C[s][0], "ni")], "mi", [(1, [(C[s][0], "mj"), (Uo, "ji")], {"j": o[s]})])
                    c.rule([(T, "mn"), (C[s][1], "na")], "ma", [(1, [(C[s][1], "mb"), (Uv, "ba")], {"b": v[s]})])
                    U.append((Uo, Uv))
            else:
                X, par_ = S.parity
                T = X * (par_ * (1 if name == "1" else -1)) @ X.T @ S.S
                U = [tuple(x.T @ S.S @ T @ x for x in C[s]) for s in range(2)]
            Ro = tuple(U[s][0] @ p.Ro[s] for s in range(2))
            Rv = tuple(U[s][1] @ p.Rv[s] for s in range(2))
        else:
            T, Uo, Uv = symmetry_op(c, name, C, S, o, v)
            Ro, Rv = Uo @ p.Ro, Uv @ p.Rv

        def sym_op(a, axis=0, T=T):
            if isinstance(a, (tuple, list)):
                return tuple(sym_op(x, axis=axis, T=T) for x in a)
            if axis == 0:
                return c.np.dot(T, a) if a.ndim == 2 else c.np.tensordot(T, a, axes=1)
            return c.np.moveaxis(c.np.tensordot(T, a, axes=(1, axis)), 0, axis)
        d = {k: x for k, x in vars(p).items() if k not in ("Ro", "Rv", "id", "get_overlap", "c_frag", "c_proj", "cluster", "sym_tree", "sym_parent")}
        f = c.ns(**d)
        f.Ro, f.Rv, f.id, f.sym_op, f.sym_parent = Ro, Rv, len(frags), sym_op, p
        f.sym_tree = []
        cl = p.cluster
        co, cv = sym_op(cl.c_occ), sym_op(cl.c_vir)
        f.cluster = c.ns(c_occ=co, c_vir=cv, nocc_active=cl.nocc_active, nvir_active=cl.nvir_active, c_active_occ=co, c_active_vir=cv)
        f.c_frag = f.c_proj = sym_op(p.c_frag)
        f.get_overlap = overlap(f.overlaps(Ro, Rv))
        p.sym_tree.append((f, f.sym_tree))
        frags.append(f)
    for f in frags:
        f.loop_symmetry_children = (lambda *a, _f=f, **k: Fragment.loop_symmetry_children(_f, *a, **k))
        f.get_symmetry_tree = (lambda maxgen=None, _f=f, **k: _f.sym_tree)
        f.n_symmetry_children = len(f.sym_tree)
        n, todo = 0, list(f.sym_tree)
        while todo:
            n, todo = n + len(todo), [y for x in todo for y in x[1]]
        f.symmetry_factor = f.sym_factor = n + 1


def fragment_filter(frags):
    """get_fragments of the model: only the filters on symmetry parents select."""
    def get_fragments(*a, **k):
        k = {x: y for x, y in k.items() if x not in ("contributes", "active", "mpi_rank")}
        if set(k) - {"sym_parent"}:
            raise StubMissing("get_fragments(%s)" % k)
        if "sym_parent" in k:
            return [f for f in frags if f.sym_parent is k["sym_parent"]]
        return list(frags)
    return get_fragments


def build_r(c, nfrag=2, lam=True, solver="CCSD", sym=()):
    o, v, nao = c.dim("o", max=4), c.dim("v", max=4), c.dim("nao", min=8, max=9)
    if not c.symbolic:
        S = c.spd("S", nao)
        C = c.ortho_mo("C", S, (nao, o + v))
        Co, Cv = C[:, :o].copy(), C[:, o:].copy()
    else:
        S = c.spd("S", nao)
        Co, Cv = c.tensor("Co", (nao, o)), c.tensor("Cv", (nao, v))
        c.rule_gram(Co, S)
        c.rule_gram(Cv, S)
        c.rule([(Co, "mp"), (S, "mn"), (Cv, "nr")], "pr", [])
        C = c.np.hstack((Co, Cv))
    frags = []
    for k in range(nfrag):
        no, nv, nf = c.dim("o%d" % k, max=3), c.dim("v%d" % k, max=3), c.dim("f%d" % k, max=2)
        Ro, Rv = c.tensor("Ro%d" % k, (o, no)), c.tensor("Rv%d" % k, (v, nv))
        Pf = c.tensor("P%d" % k, (nf, no))     # <frag|cluster-occ>
        co, cv, cf = Co @ Ro, Cv @ Rv, Co @ (Ro @ Pf.T)
        # NB the virtual part of the fragment orbitals is arbitrary as well
        Pv = c.tensor("PV%d" % k, (nf, v))
        cf = cf + Cv @ Pv.T
        E = c.einsum
        amps = {}
        for a in ("t", "l"):
            amps[a + "1"] = c.tensor("%s1_%d" % (a, k), (nf, nv))
            amps[a + "2"] = c.tensor("%s2_%d" % (a, k), (nf, no, nv, nv))
        mo = SpatialOrbitals(c.tensor("cl%d" % k, (nao, c.axis(no, nv))), occ=occ_vec(c, no, nv, 2))
        pwf = wft.RCCSD_WaveFunction(mo, amps["t1"], amps["t2"], l1=amps["l1"] if lam else None,
                                     l2=amps["l2"] if lam else None, projector=Pf)
        def overlaps(Ro, Rv, Pf=Pf):
            return {"mo[occ]|cluster[occ]": Ro, "mo[vir]|cluster[vir]": Rv, "cluster[occ]|frag": Pf.T,
                    "mo[occ]|frag": Ro @ Pf.T, "mo-occ|cluster-occ": Ro, "mo-vir|cluster-vir": Rv, "proj|cluster-occ": Pf}
        f = c.ns(results=c.ns(pwf=pwf), solver=solver, opts=c.ns(t_as_lambda=False), c_frag=cf,
                 cluster=c.ns(c_occ=co, c_vir=cv, nocc_active=no, nvir_active=nv, c_active_occ=co, c_active_vir=cv),
                 get_overlap=overlap(overlaps(Ro, Rv)), overlaps=overlaps, id=k, sym_tree=[], sym_parent=None,
                 Ro=Ro, Rv=Rv, Pf=Pf, amps=amps, symmetry_factor=1, sym_factor=1, c_proj=cf)
        frags.append(f)
    add_children(c, frags, (Co, Cv), S, o, v, sym)
    emb = c.ns(nocc=o, nvir=v, nmo=o + v, mo_coeff_occ=Co, mo_coeff_vir=Cv, mo_coeff=C, get_ovlp=lambda: S,
               get_fragments=fragment_filter(frags), log=c.log, fragments=frags, ncells=1, spinsym="restricted",
               mf=c.ns(max_memory=1000))
    from vayesta.ewf import amplitudes as am
    emb.get_global_t1 = lambda **kw: am.get_global_t1_rhf(emb, **kw)
    emb.get_global_t2 = lambda **kw: am.get_global_t2_rhf(emb, **kw)
    emb.get_global_l1 = lambda t_as_lambda=None, **kw: am.get_global_t1_rhf(emb, get_lambda=not t_as_lambda, **kw)
    emb.get_global_l2 = lambda t_as_lambda=None, **kw: am.get_global_t2_rhf(emb, get_lambda=not t_as_lambda, **kw)
    return emb


def global_r(c, emb, a):
    """Specification of the assembled amplitudes."""
    E = c.einsum
    x1, x2 = 0, 0
    for f in emb.fragments:
        x1 = x1 + E("xa,xi,Ii,Aa->IA", f.amps[a + "1"], f.Pf, f.Ro, f.Rv)
        r = E("xjab,xi->ijab", f.amps[a + "2"], f.Pf)
        r = (r + r.transpose(1, 0, 3, 2)) / 2
        x2 = x2 + E("ijab,Ii,Jj,Aa,Bb->IJAB", r, f.Ro, f.Ro, f.Rv, f.Rv)
    return x1, x2


def build_u(c, nfrag=2, lam=True, solver="CCSD", sym=()):
    nao = c.dim("nao", min=8, max=9)
    S = c.spd("S", nao)
    o = [c.dim("oa", max=4), c.dim("ob", max=4)]
    v = [c.dim("va", max=4), c.dim("vb", max=4)]
    Co, Cv, C = [], [], []
    parity = None
    if not c.symbolic and sym:
        # orbitals of definite parity under a reflection of the AO space
        X, par = c.ortho_mo("X", S, (nao, nao)), np.repeat([1, -1], [nao // 2, nao - nao // 2])
        parity = c.ns(S=S, parity=(X, par))
    for s in range(2):
        if parity is not None:
            sec = [X[:, par == z] @ np.linalg.qr(c.rng.standard_normal(((par == z).sum(),) * 2))[0] for z in (1, -1)]
            k = [(o[s] // 2, v[s] - v[s] // 2), (o[s] - o[s] // 2, v[s] // 2)]
            Co.append(np.hstack([sec[z][:, :k[z][0]] for z in (0, 1)]))
            Cv.append(np.hstack([sec[z][:, k[z][0]:sum(k[z])] for z in (0, 1)]))
        elif not c.symbolic:
            x = c.ortho_mo("C%d" % s, S, (nao, o[s] + v[s]))
            Co.append(x[:, :o[s]].copy())
            Cv.append(x[:, o[s]:].copy())
        else:
            a, b = c.tensor("Co%d" % s, (nao, o[s])), c.tensor("Cv%d" % s, (nao, v[s]))
            c.rule_gram(a, S)
            c.rule_gram(b, S)
            c.rule([(a, "mp"), (S, "mn"), (b, "nr")], "pr", [])
            Co.append(a)
            Cv.append(b)
        C.append(c.np.hstack((Co[s], Cv[s])))
    frags = []
    for k in range(nfrag):
        sp = "ab"
        no = [c.dim("o%s%d" % (sp[s], k), max=3) for s in range(2)]
        nv = [c.dim("v%s%d" % (sp[s], k), max=3) for s in range(2)]
        nf = [c.dim("f%s%d" % (sp[s], k), max=2) for s in range(2)]
        Ro = tuple(c.tensor("Ro%s%d" % (sp[s], k), (o[s], no[s])) for s in range(2))
        Rv = tuple(c.tensor("Rv%s%d" % (sp[s], k), (v[s], nv[s])) for s in range(2))
        Pf = tuple(c.tensor("P%s%d" % (sp[s], k), (nf[s], no[s])) for s in range(2))
        Pv = tuple(c.tensor("PV%s%d" % (sp[s], k), (nf[s], v[s])) for s in range(2))
        co = tuple(Co[s] @ Ro[s] for s in range(2))
        cv = tuple(Cv[s] @ Rv[s] for s in range(2))
        cf = tuple(co[s] @ Pf[s].T + Cv[s] @ Pv[s].T for s in range(2))
        amps = {}
        for a in ("t", "l"):
            amps[a + "1"] = tuple(c.tensor("%s1%s_%d" % (a, sp[s], k), (nf[s], nv[s])) for s in range(2))
            # projected same-spin doubles are antisymmetric in the virtual pair
            asy = [((0, 1, 3, 2), -1)]
            amps[a + "2"] = (c.tensor("%s2aa_%d" % (a, k), (nf[0], no[0], nv[0], nv[0]), sym=asy),
                             c.tensor("%s2ab_%d" % (a, k), (nf[0], no[1], nv[0], nv[1])),
                             c.tensor("%s2ba_%d" % (a, k), (nf[1], no[0], nv[1], nv[0])),
                             c.tensor("%s2bb_%d" % (a, k), (nf[1], no[1], nv[1], nv[1]), sym=asy))
        mo = SpinOrbitals(tuple(c.tensor("cl%s%d" % (sp[s], k), (nao, c.axis(no[s], nv[s]))) for s in range(2)),
                          occ=tuple(occ_vec(c, no[s], nv[s], 1) for s in range(2)))
        pwf = wft.UCCSD_WaveFunction(mo, amps["t1"], amps["t2"], l1=amps["l1"] if lam else None,
                                     l2=amps["l2"] if lam else None, projector=Pf)
        PfT = tuple(x.T for x in Pf)

        def overlaps(Ro, Rv, Pf=Pf, PfT=PfT):
            mf_ = tuple(Ro[s] @ PfT[s] for s in range(2))
            return {"mo[occ]|cluster[occ]": Ro, "mo[vir]|cluster[vir]": Rv, "cluster[occ]|frag": PfT, "mo[occ]|frag": mf_,
                    "mo-occ|cluster-occ": Ro, "mo-vir|cluster-vir": Rv, "proj|cluster-occ": Pf}
        f = c.ns(results=c.ns(pwf=pwf), solver=solver, opts=c.ns(t_as_lambda=False), c_frag=cf,
                 cluster=c.ns(c_occ=co, c_vir=cv, nocc_active=tuple(no), nvir_active=tuple(nv), c_active_occ=co, c_active_vir=cv),
                 get_overlap=overlap(overlaps(Ro, Rv)), overlaps=overlaps, id=k, sym_tree=[], sym_parent=None,
                 Ro=Ro, Rv=Rv, Pf=Pf, amps=amps, symmetry_factor=1, sym_factor=1, c_proj=cf)
        frags.append(f)
    add_children(c, frags, tuple(zip(Co, Cv)), parity if parity is not None else S, o, v, sym, True)
    emb = c.ns(nocc=tuple(o), nvir=tuple(v), nmo=tuple(o[s] + v[s] for s in range(2)), mo_coeff_occ=tuple(Co),
               mo_coeff_vir=tuple(Cv), mo_coeff=tuple(C), get_ovlp=lambda: S, get_fragments=fragment_filter(frags),
               log=c.log, fragments=frags, ncells=1, spinsym="unrestricted", mf=c.ns(max_memory=1000))
    from vayesta.ewf import amplitudes as am
    emb.get_global_t1 = lambda **kw: am.get_global_t1_uhf(emb, **kw)
    emb.get_global_t2 = lambda **kw: am.get_global_t2_uhf(emb, **kw)
    emb.get_global_l1 = lambda t_as_lambda=None, **kw: am.get_global_t1_uhf(emb, get_lambda=not t_as_lambda, **kw)
    emb.get_global_l2 = lambda t_as_lambda=None, **kw: am.get_global_t2_uhf(emb, get_lambda=not t_as_lambda, **kw)
    return emb


def global_u(c, emb, a):
    E = c.einsum
    x1 = [0, 0]
    x2 = [0, 0, 0]
    for f in emb.fragments:
        for s in range(2):
            x1[s] = x1[s] + E("xa,xi,Ii,Aa->IA", f.amps[a + "1"][s], f.Pf[s], f.Ro[s], f.Rv[s])
        aa, ab, ba, bb = f.amps[a + "2"]
        for k, s, y in ((0, 0, aa), (2, 1, bb)):
            r = E("xjab,xi->ijab", y, f.Pf[s])
            r = (r + r.transpose(1, 0, 3, 2)) / 2
            x2[k] = x2[k] + E("ijab,Ii,Jj,Aa,Bb->IJAB", r, f.Ro[s], f.Ro[s], f.Rv[s], f.Rv[s])
        r = (E("xjab,xi->ijab", ab, f.Pf[0]) + E("xjab,xi->jiba", ba, f.Pf[1])) / 2
        x2[1] = x2[1] + E("ijab,Ii,Jj,Aa,Bb->IJAB", r, f.Ro[0], f.Ro[1], f.Rv[0], f.Rv[1])
    return tuple(x1), tuple(x2)


def obj(cls, **attrs):
    """Real object of class cls (so that inherited and overridden methods, super() and helpers are the real code) with
    the given attributes modelled; anything else it is asked for is outside the model."""
    def missing(self, name):
        raise StubMissing("attribute %r of a modelled %s" % (name, cls.__name__))
    ns = {"__getattr__": missing, "__repr__": lambda s: "stub", "__str__": lambda s: "stub", "__init__": lambda s: None}
    for k, x in attrs.items():
        ns[k] = property(lambda s, x=x: x, lambda s, y: None)
    return type("Stub" + cls.__name__, (cls,), ns)()
