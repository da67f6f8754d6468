"""Symbolic tensors with symbolic dimensions.

A tensor axis is a concatenation of blocks; a block is a *space* (symbolic size, one index)
or the unit block (size 1, no index).  Every block of a tensor is an exact polynomial over
uninterpreted tensor entries: a sum of coef * prod(factors), contracted over dummy indices.
Terms are kept in a canonical form (minimal over dummy renaming, factor order and the declared
symmetries of the atoms), so two blocks are equal for all dimensions and all entries iff their
normal forms coincide (modulo declared axioms, applied as rewrite rules).

Arithmetic is exact (rationals + i); floating point is treated as exact real arithmetic.
"""
import contextlib
import itertools
import math
from fractions import Fraction

import numpy as np
import z3

from . import symint
from .symint import SymInt, SymBool, ToolLimit, cur, same_int

U = None  # unit block


# ---------------------------------------------------------------- coefficients
class GQ:
    """Gaussian rational."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = Fraction(re), Fraction(im)

    def __add__(self, o):
        o = gq(o)
        return _gqn(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return GQ(-self.re, -self.im)

    def __mul__(self, o):
        o = gq(o)
        return _gqn(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = gq(o)
        d = o.re * o.re + o.im * o.im
        return _gqn((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        return gq(o) / self

    def __eq__(self, o):
        o = gq(o)
        return self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return "(%s%+si)" % (self.re, self.im)


def gq(x):
    return x if isinstance(x, GQ) else GQ(x)


def _gqn(re, im):
    return Fraction(re) if im == 0 else GQ(re, im)


def cconj(c):
    return _gqn(c.re, -c.im) if isinstance(c, GQ) else c


def ckey(c):
    return (c.re, c.im) if isinstance(c, GQ) else (c, Fraction(0))


def _rat(f):
    f = float(f)
    if f != f or f in (float("inf"), float("-inf")):
        raise ToolLimit("non-finite number")
    fr = Fraction(f)
    if fr.denominator <= 4096:
        return fr
    l = fr.limit_denominator(20000)
    if l != 0 and abs(float(l) - f) <= 8e-16 * abs(f):
        return l
    return None


def number_terms(x):
    """Number -> list of (coef, factors)."""
    if isinstance(x, (bool, np.bool_)):
        return [(Fraction(int(x)), ())]
    if isinstance(x, (int, np.integer)):
        return [(Fraction(int(x)), ())] if x else []
    if isinstance(x, (Fraction, GQ)):
        return [(x, ())] if x != 0 else []
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        out = []
        for part, unit in ((x.real, Fraction(1)), (x.imag, GQ(0, 1))):
            for c, f in number_terms(float(part)):
                out.append((c * unit, f))
        return out
    if isinstance(x, (float, np.floating)):
        if x == 0:
            return []
        r = _rat(x)
        if r is not None:
            return [(r, ())]
        r2 = _rat(float(x) * float(x))
        if r2 is not None:
            return [(Fraction(1 if x > 0 else -1), ((sqrt_atom(r2), False, ()),))]
        return [(Fraction(1 if x > 0 else -1), (("num:%.13g" % abs(x), False, ()),))]
    raise ToolLimit("not a number: %r" % (x,))


def sqrt_atom(r):
    return "sqrt:%s" % r


# ---------------------------------------------------------------- context
class SymCtx:
    """Atoms, spaces and axioms of one symbolic run."""
    current = None

    def __init__(self):
        self.spaces = {}      # name -> size (SymInt var)
        self.order = []
        self.axes = {}        # size key -> tuple of blocks
        self.atoms = {}       # name -> dict
        self.rules = []       # (pattern, rhs)
        self.funcs = {}       # opaque functions: repr -> (name, perms)
        self.nfun = 0
        self.loops = []       # open loops
        self.closed = set()
        self.nloop = 0
        self.subst = {}       # scalar atom -> Fraction
        self.tick = 0
        self.structural = 0


def sc():
    if SymCtx.current is None:
        raise ToolLimit("no symbolic context")
    return SymCtx.current


def space_of_size(size):
    """Space (name), U for 1; anonymous composite -> None-match."""
    if isinstance(size, int):
        raise ToolLimit("concrete size has no space")
    for n, s in sc().spaces.items():
        if s.p == size.p:
            return n
    return None


def default_axis(size):
    if isinstance(size, (int, np.integer)):
        return (U,) * int(size)
    if not isinstance(size, SymInt):
        raise ToolLimit("bad dimension %r" % (size,))
    c = sc()
    k = size.key()
    if k in c.axes:
        return c.axes[k]
    n = space_of_size(size)
    if n is not None:
        return (n,)
    out = []
    p = dict(size.p)
    for m, cnt in p.items():
        if len(m) > 1 and isinstance(cnt, int) and cnt > 0 and all(x in c.spaces for x in m):
            product_space(tuple(m))
    for n in c.order:
        m = tuple(c.spaces[n].p)[0]
        cnt = p.pop(m, 0)
        if cnt < 0:
            raise ToolLimit("negative size part")
        out += [n] * cnt
    k = p.pop((), 0)
    if p or k < 0:
        # provably equal to a known space or axis under the path condition?
        for n, s in c.spaces.items():
            if same_int(s, size):
                return (n,)
        raise ToolLimit("cannot split dimension %r into spaces" % (size,))
    return tuple(out) + (U,) * k


def bsize(b):
    return 1 if b is U else sc().spaces[b]


def product_space(subs):
    """Space of composite indices (flattened in the order of subs); one space for all orders, one bijection per order.
    The bijection is a 0/1 tensor P[x, i, a, ...]: exactly one (i, a, ...) for every x and vice versa."""
    c = sc()
    name = "*".join(sorted(subs))
    if name not in c.spaces:
        size = 1
        for x in subs:
            size = c.spaces[x] * size
        c.spaces[name] = size
        c.order.append(name)
    return name


def bijection(subs):
    c = sc()
    space = product_space(subs)
    name = "flat:" + ",".join(subs)
    if name not in c.atoms:
        c.atoms[name] = dict(sym=None, real=True, spaces=[space] + list(subs))
        k = len(subs)
        a, b = "abcdefgh"[:k], "ijklmnop"[:k]
        deltas = [(DELTA, False, (x, y)) for x, y in zip(a, b)]
        F = lambda ls: (name, False, tuple(ls))
        for pat, free, rhs in (
                ([F("x" + a), F("x" + b)], "x" + a + b, [F("x" + a)] + deltas),
                ([F("x" + a), F("y" + a)], "xy", [(DELTA, False, ("x", "y"))]),
                ([F("x" + a)], "x", []),
                ([F("x" + a)], a, [])):
            c.rules.append(dict(pat=(pat, set(free)), names=[f[0] for f in pat], rhs=[(Fraction(1), rhs, {})]))
    return space, name


def _flat_tensor(lead, rest):
    """P as a tensor: single axis of composite indices, fused axis (lead, *rest)."""
    axis, blocks = [], {}
    for k, b in enumerate(lead):
        space, name = bijection((b,) + rest)
        axis.append(space)
        e = {}
        add_term(e, Fraction(1), [(name, False, tuple(range(2 + len(rest))))], {})
        blocks[(k, k) + (0,) * len(rest)] = e
    return SymTensor((tuple(axis), tuple(lead)) + tuple((r,) for r in rest), blocks, (1, 1 + len(rest)))


def _flat_parts(ga):
    lead, rest = ga[0], ga[1:]
    if any(len(x) != 1 or x[0] is U for x in rest) or any(x is U for x in lead):
        raise ToolLimit("composite index of %r" % (ga,))
    return lead, tuple(x[0] for x in rest)


def _readonly(t):
    def ro(*a):
        raise ToolLimit("in-place change through a composite index")
    r = SymTensor(t.axes, {}, t.groups, t._dtype)
    r.view = (None, lambda: t, ro, ro)
    r._axes = t._axes
    return r


def flatten(t, k):
    """Composite (fused) axis k as a single axis of the product space."""
    P = _flat_tensor(*_flat_parts(t.gaxes()[k]))
    ls = [chr(0x5000 + j) for j in range(t.ndim)]
    out = list(ls)
    out[k] = "x"
    return einsum("".join(ls) + ",x" + ls[k] + "->" + "".join(out), t, P)


def unflatten(t, k, ga):
    """Axis k of a product space as composite axis ga."""
    P = _flat_tensor(*_flat_parts(ga))
    if tuple(P.axes[0]) != tuple(t.gaxes()[k][0]):
        raise ToolLimit("axis %r is not composite of %r" % (t.gaxes()[k], ga))
    ls = [chr(0x5000 + j) for j in range(t.ndim)]
    out = list(ls)
    out[k] = "x"
    return einsum("".join(ls) + "," + ls[k] + "x" + "->" + "".join(out), t, P)


def _unify(ts):
    """Flatten composite axes that meet single axes."""
    ts = list(ts)
    n = max(t.ndim for t in ts)
    for k in range(n):
        gs = [t.gaxes()[k - n + t.ndim] if k - n + t.ndim >= 0 else None for t in ts]
        gs2 = {tuple(g) for g in gs if g is not None and tuple(g) != ((U,),)}
        if len(gs2) > 1 and any(len(g) > 1 for g in gs2):
            ts = [flatten(t, k - n + t.ndim) if g is not None and len(g) > 1 and t.blocks else t
                  for t, g in zip(ts, gs)]
    return ts


def asize(axis):
    s = 0
    for b in axis:
        s = bsize(b) + s
    return s


# ---------------------------------------------------------------- terms
DELTA = "\u03b4"


def images(f):
    """Symmetry images of a factor: (sign, factor)."""
    name, cj, idx = f
    a = sc().atoms.get(name)
    if a is None or not a["sym"]:
        return [(1, f)]
    out = []
    for perm, sign, conj in a["sym"]:
        out.append((sign, (name, (not cj) if conj else cj, tuple(idx[k] for k in perm))))
    return out


def _ikey(i, lab):
    # free slots first, then params, then dummies by label
    if isinstance(i, int):
        if i >= 0:
            return (0, i)
        return (2, lab)
    return (1, i)


def canon(coef, factors, dsp):
    """Canonical (key, coef) of a delta-free term. dsp: dummy index -> space."""
    n = len(factors)
    if n == 0:
        return ((), ()), coef
    imgs = [images(f) for f in factors]
    # state: (label map dict, remaining frozenset, sign)
    states = [({}, frozenset(range(n)), 1)]
    enc = []
    for _ in range(n):
        best = None
        new = []
        for lab, rem, sign in states:
            for k in rem:
                for s, (name, cj, idx) in imgs[k]:
                    l2 = None
                    e = []
                    m = lab
                    for i in idx:
                        if isinstance(i, int) and i < 0:
                            v = m.get(i)
                            if v is None:
                                if l2 is None:
                                    l2 = dict(lab)
                                    m = l2
                                v = len(m)
                                m[i] = v
                            e.append((2, dsp[i], v))
                        elif isinstance(i, int):
                            e.append((0, "", i))
                        else:
                            e.append((1, i, 0))
                    e = (name, cj, tuple(e))
                    if best is None or e < best:
                        best = e
                        new = [(m, rem, k, sign * s)]
                    elif e == best:
                        new.append((m, rem, k, sign * s))
        enc.append(best)
        seen = {}
        states = []
        for m, rem, k, sign in new:
            r2 = rem - {k}
            kk = (tuple(sorted(m.items())), r2, sign)
            if kk not in seen:
                seen[kk] = 1
                states.append((m, r2, sign))
        if len(states) > 3000:
            raise ToolLimit("canonicalisation blow-up")
    signs = {s for _, _, s in states}
    if len(signs) > 1:
        return None, 0
    sign = signs.pop()
    m = states[0][0]
    # decode
    fac = []
    dspaces = [None] * len(m)
    for i, v in m.items():
        dspaces[v] = dsp[i]
    for name, cj, e in enc:
        idx = tuple((-1 - x[2]) if x[0] == 2 else (x[2] if x[0] == 0 else x[1]) for x in e)
        fac.append((name, cj, idx))
    return (tuple(fac), tuple(dspaces)), coef * sign


def is_real(n):
    if n.startswith("1/"):
        n = n[2:]
    a = sc().atoms.get(n)
    return a is None or a["real"]


def reduce_term(coef, factors, dsp):
    """Delta elimination, scalar simplification. Returns (coef, factors, dsp) or None if zero."""
    factors = list(factors)
    dsp = dict(dsp)
    # deltas
    while True:
        for k, f in enumerate(factors):
            if f[0] == DELTA:
                i, j = f[2]
                if i == j:
                    factors.pop(k)
                    break
                if isinstance(i, int) and i < 0:
                    a, b = i, j
                elif isinstance(j, int) and j < 0:
                    a, b = j, i
                else:
                    continue
                factors.pop(k)
                factors = [(n, c, tuple(b if x == a else x for x in idx)) for n, c, idx in factors]
                # dummy a eliminated
                dsp.pop(a)
                break
        else:
            break
    # remaining deltas between free/param indices: sort, dedupe, and substitute in the rest
    deltas = set()
    rest = []
    for f in factors:
        if f[0] == DELTA:
            i, j = f[2]
            if _ikey(i, 0) > _ikey(j, 0):
                i, j = j, i
            deltas.add((i, j))
        else:
            rest.append(f)
    if deltas:
        # union-find on free indices: representative = smallest
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x

        for i, j in sorted(deltas, key=lambda t: (_ikey(t[0], 0), _ikey(t[1], 0))):
            a, b = find(i), find(j)
            if a != b:
                if _ikey(a, 0) > _ikey(b, 0):
                    a, b = b, a
                parent[b] = a
        rest = [(n, c, tuple(find(x) for x in idx)) for n, c, idx in rest]
        classes = {}
        for x in {y for d in deltas for y in d}:
            classes.setdefault(find(x), set()).add(x)
        for r, xs in classes.items():
            for x in xs:
                if x != r:
                    rest.append((DELTA, False, (r, x)))
    factors = rest
    # scalars: powers, inverses, substitution, sqrt
    scal = {}
    other = []
    subst = sc().subst
    for f in factors:
        n, c, idx = f
        if idx == () and not (n.startswith("fn:")):
            if is_real(n):
                c = False
            inv = n.startswith("1/")
            base = n[2:] if inv else n
            if base in subst and not c:
                v = subst[base]
                if inv:
                    if v == 0:
                        raise ToolLimit("division by zero on path")
                    coef = coef / v
                else:
                    coef = coef * v
                continue
            scal[(base, c)] = scal.get((base, c), 0) + (-1 if inv else 1)
        else:
            if c and is_real(n):
                f = (n, False, idx)
            other.append(f)
    if coef == 0:
        return None
    for (base, c), p in scal.items():
        if base.startswith("sqrt:"):
            r = Fraction(base[5:])
            q, m = divmod(p, 2)
            coef = coef * r ** q
            p = m
        nm = base if p > 0 else "1/" + base
        other += [(nm, c, ())] * abs(p)
    # cancellation of elementwise reciprocals of single atoms
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(other):
            if f[0].startswith("1/") and f[2] != ():
                base = f[0][2:]
                targets = {im for s, im in images((base, f[1], f[2])) if s == 1}
                for j, g in enumerate(other):
                    if g in targets:
                        other = [x for k, x in enumerate(other) if k not in (i, j)]
                        changed = True
                        break
                if changed:
                    break
    # dummies that do not occur -> dimension
    used = {i for _, _, idx in other for i in idx}
    for d in list(dsp):
        if d not in used:
            other.append(("dim:%s" % dsp[d], False, ()))
            dsp.pop(d)
    return coef, other, dsp


def match_rule(pattern, factors, dsp):
    """Find pattern in factors. pattern: (list of (name, cj, letters), free letters).
    Yields (used index set, mapping letter->index, sign)."""
    pat, free = pattern

    def rec(k, used, mp, sign):
        if k == len(pat):
            # pattern dummies must be dummies occurring only in used factors
            inv = {}
            for l, i in mp.items():
                if l not in free:
                    if not (isinstance(i, int) and i < 0):
                        return None
                    if list(mp.values()).count(i) != 1:
                        return None
                    for j, f in enumerate(factors):
                        if j not in used and i in f[2]:
                            return None
            return used, mp, sign
        name, cj, letters = pat[k]
        for j, f in enumerate(factors):
            if j in used or f[0] != name:
                continue
            for s, (n, c, idx) in images(f):
                if c != cj:
                    continue
                m2 = dict(mp)
                ok = True
                for l, i in zip(letters, idx):
                    if l in m2:
                        if m2[l] != i:
                            ok = False
                            break
                    else:
                        m2[l] = i
                if ok:
                    r = rec(k + 1, used | {j}, m2, sign * s)
                    if r is not None:
                        return r
        return None

    return rec(0, frozenset(), {}, 1)


_CACHE = {}


def add_term(out, coef, factors, dsp, depth=0):
    """Simplify and add to the dict out."""
    if coef == 0:
        return
    r = reduce_term(coef, factors, dsp)
    if r is None:
        return
    coef, factors, dsp = r
    c = sc()
    if depth > 60:
        raise ToolLimit("rewriting does not terminate")
    for rule in c.rules:
        names = rule["names"]
        have = [f[0] for f in factors]
        if not all(have.count(n) >= names.count(n) for n in set(names)):
            continue
        m = match_rule(rule["pat"], factors, dsp)
        if m is None:
            continue
        used, mp, sign = m
        rest = [f for j, f in enumerate(factors) if j not in used]
        nd = min([0] + [d for d in dsp]) - 1
        dsp2 = {d: s for d, s in dsp.items() if any(d in f[2] for f in rest) or d in
                [mp[l] for l in rule["pat"][1]]}
        for rc, rf, rd in rule["rhs"]:
            mp2 = dict(mp)
            ds3 = dict(dsp2)
            k = nd
            for l, s in rd.items():
                mp2[l] = k
                ds3[k] = s
                k -= 1
            add_term(out, coef * sign * rc, rest + [(n, cj, tuple(mp2[l] for l in ls)) for n, cj, ls in rf],
                     ds3, depth + 1)
        return
    key, cf = canon(coef, factors, dsp)
    if key is None:
        return
    v = out.get(key, 0) + cf
    if v == 0:
        out.pop(key, None)
    else:
        out[key] = v


def key_parts(key):
    fac, dspaces = key
    return list(fac), {-1 - k: s for k, s in enumerate(dspaces)}


def e_add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        x = out.get(k, 0) + s * v
        if x == 0:
            out.pop(k, None)
        else:
            out[k] = x
    return out


def e_scale(a, coef):
    if coef == 0:
        return {}
    return {k: v * coef for k, v in a.items()}


def e_map(expr, imap, new_dummies=None):
    """Re-map free slots: imap: slot -> new index (free int / param / dummy id (<0, given in new_dummies))."""
    out = {}
    new_dummies = new_dummies or {}
    nmin = min([0] + list(new_dummies))
    for key, c in expr.items():
        fac, dsp = key_parts(key)
        # shift existing dummies below nmin
        sh = {d: nmin + d for d in dsp}
        f2 = []
        for n, cj, idx in fac:
            f2.append((n, cj, tuple(sh[i] if (isinstance(i, int) and i < 0) else (imap[i] if isinstance(i, int) else i)
                                    for i in idx)))
        d2 = {sh[d]: s for d, s in dsp.items()}
        d2.update(new_dummies)
        add_term(out, c, f2, d2)
    return out


def e_conj(expr):
    out = {}
    for key, c in expr.items():
        fac, dsp = key_parts(key)
        f2 = []
        for n, cj, idx in fac:
            f2.append((n, cj if is_real(n) else (not cj), idx))
        add_term(out, cconj(c), f2, dsp)
    return out


def e_product(parts, nfree_dummies):
    """parts: list of (expr, imap); nfree_dummies: dict dummy id -> space (summed)."""
    out = {}
    lists = [list(e.items()) for e, _ in parts]
    total = 1
    for l in lists:
        total *= len(l)
    if total > 400000:
        raise ToolLimit("expression too large")
    nmin = min([0] + list(nfree_dummies))
    for combo in itertools.product(*lists):
        coef = Fraction(1)
        fac = []
        dsp = dict(nfree_dummies)
        nxt = nmin - 1
        for (key, c), (_, imap) in zip(combo, parts):
            coef = coef * c
            f, d = key_parts(key)
            sh = {}
            for x in d:
                sh[x] = nxt
                dsp[nxt] = d[x]
                nxt -= 1
            for n, cj, idx in f:
                fac.append((n, cj, tuple(sh[i] if (isinstance(i, int) and i < 0) else
                                         (imap[i] if isinstance(i, int) else i) for i in idx)))
        add_term(out, coef, fac, dsp)
    return out


def e_renorm(expr):
    """Re-simplify (after new axioms / substitutions)."""
    out = {}
    for key, c in expr.items():
        fac, dsp = key_parts(key)
        add_term(out, c, fac, dsp)
    return out


def e_str(expr):
    if not expr:
        return "0"
    parts = []
    for key, c in sorted(expr.items(), key=lambda kv: repr(kv[0]))[:40]:
        fac, dsp = key
        parts.append("%s*%s" % (c, ".".join("%s%s[%s]" % (n, "*" if cj else "", ",".join(map(str, idx)))
                                            for n, cj, idx in fac)))
    if len(expr) > 40:
        parts.append("... (%d terms)" % len(expr))
    return " + ".join(parts)


# ---------------------------------------------------------------- tensor
@contextlib.contextmanager
def structural():
    """Accesses that only concern shapes / block structure, not the values (no loop-carried dependency)."""
    c = sc()
    c.structural += 1
    try:
        yield
    finally:
        c.structural -= 1


class SymTensor:
    __array_priority__ = 1000.0

    def __init__(self, axes, blocks=None, groups=None, dtype=np.float64):
        """axes: tuple of (tuple of blocks) per sub-axis; blocks: dict block-index tuple -> expr."""
        object.__setattr__(self, "_axes", tuple(tuple(a) for a in axes))
        object.__setattr__(self, "_blocks", {k: v for k, v in (blocks or {}).items() if v})
        self.groups = tuple(groups) if groups is not None else (1,) * len(self._axes)
        self._dtype = np.dtype(dtype)
        self.view = None            # (base, getter, adder, setter)
        c = SymCtx.current
        self.depth = len(c.loops) if c is not None else 0
        self.born = c.nloop if c is not None else 0
        self.dirty = None
        self.readin = None

    # isinstance(x, np.ndarray) must succeed
    @property
    def __class__(self):
        return np.ndarray

    # -- access to content
    @property
    def axes(self):
        if self.view is not None and self.view[0] is not None:
            with structural():
                return self.view[1]().axes
        return self._axes

    @property
    def blocks(self):
        if self.view is not None:
            return self.view[1]().blocks
        if sc().structural:
            return self._blocks
        if self.dirty is not None and self.dirty[0] in [l.name for l in sc().loops]:
            raise ToolLimit("loop-carried dependency on an array written in the same symbolic loop")
        lp = outer_loops(self)
        if lp:
            self.readin = lp[-1].name
        return self._blocks

    def data(self):
        if self.view is not None:
            t = self.view[1]()
            return t
        self.blocks
        return self

    @property
    def dtype(self):
        return self._dtype

    @property
    def ndim(self):
        return len(self.groups)

    def gaxes(self):
        """List of lists of sub-axes, per numpy axis."""
        out, k = [], 0
        axes = self.axes
        for g in self.groups:
            out.append(axes[k:k + g])
            k += g
        return out

    @property
    def shape(self):
        out = []
        for ga in self.gaxes():
            s = 1
            for a in ga:
                s = asize(a) * s if not isinstance(s, int) or s != 1 else asize(a)
            out.append(s)
        return tuple(out)

    @property
    def size(self):
        s = 1
        for x in self.shape:
            s = x * s
        return s

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        raise ToolLimit("flags")

    @property
    def base(self):
        return None

    @property
    def real(self):
        if self.dtype.kind == "c":
            r = (self + self.conj()) * Fraction(1, 2)
            r._dtype = np.dtype(np.float64)
            return r
        return self

    @property
    def imag(self):
        if self.dtype.kind == "c":
            r = (self - self.conj()) * GQ(0, Fraction(-1, 2))
            r._dtype = np.dtype(np.float64)
            return r
        return self * 0

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise ToolLimit("len() of a symbolic axis")

    def __iter__(self):
        s = self.shape[0]
        if isinstance(s, int):
            for i in range(s):
                yield self[i]
            return
        for i in srange(s):
            yield self[i]

    def __repr__(self):
        return "SymTensor(%s: %s)" % (self.axes, {k: e_str(v) for k, v in list(self.blocks.items())[:6]})

    def __hash__(self):
        return id(self)

    def __array__(self, *a, **k):
        raise ToolLimit("conversion of a symbolic tensor to a concrete array")

    def __float__(self):
        c = self.constant()
        if c is None:
            raise ToolLimit("float() of a symbolic value")
        return float(c)

    def __complex__(self):
        raise ToolLimit("complex() of a symbolic value")

    def __index__(self):
        raise ToolLimit("index of a symbolic value")

    def __int__(self):
        raise ToolLimit("int() of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def constant(self):
        if self.ndim != 0:
            return None
        e = self.blocks.get((), {})
        if not e:
            return Fraction(0)
        if len(e) == 1 and ((), ()) in e:
            return e[((), ())]
        return None

    # -- python protocol: numeric
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return add(self, o, -1)

    def __rsub__(self, o):
        return add(o, self, -1)

    def __mul__(self, o):
        return multiply(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return multiply(self, reciprocal(o))

    def __rtruediv__(self, o):
        return multiply(o, reciprocal(self))

    def __neg__(self):
        return multiply(self, -1)

    def __pos__(self):
        return self

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and n == 0.5:
            return opaque("sqrt", self)
        if isinstance(n, (int, np.integer, float, np.floating)) and float(n).is_integer():
            n = int(n)
            if n == 0:
                return self * 0 + 1
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else reciprocal(r)
        raise ToolLimit("power")

    def __abs__(self):
        return opaque("abs", self)

    # in place
    def _inplace_add(self, o, s=1):
        o = lift(o)
        if self.view is not None:
            self.view[2](self, o, s)
            return self
        c = sc()
        lp = outer_loops(self)
        if lp:
            check_not_read(self, lp)
            delta = add(broadcast_like(o, self), 0)
            delta = sum_params(delta, lp)
            new = _raw_add(self, delta, s)
            self.dirty = (lp[-1].name, "all")
        else:
            self.blocks
            new = _raw_add(self, broadcast_like(o, self), s)
        self._assign(new)
        return self

    def _assign(self, new):
        object.__setattr__(self, "_axes", new._axes)
        object.__setattr__(self, "_blocks", new._blocks)
        if new._dtype.kind == "c" and self._dtype.kind != "c" and new._blocks:
            raise ToolLimit("complex value stored in a real array")

    def __iadd__(self, o):
        return self._inplace_add(o, 1)

    def __isub__(self, o):
        return self._inplace_add(o, -1)

    def _inplace_set(self, val):
        """Overwrite content with val (already same shape)."""
        if self.view is not None:
            self.view[3](self, val)
            return self
        if outer_loops(self):
            raise ToolLimit("in-place overwrite of outer array in a symbolic loop")
        self._assign(broadcast_like(lift(val), self))
        return self

    def __imul__(self, o):
        return self._inplace_set(multiply(self, o))

    def __itruediv__(self, o):
        return self._inplace_set(multiply(self, reciprocal(o)))

    # comparisons
    def _cmp(self, o, op):
        d = add(self, o, -1)
        if d.ndim != 0:
            return const_compare(d, op)
        e = d.blocks.get((), {})
        if not e:
            return op in ("eq", "le", "ge")
        z = e_z3(e)
        zero = z3.RealVal(0)
        return SymBool({"eq": z == zero, "ne": z != zero, "lt": z < zero, "le": z <= zero, "gt": z > zero,
                        "ge": z >= zero}[op])

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        if self.ndim != 0:
            raise ToolLimit("truth value of a tensor")
        return bool(self._cmp(0, "ne"))

    # -- numpy protocol
    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.dispatch(func.__name__, func, args, kwargs)

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        from . import snp
        if method == "reduce":
            return snp.dispatch({"add": "sum"}.get(ufunc.__name__, ufunc.__name__ + ".reduce"), ufunc, args, kwargs)
        if method != "__call__":
            raise ToolLimit("ufunc method %s" % method)
        return snp.dispatch(ufunc.__name__, ufunc, args, kwargs)

    # -- methods
    def copy(self, order=None):
        t = self.data()
        return SymTensor(t._axes, dict(t.blocks), self.groups, self._dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def conj(self):
        if self.dtype.kind != "c":
            return self.copy()
        return SymTensor(self.axes, {k: e_conj(v) for k, v in self.blocks.items()}, self.groups, self._dtype)

    conjugate = conj

    def transpose(self, *perm):
        if len(perm) == 1 and (perm[0] is None or isinstance(perm[0], (tuple, list))):
            perm = perm[0]
        n = self.ndim
        if not perm:
            perm = tuple(range(n))[::-1]
        perm = tuple(int(p) % n for p in perm)
        if sorted(perm) != list(range(n)):
            raise ValueError("axes don't match array")
        base = self
        inv = tuple(int(x) for x in np.argsort(perm))

        def getter():
            return _transpose(base, perm)

        def adder(v, o, s):
            base._inplace_add(_transpose(broadcast_like(o, v), inv), s)

        def setter(v, val):
            base._inplace_set(_transpose(broadcast_like(lift(val), v), inv))

        r = _transpose_shell(self, perm)
        r.view = (base, getter, adder, setter)
        return r

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def dot(self, o):
        return dot(self, o)

    def trace(self):
        if self.ndim != 2:
            raise ToolLimit("trace")
        return einsum("ii->", self)

    def sum(self, axis=None, **kw):
        return tsum(self, axis)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    flatten = ravel

    def squeeze(self):
        raise ToolLimit("squeeze")

    def astype(self, dtype, copy=True):
        if np.dtype(dtype).kind == "f" and self.dtype.kind == "c":
            raise ToolLimit("astype float of complex")
        r = self.copy()
        r._dtype = np.dtype(dtype)
        return r

    def diagonal(self):
        return einsum("ii->i", self)

    def item(self):
        if self.ndim:
            raise ToolLimit("item")
        return self

    def max(self, *a, **k):
        if not self.blocks:
            return scalar_terms([])
        from . import snp
        if snp.MINMAX_OPAQUE[0] and not a and not k and self._dtype.kind != "c":
            # Largest element: an unknown real number (over-approximation)
            c = sc()
            c.nfun += 1
            name = "max:%d" % c.nfun
            c.atoms[name] = dict(sym=None, real=True, spaces=[])
            if all(v > 0 and all(f[0].startswith("fn:abs#") for f in fac) for e in self.blocks.values() for (fac, _), v in e.items()):
                from .symint import Paths
                Paths.current.assume(z3.Real(name) >= 0)
            return scalar_terms([(Fraction(1), ((name, False, ()),))])
        raise ToolLimit("max of a symbolic tensor")

    min = max

    def fill(self, v):
        self._inplace_set(lift(v))

    def tolist(self):
        raise ToolLimit("tolist")

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)


def const_compare(d, op):
    """Elementwise comparison with zero of a block-wise constant tensor -> boolean mask tensor."""
    blocks = {}
    for bk in itertools.product(*[range(len(a)) for a in d.axes]):
        e = d.blocks.get(bk, {})
        if not e:
            v = Fraction(0)
        elif len(e) == 1 and ((), ()) in e and not isinstance(e[((), ())], GQ):
            v = e[((), ())]
        else:
            raise ToolLimit("elementwise comparison of symbolic tensors")
        r = {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[op]
        if r:
            blocks[bk] = {((), ()): Fraction(1)}
    return SymTensor(d.axes, blocks, d.groups, bool)


class SymList:
    """list with symbolic repetition counts: n*[x] + m*[y]."""
    def __init__(self, parts):
        self.parts = parts      # (count, list)

    def __add__(self, o):
        if isinstance(o, SymList):
            return SymList(self.parts + o.parts)
        if isinstance(o, list):
            return SymList(self.parts + [(1, o)])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SymList([(1, o)] + self.parts)
        return NotImplemented

    def tensor(self):
        ts = []
        for n, l in self.parts:
            if isinstance(n, int):
                for x in l * n:
                    ts.append(lift(x)[None])
            else:
                if len(l) != 1:
                    raise ToolLimit("symbolic repetition of a multi-element list")
                ts.append(_fill_const(zeros((n,)), l[0]))
        return concatenate(ts, 0)


def is_sym(x):
    return type(x) is SymTensor


# ---------------------------------------------------------------- scalars -> z3
def e_z3(expr):
    tot = z3.RealVal(0)
    for (fac, dsp), c in expr.items():
        if isinstance(c, GQ):
            raise ToolLimit("complex comparison")
        t = z3.RealVal(str(c))
        scal = []
        other = []
        for f in fac:
            if f[2] == () and not f[0].startswith("fn:"):
                scal.append(f)
            else:
                other.append(f)
        for n, cj, _ in scal:
            if n.startswith("dim:"):
                t = t * z3.ToReal(sc().spaces[n[4:]].z())
            elif n.startswith("1/"):
                v = z3.Real("inv " + n[2:])
                cur().assume(v * z3.Real(n[2:]) == 1)
                t = t * v
            elif n.startswith("sqrt:"):
                v = z3.Real(n)
                cur().assume(z3.And(v >= 0, v * v == z3.RealVal(n[5:])))
                t = t * v
            elif n.startswith("num:"):
                t = t * z3.RealVal(n[4:])
            else:
                t = t * z3.Real(n)
        if other:
            t = t * z3.Real("T:" + repr((tuple(other), dsp)))
        tot = tot + t
    return tot


# ---------------------------------------------------------------- lifting, broadcasting
def scalar_terms(terms, dtype=np.float64):
    e = {}
    for c, f in terms:
        add_term(e, c, list(f), {})
    return SymTensor((), {(): e}, dtype=dtype)


def dim_scalar(si):
    si = SymInt.of(si)
    e = {}
    c = sc()
    byvar = {tuple(s.p)[0][0]: n for n, s in c.spaces.items()}
    for mono, v in si.p.items():
        fac = []
        for var in mono:
            if var not in byvar:
                raise ToolLimit("integer %s has no dimension" % var)
            fac.append(("dim:" + byvar[var], False, ()))
        add_term(e, Fraction(v), fac, {})
    return SymTensor((), {(): e}, dtype=np.float64)


def lift(x):
    if type(x) is SymTensor:
        return x
    if isinstance(x, SymInt):
        return dim_scalar(x)
    if isinstance(x, (bool, int, float, complex, Fraction, GQ, np.number, np.bool_)):
        dt = np.complex128 if isinstance(x, (complex, np.complexfloating, GQ)) else (
            np.int64 if isinstance(x, (int, np.integer)) else np.float64)
        return scalar_terms(number_terms(x), dt)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            flat = [lift(y) for y in x.ravel()]
            if x.ndim == 0:
                return flat[0]
            raise ToolLimit("object array")
        axes = tuple((U,) * n for n in x.shape)
        blocks = {}
        if x.size > 4096:
            raise ToolLimit("large concrete array in symbolic run")
        for idx in np.ndindex(*x.shape):
            t = number_terms(x[idx].item())
            if t:
                e = {}
                for c, f in t:
                    add_term(e, c, list(f), {})
                blocks[idx] = e
        return SymTensor(axes, blocks, dtype=x.dtype)
    if isinstance(x, SymList):
        return x.tensor()
    if isinstance(x, (list, tuple)):
        return stack([lift(y) for y in x], 0) if len(x) else SymTensor(((),), {})
    raise ToolLimit("cannot lift %r to a tensor" % type(x))


def rdtype(*ts):
    k = "f"
    for t in ts:
        if t._dtype.kind == "c":
            k = "c"
    return np.complex128 if k == "c" else np.float64


def same_axis(a, b):
    return a == b


def _bcast_axes(ts):
    """Align trailing groups; all non-unit axes must agree in block structure."""
    n = max(t.ndim for t in ts)
    out = []
    for k in range(n):
        cand = None
        for t in ts:
            j = k - (n - t.ndim)
            if j < 0:
                continue
            ga = t.gaxes()[j]
            if len(ga) == 1 and ga[0] == (U,):
                if cand is None:
                    cand = ga
                continue
            if cand is None or (len(cand) == 1 and cand[0] == (U,)):
                cand = ga
            elif tuple(cand) != tuple(ga):
                # all-zero tensors may be re-partitioned
                if all(not t2.blocks for t2 in ts if t2 is t):
                    continue
                s1 = _gsize(cand)
                s2 = _gsize(ga)
                if not same_int(s1, s2):
                    if isinstance(s1, int) and isinstance(s2, int) or _cannot_equal(s1, s2):
                        raise ValueError("operands could not be broadcast together")
                raise ToolLimit("different block structure %r %r" % (cand, ga))
        out.append(cand)
    return out


def _cannot_equal(a, b):
    c = cur()
    r, _ = c.check([SymInt.of(a).z() == SymInt.of(b).z()])
    return r == z3.unsat


def _gsize(ga):
    s = 1
    for a in ga:
        s = asize(a) * s
    return s


def expand(t, gaxes):
    """Broadcast t to the group axes gaxes."""
    n = len(gaxes)
    tg = [None] * (n - t.ndim) + list(t.gaxes())
    axes = tuple(a for ga in gaxes for a in ga)
    groups = tuple(len(ga) for ga in gaxes)
    if all(x is not None and tuple(x) == tuple(y) for x, y in zip(tg, gaxes)):
        return SymTensor(axes, t.blocks, groups, t._dtype)
    if not t.blocks:
        return SymTensor(axes, {}, groups, t._dtype)
    blocks = {}
    for bk, e in t.blocks.items():
        # old slot -> sub axis position
        pos = 0
        choices = []
        slotmap = []       # for each old sub-axis: new sub-axis position or None
        newpos = 0
        for x, y in zip(tg, gaxes):
            if x is not None and tuple(x) == tuple(y):
                for a in y:
                    choices.append((bk[pos],))
                    slotmap.append((pos, newpos))
                    pos += 1
                    newpos += 1
            else:
                if x is not None:
                    pos += len(x)   # unit
                for a in y:
                    choices.append(tuple(range(len(a))))
                    newpos += 1
        old2new = dict(slotmap)
        for nb in itertools.product(*choices):
            # compute slots
            newslot = {}
            s = 0
            for p, b in enumerate(nb):
                if axes[p][b] is not U:
                    newslot[p] = s
                    s += 1
            imap = {}
            s = 0
            tax = t.axes
            for p, b in enumerate(bk):
                if tax[p][b] is not U:
                    imap[s] = newslot[old2new[p]]
                    s += 1
            blocks[nb] = e_map(e, imap)
    return SymTensor(axes, blocks, groups, t._dtype)


def broadcast_like(o, like):
    o = lift(o)
    ga = like.gaxes()
    if o.ndim > like.ndim:
        # leading unit axes may be dropped
        raise ValueError("could not broadcast input array")
    with structural():
        nonzero = like_blocks_nonzero(like)
    if not nonzero:
        # destination zero: adopt source partition where sizes agree
        og = o.gaxes()
        off = like.ndim - o.ndim
        ga = list(ga)
        for k, x in enumerate(og):
            y = ga[off + k]
            if tuple(x) != tuple(y) and not (len(x) == 1 and x[0] == (U,)):
                if same_int(_gsize(x), _gsize(y)):
                    ga[off + k] = x
    off = like.ndim - o.ndim
    for k in range(o.ndim):
        x, y = o.gaxes()[k], ga[off + k]
        if tuple(x) != tuple(y) and o.blocks and same_int(_gsize(x), _gsize(y)):
            if len(x) > 1 and len(y) == 1:
                o = flatten(o, k)
            elif len(x) == 1 and len(y) > 1:
                o = unflatten(o, k, y)
    og = o.gaxes()
    for k, x in enumerate(og):
        y = ga[off + k]
        if tuple(x) != tuple(y) and not (len(x) == 1 and x[0] == (U,)):
            if not o.blocks:
                continue
            if _cannot_equal(_gsize(x), _gsize(y)):
                raise ValueError("could not broadcast input array from shape %r into shape %r" % (o.shape, like.shape))
            raise ToolLimit("different block structure in assignment %r %r" % (x, y))
    return expand(o, ga)


def like_blocks_nonzero(t):
    if t.view is not None:
        return True
    return bool(t._blocks)


def _raw_add(a, b, s=1):
    if a._axes != b._axes and not a._blocks:
        return SymTensor(b._axes, {k: e_scale(v, s) for k, v in b._blocks.items()}, b.groups, rdtype(a, b))
    blocks = dict(a._blocks)
    for k, v in b._blocks.items():
        if k in blocks:
            blocks[k] = e_add(blocks[k], v, s)
        else:
            blocks[k] = e_scale(v, s)
    return SymTensor(a._axes, blocks, a.groups, rdtype(a, b))


def add(a, b, s=1):
    a, b = lift(a), lift(b)
    a, b = _unify([a, b])
    ga = _bcast_axes([a, b])
    return _raw_add(expand(a, ga), expand(b, ga), s)


def multiply(a, b):
    a, b = lift(a), lift(b)
    for x, y in ((a, b), (b, a)):
        if x.ndim == 0:
            c = x.constant()
            if c is not None:
                return SymTensor(y.axes, {k: e_scale(v, c) for k, v in y.blocks.items()}, y.groups, rdtype(a, b))
    a, b = _unify([a, b])
    ga = _bcast_axes([a, b])
    a, b = expand(a, ga), expand(b, ga)
    blocks = {}
    for k, v in a._blocks.items():
        w = b._blocks.get(k)
        if w:
            n = nslots(a._axes, k)
            im = {i: i for i in range(n)}
            blocks[k] = e_product([(v, im), (w, im)], {})
    return SymTensor(a._axes, blocks, a.groups, rdtype(a, b))


def nslots(axes, bk):
    return sum(1 for p, b in enumerate(bk) if axes[p][b] is not U)


def _transpose_shell(t, perm):
    ga = t.gaxes()
    r = SymTensor(tuple(a for p in perm for a in ga[p]), {}, tuple(t.groups[p] for p in perm), t._dtype)
    return r


def _transpose(t, perm):
    ga = t.gaxes()
    starts = np.cumsum([0] + list(t.groups)).tolist()
    sub = [q for p in perm for q in range(starts[p], starts[p] + t.groups[p])]
    axes = t.axes
    blocks = {}
    for bk, e in t.blocks.items():
        nb = tuple(bk[q] for q in sub)
        slots = {}
        s = 0
        for p, b in enumerate(bk):
            if axes[p][b] is not U:
                slots[p] = s
                s += 1
        imap = {}
        s = 0
        for q in sub:
            if axes[q][bk[q]] is not U:
                imap[slots[q]] = s
                s += 1
        blocks[nb] = e_map(e, imap)
    return SymTensor(tuple(axes[q] for q in sub), blocks, tuple(t.groups[p] for p in perm), t._dtype)


# ---------------------------------------------------------------- einsum
def einsum(subscripts, *ops, **kw):
    ops = [lift(o) for o in ops]
    subs = subscripts.replace(" ", "")
    if "..." in subs:
        ins, _, out = subs.partition("->")
        ins = ins.split(",")
        extra = 0
        for s, o in zip(ins, ops):
            if "..." in s:
                extra = max(extra, o.ndim - len(s.replace("...", "")))
        pool = [chr(0x4e00 + k) for k in range(extra)]
        new = []
        for s, o in zip(ins, ops):
            if "..." in s:
                k = o.ndim - len(s.replace("...", ""))
                s = s.replace("...", "".join(pool[extra - k:]))
            new.append(s)
        if "->" in subs:
            out = out.replace("...", "".join(pool))
        else:
            letters = "".join(new)
            out = "".join(pool) + "".join(sorted(x for x in set(letters) if letters.count(x) == 1 and x not in pool))
        ins = new
    elif "->" in subs:
        ins, out = subs.split("->")
        ins = ins.split(",")
    else:
        ins = subs.split(",")
        letters = "".join(ins)
        out = "".join(sorted(x for x in set(letters) if letters.count(x) == 1))
    if len(ins) != len(ops):
        raise ValueError("einsum operand mismatch")
    # letter -> group axes
    lax = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum subscripts do not match operand: %s ndim %d" % (s, o.ndim))
        for l, ga in zip(s, o.gaxes()):
            ga = tuple(ga)
            if l in lax and lax[l] != ga:
                if len(ga) == 1 and ga[0] == (U,):
                    continue
                if len(lax[l]) == 1 and lax[l][0] == (U,):
                    lax[l] = ga
                    continue
                if not o.blocks:
                    return _ein_zero(ins, out, ops, lax)
                s1, s2 = _gsize(lax[l]), _gsize(ga)
                if (len(ga) > 1 or len(lax[l]) > 1) and same_int(s1, s2):
                    new = list(ops)
                    for q, (s_, o_) in enumerate(zip(ins, ops)):
                        for k_, l_ in enumerate(s_):
                            if l_ == l and len(new[q].gaxes()[k_]) > 1:
                                new[q] = flatten(new[q], k_)
                    return einsum(",".join(ins) + "->" + out, *new)
                if _cannot_equal(s1, s2):
                    raise ValueError("einsum dimension mismatch for %s: %r %r" % (l, lax[l], ga))
                raise ToolLimit("einsum block mismatch for %s: %r %r" % (l, lax[l], ga))
            lax.setdefault(l, ga)
    if any(not o.blocks for o in ops):
        return _ein_zero(ins, out, ops, lax)
    # multi-operand: contract pairwise to limit the block products
    if len(ops) > 2:
        order = list(range(len(ops)))
        a, b = 0, 1
        rest = "".join(ins[2:]) + out
        mid = "".join(dict.fromkeys(x for x in ins[0] + ins[1] if x in rest))
        t = einsum("%s,%s->%s" % (ins[0], ins[1], mid), ops[0], ops[1])
        return einsum(",".join([mid] + ins[2:]) + "->" + out, t, *ops[2:])
    dtype = rdtype(*ops)
    outaxes = tuple(a for l in out for a in lax[l])
    groups = tuple(len(lax[l]) for l in out)
    blocks = {}
    # sub-letter ids
    def subl(s):
        return [(l, k) for l in s for k in range(len(lax[l]))]

    if len(ops) == 1:
        prods = [((bk,), (e,)) for bk, e in ops[0].blocks.items()]
    else:
        prods = []
        # index second operand blocks by shared letters
        s0, s1 = subl_op(ins[0], ops[0], lax), subl_op(ins[1], ops[1], lax)
        for b0, e0 in ops[0].blocks.items():
            for b1, e1 in ops[1].blocks.items():
                prods.append(((b0, b1), (e0, e1)))
    subls = [subl_op(s, o, lax) for s, o in zip(ins, ops)]
    for bks, es in prods:
        asg = {}
        ok = True
        for sl, bk, o in zip(subls, bks, ops):
            for x, b in zip(sl, bk):
                if x is None:
                    continue
                if x in asg and asg[x] != b:
                    ok = False
                    break
                asg[x] = b
            if not ok:
                break
        if not ok:
            continue
        # letters only appearing as broadcast units in all ops present: unassigned when lax is (U,) -> block 0
        for l in set("".join(ins)):
            for k, a in enumerate(lax[l]):
                if (l, k) not in asg:
                    if a == (U,):
                        asg[(l, k)] = 0
        outb = []
        free = []
        for l in out:
            for k in range(len(lax[l])):
                if (l, k) not in asg:
                    free.append((l, k))
        for combo in itertools.product(*[range(len(lax[l][k])) for l, k in free]):
            asg2 = dict(asg)
            asg2.update(dict(zip(free, combo)))
            outb = tuple(asg2[(l, k)] for l in out for k in range(len(lax[l])))
            # index assignment
            ind = {}
            s = 0
            for l in out:
                for k in range(len(lax[l])):
                    if (l, k) in ind:
                        raise ToolLimit("repeated output letter")
                    if lax[l][k][asg2[(l, k)]] is not U:
                        ind[(l, k)] = s
                        s += 1
            dsp = {}
            d = -1
            for (l, k), b in asg2.items():
                if l not in out and lax[l][k][b] is not U:
                    ind[(l, k)] = d
                    dsp[d] = lax[l][k][b]
                    d -= 1
            parts = []
            for sl, bk, o, e in zip(subls, bks, ops, es):
                imap = {}
                s = 0
                oax = o.axes
                for p, b in enumerate(bk):
                    if oax[p][b] is not U:
                        imap[s] = ind[sl[p]]
                        s += 1
                parts.append((e, imap))
            r = e_product(parts, dsp)
            if r:
                blocks[outb] = e_add(blocks[outb], r) if outb in blocks else r
    return SymTensor(outaxes, blocks, groups, dtype)


def subl_op(s, o, lax):
    out = []
    for l, ga in zip(s, o.gaxes()):
        if tuple(ga) == lax[l]:
            out += [(l, k) for k in range(len(ga))]
        else:
            out += [None] * len(ga)      # broadcast unit
    return out


def _ein_zero(ins, out, ops, lax):
    for s, o in zip(ins, ops):
        for l, ga in zip(s, o.gaxes()):
            lax.setdefault(l, tuple(ga))
    return SymTensor(tuple(a for l in out for a in lax[l]), {}, tuple(len(lax[l]) for l in out), rdtype(*ops))


LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def dot(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    la = LET[:a.ndim]
    lb = LET[a.ndim:a.ndim + b.ndim]
    c = la[-1]
    if b.ndim == 1:
        lb = c
    else:
        lb = lb[:-2] + c + lb[-1]
    out = la[:-1] + lb.replace(c, "")
    return einsum("%s,%s->%s" % (la, lb, out), a, b)


def tensordot(a, b, axes=2):
    a, b = lift(a), lift(b)
    if isinstance(axes, (int, np.integer)):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, (int, np.integer)) else list(axa)
        axb = [axb] if isinstance(axb, (int, np.integer)) else list(axb)
    la = list(LET[:a.ndim])
    lb = list(LET[a.ndim:a.ndim + b.ndim])
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    if len(axa) != len(axb):
        raise ValueError("shape-mismatch for sum")
    for x, y in zip(axa, axb):
        lb[y] = la[x]
    out = [l for k, l in enumerate(la) if k not in axa] + [l for k, l in enumerate(lb) if k not in axb]
    return einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), a, b)


def tsum(t, axis=None):
    t = lift(t)
    l = LET[:t.ndim]
    if axis is None:
        return einsum(l + "->", t)
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    axis = [x % t.ndim for x in axis]
    return einsum(l + "->" + "".join(x for k, x in enumerate(l) if k not in axis), t)


# ---------------------------------------------------------------- construction
def zeros(shape, dtype=np.float64):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return SymTensor(tuple(default_axis(s) for s in shape), {}, dtype=np.dtype(dtype) if dtype else np.float64)


def ones(shape, dtype=np.float64):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    t = zeros(shape, dtype)
    return _fill_const(t, 1)


def _fill_const(t, v):
    s = lift(v)
    return expand(s, t.gaxes())


def eye(n, m=None, dtype=np.float64, axis=None):
    if m is not None and not same_int(n, m):
        raise ToolLimit("rectangular eye")
    ax = axis if axis is not None else default_axis(n)
    blocks = {}
    for k, b in enumerate(ax):
        e = {}
        add_term(e, Fraction(1), [] if b is U else [(DELTA, False, (0, 1))], {})
        blocks[(k, k)] = e
    return SymTensor((ax, ax), blocks, dtype=dtype)


def concatenate(ts, axis=0):
    ts = [lift(t) for t in ts]
    nd = ts[0].ndim
    axis = axis % nd
    for t in ts:
        if t.ndim != nd:
            raise ValueError("all the input array dimensions must match")
    for k in range(nd):
        if any(t.groups[k] != 1 for t in ts) and (k == axis or len({tuple(t.gaxes()[k]) for t in ts}) > 1):
            ts = [flatten(t, k) if t.groups[k] != 1 else t for t in ts]
    if any(g != 1 for t in ts for g in t.groups):
        for k in range(nd):
            ts = [flatten(t, k) if t.groups[k] != 1 else t for t in ts]
    ref = None
    for t in ts:
        if t.blocks:
            ref = t
            break
    ref = ts[0] if ref is None else ref
    newax = ()
    blocks = {}
    for t in ts:
        tax = list(t.axes)
        for k in range(nd):
            if k != axis and tax[k] != ref.axes[k]:
                if _cannot_equal(asize(tax[k]), asize(ref.axes[k])):
                    raise ValueError("concatenation axis mismatch")
                if t.blocks:
                    raise ToolLimit("concatenate: block mismatch")
                if not same_int(asize(tax[k]), asize(ref.axes[k])):
                    raise ToolLimit("concatenate: size mismatch undecided")
        off = len(newax)
        for bk, e in t.blocks.items():
            blocks[bk[:axis] + (bk[axis] + off,) + bk[axis + 1:]] = e
        newax = newax + tax[axis]
    axes = list(ref.axes)
    axes[axis] = newax
    return SymTensor(axes, blocks, dtype=rdtype(*ts))


def stack(ts, axis=0):
    ts = [lift(t) for t in ts]
    nd = ts[0].ndim + 1
    axis = axis % nd
    out = []
    for t in ts:
        out.append(t[tuple([slice(None)] * axis + [None])])
    return concatenate(out, axis)


def reshape(t, shape):
    gaxes = t.gaxes()
    sub = [a for ga in gaxes for a in ga]
    n = len(sub)
    shape = list(shape)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = list(shape[0])
    unknown = [k for k, s in enumerate(shape) if isinstance(s, (int, np.integer)) and s == -1]
    # greedy match: assign consecutive sub-axes to each target dim
    sizes = [asize(a) for a in sub]

    def prod(l):
        s = 1
        for x in l:
            s = x * s
        return s

    def rec(k, pos):
        if k == len(shape):
            return [] if pos == n else None
        if k in unknown:
            for end in range(pos, n + 1):
                r = rec(k + 1, end)
                if r is not None:
                    return [(pos, end)] + r
            return None
        for end in range(pos, n + 1):
            if end == pos:
                if isinstance(shape[k], int) and shape[k] == 1:
                    # prefer consuming an actual unit axis if available
                    if pos < n and sub[pos] == (U,):
                        continue
                    r = rec(k + 1, end)
                    if r is not None:
                        return [(pos, end)] + r
                continue
            if same_int(prod(sizes[pos:end]), shape[k]):
                r = rec(k + 1, end)
                if r is not None:
                    return [(pos, end)] + r
        return None

    r = rec(0, 0)
    if r is None and not unknown:
        # split axes of composite indices
        for k, ga in enumerate(gaxes):
            if len(ga) == 1 and len(ga[0]) == 1 and ga[0][0] is not U and "*" in ga[0][0]:
                for subs in sorted(set(itertools.permutations(ga[0][0].split("*")))):
                    for q in range(len(shape) - len(subs) + 1):
                        if all(same_int(bsize(x), y) for x, y in zip(subs, shape[q:q + len(subs)])):
                            return reshape(_readonly(unflatten(t, k, tuple((x,) for x in subs))), shape)
    if r is None:
        if not unknown and all(isinstance(x, (int, SymInt)) for x in shape):
            if not same_int(prod(sizes), prod(shape)) and _cannot_equal(prod(sizes), prod(shape)):
                raise ValueError("cannot reshape")
        raise ToolLimit("reshape %r -> %r" % (t.shape, shape))
    # build with possibly inserted unit axes
    axes, groups = [], []
    ins = []   # mapping new sub-axis -> old sub-axis or None
    for (a, b) in r:
        if a == b:
            axes.append((U,))
            ins.append(None)
            groups.append(1)
        else:
            axes += sub[a:b]
            ins += list(range(a, b))
            groups.append(b - a)
    # drop unit sub-axes inside groups with >1 members
    def conv(src):
        blocks = {}
        for bk, e in src.blocks.items():
            blocks[tuple(0 if o is None else bk[o] for o in ins)] = e
        return SymTensor(axes, blocks, groups, src._dtype)

    base = t
    out = SymTensor(axes, {}, groups, t._dtype)
    inv = {o: k for k, o in enumerate(ins) if o is not None}

    def back(v):
        blocks = {}
        for bk, e in v.blocks.items():
            blocks[tuple(bk[inv[o]] for o in range(n))] = e
        return SymTensor(sub, blocks, base.groups, v._dtype)

    def getter():
        return conv(base.data())

    def adder(v, o, s):
        base._inplace_add(back(broadcast_like(o, v)), s)

    def setter(v, val):
        base._inplace_set(back(broadcast_like(lift(val), v)))

    out.view = (base, getter, adder, setter)
    return out


# ---------------------------------------------------------------- loops
class Loop:
    def __init__(self, name, space):
        self.name, self.space = name, space


class LoopIndex(SymInt):
    __slots__ = ("loop",)


def srange(*args):
    if all(isinstance(a, (int, np.integer)) for a in args):
        yield from range(*args)
        return
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    if step != 1:
        raise ToolLimit("symbolic range with step")
    n = stop - start
    if isinstance(n, int):
        for k in range(max(n, 0)):
            yield start + k
        return
    ax = default_axis(n)
    c = sc()
    off = start
    for b in ax:
        if b is U:
            yield off
            off = off + 1
            continue
        c.nloop += 1
        name = "@L%d" % c.nloop
        lp = Loop(name, b)
        c.loops.append(lp)
        v = SymInt.var(name)
        cur().assume(z3.And(v.z() >= 0, v.z() < c.spaces[b].z()))
        li = v + off
        c.__dict__.setdefault("loopvars", {})[name] = lp
        finished = False
        try:
            yield li
            finished = True
        finally:
            if c.loops and c.loops[-1] is lp:
                c.loops.pop()
            c.closed.add(name)
            if not finished:
                c.broken = True
        off = off + c.spaces[b]


def check_not_read(t, lp):
    if t.readin is not None and t.readin in [l.name for l in lp]:
        raise ToolLimit("array read and written in the same symbolic loop")


def outer_loops(t):
    """Open loops that started after t was created."""
    c = SymCtx.current
    if c is None or not c.loops:
        return []
    return c.loops[t.depth:]


def sum_params(t, loops):
    """Turn open loop parameters into summed dummies."""
    blocks = {}
    for bk, e in t.blocks.items():
        out = {}
        for key, cf in e.items():
            fac, dsp = key_parts(key)
            nd = min([0] + list(dsp)) - 1
            sub = {}
            for lp in loops:
                sub[lp.name] = nd
                dsp[nd] = lp.space
                nd -= 1
            fac = [(n, cj, tuple(sub.get(i, i) for i in idx)) for n, cj, idx in fac]
            add_term(out, cf, fac, dsp)
        blocks[bk] = out
    return SymTensor(t._axes, blocks, t.groups, t._dtype)


def check_params(t):
    """No closed loop parameter may survive in a value that is used after the loop."""
    c = sc()
    if getattr(c, "broken", False):
        raise ToolLimit("early exit from a symbolic loop")
    if not c.closed:
        return
    for e in t.blocks.values():
        for fac, _ in e:
            for _, _, idx in fac:
                for i in idx:
                    if isinstance(i, str) and i in c.closed:
                        raise ToolLimit("loop-carried scalar (value of a loop variable escapes its loop)")


# ---------------------------------------------------------------- indexing
class IxMask:
    """One component of np.ix_(mask, ...)."""
    def __init__(self, axis, sel):
        self.axis, self.sel = axis, sel


class DiagIdx(tuple):
    """np.diag_indices(n) with symbolic n."""
    def __new__(cls, n, ndim):
        t = super().__new__(cls, (("diag", n),) * ndim)
        t.n = n
        t.nd = ndim
        return t


def _slice_blocks(axis, sl):
    """Which block indices of axis are selected by slice sl."""
    if sl.step not in (None, 1):
        if sl.step == -1 and sl.start is None and sl.stop is None and all(b is U for b in axis):
            return list(range(len(axis)))[::-1]
        if all(b is U for b in axis):
            return list(range(len(axis)))[sl]
        raise ToolLimit("slice step")
    if sl.start is None and sl.stop is None:
        return list(range(len(axis)))
    if all(b is U for b in axis) and all(x is None or isinstance(x, (int, np.integer)) for x in (sl.start, sl.stop)):
        return list(range(len(axis)))[sl]
    offs = [0]
    for b in axis:
        offs.append(offs[-1] + bsize(b) if not isinstance(offs[-1], SymInt) else offs[-1] + bsize(b))
    total = offs[-1]

    def cut(x, default):
        if x is None:
            return default
        if isinstance(x, (int, np.integer)) and x < 0:
            x = total + int(x)
        elif isinstance(x, SymInt):
            if not symint.implied_le(0, x):
                # -n style
                neg = -x
                if symint.implied_le(neg, total) and symint.implied_le(1, neg):
                    x = total + x
                elif bool(x < 0):
                    x = total + x
        for k, o in enumerate(offs):
            if same_int(o, x):
                return k
        # clipping at the end
        if symint.implied_le(total, x):
            return len(axis)
        raise ToolLimit("slice bound %r is not at a block boundary of %r" % (x, axis))

    a = cut(sl.start, 0)
    b = cut(sl.stop, len(axis))
    return list(range(a, max(a, b)))


class ConcreteIndex(ToolLimit):
    pass


def _pick_vector(axis, k):
    """Uninterpreted coordinate vector e_k of an axis (reads only; sound because nothing is assumed about it)."""
    blocks = {}
    for b, sp in enumerate(axis):
        nm = "pick%d<%s>%d" % (k, "|".join("1" if x is U else x for x in axis), b)
        if nm not in sc().atoms:
            sc().atoms[nm] = dict(sym=None, real=True, spaces=[sp] if sp is not U else [])
        e = {}
        add_term(e, Fraction(1), [(nm, False, (0,) if sp is not U else ())], {})
        blocks[(b,)] = e
    return SymTensor((axis,), blocks)


def _pick_read(t, key):
    """t[key] where some integer of key addresses the inside of a symbolic axis."""
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is None for k in key):
        raise ToolLimit("concrete index into a symbolic axis")
    nsp = sum(1 for k in key if k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        j = [k is Ellipsis for k in key].index(True)
        key = key[:j] + (slice(None),) * (t.ndim - nsp) + key[j + 1:]
    else:
        key = key + (slice(None),) * (t.ndim - nsp)
    ga = t.gaxes()
    L = "abcdefghijklmnop"
    ops, subs, rest = [], [], []
    for p, k in enumerate(key):
        g = ga[p]
        if isinstance(k, (int, np.integer)) and len(g) == 1:
            try:
                _int_block(g[0], k)
            except ConcreteIndex:
                k = int(k)
                size = sum(bsize(b) for b in g[0])
                need = k + 1 if k >= 0 else -k
                if not symint.implied_le(need, size):
                    raise ToolLimit("concrete index possibly out of bounds")
                ops.append(_pick_vector(g[0], k))
                subs.append(L[p])
                continue
        rest.append((p, k))
    src = L[:t.ndim]
    out = "".join(L[p] for p, _ in rest)
    r = einsum(",".join([src] + subs) + "->" + out, t, *ops)
    if any(not (isinstance(k, slice) and k == slice(None)) for _, k in rest):
        r = getitem(r, tuple(k for _, k in rest))
    val = r.copy() if r.view is not None else r

    def no(*a):
        raise ToolLimit("write through a concrete index into a symbolic axis")
    r = SymTensor(val.axes, {}, val.groups, val._dtype)
    r.view = (t, lambda: val, no, no)
    r.just_added = False
    return r


def _int_block(axis, i):
    """Integer (or loop index) into axis -> (block index, param or None)."""
    if isinstance(i, (int, np.integer)):
        i = int(i)
        if all(b is U for b in axis):
            if not -len(axis) <= i < len(axis):
                raise IndexError("index out of bounds")
            return i % len(axis), None
        # leading/trailing unit blocks
        if i >= 0 and all(b is U for b in axis[:i + 1]) and len(axis) > i:
            return i, None
        if i < 0 and len(axis) >= -i and all(b is U for b in axis[i:]):
            return len(axis) + i, None
        raise ConcreteIndex("concrete index into a symbolic axis")
    if isinstance(i, SymInt):
        off = 0
        loops = sc().__dict__.get("loopvars", {})
        for k, b in enumerate(axis):
            rel = SymInt.of(i - off) if not isinstance(i - off, int) else None
            if b is not U and rel is not None and len(rel.p) == 1:
                (m, cf), = rel.p.items()
                if cf == 1 and len(m) == 1 and m[0] in loops and loops[m[0]].space == b:
                    return k, m[0]
            if b is U and same_int(i, off):
                return k, None
            off = off + bsize(b)
        raise ToolLimit("symbolic index %r into %r" % (i, axis))
    raise ToolLimit("index type %r" % type(i))


def parse_key(t, key):
    """-> list of per-axis selectors ('s', blocks) / ('i', block, param) / ('n',) newaxis / ('l', list)."""
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(key, DiagIdx):
        return key
    nsp = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        j = [k is Ellipsis for k in key].index(True)
        key = key[:j] + (slice(None),) * (t.ndim - nsp) + key[j + 1:]
    else:
        key = key + (slice(None),) * (t.ndim - nsp)
    ga = t.gaxes()
    sel = []
    p = 0
    for k in key:
        if k is None:
            sel.append(("n",))
            continue
        if p >= len(ga):
            raise IndexError("too many indices")
        g = ga[p]
        if isinstance(k, slice):
            if len(g) != 1:
                if k == slice(None):
                    sel.append(("g",))
                    p += 1
                    continue
                raise ToolLimit("slicing a fused axis")
            sel.append(("s", _slice_blocks(g[0], k)))
        elif isinstance(k, (int, np.integer, SymInt)):
            if len(g) != 1:
                raise ToolLimit("indexing a fused axis")
            b, prm = _int_block(g[0], k)
            sel.append(("i", b, prm))
        elif isinstance(k, (list, np.ndarray)) and type(k) is not SymTensor and len(g) == 1 and all(
                b is U for b in g[0]):
            kk = np.arange(len(g[0]))[np.asarray(k)]
            if kk.ndim != 1:
                raise ToolLimit("fancy index")
            sel.append(("s", [int(x) for x in kk], True))
        elif type(k) is SymTensor and k._dtype.kind == "b" and k.ndim == 1 and len(g) == 1:
            if k.axes[0] != g[0]:
                raise ToolLimit("mask partition differs")
            sel.append(("s", [b for b in range(len(g[0])) if (b,) in k.blocks], True))
        elif isinstance(k, IxMask) and len(g) == 1:
            if k.axis != g[0]:
                raise ToolLimit("mask partition differs")
            sel.append(("s", list(k.sel)))
        else:
            raise ToolLimit("index %r" % type(k))
        p += 1
    if sum(1 for s in sel if s[0] == "s" and len(s) == 3) > 1:
        raise ToolLimit("multiple fancy indices")
    return sel


def _resolve_axes(t, sel):
    """Output axes/groups for selectors."""
    ga = t.gaxes()
    axes, groups = [], []
    p = 0
    for s in sel:
        if s[0] == "n":
            axes.append((U,))
            groups.append(1)
            continue
        if s[0] == "s":
            axes.append(tuple(ga[p][0][b] for b in s[1]))
            groups.append(1)
        elif s[0] == "g":
            axes += list(ga[p])
            groups.append(len(ga[p]))
        p += 1
    return axes, groups


def _gather(t, sel):
    axes, groups = _resolve_axes(t, sel)
    tax = t.axes
    blocks = {}
    ga = t.gaxes()
    for bk, e in t.blocks.items():
        p = 0      # sub axis position
        newb = []
        ok = True
        slot = 0
        imap = {}
        ns = 0
        alts = [[]]
        for s in sel:
            if s[0] == "n":
                newb.append([0])
                continue
            if s[0] == "g":
                # find group length
                gi = p
                ln = None
                # number of sub axes in this group
                q = 0
                for g in t.groups:
                    if q == p:
                        ln = g
                        break
                    q += g
                for r in range(ln):
                    newb.append([bk[p]])
                    if tax[p][bk[p]] is not U:
                        imap[slot] = ns
                        ns += 1
                        slot += 1
                    p += 1
                continue
            b = bk[p]
            if s[0] == "s":
                pos = [k for k, x in enumerate(s[1]) if x == b]
                if not pos:
                    ok = False
                    break
                newb.append(pos)
                if tax[p][b] is not U:
                    imap[slot] = ns
                    ns += 1
                    slot += 1
            elif s[0] == "i":
                if b != s[1]:
                    ok = False
                    break
                if tax[p][b] is not U:
                    imap[slot] = s[2]
                    slot += 1
            p += 1
        if not ok:
            continue
        e2 = e_map(e, imap)
        for nb in itertools.product(*newb):
            blocks[nb] = e2
    return SymTensor(axes, blocks, groups, t._dtype)


def _scatter(t, sel, val):
    """Inverse of gather: tensor of t's axes containing val at the selected places (zero elsewhere).
    Indexed params produce deltas."""
    tax = t.axes
    blocks = {}
    # iterate over all blocks of val
    for vb, e in val.blocks.items():
        p = 0
        q = 0
        bk = []
        imap = {}
        deltas = []
        vs = 0
        ns = 0
        vax = val.axes
        for s in sel:
            if s[0] == "n":
                q += 1
                continue
            if s[0] == "g":
                qq = 0
                for g in t.groups:
                    if qq == p:
                        ln = g
                        break
                    qq += g
                for r in range(ln):
                    bk.append(vb[q])
                    if vax[q][vb[q]] is not U:
                        imap[vs] = ns
                        vs += 1
                        ns += 1
                    q += 1
                    p += 1
                continue
            if s[0] == "s":
                b = s[1][vb[q]]
                bk.append(b)
                if tax[p][b] is not U:
                    imap[vs] = ns
                    vs += 1
                    ns += 1
                q += 1
            else:
                bk.append(s[1])
                if tax[p][s[1]] is not U:
                    deltas.append((DELTA, False, (ns, s[2])))
                    ns += 1
            p += 1
        e2 = e_map(e, imap)
        if deltas:
            out = {}
            for key, cf in e2.items():
                fac, dsp = key_parts(key)
                add_term(out, cf, fac + deltas, dsp)
            e2 = out
        bk = tuple(bk)
        blocks[bk] = e_add(blocks[bk], e2) if bk in blocks else e2
    return SymTensor(tax, blocks, t.groups, val._dtype)


def getitem(t, key):
    if isinstance(key, tuple) and isinstance(key, DiagIdx):
        return _diag_view(t, key)
    if key == () if isinstance(key, tuple) else False:
        return t
    try:
        for k, x in enumerate(key if isinstance(key, tuple) else (key,)):
            if x is None or x is Ellipsis or not isinstance(x, (slice, list, np.ndarray)):
                break
            if k < t.ndim and t.groups[k] > 1 and not (isinstance(x, slice) and x == slice(None)):
                t = _readonly(flatten(t, k))
        sel = parse_key(t, key)
    except ConcreteIndex:
        return _pick_read(t, key)
    fancy = any(s[0] == "s" and len(s) == 3 for s in sel)
    if fancy:
        return _gather(t, sel)
    axes, groups = _resolve_axes(t, sel)
    r = SymTensor(axes, {}, groups, t._dtype)
    base = t

    def getter():
        return _gather(base, sel)

    def adder(v, o, s):
        o = broadcast_like(o, v)
        d = _scatter(base, sel, o)
        base_add(base, d, s, sel)

    def setter(v, val):
        setitem(base, key, val)

    r.view = (base, getter, adder, setter)
    r.just_added = False
    return r


def base_add(base, d, s, sel):
    base._inplace_add(d, s)


def _repart_zero(t, sel_axes):
    return t


def setitem(t, key, val):
    if type(val) is SymTensor and val.view is not None and val.view[0] is t and getattr(val, "_added", None) is not None:
        pass
    if isinstance(key, tuple) and isinstance(key, DiagIdx):
        return _diag_view(t, key)._set(val)
    if type(val) is SymTensor and val.view is not None and val.view[0] is t:
        # T[key] += X  ->  getitem, iadd (already written through), setitem of the same view
        try:
            same = _same_sel(parse_key(t, key), val)
        except ToolLimit:
            same = False
        if same:
            return
    _auto_cut(t, key)
    sel = parse_key(t, key)
    cur_view = getitem(t, key)
    lp = outer_loops(t if t.view is None else t)
    val = lift(val).copy() if type(val) is SymTensor else lift(val)
    if t._dtype.kind != "c" and val._dtype.kind == "c" and val.blocks:
        raise ToolLimit("complex value stored in a real array")
    root = t
    if lp:
        params = {s[2] for s in sel if s[0] == "i" and s[2]}
        if not all(l.name in params for l in lp):
            raise ToolLimit("overwriting an outer array in a symbolic loop without the loop index")
        if t.view is not None:
            raise ToolLimit("loop assignment through a view")
        if t.dirty is not None and t.dirty[0] in [l.name for l in lp] and t.dirty[1] != repr(
                [(s[0], s[1:]) for s in sel if s[0] == "i"]):
            raise ToolLimit("conflicting writes in a symbolic loop")
        check_not_read(t, lp)
        t.dirty = None
        old = _gather(t, sel)
        t.readin = None
        v = expand(val, _view_gaxes(old, val)) if val.ndim else broadcast_like(val, old)
        delta = add(v, old, -1)
        d = _scatter(t, sel, delta)
        d = sum_params(d, lp)
        t._assign(_raw_add(t, d))
        t.dirty = (lp[-1].name, repr([(s[0], s[1:]) for s in sel if s[0] == "i"]))
        return
    # no loop: direct overwrite
    if t.view is not None:
        # write through: t_new = t with region replaced
        old = t.data()
        new = _overwrite(old, sel, val)
        t._inplace_set(new)
        return
    t.blocks
    new = _overwrite(t, sel, val)
    t._assign(new)


def _view_gaxes(old, val):
    return old.gaxes()


def _same_sel(sel, view):
    # compare output axes and selectors captured in the getter closure
    g = view.view[1]
    try:
        cells = dict(zip(g.__code__.co_freevars, [c.cell_contents for c in g.__closure__]))
    except Exception:
        return False
    return cells.get("sel") == sel


def _auto_cut(t, key):
    """An all-zero array may adopt a finer partition needed by the slice bounds."""
    return


def _overwrite(t, sel, val):
    if any(s[0] == "i" and s[2] for s in sel):
        # parametrised write outside of its loop for local arrays: T[i] = X inside the loop on inner array
        old = _gather(t, sel)
        v = broadcast_like(val, old)
        d = _scatter(t, sel, add(v, old, -1))
        return _raw_add(SymTensor(t.axes, t.blocks, t.groups, t._dtype), d)
    axes, groups = _resolve_axes(t, sel)
    shell = SymTensor(axes, {}, groups, t._dtype)
    # remove the selected region
    tax = t.axes
    blocks = {}
    for bk, e in t.blocks.items():
        p = 0
        inside = True
        for s in sel:
            if s[0] == "n":
                continue
            if s[0] == "g":
                q = 0
                for g in t.groups:
                    if q == p:
                        ln = g
                        break
                    q += g
                p += ln
                continue
            if s[0] == "s" and bk[p] not in s[1]:
                inside = False
                break
            if s[0] == "i" and bk[p] != s[1]:
                inside = False
                break
            p += 1
        if not inside:
            blocks[bk] = e
    v = _bcast_assign(val, shell)
    d = _scatter(t, sel, v)
    return _raw_add(SymTensor(t.axes, blocks, t.groups, t._dtype), d)


def _bcast_assign(val, shell):
    val = lift(val)
    # numpy allows dropping leading unit axes of val
    while val.ndim > shell.ndim and tuple(val.gaxes()[0]) == ((U,),):
        val = val[0]
    vg, sg = val.gaxes(), shell.gaxes()
    off = shell.ndim - val.ndim
    if off < 0:
        raise ValueError("could not broadcast")
    for k in range(len(vg)):
        x, y = vg[k], sg[off + k]
        if val.blocks and tuple(x) != tuple(y) and same_int(_gsize(x), _gsize(y)):
            if len(x) > 1 and len(y) == 1:
                val = flatten(val, k)
            elif len(x) == 1 and len(y) > 1:
                val = unflatten(val, k, y)
    vg = val.gaxes()
    for k, x in enumerate(vg):
        y = sg[off + k]
        if tuple(x) == tuple(y) or tuple(x) == ((U,),):
            continue
        if _cannot_equal(_gsize(x), _gsize(y)):
            raise ValueError("could not broadcast input array from shape %r into shape %r" % (val.shape, shell.shape))
        if val.blocks:
            raise ToolLimit("assignment with different block structure: %r <- %r" % (y, x))
    return expand(val, sg)


class _DiagView:
    """T[np.diag_indices(n)]: numpy returns a copy, the write happens in __setitem__."""


def _diag_view(t, key):
    ax = t.axes
    if t.ndim != key.nd or any(a != ax[0] for a in ax) or any(g != 1 for g in t.groups):
        if t.ndim != key.nd:
            raise ToolLimit("diag indices of a partial tensor")
    sel = []
    for a in ax:
        sel.append(_slice_blocks(a, slice(0, key.n)))
    b0 = [tuple(a[k] for k in s) for a, s in zip(ax, sel)]
    if any(b != b0[0] for b in b0):
        raise ToolLimit("diag over different partitions")

    sub = t
    for k in range(len(ax)):
        pass
    block = getitem(t, tuple(slice(0, key.n) for _ in ax))
    d = einsum("i" * key.nd + "->i", block.data())
    d = d.copy()
    d.view = None

    base = t

    def _set(val):
        cur_d = einsum("i" * key.nd + "->i", getitem(base, tuple(slice(0, key.n) for _ in ax)).data())
        delta = add(broadcast_like(lift(val), cur_d), cur_d, -1)
        letters = "i" + "".join("ij" for _ in ())
        # scatter on the diagonal: delta_i * prod_k delta(i, k)
        e = eye(key.n, axis=b0[0])
        out = delta
        lets = "i"
        for k in range(1, key.nd):
            out = einsum("%s,i%s->%s%s" % (lets, LET[20 + k], lets, LET[20 + k]), out, e) if False else out
        if key.nd == 2:
            full = einsum("i,ij->ij", delta, e)
        elif key.nd == 3:
            full = einsum("i,ij,ik->ijk", delta, e, e)
        else:
            full = einsum("i,ij,ik,il->ijkl", delta, e, e, e)
        v = getitem(base, tuple(slice(0, key.n) for _ in ax))
        v._inplace_add(full, 1)

    d._set = _set
    return d


# ---------------------------------------------------------------- opaque functions
def reciprocal(x):
    if isinstance(x, (int, float, complex, Fraction, np.number)):
        r = number_terms(x)
        if len(r) == 1 and r[0][1] == ():
            c = r[0][0]
            if c == 0:
                raise ZeroDivisionError
            return scalar_terms([(1 / c if isinstance(c, Fraction) else GQ(1) / c, ())],
                                np.complex128 if isinstance(c, GQ) else np.float64)
    t = lift(x)
    blocks = {}
    for bk in itertools.product(*[range(len(a)) for a in t.axes]):
        e = t.blocks.get(bk, {})
        if not e:
            raise ToolLimit("division by a zero block")
        blocks[bk] = e_recip(e, nslots(t.axes, bk))
    return SymTensor(t.axes, blocks, t.groups, t._dtype)


def e_recip(e, n):
    if len(e) == 1:
        (key, c), = e.items()
        fac, dsp = key
        if not dsp and all(f[0] != DELTA for f in fac):
            out = {}
            f2 = []
            for nm, cj, idx in fac:
                if nm.startswith("sqrt:"):
                    r = Fraction(nm[5:])
                    c = c * r
                    f2.append((nm, cj, idx))
                elif nm.startswith("1/"):
                    f2.append((nm[2:], cj, idx))
                else:
                    f2.append(("1/" + nm, cj, idx))
            add_term(out, (1 / c) if isinstance(c, Fraction) else GQ(1) / c, f2, {})
            return out
    return e_opaque("recip", e, n, odd=True)


def e_opaque(fname, e, n, odd=False, even=False):
    """Elementwise uninterpreted function of an expression with n free slots."""
    c = sc()
    sign = Fraction(1)
    used = sorted({i for (fac, _) in e for _, _, idx in fac for i in idx if isinstance(i, int) and i >= 0})
    if len(used) > 6:
        raise ToolLimit("opaque function of too many indices")

    def ser(x):
        return repr(sorted(((repr(k), ckey(v)) for k, v in x.items())))

    best = None
    perms = []
    cand = []
    for sg in ((1, -1) if (odd or even) else (1,)):
        for perm in itertools.permutations(range(len(used))):
            imap = {u: perm[k] for k, u in enumerate(used)}
            x = e_map(e, imap)
            if sg == -1:
                x = e_scale(x, Fraction(-1))
            cand.append((ser(x), sg, perm))
    cand.sort()
    key = cand[0][0]
    sgn = cand[0][1]
    # spaces of slots must be part of the identity: they are implied by the atoms
    full = fname + ":" + key
    if full not in c.funcs:
        c.nfun += 1
        name = "fn:%s#%d" % (fname, c.nfun)
        c.funcs[full] = name
        # symmetries: perms giving the same key with the same sign
        same = [p for k, s, p in cand if k == key and s == sgn]
        base = same[0]
        syms = []
        for p in same:
            # idx order for base: position base[k] <- used[k]
            inv = [0] * len(p)
            for k2, x in enumerate(base):
                inv[x] = k2
            # perm q such that idx_p = idx_base permuted
            q = tuple(p[inv[k2]] for k2 in range(len(p)))
            syms.append((tuple(int(z) for z in np.argsort(q)), 1, False))
        anti = any(k == key and s == -sgn for k, s, p in cand)
        real = all(c.atoms.get(f[0], {"real": True})["real"] for (fac, _) in e for f in fac) and not any(
            isinstance(v, GQ) for v in e.values())
        c.atoms[name] = dict(sym=syms if len(syms) > 1 else None, real=real, spaces=None)
    name = c.funcs[full]
    perm = cand[0][2]
    idx = [None] * len(used)
    for k, u in enumerate(used):
        idx[perm[k]] = u
    out = {}
    add_term(out, Fraction(sgn) if odd else Fraction(1), [(name, False, tuple(idx))], {})
    return out


def opaque(fname, t):
    t = lift(t)
    odd = fname in ("recip", "sin", "tanh", "arctan")
    even = fname in ("abs", "cos")
    zero_ok = fname in ("sqrt", "abs", "sin", "tanh")
    blocks = {}
    for bk in itertools.product(*[range(len(a)) for a in t.axes]):
        e = t.blocks.get(bk, {})
        if not e and zero_ok:
            continue
        blocks[bk] = e_opaque(fname, e, nslots(t.axes, bk), odd=odd, even=even)
    return SymTensor(t.axes, blocks, t.groups, t._dtype if fname != "abs" else np.float64)


# SymInt <op> float falls back to scalar tensors
def _int_fallback(a, b, op):
    if op in ("truediv", "rtruediv") and isinstance(b, (int, SymInt)) or isinstance(
            b, (float, complex, np.number, Fraction)) or type(b) is SymTensor:
        la, lb = lift(a), lift(b)
        return {"add": lambda: la + lb, "sub": lambda: la - lb, "mul": lambda: la * lb,
                "truediv": lambda: la / lb, "rtruediv": lambda: lb / la}[op]()
    return NotImplemented


symint._FALLBACK.append(_int_fallback)


# ---------------------------------------------------------------- equality
def tensors_equal(a, b):
    """Exact equality of two tensors (normal forms). Returns (bool, explanation)."""
    a, b = lift(a), lift(b)
    check_params(a)
    check_params(b)
    if a.ndim != b.ndim:
        return False, "ndim %d != %d" % (a.ndim, b.ndim)
    a, b = _unify([a, b])
    for k, (x, y) in enumerate(zip(a.gaxes(), b.gaxes())):
        if tuple(x) != tuple(y):
            if not same_int(_gsize(x), _gsize(y)):
                return False, "shape mismatch on axis %d: %r vs %r" % (k, a.shape, b.shape)
            if a.blocks and b.blocks:
                raise ToolLimit("comparison across different partitions %r %r" % (x, y))
    keys = set(a.blocks) | set(b.blocks)
    for k in sorted(keys):
        d = e_add(a.blocks.get(k, {}), b.blocks.get(k, {}), -1)
        if d:
            d = e_renorm(d)
        if d:
            if a.ndim == 0 or all(f[2] == () for (fac, _) in d for f in fac):
                try:
                    z = e_z3(d)
                    if cur().implied(z == 0):
                        continue
                except ToolLimit:
                    pass
            return False, "block %s differs by %s" % (tuple(a.axes[p][b_] for p, b_ in enumerate(k)), e_str(d))
    return True, ""
