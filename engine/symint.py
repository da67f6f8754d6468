"""Symbolic integers / booleans / paths.

Integers are mathematical (unbounded).  Every decision that Python control flow
takes on a symbolic value goes through ``Paths.decide``: z3 is asked whether the
condition is implied / refuted by the path condition; if neither, the path is
forked (re-execution with a decision prefix), so that *all* feasible paths of the
real function body are executed.
"""
import time
from fractions import Fraction

import z3


class ToolLimit(Exception):
    """The construct is outside the verified subset.  Never a violation."""


class PathInfeasible(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


STATS = Stats()


class Paths:
    """Path exploration state of the current symbolic run."""

    current = None

    def __init__(self, max_paths=64, timeout_ms=5000):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.prefix = []
        self.reset_run()

    def reset_run(self):
        self.decisions = []   # list of [cond, value, both_feasible]
        self.base = []        # assumptions (preconditions)
        self.forks = []

    def assumptions(self):
        return self.base + [c if v else z3.Not(c) for (c, v, _) in self.decisions]

    def check(self, extra):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*self.assumptions())
        s.add(*extra)
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r, s

    def assume(self, cond):
        self.base.append(cond)

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        rt, _ = self.check([cond])
        if rt == z3.unsat:
            return False
        rf, _ = self.check([z3.Not(cond)])
        if rf == z3.unsat:
            return True
        if rt == z3.unknown or rf == z3.unknown:
            raise ToolLimit("solver gave unknown on branch condition %s" % cond)
        k = len(self.decisions)
        if k < len(self.prefix):
            val = self.prefix[k]
        else:
            val = True
        self.decisions.append((cond, val, True))
        return val

    def implied(self, cond):
        """True if cond is implied by path condition (no fork)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        r, _ = self.check([z3.Not(cond)])
        return r == z3.unsat

    def model(self, extra=()):
        r, s = self.check(list(extra))
        if r == z3.sat:
            return s.model()
        return None

    def explore(self, func):
        """Run func() over all feasible paths; yields (decisions, result or exception)."""
        stack = [[]]
        n = 0
        while stack:
            self.prefix = stack.pop()
            self.reset_run()
            n += 1
            if n > self.max_paths:
                raise ToolLimit("more than %d paths" % self.max_paths)
            old = Paths.current
            Paths.current = self
            try:
                func()
            finally:
                Paths.current = old
            for k in range(len(self.prefix), len(self.decisions)):
                stack.append([d[1] for d in self.decisions[:k]] + [not self.decisions[k][1]])
        return n


def cur():
    if Paths.current is None:
        raise ToolLimit("symbolic value used outside a symbolic run")
    return Paths.current


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        return SymBool(self.e == zb(o))

    def __ne__(self, o):
        return SymBool(self.e != zb(o))

    __hash__ = None

    def all(self):
        return self

    def any(self):
        return self


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def _mono_mul(a, b):
    return tuple(sorted(a + b))


class SymInt:
    """Polynomial with integer coefficients over integer variables."""

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = {k: v for k, v in p.items() if v != 0}

    @staticmethod
    def var(name):
        return SymInt({(name,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        import numpy as _np
        if isinstance(x, bool):
            return SymInt({(): int(x)})
        if isinstance(x, (int, _np.integer)):
            return SymInt({(): int(x)})
        if isinstance(x, (float, _np.floating)) and float(x).is_integer():
            return SymInt({(): int(x)})
        raise ToolLimit("not an integer: %r" % (x,))

    def isconst(self):
        return all(k == () for k in self.p)

    def const(self):
        return self.p.get((), 0)

    def norm(self):
        """Return a python int when constant."""
        if self.isconst():
            return self.const()
        return self

    def z(self):
        e = z3.IntVal(self.p.get((), 0))
        for k, v in sorted(self.p.items()):
            if k == ():
                continue
            t = z3.IntVal(v)
            for n in k:
                t = t * z3.Int(n)
            e = e + t
        return e

    def _bin(self, o, f):
        try:
            o = SymInt.of(o)
        except ToolLimit:
            return NotImplemented
        return f(o)

    def __add__(self, o):
        if isinstance(o, (float, complex)) or not isinstance(o, (int, SymInt)):
            return _fallback(self, o, "add")
        o = SymInt.of(o)
        p = dict(self.p)
        for k, v in o.p.items():
            p[k] = p.get(k, 0) + v
        return SymInt(p).norm()

    __radd__ = __add__

    def __neg__(self):
        return SymInt({k: -v for k, v in self.p.items()}).norm()

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (int, SymInt)):
            return self + (-SymInt.of(o) if not isinstance(-SymInt.of(o), int) else -SymInt.of(o))
        return _fallback(self, o, "sub")

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, list):
            from .symt import SymList
            return SymList([(self, o)])
        if not isinstance(o, (int, SymInt)):
            return _fallback(self, o, "mul")
        o = SymInt.of(o)
        p = {}
        for k1, v1 in self.p.items():
            for k2, v2 in o.p.items():
                k = _mono_mul(k1, k2)
                p[k] = p.get(k, 0) + v1 * v2
        return SymInt(p).norm()

    __rmul__ = __mul__

    def __truediv__(self, o):
        return _fallback(self, o, "truediv")

    def __rtruediv__(self, o):
        return _fallback(self, o, "rtruediv")

    def __pow__(self, n):
        if not isinstance(n, int) or n < 0:
            raise ToolLimit("pow")
        r = SymInt.of(1)
        for _ in range(n):
            r = SymInt.of(self * r)
        return r.norm()

    def _divmod(self, o):
        o = SymInt.of(o)
        # polynomial exact division by constant
        if o.isconst() and o.const() != 0 and all(v % o.const() == 0 for v in self.p.values()):
            return SymInt({k: v // o.const() for k, v in self.p.items()}).norm(), 0
        key = "div{%s}{%s}" % (self.key(), o.key())
        q, r = SymInt.var("q_" + key), SymInt.var("r_" + key)
        c = cur()
        c.assume(z3.Implies(o.z() > 0, z3.And(q.z() * o.z() + r.z() == self.z(), r.z() >= 0, r.z() < o.z())))
        return q, r

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __rfloordiv__(self, o):
        return SymInt.of(o)._divmod(self)[0]

    def __rmod__(self, o):
        return SymInt.of(o)._divmod(self)[1]

    def key(self):
        return repr(sorted(self.p.items()))

    def __hash__(self):
        return hash(self.key())

    def _cmp(self, o, op):
        if isinstance(o, (float, Fraction)):
            a = z3.ToReal(self.z())
            b = z3.RealVal(str(Fraction(o)))
        else:
            try:
                o = SymInt.of(o)
            except ToolLimit:
                if op == "eq":
                    return False
                if op == "ne":
                    return True
                raise
            if self.p == o.p:
                return op in ("eq", "le", "ge")
            a, b = self.z(), o.z()
        e = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        return SymBool(e)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        raise ToolLimit("symbolic integer used as a concrete index")

    __int__ = __index__

    def __float__(self):
        raise ToolLimit("symbolic integer used as a float")

    def __repr__(self):
        return "SymInt(%s)" % " + ".join("%s%s" % (v, "*" + "*".join(k) if k else "") for k, v in sorted(self.p.items()))


_FALLBACK = []


def _fallback(a, b, op):
    """Arithmetic with non-integers: handled by the tensor layer (dimension scalars)."""
    for f in _FALLBACK:
        r = f(a, b, op)
        if r is not NotImplemented:
            return r
    return NotImplemented


def same_int(a, b):
    """Decide a == b under the current path condition without forking."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = SymInt.of(a), SymInt.of(b)
    if a.p == b.p:
        return True
    return cur().implied(a.z() == b.z())


def implied_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return cur().implied(SymInt.of(a).z() <= SymInt.of(b).z())
