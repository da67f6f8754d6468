"""Contracts and their two interpreters.

A contract is a Python function  body(c, **case)  that declares its inputs through ``c`` (the
precondition), calls the real function(s) of /repo, and states postconditions with ``c.eq`` /
``c.true``.  It is run

* symbolically (``SymC``): dimensions are symbolic, tensor entries uninterpreted, every feasible
  path of the real body is executed; each postcondition is an obligation that is discharged by the
  normal-form / rewriting prover and z3 for *all* dimensions and entries;
* concretely (``NumC``): the same text on random NumPy inputs, against the unpatched real code.
  Used to cross-check the engine, to replay refutations, and as the labelled *bounded* stand-in
  for functions that are outside the engine's subset.
"""
import copy
import functools
import hashlib
import inspect
import itertools
import json
import math
import os
import sys
import time
import traceback
import types

import numpy as np
import z3

from . import snp, symt, symint
from .symint import Paths, SymBool, SymInt, ToolLimit, STATS
from .symt import SymTensor, SymCtx, U

REGISTRY = {}


class Skip(Exception):
    """Precondition not met by this concrete instance."""


class StubMissing(AttributeError):
    """Code under test used something of a stub which the contract does not model."""


def _guarded(fn):
    sig = inspect.signature(fn)

    @functools.wraps(fn)
    def f(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise StubMissing("stub call %s: %s" % (getattr(fn, "__name__", "?"), e))
        return fn(*a, **k)
    return f


class Stub:
    """Environment stub: attributes given explicitly; anything else is outside the modelled environment."""

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __setattr__(self, k, v):
        # A call with arguments that the stub does not model is outside the modelled environment as well
        if isinstance(v, types.FunctionType):
            v = _guarded(v)
        self.__dict__[k] = v

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise StubMissing("stub has no attribute %r" % name)


class NullLog:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    def indent(self, *a, **k):
        import contextlib
        return contextlib.nullcontext()


class Contract:
    def __init__(self, prop, cid, body, functions, cases, sym, modules, n, note, bounded, thorough_cases, nthorough, tol,
                 maxpaths, timeout, opaque_minmax=False):
        self.opaque_minmax = opaque_minmax
        self.prop, self.cid, self.body = prop, cid, body
        self.functions = functions
        self.cases = cases
        self.thorough_cases = thorough_cases or []
        self.sym = sym
        self.modules = modules
        self.n = n
        self.nthorough = nthorough
        self.note = note
        self.bounded = bounded
        self.tol = tol
        self.maxpaths = maxpaths
        self.timeout = timeout


def contract(prop, cid, functions, cases=None, sym=True, modules=(), n=4, nthorough=None, note="", bounded="",
             thorough_cases=None, tol=1e-8, maxpaths=64, timeout=240, opaque_minmax=False):
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(body):
        for p in props:
            key = "%s.%s" % (p, cid)
            if key in REGISTRY:
                raise RuntimeError("duplicate contract %s" % key)
            REGISTRY[key] = Contract(p, cid, body, list(functions), list(cases or [{}]), sym, tuple(modules), n, note,
                                     bounded, thorough_cases, nthorough or 6 * n, tol, maxpaths, timeout, opaque_minmax)
        return body
    return deco


def product_cases(exclude=None, **kw):
    keys = list(kw)
    cases = [dict(zip(keys, v)) for v in itertools.product(*kw.values())]
    return [k for k in cases if exclude is None or not exclude(**k)]


# ------------------------------------------------------------------ common
class Base:
    symbolic = False

    def __init__(self):
        self.obl = []     # (label, status, detail)
        self.inputs = []  # (name, tensor, copy at declaration)

    def record(self, label, status, detail=""):
        self.obl.append((label, status, detail))

    # --- frame condition: declared inputs are not written to, unless listed with `modifies`
    def _input(self, name, t):
        self.inputs.append((name, t, t.copy()))
        return t

    def modifies(self, *ts):
        """These inputs may be written to (tuples, and dictionaries of tensors, allowed); the rest is the frame."""
        ids = set()

        def walk(x):
            if isinstance(x, dict):
                x = list(x.values())
            if isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
            else:
                ids.add(id(x))
        walk(ts)
        self.inputs = [x for x in self.inputs if id(x[1]) not in ids]

    def redeclare(self, t):
        """The contract itself has adjusted this input."""
        self.inputs = [(n, x, x.copy() if x is t else old) for n, x, old in self.inputs]

    def check_frame(self):
        if not self.inputs:
            return
        bad = [n for n, t, old in self.inputs if not self._unchanged(t, old)]
        self.record("frame: inputs unchanged", "refuted" if bad else "proved", "modified: " + ", ".join(bad) if bad else "")

    def snapshot(self, x):
        if isinstance(x, (tuple, list)):
            return type(x)(self.snapshot(y) for y in x)
        if x is None or isinstance(x, (int, float, str, SymInt)):
            return x
        return x.copy()

    def ns(self, **kw):
        return Stub(**kw)

    log = NullLog()


# ------------------------------------------------------------------ symbolic
class SymC(Base):
    symbolic = True

    def __init__(self, paths):
        super().__init__()
        self.paths = paths
        self.ctx = SymCtx()
        SymCtx.current = self.ctx

    # --- inputs
    def dim(self, name, min=1, max=4):
        if name in self.ctx.spaces:
            return self.ctx.spaces[name]
        v = SymInt.var(name)
        self.ctx.spaces[name] = v
        self.ctx.order.append(name)
        self.paths.assume(v.z() >= min)
        return v

    def axis(self, *dims):
        """Declare that the axis of this total size is partitioned in this order."""
        tot = 0
        blocks = ()
        for d in dims:
            tot = d + tot if not isinstance(tot, int) or tot else d
            blocks += symt.default_axis(d)
        if isinstance(tot, SymInt):
            self.ctx.axes[tot.key()] = blocks
        return tot

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.paths.assume(cond.e)
        elif not cond:
            raise Skip()

    def assume_le(self, a, b):
        self.assume(a <= b)

    def tensor(self, name, shape, sym=None, dtype="f", **kw):
        axes = tuple(symt.default_axis(s) for s in shape)
        real = dtype != "c"
        blocks = {}
        group = _group(sym, len(shape)) if sym else None
        for bk in itertools.product(*[range(len(a)) for a in axes]):
            sp = [axes[p][b] for p, b in enumerate(bk)]
            if group:
                # orbit representative of the block tuple
                orb = []
                for perm, sign, conj in group:
                    orb.append((tuple(bk[q] for q in perm), perm, sign, conj))
                rep = min(orb)[0]
                perm, sign, conj = [(p_, s_, c_) for b_, p_, s_, c_ in orb if b_ == rep][0]
            else:
                rep, perm, sign, conj = bk, tuple(range(len(bk))), 1, False
            aname = name if all(len(a) == 1 for a in axes) else "%s{%s}" % (name, ",".join(map(str, rep)))
            if aname not in self.ctx.atoms:
                st = None
                if group:
                    # stabiliser of rep, acting on non-unit slots
                    pos = [p for p in range(len(rep)) if axes[p][rep[p]] is not U]
                    st = []
                    for g, s, cj in group:
                        if tuple(rep[q] for q in g) == rep:
                            red = tuple(pos.index(g[p]) for p in pos)
                            st.append((red, s, cj and not real))
                    if any(r == tuple(range(len(pos))) and s == -1 and not cj for r, s, cj in st):
                        st = "zero"
                self.ctx.atoms[aname] = dict(sym=st, real=real, spaces=sp)
            st = self.ctx.atoms[aname]["sym"]
            if st == "zero":
                continue
            # value at bk: T[bk idx] = sign * conj? T[rep idx], rep idx = idx[perm]
            slots = {}
            s = 0
            for p, b in enumerate(bk):
                if axes[p][b] is not U:
                    slots[p] = s
                    s += 1
            idx = tuple(slots[q] for q in perm if q in slots)
            e = {}
            symt.add_term(e, symt.Fraction(sign), [(aname, bool(conj) and not real, idx)], {})
            blocks[bk] = e
        return self._input(name, SymTensor(axes, blocks, dtype=np.complex128 if dtype == "c" else np.float64))

    def _unchanged(self, t, old):
        if t._axes == old._axes and t.data().blocks == old.blocks:
            return True
        return symt.tensors_equal(t, old)[0]

    def scalar(self, name, nonzero=False, positive=False, dtype="f", lo=None, hi=None):
        self.ctx.atoms[name] = dict(sym=None, real=dtype != "c", spaces=[])
        if dtype != "c":
            r = z3.Real(name)
            if nonzero:
                self.paths.assume(r != 0)
            if positive:
                self.paths.assume(r > 0)
            if lo is not None:
                self.paths.assume(r >= lo)
            if hi is not None:
                self.paths.assume(r <= hi)
        return symt.scalar_terms([(symt.Fraction(1), ((name, False, ()),))], np.complex128 if dtype == "c" else float)

    def isometry(self, name, m, n, dtype="f"):
        """m x n matrix Q with Q^H Q = 1."""
        q = self.tensor(name, (m, n), dtype=dtype)
        self.rule_gram(q, None)
        self.assume(n <= m)
        return q

    def unitary(self, name, n, dtype="f"):
        q = self.tensor(name, (n, n), dtype=dtype)
        self.rule_gram(q, None)
        self.rule_gram(q.T, None)
        return q

    def spd(self, name, n):
        return self.tensor(name, (n, n), sym=[((1, 0), 1)])

    def ortho_mo(self, name, ovlp, shape):
        """MO coefficients with C^T S C = 1."""
        q = self.tensor(name, shape)
        self.rule_gram(q, ovlp)
        return q

    def rule_gram(self, q, s):
        """Axiom: (conj q)_{m p} s_{m n} q_{n r} = delta_{p r}; s=None: identity.  Applied as a rewrite rule.
        A contraction over the row axis is a sum over its blocks, hence only single-block row axes are supported."""
        rows = q.axes[0]
        if len(rows) != 1:
            raise ToolLimit("gram rule over a partitioned row axis")
        for j in range(len(q.axes[1])):
            for k in range(len(q.axes[1])):
                bj, bk = q.blocks.get((0, j)), q.blocks.get((0, k))
                fj, fk = _single(bj), _single(bk)
                real = self.ctx.atoms[fj[0]]["real"]
                cj = not real

                def letters(f, row, col):
                    return tuple({0: row, 1: col}[i] for i in f[2])
                pat = [(fj[0], (not fj[1]) if cj else False, letters(fj, "m", "p"))]
                if s is None:
                    pat.append((fk[0], fk[1], letters(fk, "m", "r")))
                else:
                    fs = _single(s.blocks[(0, 0)])
                    pat.append((fs[0], False, letters2(fs, "m", "n")))
                    pat.append((fk[0], fk[1], letters(fk, "n", "r")))
                rhs = [(symt.Fraction(1), [(symt.DELTA, False, ("p", "r"))], {})] if j == k else []
                self.ctx.rules.append(dict(pat=(pat, {"p", "r"}), names=[p[0] for p in pat], rhs=rhs))

    def rule(self, lhs, free, rhs):
        """lhs: list of (tensor, letters) (single-block tensors); rhs: list of (coef, [(tensor, letters)], {dummy: dim})."""
        def conv(lst):
            out = []
            for t, ls in lst:
                if t == "delta":
                    out.append((symt.DELTA, False, tuple(ls)))
                    continue
                f = _single(next(iter(t.blocks.values())))
                out.append((f[0], f[1], tuple(ls[i] for i in f[2])))
            return out
        pat = conv(lhs)
        r = [(symt.Fraction(cf), conv(fs), {k: symt.default_axis(v)[0] for k, v in ds.items()}) for cf, fs, ds in rhs]
        self.ctx.rules.append(dict(pat=(pat, set(free)), names=[p[0] for p in pat], rhs=r))

    def fragment_family(self, n):
        """Symbolic family index set (e.g. fragments); iterating executes the loop body for a generic member."""
        return symt.srange(n)

    # --- postconditions
    def eq(self, label, a, b):
        self._eq(label, a, b)

    def _eq(self, label, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.record(label, "refuted", "length %d != %d" % (len(a), len(b)))
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self._eq("%s[%d]" % (label, k), x, y)
            return
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            self.record(label, "proved" if a is b or (type(a) == type(b) and a == b) else "refuted",
                        "%r vs %r" % (type(a), type(b)))
            return
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            ok = symint.same_int(a, b)
            self.record(label, "proved" if ok else "refuted", "" if ok else "%r != %r" % (a, b))
            return
        try:
            ok, why = symt.tensors_equal(a, b)
        except ToolLimit as e:
            self.record(label, "limit", str(e))
            return
        except ValueError as e:
            self.record(label, "refuted", str(e))
            return
        self.record(label, "proved" if ok else "refuted", why)

    def true(self, label, cond, detail=""):
        if isinstance(cond, SymBool):
            ok = self.paths.implied(cond.e)
            self.record(label, "proved" if ok else "refuted", "" if ok else str(cond.e))
        else:
            self.record(label, "proved" if cond else "refuted", "" if cond else str(detail))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.record(label, "proved")
        except ToolLimit as e:
            self.record(label, "limit", str(e))
        else:
            self.record(label, "refuted", "no exception")

    # --- helpers usable in specs (dispatching)
    @property
    def np(self):
        return snp.SNP

    def einsum(self, s, *ops):
        return symt.einsum(s, *ops)

    def eye(self, n):
        return symt.eye(n)

    def zeros(self, *shape):
        return symt.zeros(shape)


def letters2(f, a, b):
    return tuple({0: a, 1: b}[i] for i in f[2])


def _single(e):
    if e is None or len(e) != 1:
        raise ToolLimit("rule on a non-atomic block")
    (key, c), = e.items()
    if c != 1 or len(key[0]) != 1:
        raise ToolLimit("rule on a non-atomic block")
    return key[0][0]


def _group(gens, n):
    """Close a set of generators (perm, sign[, conj]) -> list."""
    gens = [(tuple(g[0]), g[1], bool(g[2]) if len(g) > 2 else False) for g in gens]
    ident = (tuple(range(n)), 1, False)
    seen = {ident}
    todo = [ident]
    while todo:
        p, s, c = todo.pop()
        for q, t, d in gens:
            r = (tuple(p[k] for k in q), s * t, c != d)
            if r not in seen:
                seen.add(r)
                todo.append(r)
    return sorted(seen)


# ------------------------------------------------------------------ concrete
class NumC(Base):
    symbolic = False

    def __init__(self, seed, dims=None, scalars=None, tol=1e-8, mode="rand"):
        super().__init__()
        self.rng = np.random.default_rng(seed)
        self.fixed = dict(dims or {})
        self.fixed_scalars = dict(scalars or {})
        self.dims = {}
        self.tol = tol
        self.mode = mode

    def dim(self, name, min=1, max=4):
        if name in self.dims:
            return self.dims[name]
        if name in self.fixed:
            v = int(self.fixed[name])
            self.rng.integers(0, 2)
        elif self.mode == "min":
            v = min
            self.rng.integers(0, 2)
        else:
            v = int(self.rng.integers(min, max + 1))
        self.dims[name] = v
        return v

    def axis(self, *dims):
        return sum(dims)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def assume_le(self, a, b):
        self.assume(a <= b)

    def tensor(self, name, shape, sym=None, dtype="f", **kw):
        shape = tuple(int(s) for s in shape)
        x = self.rng.normal(size=shape)
        if dtype == "c":
            x = x + 1j * self.rng.normal(size=shape)
        if sym:
            g = _group(sym, len(shape))
            y = 0
            for perm, sign, conj in g:
                z = x.transpose(perm)
                y = y + sign * (z.conj() if conj else z)
            x = y / math.sqrt(len(g))
        return self._input(name, np.ascontiguousarray(x))

    def _unchanged(self, t, old):
        return t.shape == old.shape and np.array_equal(t, old)

    def scalar(self, name, nonzero=False, positive=False, dtype="f", lo=None, hi=None):
        if name in self.fixed_scalars:
            self.rng.normal()
            return float(self.fixed_scalars[name])
        x = self.rng.normal()
        x = (0.3 + abs(x)) * (1 if (positive or x > 0) else -1)
        if lo is not None and hi is not None:
            x = float(lo) + (float(hi) - float(lo)) * self.rng.random()
        elif lo is not None:
            x = float(lo) + abs(x)
        if dtype == "c":
            return complex(x, self.rng.normal())
        return float(x)

    def isometry(self, name, m, n, dtype="f"):
        if n > m:
            raise Skip()
        a = self.rng.normal(size=(m, m))
        if dtype == "c":
            a = a + 1j * self.rng.normal(size=(m, m))
        q = np.linalg.qr(a)[0]
        return self._input(name, np.ascontiguousarray(q[:, :n]))

    def unitary(self, name, n, dtype="f"):
        return self.isometry(name, n, n, dtype)

    def spd(self, name, n):
        a = self.rng.normal(size=(n, n))
        return self._input(name, np.eye(n) + 0.3 * (a @ a.T) / max(n, 1))

    def ortho_mo(self, name, ovlp, shape):
        m, n = shape
        if n > m:
            raise Skip()
        e, v = np.linalg.eigh(ovlp)
        q = np.linalg.qr(self.rng.normal(size=(m, m)))[0]
        return self._input(name, (v / np.sqrt(e)) @ v.T @ q[:, :n])

    def rule_gram(self, q, s):
        pass

    def rule(self, *a):
        pass

    def fragment_family(self, n):
        return range(n)

    # --- postconditions
    def eq(self, label, a, b):
        self._eq(label, a, b)

    def _eq(self, label, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.record(label, "refuted", "length %d != %d" % (len(a), len(b)))
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self._eq("%s[%d]" % (label, k), x, y)
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.record(label, "proved" if (a is b or a == b) else "refuted", "%r vs %r" % (a, b) if a != b else "")
            return
        try:
            x, y = np.asarray(a), np.asarray(b)
        except Exception as e:
            self.record(label, "refuted", "not arrays: %r" % e)
            return
        if x.shape != y.shape:
            self.record(label, "refuted", "shape %r != %r" % (x.shape, y.shape))
            return
        if x.dtype == object or y.dtype == object:
            ok = bool(np.all(x == y))
            self.record(label, "proved" if ok else "refuted", "objects differ" if not ok else "")
            return
        if x.size == 0:
            self.record(label, "proved")
            return
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            ok = bool(np.array_equal(x, y, equal_nan=False))
            self.record(label, "proved" if ok else "refuted", "non-finite values")
            return
        scale = max(1.0, float(np.max(np.abs(y))), float(np.max(np.abs(x))))
        err = float(np.max(np.abs(x - y)))
        ok = err <= self.tol * scale
        self.record(label, "proved" if ok else "refuted", "" if ok else "max abs difference %.6g (scale %.3g)" % (err, scale))

    def true(self, label, cond, detail=""):
        self.record(label, "proved" if bool(cond) else "refuted", "" if bool(cond) else str(detail))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.record(label, "proved")
        else:
            self.record(label, "refuted", "no exception")

    @property
    def np(self):
        return np

    def einsum(self, s, *ops):
        return np.einsum(s, *ops)

    def eye(self, n):
        return np.eye(n)

    def zeros(self, *shape):
        return np.zeros(shape)


# ------------------------------------------------------------------ running
def in_repo_frame(exc):
    """True if the exception was raised while executing a frame of /repo (or a library called from it)."""
    repo = os.environ.get("VERIF_REPO", "/repo")
    last_c, last_r = -1, -1
    k = 0
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(repo + "/vayesta"):
            last_r = k
        elif "/verif/contracts" in fn or "/contracts/" in fn:
            last_c = k
        k += 1
        tb = tb.tb_next
    return last_r > last_c


def run_symbolic(con, case):
    """Returns dict(obligations=[(path, label, status, detail)], limit=str or None, models=[...])."""
    paths = Paths(max_paths=con.maxpaths)
    res = []
    models = []
    limit = None
    npath = [0]
    t0 = time.time()

    def once():
        npath[0] += 1
        c = SymC(paths)
        try:
            con.body(c, **case)
            c.check_frame()
            if getattr(c.ctx, "broken", False):
                raise ToolLimit("early exit from a symbolic loop")
        except Skip:
            res.append((npath[0], "precondition", "skip", ""))
            return
        except ToolLimit as e:
            res.append((npath[0], "(path)", "limit", str(e)))
            _collect(c, True)
            return
        except StubMissing as e:
            res.append((npath[0], "(path)", "limit", str(e)))
            return
        except Exception as e:
            tbs = traceback.format_exc(limit=-4)
            res.append((npath[0], "(path)", "limit", "exception %s: %s | %s" % (type(e).__name__, e, tbs.replace("\n", " / ")[:600])))
            _model(c)
            return
        _collect(c, False)

    def _model(c, rich=False):
        """Model of the path condition: small sizes, or (rich) sizes large enough that antisymmetric blocks do not vanish."""
        m = None
        sizes = [s.z() for s in c.ctx.spaces.values() if isinstance(s, SymInt)]
        if rich:
            bounds = [(lo, hi) for lo in (3, 2) for hi in (lo, lo + 1, 2 * lo)]
        else:
            bounds = [(0, b) for b in (2, 3, 4, 6, 9, 12, None)]
        for lo, b in bounds:
            m = paths.model([s >= lo for s in sizes] + ([s <= b for s in sizes] if b is not None else []))
            if m is not None:
                break
        if m is None:
            return
        dims = {}
        scal = {}
        for n, s in c.ctx.spaces.items():
            v = m.eval(s.z(), model_completion=True)
            try:
                dims[n] = v.as_long()
            except Exception:
                pass
        for n, a in c.ctx.atoms.items():
            if a.get("spaces") == []:
                v = m.eval(z3.Real(n), model_completion=False)
                if z3.is_rational_value(v):
                    scal[n] = float(v.as_fraction())
        models.append(dict(dims=dims, scalars=scal))

    def _collect(c, partial):
        # vacuity: the path condition (with preconditions) must be satisfiable
        r, _ = paths.check([])
        if r == z3.unsat:
            res.append((npath[0], "(vacuity)", "vacuous", "path condition unsatisfiable"))
            return
        bad = False
        for l, s, d in c.obl:
            res.append((npath[0], l, s, d))
            if s == "refuted":
                bad = True
        if bad or len(models) < 4:
            n0 = len(models)
            _model(c)
            if bad:
                _model(c, rich=True)
                for m in models[n0:]:
                    m["refuted"] = True

    try:
        snp.MINMAX_OPAQUE[0] = con.opaque_minmax
        with snp.patched(con.modules):
            paths.explore(once)
    except ToolLimit as e:
        limit = str(e)
    finally:
        SymCtx.current = None
    return dict(obligations=res, limit=limit, models=models, paths=npath[0], wall=time.time() - t0)


def run_concrete(con, case, seed, dims=None, scalars=None, mode="rand"):
    """Returns (status, obligations, detail, dims). status: ok / fail / skip / stale"""
    c = NumC(seed, dims, scalars, con.tol, mode)
    state = np.random.get_state()
    np.random.seed(seed % (2 ** 31))
    try:
        con.body(c, **case)
        c.check_frame()
    except Skip:
        return "skip", [], "", c.dims
    except StubMissing as e:
        return "stale", [], "stub: %s" % e, c.dims
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        msg = str(e)
        stale = (isinstance(e, ImportError)
                 or (isinstance(e, AttributeError) and (msg.startswith("module ") or msg.startswith("type object ")))
                 or (isinstance(e, TypeError) and ("unexpected keyword argument" in msg or "positional argument" in msg)))
        if in_repo_frame(e) or not stale:
            return "fail", [("exception", "refuted", tb)], "exception %s: %s" % (type(e).__name__, e), c.dims
        return "stale", [], tb, c.dims
    finally:
        np.random.set_state(state)
    bad = [(l, s, d) for l, s, d in c.obl if s != "proved"]
    return ("fail" if bad else "ok"), c.obl, "; ".join("%s: %s" % (l, d) for l, s, d in bad[:4]), c.dims
