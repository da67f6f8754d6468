"""P18: numerical and generic helper routines compute what they promise."""
import itertools
import math
import string

import numpy as np
import scipy.linalg
import z3

from engine.core import contract, product_cases, Skip
from engine.symint import SymInt, SymBool, ToolLimit
import vayesta.core.util as vu
import vayesta.core.helper as vh
import vayesta.core.linalg as vl
import vayesta.core.spinalg as vs
import vayesta.misc.cptbisect  # noqa: F401  (keep importable)
from .common import *

P = "P18"

# ---------------------------------------------------------------- einsum, dot, spin algebra (all dimensions, all values)

FORMS = [
    # decorated / bracketed form, equivalent plain form, operand letters
    ("i!j$,j$k->i!k", "ij,jk->ik", ["ij", "jk"]),
    ("p1q1,q1r1,r1s1->p1s1", "pq,qr,rs->ps", ["pq", "qr", "rs"]),
    ("a1a2,a2a->a1a", "ab,bc->ac", ["ab", "bc"]),
    ("a1a2,b2a2->a1b2", "ik,jk->ij", ["ik", "jk"]),
    ("A1a1,a1A->A1A", "ij,jk->ik", ["ij", "jk"]),
    ("z!zZ,Zz!->z", "ijk,ki->j", ["ijk", "ki"]),
    ("(ab,bc->ac),cd->ad", "ab,bc,cd->ad", ["ab", "bc", "cd"]),
    ("ab,(bc,cd->bd)->ad", "ab,bc,cd->ad", ["ab", "bc", "cd"]),
    ("(ab,bc),cd->ad", "ab,bc,cd->ad", ["ab", "bc", "cd"]),
    ("[ab,{bc,cd->bd}->ad],ea->ed", "ab,bc,cd,ea->ed", ["ab", "bc", "cd", "ea"]),
    ("(ab,bc->ca),(cd,de->ce)->ae", "ab,bc,cd,de->ae", ["ab", "bc", "cd", "de"]),
    ("ea,((ab,bc->ac),cd->da)->ed", "ea,ab,bc,cd->ed", ["ea", "ab", "bc", "cd"]),
    ("(i!j,jk!->i!k!),k!l->i!l", "ij,jk,kl->il", ["ij", "jk", "kl"]),
    ("(ij,ij->),kl->kl", "ij,ij,kl->kl", ["ij", "ij", "kl"]),
    ("(ij,ik->jk),jk->", "ij,ik,jk->", ["ij", "ik", "jk"]),
    ("xi,(x,xj->xj)->ij", "xi,x,xj->ij", ["xi", "x", "xj"]),
]


@contract(P, "einsum", ["einsum", "_einsum_replace_decorated_subscripts", "_ordered_einsum"], cases=product_cases(form=list(range(len(FORMS)))))
def _(c, form):
    """Decorated and bracketed subscripts give the same contraction as plain subscripts, for all dimensions."""
    sub, plain, ops = FORMS[form]
    dims = {x: c.dim("d" + x) for x in sorted(set("".join(ops)))}
    args = [c.tensor("T%d" % k, tuple(dims[x] for x in o)) for k, o in enumerate(ops)]
    before = [c.snapshot(a) for a in args]
    c.eq("value", vu.einsum(sub, *args), c.einsum(plain, *args))
    for k, (a, b) in enumerate(zip(args, before)):
        c.eq("operand%d unchanged" % k, a, b)


@contract(P, "einsum_random", ["einsum", "_einsum_replace_decorated_subscripts", "_ordered_einsum"], sym=False, n=12,
          bounded="random subscripts of up to 4 operands of rank up to 4 with random decorations")
def _(c):
    """Random expressions: decorating letters or bracketing neighbouring operands does not change the value."""
    rng = c.rng
    nop = int(rng.integers(1, 5))
    pool = list("abcdexyz")[:int(rng.integers(2, 8))]
    ops = ["".join(rng.choice(pool, size=int(rng.integers(1, min(4, len(pool)) + 1)), replace=False)) for _ in range(nop)]
    dims = {x: int(rng.integers(1, 4)) for x in pool}
    used = sorted(set("".join(ops)))
    out = "".join(rng.permutation(used)[:int(rng.integers(0, len(used) + 1))])
    arrs = [rng.standard_normal([dims[x] for x in o]) for o in ops]
    ref = np.einsum(",".join(ops) + "->" + out, *arrs)
    names = list(itertools.product("abAZ", ["", "!", "$", "1", "2"]))
    perm = rng.permutation(len(names))
    deco = {x: "".join(names[perm[k]]) for k, x in enumerate(pool)}
    d = lambda s: "".join(deco[x] for x in s)
    c.eq("decorated", vu.einsum(",".join(d(o) for o in ops) + "->" + d(out), *arrs), ref)
    c.eq("plain", vu.einsum(",".join(ops) + "->" + out, *arrs), ref)
    if nop >= 2:
        k = int(rng.integers(0, nop - 1))
        l = int(rng.integers(k + 1, nop)) + 1
        rest = set("".join(ops[:k] + ops[l:])) | set(out)
        keep = "".join(x for x in sorted(set("".join(ops[k:l]))) if x in rest)
        keep = "".join(rng.permutation(list(keep))) if keep else ""
        br = ["()", "[]", "{}"][int(rng.integers(3))]
        mid = br[0] + ",".join(d(o) for o in ops[k:l]) + "->" + d(keep) + br[1]
        s = ",".join([d(o) for o in ops[:k]] + [mid] + [d(o) for o in ops[l:]]) + "->" + d(out)
        c.eq("bracketed", vu.einsum(s, *arrs), ref)
    seen = []
    def drv(*a, **k):
        seen.append(sorted(k))
        return np.einsum(*a, **k)
    c.eq("driver", vu.einsum(",".join(ops) + "->" + out, *arrs, driver=drv), ref)
    c.true("driver called", len(seen) == 1)
    for bad in ["!a,b->ab", ",!->"]:
        c.raises("invalid decoration " + bad, ValueError, lambda: vu.einsum(bad, np.zeros(2), np.zeros(2)))
    c.raises("unmatched", ValueError, lambda: vu.einsum("(ab,bc]->ac", np.zeros((2, 2)), np.zeros((2, 2))))


@contract(P, "dot", ["dot", "spinalg.dot"], cases=product_cases(n=[2, 3, 4]))
def _(c, n):
    """Variadic products, ignoring missing factors on request, with and without spin."""
    d = [c.dim("d%d" % k) for k in range(n + 1)]
    letters = "abcdef"
    sub = ",".join(letters[k:k + 2] for k in range(n)) + "->a" + letters[n]
    A = [c.tensor("A%d" % k, (d[k], d[k + 1])) for k in range(n)]
    B = [c.tensor("B%d" % k, (d[k], d[k + 1])) for k in range(n)]
    c.eq("dot", vu.dot(*A), c.einsum(sub, *A))
    withnone = [None] + [x for a in A for x in (a, None)]
    c.eq("dot(none)", vu.dot(*withnone, ignore_none=True), c.einsum(sub, *A))
    c.eq("spinalg r", vs.dot(*A), c.einsum(sub, *A))
    for mask in range(1, 2 ** n):
        args = [(a, b) if mask >> k & 1 else a for k, (a, b) in enumerate(zip(A, B))]
        ra, rb = vs.dot(*args)
        c.eq("spinalg a%d" % mask, ra, c.einsum(sub, *A))
        c.eq("spinalg b%d" % mask, rb, c.einsum(sub, *[b if mask >> k & 1 else a for k, (a, b) in enumerate(zip(A, B))]))


@contract(P, "spinalg", ["spinalg.add", "spinalg.subtract", "spinalg.multiply", "spinalg.copy", "spinalg.transpose", "spinalg.zeros_like",
                         "spinalg.hstack_matrices", "util.hstack"])
def _(c):
    """Spin-channel-wise algebra applies the operation in each channel, and to the single array otherwise."""
    m, n, k = c.dim("m"), c.dim("n"), c.dim("k")
    A, B = [tuple(c.tensor(x + s, (m, n)) for s in "ab") for x in "AB"]
    X = tuple(c.tensor("X" + s, (m, k)) for s in "ab")
    for name, op in (("add", lambda a, b: a + b), ("subtract", lambda a, b: a - b), ("multiply", lambda a, b: a * b)):
        f = getattr(vs, name)
        c.eq(name + " r", f(A[0], B[0]), op(A[0], B[0]))
        r = f(A, B)
        for s in range(2):
            c.eq("%s u%d" % (name, s), r[s], op(A[s], B[s]))
    c.eq("T r", vs.T(A[0]), c.einsum("ij->ji", A[0]))
    cp, tr, z = vs.copy(A), vs.T(A), vs.zeros_like(A)
    hs, hn = vs.hstack_matrices(A, X), vs.hstack_matrices(None, A, None, X, None)
    c.eq("hstack r", vs.hstack_matrices(A[0], None, X[0]), c.np.hstack([A[0], X[0]]))
    c.eq("util.hstack", vu.hstack(A[0], None, X[0]), c.np.hstack([A[0], X[0]]))
    for s in range(2):
        c.eq("copy%d" % s, cp[s], A[s])
        c.eq("T%d" % s, tr[s], c.einsum("ij->ji", A[s]))
        c.eq("zeros%d" % s, z[s], c.zeros(m, n))
        c.eq("hstack%d" % s, hs[s], c.np.hstack([A[s], X[s]]))
        c.eq("hstack none%d" % s, hn[s], c.np.hstack([A[s], X[s]]))


@contract(P, "spinalg_num", ["spinalg.eigh", "spinalg.add_numbers", "spinalg.norm", "spinalg.copy"], sym=False, n=4, bounded="matrices up to 5x5")
def _(c):
    rng = c.rng
    m = int(rng.integers(1, 6))
    sy = lambda: (lambda a: a + a.T)(rng.standard_normal((m, m)))
    pd = lambda: (lambda a: a @ a.T + np.eye(m))(rng.standard_normal((m, m)))
    a, b, s, t = sy(), sy(), pd(), pd()
    e, v = vs.eigh(a)
    c.eq("eigh", v @ np.diag(e) @ v.T, a)
    e, v = vs.eigh(a, s)
    c.eq("eigh b", a @ v, s @ v @ np.diag(e))
    for bb, ss in ((None, (np.eye(m),) * 2), (s, (s, s)), ((s, t), (s, t))):
        (e1, e2), (v1, v2) = vs.eigh((a, b), bb)
        c.eq("eigh u0", a @ v1, ss[0] @ v1 @ np.diag(e1))
        c.eq("eigh u1", b @ v2, ss[1] @ v2 @ np.diag(e2))
    c.eq("norm", np.array(vs.norm((a, b))), np.array([np.sqrt((a * a).sum()), np.sqrt((b * b).sum())]))
    c.eq("numbers r", vs.add_numbers(1.0, 2.5, -1.0), 2.5)
    c.eq("numbers u", np.array(vs.add_numbers((1.0, 2.0), (3.0, 5.0))), np.array([4.0, 7.0]))
    c.raises("numbers mixed", ValueError, lambda: vs.add_numbers(1.0, (2.0, 3.0)))
    x = vs.copy((a, b))
    x[0][:] = 0
    c.true("copy independent", abs(a).max() > 0 or m == 0)


# ---------------------------------------------------------------- block iteration

class _Arr:
    def __init__(self, shape, nbytes):
        self.shape, self.ndim, self.nbytes = tuple(shape), len(shape), nbytes

    def __getitem__(self, key):
        return ("item", key)


def _one_iteration(start, stop, step, box):
    """Verifier's view of a loop over range(start, stop, step): one arbitrary iteration k."""
    from engine.symint import Paths
    k = SymInt.var("k")
    i = SymInt.var("i")
    pc = Paths.current
    za = [x.z() if isinstance(x, SymInt) else z3.IntVal(int(x)) for x in (start, stop, step)]
    pc.assume(z3.And(k.z() >= 0, i.z() == za[0] + k.z() * za[2], i.z() < za[1]))
    box.append((start, stop, step, k, i))
    yield i


def _zi(x):
    return x.z() if isinstance(x, SymInt) else z3.IntVal(int(x))


@contract(P, "brange", ["brange"], cases=product_cases(nargs=[1, 2, 3]), n=8)
def _(c, nargs):
    """The blocks are consecutive, non-empty, cover [start, stop) exactly once, and are at most one step long."""
    if c.symbolic:
        start, n, step = c.dim("start", min=0), c.dim("n", min=0), c.dim("step")
        stop = start + n
        box = []
        d = vu.__dict__
        old_r, old_i = d.get("range"), d.get("int")
        d["range"] = lambda *a: _one_iteration(*((0, a[0], 1) if len(a) == 1 else a if len(a) == 3 else (*a, 1)), box)
        d["int"] = lambda x: x if isinstance(x, SymInt) else int(x)
        try:
            gen = vu.brange(*((stop,) if nargs == 1 else (start, stop) if nargs == 2 else (start, stop, step)))
            blks = list(gen)
        finally:
            for k, v in (("range", old_r), ("int", old_i)):
                if v is None:
                    d.pop(k, None)
                else:
                    d[k] = v
        st = 0 if nargs == 1 else start
        if not box:
            c.true("empty only if empty", SymBool(_zi(stop) <= _zi(st)))
            c.true("no blocks", not blks)
            return
        r0, r1, rs, k, i = box[0]
        want = step if nargs == 3 else 1
        c.true("loop start", SymBool(_zi(r0) == _zi(st)))
        c.true("loop stop", SymBool(_zi(r1) == _zi(stop)))
        c.true("loop step", SymBool(z3.And(_zi(rs) >= 1, _zi(rs) <= z3.If(_zi(want) > 1, _zi(want), 1))))
        c.true("one block per iteration", len(blks) == 1)
        b = blks[0]
        c.true("block start", SymBool(_zi(b.start) == _zi(i)))
        c.true("block stop", SymBool(_zi(b.stop) == z3.If(_zi(i) + _zi(rs) < _zi(stop), _zi(i) + _zi(rs), _zi(stop))))
        return
    rng = c.rng
    start, n, step = int(rng.integers(0, 7)), int(rng.integers(0, 12)), int(rng.integers(1, 15))
    if rng.integers(3) == 0:
        n = step * int(rng.integers(0, 4))
    stop = start + n
    if nargs < 3:
        step = 1
    if nargs == 1:
        start = 0
    args = (stop,) if nargs == 1 else (start, stop) if nargs == 2 else (start, stop, step)
    for kw in ({}, {"minstep": 3}, {"maxstep": 2}, {"minstep": 2, "maxstep": 5}):
        blks = list(vu.brange(*args, **kw))
        c.true("cover %s" % kw, [x for b in blks for x in range(b.start, b.stop)] == list(range(start, stop)))
        mx = min(max(step, kw.get("minstep", 1)), kw.get("maxstep", 10 ** 6))
        c.true("size %s" % kw, all(0 < b.stop - b.start <= mx for b in blks))
        c.true("full %s" % kw, all(b.stop - b.start == mx for b in blks[:-1]))


@contract(P, "split_into_blocks", ["split_into_blocks"], cases=product_cases(axis=[0, 1, -1, -2], given=[True, False]), n=8)
def _(c, axis, given):
    """Blocks along the given axis partition the array; the default block size respects the memory limit."""
    if c.symbolic:
        if not given:
            raise Skip
        size, bs = c.dim("size"), c.dim("blocksize")
        shape = [c.dim("s0"), c.dim("s1"), c.dim("s2")]
        shape[axis] = size
        arr = _Arr(shape, None)
        box = []
        d = vu.__dict__
        old = d.get("range")
        d["range"] = lambda *a: _one_iteration(*((0, a[0], 1) if len(a) == 1 else a if len(a) == 3 else (*a, 1)), box)
        try:
            out = list(vu.split_into_blocks(arr, axis=axis, blocksize=bs))
        finally:
            if old is None:
                d.pop("range", None)
            else:
                d["range"] = old
        c.true("one block per iteration", len(out) == 1)
        blk, a = out[0]
        if not box:
            c.true("whole array only if it fits", SymBool(_zi(bs) >= _zi(size)))
            c.true("whole array", a is arr and blk == slice(None))
            return
        r0, r1, rs, k, i = box[0]
        c.true("loop", SymBool(z3.And(_zi(r0) == 0, _zi(r1) == _zi(size), _zi(rs) == _zi(bs))))
        c.true("block", SymBool(z3.And(_zi(blk.start) == _zi(i), _zi(blk.stop) == z3.If(_zi(i) + _zi(rs) < _zi(size), _zi(i) + _zi(rs), _zi(size)))))
        key = a[1] if isinstance(a[1], tuple) else (a[1],)
        c.true("sliced on the axis", len(key) == axis % 3 + 1 and all(x == slice(None) for x in key[:-1]) and key[-1] is blk)
        return
    rng = c.rng
    arr = rng.standard_normal(rng.integers(1, 8, size=3))
    kw = dict(blocksize=int(rng.integers(1, 9))) if given else dict(max_memory=int(rng.integers(8, arr.nbytes + 20)))
    blocks = list(vu.split_into_blocks(arr, axis=axis, **kw))
    c.eq("concatenated", np.concatenate([a for _, a in blocks], axis=axis), arr)
    ax = axis % 3
    for b, a in blocks:
        c.eq("slice", a, arr[ax * (slice(None),) + (b,)])
        if given:
            c.true("size", a.shape[ax] <= kw["blocksize"])
        else:
            # (size is rounded up to whole rows of the split axis)
            c.true("memory", a.nbytes <= kw["max_memory"] + arr.nbytes // arr.shape[ax] or a.shape[ax] == 1)


@contract(P, "partition_lemma", ["brange", "split_into_blocks"], n=1)
def _(c):
    """Lemma: blocks [s+k*b, min(s+(k+1)*b, e)) over k>=0 with s+k*b<e contain every x in [s, e) exactly once."""
    if not c.symbolic:
        c.true("(symbolic only)", True)
        return
    s, e, b, x, k, l = z3.Ints("s e b x k l")
    ins = lambda j: z3.And(j >= 0, s + j * b < e, s + j * b <= x, x < s + (j + 1) * b, x < e)
    def valid(f):
        so = z3.Solver()
        so.set("timeout", 20000)
        so.add(z3.Not(f))
        return so.check() == z3.unsat
    pre = z3.And(s >= 0, b >= 1, s <= x, x < e)
    q = (x - s) / b
    c.true("exists", valid(z3.Implies(z3.And(pre, q * b <= x - s, x - s < q * b + b, q >= 0), ins(q))))
    c.true("unique", valid(z3.Implies(z3.And(pre, ins(k), ins(l)), z3.Not(z3.And(k < l, (k + 1) * b <= l * b)))))
    c.true("monotone", valid(z3.Implies(z3.And(b >= 1, l - k >= 1), (l - k) * b >= b)))


# ---------------------------------------------------------------- permutational unpacking

@contract(P, "permutations", ["permutations_with_signs", "tril_indices_ndim"], sym=False, cases=product_cases(n=[1, 2, 3, 4]), n=1,
          bounded="exhaustive for up to 4 elements / 4 dimensions of size up to 5")
def _(c, n):
    seq = list("wxyz")[:n]
    perms = vu.permutations_with_signs(seq)
    c.true("all permutations once", sorted(tuple(p) for p, _ in perms) == sorted(itertools.permutations(seq)))
    for p, s in perms:
        inv = sum(1 for i in range(n) for j in range(i) if seq.index(p[j]) > seq.index(p[i]))
        c.true("sign", s == (-1) ** inv)
    for m in range(1, 6):
        for diag in (False, True):
            idx = vu.tril_indices_ndim(m, n, include_diagonal=diag)
            got = list(zip(*[x.tolist() for x in idx]))
            ok = (lambda t: all(a >= b for a, b in zip(t, t[1:]))) if diag else (lambda t: all(a > b for a, b in zip(t, t[1:])))
            c.true("tril m=%d diag=%s" % (m, diag), got == [t for t in itertools.product(range(m), repeat=n) if ok(t)])


@contract(P, "decompress", ["decompress_axes"], sym=False, n=2,
          cases=product_cases(sub=["ii", "iii", "iijj", "iab", "iia", "iiajj", "iiijjj", "ij", "aaii"]), bounded="sizes up to 4")
def _(c, sub):
    """Unpacking the independent elements of an antisymmetric (symmetric) array returns the array."""
    rng = c.rng
    sizes = {x: int(rng.integers(sub.count(x), 5)) for x in set(sub)}
    groups = [[k for k, y in enumerate(sub) if y == x] for x in sorted(set(sub), key=sub.index)]
    A = rng.standard_normal([sizes[x] for x in sub])
    for g in groups:
        B = 0
        for p in itertools.permutations(range(len(g))):
            sg = (-1) ** sum(1 for i in range(len(g)) for j in range(i) if p[j] > p[i])
            ax = list(range(len(sub)))
            for k, j in zip(g, p):
                ax[k] = g[j]
            B = B + sg * A.transpose(ax)
        A = B
    # pack: axes grouped by letter in order of first appearance, flattened strictly lower triangular
    order = [k for g in groups for k in g]
    T = A.transpose(order)
    idx = []
    flat = T
    shape = []
    for x in sorted(set(sub), key=sub.index):
        shape.append(sizes[x] ** sub.count(x))
    flat = T.reshape(shape)
    for ax, x in enumerate(sorted(set(sub), key=sub.index)):
        n = sub.count(x)
        tr = [t for t in itertools.product(range(sizes[x]), repeat=n) if all(a > b for a, b in zip(t, t[1:]))]
        ii = [int(np.ravel_multi_index(t, (sizes[x],) * n)) for t in tr]
        flat = flat.take(ii, axis=ax)
    c.eq("unpacked", vu.decompress_axes(sub, flat.ravel(), A.shape), A)


# ---------------------------------------------------------------- orbital signs and coupled orbitals

@contract(P, "orbital_sign", ["fix_orbital_sign", "orbital_sign_convention"], sym=False, n=6, cases=product_cases(kind=["r", "u", "helper"], inplace=[True, False]),
          bounded="matrices up to 6x6")
def _(c, kind, inplace):
    """Signs are +-1, columns are multiplied by them, and the result is the same whatever the input signs were."""
    rng = c.rng
    f = vh.orbital_sign_convention if kind == "helper" else vu.fix_orbital_sign
    mats = [rng.standard_normal(rng.integers(1, 7, size=2)) for _ in range(2 if kind == "u" else 1)]
    flips = [rng.choice([-1.0, 1.0], size=m.shape[1]) for m in mats]
    i1, i2 = [m.copy() for m in mats], [m * s for m, s in zip(mats, flips)]
    wrap_ = (lambda l: tuple(l)) if kind == "u" else (lambda l: l[0])
    r1, s1 = f(wrap_(i1), inplace=inplace)
    r2, s2 = f(wrap_(i2), inplace=inplace)
    if kind != "u":
        r1, s1, r2, s2 = (r1,), (s1,), (r2,), (s2,)
    for k, m in enumerate(mats):
        c.eq("columns", r1[k], m * s1[k])
        c.true("signs", set(np.unique(s1[k])) <= {-1, 1})
        c.eq("independent of input signs", r1[k], r2[k])
        c.eq("relative signs", s1[k] * flips[k], s2[k])
        c.eq("input", i1[k], r1[k] if inplace else m)
        c.true("largest element positive", all(r1[k][abs(r1[k][:, j]).argmax(), j] > 0 for j in range(m.shape[1])))


@contract(P, "recursive_svd", ["recursive_block_svd"], sym=False, n=10, bounded="matrices up to 9x9")
def _(c):
    """The rotation is orthogonal, block-tridiagonalises the matrix in the order reported, and gives its coupling singular values."""
    rng = c.rng
    size = int(rng.integers(2, 10))
    n = int(rng.integers(1, size))
    a = rng.standard_normal((size, size))
    a = a + a.T
    kind = int(rng.integers(3))
    if kind == 1:      # decoupled part
        k = int(rng.integers(n, size + 1))
        a[:k, k:] = 0
        a[k:, :k] = 0
    if kind == 2 and size > 3:    # low rank coupling
        a[:n, n:] = np.outer(rng.standard_normal(n), rng.standard_normal(size - n))
        a[n:, :n] = a[:n, n:].T
    a0 = a.copy()
    maxblock = 100 if rng.integers(2) else 2
    u, sv, order = vl.recursive_block_svd(a, n, maxblock=maxblock)
    c.eq("input unchanged", a, a0)
    c.eq("orthogonal", u.T @ u, np.eye(size - n))
    full = scipy.linalg.block_diag(np.eye(n), u)
    b = full.T @ a @ full
    o = np.concatenate([np.zeros(n), order])
    c.true("orders ascend", all(o[i] <= o[i + 1] for i in range(size - 1)))
    last = 0
    for i in range(size):
        for j in range(size):
            oi, oj = o[i], o[j]
            if np.isinf(oi) and np.isinf(oj):
                continue
            if abs(oi - oj) > 1 and not (np.isinf(max(oi, oj)) and min(oi, oj) == maxblock):
                last = max(last, abs(b[i, j]))
    c.true("block tridiagonal", last < 1e-8)
    for k in sorted(set(order[np.isfinite(order)])):
        blk = b[np.ix_(o == k - 1, o == k)]
        s = np.linalg.svd(blk)[1]
        c.eq("singular values %d" % k, np.sort(sv[order == k])[::-1], s[:np.count_nonzero(order == k)])
        c.eq("diagonal coupling", blk.T @ blk, np.diag(sv[order == k] ** 2))
    c.true("remainder uncoupled", np.all(sv[np.isinf(order)] == 0))


# ---------------------------------------------------------------- generic helpers

@contract(P, "generic", ["cache", "call_once", "getattr_recursive", "setattr_recursive", "replace_attr", "getif", "callif", "log_method", "deprecated", "with_doc", "break_into_lines"],
          sym=False, n=1, bounded="fixed call patterns")
def _(c):
    calls = []

    class A:
        log = None

        def __init__(self, **kw):
            self.__dict__.update(kw)

        @vu.cache
        def m(self, x, y=0):
            calls.append((id(self), x, y))
            return [x, y]

        @vu.cache(copy=True)
        def mc(self, x):
            calls.append(x)
            return np.arange(3.0) * x

        def hello(self):
            return ("orig", self)

    a, b = A(), A()
    c.true("cache value", a.m(1) == [1, 0] and a.m(2, y=3) == [2, 3] and b.m(1) == [1, 0])
    n = len(calls)
    c.true("cache hit", a.m(1) is a.m(1) and len(calls) == n)
    c.true("cache per object", b.m(1) is not a.m(1))
    x = a.mc(2.0)
    x[:] = -1
    c.eq("cached copy is independent", a.mc(2.0), np.arange(3.0) * 2)
    a.mc.__func__.cache_clear() if hasattr(a.mc, "__func__") else None
    c.eq("after clear", a.mc(2.0), np.arange(3.0) * 2)
    # recursive attributes
    a.p = A(q=A(z=5))
    c.true("getattr", vu.getattr_recursive(a, "p.q.z") == 5 and vu.getattr_recursive(a, "p.q.w", 7) == 7 and vu.getattr_recursive(a, "nope.q", None) is None)
    c.raises("getattr missing", AttributeError, lambda: vu.getattr_recursive(a, "p.w.z"))
    vu.setattr_recursive(a, "p.q.z", 9)
    vu.setattr_recursive(a, "direct", 1)
    c.true("setattr", a.p.q.z == 9 and a.direct == 1)
    # temporary replacement
    a.v = 3
    with vu.replace_attr(a, v=4, hello=lambda self: ("new", self)) as aa:
        c.true("replaced", aa is a and a.v == 4 and a.hello() == ("new", a))
    c.true("restored", a.v == 3 and a.hello() == ("orig", a))
    try:
        with vu.replace_attr(a, v=4):
            a.v = 5
            raise KeyError
    except KeyError:
        pass
    c.true("restored after exception", a.v == 3)
    try:
        with vu.replace_attr(a, v=4, missing=1):
            pass
    except AttributeError:
        pass
    c.true("restored when an attribute is missing", a.v == 3 and not hasattr(a, "missing"))
    c.true("getif", vu.getif((1, 2), 1) == 2 and vu.getif(None, 1) is None and vu.getif(None, 1, default=4) == 4)
    c.true("callif", vu.callif(abs, -2) == 2 and vu.callif(abs, None) is None and vu.callif(abs, None, default=3) == 3)

    # logging decorators: result passes through, and every object's own logger is used
    class Log:
        def __init__(self):
            self.lines = []

        def __getattr__(self, name):
            return lambda msg, *args, **kw: self.lines.append((name, msg % args if args else msg))

    class L1:
        def __init__(self):
            self.log = Log()

        @vu.log_method()
        def f(self, x, y=1):
            """doc"""
            return x + y

        @vu.deprecated(replacement="g")
        def old(self, x):
            return -x

    class L2(L1):
        pass

    p, q = L1(), L2()
    c.true("log_method", p.f(2) == 3 and q.f(2, y=5) == 7 and L1.f.__doc__ == "doc" and L1.f.__name__ == "f")
    tl = lambda o: [m for n_, m in o.log.lines if n_ == "timing"]
    c.true("log_method logger", len(tl(p)) == 1 and len(tl(q)) == 1 and "L1.f" in tl(p)[0] and "L2.f" in tl(q)[0])
    c.true("deprecated", p.old(3) == -3 and any(n_ == "deprecated" and "g" in m for n_, m in p.log.lines))
    s = "alpha beta gamma delta epsilon zeta eta theta"
    for ll in (5, 11, 17, 30, 100):
        br = vu.break_into_lines(s, linelength=ll)
        c.true("line breaks", br.replace("\n", " ") == s and all(len(z) <= ll or " " not in z for z in br.split("\n")))
    count = []
    f = lambda z: count.append(z)
    vu.call_once(f, 1), vu.call_once(f, 1), vu.call_once(f, 2)
    c.true("call_once", count == [1, 2])


@contract(P, "strings", ["energy_string", "time_string", "memory_string", "get_used_memory"], sym=False, n=6, bounded="sampled values")
def _(c):
    """Numbers printed in results are those given."""
    e = float(c.rng.standard_normal() * 100)
    c.true("energy", vu.energy_string(e).endswith(" Ha") and abs(float(vu.energy_string(e).split()[0]) - e) <= 0.51e-8)
    c.true("eV", abs(float(vu.energy_string(e, unit="eV").split()[0]) - e * 27.211386245988) <= 0.51e-8 * 30)
    h, m, s = int(c.rng.integers(1, 50)), int(c.rng.integers(0, 60)), int(c.rng.integers(0, 59))
    c.true("hours", vu.time_string(3600 * h + 60 * m + s) == "%d h %d min" % (h, m))
    if m:
        c.true("minutes", vu.time_string(60 * m + s) == "%d min %d s" % (m, s))
    c.true("seconds", vu.time_string(s + 0.25) in ("%.1f s" % (s + 0.25),) and vu.time_string(-s - 0.25).startswith("-"))
    nb = float(10 ** c.rng.uniform(0, 14))
    num, unit = vu.memory_string(nb).split()
    c.true("memory", abs(float(num) * {"B": 1, "kB": 1e3, "MB": 1e6, "GB": 1e9, "TB": 1e12}[unit] / nb - 1) < 6e-3 or nb < 10)
    arr = np.zeros(300)
    c.true("array memory", vu.memory_string(arr).split() == ["2.40", "kB"])
    c.true("used memory", abs(vu.get_used_memory("b") / 1e6 - vu.get_used_memory("MB")) < 50)
