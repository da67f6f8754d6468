"""P01: conversions between CI, CC, MP2 and FCI parametrisations preserve the state they describe."""
import numpy as np

from engine.core import contract, product_cases
from vayesta.core.types import wf as wft
from .common import *

P = "P01"
NB = product_cases(nblock=[3, 4])


@contract(P, "rcisd_as_ccsd", ["RCISD_WaveFunction.as_ccsd", "RCISD_WaveFunction.as_cisd", "RCCSD_WaveFunction.as_cisd"])
def _(c):
    o, v = c.dim("o"), c.dim("v")
    mo = rmo(c, o, v)
    c0 = c.scalar("c0", nonzero=True)
    k0 = c.scalar("k0", nonzero=True)
    c1, c2 = c.tensor("c1", (o, v)), c.tensor("c2", (o, o, v, v), sym=RSYM2)
    wf = wft.RCISD_WaveFunction(mo, c0, c1, c2)
    cc = wf.as_ccsd()
    c.eq("c0*t1 = c1", cc.t1 * c0, c1)
    c.eq("c0*(t2+t1t1) = c2", c0 * (cc.t2 + c.einsum("ia,jb->ijab", cc.t1, cc.t1)), c2)
    back = cc.as_cisd(k0)
    c.eq("back c0", back.c0, k0)
    c.eq("back c1", back.c1 * c0, c1 * k0)
    c.eq("back c2", back.c2 * c0, c2 * k0)
    re = wf.as_cisd(k0)
    c.eq("renorm c0", re.c0, k0)
    c.eq("renorm c1", re.c1 * c0, c1 * k0)
    c.eq("renorm c2", re.c2 * c0, c2 * k0)
    c.eq("input c1 kept", wf.c1, c1)
    c.eq("input c2 kept", wf.c2, c2)
    c.true("no projector", cc.projector is None)


@contract(P, "ucisd_as_ccsd", ["UCISD_WaveFunction.as_ccsd", "UCISD_WaveFunction.as_cisd", "UCCSD_WaveFunction.as_cisd"],
          cases=NB)
def _(c, nblock):
    d = oa, va, ob, vb = udims(c)
    mo = umo(c, *d)
    c0 = c.scalar("c0", nonzero=True)
    k0 = c.scalar("k0", nonzero=True)
    c1 = ut1(c, "c1", *d)
    c2 = ut2(c, "c2", *d)
    if nblock == 4:
        c2 = consistent4(c2)
    wf = wft.UCISD_WaveFunction(mo, c0, c1, c2)
    cc = wf.as_ccsd()
    E = c.einsum
    for s in (0, 1):
        c.eq("t1[%d]" % s, cc.t1[s] * c0, c1[s])
    c.true("nblock", len(cc.t2) == nblock)
    spec = [cc.t2[0] + E("ia,jb->ijab", cc.t1[0], cc.t1[0]) - E("ib,ja->ijab", cc.t1[0], cc.t1[0]),
            cc.t2[1] + E("ia,jb->ijab", cc.t1[0], cc.t1[1])]
    if nblock == 4:
        spec.append(cc.t2[2] + E("ia,jb->ijab", cc.t1[1], cc.t1[0]))
    spec.append(cc.t2[-1] + E("ia,jb->ijab", cc.t1[1], cc.t1[1]) - E("ib,ja->ijab", cc.t1[1], cc.t1[1]))
    for k in range(nblock):
        c.eq("t2 block %d" % k, spec[k] * c0, c2[k])
    back = cc.as_cisd(k0)
    c.eq("back c0", back.c0, k0)
    for s in (0, 1):
        c.eq("back c1[%d]" % s, back.c1[s] * c0, c1[s] * k0)
    for k in range(nblock):
        c.eq("back c2[%d]" % k, back.c2[k] * c0, c2[k] * k0)
    re = wf.as_cisd(k0)
    for k in range(nblock):
        c.eq("renorm c2[%d]" % k, re.c2[k] * c0, c2[k] * k0)
    for s in (0, 1):
        c.eq("renorm c1[%d]" % s, re.c1[s] * c0, c1[s] * k0)


@contract(P, "rcisd_as_ccsd_projected", ["RCISD_WaveFunction.as_ccsd", "RCISD_WaveFunction.restore",
                                        "RCISD_WaveFunction.project", "RCCSD_WaveFunction.project"])
def _(c):
    """A projected CISD wave function converts through restore / convert / project."""
    o, v, f = c.dim("o"), c.dim("v"), c.dim("f", max=3)
    mo = rmo(c, o, v)
    p = c.tensor("p", (f, o))
    c0 = c.scalar("c0", nonzero=True)
    c1, c2 = c.tensor("c1", (f, v)), c.tensor("c2", (f, o, v, v))
    wf = wft.RCISD_WaveFunction(mo, c0, c1, c2, projector=p)
    cc = wf.as_ccsd()
    E = c.einsum
    r1 = E("fi,fa->ia", p, c1)
    r2 = E("fi,fjab->ijab", p, c2)
    r2 = (r2 + r2.transpose(1, 0, 3, 2)) / 2
    t1 = r1 / c0
    t2 = r2 / c0 - E("ia,jb->ijab", t1, t1)
    c.eq("t1", cc.t1, E("fi,ia->fa", p, t1))
    c.eq("t2", cc.t2, E("fi,ijab->fjab", p, t2))
    c.eq("projector", cc.projector, p)
    c.eq("input", wf.c2, c2)


@contract(P, "rmp2_as", ["RMP2_WaveFunction.as_cisd", "RMP2_WaveFunction.as_ccsd", "CCSD_WaveFunction"],
          cases=product_cases(proj=[False, True]))
def _(c, proj):
    o, v = c.dim("o"), c.dim("v")
    f = c.dim("f", max=3) if proj else o
    mo = rmo(c, o, v)
    p = c.tensor("p", (f, o)) if proj else None
    t2 = c.tensor("t2", (f, o, v, v), sym=None if proj else RSYM2)
    k0 = c.scalar("k0", nonzero=True)
    wf = wft.RMP2_WaveFunction(mo, t2, projector=p)
    ci, cc = wf.as_cisd(k0), wf.as_ccsd()
    c.eq("c0", ci.c0, k0)
    c.eq("c1", ci.c1, c.zeros(f, v))
    c.eq("c2", ci.c2, k0 * t2)
    c.eq("t1", cc.t1, c.zeros(f, v))
    c.eq("t2", cc.t2, t2)
    c.eq("l2", cc.l2, t2)
    c.true("proj", (cc.projector is p) and (ci.projector is p))
    c.true("same", wf.as_mp2() is wf)
    if not proj:
        ci2 = cc.as_cisd(k0)
        c.eq("commutes", ci2.c2, ci.c2)


@contract(P, "ump2_as", ["UMP2_WaveFunction.as_cisd", "UMP2_WaveFunction.as_ccsd"], cases=NB)
def _(c, nblock):
    d = oa, va, ob, vb = udims(c)
    mo = umo(c, *d)
    t2 = ut2(c, "t2", *d, nblock=nblock)
    k0 = c.scalar("k0", nonzero=True)
    wf = wft.UMP2_WaveFunction(mo, t2)
    ci, cc = wf.as_cisd(k0), wf.as_ccsd()
    c.eq("c0", ci.c0, k0)
    c.eq("c1", ci.c1, (c.zeros(oa, va), c.zeros(ob, vb)))
    c.eq("c2", ci.c2, tuple(k0 * x for x in t2))
    c.eq("t1", cc.t1, (c.zeros(oa, va), c.zeros(ob, vb)))
    c.eq("t2", cc.t2, t2)
    c.eq("l2", cc.l2, t2)


@contract(P, "spin_block_accessors", ["UCISD_WaveFunction.c2ba", "UCCSD_WaveFunction.t2ba", "UCCSD_WaveFunction.l2ba",
                                      "UMP2_WaveFunction.t2ba"], cases=NB)
def _(c, nblock):
    d = udims(c)
    mo = umo(c, *d)
    t1, t2 = ut1(c, "t1", *d), ut2(c, "t2", *d, nblock=nblock)
    l1, l2 = ut1(c, "l1", *d), ut2(c, "l2", *d, nblock=nblock)
    ci = wft.UCISD_WaveFunction(mo, c.scalar("c0", nonzero=True), t1, t2)
    cc = wft.UCCSD_WaveFunction(mo, t1, t2, l1=l1, l2=l2)
    mp = wft.UMP2_WaveFunction(mo, t2)
    ba = t2[2] if nblock == 4 else t2[1].transpose(1, 0, 3, 2)
    lba = l2[2] if nblock == 4 else l2[1].transpose(1, 0, 3, 2)
    c.eq("c1", (ci.c1a, ci.c1b), t1)
    c.eq("c2", (ci.c2aa, ci.c2ab, ci.c2ba, ci.c2bb), (t2[0], t2[1], ba, t2[-1]))
    c.eq("cc1", (cc.t1a, cc.t1b, cc.l1a, cc.l1b), t1 + l1)
    c.eq("cc2", (cc.t2aa, cc.t2ab, cc.t2ba, cc.t2bb), (t2[0], t2[1], ba, t2[-1]))
    c.eq("l2", (cc.l2aa, cc.l2ab, cc.l2ba, cc.l2bb), (l2[0], l2[1], lba, l2[-1]))
    c.eq("mp2", (mp.t2aa, mp.t2ab, mp.t2ba, mp.t2bb), (t2[0], t2[1], ba, t2[-1]))


# ---------------------------------------------------------------- triples and quadruples
def perm_sign(p):
    s = 1
    p = list(p)
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def set_partitions(lst):
    if not lst:
        yield []
        return
    first, rest = lst[0], lst[1:]
    for part in set_partitions(rest):
        yield [[first]] + part
        for k in range(len(part)):
            yield part[:k] + [[first] + part[k]] + part[k + 1:]


def cluster_expansion(c, sig, T):
    """C_n of spin signature sig = linked expansion of exp(T): sum over set partitions of the holes and assignments of the
    particles to the blocks, with the fermionic sign.  T(sig_block) -> (tensor, order) of the block amplitude."""
    import itertools
    n = len(sig)
    I, A = "ijkl"[:n], "abcd"[:n]
    tot = None
    for part in set_partitions(list(range(n))):
        part = [sorted(b) for b in part]
        part.sort()
        sizes = [len(b) for b in part]
        # all assignments of particle indices
        def assign(k, free):
            if k == len(part):
                yield []
                return
            for sub in itertools.combinations(free, sizes[k]):
                rest = [x for x in free if x not in sub]
                for tail in assign(k + 1, rest):
                    yield [list(sub)] + tail
        for vs in assign(0, list(range(n))):
            if any(sorted(sig[i] for i in b) != sorted(sig[a] for a in vb) for b, vb in zip(part, vs)):
                continue
            # within each block, order particles so that spins pair up with the holes
            ops, subs, sign = [], [], 1
            hole_order, part_order = [], []
            for b, vb in zip(part, vs):
                # arrange (hole, particle) pairs of equal spin
                av = list(vb)
                pairs = []
                for i in b:
                    a = next(x for x in av if sig[x] == sig[i])
                    av.remove(a)
                    pairs.append((i, a))
                t, order = T("".join(sig[i] for i, _ in pairs))
                pairs = [pairs[q] for q in order]
                hole_order += [p[0] for p in pairs]
                part_order += [p[1] for p in pairs]
                ops.append(t)
                subs.append("".join(I[p[0]] for p in pairs) + "".join(A[p[1]] for p in pairs))
            sign = perm_sign(hole_order) * perm_sign(part_order)
            term = c.einsum(",".join(subs) + "->" + I + A, *ops)
            tot = sign * term if tot is None else tot + sign * term
    return tot


def u_amps(c, d, maxn=4):
    oa, va, ob, vb = d
    O, V = dict(a=oa, b=ob), dict(a=va, b=vb)
    amps = {}
    sigs = ["a", "b", "aa", "ab", "bb", "aaa", "aba", "bab", "bbb", "aaaa", "aaab", "abab", "abbb", "bbbb"]
    for s in sigs:
        if len(s) <= maxn:
            amps[s] = c.tensor("t_" + s, tuple(O[x] for x in s) + tuple(V[x] for x in s), sym=antisym(s) or None)
    return amps


@contract(P, "t_to_c_uhf", ["t_to_c.t1_uhf", "t_to_c.t2_uhf", "t_to_c.t3_uhf", "t_to_c.t4_uhf",
                            "UCISDTQ_WaveFunction.as_ccsdtq", "UCCSDTQ_WaveFunction.as_ccsd"],
          cases=product_cases(n=[3, 4]), n=2, timeout=200,
          note="t = t_to_c(cluster expansion of t): exp(T) and the CI amplitudes describe the same state")
def _(c, n):
    from vayesta.core.types.wf import t_to_c
    d = udims(c, max=2 if n == 4 else 3)
    T = u_amps(c, d, n)

    def get(sig):
        key, q = find_order(sig, T)
        return T[key], q
    C = {s: cluster_expansion(c, s, get) for s in T}
    t1 = t_to_c.t1_uhf((C["a"], C["b"]))
    c.eq("t1", t1, (T["a"], T["b"]))
    t2 = t_to_c.t2_uhf((T["a"], T["b"]), (C["aa"], C["ab"], C["bb"]))
    c.eq("t2", t2, (T["aa"], T["ab"], T["bb"]))
    k3 = ["aaa", "aba", "bab", "bbb"]
    t3 = t_to_c.t3_uhf((T["a"], T["b"]), (T["aa"], T["ab"], T["bb"]), tuple(C[k] for k in k3))
    for k, x in zip(k3, t3):
        c.eq("t3 " + k, x, T[k])
    if n == 3:
        return
    k4 = ["aaaa", "aaab", "abab", "abbb", "bbbb"]
    t4 = t_to_c.t4_uhf((T["a"], T["b"]), (T["aa"], T["ab"], T["bb"]), tuple(T[k] for k in k3), tuple(C[k] for k in k4))
    for k, x in zip(k4, t4):
        c.eq("t4 " + k, x, T[k])


@contract(P, "t_to_c_rhf", ["t_to_c.t1_rhf", "t_to_c.t2_rhf", "t_to_c.t3_rhf", "t_to_c.t4_rhf"],
          cases=product_cases(n=[3, 4]), n=2, timeout=200)
def _(c, n):
    """Restricted formulae against the unrestricted cluster expansion with spin-adapted amplitudes."""
    from vayesta.core.types.wf import t_to_c
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    t1 = c.tensor("t1", (o, v))
    t2 = c.tensor("t2", (o, o, v, v), sym=RSYM2)
    # aba triples: antisymmetric in (i,k), (a,c)
    t3 = c.tensor("t3", (o, o, o, v, v, v), sym=[((2, 1, 0, 3, 4, 5), -1), ((0, 1, 2, 5, 4, 3), -1)])
    if n == 4:
        # the closed-shell relation t3_aaa = P t3_aba requires spin-adapted triples: build them from a spin-free tensor
        w = c.tensor("w", (o, o, o, v, v, v), sym=[((1, 0, 2, 4, 3, 5), 1), ((0, 2, 1, 3, 5, 4), 1)])
        t3 = w - w.transpose(2, 1, 0, 3, 4, 5)
        t3aaa = t3 - t3.transpose(1, 0, 2, 3, 4, 5) - t3.transpose(0, 2, 1, 3, 4, 5)
    else:
        t3aaa = None
    t2aa = t2 - t2.transpose(0, 1, 3, 2)
    T = {"a": t1, "b": t1, "aa": t2aa, "ab": t2, "bb": t2aa, "aba": t3, "bab": t3, "aaa": t3aaa, "bbb": t3aaa}
    if n == 4:
        T["abaa"] = c.tensor("t4", (o,) * 4 + (v,) * 4, sym=antisym("abaa"))
        T["abab"] = c.tensor("u4", (o,) * 4 + (v,) * 4, sym=antisym("abab"))

    def get(sig):
        key, q = find_order(sig, T)
        return T[key], q
    c.eq("t1", t_to_c.t1_rhf(t1), t1)
    c.eq("t2", t_to_c.t2_rhf(t1, cluster_expansion(c, "ab", get)), t2)
    c.eq("t3", t_to_c.t3_rhf(t1, t2, cluster_expansion(c, "aba", get)), t3)
    if n == 4:
        r = t_to_c.t4_rhf(t1, t2, t3, (cluster_expansion(c, "abaa", get), cluster_expansion(c, "abab", get)))
        c.eq("t4 abaa", r[0], T["abaa"])
        c.eq("t4 abab", r[1], T["abab"])
