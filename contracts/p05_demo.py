"""P05: democratically partitioned density matrices and DMET energies."""
import numpy as np

from engine.core import contract, product_cases, Skip
from vayesta.core.qemb import rdm as qrdm, fragment as qf, ufragment as quf
from vayesta.dmet import fragment as df_, ufragment as duf
from .common import *
from . import lab
from . import embstub as es

P = "P05"
B = "3 fragments, up to 6 orbitals of either spin, random amplitudes and random (non-HF) reference orbitals"


# ---------------------------------------------------------------- deductive

def frags_r(c, n=2):
    """Clusters: isometric combinations R of the MOs; fragment projector p in the cluster basis arbitrary symmetric."""
    o, v = c.dim("o", max=3), c.dim("v", max=3)
    nmo = o + v
    fr = []
    for k in range(n):
        m = c.dim("m%d" % k, max=4)
        R = c.tensor("R%d" % k, (nmo, m))
        p = c.tensor("p%d" % k, (m, m), sym=[((1, 0), 1)])
        d1 = c.tensor("d1_%d" % k, (m, m), sym=[((1, 0), 1)])
        d2 = c.tensor("d2_%d" % k, (m, m, m, m), sym=[((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1)])
        d2e = c.tensor("d2e_%d" % k, (m, m, m, m), sym=[((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1)])

        def rdm1(with_mf=True, ao_basis=False, d=d1):
            if with_mf or ao_basis:
                raise es.StubMissing("make_rdm1 with mean field")
            return d.copy()

        def rdm2(with_dm1=True, ao_basis=False, approx_cumulant=True, a=d2, e=d2e):
            if with_dm1 or ao_basis:
                raise es.StubMissing("make_rdm2 with 1DM")
            return (a if approx_cumulant else e).copy()
        fr.append(c.ns(results=c.ns(wf=c.ns(make_rdm1=rdm1, make_rdm2=rdm2)), R=R, p=p, d1=d1, d2=d2, d2e=d2e, id=k,
                       get_overlap=es.overlap3({"mo|cluster": R, "cluster|frag|cluster": p, "mo|frag|mo": R @ p @ R.T})))
    C = c.tensor("C", (c.dim("nao"), nmo))
    emb = c.ns(nocc=o, nvir=v, nmo=nmo, mo_coeff=C, get_ovlp=lambda: None, log=c.log, fragments=fr,
               get_fragments=lambda *a, **k: list(fr))
    return emb


@contract(P, "rdm1_r", ["make_rdm1_demo_rhf"], cases=product_cases(mf=[True, False], sy=[True, False], ao=[True, False]))
def _(c, mf, sy, ao):
    emb = frags_r(c)
    got = qrdm.make_rdm1_demo_rhf(emb, with_mf=mf, symmetrize=sy, ao_basis=ao)
    ref = 0
    for x in emb.fragments:
        ref = ref + x.R @ x.p @ x.d1 @ x.R.T
    if sy:
        ref = (ref + ref.T) / 2
    if mf:
        ref = ref + 2 * mfocc(c, emb.nocc, emb.nvir)
    if ao:
        ref = emb.mo_coeff @ ref @ emb.mo_coeff.T
    c.eq("dm1", got, ref)


def mfocc(c, o, v):
    """Projector on the first o of o+v orbitals."""
    d = c.zeros(o + v, o + v)
    d[:o, :o] = c.eye(o)
    return d


@contract(P, "rdm2_r", ["make_rdm2_demo_rhf"], cases=product_cases(ap=[True, False], sy=[True, False], ao=[True, False]))
def _(c, ap, sy, ao):
    emb = frags_r(c)
    got = qrdm.make_rdm2_demo_rhf(emb, with_dm1=False, approx_cumulant=ap, symmetrize=sy, ao_basis=ao)
    ref = 0
    for x in emb.fragments:
        d = x.d2 if ap else x.d2e
        ref = ref + c.einsum("xi,ijkl,px,qj,rk,sl->pqrs", x.p, d, x.R, x.R, x.R, x.R)
    if sy:
        ref = (ref + ref.transpose(1, 0, 3, 2)) / 2
    if ao:
        C = emb.mo_coeff
        ref = c.einsum("ijkl,pi,qj,rk,sl->pqrs", ref, C, C, C, C)
    c.eq("dm2", got, ref)


def frags_u(c, n=2):
    o = [c.dim("oa", max=3), c.dim("ob", max=3)]
    v = [c.dim("va", max=3), c.dim("vb", max=3)]
    fr = []
    S2 = [((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1)]
    for k in range(n):
        m = [c.dim("ma%d" % k, max=3), c.dim("mb%d" % k, max=3)]
        R = tuple(c.tensor("R%d%d" % (k, s), (o[s] + v[s], m[s])) for s in range(2))
        p = tuple(c.tensor("p%d%d" % (k, s), (m[s], m[s]), sym=[((1, 0), 1)]) for s in range(2))
        d1 = tuple(c.tensor("d%d%d" % (k, s), (m[s], m[s]), sym=[((1, 0), 1)]) for s in range(2))
        d2 = (c.tensor("daa%d" % k, (m[0],) * 4, sym=S2), c.tensor("dab%d" % k, (m[0], m[0], m[1], m[1]), sym=[((1, 0, 3, 2), 1)]),
              c.tensor("dbb%d" % k, (m[1],) * 4, sym=S2))

        def rdm1(with_mf=True, ao_basis=False, d=d1):
            if with_mf or ao_basis:
                raise es.StubMissing("make_rdm1 with mean field")
            return tuple(x.copy() for x in d)

        def rdm2(with_dm1=True, ao_basis=False, approx_cumulant=True, a=d2):
            if with_dm1 or ao_basis or not approx_cumulant:
                raise es.StubMissing("make_rdm2 with 1DM")
            return tuple(x.copy() for x in a)
        fr.append(c.ns(results=c.ns(wf=c.ns(make_rdm1=rdm1, make_rdm2=rdm2)), R=R, p=p, d1=d1, d2=d2, id=k,
                       get_overlap=es.overlap3({"mo|cluster": R, "cluster|frag|cluster": p,
                                                "mo|frag|mo": tuple(R[s] @ p[s] @ R[s].T for s in range(2))})))
    nao = c.dim("nao")
    C = tuple(c.tensor("C%d" % s, (nao, o[s] + v[s])) for s in range(2))
    return c.ns(nocc=tuple(o), nvir=tuple(v), nmo=tuple(o[s] + v[s] for s in range(2)), mo_coeff=C, get_ovlp=lambda: None, log=c.log,
                fragments=fr, get_fragments=lambda *a, **k: list(fr))


@contract(P, "rdm1_u", ["make_rdm1_demo_uhf"], cases=product_cases(mf=[True, False], sy=[True, False], ao=[True, False]))
def _(c, mf, sy, ao):
    emb = frags_u(c)
    got = qrdm.make_rdm1_demo_uhf(emb, with_mf=mf, symmetrize=sy, ao_basis=ao)
    for s in range(2):
        ref = 0
        for x in emb.fragments:
            ref = ref + x.R[s] @ x.p[s] @ x.d1[s] @ x.R[s].T
        if sy:
            ref = (ref + ref.T) / 2
        if mf:
            ref = ref + mfocc(c, emb.nocc[s], emb.nvir[s])
        if ao:
            ref = emb.mo_coeff[s] @ ref @ emb.mo_coeff[s].T
        c.eq("dm1[%d]" % s, got[s], ref)


@contract(P, "rdm2_u", ["make_rdm2_demo_uhf"], cases=product_cases(sy=[True, False], ao=[True, False]))
def _(c, sy, ao):
    emb = frags_u(c)
    got = qrdm.make_rdm2_demo_uhf(emb, with_dm1=False, approx_cumulant=True, symmetrize=sy, ao_basis=ao)
    for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
        ref = 0
        for x in emb.fragments:
            a = c.einsum("xi,ijkl,px,qj,rk,sl->pqrs", x.p[s], x.d2[k], x.R[s], x.R[s], x.R[t], x.R[t])
            if s != t:
                b = c.einsum("xk,ijkl,pi,qj,rx,sl->pqrs", x.p[t], x.d2[k], x.R[s], x.R[s], x.R[t], x.R[t])
                a = (a + b) / 2
            ref = ref + a
        if sy:
            ref = (ref + ref.transpose(1, 0, 3, 2)) / 2
        if ao:
            C, D = emb.mo_coeff[s], emb.mo_coeff[t]
            ref = c.einsum("ijkl,pi,qj,rk,sl->pqrs", ref, C, C, D, D)
        c.eq("dm2[%d]" % k, got[k], ref)


ERI8 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1), ((2, 3, 0, 1), 1)]


@contract(P, "frag_dmet_energy_r", ["qemb.Fragment.get_fragment_dmet_energy"], cases=product_cases(pc=[True, False], given=[True, False]))
def _(c, pc, given):
    o, v, nao = c.dim("o"), c.dim("v"), c.dim("nao")
    m = o + v
    C = c.tensor("C", (nao, c.axis(o, v)))
    h, V = c.tensor("h", (nao, nao), sym=[((1, 0), 1)]), c.tensor("V", (nao, nao), sym=[((1, 0), 1)])
    g = c.tensor("g", (c.axis(o, v),) * 4, sym=ERI8)
    p = c.tensor("p", (c.axis(o, v),) * 2, sym=[((1, 0), 1)])
    d1 = c.tensor("d1", (c.axis(o, v),) * 2)
    d2 = c.tensor("d2", (c.axis(o, v),) * 4)
    w = c.scalar("sf")

    def rdm2(with_dm1=True, ao_basis=False, approx_cumulant=True, **kw):
        if with_dm1 == pc or ao_basis or not approx_cumulant:
            raise es.StubMissing("make_rdm2")
        return d2.copy()
    hamil = c.ns(get_eris_bare=lambda *a: g)
    self = c.ns(mpi_rank=0, log=c.log, results=c.ns(dm1=d1, wf=c.ns(make_rdm2=rdm2)), opts=c.ns(sym_factor=w), sym_factor=w,
                cluster=c.ns(c_active=C, nocc_active=o), _hamil=hamil, hamil=hamil,
                base=c.ns(get_hcore_for_energy=lambda: h, get_veff_for_energy=lambda with_exxdiv=True, dm1=None: V),
                get_fragment_projector=lambda coeff: p)
    kw = dict(hamil=hamil, dm1=d1, dm2=d2) if given else {}
    e = qf.Fragment.get_fragment_dmet_energy(self, part_cumulant=pc, approx_cumulant=True, **kw)
    E = c.einsum
    heff = C.T @ h @ C
    if not pc:
        oo = slice(None, o)
        heff = heff + C.T @ V @ C / 2 - E("iipq->pq", g[oo, oo]) + E("ipqi->pq", g[oo, :, :, oo]) / 2
    ref = E("xj,xi,ij->", heff, p, d1) + E("xjkl,xi,ijkl->", g, p, d2) / 2
    c.eq("energy", e, w * ref)


@contract(P, "frag_dmet_energy_u", ["qemb.UFragment.get_fragment_dmet_energy"], cases=product_cases(pc=[True, False]))
def _(c, pc):
    o = [c.dim("oa"), c.dim("ob")]
    v = [c.dim("va"), c.dim("vb")]
    nao = c.dim("nao")
    ax = [c.axis(o[s], v[s]) for s in range(2)]
    C = tuple(c.tensor("C%d" % s, (nao, ax[s])) for s in range(2))
    h = c.tensor("h", (nao, nao), sym=[((1, 0), 1)])
    V = c.np.asarray([c.tensor("V%d" % s, (nao, nao), sym=[((1, 0), 1)]) for s in range(2)]) if not c.symbolic else \
        c.np.stack([c.tensor("V%d" % s, (nao, nao), sym=[((1, 0), 1)]) for s in range(2)])
    g = (c.tensor("gaa", (ax[0],) * 4, sym=ERI8), c.tensor("gab", (ax[0], ax[0], ax[1], ax[1]), sym=ERI8[:2]), c.tensor("gbb", (ax[1],) * 4, sym=ERI8))
    p = tuple(c.tensor("p%d" % s, (ax[s],) * 2, sym=[((1, 0), 1)]) for s in range(2))
    d1 = tuple(c.tensor("d1%d" % s, (ax[s],) * 2) for s in range(2))
    d2 = (c.tensor("daa", (ax[0],) * 4), c.tensor("dab", (ax[0], ax[0], ax[1], ax[1])), c.tensor("dbb", (ax[1],) * 4))
    w = c.scalar("sf")

    def rdm2(with_dm1=True, ao_basis=False, approx_cumulant=True, **kw):
        if with_dm1 == pc or ao_basis or not approx_cumulant:
            raise es.StubMissing("make_rdm2")
        return d2
    hamil = c.ns(get_eris_bare=lambda *a: g)
    self = c.ns(mpi_rank=0, log=c.log, results=c.ns(dm1=d1, wf=c.ns(make_rdm2=rdm2)), opts=c.ns(sym_factor=w), sym_factor=w,
                cluster=c.ns(c_active=C, nocc_active=tuple(o)), _hamil=hamil, hamil=hamil,
                base=c.ns(get_hcore_for_energy=lambda: h, get_veff_for_energy=lambda with_exxdiv=True, dm1=None: V),
                get_fragment_projector=lambda coeff: p)
    e = quf.UFragment.get_fragment_dmet_energy(self, part_cumulant=pc, approx_cumulant=True)
    E = c.einsum
    ref = 0
    for s in range(2):
        t = 1 - s
        heff = C[s].T @ h @ C[s]
        if not pc:
            oo, ot = slice(None, o[s]), slice(None, o[t])
            gs = g[0] if s == 0 else g[2]
            gx = g[1] if s == 0 else g[1].transpose(2, 3, 0, 1)
            heff = heff + C[s].T @ V[s] @ C[s] / 2 - (E("iipq->pq", gs[oo, oo]) + E("pqii->pq", gx[:, :, ot, ot]) - E("ipqi->pq", gs[oo, :, :, oo])) / 2
        ref = ref + E("xj,xi,ij->", heff, p[s], d1[s])
    ref = ref + (E("xjkl,xi,ijkl->", g[0], p[0], d2[0]) + E("xjkl,xi,ijkl->", g[2], p[1], d2[2])
                 + E("xjkl,xi,ijkl->", g[1], p[0], d2[1]) + E("ijxl,xk,ijkl->", g[1], p[1], d2[1])) / 2
    c.eq("energy", e, w * ref)


@contract(P, "frag_mf_energy", ["Fragment.get_fragment_projector", "UFragment.get_fragment_projector"], cases=product_cases(spin=["r", "u"], inv=[False, True]))
def _(c, spin, inv):
    """Projector matrix elements in any orbital set."""
    nao = c.dim("nao", max=6)
    S = c.spd("S", nao)
    if spin == "r":
        m, f = c.dim("m"), c.dim("f")
        C, F = c.tensor("C", (nao, m)), c.tensor("F", (nao, f))
        self = c.ns(base=c.ns(get_ovlp=lambda: S), c_proj=F)
        got = qf.Fragment.get_fragment_projector(self, C, inverse=inv)
        r = C.T @ S @ F @ F.T @ S @ C
        c.eq("p", got, c.eye(m) - r if inv else r)
        D = c.tensor("D", (nao, f))
        got = qf.Fragment.get_fragment_projector(self, C, c_proj=D)
        c.eq("p(c_proj)", got, C.T @ S @ D @ D.T @ S @ C)
    else:
        m = [c.dim("ma"), c.dim("mb")]
        f = [c.dim("fa"), c.dim("fb")]
        C = tuple(c.tensor("C%d" % s, (nao, m[s])) for s in range(2))
        F = tuple(c.tensor("F%d" % s, (nao, f[s])) for s in range(2))
        def R(self_, *a, **k):
            return qf.Fragment.get_fragment_projector(self_, *a, **k)
        self = quf.UFragment.__new__(quf.UFragment)
        self.base = c.ns(get_ovlp=lambda: S)
        self._c_proj_stub = F
        cls = type("S_", (quf.UFragment,), dict(c_proj=property(lambda s: F), __repr__=lambda s: "stub", __str__=lambda s: "stub"))
        self.__class__ = cls
        got = self.get_fragment_projector(C, inverse=inv)
        for s in range(2):
            r = C[s].T @ S @ F[s] @ F[s].T @ S @ C[s]
            c.eq("p%d" % s, got[s], c.eye(m[s]) - r if inv else r)


# ---------------------------------------------------------------- laboratory

def setup(c, spin, bath="full", frag="sao", df=False):
    natom = {"r": 6, "u": 5}[spin]
    mf = lab.make_mf(spin, natom, seed=int(c.rng.integers(1 << 30)), df=df)
    wf = lab.random_ccsd(c.rng, mf)
    return mf, wf, lab.make_ewf(mf, wf, frag=frag, bath=bath)


def tadd(a, b, f=1):
    if isinstance(a, (tuple, list)):
        return tuple(tadd(x, y, f) for x, y in zip(a, b))
    return a + f * b


def ncum(d1):
    """Non-cumulant part of a 2-DM."""
    if isinstance(d1, tuple):
        a, b = d1
        k = lambda x: np.einsum("ij,kl->ijkl", x, x) - np.einsum("ij,kl->iklj", x, x)
        return k(a), np.einsum("ij,kl->ijkl", a, b), k(b)
    return np.einsum("ij,kl->ijkl", d1, d1) - np.einsum("ij,kl->iklj", d1, d1) / 2


def ncum_mix(d0, dd):
    """Non-cumulant part with the square of the correlation part removed: both products linear in dd."""
    if isinstance(d0, tuple):
        return tuple(tadd(tadd(x, y, -1), z, 0) for x, y, z in zip(ncum(tadd(d0, dd)), ncum(dd), ncum(d0)))
    return ncum(d0 + dd) - ncum(dd)


def sym(d2):
    if isinstance(d2, tuple):
        return tuple(sym(x) for x in d2)
    return (d2 + d2.transpose(1, 0, 3, 2)) / 2


from .p06_assembly import to_ao, to_ao2, mfdm, sub   # noqa: E402


@contract(P, "full_bath", ["make_rdm1_demo_rhf", "make_rdm2_demo_rhf", "make_rdm1_demo_uhf", "make_rdm2_demo_uhf", "get_dmet_energy",
                           "get_dmet_elec_energy"],
          cases=product_cases(spin=["r", "u"], df=[False, True]), sym=False, n=1, nthorough=4, bounded=B, tol=1e-7)
def _(c, spin, df):
    mf, wf, emb = setup(c, spin, df=df)
    d1, d2 = wf.make_rdm1(), wf.make_rdm2()
    d0 = mfdm(emb, mf)
    dd = sub(d1, d0)
    c.eq("dm1", emb.make_rdm1_demo(), d1)
    c.eq("dm1 no mf", emb.make_rdm1_demo(with_mf=False), dd)
    c.eq("dm1 ao", emb.make_rdm1_demo(ao_basis=True), to_ao(mf, d1))
    cum = sub(d2, ncum(d1))
    apx = sub(d2, ncum_mix(d0, dd))
    M = emb.make_rdm2_demo
    c.eq("dm2", M(), d2)
    c.eq("dm2 ao", M(ao_basis=True), to_ao2(mf, d2))
    c.eq("dm2 exact", M(approx_cumulant=False), d2)
    c.eq("dm2 part", M(part_cumulant=False), d2)
    for pc in (True, False):
        c.eq("approx cumulant %s" % pc, M(with_dm1=False, part_cumulant=pc), apx)
        c.eq("cumulant %s" % pc, M(with_dm1=False, part_cumulant=pc, approx_cumulant=False), cum)
    e = lab.e_dm_ref(mf, d1, d2)
    for pc in (True, False):
        for ap in ((True, False) if pc else (True,)):
            c.eq("energy part=%s approx=%s" % (pc, ap), emb.get_dmet_energy(part_cumulant=pc, approx_cumulant=ap), e)
            c.eq("elec energy part=%s approx=%s" % (pc, ap), emb.get_dmet_elec_energy(part_cumulant=pc, approx_cumulant=ap), e - mf.mol.energy_nuc())
    c.eq("no nuc", emb.get_dmet_energy(with_nuc=False), e - mf.mol.energy_nuc())


@contract(P, "truncated", ["make_rdm1_demo_rhf", "make_rdm2_demo_rhf", "make_rdm1_demo_uhf", "make_rdm2_demo_uhf", "get_dmet_energy"],
          cases=product_cases(spin=["r", "u"]), sym=False, n=1, nthorough=4, bounded=B, tol=1e-7)
def _(c, spin):
    """Any clusters: sum over fragments with the first index of the cluster quantities projected; energies are those of
    the documented contractions of the partitioned density matrices."""
    mf, wf, emb = setup(c, spin, bath="dmet")
    S, h = mf.get_ovlp(), mf.get_hcore()
    eri = lab.ao_eri(mf)
    F = lab.fock(mf)
    V = F - h
    mo = mf.mo_coeff
    r = spin == "r"
    sp = (lambda x, s: x) if r else (lambda x, s: x[s])
    pairs = ((0, 0),) if r else ((0, 0), (0, 1), (1, 1))
    ns = 1 if r else 2
    g1 = [0] * ns
    acc = {k: [0] * len(pairs) for k in ("apx", "cum", "full")}
    d0 = mfdm(emb, mf)
    for x in emb.fragments:
        R = [sp(mo, s).T @ S @ sp(x.cluster.c_active, s) for s in range(ns)]
        Pm = [sp(mo, s).T @ S @ sp(x.c_frag, s) for s in range(ns)]
        Pm = [y @ y.T for y in Pm]
        dx = x.results.wf.make_rdm1(with_mf=False)
        dx = [R[s] @ sp(dx, s) @ R[s].T for s in range(ns)]
        ex = x.results.wf.make_rdm2(with_dm1=False, approx_cumulant=True)
        ex = [np.einsum("ijkl,pi,qj,rk,sl->pqrs", ex if r else ex[k], R[s], R[s], R[t], R[t], optimize=True) for k, (s, t) in enumerate(pairs)]
        cl1 = x.results.wf.make_rdm1()
        cl2 = x.results.wf.make_rdm2()
        cc = sub(cl2, ncum(cl1))
        cc = [np.einsum("ijkl,pi,qj,rk,sl->pqrs", cc if r else cc[k], R[s], R[s], R[t], R[t], optimize=True) for k, (s, t) in enumerate(pairs)]
        dxt = dx[0] if r else tuple(dx)
        mix = ncum_mix(d0, dxt)
        for s in range(ns):
            g1[s] = g1[s] + Pm[s] @ dx[s]
        for k, (s, t) in enumerate(pairs):
            def pj(z):
                a = np.einsum("xi,ijkl->xjkl", Pm[s], z)
                return a if s == t else (a + np.einsum("xk,ijkl->ijxl", Pm[t], z)) / 2
            acc["apx"][k] = acc["apx"][k] + pj(ex[k])
            acc["cum"][k] = acc["cum"][k] + pj(cc[k])
            acc["full"][k] = acc["full"][k] + pj(ex[k] + (mix if r else mix[k]))
    tu = (lambda x: x[0]) if r else tuple
    g1s = tu([(y + y.T) / 2 for y in g1])
    acc = {k: tu(v) for k, v in acc.items()}
    d1 = tadd(g1s, d0)
    c.eq("dm1 raw", emb.make_rdm1_demo(symmetrize=False, with_mf=False), tu(g1))
    c.eq("dm1", emb.make_rdm1_demo(), d1)
    M = emb.make_rdm2_demo
    c.eq("apx raw", M(with_dm1=False, symmetrize=False), acc["apx"])
    c.eq("apx", M(with_dm1=False), sym(acc["apx"]))
    c.eq("cum", M(with_dm1=False, approx_cumulant=False), sym(acc["cum"]))
    c.eq("dm2 apx", M(), sym(tadd(acc["apx"], ncum_mix(d0, g1s))))
    c.eq("dm2 exact", M(approx_cumulant=False), sym(tadd(acc["cum"], ncum(d1))))
    c.eq("dm2 partitioned", M(part_cumulant=False), sym(acc["full"]))
    for pc, ap in ((True, True), (True, False), (False, True)):
        e = lab.e_dm_ref(mf, d1, M(part_cumulant=pc, approx_cumulant=ap))
        c.eq("energy %s %s" % (pc, ap), emb.get_dmet_energy(part_cumulant=pc, approx_cumulant=ap), e)


@contract(P, "dmet_run", ["DMET.kernel", "DMETFragment.kernel", "DMETFragment.get_dmet_energy_contrib", "UDMETFragment.get_dmet_energy_contrib",
                          "DMETFragment.get_frag_hl_dm", "UDMETFragment.get_frag_hl_dm", "calc_electron_number_defect"],
          cases=product_cases(spin=["r", "u"], solver=["FCI"], bath=["full", "dmet"], split=["fine", "coarse"]), sym=False, n=1, nthorough=2,
          bounded="one-shot DMET of H4/H5 chains with FCI", timeout=300, tol=2e-6)
def _(c, spin, solver, bath, split):
    import vayesta.dmet
    import pyscf.fci
    natom = {"r": 4, "u": 3}[spin]
    mf = lab.make_mf(spin, natom, canonical=True)
    tol = 10.0 if bath == "dmet" else 1e-4
    emb = vayesta.dmet.DMET(mf, solver=solver, oneshot=True, bath_options=dict(bathtype=bath), max_elec_err=tol,
                            solver_options=dict(conv_tol=1e-12))
    lab.add_fragments(emb, "sao", [[i] for i in range(natom)] if split == "fine" else lab.SPLITS[natom])
    emb.kernel()
    ne = 0
    for x in emb.fragments:
        d = x.get_frag_hl_dm()
        ne += np.trace(d) if spin == "r" else np.trace(d[0]) + np.trace(d[1])
    if bath == "full":
        e = pyscf.fci.FCI(mf).kernel()[0]
        c.eq("exact energy", emb.e_tot, e, )
        c.eq("electrons", ne, float(mf.mol.nelectron))
        c.eq("dmet energy", emb.get_dmet_energy(part_cumulant=False), e)
    c.eq("nelec", ne, sum(x.get_nelectron_hl() for x in emb.fragments))
    c.eq("mean-field fragment energies sum", sum(x.get_fragment_mf_energy() for x in emb.fragments) + mf.mol.energy_nuc(), mf.e_tot)
    # the fragment energies add up to the energy of the democratically partitioned (full) density matrices
    e = lab.e_dm_ref(mf, emb.make_rdm1(), emb.make_rdm2(part_cumulant=False))
    e1 = sum(x.results.e1 + x.results.e2 for x in emb.fragments) + mf.mol.energy_nuc()
    c.eq("sum of contributions", e1, e)
    c.eq("e_tot", emb.e_tot, e)


@contract(P, "dmet_chempot", ["DMET.kernel", "calc_electron_number_defect"], cases=product_cases(spin=["r", "u"]), sym=False, n=1,
          bounded="one-shot DMET of a heteronuclear system with FCI", timeout=300)
def _(c, spin):
    """The optimised chemical potential brings the fragment electron number to the mean-field one within the tolerance."""
    import vayesta.dmet
    mf = lab.make_mf(spin, 4, canonical=True, geo="Li 0 0 0; H 0 0 1.7; H 1.1 0.2 0.4" if spin == "u" else "Li 0 0 0; H 0 0 1.7",
                     mspin=1 if spin == "u" else 0)
    emb = vayesta.dmet.DMET(mf, solver="FCI", oneshot=True, max_elec_err=1e-6, bath_options=dict(bathtype="dmet"))
    with emb.sao_fragmentation() as f:
        f.add_all_atomic_fragments()
    emb.kernel()
    ne = sum(x.get_nelectron_hl() for x in emb.fragments)
    c.true("electrons", abs(ne - mf.mol.nelectron) < 1e-3)
