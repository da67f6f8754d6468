"""Concrete laboratory: small systems with generic (non-canonical, symmetry-free) reference orbitals, arbitrary
amplitudes, and embeddings built by the real code.  Used by contracts with sym=False (labelled bounded)."""
import functools

import numpy as np
import pyscf
import pyscf.gto
import pyscf.scf
import pyscf.ao2mo
import pyscf.df

from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
from vayesta.core.types import wf as wft

GEO = {
    2: "H 0 0 0; H 0 0.1 1.0",
    3: "H 0 0 0; H 0 0.1 1.0; H 0.9 0.3 0.1",
    4: "H 0 0 0; H 0 0.1 1.0; H 0.9 0.3 0.1; H 0.2 1.2 0.7",
    5: "H 0 0 0; H 0 0.1 1.0; H 0.9 0.3 0.1; H 0.2 1.2 0.7; H -0.8 0.4 0.9",
    6: "H 0 0 0; H 0 0.1 1.0; H 0.9 0.3 0.1; H 0.2 1.2 0.7; H -0.8 0.4 0.9; H -0.3 -0.9 0.2",
}


def qr(rng, n):
    return np.linalg.qr(rng.normal(size=(n, n)))[0]


def make_mf(spin="r", natom=6, basis="sto-3g", canonical=False, seed=1, df=False, mspin=None, geo=None):
    """spin: 'r' or 'u'.  canonical=False: Slater determinant of random orthonormal orbitals (not a HF solution)."""
    if mspin is None:
        mspin = (2 if natom % 2 == 0 else 1) if spin == "u" else 0
    mol = pyscf.gto.M(atom=geo or GEO[natom], basis=basis, verbose=0, spin=mspin)
    cls = pyscf.scf.RHF if spin == "r" else pyscf.scf.UHF
    mf = cls(mol)
    if df:
        mf = mf.density_fit(auxbasis="weigend" if df is True else df)
    mf.conv_tol = 1e-12
    mf.max_cycle = 150
    mf.kernel()
    if not canonical:
        rng = np.random.default_rng(seed)
        if spin == "r":
            mf.mo_coeff = mf.mo_coeff @ qr(rng, mf.mo_coeff.shape[-1])
        else:
            mf.mo_coeff = np.asarray([x @ qr(rng, x.shape[-1]) for x in mf.mo_coeff])
        dm = mf.make_rdm1()
        mf.e_tot = mf.energy_tot(dm)
        f = mf.get_fock(dm=dm)
        if spin == "r":
            mf.mo_energy = np.diag(mf.mo_coeff.T @ f @ mf.mo_coeff).copy()
        else:
            mf.mo_energy = np.asarray([np.diag(c.T @ x @ c) for c, x in zip(mf.mo_coeff, f)])
        mf.converged = True
    return mf


def nocc(mf):
    if np.ndim(mf.mo_occ) == 1:
        return int(np.count_nonzero(mf.mo_occ > 0))
    return tuple(int(np.count_nonzero(x > 0)) for x in mf.mo_occ)


def is_r(mf):
    return np.ndim(mf.mo_occ) == 1


def orbitals(mf):
    if is_r(mf):
        return SpatialOrbitals(mf.mo_coeff, occ=np.asarray(mf.mo_occ, dtype=float))
    return SpinOrbitals(tuple(mf.mo_coeff), occ=tuple(np.asarray(x, dtype=float) for x in mf.mo_occ))


def _r2(rng, o, v):
    t = rng.normal(size=(o, o, v, v))
    return t + t.transpose(1, 0, 3, 2)


def _a2(rng, o, v):
    t = rng.normal(size=(o, o, v, v))
    t = t - t.transpose(1, 0, 2, 3)
    return t - t.transpose(0, 1, 3, 2)


def random_amps(rng, mf, scale=0.1):
    if is_r(mf):
        o, v = nocc(mf), mf.mo_coeff.shape[-1] - nocc(mf)
        return scale * rng.normal(size=(o, v)), scale * _r2(rng, o, v)
    (oa, ob), n = nocc(mf), mf.mo_coeff.shape[-1]
    va, vb = n - oa, n - ob
    t1 = (scale * rng.normal(size=(oa, va)), scale * rng.normal(size=(ob, vb)))
    t2 = (scale * _a2(rng, oa, va), scale * rng.normal(size=(oa, ob, va, vb)), scale * _a2(rng, ob, vb))
    return t1, t2


def random_ccsd(rng, mf, lam=True, scale=0.1, singles=True):
    t1, t2 = random_amps(rng, mf, scale)
    l1, l2 = random_amps(rng, mf, scale)
    if not singles:
        z = (lambda x: tuple(0 * y for y in x)) if isinstance(t1, tuple) else (lambda x: 0 * x)
        t1, l1 = z(t1), z(l1)
    if not lam:
        l1, l2 = None, None
    cls = wft.RCCSD_WaveFunction if is_r(mf) else wft.UCCSD_WaveFunction
    return cls(orbitals(mf), t1, t2, l1=l1, l2=l2)


@functools.lru_cache(maxsize=None)
def _ao_eri(key):
    raise KeyError


def ao_eri(mf):
    """Full 4-index AO integrals of the Hamiltonian the mean field uses."""
    n = mf.mol.nao
    if getattr(mf, "with_df", None) is not None:
        cd = np.concatenate([x.copy() for x in mf.with_df.loop()])
        cd = pyscf.lib.unpack_tril(cd)
        return np.einsum("Lpq,Lrs->pqrs", cd, cd)
    return pyscf.ao2mo.restore(1, mf.mol.intor("int2e", aosym="s8"), n)


def mo_eri(mf, c4=None):
    e = ao_eri(mf)
    if c4 is None:
        c4 = 4 * [mf.mo_coeff]
    for c in c4:
        e = np.tensordot(e, c, axes=(0, 0))
    return e


def mo_eri_u(mf):
    e = ao_eri(mf)
    ca, cb = mf.mo_coeff

    def tr(c4):
        x = e
        for c in c4:
            x = np.tensordot(x, c, axes=(0, 0))
        return x
    return tr((ca, ca, ca, ca)), tr((ca, ca, cb, cb)), tr((cb, cb, cb, cb))


def fock(mf):
    return mf.get_hcore() + mf.get_veff(mf.mol, mf.make_rdm1())


def e_wf_ref(mf, t1, t2, parts=False):
    """<0|H exp(T)|singles+doubles part of exp(T) with C2 = T2 + T1 T1> correlation energy."""
    f = fock(mf)
    if is_r(mf):
        o = nocc(mf)
        co, cv = mf.mo_coeff[:, :o], mf.mo_coeff[:, o:]
        g = mo_eri(mf, (co, cv, co, cv))
        c2 = t2 + np.einsum("ia,jb->ijab", t1, t1)
        return 2 * np.sum((co.T @ f @ cv) * t1) + 2 * np.einsum("ijab,iajb", c2, g) - np.einsum("ijab,ibja", c2, g)
    (oa, ob) = nocc(mf)
    ca, cb = mf.mo_coeff
    gaa, gab, gbb = mo_eri_u(mf)
    e = np.sum((ca[:, :oa].T @ f[0] @ ca[:, oa:]) * t1[0]) + np.sum((cb[:, :ob].T @ f[1] @ cb[:, ob:]) * t1[1])
    for t1s, t2s, gg, o in ((t1[0], t2[0], gaa, oa), (t1[1], t2[2], gbb, ob)):
        c2 = t2s + np.einsum("ia,jb->ijab", t1s, t1s) - np.einsum("ib,ja->ijab", t1s, t1s)
        gs = gg[:o, o:, :o, o:]
        e += 0.25 * (np.einsum("ijab,iajb", c2, gs) - np.einsum("ijab,ibja", c2, gs))
    c2 = t2[1] + np.einsum("ia,jb->ijab", t1[0], t1[1])
    e += np.einsum("ijab,iajb", c2, gab[:oa, oa:, :ob, ob:])
    return e


def e_dm_ref(mf, dm1, dm2):
    """Electronic+nuclear energy of MO-basis density matrices (full, with mean field)."""
    h = mf.get_hcore()
    e = mf.mol.energy_nuc()
    if is_r(mf):
        c = mf.mo_coeff
        return e + np.sum((c.T @ h @ c) * dm1) + 0.5 * np.sum(mo_eri(mf) * dm2)
    ca, cb = mf.mo_coeff
    gaa, gab, gbb = mo_eri_u(mf)
    return (e + np.sum((ca.T @ h @ ca) * dm1[0]) + np.sum((cb.T @ h @ cb) * dm1[1])
            + 0.5 * np.sum(gaa * dm2[0]) + np.sum(gab * dm2[1]) + 0.5 * np.sum(gbb * dm2[2]))


SPLITS = {
    2: [[0], [1]],
    3: [[0, 1], [2]],
    4: [[0, 1], [2], [3]],
    5: [[0, 3], [1], [2, 4]],
    6: [[0, 1], [2], [3, 4, 5]],
}


def make_ewf(mf, wf=None, frag="sao", bath="full", split=None, kernel=True, **kw):
    import vayesta.ewf
    bo = dict(bathtype=bath) if isinstance(bath, str) else dict(bath)
    opts = dict(kw)
    if wf is not None:
        opts["_debug_wf"] = wf
    solver = opts.pop("solver", "CCSD")
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=bo, **opts)
    add_fragments(emb, frag, split or SPLITS[mf.mol.natm])
    if kernel:
        emb.kernel()
    return emb


def add_fragments(emb, frag, split):
    ctx = getattr(emb, frag + "_fragmentation")()
    with ctx as f:
        for a in split:
            f.add_atomic_fragment(a if len(a) > 1 else a[0])


def trafo(mf, rng):
    pass
