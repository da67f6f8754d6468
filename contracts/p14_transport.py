"""P14: data transport between processes and distribution of fragments over processes."""
import functools
import json
import os
import pickle
import shutil
import subprocess
import tempfile

import numpy as np

from engine.core import contract, product_cases
from contracts import lab
from tools import mpi_server
from vayesta.core import helper
from vayesta.core.types import wf as wft
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals

P = "P14"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def same(c, name, a, b):
    if a is None or b is None:
        c.true(name + ": None preserved", a is None and b is None)
        return
    if isinstance(a, (tuple, list)):
        c.true(name + ": number of blocks", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(c, "%s[%d]" % (name, i), x, y)
        return
    a, b = np.asarray(a), np.asarray(b)
    c.true(name + ": shape", a.shape == b.shape)
    c.true(name + ": dtype", a.dtype == b.dtype)
    c.true(name + ": values", a.shape == b.shape and bool(np.all(a == b)))


def rand_array(rng, dt):
    nd = int(rng.integers(0, 5))
    sh = tuple(int(x) for x in rng.integers(0, 4, size=nd))
    if rng.random() < 0.6:
        sh = tuple(max(1, x) for x in sh)
    x = rng.normal(size=sh) * 7
    if dt == "c":
        x = x + 1j * rng.normal(size=sh)
    x = np.asarray(x).astype({"d": float, "c": complex, "i": int, "b": bool, "f": np.float32, "h": np.int16}[dt])
    if nd > 1 and rng.random() < 0.5:
        x = np.asfortranarray(x)
    return x


@contract(P, "pack_arrays", ["pack_arrays", "unpack_arrays", "pack_metadata", "unpack_metadata", "get_dtype_int", "get_dtype"],
          cases=product_cases(dts=["d", "di", "dc", "dcibfh"], none=[0, 1]), sym=False, n=12, nthorough=80,
          bounded="up to 6 arrays of up to 4 dimensions; float, complex, integer, boolean, float32 and int16 data")
def _(c, dts, none):
    rng = c.rng
    arrays = [rand_array(rng, dts[int(rng.integers(len(dts)))]) for _ in range(int(rng.integers(1, 7)))]
    if none:
        arrays.insert(int(rng.integers(len(arrays) + 1)), None)
    keep = [None if a is None else a.copy() for a in arrays]
    packed = helper.pack_arrays(*arrays)
    c.true("single flat array of the transport type", packed.ndim == 1 and packed.dtype == float)
    out = helper.unpack_arrays(packed.copy())
    same(c, "unpack(pack(x))", keep, out)
    same(c, "inputs unchanged", keep, arrays)


def rwf(rng, kind, proj, lam):
    o, v, f = (int(x) for x in rng.integers(1, 4, size=3))
    nao = o + v + int(rng.integers(0, 2))
    mo = SpatialOrbitals(rng.normal(size=(nao, o + v)), energy=rng.normal(size=o + v) if rng.random() < .5 else None, occ=np.asarray(o * [2.] + v * [0.]))
    x = f if proj else o
    p = rng.normal(size=(x, o)) if proj else None
    if kind == "ccsd":
        l = dict(l1=rng.normal(size=(x, v)), l2=rng.normal(size=(x, o, v, v))) if lam else {}
        return wft.RCCSD_WaveFunction(mo, rng.normal(size=(x, v)), rng.normal(size=(x, o, v, v)), projector=p, **l)
    if kind == "mp2":
        return wft.RMP2_WaveFunction(mo, rng.normal(size=(x, o, v, v)), projector=p)
    n = o + v
    return wft.RRDM_WaveFunction(mo, rng.normal(size=(n, n)), rng.normal(size=(n, n, n, n)), projector=p)


def uwf(rng, kind, proj, lam, nb):
    (oa, ob), (va, vb), (fa, fb) = [[int(x) for x in rng.integers(1, 4, size=2)] for _ in range(3)]
    nao = max(oa + va, ob + vb)
    en = (rng.normal(size=oa + va), rng.normal(size=ob + vb)) if rng.random() < .5 else None
    mo = SpinOrbitals((rng.normal(size=(nao, oa + va)), rng.normal(size=(nao, ob + vb))), energy=en,
                      occ=(np.asarray(oa * [1.] + va * [0.]), np.asarray(ob * [1.] + vb * [0.])))
    xa, xb = (fa, fb) if proj else (oa, ob)
    p = (rng.normal(size=(xa, oa)), rng.normal(size=(xb, ob))) if proj else None

    def d():
        t = [rng.normal(size=(xa, oa, va, va)), rng.normal(size=(xa, ob, va, vb)), rng.normal(size=(xb, oa, vb, va)), rng.normal(size=(xb, ob, vb, vb))]
        return tuple(t) if nb == 4 else (t[0], t[1], t[3])

    def s():
        return (rng.normal(size=(xa, va)), rng.normal(size=(xb, vb)))
    if kind == "ccsd":
        l = dict(l1=s(), l2=d()) if lam else {}
        return wft.UCCSD_WaveFunction(mo, s(), d(), projector=p, **l)
    return wft.UMP2_WaveFunction(mo, d(), projector=p)


FIELDS = {"ccsd": ["t1", "t2", "l1", "l2", "projector"], "mp2": ["t2", "projector"], "rdm": ["dm1", "dm2", "projector"]}


def check_wf(c, kind, wf):
    snap = {k: (None if getattr(wf, k) is None else pickle.loads(pickle.dumps(getattr(wf, k)))) for k in FIELDS[kind]}
    out = type(wf).unpack(wf.pack())
    c.true("type", type(out) is type(wf))
    for k in FIELDS[kind]:
        same(c, k, snap[k], getattr(out, k))
        same(c, k + " of the packed object unchanged", snap[k], getattr(wf, k))
    same(c, "orbital coefficients", wf.mo.coeff, out.mo.coeff)
    same(c, "orbital energies", wf.mo.energy, out.mo.energy)
    same(c, "occupations", wf.mo.occ, out.mo.occ)
    c.true("orbital counts", out.mo.nocc == wf.mo.nocc and out.mo.nvir == wf.mo.nvir)


@contract(P, "pack_r", ["RCCSD_WaveFunction.pack", "RCCSD_WaveFunction.unpack", "RMP2_WaveFunction.pack", "RMP2_WaveFunction.unpack", "RRDM_WaveFunction.pack",
                        "RRDM_WaveFunction.unpack", "SpatialOrbitals.pack", "SpatialOrbitals.unpack"],
          cases=product_cases(kind=["ccsd", "mp2", "rdm"], proj=[0, 1], lam=[0, 1]), sym=False, n=4, nthorough=30,
          bounded="up to 3 occupied and 3 virtual orbitals (transport is independent of the values)")
def _(c, kind, proj, lam):
    check_wf(c, kind, rwf(c.rng, kind, proj, lam))


@contract(P, "pack_u", ["UCCSD_WaveFunction.pack", "UCCSD_WaveFunction.unpack", "UMP2_WaveFunction.pack", "UMP2_WaveFunction.unpack", "SpinOrbitals.pack", "SpinOrbitals.unpack"],
          cases=product_cases(kind=["ccsd", "mp2"], proj=[0, 1], lam=[0, 1], nb=[3, 4]), sym=False, n=4, nthorough=30,
          bounded="up to 3 occupied and 3 virtual orbitals per spin (transport is independent of the values)")
def _(c, kind, proj, lam, nb):
    check_wf(c, kind, uwf(c.rng, kind, proj, lam, nb))


# ---------------------------------------------------------------- several processes

def launch(n, sc):
    d = tempfile.mkdtemp(prefix="mpi_", dir=os.getcwd())
    env = dict(os.environ, VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    argv = ["/opt/venv/bin/python", os.path.join(HERE, "tools", "mpi_ranks.py"), os.path.join(d, "out"), json.dumps(sc)]
    try:
        if n == 1:
            p = subprocess.run(argv, env=env, cwd=d, capture_output=True, text=True)
            if p.returncode:
                return "serial run failed", [p.stderr[-2000:]], None
        else:
            env["PYTHONPATH"] = os.path.join(HERE, "tools", "fakempi")
            fail, out = mpi_server.run(n, argv, env, d)
            if fail:
                return fail, out, None
        return None, None, [pickle.load(open(os.path.join(d, "out.%d" % r), "rb"))[1] for r in range(n)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def flat(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([flat(y) for y in x])
    return np.asarray(x, dtype=float).ravel()


def compare(c, n, sc, tol=1e-9):
    f1, o1, ser = launch(1, sc)
    if f1:
        c.true("serial run completes: " + (o1[0].strip().splitlines() or [""])[-1][:200], False)
        return
    fn, on, par = launch(n, sc)
    c.true("parallel run completes on every rank%s" % ("" if not fn else ": %s | %s" % (fn, " | ".join((o.strip().splitlines() or [""])[-1][:120] for o in on))), fn is None)
    if fn:
        return
    for name, ref in ser[0].items():
        tgt = int(name.split("mpi_target=")[1][0]) if "mpi_target=" in name else None
        for r in range(n):
            x = par[r][name]
            if tgt is not None and r != tgt:
                nothing = x is None or (isinstance(x, tuple) and all(y is None for y in x))
                c.true("%s: only available on the target rank" % name, nothing)
                continue
            c.true("%s: available on rank %d" % (name, r), x is not None)
            a, b = flat(ref), flat(x)
            c.true("%s: size on rank %d" % (name, r), a.shape == b.shape)
            if a.shape == b.shape:
                c.true("%s: rank %d of %d gives the serial result" % (name, r, n), bool(abs(a - b).max() <= tol * max(1, abs(a).max())))


AMP = ["emb.e_tot", "emb.get_global_t1()", "emb.get_global_t2()", "emb.get_global_l1()", "emb.get_global_l2()", "emb.get_wf_corr_energy()"]
DM = ["emb.make_rdm1()", "emb.make_rdm2()", "emb.make_rdm1(ao_basis=True, with_mf=False)", "emb._make_rdm1_ccsd()", "emb._make_rdm2_ccsd_global_wf()",
      "emb.get_dm_corr_energy()", "emb.get_dm_corr_energy(dm2=\"global-wf\")", "emb.get_dm_corr_energy(t_as_lambda=True)", "emb._make_rdm1_ccsd_global_wf(with_t1=False)"]
DEMO = ["emb.make_rdm1_demo()", "emb.make_rdm2_demo()", "emb.make_rdm2_demo(part_cumulant=False)", "emb.make_rdm2_demo(approx_cumulant=False)",
        "emb.get_dmet_energy()", "emb.get_dmet_elec_energy(part_cumulant=False)"]
TGT = ["emb.make_rdm1(mpi_target=1)", "emb.make_rdm2(mpi_target=1)", "emb.get_global_t1(mpi_target=0)", "emb.get_global_t2(mpi_target=1)",
       "emb.make_rdm1_demo(mpi_target=1)", "emb.make_rdm2_demo(mpi_target=1)", "emb.make_rdm2_demo(mpi_target=0, approx_cumulant=False)", "emb.make_rdm1()"]
BND = "three fragments of H6 on 2, 3 and 5 processes (stand-in for mpi4py with exact deadlock and mismatch detection)"


@contract(P, "parallel", ["MPI_Interface", "RMA_Dict", "get_global_t1_rhf", "make_rdm1_ccsd_global_wf", "make_rdm2_ccsd_proj_lambda", "make_rdm1_demo_rhf", "EWF.get_dm_corr_energy_e2",
                          "Register.get_next_mpi_rank"],
          cases=product_cases(spin=["r", "u"], ops=["amp", "dm", "demo", "tgt"], n=[2]) + product_cases(spin=["r", "u"], ops=["dm"], n=[5]),
          thorough_cases=product_cases(spin=["r", "u"], ops=["amp", "dm", "demo", "tgt"], n=[2, 3, 5]), sym=False, n=1, nthorough=2, bounded=BND, timeout=400)
def _(c, spin, ops, n):
    ops = dict(amp=AMP, dm=DM, demo=DEMO, tgt=TGT)[ops]
    sc = dict(spin=spin, kind="ewf", wf=1, bath="dmet", ops=ops, seed=int(c.rng.integers(1, 1000)))
    compare(c, n, sc)


@contract(P, "parallel_run", ["EWF.kernel", "get_intercluster_mp2_energy_rhf", "get_intercluster_mp2_energy_uhf", "EWF.get_fbc_energy", "EWF.communicate_clusters"],
          cases=product_cases(spin=["r", "u"], what=["mp2bath", "mp2"]), sym=False, n=1, nthorough=1, bounded=BND, timeout=400)
def _(c, spin, what):
    if what == "mp2bath":
        sc = dict(spin=spin, kind="ewf", df="weigend", canonical=1, bath=dict(bathtype="mp2", threshold=1e-3), frag="iao", basis="6-31g",
                  ops=["emb.e_tot", "emb.get_intercluster_mp2_energy()", "emb.get_fbc_energy()", "emb.converged"])
        compare(c, 3, sc)
    else:
        sc = dict(spin=spin, kind="ewf", canonical=1, bath="full", frag="iao", solver="MP2", ops=["emb.e_tot", "emb.make_rdm1()"])
        compare(c, 2, sc)


RING = "; ".join("H %.12f %.12f 0" % (1.2 * np.cos(np.pi / 3 * k + .2), 1.2 * np.sin(np.pi / 3 * k + .2)) for k in range(6))


@contract(P, "parallel_sym", ["make_rdm1_ccsd_global_wf", "get_intercluster_mp2_energy_rhf", "Fragment.loop_symmetry_children"],
          cases=product_cases(spin=["r", "u"], order=[3]), thorough_cases=product_cases(spin=["r", "u"], order=[2, 3, 6]), sym=False, n=1, nthorough=1,
          bounded="H6 ring with rotational symmetry on 2 processes", timeout=400)
def _(c, spin, order):
    m = 6 // order
    sc = dict(spin=spin, kind="ewf", canonical=1, bath="dmet", frag="iao", geo=RING, mspin=0, df="weigend", basis="6-31g", split=[[k] for k in range(m)], sym=[order, "z"],
              ops=["emb.e_tot", "emb.make_rdm1()", "emb.get_dm_corr_energy()", "emb.get_global_t2()", "emb.get_dmet_energy()"])
    compare(c, 2, sc, tol=1e-7)


@contract(P, "interface", ["MPI_Interface.nreduce", "MPI_Interface.bcast", "MPI_Interface.with_reduce", "MPI_Interface.with_allreduce", "MPI_Interface.with_send",
                           "MPI_Interface.only_master", "RMA_Dict.from_dict", "RMA_Dict.__getitem__", "RMA_Dict.synchronize"],
          cases=product_cases(n=[2, 3]), thorough_cases=product_cases(n=[2, 3, 4, 6]), sym=False, n=1, nthorough=1, bounded="2 to 6 processes", timeout=300)
def _(c, n):
    fail, out, res = launch(n, dict(kind="unit"))
    c.true("runs on every rank%s" % ("" if not fail else ": %s | %s" % (fail, " | ".join((o.strip().splitlines() or [""])[-1][:120] for o in out))), fail is None)
    if fail:
        return
    xs = [(r + 1) * np.arange(4.0) for r in range(n)]
    tot, tot2 = sum(xs), sum(x * x for x in xs)
    for r in range(n):
        q = res[r]
        c.eq("nreduce", q["nreduce"][0], tot)
        c.eq("nreduce second", q["nreduce"][1], tot2)
        c.eq("nreduce single", q["nreduce1"], tot)
        if r == n - 1:
            c.eq("nreduce target", np.asarray(q["nreduce_target"]), np.asarray([tot, 2 * tot]))
        same(c, "bcast array", xs[-1].reshape(2, 2).T + n - 1, q["bcast_array"])
        c.true("bcast object", q["bcast_obj"] == {"r": 1})
        c.true("bcast None", q["bcast_none"] is None)
        c.true("with_allreduce", q["allreduce"] == 5 * n * (n + 1))
        c.true("with_reduce", r != 1 or q["reduce"] == 5 * n * (n + 1))
        c.true("only_master", q["master"] == ("m0" if r == 0 else None))
        c.true("with_send", q["send"] == (("from", n - 1, 3) if r in (0, n - 1) else None))
        c.true("with_send dest", q["send2"] == (("s2", 0) if r in (0, n - 1) else None))
        c.true("with_send tags distinct", q["send3"] == (("s3", 0) if r in (0, n - 1) else None))
        c.true("state", q["tags"] == (r == 0, True, False, True, n))
        c.true("rma keys", len(q["rma"]) == 5 * n)
        for s in range(n):
            same(c, "rma float", xs[s], q["rma"][("a", s)])
            same(c, "rma int", np.arange(s + 1), q["rma"][("i", s)])
            same(c, "rma empty", np.zeros((0, 2)), q["rma"][("e", s)])
            same(c, "rma complex", np.asarray([[1.5 + s, 2j]]), q["rma"][("c", s)])
            c.true("rma None", q["rma"][("n", s)] is None)
            c.true("rma location", q["rma_loc"][("a", s)] == s)


@contract(P, "scf", ["scf_with_mpi"], cases=product_cases(spin=["r", "u"], df=[None, "weigend"], root=[0, 1]), sym=False, n=1, nthorough=1,
          bounded="H6 on 2 processes", timeout=300)
def _(c, spin, df, root):
    sc = dict(kind="scf", spin=spin, df=df, root=root, ewf=0)
    compare(c, 2, sc, tol=1e-7)
