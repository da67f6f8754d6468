"""Run by every rank (and once serially): python ranks.py OUT SCENARIO-JSON --quiet"""
import json
import os
import pickle
import sys

out, sc = sys.argv[1], json.loads(sys.argv[2])
sys.argv = [sys.argv[0], "--quiet", "--log", "", "--errlog", ""]
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
sys.path.insert(0, os.environ["VERIF_REPO"])
import warnings
warnings.simplefilter("ignore")
import numpy as np
import vayesta
import vayesta.ewf
import vayesta.dmet
from vayesta.mpi import mpi
from contracts import lab

nrank = int(os.environ.get("FAKEMPI_SIZE", "1"))
assert len(mpi) == nrank, (len(mpi), nrank)


def unit():
    """Interface functions with rank-dependent inputs."""
    from vayesta.mpi.rma import RMA_Dict
    r, n = mpi.rank, len(mpi)
    x = (r + 1) * np.arange(4.0)
    res = {}
    res["nreduce"] = mpi.nreduce(x, x * x)
    res["nreduce1"] = mpi.nreduce(x)
    res["nreduce_target"] = mpi.nreduce(x, 2 * x, target=n - 1)
    res["bcast_array"] = mpi.bcast(x.reshape(2, 2).T + r, root=n - 1)
    res["bcast_obj"] = mpi.bcast({"r": r}, root=1)
    res["bcast_none"] = mpi.bcast(None if r == 0 else 5)
    res["allreduce"] = mpi.with_allreduce()(lambda y: y * (r + 1))(10)
    res["reduce"] = mpi.with_reduce(root=1)(lambda y: y * (r + 1))(10)
    res["master"] = mpi.only_master()(lambda: "m%d" % r)()

    class F:
        mpi_rank = n - 1
    src = lambda *args: args[0].mpi_rank
    send = mpi.with_send(source=src)(lambda self, k=1: ("from", r, k))
    res["send"] = send(F(), k=3)
    send2 = mpi.with_send(source=0, dest=n - 1)(lambda: ("s2", r))
    send3 = mpi.with_send(source=0, dest=n - 1)(lambda: ("s3", r))
    res["send2"] = send2()
    res["send3"] = send3()
    d = mpi.create_rma_dict({("a", r): x, ("n", r): None, ("i", r): np.arange(r + 1), ("e", r): np.zeros((0, 2)),
                             ("c", r): np.asarray([[1.5 + r, 2j]])})
    res["rma_keys"] = sorted(map(str, d.keys()))
    res["rma"] = {k: d[k] for k in sorted(d.keys(), key=str)}
    res["rma_loc"] = {k: d.get_location(k) for k in d.keys()}
    res["tags"] = (mpi.is_master, mpi.enabled, mpi.disabled, bool(mpi), len(mpi))
    return res


def scf():
    import pyscf.gto
    import pyscf.scf
    mol = pyscf.gto.M(atom=lab.GEO[6], basis="sto-3g", verbose=0, spin=2 if sc["spin"] == "u" else 0)
    m = (pyscf.scf.UHF if sc["spin"] == "u" else pyscf.scf.RHF)(mol)
    m.conv_tol = 1e-12
    if sc.get("df"):
        m = m.density_fit(auxbasis=sc["df"])
    m = mpi.scf(m, mpi_rank=sc.get("root", 0))
    m.kernel()
    res = {"converged": bool(m.converged), "e_tot": m.e_tot, "mo_energy": m.mo_energy, "mo_occ": m.mo_occ, "mo_abs": np.abs(m.mo_coeff)}
    if sc.get("df"):
        res["cderi"] = m.with_df._cderi
    if sc.get("ewf"):
        emb = vayesta.ewf.EWF(m, bath_options=dict(bathtype="dmet"))
        lab.add_fragments(emb, "iao", lab.SPLITS[6])
        emb.kernel()
        res["e_ewf"] = emb.e_tot
    return res


if sc["kind"] in ("unit", "scf"):
    res = unit() if sc["kind"] == "unit" else scf()
    pickle.dump((mpi.rank, res), open(out + ".%d" % mpi.rank, "wb"))
    sys.exit(0)

mf = lab.make_mf(sc["spin"], sc.get("natom", 6), sc.get("basis", "sto-3g"), sc.get("canonical", False), seed=sc.get("seed", 1), df=sc.get("df", False),
                 geo=sc.get("geo"), mspin=sc.get("mspin"))
rng = np.random.default_rng(sc.get("seed", 1))
wf = lab.random_ccsd(rng, mf) if sc.get("wf") else None
bath = sc.get("bath", "dmet")
opts = dict(solver=sc.get("solver", "CCSD"), bath_options=dict(bathtype=bath) if isinstance(bath, str) else dict(bath), **sc.get("opts", {}))
if wf is not None:
    opts["_debug_wf"] = wf
emb = vayesta.ewf.EWF(mf, **opts)
if sc.get("sym"):
    with getattr(emb, sc.get("frag", "sao") + "_fragmentation")() as f:
        with f.rotational_symmetry(*sc["sym"]):
            for a in sc["split"]:
                f.add_atomic_fragment(a if len(a) > 1 else a[0])
else:
    lab.add_fragments(emb, sc.get("frag", "sao"), sc.get("split") or lab.SPLITS[mf.mol.natm])
emb.kernel()
res = {}
for name in sc["ops"]:
    res[name] = eval(name, {"emb": emb, "np": np})
pickle.dump((mpi.rank, res), open(out + ".%d" % mpi.rank, "wb"))
