#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--replay FILE] [-v]

Decides one property: executes every contract registered for it against /repo's current tree.
Exit 0: every obligation discharged (or bounded stand-in passed). Exit 1: VIOLATION (replayed on the real code).
Exit 2: the check itself could not give an answer.
"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if os.path.basename(sys.executable) and not sys.executable.startswith("/opt/venv"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
import argparse

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only", default=None)
ap.add_argument("--replay", default=None)
ap.add_argument("--jobs", type=int, default=8)
ap.add_argument("-v", action="store_true")
ap.add_argument("--no-evidence", action="store_true")
ARGS = ap.parse_args()
sys.argv = [sys.argv[0], "--quiet"]

import atexit
import shutil
import tempfile

SCRATCH = tempfile.mkdtemp(prefix="verif_")
MAINPID = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == MAINPID:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


os.chdir(SCRATCH)
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings
warnings.simplefilter("ignore")
import json
import multiprocessing as mp
import signal
import time
import traceback
import zlib


def fatal(msg):
    sys.stdout.flush()
    print("CHECK-ERROR property=%s %s" % (ARGS.property, msg))
    sys.exit(2)


T0 = time.time()
try:
    import numpy as np
    import vayesta
    assert os.path.abspath(vayesta.__file__).startswith(os.path.abspath(REPO)), vayesta.__file__
    from engine import core
    import contracts
    contracts.load(ARGS.property)
except Exception:
    traceback.print_exc()
    fatal("cannot load the code under test or the contracts")

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = ARGS.tier


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_task(task):
    cid, ci, thorough = task
    con = core.REGISTRY[cid]
    cases = con.cases + (con.thorough_cases if TIER == "thorough" else [])
    case = cases[ci]
    out = dict(cid=cid, case=ci, sym=None, conc=[], fails=[], stale=[], skips=0, wall=0, used=[], samples=[], engine_mismatch=False)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    q0, s0 = core.STATS.queries, core.STATS.solver_s
    # 1. symbolic
    if con.sym:
        try:
            signal.alarm(con.timeout if TIER == "quick" else 4 * con.timeout)
            out["sym"] = core.run_symbolic(con, case)
        except Timeout:
            out["sym"] = dict(obligations=[], limit="timeout", models=[], paths=0, wall=time.time() - t0)
        except RecursionError:
            out["sym"] = dict(obligations=[], limit="recursion", models=[], paths=0, wall=time.time() - t0)
        finally:
            signal.alarm(0)
    # 2. concrete cross-check / bounded stand-in / replay of counter-models
    n = con.n if TIER == "quick" else con.nthorough
    seeds = []
    base = zlib.crc32(("%s/%d/%d" % (cid, ci, SEED)).encode())
    if out["sym"]:
        ms = sorted(out["sym"]["models"], key=lambda m: not m.get("refuted"))
        for im, m in enumerate(ms[:8]):
            if m["dims"] and max(m["dims"].values()) <= 12:
                for j in range(3 if m.get("refuted") else 1):
                    seeds.append((base ^ (0x5555 + 8 * im + j), m["dims"], m["scalars"], "rand"))
            elif m.get("refuted"):
                out["unreplayable"] = True
    seeds.append((base, None, None, "min"))
    for k in range(n):
        seeds.append((base + 1 + k, None, None, "rand"))
    nok = 0
    k = 0
    extra = 0
    tconc = time.time()
    budget = con.timeout if TIER == "quick" else 4 * con.timeout
    while k < len(seeds):
        sd, dims, scal, mode = seeds[k]
        k += 1
        try:
            signal.alarm(int(budget))
            st, obl, detail, used = core.run_concrete(con, case, sd, dims, scal, mode)
        except Timeout:
            out["stale"].append("timeout")
            break
        finally:
            signal.alarm(0)
        if st == "skip":
            out["skips"] += 1
            if extra < 40:
                extra += 1
                seeds.append((base + 1000 + extra, None, None, "rand"))
            continue
        if st == "stale":
            out["stale"].append(detail[-800:])
            continue
        if st == "fail":
            out["fails"].append(dict(contract=cid, case=case, seed=sd, dims=dims, scalars=scal, mode=mode, detail=detail,
                                     used=used, obligations=[list(map(str, o)) for o in obl if o[1] != "proved"][:8]))
            if len(out["fails"]) >= 2:
                break
        else:
            nok += 1
            out["conc"].append(len(obl))
            out["used"].append(json.dumps(used, sort_keys=True, default=str))
            if len(out["samples"]) < 1:
                out["samples"].append(dict(contract=cid, case=str(case), seed=sd, dims={k: str(v) for k, v in used.items()},
                                           postconditions=[o[0] for o in obl][:6]))
        if time.time() - tconc > budget:
            break
    out["nok"] = nok
    out["wall"] = time.time() - t0
    out["queries"] = core.STATS.queries - q0
    out["solver_s"] = core.STATS.solver_s - s0
    return out


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    prop = ARGS.property
    if ARGS.replay:
        r = json.load(open(ARGS.replay))
        f = r["failure"]
        con = core.REGISTRY[f["contract"]]
        st, obl, detail, used = core.run_concrete(con, f["case"], f["seed"], f["dims"], f["scalars"], f["mode"])
        print("replay: %s %s" % (st, detail))
        sys.exit(1 if st == "fail" else 0)
    tasks = []
    for cid, con in core.REGISTRY.items():
        if con.prop != prop:
            continue
        if ARGS.only and ARGS.only not in cid:
            continue
        for ci in range(len(con.cases) + (len(con.thorough_cases) if TIER == "thorough" else 0)):
            tasks.append((cid, ci, TIER == "thorough"))
    if not tasks:
        fatal("no contracts registered")
    ctx = mp.get_context("fork")
    results = []
    if ARGS.jobs > 1:
        with ctx.Pool(min(ARGS.jobs, len(tasks)), maxtasksperchild=20) as pool:
            for r in pool.imap_unordered(run_task, tasks):
                results.append(r)
    else:
        results = [run_task(t) for t in tasks]
    results.sort(key=lambda r: (r["cid"], r["case"]))

    known = load_known()
    nobl = ndis = nbound = nlimit = nref_unrep = 0
    functions = {}
    violations, knownhits, limits, stales, nofail = [], [], [], [], []
    samples = 0
    conc_obl = 0
    vac = 0
    for r in results:
        con = core.REGISTRY[r["cid"]]
        ok_sym = False
        if r["sym"] is not None:
            obs = r["sym"]["obligations"]
            p = sum(1 for o in obs if o[2] == "proved")
            ref = [o for o in obs if o[2] == "refuted"]
            lim = [o for o in obs if o[2] in ("limit", "vacuous")]
            vac += sum(1 for o in obs if o[2] == "vacuous")
            nobl += p + len(ref) + len(lim) + (1 if r["sym"]["limit"] else 0)
            ndis += p
            ok_sym = p > 0 and not ref and not lim and not r["sym"]["limit"]
            if ref and not r["fails"] and (r.get("unreplayable") or not r["nok"]):
                # refuted, and the counter-model cannot be replayed (too large / instance not executable)
                nofail.append((r, ref))
            elif ref and not r["fails"]:
                # the refuting model was replayed on the real code (several random entries) and the postcondition held:
                # incompleteness of the normal form, recorded as undischarged, not as a violation
                nref_unrep += len(ref)
                limits.append((r["cid"], r["case"], "refuted by the engine but not reproduced on the real code: %s %s"
                               % (ref[0][1], ref[0][3][:300])))
            for o in lim:
                limits.append((r["cid"], r["case"], o[3][:400]))
            if r["sym"]["limit"]:
                limits.append((r["cid"], r["case"], r["sym"]["limit"][:400]))
            if p == 0 and not ref and not lim and not r["sym"]["limit"]:
                limits.append((r["cid"], r["case"], "no obligation generated"))
        samples += r["nok"]
        conc_obl += sum(r["conc"])
        if not ok_sym and r["nok"]:
            nbound += 1
        for f in con.functions:
            d = functions.setdefault(f, dict(proved=False, bounded=False))
            d["proved" if ok_sym else "bounded"] = True
        for f in r["fails"][:1]:
            hit = None
            for kf in known:
                if kf.get("status") == "known" and kf["property"] == prop and kf["contract"] == r["cid"] and (
                        kf.get("case") is None or kf["case"] == f["case"]) and kf["match"] in f["detail"]:
                    hit = kf
            if hit:
                knownhits.append((hit, f))
            else:
                violations.append((r, f))
        if r["stale"]:
            stales.append((r["cid"], r["case"], r["stale"][0]))
        if ARGS.v:
            s = r["sym"]
            print("%-60s case %2d  %-8s paths %s obl %s conc %d wall %.1fs %s" % (
                r["cid"], r["case"], "PROVED" if ok_sym else ("bounded" if r["nok"] else "-"),
                s["paths"] if s else "-", len(s["obligations"]) if s else "-", r["nok"], r["wall"],
                "FAIL " + r["fails"][0]["detail"][:200] if r["fails"] else ""))
    if ARGS.v:
        for l in limits:
            print("LIMIT", l)
        for l in stales:
            print("STALE", l)
    wall = time.time() - T0
    # replay files
    rdir = os.path.join(HERE, "evidence", "replay")
    vlines = []
    if violations:
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for r, f in violations:
            if r["cid"] in done:
                continue
            done.add(r["cid"])
            path = os.path.join(rdir, "%s_%s_%d.json" % (prop, r["cid"].split(".", 1)[1], r["case"]))
            eng = None
            if r["sym"]:
                eng = [o for o in r["sym"]["obligations"] if o[2] != "proved"][:6]
            json.dump(dict(property=prop, contract=r["cid"], functions=core.REGISTRY[r["cid"]].functions, failure=f,
                           engine=eng, replay_cmd="python3 /verif/check.py %s --replay %s" % (prop, path)),
                      open(path, "w"), indent=1, default=str)
            print("failed obligation: %s case=%s: %s" % (r["cid"], f["case"], f["detail"][:500]))
            vlines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for r, ref in nofail:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%s_%d_engine.json" % (prop, r["cid"].split(".", 1)[1], r["case"]))
        json.dump(dict(property=prop, contract=r["cid"], functions=core.REGISTRY[r["cid"]].functions, engine=ref[:6],
                       models=r["sym"]["models"][:4]), open(path, "w"), indent=1, default=str)
        print("failed obligation: %s case=%d: %s" % (r["cid"], r["case"], ref[0]))
        vlines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for kf in {k["what"]: k for k, f in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    undecided = []
    # contracts for which nothing could be executed
    for cid in {t[0] for t in tasks}:
        rs = [r for r in results if r["cid"] == cid]
        if not any(r["nok"] or r["fails"] for r in rs):
            undecided.append(cid)
    proved_f = sorted(f for f, d in functions.items() if d["proved"] and not d["bounded"])
    part_f = sorted(f for f, d in functions.items() if d["bounded"] and d["proved"])
    bound_f = sorted(f for f, d in functions.items() if d["bounded"] and not d["proved"])
    if not ARGS.no_evidence and not ARGS.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        from contracts import ASSUMPTIONS
        level = contracts.LEVELS.get(prop, "other")
        extra = {}
        if level != "proof":
            extra = dict(
                evaluations=samples, distinct_nontrivial=len({(r["cid"], r["case"], u) for r in results for u in r["used"]}),
                rule="an evaluation is one concrete execution of a contract against the real code on seeded random inputs; "
                     "distinct: different (contract, case, drawn dimensions/choices); non-trivial: it reached at least one postcondition",
                samples=[s_ for r in results for s_ in r["samples"]][:12])
        ev = dict(
            property=prop, tier=TIER, seed=SEED, level=level,
            coverage=dict(
                obligations=nobl, discharged=ndis,
                checker_cmd="python3 /verif/check.py %s --tier %s" % (prop, TIER),
                backend="tensor normal form + rewriting (engine/symt.py); z3 %s for integer/shape/branch/scalar conditions"
                        % ".".join(map(str, core.z3.get_version()[:3])),
                solver_queries=sum(r["queries"] for r in results), solver_s=round(sum(r["solver_s"] for r in results), 3),
                functions_under_contract=sorted(functions), functions_proved=proved_f, functions_partly_proved=part_f,
                functions_bounded_only=bound_f,
                contracts=len({t[0] for t in tasks}), contract_cases=len(tasks),
                bounded_cases=nbound, concrete_instances=samples, concrete_postconditions=conc_obl,
                undischarged=[list(map(str, l)) for l in limits[:60]],
                stale=[list(map(str, l)) for l in stales[:20]], undecided=undecided,
                bounds={cid: core.REGISTRY[cid].bounded for cid in sorted({t[0] for t in tasks})
                        if core.REGISTRY[cid].bounded},
                trusted_base=contracts.TRUSTED, explanation=contracts.NOTES.get(prop, ""), **extra),
            assumptions=ASSUMPTIONS.get(prop, []) + contracts.COMMON_ASSUMPTIONS,
            wall_s=round(wall, 2), violations=len(vlines))
        json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % prop), "w"), indent=1, default=str)
    print("property=%s tier=%s contracts=%d cases=%d obligations=%d discharged=%d bounded_cases=%d instances=%d wall=%.1fs"
          % (prop, TIER, len({t[0] for t in tasks}), len(tasks), nobl, ndis, nbound, samples, wall))
    for l in vlines:
        print(l)
    if vlines:
        sys.exit(1)
    if samples == 0 or len(undecided) > len({t[0] for t in tasks}) // 2:
        fatal("nothing was executed: %s" % undecided[:5])
    if vac and vac == nobl:
        fatal("vacuous")
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        fatal("internal error")
