"""Contract registry: one module per property (contracts/pNN_*.py)."""
import glob
import importlib
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
LEVELS, NOTES = {}, {}
for _c in json.load(open(os.path.join(os.path.dirname(HERE), "MANIFEST.json")))["checks"]:
    LEVELS[_c["property"]] = _c["level"]
    NOTES[_c["property"]] = _c["level_note"]
ASSUMPTIONS = {}
COMMON_ASSUMPTIONS = [
    "Floating-point arithmetic is treated as exact real/complex arithmetic in the discharged obligations.",
    "NumPy/SciPy primitives used by the code (einsum, dot, transpose, slicing, in-place updates, linalg) satisfy the axioms of "
    "engine/symt.py and engine/snp.py; every contract is also run on the unpatched code with random arrays on every run.",
    "Linear-algebra factorisations (eigh, svd, qr, inv, cholesky) are uninterpreted functions with their defining equations.",
    "Allocation, exceptions from memory exhaustion, threading and logging are not modelled.",
    "PySCF, ebcc and SciPy are trusted where a contract uses them as the oracle or as the environment.",
]
TRUSTED = ["engine/symint.py, engine/symt.py, engine/snp.py, engine/core.py (symbolic executor and normal-form prover)", "z3",
           "CPython 3.12, NumPy, SciPy, PySCF", "the contract texts in contracts/"]


def load(prop):
    fs = sorted(glob.glob(os.path.join(HERE, "%s_*.py" % prop.lower())))
    if not fs:
        raise RuntimeError("no contracts for %s" % prop)
    for f in fs:
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
