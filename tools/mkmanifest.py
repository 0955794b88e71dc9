"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.checks import CHECKS

OPS = "abstract interpretation of the LLVM IR of every instantiated operation (typestate + value terms), inline assembly interpreted"
T = {
    "A01": (OPS, "proof over all paths of each instantiated operation; instantiations enumerate value types, object kinds and back-ends: x86-64, 32-bit x86, AArch64, ARM, PowerPC, SPARC (compiled by clang for each)"),
    "A02": (OPS, "values compared as canonical bit-vector terms, for all inputs at once; the assembly back-ends of the other processors included"),
    "A03": (OPS, "floating-point operators uninterpreted"),
    "A04": (OPS, "element sizes 1, 4, 12, 40; displacement symbolic"),
    "A05": (OPS, "all value categories and sizes 1..24"),
    "A06": (OPS, "every legal order and pair, on every back-end; quick: a representative type of each category and size"),
    "A07": (OPS, "lock functions taken as acquire/release events; the lock itself is A09"),
    "A18": (OPS, "padding contents of arguments symbolic"),
}
import importlib
for m in ("wait", "pool", "static", "reports", "witness", "asm", "fence", "orders", "search"):
    try:
        mod = importlib.import_module("sa.checks." + m)
        T.update(getattr(mod, "MANIFEST", {}))
    except ImportError:
        pass
NA = {}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": tech, "level": "proof", "level_note": note, "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sa.checks\"", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
