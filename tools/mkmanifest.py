"""Regenerates /verif/MANIFEST.json from the checks that exist and the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/checks", H + "/sa"]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
 "C40": "quantifies over computed floating-point values (non-negativity, numerical reproduction): depends on conditioning and on conditional negative-definiteness of the variogram, which no static argument over the source bounds; the structural conditions behind it are decided under C01-C05.",
 "C41": "global optimality of a numerical optimiser's answer depends on run-time iterates of scipy.optimize; the shape of the minimised problem is decided under C18.",
 "C42": "a numerical consequence of the Moore-Penrose inverse computed by LAPACK; which solver is called on which matrix is decided under C01 and C22.",
 "C43": "peak memory is a run-time quantity of numpy temporaries and allocator behaviour; no sound static bound on it is in reach.",
}
TECH = "interprocedural gated value-graph analysis of Python and Cython source"
LEVEL = {}
checks = []; na = []
for p in props:
    i = p["id"]
    f = H + "/checks/c%s.py" % i[1:]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(f):
        na.append(dict(property=i, reason="the check for this property is still being built; it is not claimed yet.")); continue
    src = open(f).read()
    ns = {}
    import importlib
    m = importlib.import_module("c" + i[1:])
    checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s" % i, thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % i,
        technique=getattr(m, "TECHNIQUE", TECH), level="other",
        level_note=" ".join(m.EXPLANATION.split()) + " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B run.py C14 --list", checks=checks, not_applicable=na,
    notes="Every check analyses /repo's current source text and runs none of it. See DESIGN.md."), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
