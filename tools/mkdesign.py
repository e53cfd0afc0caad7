"""Regenerates /verif/DESIGN.md from tools/design_head.md, the checks, the seeded changes and tools/design_tail.md."""
import json, os, sys, importlib, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/checks", H + "/sa"]
sys.dont_write_bytecode = True
out = [open(H + "/tools/design_head.md").read().rstrip()]
BOIL = ("Interprocedural gated value-graph analysis (GVN/SCCP with loop summaries; Python AST and Cython source) from the public constructor and execute, context-specialised per documented option, with data, sizes, parameters, variogram and drift functions symbolic;",
        "terms are compared by normal form, else by random interpretation of both terms with a witness required before a violation is reported.", "Nothing of the repository is executed.")
STD = ("real arithmetic: rounding is not modelled", "numpy, scipy and BLAS/LAPACK calls follow their documentation (modelled in sa/nplib*.py)", "kriging systems are non-singular", "finite, NaN-free data of at least two points", "the program does what the abstract interpretation of its source says (/verif/sa)")
out.append("\n\n## The properties\n\nFor each: what is analysed and compared, against which oracle; the number of configurations (each one symbolic in data, sizes\nand parameters); the time of the quick check on 8 cores; assumptions beyond those above. The thorough command widens the\nconfiguration lists where a list was thinned for time, and lifts the time limit.\n")
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if not os.path.exists(H + "/checks/c%s.py" % i[1:]): continue
    m = importlib.import_module("c" + i[1:])
    e = " ".join(m.EXPLANATION.split())
    gv = BOIL[0] in e
    for b in BOIL: e = e.replace(b, "")
    e = e.strip(" ;"); e = e[:1].upper() + e[1:]
    ev = {}
    try: ev = json.load(open(H + "/evidence/%s.json" % i))
    except Exception: pass
    c = ev.get("coverage", {})
    out.append("\n### %s %s\n\n%s%s\n" % (i, p["title"], "Value-graph analysis from the public API. " if gv else "", e if e.endswith(".") else e + "."))
    out.append("\n*Why not tests:* %s\n" % p["why_tests_cant"])
    extra = [a for a in m.ASSUMPTIONS if a not in STD]
    out.append("\n*Bounds and cost:* %d configurations%s%s.%s\n" % (len(m.jobs("quick")),
        ", %d obligations (%d by normal form, %d by random interpretation)" % (c["obligations"], c["by_normal_form"], c["by_random_interpretation"]) if c else "",
        ", about %d s" % max(1, round(ev["wall_s"])) if ev else "", " *Assumes:* " + "; ".join(extra) + "." if extra else ""))
out.append("\n## Planted changes and the checks that catch them\n\nEvery change below builds, passes the stable tests and is confirmed by its own demonstration; \"missed at first\" marks those\nthat made a check stronger.\n\n| change | property | needs | caught by | note |\n|---|---|---|---|---|\n")
notes = json.load(open(H + "/tools/seed_notes.json")) if os.path.exists(H + "/tools/seed_notes.json") else {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); x = notes.get(n, {})
    out.append("| %s | %s | %s | %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "), x.get("caught", m["property"]), x.get("note", "")))
out.append(open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("".join(x if x.endswith("\n") else x + "\n" for x in out))
