#!/opt/venv/bin/python
"""Development tool: build /verif/seeded/<id> from a spec file and confirm it in a scratch copy of /repo.
usage: plant.py SPEC.py ...; SPEC defines id, property, edits [(file, old, new[, nth])], needs, breaks, demo (python source)."""
import sys, os, subprocess, shutil, json, runpy
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", SETUPTOOLS_SCM_PRETEND_VERSION="1.7.3", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
PY = "/opt/venv/bin/python"
def one(spec):
    m = runpy.run_path(spec); i = m["id"]
    d = "/tmp/p/" + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    R = d + "/repo"; env = dict(ENV, PYTHONPATH=R + "/src"); pyx = False
    for e in m["edits"]:
        f, old, new = e[:3]; p = R + "/src/pykrige/" + f; pyx |= f.endswith((".pyx", ".pxd"))
        s = open(p, newline="").read(); crlf = "\r\n" in s
        if crlf: s = s.replace("\r\n", "\n")
        c = s.count(old)
        if c == 0 or (c > 1 and len(e) < 4): return print(i, "BAD PATTERN", f, c)
        k = -1
        for _ in range(e[3] if len(e) > 3 else 1): k = s.index(old, k + 1)
        s = s[:k] + new + s[k + len(old):]
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    patch = subprocess.run(["git", "diff"], cwd=R, capture_output=True).stdout
    o = "/verif/seeded/" + i; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(patch)
    open(o + "/demo.py", "w").write(m["demo"])
    open(o + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds, 1 when it is broken\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    json.dump(dict(property=m["property"], needs=m["needs"], what_it_breaks=m["breaks"]), open(o + "/meta.json", "w"), indent=1)
    if pyx:
        b = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=R, env=env, capture_output=True, text=True)
        if b.returncode: return print(i, "BUILD", b.stderr[-800:])
    x = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "junit_family=xunit2", "--junitxml=" + d + "/j.xml", "tests"], cwd=R, env=env, capture_output=True, text=True)
    import xml.etree.ElementTree as ET
    ok = {c.get("classname") + "::" + c.get("name") for c in ET.parse(d + "/j.xml").iter("testcase") if not c.findall("failure") and not c.findall("error") and not c.findall("skipped")}
    bad = [b for b in BASE if b not in ok and b.replace("/", ".") not in ok]
    dp = subprocess.run(["bash", o + "/demo.sh"], cwd=R, env=env, capture_output=True, text=True)
    d0 = subprocess.run(["bash", o + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    good = not bad and dp.returncode and not d0.returncode
    print("%-22s %s %s tests-broken=%s demo: patched %d %s, clean %d %s" % (i, m["property"], "OK" if good else "REJECTED", bad[:4], dp.returncode, dp.stdout.strip()[-120:] + dp.stderr.strip()[-150:], d0.returncode, (d0.stdout + d0.stderr).strip()[-300:] if d0.returncode else ""), flush=True)
    if not good: shutil.rmtree(o)
    shutil.rmtree(d)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex: list(ex.map(one, sys.argv[1:]))
