#!/opt/venv/bin/python
"""Development tool: run the checks against copies of /repo with each seeded change applied. usage: seedrun.py [id-substring] [property ...]"""
import sys, os, subprocess, shutil, json
sub = sys.argv[1] if len(sys.argv) > 1 else ""
for i in sorted(os.listdir("/verif/seeded")):
    if sub not in i or os.environ.get("ONLY") and i not in os.environ["ONLY"].split(): continue
    m = json.load(open("/verif/seeded/%s/meta.json" % i)); d = "/tmp/p/run-" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
    subprocess.run(["git", "init", "-q", d], check=True)
    subprocess.run(["git", "-C", d, "apply", "--whitespace=nowarn", "/verif/seeded/%s/patch.diff" % i], check=True)
    for p in sys.argv[2:] or [m["property"]]:
        r = subprocess.run(["/verif/run.py", p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        v = [l.strip() for l in r.stdout.splitlines() if "rule:" in l or "obligation:" in l or "construct" in l]
        print("%-28s %s rc=%d %s | %s" % (i, p, r.returncode, r.stdout.strip().splitlines()[-1][:110], " ".join(v[:3])[:260]), flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
    shutil.rmtree(d)
