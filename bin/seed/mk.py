"""Seeded-bug helper: mk.py <dir with spec.py> ... ; see specs in /tmp while planting.
A spec has ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (rust)."""
import json, os, subprocess, sys, shutil
REPO = os.environ.get("SEED_REPO", "/repo"); V = "/verif"
TEST = os.environ.get("SEED_TEST", "bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json"); OUT = os.environ.get("SEED_OUT", "/tmp/o.json")
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def make(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, check=True):
    d = f"{V}/seeded/{ID}"; os.makedirs(d, exist_ok=True)
    assert not sh(f"git -C {REPO} status --porcelain").stdout, "repo dirty"
    open(d + "/demo.rs", "w").write(DEMO); shutil.copy(V + "/bin/seed/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=PROPERTY, needs=NEEDS, what_it_breaks=BREAKS), open(d + "/meta.json", "w"), indent=1)
    try:
        for f, a, b in EDITS:
            t = open(f"{REPO}/{f}").read(); assert t.count(a) == 1, (f, a, t.count(a))
            open(f"{REPO}/{f}", "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
        p = sh(f"cd {REPO} && {d}/demo.sh"); bad = p.returncode
        t = sh(TEST)
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(OUT))["passed"])
    finally:
        sh(f"git -C {REPO} checkout -- .")
    q = sh(f"cd {REPO} && {d}/demo.sh")
    print(ID, "patched demo:", bad, (p.stdout + p.stderr)[-300:].strip(), "| tests lost:", sorted(miss), "| clean demo:", q.returncode, (q.stdout + q.stderr)[-300:] if q.returncode else "")
    return bad not in (0, 2, 3) and not miss and q.returncode == 0
