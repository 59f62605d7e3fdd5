"""Helper to plant a bug: seed(id, prop, needs, breaks, [(file, old, new)], demo_test_go)."""
import json, os, shutil, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def seed(id, prop, needs, breaks, edits, test):
    d = os.path.join(ROOT, "seeded", id); w = "/tmp/mkseed"
    subprocess.run(["rm", "-rf", "/tmp/mkseed"]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        assert s.count(old) == 1, ("ambiguous", id, f, old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    for f in ("demohelp_test.go", "demo.sh"):
        shutil.copy(os.path.join(ROOT, "tools/seedlib", "ext" if edits[0][0].startswith("ext/") else "", f), d)
    open(d + "/demo_test.go", "w").write(test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", "/tmp/mkseed"])
    subprocess.run(["bash", "-c", ". /opt/vp/env.sh; gofmt -l " + d + "/demo_test.go"])
