#!/usr/bin/env python3
"""Development tool: applies small textual source mutations in scratch copies of /repo and reports which checks see them.
usage: mut.py PROP[,PROP]|all [file.json] [-k substring]   (file: list of {name,file,old,new,props})"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
args = sys.argv[1:]
sub = None
if "-k" in args:
    i = args.index("-k"); sub = args[i+1]; del args[i:i+2]
want = args[0].split(",")
muts = json.load(open(args[1] if len(args) > 1 else os.path.join(here, "mutants.json")))
subprocess.run(["./run.sh", "build"], cwd=root, check=True)
bind = tempfile.mkdtemp(prefix="mutbin", dir="/tmp")
sig = shutil.copy(os.path.join(root, "bin/sigcheck"), bind)
env = dict(os.environ)
env["PATH"] = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; echo $PATH"], capture_output=True, text=True).stdout.strip()
env["GOTOOLCHAIN"] = "local"
def run(m):
    ps = [p for p in m["props"] if "all" in want or p in want]
    if os.environ.get("MUTQUIET"):  # all checks named there against the behaviour-preserving edits only
        ps = os.environ["MUTQUIET"].split(",") if m.get("quiet") else []
    if not ps or (sub and sub not in m["name"]):
        return None
    t = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        d = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        shutil.rmtree(d + "/.git", ignore_errors=True)
        os.makedirs(t + "/mv")
        shutil.copy(os.path.join(root, "known-findings.txt"), t + "/mv/")
        for e in m.get("edits") or [m]:
            f = os.path.join(d, e["file"])
            s = open(f).read()
            if e["old"] not in s:
                return "BAD  " + m["name"] + " OLD TEXT NOT FOUND: " + e["old"][:60]
            open(f, "w").write(s.replace(e["old"], e["new"], e.get("count", 1)))
        out = subprocess.run([sig, "-prop", ",".join(ps), "-repo", d, "-verif", t + "/mv"], env=env, capture_output=True, text=True).stdout
        res = {p: ("VIOLATION property=%s " % p) in out for p in ps}
        rules = sorted({l.split("rule ")[1].split(",")[0] for l in out.splitlines() if ": rule " in l})
        if "load" in rules:
            return "BAD  " + m["name"] + " DOES NOT COMPILE"
        quiet = m.get("quiet", False)
        bad = [p for p in ps if res[p] == quiet]
        cons = ""
        if bad and quiet:
            cons = "\n" + "\n".join("       " + l for l in out.splitlines() if ": rule " in l)
        return ("ok   " if not bad else "MISS ") + m["name"] + " " + str(res) + " " + str(rules) + cons
    finally:
        shutil.rmtree(t, ignore_errors=True)
n = miss = 0
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(run, muts):
        if r:
            n += 1
            miss += not r.startswith("ok")
            print(r, flush=True)
print(n, "mutants,", miss, "missed or bad")
shutil.rmtree(bind)
