#!/usr/bin/env python3
"""Run the checks against planted bugs, in scratch clones of /repo.

usage: seedrun.py [-j N] [-all] [-seed N] [ID ...]
Without -all only the check of the bug's own property is run. This is a
development tool; no registered check uses it.
"""
import json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j, allp, seed = 3, False, "1"
while a and a[0].startswith("-"):
    o = a.pop(0)
    if o == "-j":
        j = int(a.pop(0))
    elif o == "-all":
        allp = True
    elif o == "-seed":
        seed = a.pop(0)
ids = a or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
base = tempfile.mkdtemp(prefix="seedrun.", dir="/dev/shm")


def one(job):
    i, p = job
    w = tempfile.mkdtemp(prefix=i + ".", dir=base)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    subprocess.run(["git", "-C", w + "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    os.makedirs(w + "/verif")
    for f in os.listdir(V):
        if f not in (".git", "seeded", "evidence", "replays"):
            (shutil.copytree if os.path.isdir(V + "/" + f) else shutil.copy)(V + "/" + f, w + "/verif/" + f)
    t = time.time()
    r = subprocess.run(["bash", w + "/verif/check.sh", p, "quick"], env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=seed),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(w, ignore_errors=True)
    return i, p, r.returncode, time.time() - t, r.stdout


jobs = []
for i in ids:
    own = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    jobs += [(i, p) for p in (props if allp else [own])]
try:
    with cf.ThreadPoolExecutor(j) as ex:
        for i, p, rc, t, out in ex.map(one, jobs):
            tag = {0: "MISSED", 1: "caught"}.get(rc, "RC %d" % rc)
            print("%-28s %s %-7s %5.1fs" % (i, p, tag, t), (out.strip().splitlines() or [""])[0][:150] if rc == 1 else out[-400:] if rc else "", flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
