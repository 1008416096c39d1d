#!/usr/bin/env python3
"""Assemble /verif/seeded from /verif/seedsrc and confirm every planted bug.

usage: mkseeds.py [-n] [ID ...]     -n: assemble only, confirm nothing

Each seedsrc/ID.py sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)]
and DEMO (the text of demo.py). A bug is confirmed when its patch applies to a
copy of /repo's HEAD, the copy builds, its stable tests pass and the
demonstration passes without the patch and fails with it.
"""
import os, shutil, subprocess, sys, json, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC, DST = V + "/seedsrc", V + "/seeded"
args = sys.argv[1:]
confirm = True
if args and args[0] == "-n":
    confirm, args = False, args[1:]
ids = args or sorted(f[:-3] for f in os.listdir(SRC) if f.endswith(".py"))
KIT = {"kit.py": SRC + "/kit/kit.py", "smtpd.go": V + "/smtpd/smtpd.go", "go.mod": V + "/smtpd/go.mod",
       "mkoverlay.py": V + "/sut/mkoverlay.py", "zz_verif_ctl.go.txt": V + "/sut/zz_verif_ctl.go.txt"}


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(i):
    ns = {}
    exec(compile(open("%s/%s.py" % (SRC, i)).read(), i, "exec"), ns)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = w + "/repo"
        sh("git", "clone", "-q", "/repo", r)
        for f, old, new in ns["EDITS"]:
            p = r + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return i, "EDIT: %d matches in %s of %r" % (s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        d = DST + "/" + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git", "-C", r, "diff").stdout)
        for n, p in KIT.items():
            shutil.copy(p, d + "/" + n)
        open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nexec timeout 280 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        if not confirm:
            return i, "ok"
        # the base tree for this clone is HEAD; build.sh works on /repo only,
        # so vet the patched tree by compiling it
        dd = w + "/elsewhere"
        shutil.copytree(d, dd)
        bad = sh("bash", dd + "/demo.sh", cwd=r)
        if bad.returncode == 0:
            return i, "demo passes with the patch"
        if bad.returncode != 1:
            return i, "demo on the patched tree: rc %d: %s" % (bad.returncode, bad.stdout[-1500:])
        e = dict(os.environ)
        t = sh("bash", "-c", ". /opt/vp/env.sh; go test -vet=off -count=1 rlex*.go $PART", cwd=r)
        if t.returncode != 0:
            return i, "tests fail: " + t.stdout[-800:]
        sh("git", "-C", r, "checkout", "-q", ".")
        good = sh("bash", dd + "/demo.sh", cwd=r)
        if good.returncode != 0:
            return i, "demo on the unchanged tree: rc %d: %s" % (good.returncode, good.stdout[-1500:])
        return i, "ok: " + bad.stdout.strip().splitlines()[-1]
    finally:
        shutil.rmtree(w, ignore_errors=True)


rc = 0
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, ids):
        print("%-28s %s" % (i, m), flush=True)
        if not m.startswith("ok"):
            rc = 1
sys.exit(rc)
