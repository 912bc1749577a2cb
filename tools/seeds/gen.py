#!/usr/bin/env python3
"""Regenerates /verif/seeded from the table in bugs.py, confirming each change
in a scratch copy: it applies, builds, passes the stable tests, and its
demonstration passes without it and fails with it.  usage: gen.py [id...]"""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
from bugs import BUGS
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
want = sys.argv[1:]
T = tempfile.mkdtemp(prefix="seed.")
bad = 0
try:
    sh("git -C /repo worktree prune", "/")
    R = T + "/repo"
    sh("git clone -q /repo %s" % R, "/")
    for b in BUGS:
        if want and b["id"] not in want: continue
        sh("git checkout -q -- . && git clean -fdq", R)
        D = V + "/seeded/" + b["id"]
        shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        for f in ("demo.sh", "common.go"): shutil.copy(H + "/" + f, D)
        shutil.copy(H + "/main/%s.go" % b.get("main", b["id"]), D + "/main.go")
        os.chmod(D + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % D, R)
        for f, old, new in b["edits"]:
            s = open(R + "/" + f).read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(R + "/" + f, "w").write(s.replace(old, new))
        fm = sh("gofmt -l .", R).stdout
        open(D + "/patch.diff", "w").write(sh("git diff", R).stdout)
        bl = sh("go build ./... && go test -count=1 ./marshal ./sbox", R)
        rs = [sh("bash %s/demo.sh" % D, R) for _ in range(3)]
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(D + "/meta.json", "w"), indent=1)
        good = r0.returncode == 0 and all(r.returncode == 1 or r.returncode == 2 for r in rs) and bl.returncode == 0
        print(b["id"], b["prop"], "OK" if good else "BAD", r0.returncode, bl.returncode, [r.returncode for r in rs], rs[0].stdout.strip().split("\n")[0][:150], flush=True)
        if not good:
            bad += 1
            print(r0.stdout[-1500:], bl.stdout[-1500:] if bl.returncode else "", rs[0].stdout[-500:])
finally:
    shutil.rmtree(T)
sys.exit(bad != 0)
