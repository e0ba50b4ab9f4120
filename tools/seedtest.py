#!/usr/bin/env python3
"""Confirm planted bugs: for each /verif/seeded/<id>: builds, passes the stable tests, demo passes without it and fails with it,
and the check of its property reports it.  Usage: seedtest.py [-c] [id ...]   (-c: only run the check)"""
import glob, json, os, subprocess, sys, time
R, V = "/repo", "/verif"


def sh(*c, **k): return subprocess.run(c, capture_output=True, text=True, **k)


def main():
    a = sys.argv[1:]
    conly = "-c" in a
    ids = [x for x in a if x[0] != "-"] or sorted(os.path.basename(p) for p in glob.glob(V + "/seeded/*"))
    if sh("git", "-C", R, "status", "--porcelain").stdout: sys.exit("/repo is not clean")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or []) if False else None
    for i in ids:
        d = V + "/seeded/" + i
        m = json.load(open(d + "/meta.json"))
        out = {}
        if not conly: out["demo on unchanged"] = sh("bash", d + "/demo.sh", cwd=R).returncode
        r = sh("git", "-C", R, "apply", d + "/patch.diff")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr)
            continue
        try:
            if not conly:
                b = sh("bash", "/opt/vp/build.sh")
                out["build"] = b.returncode
                if b.returncode: print(b.stderr[-1500:])
                sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
                t = json.load(open("/tmp/seedtest.json"))
                out["tests"] = "%d/%d" % (len(t["passed"]), len(t["failed"]))
                if t["failed"]: print("   failing:", t["failed"][:5])
                x = sh("bash", d + "/demo.sh", cwd=R)
                out["demo with patch"] = x.returncode
                if x.returncode != 1: print(x.stdout[-500:])
            t0 = time.time()
            x = sh(V + "/bin/check", m["property"], "quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = "VIOLATION property=%s " % m["property"] in x.stdout
            out["check"] = "%s exit %d %s %.0fs" % (m["property"], x.returncode, "CAUGHT" if hit and x.returncode == 1 else "MISSED", time.time() - t0)
            if x.returncode not in (0, 1): print(x.stdout[-800:], x.stderr[-800:])
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
        print(i, out, flush=True)
    sh("bash", "/opt/vp/build.sh")


main()
