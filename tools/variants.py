#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo (tools/refactorings/*.py), each of which has to leave the checks
quiet; also shows how much becomes undecided.   tools/variants.py FILE.py [names] [-c C01,C02]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if "-c" in args:
    i = args.index("-c")
    checks = args[i + 1].split(",")
    del args[i:i + 2]
env = {}
exec(open(args[0]).read(), env)
for name, v in env["VARIANTS"].items():
    if args[1:] and name not in args[1:]:
        continue
    d = "/tmp/variant"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("FD_BASE", "/repo"), d, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
    for f, old, new in v["edits"]:
        p = os.path.join(d, "src", f)
        s = open(p).read()
        if s.count(old) != v.get("count", 1):
            print(name, ": text occurs %d times in %s: %r" % (s.count(old), f, old[:60]))
        open(p, "w").write(s.replace(old, new))
    r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/variant_target", RUSTFLAGS="--cap-lints allow"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(name, "TESTS FAIL\n", "\n".join([l for l in r.stdout.split("\n") if re.search("error|panicked|FAILED", l)][:8]))
        continue
    for c in checks or v["checks"]:
        r = subprocess.run(["python3", "check.py", c], cwd=V, env=dict({"FD_SAMPLE": "7"}, **dict(os.environ, FD_REPO=d)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            e = json.load(open(os.path.join(V, "evidence", c + ".json")))
            cov = e["coverage"]
            g = ["%s x%d" % (k[:250], n) for k, n in list(cov["undecided_kinds"].items())[:3]]
        except Exception as ex:
            g = [repr(ex)]
        viol = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "violat" in l.lower()]
        print("%-14s %s rc=%d %s %s" % (name, c, r.returncode, "" if not g else "GAPS " + "; ".join(g), r.stdout[-600:] if r.returncode else ""), flush=True)
