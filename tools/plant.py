#!/usr/bin/env python3
"""plant.py <spec.py> : makes and validates seeded bugs in a scratch copy of /repo.

A spec defines BUGS = {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], main=rust source)}."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
demo = open(os.path.join(V, "tools", "demo.sh")).read()
base = tempfile.mkdtemp(prefix="plant")
try:
    repo = os.path.join(base, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    flags = "-A bare_trait_objects -A deprecated -A mismatched_lifetime_syntaxes -A unused_doc_comments"
    env = dict(os.environ, RUSTFLAGS=flags, RUSTDOCFLAGS=flags, CARGO_TARGET_DIR=os.path.join(repo, "target"), TMPDIR=base)
    def sh(cmd, cwd=repo, env=env):
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    def tests():
        rc, out = sh("rm -rf target/debug/.fingerprint/flatdata-*; cargo test --workspace --no-fail-fast --offline 2>&1")
        n = sum(int(l.split(" passed")[0].split()[-1]) for l in out.splitlines() if l.startswith("test result"))
        return rc, n, out
    for bid, b in ns["BUGS"].items():
        if only and bid not in only:
            continue
        sh("git checkout -q -- .")
        d = os.path.join(V, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "main.rs"), "w").write(b["main"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(demo if "demo" not in b else demo[:demo.index("cargo run")] + b["demo"].lstrip())
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        e2 = dict(os.environ)
        r0, o0 = sh("bash %s/demo.sh" % d, env=e2)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc, n, out = tests()
        r1, o1 = sh("bash %s/demo.sh" % d, env=e2)
        ok = r0 == 0 and rc == 0 and n >= 53 and r1 not in (0, 3)
        print("%s %s: demo clean %d, tests %d (%d passed), demo patched %d" % ("ok " if ok else "BAD", bid, r0, rc, n, r1))
        if r0: print(o0[-1500:])
        if rc: print("\n".join(l for l in out.splitlines() if "error" in l or "FAILED" in l or "panicked" in l)[:1500])
        if not r1 or "error" in o1: print(o1[-800:])
finally:
    shutil.rmtree(base)
