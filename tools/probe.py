#!/usr/bin/env python3
"""Validates the models of the standard library: tools/probe/probe.rs has small programs whose
assertions hold when they are run; the analyser has to follow each of them to its end without a
panic. Shows which it can not follow.   tools/probe.py [-n] [name...]   (-n: also run natively)"""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/probe"
src = open(os.path.join(V, "tools/probe/probe.rs")).read()
names = re.findall(r"^(r_p_\w+) \{", src, re.M)
if "-s" in sys.argv:
    SYNC = sys.argv.remove("-s") is None
else:
    SYNC = False
os.makedirs(W, exist_ok=True)
if "-n" in sys.argv:
    sys.argv.remove("-n")
    main = src.replace("#![allow(unused)]", "#![allow(warnings)]", 1) + "\nfn main() {\n%s}\n" % "".join(
        "    if std::panic::catch_unwind(%s).is_err() { println!(\"FAILS natively: %s\"); }\n" % (n, n) for n in names)
    open(W + "/main.rs", "w").write(main)
    subprocess.check_call(["rustc", "+nightly", "--edition", "2021", "-A", "warnings", "-o", W + "/main", W + "/main.rs"])
    subprocess.call([W + "/main"])
subprocess.check_call(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "seeded", "--exclude", ".build/work", V + "/", W + "/v/"])
shutil.copy(os.path.join(V, "tools/probe/probe.rs"), W + "/v/harness/src/probe.rs")
p = W + "/v/harness/src/lib.rs"
open(p, "a").write("pub mod probe;\n")
sys.path.insert(0, W + "/v/lib")
sys.setrecursionlimit(20000)
import build, fsmodel, ctx
from engine import Engine
from walk import walk
try:
    d = build.dump()
except build.BuildError as e:
    sys.exit(str(e)[-3000:])
class Ctx(ctx.Ctx):
    pass
c = ctx.Ctx("P", "quick", 1)
c.path = d
bad = 0
if SYNC:
    sys.exit()


class Late(Exception):
    pass


def late(*_):
    raise Late("time limit")


import signal
signal.signal(signal.SIGALRM, late)
for n in names:
    if sys.argv[1:] and not any(x in n for x in sys.argv[1:]):
        continue
    eng = Engine(c.dump(), hooks=dict(fsmodel.HOOKS))

    def body(w, n=n):
        o = w.call(n)
        if o.kind != "return":
            raise SystemExit("%s: %s %s" % (o.kind, o.msg, o.where))
    signal.alarm(15)
    why = None
    try:
        walk(c, eng, n, body)
    except SystemExit as e:
        why = str(e)
    except Exception as e:
        why = "EXCEPTION " + repr(e)
    signal.alarm(0)
    why = why or "; ".join("gap " + str(g) for g in c.gaps)
    c.gaps.clear()
    if why:
        print(n, why[:230], flush=True)
        bad += 1
print("%d of %d not followed" % (bad, len(names)))
