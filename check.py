#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current tree by static analysis.

Exit 0: no violation found. Exit 1 with a line `VIOLATION property=<id> replay=<path>`: broken.
Evidence goes to evidence/<property>.json, reports of violations to evidence/<property>.report.txt."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)
import build, ctx as C


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    spec = props.CHECKS[pid]
    ctx = C.Ctx(pid, tier, seed)
    try:
        ctx.path = build.dump()
    except build.BuildError as e:
        txt = str(e)
        if "could not compile `flatdata`" in txt:
            print(txt[-3000:])
            print("the crate itself does not build", file=sys.stderr)
            sys.exit(2)
        ctx.viol("api", "the analysed entry points do not type-check against the public interface any more:\n" + txt[-4000:])
        return finish(ctx, spec, t0)
    ctx.deadline = time.time() + (780 if ctx.thorough else 420)
    for f in spec["run"]:
        f(ctx)
        if ctx.viols:
            break
    finish(ctx, spec, t0)


def finish(ctx, spec, t0):
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    for l in open(kf):
        l = l.strip()
        if l.startswith("known: property=%s key=" % ctx.pid):
            known.append(l.split("key=", 1)[1].split(" ", 1)[0])
    found = sorted(ctx.viols.items())
    new = [(k, v) for k, v in found if k not in known]
    for k, v in found:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    total = sum(ctx.obs.values()) + sum(ctx.gaps.values())
    floors = [] if ctx.viols or total >= spec["floor"] else ["%d obligations, expected at least %d" % (total, spec["floor"])]
    cov = ctx.coverage(spec)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w"), indent=1)
    for k, v in ctx.gaps_sorted()[:20]:
        print("undecided: %s (%d)" % (k, v))
    print("%s: %s obligations, %s undecided, %d violations, %.1f s" % (
        ctx.pid, sum(ctx.obs.values()), sum(ctx.gaps.values()), len(new), time.time() - t0))
    rep = os.path.join(HERE, "evidence", ctx.pid + ".report.txt")
    if new:
        with open(rep, "w") as f:
            for k, v in new:
                f.write("%s\n  %s\n\n" % (k, v))
        for k, v in new[:8]:
            print("  %s\n     %s" % (k, v[:1500]))
        print("VIOLATION property=%s replay=evidence/%s.report.txt" % (ctx.pid, ctx.pid))
        sys.exit(1)
    if os.path.exists(rep):
        os.remove(rep)
    if floors:
        for f in floors:
            print("too little was analysed: " + f, file=sys.stderr)
        # code which the analysis does not understand is undecided and listed above; nothing at all is a failure
        if not ctx.gaps and not (total and ctx.notes):
            sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
