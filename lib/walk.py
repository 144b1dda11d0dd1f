"""Straight-line specifications evaluated over all cases of the abstract states: a specification
calls analysed functions one after another and states what must hold of the results. Wherever the
analysis distinguishes cases, the specification is evaluated in each of them."""
import os
from engine import *
from terms import *
import models


class Fail(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


class Stop(Exception):
    """Nothing left to check on this path."""


class Walk:
    muted = ()      # rules that are decided elsewhere

    def __init__(self, ctx, eng, setup):
        self.ctx, self.e, self.setup = ctx, eng, setup

    def begin(self, choices):
        self.choices, self.pos, self.forks = list(choices), 0, []
        self.st = State()
        self.trail = []

    def choose(self, n):
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = 0
            for i in range(1, n):
                self.forks.append(self.choices[:self.pos] + [i])
            self.choices.append(0)
        self.pos += 1
        return v

    def do(self, f):
        """f(), deciding what it leaves open case by case."""
        while True:
            try:
                return f()
            except Split as sp:
                self.apply(sp.alts[self.choose(len(sp.alts))])

    def apply(self, alt):
        for a in alt:
            self.e.assume(self.st, a)

    # ---- symbols and facts
    def sym(self, name, lo=0, hi=(1 << 63) - 1):
        s = symbol(name, hi)
        if lo:
            self.st.facts = self.st.facts + (sub(s, lo),)
        return s

    def fact(self, p):
        """p >= 0"""
        self.e.assume(self.st, ("ge", p))

    def test(self, c):
        return self.do(lambda: self.e.test(self.st, c))

    def ge(self, a, b):
        return self.test(self.e.ge(a, b))

    def eq(self, a, b):
        return self.test(self.e.eq(a, b))

    # ---- memory
    def argty(self, root, i):
        f = self.e.fn(self.e.roots[root])
        return f["locals"][i + 1]

    def ref(self, root, i, value):
        """A reference to a fresh place holding the value, as i-th argument of root."""
        t = self.e.T(self.argty(root, i))
        return Ptr(self.e.alloc(self.st, value, t["e"]))

    def at(self, p):
        """Current value behind a reference made by `ref`."""
        return self.do(lambda: self.e.get_path(self.e.base_value(self.st, p.base), p.path))

    def slice(self, content):
        b = content if isinstance(content, Bytes) else seg_norm([content])
        return Ptr(self.e.alloc(self.st, b), (), 0, blen(b))

    def src(self, name, n):
        return self.slice(src_bytes(name, n))

    def text(self, s):
        return self.slice(lit(s.encode()) if isinstance(s, str) else s)

    def fat(self, v):
        """The slice reference inside a value."""
        ps = [p for p in ptrs(v)]
        if len(ps) != 1:
            raise Gap("no single reference in %r" % (v,))
        return ps[0]

    def bytes(self, p, off=0, n=None):
        p = self.fat(p) if not isinstance(p, Ptr) else p

        def f():
            cont = models.container(self.e, self.st, p)
            if p.meta == 0 and not isinstance(cont, Bytes):
                b = Bytes(())
            else:
                b = self.e.cut(self.st, cont, p.off or 0, p.meta)
            return b if n is None else self.e.cut(self.st, b, off, n)
        return self.do(f)

    def write(self, p, off, content):
        p = self.fat(p) if not isinstance(p, Ptr) else p
        self.do(lambda: models.write_raw(self.e, self.st, p.with_(off=add(p.off or 0, off)), content))

    # ---- calls
    def call(self, root, *args):
        e = self.e
        self.trail.append(root)
        st = self.st.clone()
        st.steps, st.loops = 0, {}
        e.start(st, root, list(args))
        outs = e.run(st)
        self.ctx.absorb(e, outs)
        if not outs:
            raise Stop()
        outs = [o for o in outs]
        o = outs[self.choose(len(outs))]
        self.st = o.st
        if o.kind == "gap":
            raise Gap("%s: %s" % (root, o.msg))
        return o

    def ret(self, key, root, *args):
        """Result of a call which must return."""
        o = self.call(root, *args)
        if o.kind == "panic" and key in self.muted:
            raise Stop()
        if o.kind != "return":
            raise Fail(key, "%s: %s: %s at %s" % (self.describe(), {"panic": "panics", "ub": "invalid memory access"}[o.kind], o.msg, o.where))
        return o.value

    def refused(self, key, what, root, *args):
        """The call must panic."""
        o = self.call(root, *args)
        if o.kind != "panic":
            raise Fail(key, "%s: %s is not refused: %s" % (self.describe(), what, "it returns" if o.kind == "return" else o.msg + " at " + str(o.where)) + self.facts())
        self.ctx.ob(key)

    def describe(self):
        return "%s after %s" % (self.what, " ".join(self.trail)) if self.trail else self.what

    # ---- what must hold
    def must(self, key, cond, msg):
        if key in self.muted:
            return
        self.ctx.ob(key)
        if not isinstance(cond, bool):
            cond = self.test(cond)
        if not cond:
            raise Fail(key, "%s: %s%s" % (self.describe(), msg() if callable(msg) else msg, self.facts()))

    def same_num(self, key, got, want, what):
        got = self.e.num(got)
        self.must(key, self.e.eq(got, want), lambda: "%s is %s instead of %s" % (what, got, want))

    def truth(self, key, got, want, what):
        g = self.do(lambda: self.e.test(self.st, self.e.to_cond(got)))
        w = self.test(want) if not isinstance(want, bool) else want
        self.ctx.ob(key)
        if g != w:
            raise Fail(key, "%s: %s is %s instead of %s%s" % (self.describe(), what, g, w, self.facts()))

    def same(self, key, got, want, what):
        self.ctx.ob(key)
        want = want if isinstance(want, Bytes) else seg_norm([want])
        d = self.do(lambda: self.e.same_bytes(self.st, got, want))
        if d:
            raise Fail(key, "%s: %s: %s%s" % (self.describe(), what, d, self.facts()))

    def facts(self):
        fs = [str(f) + " >= 0" for f in self.st.facts[-6:]]
        return " (when %s)" % ", ".join(fs) if fs else ""

    # ---- values
    def variant(self, v):
        """Name of the variant of an enum value."""
        if not isinstance(v, Agg):
            raise Gap("variant of %r" % (v,))
        t = self.e.T(v.ty)
        return t["v"][v.var]["n"]

    def opt(self, v):
        """Content of Some, or None."""
        n = self.variant(v)
        return v.f[0] if n in ("Some", "Ok") else None


def ptrs(v):
    if isinstance(v, Ptr):
        yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from ptrs(x)


def walk(ctx, eng, what, body, limit=20000, muted=()):
    """Evaluates body(w) in every case."""
    w = Walk(ctx, eng, None)
    work = [[]]
    n = 0
    while work:
        n += 1
        if n > limit or ctx.late():
            ctx.gap("%s: too many cases" % what.split(" [")[0])
            break
        if len(ctx.viols) > 4:
            break
        w.begin(work.pop())
        w.what = what
        w.muted = muted
        try:
            body(w)
        except Fail as f:
            ctx.viol("%s: %s" % (what.split(" [")[0], f.key), str(f))
        except (Infeasible, Stop):
            pass
        except Viol as v:
            ctx.viol("%s: invalid reference" % what.split(" [")[0], "%s: %s" % (w.describe(), v))
        except (Gap, TooComplex) as g:
            if os.environ.get("FD_TRACE"):
                print("gap", what, w.trail, g)
            ctx.gap("%s: %s" % (what.split(" [")[0], str(g)[:200]))
        work += w.forks
