"""The two storages against one reference: names and their last contents."""
import itertools
from engine import *
from terms import *
from walk import walk, Walk, Fail, Stop
import fsmodel, ghost, models
from cont_checks import zeros, cat
from store_checks import size_bytes, unwrap_ok, text

KINDS = ("mem", "file")
CONCRETE = {"mem": "MemoryResourceStorage", "file": "FileResourceStorage"}
SCHEMA = "schema of it"


class World:
    """A storage in the analysed program next to what it should contain."""

    def __init__(self, w, kind, setup, mode="content"):
        self.w, self.kind, self.setup, self.mode = w, kind, setup, mode
        self.ref = {}      # full name -> content
        self.held = []     # (slice, content, full name): everything handed out so far
        self.n = 0
        self.const = None
        w.st.ghost["faults"] = False
        if kind == "file" and setup:
            for name in ("a", "sub/a") if setup == "files" else ():
                old = src_bytes("old " + name, w.sym("old " + name, 1))
                fsmodel.add_file(w.st, b"dir/" + name.encode(), old)
                self.ref[name] = old
            fsmodel.add_dirs(w.st, b"dir")
        r = w.ret("new", self.root("new"), models.new_vec(w_call(w), lit(b"dir")))
        self.handles = {"": self.handle(r)}

    def root(self, op):
        return "r_%s_%s" % (self.kind, op)

    def handle(self, rc):
        w = self.w
        rc = w.e.unwrap(rc) if isinstance(rc, Agg) else rc
        if not (isinstance(rc, Obj) and rc.k == "rc"):
            raise Gap("handle %r" % (rc,))
        v = w.st.mem[rc.v[0].base]
        if not (isinstance(v, Agg) and CONCRETE[self.kind] in w.e.T(v.ty)["name"]):
            raise Gap("storage which is not a " + CONCRETE[self.kind])
        return rc

    def at(self, prefix):
        h = self.handles.get(prefix)
        if h is None:
            h = self.handles[prefix] = self.sub(prefix)
        return Ptr(h.v[0].base)

    def sub(self, prefix):
        """A new handle of a subdirectory."""
        return self.handle(self.w.ret("subdirectory", self.root("subdir"), self.at(""), self.w.text(prefix)))

    def fresh(self, size="sym"):
        if self.const is not None:
            return self.const
        self.n += 1
        name = "data %d" % self.n
        n = 0 if size == 0 else self.w.sym("n%d" % self.n, 0 if size == "any" else 1, 1 << 48)
        return src_bytes(name, n)

    # ---- operations; h is the prefix of the handle, ! in front of it asks for a new handle
    def target(self, h, name):
        if h.startswith("!"):
            p = Ptr(self.sub(h[1:]).v[0].base)
            h = h[1:]
        else:
            p = self.at(h)
        return p, (h + "/" if h else "") + name

    def op(self, o):
        k, h, name = o[:3]
        if k in ("rewrites", "many", "dirs", "reads"):
            # many times the same, with short constant contents
            for i in range(o[3]):
                x = "%s%d" % (name, i)
                self.n += 1
                self.const = lit(b"content %d" % self.n)
                if k == "rewrites":
                    self.op(("stream", h, name))
                    self.op(("read", h, name))
                elif k == "many":
                    self.op(("stream", h, x))
                    self.op(("read", h, x))
                elif k == "dirs":
                    self.op(("stream", "!" + x, name))
                    self.op(("read", "", x + "/" + name))
                else:
                    self.op(("read", h, name))
                self.w.trail = self.w.trail[-3:]
            self.const = None
            return
        p, full = self.target(h, name)
        w = self.w
        what = "%s of '%s'" % (k, full)
        w.trail.append("[%s %s%s]" % (k, (h + ":") if h else "", name))
        if k in ("stream", "empty", "parts"):
            d = self.fresh(0 if k == "empty" else "sym")
            if k == "parts":
                d2, head = self.fresh(), self.fresh()
                self.ok("content", w.ret("writing", self.root("parts"), p, w.text(name), w.slice(d), w.slice(d2), w.slice(head)), what)
                # a, overwriting the start of head a b
                c = w.do(lambda: w.e.replace(w.st, cat(head, d, d2), 0, d))
                self.ref[full] = c
            else:
                self.ok("content", w.ret("writing", self.root("streamw"), p, w.text(name), w.slice(d)), what)
                self.ref[full] = d
        elif k == "peek":
            # read before it is complete
            d, d2 = self.fresh(), self.fresh()
            v = w.ret("reading", self.root("peek"), p, w.text(name), w.slice(d), w.slice(d2))
            if self.mode == "content":
                x = w.fat(unwrap_ok(w, "content", v, what))
                w.same("content", w.bytes(x), d, "content of '%s' before it was complete" % full)
            elif w.variant(v) == "Ok":
                x = w.fat(v)
                self.held.append((x, self.valid(x, full, "before it was complete"), full))
            self.ref[full] = cat(d, d2)
        elif k in ("over", "overe"):
            # read before it is written again with another first (last) byte
            d = self.fresh()
            d, d2 = [(cat(lit(x), d) if k == "over" else cat(d, lit(x))) for x in (b"old", b"new")]
            v = w.ret("reading", self.root("over"), p, w.text(name), w.slice(d), w.slice(d2))
            self.ok("content", v, what)
            if self.mode == "content":
                w.same_num("content", v.f[0], blen(d), "length of '%s' before it was overwritten" % full)
            self.ref[full] = d2
        elif k == "two":
            d, d2 = self.fresh(), self.fresh()
            other = o[3]
            self.ok("content", w.ret("writing", self.root("two"), p, w.text(name), w.text(other), w.slice(d), w.slice(d2)), what)
            self.ref[full] = cat(d, d2)
            self.ref[full[:len(full) - len(name)] + other] = cat(d2, d)
        elif k == "write":
            d = self.fresh()
            self.ok("content", w.ret("writing", self.root("write"), p, w.text(name), w.text(SCHEMA), w.slice(d)), what)
            self.ref[full] = seg_norm(size_bytes(w.e, blen(d)).s + d.s + zeros(8).s)
            self.ref[full + ".schema"] = lit(SCHEMA.encode())
        elif k == "read":
            self.read(p, name, full)
        elif k == "drop":
            # the handles of the subdirectory are given up, what was read through the root stays
            rc = self.handles.pop(h, None)
            if rc is not None:
                w.do(lambda: models.rc_release(w.e, w.st, rc))
        else:
            raise Gap("operation " + k)

    def ok(self, key, v, what):
        if self.mode == "content":
            unwrap_ok(self.w, key, v, what)
        else:
            self.w.variant(v)

    def read(self, p, name, full):
        w = self.w
        v = w.ret("reading", self.root("read_resource"), p, w.text(name))
        if self.mode == "slices":
            # whatever it is, it must stay like that
            if w.variant(v) == "Ok":
                x = w.fat(v)
                self.held.append((x, self.valid(x, full, "just"), full))
            return
        want = self.ref.get(full)
        if want is None:
            w.must("missing", w.variant(v) == "Err", "reading the missing '%s' succeeds" % full)
            e = v.f[0]
            w.must("missing", isinstance(e, Obj) and e.k == "ioerr" and e.v[0] == "NotFound", "reading the missing '%s' fails with %s" % (full, e))
            return
        x = w.fat(unwrap_ok(w, "content", v, "reading '%s'" % full))
        w.same("content", w.bytes(x), want, "content of '%s'" % full)
        self.held.append((x, want, full))

    def valid(self, x, full, when):
        try:
            return self.w.bytes(x)
        except Viol as v:
            raise Fail("slices", "%s: a slice of '%s' read %s is not valid: %s" % (self.w.describe(), full, when, v))

    def check_held(self):
        if self.mode != "slices":
            return
        for x, want, full in self.held:
            self.w.same("slices", self.valid(x, full, "before"), want, "slice of '%s' read before" % full)

    def check_all(self, names):
        """Everything there is, through the handles there are."""
        for full in names:
            for prefix, name in views(full):
                if prefix not in self.handles and prefix:
                    continue
                p = self.at(prefix)
                r = self.w.ret("existence", self.root("exists"), p, self.w.text(name))
                if self.mode == "content":
                    self.w.truth("existence", r, full in self.ref, "exists('%s')" % full)
                self.read(p, name, full)


def views(full):
    yield "", full
    if "/" in full:
        i = full.rfind("/")
        yield full[:i], full[i + 1:]


class w_call:
    """Just enough of a call for making values."""
    def __init__(self, w):
        self.eng, self.st = w.e, w.st


# ---------------------------------------------------------------- histories
def alphabet(ctx):
    ops = []
    for k in ("stream", "read"):
        ops += [(k, "", "a"), (k, "", "sub/a"), (k, "sub", "a"), (k, "!sub", "a")]
    return ops


def hist_items(ctx):
    """All histories of four operations (five in the thorough tier), and longer ones of particular interest."""
    ops = alphabet(ctx)
    hs = [h for h in itertools.product(ops, repeat=3) if interesting(h)]
    S, R = "stream", "read"
    for t in (("", "a"), ("sub", "a"), ("!sub", "a"), ("", "sub/a")):
        o = lambda k: (k,) + t
        hs += [(o("write"), o(R), o("write"), o(R)), (o("parts"), o(R)), (o(R), o("parts"), o(R)), (o("empty"), o(R), o(S), o(R)),
               (o(S), o(R), o("empty"), o(R), o(S)), (o(S), o(R), o(S), o(R), o(S), o(R)), (o(S), o(S), o(R)),
               (("two",) + t + ("b",), o(R), ("two",) + t + ("b",)), (o(R), ("two",) + t + ("b",), o(S)),
               (("stream", "", "b"), ("read", "", "b"), o(S), o(R), ("stream", "", "b"), o(R)),
               (o("peek"), o(R)), (o("peek"), o(R), o("peek"), o(R)), (o(S), o(R), o("peek"), o(S)), (o("peek"), o(S), o(R), o("peek")),
               (o("over"), o(R)), (o("over"), o(R), o("over"), o(R)), (o(S), o(R), o("over"), o(R), o(S)), (o("over"), o(S), o(R)), (o("over"), ("read", "", "b"), o(R), o("peek")), (o("overe"), o(R)), (o(S), o("overe"), o(R)), (o("overe"), o("overe"), o(R), o("over"), o(R)),
               (o("peek"), o("peek"), ("read", "", "b"), o(R)), (o("peek"), o(R), o("parts"), o(R)),
               (o(S), o(R), ("read", "sub", "a"), ("drop", "sub", "a"), o(S), o(R)),
               (("stream", "sub", "a"), ("drop", "sub", "a"), o(R), o(S), o(R))]
    hs += [(("stream", "sub/deep", "a"), ("read", "", "sub/deep/a"), ("read", "sub", "deep/a"), ("stream", "", "sub/deep/a")),
           (("stream", "", "x/y/z"), ("read", "x", "y/z"), ("read", "x/y", "z"), ("stream", "x", "y/z"), ("read", "", "x/y/z"))]
    more = ops if not ctx.thorough else ops + [("write", "", "a"), ("parts", "sub", "a"), ("peek", "", "sub/a"), ("drop", "sub", "a"), ("two", "", "a", "b"), ("empty", "", "a")]
    hs += [h for h in itertools.product(more, repeat=4) if interesting(h)]
    if ctx.thorough:
        hs += [h for h in itertools.product(ops, repeat=5) if interesting(h)]
    n = 1100 if ctx.thorough else 200
    o = ("stream", "", "a"), ("read", "", "a")
    hs = [o + (x,) + o for x in (("rewrites", "", "a", n), ("rewrites", "sub", "b", n // 2), ("many", "", "b", n), ("many", "sub", "b", n // 2), ("dirs", "", "x", n // 3),
                                 ("reads", "", "a", n))] + hs
    return [(k, s, h) for h in hs for k in KINDS for s in ((None, "files") if k == "file" else (None,))]


def interesting(h):
    """Not just reading, and nothing another history contains."""
    return any(o[0] != "read" for o in h)


def label(kind, setup, ops):
    return "%s storage%s [%s]" % ("memory" if kind == "mem" else "file", " over existing files" if setup else "",
                                  ", ".join("%s %s%s" % (o[0], o[1] + ":" if o[1] else "", o[2]) for o in ops))


def names_of(ops):
    return {(o[1].lstrip("!") + "/" if o[1] else "") + o[2] for o in ops}


def history(ctx, it, mode="content"):
    """A history of operations, with the contents of everything in the end (mode "content"), or with
    everything handed out on the way (mode "slices")."""
    kind, setup, ops = it
    eng = Engine(ctx.dump(), hooks=dict(fsmodel.HOOKS))

    def body(w):
        wd = World(w, kind, setup, mode)
        for o in ops:
            wd.op(o)
            wd.check_held()
        wd.check_all(sorted(names_of(ops) | set(wd.ref)) + ["missing"])
        wd.check_held()
    walk(ctx, eng, label(kind, setup, ops), body)


# ---------------------------------------------------------------- failing file operations
def fault_items(ctx):
    hs = []
    for t in (("", "a"), ("sub", "a"), ("", "sub/a")):
        for k in ("stream", "write", "parts", "two", "peek", "over"):
            o = (k,) + t + ("b",)
            for before in ((), (("stream",) + t,), (("stream",) + t, ("read",) + t), (("read",) + t,)):
                hs.append((before, o))
    return [("file", s, b, o) for b, o in hs for s in (None, "dir", "files")]


def faults(ctx, it, mode="reported"):
    """After some operations one of which any file operation may fail. Mode "reported": the failure
    is returned. Mode "slices": whatever was handed out stays as it was."""
    kind, setup, before, o = it
    eng = Engine(ctx.dump(), hooks=dict(fsmodel.HOOKS))

    def body(w):
        wd = World(w, kind, setup, "slices")
        for x in before:
            wd.op(x)
        p, full = wd.target(o[1], o[2])
        w.st.ghost["faults"] = True
        w.st.events = ()
        w.trail.append("[%s %s%s with failures]" % (o[0], (o[1] + ":") if o[1] else "", o[2]))
        a = {"stream": 1, "write": 1, "parts": 3, "two": 2, "peek": 2, "over": 2}[o[0]]
        args = [w.slice(wd.fresh()) for _ in range(a)]
        key = "reported" if mode == "reported" else "slices"
        if o[0] == "write":
            args.insert(0, w.text(SCHEMA))
        if o[0] == "two":
            args.insert(0, w.text(o[3]))
        r = w.call(wd.root({"stream": "streamw"}.get(o[0], o[0])), p, w.text(o[2]), *args)
        if mode == "reported":
            failed = [e[1] for e in w.st.events if e[0] == "fault"]
            if r.kind == "panic":
                raise Fail(key, "%s: panics: %s at %s" % (w.describe(), r.msg, r.where))
            if r.kind != "return":
                raise Fail(key, "%s: invalid memory access: %s at %s" % (w.describe(), r.msg, r.where))
            if failed:
                w.must(key, w.variant(r.value) == "Err", "a failing file operation (%s) is not reported" % ", ".join(failed))
            return
        w.st.ghost["faults"] = False
        wd.check_held()
        wd.check_all(sorted(names_of(before + (o,))))
        wd.check_held()
    walk(ctx, eng, label(kind, setup, before + (o,)) + " with failures", body)


def read_faults(ctx, it):
    """Reading while file operations fail returns an error or the content."""
    kind, setup, before, o = it
    eng = Engine(ctx.dump(), hooks=dict(fsmodel.HOOKS))

    def body(w):
        wd = World(w, kind, setup)
        for x in before:
            wd.op(x)
        p, full = wd.target(o[1], o[2])
        w.trail.append("[read %s with failures]" % full)
        for again in (False, True):
            w.st.ghost["faults"] = not again
            v = w.ret("content", wd.root("read_resource"), p, w.text(o[2]))
            if w.variant(v) == "Ok":
                w.must("missing", full in wd.ref, "reading the missing '%s' succeeds" % full)
                w.same("content", w.bytes(w.fat(v)), wd.ref[full], "content of '%s'" % full)
            elif again:
                w.must("content", full not in wd.ref, "reading '%s' fails after an earlier failure" % full)
    walk(ctx, eng, label(kind, setup, before) + " reading with failures", body)
