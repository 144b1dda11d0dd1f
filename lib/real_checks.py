"""The writers, readers and archives above the two real storages and an abstract file system."""
from engine import *
from terms import *
from walk import walk, Fail, Stop
import fsmodel, ghost, models
from cont_checks import HOOKS as IDX_HOOKS, zeros, cat
from store_checks import (NAME, SCHEMA, Entry, add_items, check_entries, check_read, held, mv_sizes, requested, resource, size_bytes, text, unwrap_ok, SLACK)
from fs_checks import World, KINDS
import arch_checks as A


def hooks():
    h = dict(IDX_HOOKS)
    h.update(fsmodel.HOOKS)
    return h


def engine(ctx, sizes):
    eng = Engine(ctx.dump(), debug=True, sizes=sizes, hooks=hooks())
    eng.unknown_elements = 0
    return eng


class Real:
    """A handle of a storage, and what is known to be stored."""
    def __init__(self, w, key, kind, prefix=""):
        self.w, self.key, self.kind = w, key, kind
        self.wd = World(w, kind, None, "slices")
        self.prefix = prefix
        self.dyn = self.handle(prefix)

    def handle(self, prefix):
        return self.w.ret(self.key, "r_%s_ref" % self.kind, self.wd.at(prefix))

    def views(self):
        """Handles through which the names below the prefix can be read, and what is before the names there."""
        yield self.dyn, ""
        if self.prefix:
            yield self.handle(""), self.prefix + "/"
            yield self.w.ret(self.key, "r_%s_ref" % self.kind, Ptr(self.wd.sub(self.prefix).v[0].base)), ""

    def stored(self, name, schema, payload):
        """The resource is stored in the right format and read."""
        w = self.w
        for s, p in self.views():
            d = unwrap_ok(w, self.key, w.ret(self.key, "r_dyn_read", s, w.text(p + name), w.text(schema)), "reading '%s'" % (p + name))
            w.same(self.key, w.bytes(d), payload, "content of '%s' read" % (p + name))
        full = (self.prefix + "/" if self.prefix else "") + name
        p, _ = self.wd.target("", full)
        for n, want in ((full, resource(w.e, blen(payload), payload)), (full + ".schema", text(schema))):
            d = unwrap_ok(w, self.key, w.ret(self.key, self.wd.root("read_resource"), p, w.text(n)), "reading '%s'" % n)
            w.same(self.key, w.bytes(d), want, "stored content of '%s'" % n)

    def write(self, name, schema, payload):
        w = self.w
        unwrap_ok(w, self.key, w.ret(self.key, "r_dyn_write", self.dyn, w.text(name), w.text(schema), w.slice(payload)), "writing '%s'" % name)


BEFORE = (None, "there", "read", "peek")


def before_writing(w, x, before, name):
    """An older version of the resource, perhaps in use."""
    if before in ("there", "read"):
        old = src_bytes("old", w.sym("size of old", 0, 1 << 48))
        x.write(name, SCHEMA, old)
        if before == "read":
            d = unwrap_ok(w, x.key, w.ret(x.key, "r_dyn_read", x.dyn, w.text(name), w.text(SCHEMA)), "reading '%s'" % name)
            return w.fat(d), old
    return None


def still(w, x, old):
    if old:
        try:
            w.same(x.key, w.bytes(old[0]), old[1], "the version read before")
        except Viol as v:
            raise Fail(x.key, "%s: the version read before is not valid any more: %s" % (w.describe(), v))


def peek(w, x, name):
    """Reading what is not complete yet."""
    v = w.ret(x.key, "r_dyn_read", x.dyn, w.text(name), w.text(SCHEMA))
    w.must(x.key, w.variant(v) == "Err", "a resource which is not complete is read")


def label(kind, prefix, before):
    return "%s storage%s%s" % ({"mem": "memory", "file": "file"}[kind], ", subdirectory" if prefix else "", {None: "", "there": ", written before", "read": ", read before", "peek": ", read meanwhile"}[before])


# ---------------------------------------------------------------- vectors written piece by piece
def ev_items(ctx):
    return [(k, p, b, s, n) for k in KINDS for p in ("", "sub") for b in BEFORE for s, n in (("sym", 0), ("sym", 2), (40 << 20, 3), (3, 5))]


def ext_vector(ctx, it, key="content"):
    kind, prefix, before, s, n = it
    S = symbol("S", 1 << 32) if s == "sym" else s
    eng = engine(ctx, {"AbsT": S})

    def body(w):
        if s == "sym":
            w.fact(sub(S, 1))
        x = Real(w, key, kind, prefix)
        old = before_writing(w, x, before, NAME)
        v = unwrap_ok(w, key, w.ret(key, "r_ev_create", x.dyn, w.text(NAME), w.text(SCHEMA)), "creating")
        r = w.ref("r_ev_grow", 0, v)
        for i in range(n):
            m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
            w.write(w.fat(m), 0, src_bytes("e%d" % i, S))
            if before == "peek":
                peek(w, x, NAME)
        payload = cat(*[src_bytes("e%d" % i, S) for i in range(n)])
        c = unwrap_ok(w, key, w.ret(key, "r_ev_close", w.at(r)), "close")
        w.same(key, w.bytes(c), payload, "view returned by close")
        x.stored(NAME, SCHEMA, payload)
        still(w, x, old)
        w.same(key, w.bytes(c), payload, "view returned by close")
    walk(ctx, eng, "external vector above a %s [%d elements of %s bytes]" % (label(kind, prefix, before), n, "S" if s == "sym" else s), body)


# ---------------------------------------------------------------- multi vectors
def mv_items(ctx):
    return [(k, p, b, n) for k in KINDS for p, b in (("", None), ("", "read"), ("sub", "there"), ("sub", "peek")) for n in (0, 2)]


def multi_vector(ctx, it, key="index and data"):
    kind, prefix, before, n = it
    sizes = mv_sizes()
    eng = engine(ctx, sizes)

    def body(w):
        for s in sizes.values():
            w.fact(sub(s, 1))
        x = Real(w, key, kind, prefix)
        old = before_writing(w, x, before, NAME)
        if old:
            x.write(NAME + "_index", "index(%s)" % SCHEMA, src_bytes("old index", w.sym("size of old index", 0, 1 << 48)))
        v = unwrap_ok(w, key, w.ret(key, "r_mv_create", x.dyn, w.text(NAME), w.text(SCHEMA)), "creating")
        r = w.ref("r_mv_grow", 0, v)
        data, entries, names = Bytes(()), [], []
        for i in range(n):
            m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
            entries.append(Entry(blen(data)))
            data = cat(data, add_items(w, key, sizes, m, entries[-1], 1, names))
            if before == "peek":
                peek(w, x, NAME)
        c = unwrap_ok(w, key, w.ret(key, "r_mv_close", w.at(r)), "close")
        check_entries(w, key, c, sizes, entries, data)
        index = Bytes(tuple((sizes["AbsIdx"], ("v", o)) for o in [e.off for e in entries] + [blen(data)]))
        x.stored(NAME, SCHEMA, data)
        x.stored(NAME + "_index", "index(%s)" % SCHEMA, index)
        still(w, x, old)
    walk(ctx, eng, "multi vector above a %s [%d entries]" % (label(kind, prefix, before), n), body)


# ---------------------------------------------------------------- resources of any names
# names which are different, if only a little
NAMES = [("a", "b"), ("a", "A"), ("a", "a "), ("a", "a."), ("a.b", "a.c"), ("a", "a.b"), ("a", ".a"), ("a", "aa"), ("a_index", "a"), ("a-b", "a_b"), ("\u00e9", "e"), ("a.archive", "a"),
         ("data.bin", "data"), ("x" * 100, "x" * 101), ("1", "01"), ("s/a", "s/b"), ("s/a", "t/a"), ("s/a", "s_a"), ("s/t/a", "s/a"), ("s/a", "s"), ("a%20b", "a b"), ("a~", "a"), ("a,b", "b,a")]


# names of subdirectories
SUBS = ("Sub", "SUB", "sub_", "_sub", " sub", "sub ", "sub-1", "sub_index", "sub.archive", "sub.schema", "a.b.c", "\u00e9", "\u00c9", "1", "01", "a%20b", "s/t", "S/T", "s.x/t", "x" * 100)


def names_items(ctx):
    return [(k, p, n) for k in KINDS for p in ("", "sub", "sub.x", "a") for n in NAMES + [x[::-1] for x in NAMES]] + \
        [(k, p, NAMES[0]) for k in KINDS for p in SUBS]


def two_names(ctx, it, key="format"):
    """Two resources with similar names are two resources."""
    kind, prefix, (a, b) = it
    eng = engine(ctx, {})

    def body(w):
        x = Real(w, key, kind, prefix)
        one, two, three = [src_bytes(n, w.sym("size of " + n, 0, 1 << 48)) for n in ("one", "two", "three")]

        def there(n, want):
            for s, p in x.views():
                w.truth(key, w.ret(key, "r_dyn_exists", s, w.text(p + n)), want, "exists('%s')" % (p + n))
                if not want:
                    v = w.ret(key, "r_dyn_read", s, w.text(p + n), w.text("schema b"))
                    w.must(key, w.variant(v) == "Err" and w.variant(v.f[0]) == "Io" and isinstance(v.f[0].f[0], Obj) and v.f[0].f[0].v[0] == "NotFound",
                           "reading the missing '%s' does not fail as it should" % (p + n))
        if b.startswith(a + "/"):
            raise Stop()
        there(b, False)
        x.write(a, "schema a", one)
        there(a, True)
        there(b, False)
        if a.startswith(b + "/"):
            return      # not a resource, but in a file system its name is taken
        x.write(b, "schema b", two)
        there(b, True)
        x.stored(a, "schema a", one)
        x.stored(b, "schema b", two)
        x.write(a, "schema c", three)
        x.stored(a, "schema c", three)
        x.stored(b, "schema b", two)
    walk(ctx, eng, "resources '%s' and '%s' in a %s" % (a, b, label(kind, prefix, None)), body)


# ---------------------------------------------------------------- reading any bytes
def any_items(ctx):
    return [(k, p, how) for k in KINDS for p in ("", "sub") for how in ("any", "short", "both")]


def anything(ctx, it, key="validation"):
    kind, prefix, how = it
    eng = engine(ctx, {})

    def body(w):
        x = Real(w, key, kind, prefix)
        want = src_bytes("expected schema", w.sym("length of expected schema", 0, 1 << 40))
        L = w.sym("L", 0, 1 << 60)
        if how == "short":
            L = w.choose(18)
        data, schema = src_bytes("data", L), src_bytes("stored schema", w.sym("length of stored schema", 0, 1 << 40))
        have = [1, 1] if how == "short" else [w.choose(2), w.choose(2)]
        for h, n, b in zip(have, (NAME, NAME + ".schema"), (data, schema)):
            if h:
                p, full = x.wd.target("", (prefix + "/" if prefix else "") + n)
                unwrap_ok(w, key, w.ret(key, x.wd.root("streamw"), p, w.text(full), w.slice(b)), "writing '%s'" % full)
        for again in range(2 if how == "both" else 1):
            v = w.ret(key, "r_dyn_read", x.dyn, w.text(NAME), w.slice(want))
            check_read(w, key, v, text(NAME), want, data if have[0] else None, schema if have[1] else None)
    walk(ctx, eng, "any resource in a %s [%s]" % (label(kind, prefix, None), how), body)


# ---------------------------------------------------------------- creating archives
def create_items(ctx):
    return [(k, p, a, how) for k in KINDS for p in ("", "sub") for a in ("inner", "empty") for how in ("new", "any", "other handle")]


def creating(ctx, it, key="creating"):
    kind, prefix, a, how = it
    sizes = dict(mv_sizes(), AbsT=symbol("S", 1 << 32))
    eng = engine(ctx, sizes)

    def body(w):
        for s in sizes.values():
            w.fact(sub(s, 1))
        x = Real(w, key, kind, prefix)
        name, schema = A.names(a)
        before = (prefix + "/" if prefix else "")
        rc = lambda: w.ret(key, "r_%s_twin" % kind, w.ref("r_%s_twin" % kind, 0, x.wd.handles[""])) if not prefix else \
            w.ret(key, x.wd.root("subdir"), x.wd.at(""), w.text(prefix))
        content = None
        if how == "any":
            # something of this name, even if it is empty
            content = src_bytes("archive there", w.sym("L", 0, 1 << 60))
            p, full = x.wd.target("", before + name)
            unwrap_ok(w, key, w.ret(key, x.wd.root("streamw"), p, w.text(full), w.slice(content)), "writing '%s'" % full)
        else:
            unwrap_ok(w, key, w.ret(key, "r_%s_new" % a, rc()), "creating a new archive")
            x.stored(name, schema, Bytes(()))
        for again in range(2):
            v = w.ret(key, "r_%s_new" % a, rc())
            w.must(key, w.variant(v) == "Err", "an existing archive is created again")
            e = v.f[0]
            k = e.f[0].v[0] if w.variant(e) == "Io" and isinstance(e.f[0], Obj) else w.variant(e)
            w.must(key, k == "AlreadyExists", "the error for an existing archive is '%s'" % k)
            if content is None:
                x.stored(name, schema, Bytes(()))
            else:
                p, full = x.wd.target("", before + name)
                d = unwrap_ok(w, key, w.ret(key, x.wd.root("read_resource"), p, w.text(full)), "reading '%s'" % full)
                w.same(key, w.bytes(d), content, "content of '%s'" % full)
            if how == "other handle":
                if kind == "file" and not again:
                    # another storage above the same files
                    x.wd.handles = {"": x.wd.handle(w.ret(key, "r_file_new", models.new_vec(_C(w), lit(b"dir"))))}
                    x.dyn = x.handle(prefix)
    walk(ctx, eng, "archive %s created in a %s [%s]" % (a, label(kind, prefix, None), how), body)


class _C:
    def __init__(self, w):
        self.eng, self.st = w.e, w.st


# ---------------------------------------------------------------- memory used while writing
def bounded_items(ctx):
    return ["ev", "mv"]


def bounded(ctx, it, key="bounded"):
    """As above an abstract storage: the file storage does not hold back what is written either."""
    S = symbol("S", 1 << 40)
    sizes = dict(mv_sizes(4), AbsT=S, AbsA=S, AbsB=symbol("size of tag 1", 1 << 40))
    eng = engine(ctx, sizes)

    def small(w, before, newest, when):
        n = held(w, before)
        w.must(key, w.e.ge(add(newest, SLACK), n), lambda: "%s bytes are held in memory %s" % (n, when))
        requested(w, key, newest, when)

    def body(w):
        for s in sizes.values():
            if isinstance(s, P):
                w.fact(sub(s, 1 << 30))
        x = Real(w, key, "file")
        before = set(w.st.mem)
        if it == "ev":
            r = w.ref("r_ev_grow", 0, unwrap_ok(w, key, w.ret(key, "r_ev_create", x.dyn, w.text(NAME), w.text(SCHEMA)), "creating"))
            w.st.ghost["allocs"] = ()
            for i in range(3):
                m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
                w.write(w.fat(m), 0, src_bytes("e%d" % i, S))
                small(w, before, S, "after %d elements" % (i + 1))
            return
        r = w.ref("r_mv_grow", 0, unwrap_ok(w, key, w.ret(key, "r_mv_create", x.dyn, w.text(NAME), w.text(SCHEMA)), "creating"))
        w.st.ghost["allocs"] = ()
        for i in range(3):
            m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
            data = add_items(w, key, sizes, m, Entry(0), 1, [])
            small(w, before, add(blen(data), 4), "after %d entries" % (i + 1))
    walk(ctx, eng, "memory used above a file storage, %s" % it, body)


# ---------------------------------------------------------------- writing that was stopped
def stop_items(ctx):
    return [(k, old, s) for old in (None, "any", "same") for k, s in (("write", "sym"), ("ev", 8), ("ev", 40 << 20), ("mv", 8))]


def stopped(ctx, it, key="stopped"):
    """Above a file storage, each operation of which may fail, which is where writing stops. What is read then is an error,
    the complete old version or the complete new one."""
    kind, before, s = it
    sizes = {"ev": {"AbsT": s}, "mv": dict(mv_sizes(8), AbsA=s, AbsB=3)}.get(kind, {})
    eng = engine(ctx, sizes)

    def body(w):
        x = Real(w, key, "file")
        e = [src_bytes("e%d" % i, s) for i in range(2)] if kind != "write" else []
        if kind == "write":
            new = {NAME: src_bytes("new", w.sym("size of new", 0, 1 << 48))}
        elif kind == "ev":
            new = {NAME: cat(*e)}
        else:
            new = {NAME: cat(lit(b"\0"), e[0], lit(b"\0"), e[1]), NAME + "_index": Bytes(tuple((8, ("v", o)) for o in (0, s + 1, 2 * s + 2)))}
        schemas = {NAME: SCHEMA, NAME + "_index": "index(%s)" % SCHEMA}
        old = {}
        if before:
            for n in new:
                old[n] = src_bytes("old " + n, blen(new[n]) if before == "same" else w.sym("size of old " + n, 0, 1 << 48))
                x.write(n, schemas[n], old[n])
        w.st.ghost["faults"] = True
        done = run(w, x, e, new)
        w.st.ghost["faults"] = False
        for n in new:
            v = w.ret(key, "r_dyn_read", x.dyn, w.text(n), w.text(schemas[n]))
            if w.variant(v) != "Ok":
                w.must(key, not done, "a completely written resource is not read")
                continue
            got = w.bytes(v.f[0])
            w.ctx.ob(key)
            d = [w.do(lambda y=y: w.e.same_bytes(w.st, got, y)) for y in [new[n]] + ([old[n]] if n in old and not done else [])]
            if all(d):
                raise Fail(key, "%s: '%s' is read as a valid resource though writing was stopped: %s%s" % (w.describe(), n, d[0], w.facts()))

    def call(w, *args):
        v = w.ret(key, *args)
        return v.f[0] if w.variant(v) == "Ok" else None

    def run(w, x, e, new):
        if kind == "write":
            return w.variant(w.ret(key, "r_dyn_write", x.dyn, w.text(NAME), w.text(SCHEMA), w.slice(new[NAME]))) == "Ok"
        v = call(w, "r_%s_create" % kind, x.dyn, w.text(NAME), w.text(SCHEMA))
        if v is None:
            return False
        r = w.ref("r_%s_grow" % kind, 0, v)
        for y in e:
            m = call(w, "r_%s_grow" % kind, r)
            if m is None:
                return False
            w.write(w.fat(m) if kind == "ev" else w.ret(key, "r_mv_add_a", m), 0, y)
        return call(w, "r_%s_close" % kind, w.at(r)) is not None
    walk(ctx, eng, "%s above a file storage, stopped [%s]" % ({"write": "resource", "ev": "external vector of elements of %s bytes" % s, "mv": "multi vector"}[kind],
                                                             {None: "nothing there", "any": "old version", "same": "old version of the same size"}[before]), body)
