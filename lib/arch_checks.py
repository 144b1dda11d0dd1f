"""Archives: names, schemas, what opening accepts, what creating does."""
from engine import *
from terms import *
from walk import walk, Walk, Fail, Stop
import ghost, models
from cont_checks import zeros, cat
from store_checks import (hooks, check_read, size_bytes, resource, text, plus, file, expect, only_files, unwrap_ok, faults, step,
                          storage_with, check_entries, check_multi_files, Entry, PAD, mv_sizes)

INNER = [("raw", "payload", "inner payload schema", False)]
ARCHIVES = {
    "plain": [("struct", "header", "header schema", False), ("vector", "items", "items schema", False),
              ("multi", "multi", "multi schema", False), ("raw", "raw", "raw schema", False), ("sub", "sub", None, False)],
    "mixed": [("struct", "header", "header schema", False), ("struct", "other_header", "other header\n\tschema\n", True),
              ("vector", "items", "items schema", True), ("vector", "others", "  others   schema ", False),
              ("multi", "multi", "multi schema", False), ("multi", "other_multi", "\n/** other */ multi (schema)\n", True),
              ("raw", "raw", "raw schema", True), ("raw", "other_raw", "Other Raw Schema\u00e9{}%s", False),
              ("sub", "sub", None, True), ("sub", "other_sub", None, False)],
    "inner": INNER,
    "empty": [],
}
ARCHIVES["opt"] = [p[:3] + (True,) for p in ARCHIVES["plain"]]
SIZES = {"header": 5, "other_header": 9}


def names(a):
    return a.capitalize() + ".archive", a + " schema"


class File:
    """One stored resource: its full name, schema and payload."""
    def __init__(self, part, name, schema, payload, required):
        self.part, self.name, self.schema, self.payload, self.required = part, name, schema, payload, required


def layout(w, a, sizes, prefix="", required=True, tag=""):
    """Everything a complete archive of this type consists of, with fresh contents."""
    out = [File("signature", prefix + names(a)[0], names(a)[1], Bytes(()), required)]
    for kind, n, schema, opt in ARCHIVES[a]:
        req = required and not opt
        t = tag + prefix + n
        if kind == "struct":
            out.append(File(n, prefix + n, schema, src_bytes(t, SIZES[n]), req))
        elif kind == "vector":
            k = w.sym("elements of " + t, 0, 1 << 20)
            out.append(File(n, prefix + n, schema, src_bytes(t, mul(k, sizes["AbsT"])), req))
        elif kind == "raw":
            out.append(File(n, prefix + n, schema, src_bytes(t, w.sym("size of " + t, 0, 1 << 48)), req))
        elif kind == "multi":
            data = cat(lit(b"\0"), src_bytes(t, sizes["AbsA"]))
            index = Bytes(((sizes["AbsIdx"], ("v", 0)), (sizes["AbsIdx"], ("v", blen(data)))))
            out.append(File(n, prefix + n + "_index", "index(%s)" % schema, index, req))
            out.append(File(n, prefix + n, schema, data, req))
        else:
            for f in layout(w, "inner", sizes, prefix + n + "/", req, tag):
                f.part = n
                out.append(f)
    return out


def store(w, f):
    put(w, f.name, resource(w.e, blen(f.payload), f.payload))
    put(w, f.name + ".schema", text(f.schema))


def put(w, name, content):
    ghost.make(w.e, w.st, text(name), content)


def start(ctx, debug=True):
    sizes = dict(mv_sizes(), AbsT=symbol("S", 1 << 32))
    eng = Engine(ctx.dump(), debug=debug, sizes=sizes, hooks=hooks())
    eng.unknown_elements = 0    # the storage checks go through the lines of a diff of schemas
    return eng, sizes


def begin(w, sizes, faulty=False):
    for s in sizes.values():
        w.fact(sub(s, 1))
    gs = ghost.storage(w, faults=faulty)
    w.st.mem[("rc", gs.base)] = 1
    return gs, Obj("rc", gs)


def again(w, rc):
    """Another owner of the storage."""
    b = ("rc", rc.v[0].base)
    w.st.mem[b] = add(w.st.mem.get(b, 0), 1)
    return rc


# ---------------------------------------------------------------- opening
def open_items(ctx):
    out = [("plain", "subsets", None), ("opt", "subsets", None), ("inner", "subsets", None), ("empty", "subsets", None),
           ("mixed", "pairs", None)]
    for a in ("plain", "opt", "mixed", "inner", "empty"):
        n = len(layout(_Dry(), a, {t: 1 for t in ("AbsT", "AbsA", "AbsB", "AbsIdx")}))
        out += [(a, "any", i) for i in range(n)]
    return out


class _Dry:
    def sym(self, *a):
        return 1


def opening(ctx, it):
    a, mode, which = it
    eng, sizes = start(ctx)
    key = "opening"

    def body(w):
        gs, rc = begin(w, sizes)
        fs = layout(w, a, sizes)
        left = 2
        for i, f in enumerate(fs):
            f.data, f.stored_schema = resource(w.e, blen(f.payload), f.payload), text(f.schema)
            if mode == "any" and i == which:
                f.data = f.stored_schema = None
                if w.choose(2):
                    f.data = src_bytes("any data", w.sym("L", 0, 1 << 60))
                    put(w, f.name, f.data)
                if w.choose(2):
                    f.stored_schema = src_bytes("any schema", w.sym("length of any schema", 0, 1 << 40))
                    put(w, f.name + ".schema", f.stored_schema)
                continue
            store(w, f)
            if mode != "any" and left and w.choose(2):
                if mode == "pairs":
                    left -= 1
                remove(w, f.name if i % 2 == 0 else f.name + ".schema")
                if i % 2 == 0:
                    f.data = None
                else:
                    f.stored_schema = None
        # what reading each of them gives
        for f in fs:
            v = w.ret(key, "r_dyn_read", gs, w.text(f.name), w.text(f.schema))
            check_read(w, key, v, f.name, text(f.schema), f.data, f.stored_schema)
            f.ok = w.variant(v) == "Ok"
            f.got = w.bytes(v.f[0]) if f.ok else None
        good = all(f.ok for f in fs if f.required and "/" not in f.name)
        for part in {f.part for f in fs if f.required}:
            good = good and all(f.ok for f in fs if f.part == part)
        good = good and fs[0].ok
        v = w.ret(key, "r_%s_open" % a, again(w, rc))
        if not good:
            bad = [f.name for f in fs if not f.ok and f.required]
            w.must(key, w.variant(v) == "Err", "opening succeeds although '%s' is not valid" % (bad + ["?"])[0])
            return
        w.must(key, w.variant(v) == "Ok", "opening fails although every required part is valid%s" % (
            ", only '%s' is not, which is optional" % [f.name for f in fs if not f.ok][0] if not all(f.ok for f in fs) else ""))
        accessors(w, a, sizes, v.f[0], fs, fs[which].part if mode == "any" else None)
    walk(ctx, eng, "archive %s [%s %s]" % (a, mode, which), body)


def remove(w, name):
    fid = ghost.find(w.e, w.st, text(name))
    w.st.ghost["names"] = tuple(x for x in w.st.ghost["names"] if x[1] != fid)


def accessors(w, a, sizes, arch, fs, anything=None):
    """anything: the part whose stored bytes are not known (only this one is looked at then)."""
    key = "accessors"
    if a == "empty":
        return
    by = {}
    for f in fs:
        by.setdefault(f.part, []).append(f)
    root = [r for r in ("r_%s_header" % a, "r_%s_payload" % a) if r in w.e.roots][0]
    ref = w.ref(root, 0, arch)
    for kind, n, schema, opt in ARCHIVES[a]:
        if anything and n != anything:
            continue
        mine = by[n]
        present = all(f.ok for f in mine)
        f = mine[-1]
        what = "'%s' of the opened archive" % n
        if kind == "struct" and present and anything and not w.ge(blen(f.got), SIZES[n]):
            w.refused(key, "a struct with too few bytes", "r_%s_%s" % (a, n), ref)
            raise Stop()
        if kind == "multi" and present and anything and any(blen(x.got) is not blen(x.payload) and not w.eq(blen(x.got), blen(x.payload)) for x in mine):
            continue
        x = w.opt(w.ret(key, "r_%s_%s" % (a, n), ref))
        w.must(key, (x is not None) == present, "%s is %s" % (what, "absent, but stored" if present else "present, but not stored"))
        if not present:
            continue
        if kind == "struct":
            p = w.fat(x)
            w.same(key, w.bytes(p.with_(meta=SIZES[n]), 0, SIZES[n]), w.do(lambda: w.e.cut(w.st, f.got, 0, SIZES[n])), what)
        elif kind in ("vector", "raw"):
            w.same(key, w.bytes(x), f.got, what)
        elif kind == "multi":
            e = Entry(0)
            e.items.append((0, "AbsA", None))
            if anything and not all(g.got is g.payload or not w.do(lambda: w.e.same_bytes(w.st, g.got, g.payload)) for g in mine):
                continue
            multi_is(w, key, x, sizes, f)
        else:
            y = w.opt(w.ret(key, "r_inner_payload", x))
            w.must(key, y is not None, "%s is absent" % what)
            w.same(key, w.bytes(y), f.got, what)


def multi_is(w, key, view, sizes, f):
    """The view has the one entry with the one item of the data resource f."""
    r = w.ref("r_ma_len", 0, view)
    w.same_num(key, w.ret(key, "r_ma_len", r), 1, "len() of '%s'" % f.name)
    x = w.ret(key, "r_ma_at_two", r, 0)
    got = w.opt(x.f[0])
    w.must(key, got is not None and w.opt(x.f[1]) is None, "'%s' does not yield the items stored" % f.name)
    w.same_num(key, got.f[0], 0, "type of an item of '%s'" % f.name)
    w.same(key, w.bytes(w.fat(got.f[1]), 0, sizes["AbsA"]), w.do(lambda: w.e.cut(w.st, f.got, 1, sizes["AbsA"])), "item of '%s'" % f.name)


# ---------------------------------------------------------------- writing through the builder
def build_items(ctx):
    return [(a, how) for a in ("plain", "opt", "mixed", "inner", "empty") for how in ("set", "start")]


def building(ctx, it):
    """What a builder writes is where the reader looks for it."""
    a, how = it
    eng, sizes = start(ctx)
    key = "names and schemas"

    def body(w):
        gs, rc = begin(w, sizes)
        fs = layout(w, a, sizes)
        if how == "start":
            for f in fs:
                if ("vector", f.part) in [(k, n) for k, n, _, _ in ARCHIVES[a]]:
                    f.payload = src_bytes("new " + f.name, sizes["AbsT"])
        for f in fs:
            f.ok, f.got = True, f.payload
        b = unwrap_ok(w, key, w.ret(key, "r_%s_new" % a, again(w, rc)), "creating the archive")
        write_all(w, key, a, sizes, b, fs, how)
        for f in fs:
            expect(w, key, f.name, resource(w.e, blen(f.payload), f.payload))
            expect(w, key, f.name + ".schema", text(f.schema))
        only_files(w, key, [f.name for f in fs] + [f.name + ".schema" for f in fs])
        v = unwrap_ok(w, key, w.ret(key, "r_%s_open" % a, again(w, rc)), "opening the archive written")
        accessors(w, a, sizes, v, fs)
    walk(ctx, eng, "archive %s written [%s]" % (a, how), body)


def builder_ref(w, a, b):
    root = [r for r in ("r_%s_set_header" % a, "r_%s_set_payload" % a) if r in w.e.roots]
    return w.ref(root[0], 0, b) if root else None


def write_all(w, key, a, sizes, b, fs, how):
    r = builder_ref(w, a, b)
    for kind, n, schema, opt in ARCHIVES[a]:
        f = [x for x in fs if x.part == n][-1]
        if kind == "vector" and how == "start":
            v = unwrap_ok(w, key, w.ret(key, "r_%s_start_%s" % (a, n), r), "start of " + n)
            vr = w.ref("r_ev_grow", 0, v)
            m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", vr), "grow")
            w.write(w.fat(m), 0, f.payload)
            unwrap_ok(w, key, w.ret(key, "r_ev_close", w.at(vr)), "close")
        elif kind == "multi":
            v = unwrap_ok(w, key, w.ret(key, "r_%s_start_%s" % (a, n), r), "start of " + n)
            vr = w.ref("r_mv_grow", 0, v)
            m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", vr), "grow")
            w.write(w.ret(key, "r_mv_add_a", m), 0, w.do(lambda: w.e.cut(w.st, f.payload, 1, sizes["AbsA"])))
            unwrap_ok(w, key, w.ret(key, "r_mv_close", w.at(vr)), "close")
        elif kind == "sub":
            s = unwrap_ok(w, key, w.ret(key, "r_%s_new_%s" % (a, n), r), "creating subarchive " + n)
            write_all(w, key, "inner", sizes, s, [x for x in fs if x.name == n + "/payload"] and
                      [File("payload", x.name, x.schema, x.payload, True) for x in fs if x.name == n + "/payload"], how)
        elif kind == "vector":
            p = w.slice(f.payload)
            x = w.ret(key, "r_av_new", p)
            unwrap_ok(w, key, w.ret(key, "r_%s_set_%s" % (a, n), r, w.ref("r_%s_set_%s" % (a, n), 1, x)), "writing " + n)
        else:
            unwrap_ok(w, key, w.ret(key, "r_%s_set_%s" % (a, n), r, w.slice(f.payload)), "writing " + n)


# ---------------------------------------------------------------- creating
def create_items(ctx):
    return [(a, how, f) for a in ("plain", "inner", "empty") for how in ("new", "create") for f in (0, 1)]


def creating(ctx, it):
    a, how, faulty = it
    eng, sizes = start(ctx)
    key = "creating"

    def body(w):
        gs, rc = begin(w, sizes, bool(faulty))
        name, schema = names(a)
        there = w.choose(2)
        if there:
            put(w, name, src_bytes("archive there", w.sym("L", 0, 1 << 60)))
        if w.choose(2):
            put(w, name + ".schema", src_bytes("schema there", w.sym("M", 0, 1 << 40)))
        other = src_bytes("other", w.sym("O", 0, 1 << 40))
        put(w, "header", other)
        before = {k: v for k, v in w.st.mem.items() if k[0] == "gf"}
        if how == "new":
            v = w.ret(key, "r_%s_new" % a, again(w, rc))
        else:
            v = w.ret(key, "r_%s_create" % a, w.ref("r_%s_create" % a, 0, rc))
        writes = [x for x in w.st.events if x[0] in ("create", "write")]
        if there:
            w.must(key, w.variant(v) == "Err", "an existing archive is created again")
            w.must(key, not writes, "an existing archive is changed")
            e = v.f[0]
            kind = e.f[0].v[0] if w.variant(e) == "Io" and isinstance(e.f[0], Obj) else w.variant(e)
            w.must(key, kind == "AlreadyExists", "the error for an existing archive is '%s'" % kind)
            return
        if faults(w):
            w.must(key, w.variant(v) == "Err", "creating succeeds although '%s' failed in the storage" % faults(w)[0][1])
        else:
            w.must(key, w.variant(v) == "Ok", "creating a new archive fails")
            expect(w, key, name, resource(w.e, 0, Bytes(())))
            expect(w, key, name + ".schema", text(schema))
        expect(w, key, "header", other)
        only_files(w, key, [name, name + ".schema", "header"])
        if not faults(w):
            storage_with(w, False)
            r = w.ret(key, "r_%s_create" % a, w.ref("r_%s_create" % a, 0, rc))
            w.must(key, w.variant(r) == "Err", "the archive just created is created again")
    walk(ctx, eng, "archive %s, %s%s" % (a, {"new": "builder", "create": "create_archive"}[how], " above a failing storage" if faulty else ""), body)
