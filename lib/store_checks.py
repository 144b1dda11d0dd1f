"""Resources: writers and readers above an abstract storage."""
from engine import *
from terms import *
from walk import walk, Walk, Fail, Stop
import ghost, models
from cont_checks import HOOKS as IDX_HOOKS, zeros, cat

PAD = 8
NAME, SCHEMA = "res", "schema of res"


def hooks():
    h = dict(IDX_HOOKS)
    h.update(ghost.HOOKS)
    return h


def size_bytes(e, n):
    """n as eight little endian bytes."""
    b = e.bits(None, n, 64)
    return seg_norm([(1, ("b", (e.byte(b[i:i + 8]),))) for i in range(0, 64, 8)])


def resource(e, n, payload):
    return seg_norm(size_bytes(e, n).s + payload.s + zeros(PAD).s)


def text(b):
    return b if isinstance(b, Bytes) else lit(b.encode())


def plus(name, suffix):
    return seg_norm(text(name).s + lit(suffix.encode()).s)


def file(w, key, name):
    b = w.do(lambda: ghost.content(w.e, w.st, text(name)))
    w.must(key, b is not None, "resource %s was not created" % (name,))
    return b


def expect(w, key, name, want):
    w.same(key, file(w, key, name), want, "stored content of '%s'" % models.text_of(text(name)))


def only_files(w, key, names):
    """Nothing but these was created."""
    for n, fid in w.st.ghost.get("names", ()):
        w.must(key, any(w.do(lambda: w.test(models.bytes_eq_cond(ghost.Names(w.e, w.st), n, text(x)))) for x in names),
               "'%s' is stored as well" % models.text_of(n))


def unwrap_ok(w, key, v, what):
    if w.variant(v) != "Ok":
        raise Fail(key, "%s: %s returns an error%s" % (w.describe(), what, w.facts()))
    w.ctx.ob(key)
    return v.f[0]


# ---------------------------------------------------------------- vectors written piece by piece
def ev_items(ctx):
    return [("sym", n) for n in range(0, 4 if not ctx.thorough else 6)] + [(s, n) for s in (1, 8, 40 << 20) for n in (0, 1, 3)] + [(12 << 20, 12), (40 << 20, 9), (3, 40)]


def ext_vector(ctx, it):
    s, n = it
    S = symbol("S", 1 << 32) if s == "sym" else s
    for debug in (False, True):
        eng = Engine(ctx.dump(), debug=debug, sizes={"AbsT": S}, hooks=hooks())

        def body(w):
            key = "content"
            if s == "sym":
                w.fact(sub(S, 1))
            gs = ghost.storage(w)
            v = unwrap_ok(w, key, w.ret(key, "r_ev_create", gs, w.text(NAME), w.text(SCHEMA)), "creating")
            r = w.ref("r_ev_grow", 0, v)
            for i in range(n):
                w.same_num(key, w.ret(key, "r_ev_len", r), i, "len()")
                w.truth(key, w.ret(key, "r_ev_is_empty", r), i == 0, "is_empty()")
                m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
                p = w.fat(m)
                w.same(key, w.bytes(p, 0, S), zeros(S), "content of a new element")
                w.write(p, 0, src_bytes("e%d" % i, S))
            w.same_num(key, w.ret(key, "r_ev_len", r), n, "len()")
            w.truth(key, w.ret(key, "r_ev_is_open", r), True, "is_open()")
            x = unwrap_ok(w, key, w.ret(key, "r_ev_close", w.at(r)), "close")
            payload = cat(*[src_bytes("e%d" % i, S) for i in range(n)])
            w.same(key, w.bytes(x), payload, "view returned by close")
            expect(w, key, NAME, resource(w.e, mul(n, S), payload))
            expect(w, key, NAME + ".schema", text(SCHEMA))
            only_files(w, key, [NAME, NAME + ".schema"])
            d = unwrap_ok(w, key, w.ret(key, "r_dyn_read", gs, w.text(NAME), w.text(SCHEMA)), "reading it back")
            w.same(key, w.bytes(d), payload, "content read back")
        walk(ctx, eng, "external vector [%d elements of %s bytes%s]" % (n, s if s != "sym" else "S", ", overflow checks" if debug else ""), body)


# ---------------------------------------------------------------- multi vectors
ITEMS = (("r_mv_add_a", 0, "AbsA"), ("r_mv_add_b", 1, "AbsB"))


# sizes of the items and the index elements in longer histories
LONG = {"small": (3, 200, 4), "large items": (12 << 20, 7, 8), "large index": (5, 1, 12 << 20)}
COUNTS = [0, 3, 1, 0, 5, 2, 2, 0, 1, 1, 4, 0]


def mv_items(ctx):
    n = 3 if not ctx.thorough else 4
    return [(x, COUNTS) for x in LONG] + [(p, k) for p in range(n) for k in range(3 if p < 2 else 2 ** p)] + ([(3, 7), (3, 3)] if n == 3 else [(4, 15)])


def mv_sizes(big=None):
    s = {t: symbol(("size of tag", k), 1 << 32) for _, k, t in ITEMS}
    s["AbsIdx"] = big or symbol("I", 1 << 32)
    return s


class Entry:
    def __init__(self, off):
        self.off, self.items = off, []


def add_items(w, key, sizes, v, e, n, names, turn=None):
    """n items of any type (or of both in turn) appended to the entry; the content of the data so far grows accordingly."""
    out = Bytes(())
    for k in range(n):
        root, tag, t = ITEMS[w.choose(len(ITEMS)) if turn is None else (turn + k) % len(ITEMS)]
        S = sizes[t]
        src = "item%d" % len(names)
        names.append(src)
        p = w.ret(key, root, v)
        w.same(key, w.bytes(p, 0, S), zeros(S), "a new item")
        w.write(p, 0, src_bytes(src, S))
        e.items.append((tag, t, src))
        out = cat(out, lit(bytes([tag])), src_bytes(src, S))
    return out


def check_entries(w, key, view, sizes, entries, data):
    r = w.ref("r_ma_len", 0, view)
    w.same_num(key, w.ret(key, "r_ma_len", r), len(entries), "len() of the view")
    for i, e in enumerate(entries):
        x = w.ret(key, "r_ma_at_two", r, i)
        for k, got in enumerate(x.f):
            got = w.opt(got)
            if k >= len(e.items):
                w.must(key, got is None, "entry %d yields more items than were added" % i)
                break
            tag, t, src = e.items[k]
            w.must(key, got is not None, "entry %d yields less items than were added" % i)
            w.same_num(key, got.f[0], tag, "type of item %d of entry %d" % (k, i))
            w.same(key, w.bytes(w.fat(got.f[1]), 0, sizes[t]), src_bytes(src, sizes[t]), "item %d of entry %d" % (k, i))


def multi_vector(ctx, it):
    """Entries with the given numbers of items (bits of the pattern), of any types and sizes."""
    n, pattern = it
    long = n in LONG
    sizes = mv_sizes(LONG[n][2] if long else None)
    counts = pattern if long else [(pattern >> i) & 1 for i in range(n)] if n >= 2 else [pattern] * n
    for debug in (False, True):
        eng = Engine(ctx.dump(), debug=debug, sizes=sizes, hooks=hooks())

        def body(w):
            key = "index and data"
            for s in sizes.values():
                w.fact(sub(s, 1))
            for t, s in zip(("AbsA", "AbsB"), LONG[n] if long else ()):
                w.fact(sub(sizes[t], s))
                w.fact(sub(s, sizes[t]))
            gs = ghost.storage(w)
            v = unwrap_ok(w, key, w.ret(key, "r_mv_create", gs, w.text(NAME), w.text(SCHEMA)), "creating")
            r = w.ref("r_mv_grow", 0, v)
            data, entries, names = Bytes(()), [], []
            for i in range(len(counts)):
                m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
                e = Entry(blen(data))
                entries.append(e)
                data = cat(data, add_items(w, key, sizes, m, e, counts[i], names, i if long else None))
            x = unwrap_ok(w, key, w.ret(key, "r_mv_close", w.at(r)), "close")
            check_multi_files(w, key, sizes, entries, data)
            check_entries(w, key, x, sizes, entries, data)
        walk(ctx, eng, "multi vector [%s items per entry%s]" % (counts, ", overflow checks" if debug else ""), body)


def check_multi_files(w, key, sizes, entries, data):
    I = sizes["AbsIdx"]
    offs = [e.off for e in entries] + [blen(data)]
    index = Bytes(tuple((I, ("v", o)) if o != 0 else (I, ("v", 0)) for o in offs))
    expect(w, key, NAME, resource(w.e, blen(data), data))
    expect(w, key, NAME + "_index", resource(w.e, mul(len(offs), I), index))
    expect(w, key, NAME + ".schema", text(SCHEMA))
    expect(w, key, NAME + "_index.schema", text("index(%s)" % SCHEMA))
    only_files(w, key, [NAME, NAME + "_index", NAME + ".schema", NAME + "_index.schema"])


# ---------------------------------------------------------------- after any number of elements
HANDLE = "flatdata::storage::ResourceHandle"


class Other(Exception):
    """The writer is not represented in the way which the induction is about."""


def fields_of(w, v, names):
    """Positions of the fields, if the struct has exactly these."""
    if not isinstance(v, Agg):
        raise Other("no struct")
    t = w.e.T(v.ty)
    got = [f[0] for f in t["v"][0]["f"]] if t["k"] == "adt" and len(t["v"]) == 1 else []
    if sorted(got) != sorted(names):
        raise Other("the fields of %s are %s" % (t["name"], ", ".join(got)))
    return {n: i for i, n in enumerate(got)}


def handle_state(w, v):
    """(fields, stream id, file id) of an open resource handle."""
    f = fields_of(w, v, ["stream", "size_in_bytes", "storage", "name", "schema"])
    x = v.f[f["stream"]]
    if not isinstance(x, Agg) or w.variant(x) != "Some":
        raise Other("the handle has no stream")
    x = x.f[0]
    if not (isinstance(x, Obj) and x.k == "rc"):
        raise Other("the stream is not shared")
    x = w.do(lambda: models.container(w.e, w.st, w.e.as_ptr(x.v[0])))
    while isinstance(x, Agg):
        x = x.f[-1]
    if not (isinstance(x, Obj) and x.k == "gstream"):
        raise Other("the handle does not write to the storage directly")
    return f, x.v[0], x.v[1]


def accounted(w, buf, handle):
    """What is stored and what is held back, if the buffer and the handle account for it as assumed."""
    f, sid, fid = handle_state(w, handle)
    if not isinstance(buf, Vec) or not isinstance(w.st.mem.get(buf.h), Bytes):
        raise Other("the buffer is no vector of bytes")
    b, stored = w.st.mem[buf.h], w.st.mem[("gf", fid)]
    held, done = sub(blen(b), PAD), handle.f[f["size_in_bytes"]]
    for x, y in ((blen(stored), add(done, PAD)), (w.st.mem[("gp", sid)], add(done, PAD))):
        if not w.test(w.e.eq(x, y)):
            raise Other("the stored bytes are not counted by the handle")
    if w.do(lambda: w.e.same_bytes(w.st, w.e.cut(w.st, b, held, PAD), zeros(PAD))):
        raise Other("the buffer does not end with padding")
    return f, sid, fid, held, done


def jump(w, buf, handle, done, held, name):
    """As if `done` bytes were stored and `held` ones were in the buffer. Returns the handle then."""
    f, sid, fid, _, _ = accounted(w, buf, handle)
    head = w.do(lambda: w.e.cut(w.st, w.st.mem[("gf", fid)], 0, PAD))
    w.st.mem[("gf", fid)] = cat(head, src_bytes("stored " + name, done))
    w.st.mem[("gp", sid)] = add(done, PAD)
    w.st.mem[buf.h] = cat(src_bytes("held " + name, held), zeros(PAD))
    fs = list(handle.f)
    fs[f["size_in_bytes"]] = done
    return Agg(handle.ty, handle.var, fs)


def ev_state(w, v, S, n):
    """Checks that the external vector of n elements is represented as assumed."""
    f = fields_of(w, v, ["data", "len", "resource_handle", "_phantom"])
    buf, handle = v.f[f["data"]], v.f[f["resource_handle"]]
    _, _, _, held, done = accounted(w, buf, handle)
    if not w.test(w.e.eq(v.f[f["len"]], n)) or not w.test(w.e.eq(add(held, done), mul(n, S))):
        raise Other("the elements are counted in another way")
    return f, buf, handle


def ev_jump(w, v, S, n, name):
    """As if it had any number of elements, any of them stored."""
    f, buf, handle = ev_state(w, v, S, n)
    a, b = w.sym("stored elements of " + name, 0, (1 << 58) // S), w.sym("held elements of " + name, 0, (1 << 58) // S)
    fs = list(v.f)
    fs[f["resource_handle"]] = jump(w, buf, handle, mul(a, S), mul(b, S), name)
    fs[f["len"]] = add(a, b)
    return Agg(v.ty, v.var, fs), add(a, b), cat(src_bytes("stored " + name, mul(a, S)), src_bytes("held " + name, mul(b, S)))


def step_items(ctx):
    return [("ev", s, k) for s in (1, 5, 40 << 20) for k in (0, 1, 2)] + [("mv", i, k) for i in (4, 8) for k in (0, 1, 2)]


def induction(ctx, it):
    """From any reachable state of a writer: the next elements, and close."""
    kind, s, k = it
    for debug in (False, True):
        sizes = dict(mv_sizes(s if kind == "mv" else 8), AbsT=s)
        eng = Engine(ctx.dump(), debug=debug, sizes=sizes, hooks=hooks())

        def other(w, x):
            w.ctx.notes["induction not applied"] = str(x)
            raise Stop()

        def ev(w):
            key = "content"
            gs = ghost.storage(w)
            v = unwrap_ok(w, key, w.ret(key, "r_ev_create", gs, w.text(NAME), w.text(SCHEMA)), "creating")
            r = w.ref("r_ev_grow", 0, v)
            try:
                for i in range(3):
                    ev_state(w, w.at(r), s, i)
                    m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
                    w.write(w.fat(m), 0, src_bytes("x%d" % i, s))
                v, n, payload = ev_jump(w, w.at(r), s, 3, "v")
            except Other as x:
                other(w, x)
            r = w.ref("r_ev_grow", 0, v)
            w.what += ", after any number of elements,"
            for i in range(k):
                m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
                w.same(key, w.bytes(w.fat(m), 0, s), zeros(s), "content of a new element")
                w.write(w.fat(m), 0, src_bytes("e%d" % i, s))
            w.same_num(key, w.ret(key, "r_ev_len", r), add(n, k), "len()")
            w.truth(key, w.ret(key, "r_ev_is_empty", r), w.e.eq(add(n, k), 0), "is_empty()")
            x = unwrap_ok(w, key, w.ret(key, "r_ev_close", w.at(r)), "close")
            payload = cat(payload, *[src_bytes("e%d" % i, s) for i in range(k)])
            w.same(key, w.bytes(x), payload, "view returned by close")
            expect(w, key, NAME, resource(w.e, mul(add(n, k), s), payload))

        def mv(w):
            key = "index and data"
            for x in ("AbsA", "AbsB"):
                w.fact(sub(sizes[x], 1))
            gs = ghost.storage(w)
            v = unwrap_ok(w, key, w.ret(key, "r_mv_create", gs, w.text(NAME), w.text(SCHEMA)), "creating")
            r = w.ref("r_mv_grow", 0, v)
            try:
                for i in range(3):
                    v = w.at(r)
                    f = fields_of(w, v, ["index", "data", "data_handle", "size_flushed", "_phantom"])
                    ev_state(w, v.f[f["index"]], s, i)
                    _, _, _, held, done = accounted(w, v.f[f["data"]], v.f[f["data_handle"]])
                    if not w.test(w.e.eq(done, v.f[f["size_flushed"]])):
                        raise Other("the stored bytes are counted in another way")
                    if i == 2:
                        break
                    m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
                    w.write(w.ret(key, "r_mv_add_a", m), 0, src_bytes("x%d" % i, sizes["AbsA"]))
                fs = list(v.f)
                fs[f["index"]], n, index = ev_jump(w, v.f[f["index"]], s, 2, "index")
                a, b = w.sym("stored bytes", 0, 1 << 58), w.sym("held bytes", 0, 1 << 58)
                fs[f["data_handle"]] = jump(w, v.f[f["data"]], v.f[f["data_handle"]], a, b, "data")
                fs[f["size_flushed"]] = a
                v = Agg(v.ty, v.var, fs)
            except Other as x:
                other(w, x)
            r = w.ref("r_mv_grow", 0, v)
            w.what += ", after any number of entries,"
            data = cat(src_bytes("stored data", a), src_bytes("held data", b))
            entries, names = [], []
            for i in range(k):
                m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
                entries.append(Entry(blen(data)))
                data = cat(data, add_items(w, key, sizes, m, entries[-1], 1, names))
            x = unwrap_ok(w, key, w.ret(key, "r_mv_close", w.at(r)), "close")
            index = cat(index, *[Bytes(((s, ("v", o)),)) for o in [e.off for e in entries] + [blen(data)]])
            expect(w, key, NAME, resource(w.e, blen(data), data))
            expect(w, key, NAME + "_index", resource(w.e, mul(add(n, k + 1), s), index))
            r = w.ref("r_ma_len", 0, x)
            w.same_num(key, w.ret(key, "r_ma_len", r), add(n, k), "len() of the view")
        walk(ctx, eng, "%s%s" % ({"ev": "external vector of elements of %s bytes" % s, "mv": "multi vector with index elements of %s bytes" % s}[kind],
                                 ", overflow checks" if debug else ""), ev if kind == "ev" else mv)


# ---------------------------------------------------------------- memory used while writing
SLACK = 1 << 28


def bounded_items(ctx):
    return ["ev", "ev few", "mv", "mv items", "index"]


def held(w, before):
    """Bytes in buffers made since."""
    n = 0
    for b, v in w.st.mem.items():
        if isinstance(v, Bytes) and b not in before and b[0] not in ("gf", "l"):
            n = add(n, blen(v))
    return n


def requested(w, key, newest, when):
    """Buffers asked for since the last call: twice the newest element, as one may be kept until the next one is added."""
    for n in w.st.ghost.get("allocs", ()):
        w.must(key, w.e.ge(add(add(newest, newest), SLACK), n), lambda: "a buffer of %s bytes is asked for %s" % (n, when))
    w.st.ghost["allocs"] = ()


def bounded(ctx, it):
    """Elements far larger than any buffer: what is not stored yet is not more than the newest one."""
    S = symbol("S", 1 << 40) if it != "ev few" else 100 << 20
    sizes = mv_sizes(symbol("I", 1 << 40) if it == "index" else 4)
    if it != "index":
        for k, t in ((0, "AbsA"), (1, "AbsB")):
            sizes[t] = symbol(("size of tag", k), 1 << 40)
    else:
        sizes["AbsA"], sizes["AbsB"] = 1, 2
    sizes["AbsT"] = S
    eng = Engine(ctx.dump(), sizes=sizes, hooks=hooks())

    def small(w, before, newest, when):
        key = "bounded"
        n = held(w, before)
        w.must(key, w.e.ge(add(newest, SLACK), n), lambda: "%s bytes are held in memory %s" % (n, when))
        requested(w, key, newest, when)

    def body(w):
        key = "bounded"
        for x in sizes.values():
            if isinstance(x, P):
                w.fact(sub(x, 1 << 30))
        gs = ghost.storage(w)
        args = w.text(NAME), w.text(SCHEMA)
        if it.startswith("ev"):
            before = set(w.st.mem)
            r = w.ref("r_ev_grow", 0, unwrap_ok(w, key, w.ret(key, "r_ev_create", gs, *args), "creating"))
            w.st.ghost["allocs"] = ()
            for i in range(3 if it != "ev few" else 7):
                m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
                w.write(w.fat(m), 0, src_bytes("e%d" % i, S))
                small(w, before, S, "after %d elements of %s bytes" % (i + 1, S))
            return
        before = set(w.st.mem)
        r = w.ref("r_mv_grow", 0, unwrap_ok(w, key, w.ret(key, "r_mv_create", gs, *args), "creating"))
        w.st.ghost["allocs"] = ()
        names = []
        for i in range(3):
            m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
            k = 1 if it != "mv items" else w.choose(3)
            data = add_items(w, key, sizes, m, Entry(0), k, names)
            # twice: growing may still keep the entry before
            small(w, before, add(add(blen(data), sizes["AbsIdx"]), 0), "after %d entries" % (i + 1))
    walk(ctx, eng, "memory used, %s" % it, body)


# ---------------------------------------------------------------- resources written at once, reading
# Schemas of which the second is not the first, though almost.
NEAR = [(b"struct A { x: u32; }", x) for x in (
    b"struct A { x: u32; }\n", b"struct A { x: u32; } ", b" struct A { x: u32; }", b"struct A { x:  u32; }", b"struct A {\n x: u32; }", b"struct A { x: u32 }", b"struct a { x: u32; }",
    b"STRUCT A { X: U32; }", b"struct A { x: u33; }", b"struct B { x: u32; }", b"ttruct A { x: u32; }", b"struct A { x: u32; ]", b"struct A { x: u32; }\0", b"\0struct A { x: u32; }",
    b"struct A { x: u32; }struct A { x: u32; }", b"struct A { x: u32; } // 1", b"/* 1 */ struct A { x: u32; }", b"struct A { x: u32;", b"s", b"", b"struct A{x:u32;}",
    b"\xef\xbb\xbfstruct A { x: u32; }", b"struct A { u32: x; }", b"} ;23u :x { A tcurts")] + [
    (b"a\nb\n", x) for x in (b"a\nb", b"a\r\nb\r\n", b"a\n\nb\n", b"b\na\n", b"a\nb\nb\n", b"a\n", b"a\nb\n\n", b"a\nb\nc\n", b"a\n b\n", b"a b\n", b"ab\n")] + [
    (b"", x) for x in (b" ", b"\n", b"a", b"\0")] + [
    (b"\xc3\xa9", x) for x in (b"e\xcc\x81", b"\xc3\x89", b"e", b"?", b"\xc3\xa8")] + [
    (b"\xef\xbf\xbd", x) for x in (b"\xff", b"\xc3", b"\xef\xbf")] + [
    (b"a" * 70 + b"b" + b"a" * 70, b"a" * 141), (b"a" * 300 + b"b", b"a" * 300 + b"c"), (b"a" * 300, b"a" * 301), (b"a" * 2000 + b"b", b"a" * 2000 + b"c")]


def near_items(ctx):
    return list(range(len(NEAR)))


def near(ctx, it):
    """Pairs of texts that a less strict comparison takes for equal. One is stored, the other one is expected, or they are the same."""
    # what the message shows is free
    eng = Engine(ctx.dump(), hooks=dict(hooks(), **{"diff::lines": lambda c: models.new_vec(c, Seq(()))}))
    pair = NEAR[it]

    def body(w):
        key = "validation"
        gs = ghost.storage(w)
        name = text("res")
        stored, want = (pair, pair[::-1], (pair[0], pair[0]))[w.choose(3)]
        try:
            want.decode()
        except UnicodeDecodeError:
            raise Stop()
        n = w.sym("n", 0, 1 << 48)
        payload = src_bytes("payload", n)
        ghost.make(w.e, w.st, name, seg_norm(size_bytes(w.e, n).s + payload.s + src_bytes("padding", PAD).s))
        ghost.make(w.e, w.st, plus(name, ".schema"), lit(stored))
        for f in ("r_dyn_read", "r_dyn_read_and_check"):
            v = w.ret(key, f, gs, w.slice(name), w.slice(lit(want)))
            if stored == want:
                w.same(key, w.bytes(unwrap_ok(w, key, v, "read")), payload, "data read")
                continue
            w.must(key, w.variant(v) == "Err", "a resource with the schema %r is read as one with %r" % (stored, want))
            try:
                stored.decode()
                k = "WrongSignature"
            except UnicodeDecodeError:
                k = "Utf8Error"
            w.must(key, w.variant(v.f[0]) == k, lambda: "%s is reported for the schema %r" % (w.variant(v.f[0]), stored))
    walk(ctx, eng, "resource, similar schemas", body)


def once_items(ctx):
    return ["write", "write again", "read", "any"]


def any_text(w, name):
    return src_bytes(name, w.sym("length of " + name, 0, 1 << 40))


def once(ctx, it):
    for debug in (False, True):
        eng = Engine(ctx.dump(), debug=debug, hooks=hooks())

        def write(w):
            key = "format"
            gs = ghost.storage(w)
            name, schema = any_text(w, "name"), any_text(w, "schema")
            n = w.sym("n", 0, 1 << 48)
            payload = src_bytes("payload", n)
            if it == "write again":
                ghost.make(w.e, w.st, name, src_bytes("old", w.sym("o", 0, 1 << 48)))
                ghost.make(w.e, w.st, plus(name, ".schema"), src_bytes("oldschema", w.sym("os", 0, 1 << 48)))
            unwrap_ok(w, key, w.ret(key, "r_dyn_write", gs, w.slice(name), w.slice(schema), w.slice(payload)), "write")
            expect(w, key, name, resource(w.e, n, payload))
            expect(w, key, plus(name, ".schema"), schema)
            only_files(w, key, [name, plus(name, ".schema")])

        def read(w):
            """A well-formed resource is read, its payload returned."""
            key = "payload"
            gs = ghost.storage(w)
            name, schema = any_text(w, "name"), any_text(w, "schema")
            w.st.opq[("opq", "utf8", repr(tuple(schema.s)))] = True
            n = w.sym("n", 0, 1 << 48)
            payload = src_bytes("payload", n)
            ghost.make(w.e, w.st, name, seg_norm(size_bytes(w.e, n).s + payload.s + src_bytes("padding", PAD).s))
            ghost.make(w.e, w.st, plus(name, ".schema"), schema)
            for f in ("r_dyn_read", "r_dyn_read_and_check"):
                d = unwrap_ok(w, key, w.ret(key, f, gs, w.slice(name), w.slice(schema)), "read")
                w.same(key, w.bytes(d), payload, "data read")

        def anything(w):
            """Any stored bytes."""
            key = "validation"
            gs = ghost.storage(w, faults=True)
            name, want = any_text(w, "name"), any_text(w, "expected schema")
            have = [w.choose(2), w.choose(2)]
            L = w.sym("L", 0, 1 << 60)
            data, schema = src_bytes("data", L), any_text(w, "stored schema")
            if have[0]:
                ghost.make(w.e, w.st, name, data)
            if have[1]:
                ghost.make(w.e, w.st, plus(name, ".schema"), schema)
            v = w.ret(key, w_choice(w, ("r_dyn_read", "r_dyn_read_and_check")), gs, w.slice(name), w.slice(want))
            check_read(w, key, v, name, want, data if have[0] else None, schema if have[1] else None)

        b = {"write": write, "write again": write, "read": read, "any": anything}[it]
        walk(ctx, eng, "resource, %s%s" % (it, " [overflow checks]" if debug else ""), b)


def w_choice(w, xs):
    return xs[w.choose(len(xs))]


def header(w, data):
    return w.do(lambda: w.e.num(w.e.from_bits(tuple(x for q in w.e.byte_list(w.st, w.e.cut(w.st, data, 0, 8)) for x in w.e.bits(w.st, q, 8)), u64(w.e))))


def u64(e):
    return e.find_type(lambda t: t["name"] == "u64")


def faults(w):
    return [x for x in w.st.events if x[0] == "fault"]


def same_schema(w, stored, want):
    """Whether the texts are equal in this case. Where the code found out by looking at their parts it is not
    always known here; `near` decides for particular texts."""
    cond = w.do(lambda: (models.bytes_eq_cond(ghost.Names(w.e, w.st), stored, want),))[0]
    if w.e.decide(w.st, cond) is None and any(models.examined(w.st, c[1]) for b in (stored, want) for _, c in b.s if c[0] == "d"):
        raise Gap("comparison of schemas in parts")
    return w.test(cond)


def check_read(w, key, v, name, want, data, schema):
    """The result of reading a resource with these contents (None: missing) is right."""
    e = w.e
    ok = w.variant(v) == "Ok"
    size_ok = False
    if data is not None and w.ge(blen(data), 16):
        size_ok = w.eq(header(w, data), sub(blen(data), 16))
    if ok:
        w.must(key, data is not None and schema is not None, "a missing resource is read")
        w.must(key, size_ok, "a resource of a size that does not match its header is read")
        w.must(key, not faults(w), "a failed operation is ignored")
        same = same_schema(w, schema, want)
        w.must(key, same, "a resource with another schema is read")
        w.same(key, w.bytes(v.f[0]), w.do(lambda: e.cut(w.st, data, 8, sub(blen(data), 16))), "data read")
        return
    k = w.variant(v.f[0])
    if k == "Io":
        x = v.f[0].f[0]
        kind = x.v[0] if isinstance(x, Obj) else None
        if faults(w):
            w.must(key, True, "")
        else:
            w.must(key, data is None or schema is None, "an input/output error is reported although nothing failed")
            w.must(key, kind == "NotFound", "a missing resource is reported as %s %r" % (kind, x))
    else:
        w.must(key, data is not None and schema is not None, "%s is reported for a missing resource" % k)
        w.must(key, not faults(w), "%s is reported for a failed operation" % k)
        if k == "UnexpectedDataSize":
            w.must(key, not size_ok, "a well-formed resource is refused because of its size")
        elif k == "Utf8Error":
            w.must(key, not w.test(C(("opq", "utf8", repr(tuple(schema.s))))), "valid UTF-8 is refused")
        else:
            w.must(key, k == "WrongSignature", "the error is %s" % k)
            w.must(key, not same_schema(w, schema, want), "a resource with the expected schema is refused")


# ---------------------------------------------------------------- failing storage operations
def step(w, key, what, root, *args):
    """A call during which storage operations may fail: it fails exactly if one of them does."""
    before = len(faults(w))
    v = w.ret(key, root, *args)
    failed = [x[1] for x in faults(w)[before:]]
    ok = w.variant(v) == "Ok"
    if failed:
        w.must(key, not ok, "%s succeeds although '%s' failed in the storage" % (what, failed[0]))
    else:
        w.must(key, ok, "%s fails although no operation of the storage failed" % what)
    return v.f[0] if ok else None


def storage_with(w, on):
    w.st.ghost["faults"] = on


def unfinished(w, key, gs, name, schema, payload, when):
    """Whatever is stored now: it is complete, or reading it fails. Operations do not fail while reading."""
    storage_with(w, False)
    v = w.ret(key, "r_dyn_read", gs, w.slice(text(name)), w.slice(text(schema)))
    if w.variant(v) == "Ok":
        got = w.bytes(v.f[0])
        w.ctx.ob(key)
        d = "a resource that was never written" if payload is None else w.do(lambda: w.e.same_bytes(w.st, got, payload))
        if d:
            raise Fail(key, "%s: '%s' is read as a valid resource %s: %s%s" % (w.describe(), models.text_of(text(name)), when, d, w.facts()))
    w.must(key, True, "")


def fault_items(ctx):
    n = (0, 1, 2) if not ctx.thorough else (0, 1, 2, 3)
    return [("write",)] + [("ev", s, k, m) for s in (8, 40 << 20) for k in n for m in (0, 1)] + \
        [("mv", s, k, m, i) for s, i in ((8, 8), (40 << 20, 8), (8, 40 << 20)) for k in n for m in (0, 1)]


def faulty(ctx, it, key):
    """key: 'reported' (errors reach the caller), 'unfinished' (nothing incomplete is read) or 'content' (what is closed successfully is right)."""
    kind = it[0]
    sizes = {}
    if kind == "ev":
        sizes = {"AbsT": it[1]}
    elif kind == "mv":
        sizes = {"AbsA": it[1], "AbsB": 3, "AbsIdx": it[4]}
    eng = Engine(ctx.dump(), debug=True, sizes=sizes, hooks=hooks())

    def done(w, gs, finals, when):
        if key == "unfinished":
            for name, schema, payload in finals:
                unfinished(w, key, gs, name, schema, payload, when)

    def write(w):
        gs = ghost.storage(w, faults=True)
        n = w.sym("n", 0, 1 << 48)
        payload = src_bytes("payload", n)
        step(w, "reported", "write", "r_dyn_write", gs, w.text(NAME), w.text(SCHEMA), w.slice(payload))
        if key == "reported" and not faults(w):
            expect(w, key, NAME, resource(w.e, n, payload))
        done(w, gs, [(NAME, SCHEMA, payload)], "after an error")

    def ev(w):
        _, S, n, more = it
        gs = ghost.storage(w, faults=True)
        v = step(w, "reported", "creating", "r_ev_create", gs, w.text(NAME), w.text(SCHEMA))
        if v is None:
            return done(w, gs, [(NAME, SCHEMA, None)], "after creating it failed")
        r = w.ref("r_ev_grow", 0, v)
        items = []
        for i in range(n):
            m = step(w, "reported", "grow", "r_ev_grow", r)
            if m is None:
                if not more:
                    return done(w, gs, [(NAME, SCHEMA, None)], "after grow failed")
                if key == "content":
                    w.same_num(key, w.ret(key, "r_ev_len", r), len(items), "len() after grow failed")
                continue
            w.write(w.fat(m), 0, src_bytes("e%d" % i, S))
            items.append(src_bytes("e%d" % i, S))
        before = len(faults(w))
        x = closing(w, "r_ev_close", r)
        payload = cat(*items)
        if x is not None:
            expect(w, key, NAME, resource(w.e, blen(payload), payload))
        done(w, gs, [(NAME, SCHEMA, payload)], "after an error")

    def mv(w):
        _, S, n, more, I = it
        gs = ghost.storage(w, faults=True)
        v = step(w, "reported", "creating", "r_mv_create", gs, w.text(NAME), w.text(SCHEMA))
        both = [(NAME, SCHEMA), (NAME + "_index", "index(%s)" % SCHEMA)]
        if v is None:
            return done(w, gs, [b + (None,) for b in both], "after creating it failed")
        r = w.ref("r_mv_grow", 0, v)
        data, entries = Bytes(()), []
        for i in range(n):
            m = step(w, "reported", "grow", "r_mv_grow", r)
            if m is None:
                if not more:
                    return done(w, gs, [b + (None,) for b in both], "after grow failed")
                continue
            entries.append(blen(data))
            if i % 2 == 0:
                p = w.ret(key, "r_mv_add_a", m)
                w.write(p, 0, src_bytes("e%d" % i, S))
                data = cat(data, lit(b"\0"), src_bytes("e%d" % i, S))
        x = closing(w, "r_mv_close", r)
        offs = entries + [blen(data)]
        index = cat(*[Bytes(((I, ("v", o)),)) for o in offs])
        if x is not None:
            expect(w, key, NAME, resource(w.e, blen(data), data))
            expect(w, key, NAME + "_index", resource(w.e, I * len(offs), index))
        done(w, gs, [(NAME, SCHEMA, data), (NAME + "_index", "index(%s)" % SCHEMA, index)], "after an error")

    def closing(w, root, r):
        """close fails if an operation of it failed; it may also fail because an earlier one did."""
        before = len(faults(w))
        v = w.ret("reported", root, w.at(r))
        failed = [x[1] for x in faults(w)[before:]]
        ok = w.variant(v) == "Ok"
        if failed:
            w.must("reported", not ok, "close succeeds although '%s' failed in the storage" % failed[0])
        elif not faults(w):
            w.must("reported", ok, "close fails although no operation of the storage failed")
        return v.f[0] if ok else None

    b = {"write": write, "ev": ev, "mv": mv}[kind]
    names = {"write": "failing write of a resource", "ev": "external vector above a failing storage", "mv": "multi vector above a failing storage"}
    walk(ctx, eng, "%s %s" % (names[kind], list(it[1:])), b, muted=() if key == "reported" else ("reported",))


# ---------------------------------------------------------------- stopping at any point
def crash_items(ctx):
    n = (0, 1, 2) if not ctx.thorough else (0, 1, 2, 3)
    return [("write", s, old) for s in ("sym", 0, 1, 8, 16) for old in (0, 1)] + \
        [("ev", s, k, old) for s in (1, 8, 40 << 20) for k in n for old in (0, 1)] + \
        [("mv", s, k, old) for s in (8, 40 << 20) for k in n for old in (0, 1)]


def crash(ctx, it):
    """The stored bytes after every prefix of the operations, the last of them possibly done in part."""
    kind, S, old = it[0], it[1], it[-1]
    sizes = {}
    if kind == "ev":
        sizes = {"AbsT": S}
    elif kind == "mv":
        sizes = {"AbsA": S, "AbsB": 3, "AbsIdx": 8}
    eng = Engine(ctx.dump(), debug=True, sizes=sizes, hooks=hooks())
    key = "interrupted"

    def body(w):
        gs = ghost.storage(w)
        olds = {}
        names = [(NAME, SCHEMA)] + ([(NAME + "_index", "index(%s)" % SCHEMA)] if kind == "mv" else [])
        if old:
            for i, (n, s) in enumerate(names):
                k = w.sym("old%d" % i, 0, 1 << 48)
                olds[n] = src_bytes("old content %d" % i, k)
                ghost.make(w.e, w.st, text(n), resource(w.e, k, olds[n]))
                ghost.make(w.e, w.st, plus(n, ".schema"), text(s))
        first = (dict((k, v) for k, v in w.st.mem.items() if k[0] == "gf"), w.st.ghost.get("names", ()))
        finals = run(w, gs)
        storage_with(w, False)
        events = [x for x in w.st.events if x[0] in ("create", "write")]
        replay(w, first, events)
        for n, s in names:
            touched = any(x[1] == ghost.find(w.e, w.st, text(n)) for x in w.cut)
            v = w.ret(key, "r_dyn_read", gs, w.slice(text(n)), w.slice(text(s)))
            if w.variant(v) != "Ok":
                w.must(key, len(w.cut) < len(events) or w.part is not None, "a completely written resource is not read")
                continue
            got = w.bytes(v.f[0])
            w.ctx.ob(key)
            if olds and not touched:
                d = w.do(lambda: w.e.same_bytes(w.st, got, olds[n]))
                when = "before it is replaced"
            else:
                d = w.do(lambda: w.e.same_bytes(w.st, got, finals[n]))
                when = "after writing was stopped"
            if d:
                raise Fail(key, "%s: '%s' is read as a valid resource %s, in operation %d of %d: %s%s" % (
                    w.describe(), models.text_of(text(n)), when, len(w.cut), len(events), d, w.facts()))

    def run(w, gs):
        if kind == "write":
            n = S if S != "sym" else w.sym("n", 0, 1 << 48)
            payload = src_bytes("payload", n)
            unwrap_ok(w, key, w.ret(key, "r_dyn_write", gs, w.text(NAME), w.text(SCHEMA), w.slice(payload)), "write")
            return {NAME: payload}
        if kind == "ev":
            v = unwrap_ok(w, key, w.ret(key, "r_ev_create", gs, w.text(NAME), w.text(SCHEMA)), "creating")
            r = w.ref("r_ev_grow", 0, v)
            for i in range(it[2]):
                m = unwrap_ok(w, key, w.ret(key, "r_ev_grow", r), "grow")
                w.write(w.fat(m), 0, src_bytes("e%d" % i, S))
            unwrap_ok(w, key, w.ret(key, "r_ev_close", w.at(r)), "close")
            return {NAME: cat(*[src_bytes("e%d" % i, S) for i in range(it[2])])}
        v = unwrap_ok(w, key, w.ret(key, "r_mv_create", gs, w.text(NAME), w.text(SCHEMA)), "creating")
        r = w.ref("r_mv_grow", 0, v)
        data, offs = Bytes(()), []
        for i in range(it[2]):
            m = unwrap_ok(w, key, w.ret(key, "r_mv_grow", r), "grow")
            offs.append(blen(data))
            w.write(w.ret(key, "r_mv_add_a", m), 0, src_bytes("e%d" % i, S))
            data = cat(data, lit(b"\0"), src_bytes("e%d" % i, S))
        unwrap_ok(w, key, w.ret(key, "r_mv_close", w.at(r)), "close")
        offs.append(blen(data))
        return {NAME: data, NAME + "_index": cat(*[Bytes(((8, ("v", o)),)) for o in offs])}

    names = {"write": "interrupted write of a resource", "ev": "interrupted external vector", "mv": "interrupted multi vector"}
    walk(ctx, eng, "%s %s" % (names[kind], list(it[1:])), body)


def replay(w, first, events):
    """Puts the files into the state after some of the operations: w.cut are those done, w.part is how
    much of the last one is done, if not all."""
    e, st = w.e, w.st
    k = w.choose(len(events) + 1)
    w.cut = events[:k]
    files, names = dict(first[0]), list(first[1])
    w.part = None
    for i, x in enumerate(w.cut):
        f = ("gf", x[1])
        if x[0] == "create":
            if not any(fid == x[1] for _, fid in names):
                names.append((x[2], x[1]))
            files[f] = Bytes(())
            continue
        _, fid, before, pos, part, data = x
        if i == k - 1:
            n = blen(part)
            if isinstance(n, int) and n <= 16:
                m = w.choose(n + 1)
            else:
                m = w.sym(("written", len(events)), 0)
                w.fact(sub(n, m))
            if m != n:
                w.part = m
                part = w.do(lambda: e.cut(st, part, 0, m))
        old = files[f]
        files[f] = w.do(lambda: ghost.put(e, st, old, pos, part))
    for key in [x for x in st.mem if x[0] == "gf"]:
        del st.mem[key]
    st.mem.update(files)
    st.ghost["names"] = tuple(names)


# ---------------------------------------------------------------- dropping writers
def drop_items(ctx):
    return [(k, n, how) for k in ("ev", "mv") for n in (0, 1, 2) for how in ("drop", "close", "unwind")]


def dropping(ctx, it):
    kind, n, how = it
    sizes = {"AbsT": symbol("S", 1 << 32), "AbsA": symbol("A", 1 << 32), "AbsB": symbol("B", 1 << 32), "AbsIdx": 8}
    eng = Engine(ctx.dump(), debug=True, sizes=sizes, hooks=hooks())

    def body(w):
        for s in ("AbsT", "AbsA", "AbsB"):
            w.fact(sub(sizes[s], 1))
        key = "release"
        gs = ghost.storage(w, faults=how != "drop")
        v = w.ret(key, "r_%s_create" % kind, gs, w.text(NAME), w.text(SCHEMA))
        if w.variant(v) != "Ok":
            return
        r = w.ref("r_%s_grow" % kind, 0, v.f[0])
        for i in range(n):
            w.ret(key, "r_%s_grow" % kind, r)
        if how == "unwind":
            w.st.ghost["panicking"] = True
            w.ret(key, "r_%s_drop" % kind, w.at(r))
            w.must(key, True, "")
            names = [(NAME, SCHEMA)] + ([(NAME + "_index", "index(%s)" % SCHEMA)] if kind == "mv" else [])
            for name, schema in names:
                unfinished(w, "abandoned", gs, name, schema, None, "though its writer was abandoned by a panic")
        elif how == "drop":
            w.refused(key, "dropping a writer that was not closed", "r_%s_drop" % kind, w.at(r))
        else:
            w.ret(key, "r_%s_close" % kind, w.at(r))
            w.must(key, True, "")
    walk(ctx, eng, "%s of %s after %d elements" % ({"unwind": "drop during a panic"}.get(how, how), {"ev": "an external vector", "mv": "a multi vector"}[kind], n), body)
