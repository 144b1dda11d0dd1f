"""Vectors and views."""
import json, os
from engine import *
from terms import *
from walk import walk, Walk, Fail, Stop

SIZES = (1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 31, 64, 255, 1000)
BIG = 1 << 40


def size_items(ctx):
    """Concrete item sizes with any number of items; any item size with small numbers of items."""
    return [("size", s) for s in (SIZES if not ctx.thorough else tuple(range(1, 65)) + (100, 255, 256, 1000, 4096, 65537))] + \
        [("count", n) for n in range(0, 5 if not ctx.thorough else 9)]


def engines(ctx, item, **kw):
    """(engine, item size, number of items or None)"""
    for debug in (False, True):
        if item[0] == "size":
            yield Engine(ctx.dump(), debug=debug, sizes={"AbsT": item[1]}, **kw), item[1], None, "%s bytes per item%s" % (item[1], ", overflow checks" if debug else "")
        else:
            S = symbol("S", 1 << 32)
            yield Engine(ctx.dump(), debug=debug, sizes={"AbsT": S}, **kw), S, item[1], "%d items%s" % (item[1], ", overflow checks" if debug else "")


def count(w, S, n):
    if isinstance(S, P):
        w.fact(sub(S, 1))
    return w.sym("n", 0, BIG) if n is None else n


def index(w, n, name="i"):
    """Any valid index."""
    if isinstance(n, int):
        if n == 0:
            raise Stop()
        return w.choose(n)
    i = w.sym(name, 0, BIG)
    w.fact(sub(n, add(i, 1)))
    return i


def bad_index(w, n, name="j"):
    j = symbol(name, MAXU[64])
    w.fact(sub(j, n))
    return j


def zeros(n):
    return seg_norm([(n, ("z",))])


def new_vector(w, key, S, n):
    """A vector of n items with arbitrary content."""
    v = w.ret(key, "r_vec_with_len", n)
    r = w.ref("r_vec_at_mut", 0, v)
    p = w.ret(key, "r_vec_as_bytes", r)
    w.same(key, w.bytes(p), zeros(mul(n, S)), "content of a new vector")
    havoc(w, p, "vec")
    return r


def havoc(w, p, name):
    p = w.fat(p)
    if p.meta != 0:
        w.write(p, 0, src_bytes(name, p.meta))


def check_vector(w, key, r, S, n, content):
    w.same_num(key, w.ret(key, "r_vec_len", r), n, "len()")
    w.truth(key, w.ret(key, "r_vec_is_empty", r), w.e.eq(n, 0), "is_empty()")
    w.same_num(key, w.ret(key, "r_vec_size_in_bytes", r), mul(n, S), "size_in_bytes()")
    for f in ("r_vec_as_bytes", "r_vec_as_ref"):
        w.same(key, w.bytes(w.ret(key, f, r)), content, f[6:])


def cat(*bs):
    out = []
    for b in bs:
        out += list(b.s)
    return seg_norm(out)


def vector(ctx, item, only=None):
    for e, S, n0, text in engines(ctx, item):
        def create(w):
            n = count(w, S, n0)
            key = "created vector"
            v = w.ret(key, "r_vec_with_len", n)
            r = w.ref("r_vec_at_mut", 0, v)
            check_vector(w, key, r, S, n, zeros(mul(n, S)))
            if n0 in (None, 0):
                for f in ("r_vec_new", "r_vec_default"):
                    w.trail = []
                    r = w.ref("r_vec_at_mut", 0, w.ret(key, f))
                    check_vector(w, key, r, S, 0, Bytes(()))

        def access(w):
            key = "item access"
            n = count(w, S, n0)
            r = new_vector(w, key, S, n)
            i = index(w, n)
            p = w.ret(key, "r_vec_at", r, i)
            w.same(key, w.bytes(p, 0, S), src_bytes("vec", S, mul(i, S)), "item i")
            p = w.ret(key, "r_vec_at_mut", r, i)
            w.same(key, w.bytes(p, 0, S), src_bytes("vec", S, mul(i, S)), "mutable item i")
            w.write(p, 0, src_bytes("new", S))
            after = cat(src_bytes("vec", mul(i, S)), src_bytes("new", S), src_bytes("vec", mul(sub(n, add(i, 1)), S), mul(add(i, 1), S)))
            check_vector(w, key, r, S, n, after)

        def refuse(w):
            key = "access out of range is refused"
            n = count(w, S, n0)
            r = new_vector(w, key, S, n)
            j = bad_index(w, n)
            root = ("r_vec_at", "r_vec_at_mut")[w.choose(2)]
            w.refused(key, "an index past the end", root, r, j)

        def grow(w):
            key = "growth"
            n = count(w, S, n0)
            r = new_vector(w, key, S, n)
            old = src_bytes("vec", mul(n, S))
            for k in range(3):
                if w.choose(2):
                    w.ret(key, "r_vec_reserve", r, w.sym("extra%d" % k, 0, 1 << 20))
                    check_vector(w, key, r, S, add(n, k), old)
                p = w.ret(key, "r_vec_grow", r)
                w.same(key, w.bytes(p, 0, S), zeros(S), "a new item")
                w.write(p, 0, src_bytes("new%d" % k, S))
                old = cat(old, src_bytes("new%d" % k, S))
                check_vector(w, key, r, S, add(n, k + 1), old)

        def clone(w):
            key = "clone"
            n = count(w, S, n0)
            r = new_vector(w, key, S, n)
            c = w.ref("r_vec_at_mut", 0, w.ret(key, "r_vec_clone", r))
            check_vector(w, key, c, S, n, src_bytes("vec", mul(n, S)))
            i = index(w, n)
            w.write(w.ret(key, "r_vec_at_mut", c, i), 0, src_bytes("new", S))
            check_vector(w, key, r, S, n, src_bytes("vec", mul(n, S)))

        def views(w):
            key = "view of a vector"
            n = count(w, S, n0)
            r = new_vector(w, key, S, n)
            for f in ("r_vec_as_view", "r_vec_into_view"):
                v = w.ref("r_av_len", 0, w.ret(key, f, r))
                w.same_num(key, w.ret(key, "r_av_len", v), n, "len() of the view")
                w.same(key, w.bytes(w.ret(key, "r_av_as_bytes", v)), src_bytes("vec", mul(n, S)), "bytes of the view")

        for b in (create, access, refuse, grow, clone, views):
            if only and b.__name__ not in only:
                continue
            walk(ctx, e, "vector, %s [%s]" % (b.__name__, text), b)


def structbuf(ctx, item):
    for e, S, n0, text in engines(ctx, item):
        def buf(w):
            key = "buffer of one struct"
            count(w, S, n0)
            root = ("r_sb_new", "r_sb_default")[w.choose(2)]
            r = w.ref("r_sb_get_mut", 0, w.ret(key, root))
            w.same(key, w.bytes(w.ret(key, "r_sb_as_bytes", r)), zeros(S), "bytes of a new struct")
            p = w.ret(key, "r_sb_get_mut", r)
            w.same(key, w.bytes(p, 0, S), zeros(S), "mutable item")
            w.write(p, 0, src_bytes("new", S))
            for f in ("r_sb_as_bytes", "r_sb_as_ref"):
                w.same(key, w.bytes(w.ret(key, f, r)), src_bytes("new", S), f[5:])
            w.same(key, w.bytes(w.ret(key, "r_sb_get", r), 0, S), src_bytes("new", S), "item")
        walk(ctx, e, "struct buffer [%s]" % text, buf)


# ---------------------------------------------------------------- array views
def new_view(w, key, S, n):
    """A view over n items, and possibly an incomplete one."""
    rest = 0
    if S != 1 and w.choose(2):
        rest = w.sym("rest", 1)
        w.fact(sub(S, add(rest, 1)))
    p = w.src("data", add(mul(n, S), rest))
    return w.ref("r_av_len", 0, w.ret(key, "r_av_new", p)), rest


def item(w, key, p, S, i, what):
    w.same(key, w.bytes(p, 0, S), src_bytes("data", S, mul(i, S)), what)


def check_view(w, key, v, S, lo, n):
    """The view is over the items lo..lo+n."""
    w.same_num(key, w.ret(key, "r_av_len", v), n, "len()")
    w.truth(key, w.ret(key, "r_av_is_empty", v), w.e.eq(n, 0), "is_empty()")
    for f in ("r_av_as_bytes", "r_av_as_ref"):
        b = w.bytes(w.ret(key, f, v))
        w.must(key, w.e.ge(blen(b), mul(n, S)), "%s is too short" % f[5:])
        w.same(key, w.do(lambda: w.e.cut(w.st, b, 0, mul(n, S))), src_bytes("data", mul(n, S), mul(lo, S)), f[5:])


def hint(w, key, h, n):
    """size_hint() is exact."""
    w.same_num(key, h.f[0], n, "lower bound of size_hint()")
    up = w.opt(h.f[1])
    w.must(key, up is not None, "size_hint() has no upper bound")
    w.same_num(key, up, n, "upper bound of size_hint()")


SLICES = [("ie", 0, 0, 2), ("ii", 0, 1, 2), ("rii", 0, 1, 2), ("iu", 0, None, 1), ("ue", None, 0, 1), ("ui", None, 1, 1),
          ("uu", None, None, 0), ("ee", 1, 0, 2), ("ei", 1, 1, 2), ("eu", 1, None, 1)]


def view(ctx, item_, only=None):
    for e, S, n0, text in engines(ctx, item_):
        def access(w):
            key = "item access"
            n = count(w, S, n0)
            v, _ = new_view(w, key, S, n)
            check_view(w, key, v, S, 0, n)
            c = w.ref("r_av_len", 0, w.ret(key, "r_av_clone", v))
            check_view(w, key, c, S, 0, n)
            i = index(w, n)
            item(w, key, w.ret(key, "r_av_at", v, i), S, i, "item i")

        def refuse(w):
            key = "access out of range is refused"
            n = count(w, S, n0)
            v, _ = new_view(w, key, S, n)
            w.refused(key, "an index past the end", "r_av_at", v, bad_index(w, n))

        def slices(w):
            key = "slice"
            n = count(w, S, n0)
            v, rest = new_view(w, key, S, n)
            name, da, db, nargs = SLICES[w.choose(len(SLICES))]
            args = []
            a, b = 0, n
            if da is not None:
                x = bound(w, n, "a")
                args.append(x)
                a = add(x, da)
            if db is not None:
                x = bound(w, n, "b")
                args.append(x)
                b = add(x, db)
            w.fact(sub(b, a))
            w.fact(sub(n, b))
            s = w.ref("r_av_len", 0, w.ret(key, "r_av_slice_" + name, v, *args))
            m = sub(b, a)
            check_view(w, key, s, S, a, m)
            if isinstance(m, P) and not isinstance(S, P) or isinstance(m, int):
                i = index(w, m)
                item(w, key, w.ret(key, "r_av_at", s, i), S, add(a, i), "item i of the slice")

        def slices_refused(w):
            key = "slice out of range is refused"
            n = count(w, S, n0)
            v, rest = new_view(w, key, S, n)
            name, da, db, nargs = SLICES[w.choose(len(SLICES))]
            if name == "uu":
                raise Stop()
            args = []
            a, b = 0, n
            if da is not None:
                x = anything(w, n, "a")
                args.append(x)
                a = add(x, da)
            if db is not None:
                x = anything(w, n, "b")
                args.append(x)
                b = add(x, db)
            if w.choose(2):
                w.fact(sub(a, add(b, 1)))
            else:
                w.fact(sub(b, add(n, 1)))
            w.refused(key, "a range which does not fit", "r_av_slice_" + name, v, *args)

        def iterate(w):
            key = "iteration"
            n = count(w, S, n0)
            v, _ = new_view(w, key, S, n)
            r = w.ret(key, "r_av_iter_len", v)
            w.same_num(key, r.f[0], n, "len() of the iterator")
            hint(w, key, r.f[1], n)
            back = w.choose(2)
            r = w.ret(key, ("r_av_next", "r_av_next_back")[back], v)
            x, m, h, front, last = r.f
            step(w, key, S, x, n, sub(n, 1) if back else 0, ("next()", "next_back()")[back])
            if w.eq(n, 0):
                w.same_num(key, m, 0, "remaining length")
                hint(w, key, h, 0)
                step(w, key, S, front, 0, 0, "next() after the end")
                step(w, key, S, last, 0, 0, "next_back() after the end")
                return
            w.same_num(key, m, sub(n, 1), "remaining length")
            hint(w, key, h, sub(n, 1))
            lo, hi = (0, sub(n, 2)) if back else (1, sub(n, 1))
            step(w, key, S, front, sub(n, 1), lo, "next() afterwards")
            step(w, key, S, last, sub(n, 1), hi, "next_back() afterwards")

        def into(w):
            key = "iteration"
            n = count(w, S, n0)
            v, _ = new_view(w, key, S, n)
            if w.choose(2):
                r = w.ret(key, "r_av_ref_into_next", v)
            else:
                r = w.ret(key, "r_av_into_next", w.at(v))
            step(w, key, S, r.f[0], n, 0, "first item")
            w.same_num(key, r.f[1], 0 if w.eq(n, 0) else sub(n, 1), "remaining length")

        def adapters(w):
            key = "iteration"
            if not isinstance(n0, int):
                raise Stop()
            v, _ = new_view(w, key, S, count(w, S, n0))
            adapted(w, key, "av", v, n0, lambda x, i, what: step(w, key, S, x, 0 if i is None else 1, i or 0, what))

        for b in (access, refuse, slices, slices_refused, iterate, into, adapters):
            if only and b.__name__ not in only:
                continue
            walk(ctx, e, "array view, %s [%s]" % (b.__name__, text), b)


def bound(w, n, name):
    return w.sym(name, 0, BIG) if not isinstance(n, int) else w.choose(n + 1)


def anything(w, n, name):
    """Any number."""
    x = symbol(name, MAXU[64])
    if isinstance(n, int):
        c = w.choose(n + 2)
        if c <= n:
            return c
        w.fact(sub(x, n + 1))
    return x


def step(w, key, S, x, left, i, what):
    """x is Some(item i) if there are items left, else None."""
    got = w.opt(x)
    if w.eq(left, 0):
        w.must(key, got is None, "%s yields an item although there is none" % what)
    else:
        w.must(key, got is not None, "%s yields nothing although items are left" % what)
        item(w, key, got, S, i, what)


def position(w, left):
    """(position or None if it is past the end, its number)"""
    k = w.choose(left + 1)
    return (k, k) if k < left else (None, bad_index(w, left, "k"))


def adapted(w, key, kind, v, n, same):
    """The other methods of the iterator agree with the sequence of items lo..hi; same(x, i, what) checks Option x."""
    def is_(x, i, what):
        same(x, i if i is not None and lo <= i < hi else None, what)
    lo, hi = 0, n
    how = w.choose(7)
    if how == 0:
        ways = [w.choose(2) for _ in range(4)]
        r = w.ret(key, "r_%s_steps" % kind, v, *ways)
        for j, back in enumerate(ways):
            is_(r.f[j], hi - 1 if back else lo, "%s, step %d of %s" % (("next()", "next_back()")[back], j + 1, ways))
            if lo < hi:
                lo, hi = (lo, hi - 1) if back else (lo + 1, hi)
        w.same_num(key, r.f[4], hi - lo, "remaining length")
        return
    before = w.choose(2)
    if how in (1, 2):
        back = how == 2
        if before and lo < hi:
            lo, hi = (lo, hi - 1) if back else (lo + 1, hi)
        k, kn = position(w, hi - lo)
        name = "nth_back" if back else "nth"
        r = w.ret(key, "r_%s_%s" % (kind, name), v, before, kn)
        at = None if k is None else hi - 1 - k if back else lo + k
        is_(r.f[0], at, "%s(%s)" % (name, kn))
        if at is None:
            lo = hi
        elif back:
            hi = at
        else:
            lo = at + 1
        w.same_num(key, r.f[1], hi - lo, "length after %s(%s)" % (name, kn))
        is_(r.f[2], lo, "next() after %s(%s)" % (name, kn))
        is_(r.f[3], hi - 1, "next_back() after %s(%s)" % (name, kn))
        return
    name = ("count", "last", "fold", "rfold")[how - 3]
    if before and lo < hi:
        lo, hi = (lo, hi - 1) if name in ("last", "rfold") else (lo + 1, hi)
    r = w.ret(key, "r_%s_%s" % (kind, name), v, before)
    if name == "count":
        w.same_num(key, r, hi - lo, "count()")
    elif name == "last":
        is_(r, hi - 1, "last()")
    else:
        for j in range(3):
            is_(r.f[j], lo + j if name == "fold" else hi - 1 - j, "item %d of %s()" % (j, name))
        w.same_num(key, r.f[3], hi - lo, "number of items of %s()" % name)


# ---------------------------------------------------------------- multi array views
def index_get(c):
    """The number which the bytes of an index entry hold."""
    p = c.eng.as_ptr(c.args[0])
    S = c.eng.sizes["AbsIdx"]
    b = c.eng.cut(c.st, models.container(c.eng, c.st, p), p.off or 0, S)
    if len(b.s) != 1:
        raise Gap("index entry %r" % (b,))
    k = b.s[0][1]
    if k[0] == "v":
        return k[1]
    if k[0] == "d":
        return entry_at(c.eng, c.st, k[1], k[2])
    if k[0] == "z":
        return 0
    raise Gap("index entry %r" % (b,))


def entry_at(e, st, name, off):
    """The entry at this offset of the index: one symbol for each offset."""
    known = st.mem.get(("entries", name), ())
    for o in known:
        if o == off or e.test(st, e.eq(o, off)):
            return symbol(("entry", name, o))
    st.mem[("entries", name)] = known + (off,)
    return symbol(("entry", name, off))


def index_set(c):
    p = c.eng.as_ptr(c.args[0])
    S = c.eng.sizes["AbsIdx"]
    models.write_raw(c.eng, c.st, p, Bytes(((S, ("v", c.eng.num(c.args[1]))),)))


def tag_size(c):
    t = c.args[0]
    t = c.eng.num(t)
    return symbol(("size of tag", t), 1 << 32)


import models
HOOKS = {"abs::model_index_get": index_get, "abs::model_index_set": index_set, "abs::model_tag_size": tag_size}


def entry(w, S, i, name="index"):
    return w.do(lambda: entry_at(w.e, w.st, name, mul(i, S)))


def multi_engines(ctx, it):
    for debug in (False, True):
        t = ", overflow checks" if debug else ""
        if it[0] == "size":
            yield Engine(ctx.dump(), debug=debug, sizes={"AbsIdx": it[1]}, hooks=HOOKS), it[1], None, "index entries of %s bytes%s" % (it[1], t)
        else:
            S = symbol("S", 1 << 32)
            yield Engine(ctx.dump(), debug=debug, sizes={"AbsIdx": S}, hooks=HOOKS), S, it[1], "%d items%s" % (it[1], t)


def new_multi(w, key, S, n):
    D = w.sym("D", 0, 1 << 60)
    p, d = w.src("index", mul(add(n, 1), S)), w.src("data", D)
    return w.ref("r_ma_len", 0, w.ret(key, "r_ma_new", p, d)), D


def sorted_at(w, S, i, D, name="index"):
    """Entries i and i+1 of a valid index."""
    a, b = entry(w, S, i, name), entry(w, S, add(i, 1), name)
    w.fact(sub(b, a))
    w.fact(sub(D, b))
    return a, b


def tag_at(off):
    return BV(tuple(("d", "data", off, k) for k in range(8)))


def check_first(w, key, x, a, b, what):
    """x is the first item stored in data[a..b], or None; returns where the next one starts."""
    got = w.opt(x)
    if w.eq(a, b):
        w.must(key, got is None, "%s yields an item although there is none" % what)
        return None
    w.must(key, got is not None, "%s yields nothing although items are left" % what)
    w.same_num(key, got.f[0], w.e.num(tag_at(a)), "type of the item (%s)" % what)
    z = symbol(("size of tag", w.e.num(tag_at(a))), 1 << 32)
    w.same(key, w.bytes(w.fat(got.f[1]), 0, z), src_bytes("data", z, add(a, 1)), "item (%s)" % what)
    return add(add(a, 1), z)


def fits(w, a, b):
    """The first item of data[a..b], if there is one, lies inside."""
    if not w.eq(a, b):
        z = symbol(("size of tag", w.e.num(tag_at(a))), 1 << 32)
        w.fact(sub(b, add(add(a, 1), z)))
        return add(add(a, 1), z)
    return None


def check_multi(w, key, v, S, lo, n, D):
    w.same_num(key, w.ret(key, "r_ma_len", v), n, "len()")
    w.truth(key, w.ret(key, "r_ma_is_empty", v), w.e.eq(n, 0), "is_empty()")
    if isinstance(n, int) and n == 0:
        return
    if not w.ge(n, 1):
        return
    i = index(w, n)
    a, b = sorted_at(w, S, add(lo, i), D)
    fits(w, a, b)
    check_first(w, key, w.ret(key, "r_ma_at_first", v, i), a, b, "first of item i")


def multi_view(ctx, it, only=None):
    for e, S, n0, text in multi_engines(ctx, it):
        def access(w):
            key = "item access"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            if w.choose(2):
                v = w.ref("r_ma_len", 0, w.ret(key, "r_ma_clone", v))
            check_multi(w, key, v, S, 0, n, D)

        def two(w):
            key = "items are read one after another"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            i = index(w, n)
            a, b = sorted_at(w, S, i, D)
            m = fits(w, a, b)
            if m is not None:
                fits(w, m, b)
            r = w.ret(key, "r_ma_at_two", v, i)
            nxt = check_first(w, key, r.f[0], a, b, "first next()")
            if nxt is None:
                w.must(key, w.opt(r.f[1]) is None, "next() yields an item after the end")
            else:
                check_first(w, key, r.f[1], nxt, b, "second next()")

        def overrun(w):
            key = "an item which does not fit its range is refused"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            i = index(w, n)
            a, b = sorted_at(w, S, i, D)
            w.fact(sub(b, add(a, 1)))
            z = symbol(("size of tag", w.e.num(tag_at(a))), 1 << 32)
            w.fact(sub(add(a, z), b))
            w.refused(key, "an item longer than its range", "r_ma_at_first", v, i)

        def unsorted(w):
            key = "an invalid index is refused"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            i = index(w, n)
            a, b = entry(w, S, i), entry(w, S, add(i, 1))
            if w.choose(2):
                w.fact(sub(a, add(b, 1)))
            else:
                w.fact(sub(b, a))
                w.fact(sub(b, add(D, 1)))
            w.refused(key, "an index pointing outside the data", "r_ma_at_first", v, i)

        def refuse(w):
            key = "access out of range is refused"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            j = anything_from(w, n, "j")
            # the sentinel must not be taken for an item
            w.refused(key, "an index past the end", "r_ma_at_first", v, j)

        def slices(w):
            key = "slice"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            name, da, db, nargs = SLICES[w.choose(len(SLICES))]
            args = []
            a, b = 0, n
            if da is not None:
                x = bound(w, n, "a")
                args.append(x)
                a = add(x, da)
            if db is not None:
                x = bound(w, n, "b")
                args.append(x)
                b = add(x, db)
            w.fact(sub(b, a))
            w.fact(sub(n, b))
            s = w.ref("r_ma_len", 0, w.ret(key, "r_ma_sl_" + name, v, *args))
            check_multi(w, key, s, S, a, sub(b, a), D)

        def slices_refused(w):
            key = "slice out of range is refused"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            name, da, db, nargs = SLICES[w.choose(len(SLICES))]
            if name == "uu":
                raise Stop()
            args = []
            a, b = 0, n
            if da is not None:
                x = anything(w, n, "a")
                args.append(x)
                a = add(x, da)
            if db is not None:
                x = anything(w, n, "b")
                args.append(x)
                b = add(x, db)
            if w.choose(2):
                w.fact(sub(a, add(b, 1)))
            else:
                w.fact(sub(b, add(n, 1)))
            w.refused(key, "a range which does not fit", "r_ma_sl_" + name, v, *args)

        def iterate(w):
            key = "iteration"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            r = w.ret(key, "r_ma_iter_len", v)
            w.same_num(key, r.f[0], n, "len() of the iterator")
            hint(w, key, r.f[1], n)
            back = w.choose(2)
            empty = w.eq(n, 0)
            seq = []
            if not empty:
                first = sub(n, 1) if back else 0
                seq.append(first)
                if not w.eq(n, 1):
                    lo, hi = (0, sub(n, 2)) if back else (1, sub(n, 1))
                    seq += [lo, hi]
            for i in seq:
                a, b = sorted_at(w, S, i, D)
                fits(w, a, b)
            r = w.ret(key, ("r_ma_next", "r_ma_next_back")[back], v)
            x, m, h, front, last = r.f
            mstep(w, key, S, x, seq[:1], ("next()", "next_back()")[back])
            left = 0 if empty else sub(n, 1)
            w.same_num(key, m, left, "remaining length")
            hint(w, key, h, left)
            mstep(w, key, S, front, seq[1:2], "next() afterwards")
            mstep(w, key, S, last, seq[2:3], "next_back() afterwards")

        def into(w):
            key = "iteration"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            seq = []
            if not w.eq(n, 0):
                seq = [0]
                a, b = sorted_at(w, S, 0, D)
                fits(w, a, b)
            if w.choose(2):
                r = w.ret(key, "r_ma_ref_into_next", v)
            else:
                r = w.ret(key, "r_ma_into_next", w.at(v))
            mstep(w, key, S, r.f[0], seq, "first item")
            w.same_num(key, r.f[1], 0 if not seq else sub(n, 1), "remaining length")

        def adapters(w):
            key = "iteration"
            if not isinstance(n0, int) or n0 > (4 if ctx.thorough else 3):
                raise Stop()
            v, D = new_multi(w, key, S, count(w, S, n0))
            for i in range(n0):
                a, b = sorted_at(w, S, i, D)
                fits(w, a, b)
            adapted(w, key, "ma", v, n0, lambda x, i, what: mstep(w, key, S, x, [] if i is None else [i], what))

        def item_adapters(w):
            key = "iteration of one entry"
            n = count(w, S, n0)
            v, D = new_multi(w, key, S, n)
            i = index(w, n)
            a, b = sorted_at(w, S, i, D)
            m = w.choose(4 if ctx.thorough else 3)
            at = [a]
            for _ in range(m):
                at.append(add(add(at[-1], 1), symbol(("size of tag", w.e.num(tag_at(at[-1]))), 1 << 32)))
            w.fact(sub(b, at[-1]))
            w.fact(sub(at[-1], b))

            def is_(x, k, what):
                if k is None or k >= m:
                    w.must(key, w.opt(x) is None, "%s yields an item although there is none" % what)
                else:
                    check_first(w, key, x, at[k], b, what)
            how = w.choose(5)
            if how == 0:
                k, kn = position(w, m)
                r = w.ret(key, "r_mi_nth", v, i, kn)
                is_(r.f[0], k, "nth(%s)" % kn)
                is_(r.f[1], None if k is None else k + 1, "next() after nth(%s)" % kn)
            elif how == 1:
                w.same_num(key, w.ret(key, "r_mi_count", v, i), m, "count()")
            elif how == 2:
                is_(w.ret(key, "r_mi_last", v, i), m - 1 if m else None, "last()")
            elif how == 3:
                r = w.ret(key, "r_mi_fold", v, i)
                for k in range(2):
                    is_(r.f[k], k, "item %d of fold()" % k)
                w.same_num(key, r.f[2], m, "number of items of fold()")
            else:
                r = w.ret(key, "r_mi_hint", v, i)
                for h, left in ((r.f[0], m), (r.f[2], max(m - 1, 0))):
                    w.must(key, w.e.ge(left, w.e.num(h.f[0])), "size_hint() promises more items than there are")
                    up = w.opt(h.f[1])
                    w.must(key, up is None or w.e.ge(w.e.num(up), left), "size_hint() promises fewer items than there are")

        for b in (access, two, overrun, unsorted, refuse, slices, slices_refused, iterate, into, adapters, item_adapters):
            if only and b.__name__ not in only:
                continue
            walk(ctx, e, "multi array view, %s [%s]" % (b.__name__, text), b)


def anything_from(w, n, name):
    x = symbol(name, MAXU[64])
    w.fact(sub(x, n))
    return x


def mstep(w, key, S, x, seq, what):
    got = w.opt(x)
    if not seq:
        w.must(key, got is None, "%s yields an item although there is none" % what)
        return
    w.must(key, got is not None, "%s yields nothing although items are left" % what)
    a, b = entry(w, S, seq[0]), entry(w, S, add(seq[0], 1))
    check_first(w, key, got, a, b, "first of " + what)


# ---------------------------------------------------------------- variadic types
VARIADIC = {
    "var": [(0, "AbsA", "add_a"), (1, "AbsB", "add_b")],
    "varhi": [(7, "AbsB", "add_b"), (3, "AbsA", "add_a"), (255, "AbsT", "add_t")],
}


def variadic_items(ctx):
    return list(VARIADIC)


def variadic(ctx, name, only=None):
    table = VARIADIC[name]
    sizes = {t: symbol("size of " + t, 1 << 32) for t in ("AbsA", "AbsB", "AbsT", "AbsIdx")}
    for debug in (False, True):
        e = Engine(ctx.dump(), debug=debug, sizes=sizes, hooks=HOOKS)

        def pos(w):
            for s in sizes.values():
                w.fact(sub(s, 1))

        def write(w):
            """Items written one after another are found again by their tags."""
            key = "tags written and read agree"
            pos(w)
            n = w.sym("n", 0, BIG)
            pad = zeros(8)
            vec = models.Vec(e.alloc(w.st, cat(src_bytes("data", n), pad)))
            r = w.ref("r_%s_add_a" % name, 0, vec)
            want = src_bytes("data", n)
            done = []
            for k in range(2):
                tag, t, root = table[w.choose(len(table))]
                S = sizes[t]
                p = w.ret(key, "r_%s_%s" % (name, root), r)
                w.same(key, w.bytes(p, 0, S), zeros(S), "a new item")
                w.write(p, 0, src_bytes("item%d" % k, S))
                done.append((blen(want), tag, t, "item%d" % k))
                want = cat(want, lit(bytes([tag])), src_bytes("item%d" % k, S))
                now = w.do(lambda: models.container(e, w.st, Ptr(w.at(r).h)))
                w.must(key, e.ge(blen(now), blen(want)), "the buffer is too short")
                w.same(key, w.do(lambda: e.cut(w.st, now, 0, blen(want))), want, "buffer after adding")
            # reading the bytes back
            buf = w.slice(want)
            for off, tag, t, src in done:
                at = buf.with_(off=add(off, 1), meta=sub(sub(blen(want), off), 1))
                v = w.ret(key, "r_%s_create" % name, tag, at)
                w.must(key, w.variant(v) == t, "tag %d is read as %s but was written for %s" % (tag, w.variant(v), t))
                w.same(key, w.bytes(w.fat(v), 0, sizes[t]), src_bytes(src, sizes[t]), "item read back")
                vr = w.ref("r_%s_size" % name, 0, v)
                w.same_num(key, w.ret(key, "r_%s_size" % name, vr), sizes[t], "size of the item")

        def unknown(w):
            """Every tag is one of the declared ones, or refused."""
            key = "unknown tags are refused"
            pos(w)
            sid = sym_id(("tag", 8), 255)
            tag = P({(sid,): 1})
            n = w.sym("n", 0, BIG)
            o = w.call("r_%s_create" % name, tag, w.src("data", n))
            for k, t, _ in table:
                if w.eq(tag, k):
                    if w.ge(n, sizes[t]):
                        w.must(key, o.kind == "return", "the declared tag %d is refused" % k)
                        w.must(key, w.variant(o.value) == t, "tag %d is read as %s" % (k, w.variant(o.value)))
                    else:
                        w.must(key, o.kind == "panic", "short data is not refused")
                    return
            w.must(key, o.kind == "panic", "an undeclared tag is not refused")

        for b in (write, unknown):
            if only and b.__name__ not in only:
                continue
            walk(ctx, e, "variadic type %s, %s%s" % (name, b.__name__, " [overflow checks]" if debug else ""), b)
