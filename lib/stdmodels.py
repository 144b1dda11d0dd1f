"""Further contracts of the standard library: vectors, texts, sets, weak pointers, atomics.
tools/probe.py compares them with what the real functions do."""
import re
from terms import *
from engine import *
import models, fsmodel
from models import (m, deref, some, none, ok, err, mk, bytes_at, new_vec, content, vec_of, set_vec, seq_len, owned_vec, range_bounds,
                    check_range, alloc_ok, container, bytes_eq_cond, read_raw, write_raw, step_into)


# ---------------------------------------------------------------- reading and writing memory
IO = "(?:core|alloc|std)::io::"


@m("~^" + IO + "impls::<impl " + IO + "(write::)?Write for alloc::vec::Vec<u8, A>>::flush$",
   "~^" + IO + "impls::<impl " + IO + "(write::)?Write for &mut \\[u8\\]>::flush$")
def nothing_to_flush(c):
    return ok(c)


def slice_ref(c, i=0):
    """The place of a slice reference, and the reference."""
    p = c.eng.as_ptr(c.args[i])
    t = c.eng.T(c.argtys[i])["e"]
    return p, t, c.eng.as_ptr(c.eng.load(c.st, p, t))


@m("~^" + IO + "impls::<impl " + IO + "(write::)?Write for &mut \\[u8\\]>::(write_all|write)$")
def slice_write(c):
    e = c.eng
    p, t, s = slice_ref(c)
    data = bytes_at(c, c.args[1])
    n = blen(data)
    fits = e.test(c.st, e.ge(s.meta, n))
    k = n if fits else s.meta
    if k != 0:
        write_raw(e, c.st, s.with_(meta=None, off=s.off or 0), e.cut(c.st, data, 0, k))
    e.store(c.st, p, t, s.with_(off=add(s.off or 0, k), meta=sub(s.meta, k)))
    if c.f["p"].endswith("::write"):
        return ok(c, k)
    return ok(c) if fits else err(c, Obj("ioerr", "WriteZero"))


def reading(c, data, rest):
    """Reads from data; rest(n) marks the first n bytes as read."""
    e = c.eng
    op = c.f["p"].rsplit("::", 1)[1]
    n = blen(data)
    if op == "read_to_end":
        v = vec_of(c, c.args[1])
        set_vec(c, c.args[1], v, seg_norm(list(content(c, v).s) + list(data.s)))
        rest(n)
        return ok(c, n)
    b = e.as_ptr(c.args[1])
    fits = e.test(c.st, e.ge(n, b.meta))
    k = b.meta if fits else n
    if k != 0 and (fits or op == "read"):
        write_raw(e, c.st, b.with_(meta=None, off=b.off or 0), e.cut(c.st, data, 0, k))
    rest(k)
    if op == "read":
        return ok(c, k)
    return ok(c) if fits else err(c, Obj("ioerr", "UnexpectedEof"))


@m("~^" + IO + "impls::<impl " + IO + "(read::)?Read for &\\[u8\\]>::(read|read_exact|read_to_end)$")
def slice_read(c):
    p, t, s = slice_ref(c)
    data = bytes_at(c, s)
    return reading(c, data, lambda n: c.eng.store(c.st, p, t, s.with_(off=add(s.off or 0, n), meta=sub(s.meta, n))))


@m("~^" + IO + "cursor::<impl " + IO + "(read::)?Read for " + IO + "cursor::Cursor<T>>::(read|read_exact|read_to_end)$")
def cursor_read(c):
    e = c.eng
    p, v = fsmodel.cursor_at(c)
    pos = e.num(v.f[fsmodel.field_ix(c, v.ty, "pos")])
    inner = v.f[fsmodel.field_ix(c, v.ty, "inner")]
    inner = content(c, inner) if isinstance(inner, Vec) else bytes_at(c, inner)
    n = blen(inner)
    data = e.cut(c.st, inner, pos, sub(n, pos)) if e.test(c.st, e.ge(n, pos)) else Bytes(())
    return reading(c, data, lambda k: fsmodel.cursor_set(c, p, v, "pos", add(pos, k)))


# ---------------------------------------------------------------- intrinsics
@m("~^core::intrinsics::ptr_offset_from(_unsigned)?$")
def ptr_offset_from(c):
    p, q = c.eng.as_ptr(c.args[0]), c.eng.as_ptr(c.args[1])
    if p.base != q.base or p.path != q.path:
        if p.base[0] == "null" and q.base[0] == "null":
            return (p.base[1] - q.base[1]) // max(1, c.eng.size_of(c.eng.T(c.argtys[0])["e"]))
        raise Gap("distance of pointers into different objects")
    return sub(p.off or 0, q.off or 0)


@m("core::intrinsics::typed_swap_nonoverlapping")
def typed_swap(c):
    t = c.eng.T(c.argtys[0])["e"]
    p, q = c.eng.as_ptr(c.args[0]), c.eng.as_ptr(c.args[1])
    a, b = c.eng.load(c.st, p, t), c.eng.load(c.st, q, t)
    c.eng.store(c.st, p, t, b)
    c.eng.store(c.st, q, t, a)


@m("core::intrinsics::select_unpredictable")
def select(c):
    return c.args[1] if c.eng.test(c.st, c.eng.to_cond(c.args[0])) else c.args[2]


@m("~^core::intrinsics::(cttz|ctlz|cttz_nonzero|ctlz_nonzero|bitreverse)$")
def zeros(c):
    w = c.eng.width(c.argtys[0])
    op = c.f["p"].rsplit("::", 1)[1]
    v = c.args[0]
    if op == "bitreverse":
        return c.eng.from_bits(tuple(c.eng.bits(c.st, v, w))[::-1], c.argtys[0])
    if not isinstance(v, int):
        if op.endswith("nonzero") is False and c.eng.test(c.st, c.eng.eq(c.eng.num(v), 0)):
            return w
        b = c.eng.bits(c.st, v, w)
        for i in range(w):
            a = b[i] if op.startswith("cttz") else b[w - 1 - i]
            if c.eng.test(c.st, c.eng.bit_cond(a) if not isinstance(a, int) else bool(a)):
                return i
        return w
    v &= (1 << w) - 1
    if v == 0:
        return w
    return (v & -v).bit_length() - 1 if op.startswith("cttz") else w - v.bit_length()


ATOMIC = {"xadd": "Add", "xsub": "Sub", "and": "BitAnd", "or": "BitOr", "xor": "BitXor"}


@m("~^core::intrinsics::atomic_(load|store|xchg|xadd|xsub|and|or|xor|cxchg|cxchgweak|fence|singlethreadfence|max|min|umax|umin)$")
def atomic(c):
    """There is a single thread."""
    op = c.f["p"].rsplit("atomic_", 1)[1]
    if op.endswith("fence"):
        return None
    p = c.eng.as_ptr(c.args[0])
    t = c.eng.T(c.argtys[0])["e"]
    while c.eng.T(t)["k"] == "adt" and len(c.eng.fields(t)) == 1:
        t = c.eng.fields(t)[0]
    if op == "store":
        c.eng.store(c.st, p, t, c.args[1])
        return None
    old = c.eng.load(c.st, p, t)
    while isinstance(old, Agg) and len(old.f) == 1:
        old = old.f[0]
    if op == "load":
        return old
    if op == "xchg":
        new = c.args[1]
    elif op in ("cxchg", "cxchgweak"):
        same = c.eng.test(c.st, c.eng.to_cond(c.eng.compare(c.st, "Eq", old, c.args[1], t, None)))
        if same:
            c.eng.store(c.st, p, t, c.args[2])
        return Agg(c.dty, 0, [old, same])
    elif op in ATOMIC:
        new = c.eng.binop(c.st, ATOMIC[op], old, c.args[1], t, t)
    else:
        less = c.eng.test(c.st, c.eng.to_cond(c.eng.compare(c.st, "Le", old, c.args[1], t, None)))
        new = old if less == op.endswith("min") else c.args[1]
    c.eng.store(c.st, p, t, new)
    return old


# ---------------------------------------------------------------- vectors
def pieces(c, b, i, n=None):
    """Content before i and from i (+ n) on."""
    e = c.eng
    j = i if n is None else add(i, n)
    return e.cut(c.st, b, 0, i), e.cut(c.st, b, j, sub(blen(b), j))


@m("~^alloc::vec::Vec::<T, A>::(insert|insert_mut)$")
def vec_insert(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    i = c.eng.num(c.args[1])
    if not c.eng.test(c.st, c.eng.ge(seq_len(b), i)):
        raise Panic("insertion index out of bounds")
    if isinstance(b, Seq):
        i = c.eng.concretize(c.st, i, len(b.i))
        new = Seq(b.i[:i] + (c.args[2],) + b.i[i:])
    else:
        alloc_ok(c, add(blen(b), 1))
        h, t = pieces(c, b, i)
        new = seg_norm(list(h.s) + [(1, ("b", (c.args[2],)))] + list(t.s))
    set_vec(c, c.args[0], v, new)


@m("~^alloc::vec::Vec::<T, A>::(remove|swap_remove)$")
def vec_remove(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    i = c.eng.num(c.args[1])
    swap = c.f["p"].endswith("swap_remove")
    if not c.eng.test(c.st, c.eng.ge(sub(seq_len(b), 1), i)):
        raise Panic("removal index out of bounds")
    if isinstance(b, Seq):
        i = c.eng.concretize(c.st, i, len(b.i))
        x = b.i[i]
        if swap:
            it = list(b.i)
            it[i] = it[-1]
            new = Seq(tuple(it[:-1]))
        else:
            new = Seq(b.i[:i] + b.i[i + 1:])
    else:
        x = c.eng.byte_list(c.st, c.eng.cut(c.st, b, i, 1))[0]
        n1 = sub(blen(b), 1)
        if swap:
            last = c.eng.cut(c.st, b, n1, 1)
            if c.eng.test(c.st, c.eng.eq(i, n1)):
                new = c.eng.cut(c.st, b, 0, n1)
            else:
                new = c.eng.cut(c.st, c.eng.replace(c.st, b, i, last), 0, n1)
        else:
            h, t = pieces(c, b, i, 1)
            new = seg_norm(list(h.s) + list(t.s))
    set_vec(c, c.args[0], v, new)
    return x


@m("~^alloc::vec::Vec::<T, A>::extend_from_within$")
def vec_extend_within(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    a, e = range_bounds(c, c.args[1], c.argtys[1], seq_len(b))
    check_range(c, a, e, seq_len(b))
    if isinstance(b, Seq):
        set_vec(c, c.args[0], v, Seq(b.i + b.i[a:e]))
        return
    alloc_ok(c, add(blen(b), sub(e, a)))
    set_vec(c, c.args[0], v, seg_norm(list(b.s) + list(c.eng.cut(c.st, b, a, sub(e, a)).s)))


@m("~^alloc::vec::Vec::<T, A>::leak$")
def vec_leak(c):
    v = owned_vec(c, c.args[0])
    return Ptr(v.h, (), 0, seq_len(content(c, v)))


@m("~^<alloc::vec::Vec<T> as core::convert::From<\\[T; N\\]>>::from$")
def vec_from_array(c):
    return new_vec(c, c.args[0])


@m("~^<alloc::(vec::Vec<T, A>|string::String) as core::clone::Clone>::clone_from$")
def vec_clone_from(c):
    src = vec_of(c, c.args[1])
    b = content(c, src)
    if isinstance(b, Seq) and any(isinstance(i, (Vec, Agg, Obj)) for i in b.i):
        raise Gap("clone_from of structured elements")
    set_vec(c, c.args[0], vec_of(c, c.args[0]), b)


@m("~^alloc::vec::Vec::<T, A>::drain$", "~^alloc::string::String::drain$")
def vec_drain(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    n = seq_len(b)
    a, e = range_bounds(c, c.args[1], c.argtys[1], n)
    check_range(c, a, e, n)
    if isinstance(b, Seq):
        a, e = c.eng.concretize(c.st, a, n), c.eng.concretize(c.st, e, n)
        out, rest = Seq(b.i[a:e]), Seq(b.i[:a] + b.i[e:])
    else:
        out = c.eng.cut(c.st, b, a, sub(e, a))
        h, t = pieces(c, b, a, sub(e, a))
        rest = seg_norm(list(h.s) + list(t.s))
    set_vec(c, c.args[0], v, rest)
    return Obj("vecinto", new_vec(c, out), 0)


DRAIN = "<alloc::vec::drain::Drain<'_, T, A> as core::iter::traits::"
for n in ("next", "next_back"):
    models.EXACT["%s%s::%s" % (DRAIN, "iterator::Iterator>" if n == "next" else "double_ended::DoubleEndedIterator>", n)] = models.vecinto_next
models.EXACT[DRAIN + "iterator::Iterator>::size_hint"] = models.vecinto_hint


@m("<alloc::vec::drain::Drain<'_, T, A> as core::ops::drop::Drop>::drop", "~^<alloc::vec::(into_iter::IntoIter|drain::Drain)<.*> as core::iter::traits::exact_size::ExactSizeIterator>::len$")
def vecinto_end(c):
    it = deref(c, c.args[0])
    if c.f["p"].endswith("len"):
        return seq_len(content(c, it.v[0]))
    models.release_value(c.eng, c.st, it.v[0])


@m("~^<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::advance_by$")
def vecinto_advance(c):
    it = deref(c, c.args[0])
    b = content(c, it.v[0])
    n, k = c.eng.num(c.args[1]), seq_len(b)
    enough = c.eng.test(c.st, c.eng.ge(k, n))
    d = n if enough else k
    if isinstance(b, Seq):
        d = c.eng.concretize(c.st, d, len(b.i))
        for x in b.i[:d]:
            models.release_value(c.eng, c.st, x)
        new = Seq(b.i[d:])
    else:
        new = c.eng.cut(c.st, b, d, sub(k, d))
    c.st.mem[it.v[0].h] = new
    if enough:
        return ok(c)
    rest = sub(n, d)
    t = c.eng.fields(c.dty, models.ty_variant(c.eng, c.dty, "Err"))[0]
    return err(c, c.eng.wrap(t, rest))


@m("~^<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::count$")
def vecinto_count(c):
    n = seq_len(content(c, owned_it(c.args[0]).v[0]))
    return n


def owned_it(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


@m("~^alloc::vec::into_iter::IntoIter::<T(, A)?>::as_(mut_)?slice$", "~^alloc::vec::drain::Drain::<'a, T, A>::as_slice$")
def vecinto_slice(c):
    it = deref(c, c.args[0])
    return Ptr(it.v[0].h, (), 0, seq_len(content(c, it.v[0])))


@m("~^core::slice::memchr::mem(r)?chr$")
def memchr(c):
    """Position of a byte."""
    p = c.eng.as_ptr(c.args[1])
    b = bytes_at(c, p)
    x = c.eng.num(c.args[0])
    back = "memrchr" in c.f["p"]
    n = blen(b)
    if not isinstance(n, int) or n > 4096:
        raise Gap("search in a slice of unknown length")
    by = c.eng.byte_list(c.st, b)
    for i in reversed(range(n)) if back else range(n):
        if c.eng.test(c.st, c.eng.eq(c.eng.num(by[i]), x)):
            return some(c, i)
    return none(c)


# ---------------------------------------------------------------- texts
def text_ptr(c, b):
    return Ptr(c.eng.alloc(c.st, b), (), 0, blen(b))


def pattern(c, i):
    """A constant pattern: texts which match, or None when it is not known."""
    t = c.eng.T(c.argtys[i])
    v = c.args[i]
    if t["k"] == "char":
        if isinstance(v, int):
            return [chr(v)]
        raise Gap("unknown character")
    if t["k"] == "array" or (t["k"] == "ref" and c.eng.T(t["e"])["k"] in ("array", "slice") and c.eng.T(c.eng.T(t["e"])["e"])["k"] == "char"):
        s = v if isinstance(v, Seq) else container(c.eng, c.st, c.eng.as_ptr(v))
        if isinstance(s, Seq) and all(isinstance(x, int) for x in s.i):
            return [chr(x) for x in s.i]
        raise Gap("unknown characters")
    if t["k"] == "ref":
        b = const_bytes(fsmodel.text_arg(c, v) if c.eng.T(t["e"])["k"] != "str" else models.pattern_bytes(c, i))
        if b is None:
            raise Gap("search for an unknown text")
        return [b.decode("utf8", "replace")]
    raise Gap("string pattern " + t["name"])


def const_text(c, v):
    b = const_bytes(bytes_at(c, v))
    if b is None:
        raise Gap("operation on a text which is not constant")
    return b.decode("utf8", "replace")


def u8(s):
    return len(s.encode())


def str_at(c, p, a, e):
    return p.with_(off=add(p.off or 0, a), meta=e - a)


@m("~^core::str::<impl str>::(contains|find|rfind)$")
def str_find(c):
    op = c.f["p"].split("::")[-1]
    b = bytes_at(c, c.args[0])
    pats = pattern(c, 1)
    kb = const_bytes(b)
    if kb is None:
        if op == "contains":
            if all(u8(x) > 0 for x in pats):
                for n, seg in b.s:
                    if seg[0] == "c" and any(x.encode() in seg[1] for x in pats):
                        return True
            return C(("opq", "contains", repr(b), repr(pats)))
        raise Gap("search in a text which is not constant")
    s = kb.decode("utf8", "replace")
    at = [(s.find(x) if op != "rfind" else s.rfind(x)) for x in pats]
    at = [x for x in at if x >= 0]
    if op == "contains":
        return bool(at)
    if not at:
        return none(c)
    return some(c, u8(s[:min(at) if op == "find" else max(at)]))


@m("~^core::str::<impl str>::(split_at|split_at_mut)$")
def str_split_at(c):
    p = c.eng.as_ptr(c.args[0])
    n, i = p.meta, c.eng.num(c.args[1])
    if not c.eng.test(c.st, c.eng.ge(n, i)):
        raise Panic("failed to slice string")
    return Agg(c.dty, 0, [p.with_(off=p.off or 0, meta=i), p.with_(off=add(p.off or 0, i), meta=sub(n, i))])


@m("~^core::str::<impl str>::(split_once|rsplit_once)$")
def str_split_once(c):
    p = c.eng.as_ptr(c.args[0])
    s = const_text(c, p)
    back = c.f["p"].endswith("rsplit_once")
    at = [((s.rfind if back else s.find)(x), x) for x in pattern(c, 1)]
    at = [x for x in at if x[0] >= 0]
    if not at:
        return none(c)
    i, x = max(at) if back else min(at)
    t = c.eng.fields(c.dty, models.ty_variant(c.eng, c.dty, "Some"))[0]
    return some(c, Agg(t, 0, [str_at(c, p, 0, u8(s[:i])), str_at(c, p, u8(s[:i + len(x)]), u8(s))]))


@m("~^core::str::<impl str>::(split|rsplit|lines|split_whitespace|split_terminator|splitn|chars|char_indices|split_inclusive)$")
def str_parts(c):
    """Iterators over the parts of a text: all of the parts are found at once."""
    op = c.f["p"].split("::")[-1]
    p = c.eng.as_ptr(c.args[0])
    s = const_text(c, p)
    if op == "chars":
        return Obj("parts", tuple(ord(x) for x in s))
    if op == "char_indices":
        return Obj("parts", tuple((u8(s[:i]), ord(x)) for i, x in enumerate(s)))
    if op == "lines":
        cuts = [(a.start(), a.end()) for a in re.finditer("\r?\n", s)]
    elif op == "split_whitespace":
        return Obj("parts", tuple(str_at(c, p, u8(s[:a.start()]), u8(s[:a.end()])) for a in re.finditer("\\S+", s)))
    else:
        pats = pattern(c, 2 if op == "splitn" else 1)
        cuts = [(a.start(), a.end()) for a in re.finditer("|".join(re.escape(x) for x in pats), s)]
    if op == "splitn":
        n = c.eng.num(c.args[1])
        if n == 0:
            return Obj("parts", ())
        cuts = cuts[:n - 1]
    out, at = [], 0
    for a, e in cuts:
        out.append((at, e if op == "split_inclusive" else a))
        at = e
    if not (op in ("lines", "split_terminator", "split_inclusive") and at == len(s)):
        out.append((at, len(s)))
    if op == "rsplit":
        out.reverse()
    return Obj("parts", tuple(str_at(c, p, u8(s[:a]), u8(s[:e])) for a, e in out))


STRITER = "~^<core::str::(iter::)?(Split|RSplit|Lines|SplitWhitespace|SplitTerminator|SplitN|Chars|CharIndices|SplitInclusive|LinesMap)<.*> as core::iter::traits::"


def parts_of(c):
    it = owned_it(deref(c, c.args[0]) if c.eng.T(c.argtys[0])["k"] == "ref" else c.args[0])
    if not (isinstance(it, Obj) and it.k == "parts"):
        raise Gap("iterator %r" % (it,))
    return it.v[0]


@m(STRITER + "(iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back|last|count|size_hint|nth)$",
   STRITER + "exact_size::ExactSizeIterator>::len$", "<std::path::Components<'a> as core::iter::traits::iterator::Iterator>::next",
   "<std::path::Components<'a> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
   "~^<std::path::(Ancestors|Iter)<'a> as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::next(_back)?$")
def parts_next(c):
    op = c.f["p"].split("::")[-1]
    xs = parts_of(c)
    if op in ("count", "len"):
        return len(xs)
    if op == "size_hint":
        t = c.eng.fields(c.dty)
        return Agg(c.dty, 0, [len(xs), mk(c.eng, t[1], "Some", len(xs))])
    if op == "nth":
        k = c.eng.num(c.args[1])
        xs = xs[k:]
        op = "next"
    if op == "last":
        xs = xs[-1:]
        op = "next_back"
    back = op == "next_back"
    if c.eng.T(c.argtys[0])["k"] == "ref":
        p = c.eng.as_ptr(c.args[0])
        c.eng.store(c.st, p, c.eng.T(c.argtys[0])["e"], Obj("parts", xs[:-1] if back else xs[1:]))
    if not xs:
        return none(c)
    x = xs[-1 if back else 0]
    if isinstance(x, tuple):
        x = Agg(c.eng.fields(c.dty, models.ty_variant(c.eng, c.dty, "Some"))[0], 0, list(x))
    elif callable(x):
        x = x(c)
    return some(c, x)


@m("~^alloc::str::<impl str>::(replace|replacen|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|repeat)$")
def str_replace(c):
    op = c.f["p"].split("::")[-1]
    s = const_text(c, c.args[0])
    if op == "repeat":
        n = c.eng.num(c.args[1])
        if not isinstance(n, int) or n * len(s) > 1 << 20:
            raise Gap("repetition")
        s = s * n
    elif op in ("replace", "replacen"):
        to = const_text(c, c.args[2])
        n = c.eng.num(c.args[3]) if op == "replacen" else -1
        r = "|".join(re.escape(x) for x in pattern(c, 1))
        s = re.sub(r, lambda _: to, s, count=max(n, 0)) if n != 0 else s
    else:
        s = s.lower() if "lower" in op else s.upper()
    return new_vec(c, lit(s.encode()))


@m("~^core::str::<impl str>::eq_ignore_ascii_case$")
def str_eq_nocase(c):
    a, b = bytes_at(c, c.args[0]), bytes_at(c, c.args[1])
    ka, kb = const_bytes(a), const_bytes(b)
    if ka is not None and kb is not None:
        return ka.lower() == kb.lower()
    return C(("opq", "nocase", repr(a), repr(b)))


@m("~^core::str::<impl str>::(is_char_boundary|is_ascii)$")
def str_boundary(c):
    b = bytes_at(c, c.args[0])
    kb = const_bytes(b)
    if c.f["p"].endswith("is_ascii"):
        return all(x < 128 for x in kb) if kb is not None else C(("opq", "ascii", repr(b)))
    i = c.eng.num(c.args[1])
    if kb is None or not isinstance(i, int):
        return C(("opq", "boundary", repr(b), repr(i)))
    return i == 0 or i == len(kb) or (i < len(kb) and not 0x80 <= kb[i] < 0xc0)


@m("~^core::str::<impl str>::(get|get_mut)$")
def str_get(c):
    p = c.eng.as_ptr(c.args[0])
    a, e = range_bounds(c, c.args[1], c.argtys[1], p.meta)
    if not c.eng.test(c.st, c.eng.ge(e, a)) or not c.eng.test(c.st, c.eng.ge(p.meta, e)):
        return none(c)
    return some(c, p.with_(off=add(p.off or 0, a), meta=sub(e, a)))


def order(c, a, b):
    """-1, 0 or 1 for two texts."""
    ka, kb = const_bytes(a), const_bytes(b)
    if ka is not None and kb is not None:
        return (ka > kb) - (ka < kb)
    if c.eng.test(c.st, bytes_eq_cond(c, a, b)):
        return 0
    return 1 if c.eng.test(c.st, C(("opq", "textorder", repr(a), repr(b)))) else -1


def ordering(c, ty, k):
    return Agg(ty, k + 1, ())


@m("~^core::str::traits::<impl core::cmp::(PartialOrd|Ord) for str>::(partial_cmp|cmp|lt|le|gt|ge)$", "~^<alloc::string::String as core::cmp::(PartialOrd|Ord)>::(partial_cmp|cmp|lt|le|gt|ge)$",
   "~^<std::path::(Path|PathBuf) as core::cmp::(PartialOrd|Ord)>::(partial_cmp|cmp|lt|le|gt|ge)$")
def str_cmp(c):
    op = c.f["p"].split("::")[-1]
    a, b = fsmodel.text_arg(c, c.args[0]), fsmodel.text_arg(c, c.args[1])
    if "path" in c.f["p"]:
        k = fsmodel.parts(fsmodel.norm(fsmodel.const(a))), fsmodel.parts(fsmodel.norm(fsmodel.const(b)))
        k = (k[0] > k[1]) - (k[0] < k[1])
    else:
        k = order(c, a, b)
    if op == "cmp":
        return ordering(c, c.dty, k)
    if op == "partial_cmp":
        return some(c, ordering(c, c.eng.fields(c.dty, models.ty_variant(c.eng, c.dty, "Some"))[0], k))
    return {"lt": k < 0, "le": k <= 0, "gt": k > 0, "ge": k >= 0}[op]


@m("~^core::str::<impl str>::parse$")
def str_parse(c):
    s = const_text(c, c.args[0])
    t = c.eng.fields(c.dty, 0)[0]
    x = c.eng.T(t)
    if x["k"] in ("uint", "int"):
        if re.fullmatch(r"\+?[0-9]+" if x["k"] == "uint" else r"[+-]?[0-9]+", s):
            v = int(s)
            if (0 if x["k"] == "uint" else -(1 << x["bits"] - 1)) <= v < (1 << x["bits"] - (x["k"] == "int")):
                return ok(c, v)
        return err(c, Obj("parseerror"))
    if x["k"] == "bool" and s in ("true", "false"):
        return ok(c, s == "true")
    raise Gap("parse to " + x["name"])


@m("~^alloc::string::String::(insert|insert_str)$")
def string_insert(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    i = c.eng.num(c.args[1])
    if not c.eng.test(c.st, c.eng.ge(blen(b), i)):
        raise Panic("insertion index out of bounds")
    x = c.args[2]
    if c.f["p"].endswith("insert"):
        if not isinstance(x, int):
            raise Gap("unknown character")
        x = lit(chr(x).encode())
    else:
        x = bytes_at(c, x)
    h, t = pieces(c, b, i)
    set_vec(c, c.args[0], v, seg_norm(list(h.s) + list(x.s) + list(t.s)))


@m("~^alloc::string::String::(pop|remove)$")
def string_pop(c):
    v = vec_of(c, c.args[0])
    kb = const_bytes(content(c, v))
    if kb is None:
        raise Gap("operation on a text which is not constant")
    s = kb.decode("utf8", "replace")
    if c.f["p"].endswith("remove"):
        i = len(kb[:c.eng.num(c.args[1])].decode())
        if i >= len(s):
            raise Panic("cannot remove a char from the end of a string")
        set_vec(c, c.args[0], v, lit((s[:i] + s[i + 1:]).encode()))
        return ord(s[i])
    if not s:
        return none(c)
    set_vec(c, c.args[0], v, lit(s[:-1].encode()))
    return some(c, ord(s[-1]))


@m("~^<alloc::string::String as core::fmt::Write>::write_char$")
def string_write_char(c):
    v = vec_of(c, c.args[0])
    if not isinstance(c.args[1], int):
        raise Gap("unknown character")
    set_vec(c, c.args[0], v, seg_norm(list(content(c, v).s) + list(lit(chr(c.args[1]).encode()).s)))
    return ok(c)


@m("<alloc::string::String as core::fmt::Write>::write_str", "~^core::fmt::Write::write_fmt$", "~^<W as core::fmt::write::SpecWriteFmt>::spec_write_fmt$",
   "~^<&mut W as core::fmt::Write>::write_(str|fmt)$")
def string_write(c):
    t = c.eng.T(c.argtys[0])
    n = 0
    p = c.args[0]
    while t["k"] == "ref" and c.eng.T(t["e"])["k"] == "ref":
        p = c.eng.load(c.st, c.eng.as_ptr(p), t["e"])
        t = c.eng.T(t["e"])
    v = owned_it(deref(c, p))
    if not isinstance(v, Vec):
        raise Gap("formatting into %r" % (v,))
    new = bytes_at(c, c.args[1]) if c.f["p"].endswith("write_str") else models.fmt_bytes(c, c.args[1])
    b = seg_norm(list(content(c, v).s) + list(new.s))
    h = c.eng.alloc(c.st, b)
    c.st.mem.pop(v.h, None)
    c.eng.store(c.st, c.eng.as_ptr(p), t["e"], Vec(h))
    return ok(c)


# ---------------------------------------------------------------- paths
@m("~^std::path::Component::<'a>::as_os_str$")
def component_as_os_str(c):
    v = c.args[0]
    n = c.eng.T(v.ty)["v"][v.var]["n"]
    if n == "Normal":
        return v.f[0]
    return text_ptr(c, lit({"RootDir": b"/", "CurDir": b".", "ParentDir": b".."}[n]))


@m("std::path::Path::components", "std::path::Path::iter", "std::path::Path::ancestors")
def path_components(c):
    s = fsmodel.norm(fsmodel.const(fsmodel.text_arg(c, c.args[0])))
    op = c.f["p"].split("::")[-1]
    if op == "ancestors":
        out, t = [], s
        while True:
            out.append(t)
            if not t.strip(b"/"):
                break
            t = fsmodel.parent(t)
        return Obj("parts", tuple(text_ptr(c, lit(fsmodel_bytes(x))) for x in out))
    ps = fsmodel.parts(s)
    if op == "iter":
        return Obj("parts", tuple(text_ptr(c, lit(fsmodel_bytes(x))) for x in ps))

    def comp(x):
        def make(c2):
            ty = c2.eng.fields(c2.dty, models.ty_variant(c2.eng, c2.dty, "Some"))[0]
            t = x if isinstance(x, bytes) else x.encode()
            n = {b"/": "RootDir", b"": "RootDir", b".": "CurDir", b"..": "ParentDir"}.get(t)
            if n:
                return mk(c2.eng, ty, n)
            return mk(c2.eng, ty, "Normal", text_ptr(c2, lit(t)))
        return make
    return Obj("parts", tuple(comp(x) for x in ps))


def fsmodel_bytes(x):
    return x if isinstance(x, bytes) else x.encode()


# ---------------------------------------------------------------- weak pointers and the like
@m("~^alloc::rcs?::(rc::Rc|sync::Arc)::<T, A>::downgrade$")
def rc_downgrade(c):
    return Obj("weak", models.rc_of(c, c.args[0]).v[0])


def weak_of(c):
    w = owned_it(deref(c, c.args[0]))
    if not (isinstance(w, Obj) and w.k == "weak"):
        raise Gap("not a weak pointer: %r" % (w,))
    return w


@m("~^alloc::rcs?::(rc|sync)::Weak::<T, A>::(upgrade|strong_count)$")
def weak_upgrade(c):
    w = weak_of(c)
    k = ("rc", w.v[0].base) if w.v[0] is not None else None
    n = c.st.mem.get(k, 0) if k else 0
    if c.f["p"].endswith("count"):
        return n
    if not n:
        return none(c)
    c.st.mem[k] = n + 1
    return some(c, Obj("rc", w.v[0]))


@m("~^alloc::rcs?::(rc|sync)::Weak::<T>::new$")
def weak_new(c):
    return Obj("weak", None)


@m("~^<alloc::rcs?::(rc|sync)::Weak<T, A> as core::clone::Clone>::clone$")
def weak_clone(c):
    return weak_of(c)


@m("~^alloc::rcs?::(rc::Rc|sync::Arc)::<T, A>::make_mut$")
def rc_make_mut(c):
    r = models.rc_of(c, c.args[0])
    if models.rc_owners(c, r) != 1:
        raise Gap("copy of shared data")
    return r.v[0]


@m("~^<alloc::rcs?::(rc::Rc|sync::Arc)<\\[T\\](, A)?> as core::convert::From<(alloc::vec::Vec<T, A>|&\\[T\\])>>::from$",
   "~^<alloc::rcs?::(rc::Rc|sync::Arc)<str(, A)?> as core::convert::From<(alloc::string::String|&str)>>::from$")
def rc_from_vec(c):
    v = owned_it(c.args[0])
    b = content(c, v) if isinstance(v, Vec) else bytes_at(c, v)
    r = models.new_rc(c, b)
    return Obj("rc", r.v[0].with_(off=0, meta=seq_len(b)))


models.MODELLED_DROPS += ("alloc::rcs::rc::Weak", "alloc::rcs::sync::Weak", "alloc::rcs::sync::Arc", "core::num::error::ParseIntError")


# ---------------------------------------------------------------- sets of the hash kind
SET = "std::collections::hash::set::HashSet"


@m("~^" + SET + "::<T(, .*)?>::(new|with_capacity)$", "~^<" + SET + "<T, .*> as core::default::Default>::default$")
def set_new(c):
    return fsmodel.map_new(c)


@m("~^" + SET + "::<T, S(, A)?>::insert$")
def set_insert(c):
    h = fsmodel.map_of(c)
    key = fsmodel.map_key(c, 1)
    if fsmodel.map_find(c, h, key) is not None:
        models.release_value(c.eng, c.st, c.args[1])
        return False
    b = c.eng.alloc(c.st, c.eng.unit())
    c.st.mem[h] += ((key, c.args[1], b),)
    return True


@m("~^" + SET + "::<T, S(, A)?>::contains$")
def set_contains(c):
    return fsmodel.map_contains(c)


@m("~^" + SET + "::<T, S(, A)?>::remove$")
def set_remove(c):
    h = fsmodel.map_of(c)
    i = fsmodel.map_find(c, h, fsmodel.map_key(c, 1))
    if i is None:
        return False
    es = c.st.mem[h]
    c.st.mem[h] = es[:i] + es[i + 1:]
    models.release_value(c.eng, c.st, es[i][1])
    return True


@m("~^" + SET + "::<T, S(, A)?>::(len|is_empty|clear)$")
def set_len(c):
    return fsmodel.map_clear(c) if c.f["p"].endswith("clear") else fsmodel.map_len(c)


models.MODELLED_DROPS += (SET,)
