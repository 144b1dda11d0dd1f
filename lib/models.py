"""Contracts of the library functions the analysis does not look into."""
import re
from terms import *
from engine import (Gap, Panic, Viol, Infeasible, C, Agg, Seq, Bytes, Ptr, UNDEF, Fn, Vec, Obj, PUSHED, Call,
                    seg_norm, blen, lit, src_bytes, const_bytes)

EXACT = {}
PATTERNS = []


def m(*names):
    def d(f):
        for n in names:
            if n.startswith("~"):
                PATTERNS.append((re.compile(n[1:]), f))
            else:
                EXACT[n] = f
        return f
    return d


_cache = {}


def lookup(eng, f):
    p = f["p"]
    if f["kind"] in ("dropglue",):
        return None
    if p in _cache:
        return _cache[p]
    h = EXACT.get(p)
    if h is None:
        for r, g in PATTERNS:
            if r.search(p):
                h = g
                break
    _cache[p] = h
    return h


# ---------------------------------------------------------------- helpers
def ty_variant(eng, ty, name):
    for i, v in enumerate(eng.T(ty)["v"]):
        if v["n"] == name:
            return i
    raise Gap("no variant %s in %s" % (name, eng.T(ty)["name"]))


def mk(eng, ty, name, *f):
    return Agg(ty, ty_variant(eng, ty, name), f)


def ok(c, v=None):
    return mk(c.eng, c.dty, "Ok", c.eng.unit() if v is None else v)


def err(c, e):
    return mk(c.eng, c.dty, "Err", e)


def some(c, v, ty=None):
    return mk(c.eng, c.dty if ty is None else ty, "Some", v)


def none(c, ty=None):
    return mk(c.eng, c.dty if ty is None else ty, "None")


def deref(c, v, ty=None):
    """Value behind a reference argument."""
    p = c.eng.as_ptr(v)
    x = c.eng.get_path(c.eng.base_value(c.st, p.base), p.path)
    if isinstance(x, Seq) and p.off is not None and p.meta is None:
        x = x.i[p.off]
    return x


def ref_load(c, i):
    """Load through the i-th argument using its static type."""
    t = c.eng.T(c.argtys[i])
    return c.eng.load(c.st, c.eng.as_ptr(c.args[i]), t["e"])


def bytes_at(c, p):
    """Content of a byte slice or str reference."""
    p = c.eng.as_ptr(p)
    if p.meta == 0 and isinstance(p.meta, int):
        return Bytes(())
    v = c.eng.get_path(c.eng.base_value(c.st, p.base), p.path)
    if isinstance(v, Bytes):
        n = p.meta if p.meta is not None else blen(v)
        return c.eng.cut(c.st, v, p.off or 0, n)
    if isinstance(v, Vec):
        v = c.st.mem.get(v.h)
        if isinstance(v, Bytes):
            return v
    if isinstance(v, Agg):
        w = c.eng.only_part(v)
        if isinstance(w, Bytes):
            return c.eng.cut(c.st, w, p.off or 0, blen(w) if p.meta is None else p.meta)
        if isinstance(v.f[0], (Ptr, Vec)) and v.ty is not None and c.eng.T(v.ty).get("p") == "alloc::borrow::Cow":
            return content(c, v.f[0]) if isinstance(v.f[0], Vec) else bytes_at(c, v.f[0])
    raise Gap("bytes behind %r" % (v,))


def new_vec(c, content):
    return Vec(c.eng.alloc(c.st, content))


def vec_of(c, v):
    x = deref(c, v)
    while isinstance(x, Agg):
        x = c.eng.unwrap(x) if len(x.f) != 1 else x.f[0]
    if not isinstance(x, Vec):
        raise Gap("not a Vec: %r" % (x,))
    return x


def content(c, vec):
    v = c.st.mem.get(vec.h)
    if v is None:
        raise Viol("use of a freed vector")
    return v


def set_vec(c, ref, vec, new):
    """Replace the content; the buffer may move."""
    h = c.eng.alloc(c.st, new)
    c.st.mem.pop(vec.h, None)
    p = c.eng.as_ptr(ref)
    c.eng.store(c.st, p, vec_ty(c, ref), Vec(h))


def vec_ty(c, ref):
    for a, t in zip(c.args, c.argtys):
        if a is ref:
            return c.eng.T(t)["e"]
    raise Gap("vector type")


def seq_len(v):
    if isinstance(v, Obj): raise Gap("length of %r" % (v,))
    return blen(v) if isinstance(v, Bytes) else len(v.i)


def slice_ptr(c, vec, ty=None):
    v = content(c, vec)
    if isinstance(v, Obj) and v.k == "opaque":
        return Ptr(vec.h, (), 0, symbol(("oplen", vec.h), 1 << 40))
    return Ptr(vec.h, (), 0, seq_len(v))


def elem_is_byte(c, ty):
    return c.eng.is_bytelike(ty)


def new_rc(c, value, ty=None):
    b = c.eng.alloc(c.st, value, ty)
    c.st.mem[("rc", b)] = 1
    return Obj("rc", Ptr(b))


def find_name(eng, rx):
    r = re.compile(rx)
    return eng.find_type(lambda t: bool(r.search(t["name"])))


# ---------------------------------------------------------------- integers and memory
@m("~^core::num::<impl [ui](8|16|32|64|128|size)>::(from_le|to_le)$")
def le(c):
    return swap(c) if c.eng.endian == "big" else c.args[0]


@m("~^core::num::<impl [ui](8|16|32|64|128|size)>::(from_be|to_be)$")
def be(c):
    return swap(c) if c.eng.endian == "little" else c.args[0]


@m("~^core::num::<impl [ui](8|16|32|64|128|size)>::swap_bytes$", "core::intrinsics::bswap")
def swap(c):
    b = c.eng.bits(c.st, c.args[0], c.eng.width(c.dty))
    by = [b[i:i + 8] for i in range(0, len(b), 8)]
    return c.eng.from_bits(tuple(x for q in reversed(by) for x in q), c.dty)


def int_to_bytes(c, v, ty, order):
    b = c.eng.bits(c.st, v, c.eng.width(ty))
    by = [c.eng.byte(b[i:i + 8]) for i in range(0, len(b), 8)]
    if order == "big":
        by.reverse()
    return seg_norm([(1, ("b", (q,))) for q in by])


def bytes_to_int(c, b, ty, order):
    by = c.eng.byte_list(c.st, b)
    if order == "big":
        by = by[::-1]
    bits = ()
    for q in by:
        bits += c.eng.bits(c.st, q, 8)
    return c.eng.from_bits(bits, ty)


@m("~^core::num::<impl [ui](8|16|32|64|128|size)>::to_(le|be|ne)_bytes$")
def to_xe_bytes(c):
    o = c.f["p"][-8:-6]
    o = {"le": "little", "be": "big", "ne": c.eng.endian}[o]
    return int_to_bytes(c, c.args[0], c.argtys[0], o)


@m("~^core::num::<impl [ui](8|16|32|64|128|size)>::from_(le|be|ne)_bytes$")
def from_xe_bytes(c):
    o = c.f["p"][-8:-6]
    o = {"le": "little", "be": "big", "ne": c.eng.endian}[o]
    return bytes_to_int(c, c.args[0], c.dty, o)


@m("core::intrinsics::saturating_add")
def sat_add(c):
    w = c.eng.width(c.dty)
    r = add(c.eng.num(c.args[0]), c.eng.num(c.args[1]))
    hi = (1 << w) - 1
    return r if c.eng.test(c.st, c.eng.ge(hi, r)) else hi


@m("core::intrinsics::saturating_sub")
def sat_sub(c):
    r = sub(c.eng.num(c.args[0]), c.eng.num(c.args[1]))
    return r if c.eng.test(c.st, c.eng.ge(r, 0)) else 0


@m("~^core::intrinsics::wrapping_(add|sub|mul)$")
def wrapping(c):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.f["p"][-3:]]
    return c.eng.binop(c.st, op, c.args[0], c.args[1], c.argtys[0], c.dty)


@m("core::intrinsics::integer_min", "core::intrinsics::integer_max")
def integer_min_max(c):
    if c.eng.signed(c.dty):
        a, b = c.args
        less = c.eng.test(c.st, c.eng.to_cond(c.eng.compare(c.st, "Le", a, b, c.dty, None)))
    else:
        a, b = c.eng.num(c.args[0]), c.eng.num(c.args[1])
        less = c.eng.test(c.st, c.eng.ge(b, a))
    return a if less == c.f["p"].endswith("min") else b


@m("core::intrinsics::ctpop")
def ctpop(c):
    if isinstance(c.args[0], int):
        return bin(c.args[0]).count("1")
    return c.eng.fresh(c.st, "ctpop", 64)


@m("~^core::intrinsics::(copy|copy_nonoverlapping)$", "~^core::ptr::(copy|copy_nonoverlapping)$")
def copy(c):
    copy_bytes(c.eng, c.st, c.args[0], c.args[1], c.eng.num(c.args[2]), c.eng.T(c.argtys[0])["e"],
               "nonoverlapping" in c.f["p"])


def copy_bytes(eng, st, src, dst, n, ety, nonoverlap=True):
    size = eng.size_of(ety)
    src, dst = eng.as_ptr(src), eng.as_ptr(dst)
    nb = mul(n, size)
    if nb == 0:
        return
    sv = container(eng, st, src)
    if isinstance(sv, Seq) and not isinstance(container(eng, st, dst), Bytes):
        if not isinstance(n, int):
            raise Gap("copy of elements")
        for i in range(n):
            v = eng.load(st, src.with_(off=add(src.off or 0, i)), ety)
            eng.store(st, dst.with_(off=add(dst.off or 0, i)), ety, v)
        return
    if nonoverlap and src.base == dst.base and src.path == dst.path:
        a, b = src.off or 0, dst.off or 0
        if not (eng.test(st, eng.ge(b, add(a, nb))) or eng.test(st, eng.ge(a, add(b, nb)))):
            raise Viol("copy between overlapping memory")
    if size != 1 and isinstance(n, int) and n == 1:
        v = eng.load(st, src, ety)
        eng.store(st, dst, ety, v)
        return
    data = read_raw(eng, st, src, nb)
    write_raw(eng, st, dst, data)


def container(eng, st, p):
    return eng.get_path(eng.base_value(st, p.base), p.path)


def read_raw(eng, st, p, n):
    v = container(eng, st, p)
    if isinstance(v, Bytes):
        return eng.cut(st, v, p.off or 0, n)
    t = eng.slot_type(st, p)
    if t is None:
        raise Gap("raw read")
    if v is UNDEF:
        v = src_bytes(("undef", st.n), eng.size_of(t))
    return eng.cut(st, eng.to_bytes(st, v, t), p.off or 0, n)


def write_raw(eng, st, p, data):
    root = eng.base_value(st, p.base)
    v = eng.get_path_or_undef(root, p.path)
    if p.base[0] == "a":
        raise Viol("store into constant memory")
    t = eng.slot_type(st, p)
    if isinstance(v, Bytes):
        new = eng.replace(st, v, p.off or 0, data)
    else:
        if t is None:
            raise Gap("raw write")
        b = src_bytes(("undef", st.n), eng.size_of(t)) if v is UNDEF else eng.to_bytes(st, v, t)
        new = eng.from_bytes(st, eng.replace(st, b, p.off or 0, data), t)
    bt = eng.slot_base_type(st, p)
    st.mem[p.base] = eng.set_path(root, p.path, new, (bt,) if bt is not None else None)


@m("core::intrinsics::write_bytes", "core::ptr::write_bytes", "~^core::ptr::mut_ptr::<impl \\*mut T>::write_bytes$")
def write_bytes(c):
    n = mul(c.eng.num(c.args[2]), c.eng.size_of(c.eng.T(c.argtys[0])["e"]))
    write_raw(c.eng, c.st, c.eng.as_ptr(c.args[0]), seg_norm([(n, ("f", c.args[1]))]))


@m("~^core::ptr::(read|read_unaligned|read_volatile)$", "core::intrinsics::read_via_copy",
   "~^core::ptr::(const_ptr|mut_ptr)::<impl \\*(const|mut) T>::(read|read_unaligned)$")
def ptr_read(c):
    if not c.f["p"].endswith("unaligned"):
        c.eng.aligned(c.st, c.eng.as_ptr(c.args[0]), c.dty)
    return c.eng.load(c.st, c.eng.as_ptr(c.args[0]), c.dty)


@m("~^core::ptr::(write|write_unaligned|write_volatile)$", "core::intrinsics::write_via_move",
   "~^core::ptr::mut_ptr::<impl \\*mut T>::(write|write_unaligned)$")
def ptr_write(c):
    if not c.f["p"].endswith("unaligned"):
        c.eng.aligned(c.st, c.eng.as_ptr(c.args[0]), c.argtys[1])
    c.eng.store(c.st, c.eng.as_ptr(c.args[0]), c.argtys[1], c.args[1])


@m("~^core::mem::(forget)$", "~^core::mem::manually_drop::ManuallyDrop::<T>::drop$")
def forget(c):
    return None


@m("~^core::ptr::(const_ptr|mut_ptr)::<impl \\*(const|mut) T>::is_null$")
def is_null(c):
    p = c.eng.as_ptr(c.args[0])
    return p.base == ("null", 0) or p.base[0] == "null" and p.base[1] == 0


@m("core::intrinsics::cold_path", "core::intrinsics::assume", "core::hint::assert_unchecked",
   "~^core::intrinsics::assert_", "~^core::hint::(black_box|spin_loop)$", "core::intrinsics::forget")
def nothing(c):
    return None


@m("~^core::intrinsics::(likely|unlikely|black_box)$", "~^core::hint::(likely|unlikely)$")
def ident(c):
    return c.args[0]


@m("core::intrinsics::discriminant_value")
def discriminant_value(c):
    v = ref_load(c, 0)
    return c.eng.discr(v, c.eng.T(c.argtys[0])["e"])


@m("core::intrinsics::size_of_val")
def size_of_val(c):
    t = c.eng.T(c.argtys[0])["e"]
    x = c.eng.T(t)
    if x["k"] == "slice":
        return mul(c.eng.as_ptr(c.args[0]).meta, c.eng.size_of(x["e"]))
    if x["k"] == "str":
        return c.eng.as_ptr(c.args[0]).meta
    return c.eng.size_of(t)


@m("core::intrinsics::is_val_statically_known")
def known(c):
    return False


@m("core::intrinsics::abort")
def abort(c):
    raise Panic("abort")


# ---------------------------------------------------------------- panics
def message(c):
    for a in c.args:
        if isinstance(a, Ptr) and a.meta is not None:
            try:
                b = const_bytes(bytes_at(c, a))
                if b is not None:
                    return b.decode("utf8", "replace")
            except (Gap, Viol):
                pass
        if isinstance(a, Obj) and a.k == "fmt":
            return text_of(fmt_bytes(c, a))
    return c.f["p"]


def text_of(b):
    out = ""
    for n, x in b.s:
        if x[0] == "c":
            out += x[1].decode("utf8", "replace")
        else:
            out += "{%s}" % (x[1] if len(x) > 1 else x[0],)
    return out


@m("~^core::panicking::", "~^std::panicking::(begin_panic|begin_panic_fmt|panic)", "~^std::rt::(begin_panic|panic_fmt)",
   "~^core::slice::index::.*_fail", "~^core::option::(unwrap_failed|expect_failed)$", "~^core::result::unwrap_failed$",
   "~^core::cell::panic_", "~^core::str::slice_error_fail", "~^alloc::raw_vec::(capacity_overflow|handle_error)",
   "~^core::slice::copy_from_slice_impl::len_mismatch_fail", "~len_mismatch_fail", "~^std::process::(abort|exit)$")
def panics(c):
    raise Panic(message(c))


@m("std::thread::functions::panicking", "std::thread::panicking")
def panicking(c):
    return bool(c.st.ghost.get("panicking"))


# ---------------------------------------------------------------- formatting and strings
@m("~^core::fmt::Arguments::<'a>::new(_v1|_const|_v1_formatted)?$", "~^core::fmt::rt::<impl core::fmt::Arguments<'a>>::new")
def fmt_new(c):
    return Obj("fmt", *c.args)


@m("~^core::fmt::Arguments::<'a>::from_str", "~^core::fmt::rt::<impl core::fmt::Arguments<'_>>::from_str")
def fmt_from_str(c):
    return Obj("fmtstr", bytes_at(c, c.args[0]))


@m("~^core::fmt::rt::Argument::<'_>::new_")
def fmt_arg(c):
    kind = c.f["p"].rsplit("new_", 1)[1]
    t = c.eng.T(c.argtys[0])["e"]
    return Obj("fmtarg", kind, display(c, kind, c.args[0], t))


@m("~^core::fmt::rt::Argument::<'_>::from_usize")
def fmt_arg_usize(c):
    return Obj("fmtarg", "usize", Bytes(()))


def display(c, kind, ptr, t):
    """Text of a displayed value, as bytes."""
    x = c.eng.T(t)
    depth = 0
    p = c.eng.as_ptr(ptr)
    while x["k"] in ("ref", "ptr") and depth < 8:
        p = c.eng.as_ptr(c.eng.load(c.st, p, t))
        t = x["e"]
        x = c.eng.T(t)
        depth += 1
    if kind == "display":
        if x["k"] == "str":
            return bytes_at(c, p)
        if x["k"] == "adt" and x["p"] == "alloc::string::String":
            return content(c, vec_of(c, p))
        if x["k"] == "adt" and x["p"] == "core::fmt::Arguments":
            return fmt_bytes(c, c.eng.load(c.st, p, t))
        v = None
        if x["k"] in ("adt", "int", "char", "bool"):
            v = c.eng.load(c.st, p, t)
            if isinstance(v, Obj) and v.k == "display":
                return bytes_at(c, v.v[0])
            if x["k"] == "adt" and x["p"] == "alloc::borrow::Cow" and isinstance(v, Agg):
                f = v.f[0]
                return content(c, f) if isinstance(f, Vec) else bytes_at(c, f)
            if x["k"] == "int" and isinstance(v, int):
                return lit(str(v).encode())
            if x["k"] == "bool" and isinstance(v, bool):
                return lit(b"true" if v else b"false")
            if x["k"] == "char" and isinstance(v, int):
                return lit(chr(v).encode())
        if x["k"] == "uint":
            v = c.eng.load(c.st, p, t)
            if isinstance(v, int):
                return lit(str(v).encode())
            k = c.eng.num(v)
            return src_bytes(("dec", k), symbol(("declen", k), 20))
    c.st.n += 1
    return src_bytes(("text", c.st.n), symbol(("textlen", c.st.n), 1 << 40))


def fmt_bytes(c, a):
    if a.k == "fmtstr":
        return a.v[0]
    if len(a.v) < 2:
        raise Gap("format arguments")
    tp = c.eng.as_ptr(a.v[0])
    al = c.eng.d["allocs"].get(str(tp.base[1])) if tp.base[0] == "a" else None
    if al is None:
        raise Gap("format template")
    raw = bytes.fromhex(al["b"])[tp.off or 0:]
    argv = deref(c, a.v[1])
    if not isinstance(argv, Seq):
        raise Gap("format arguments %r" % (argv,))
    segs = []
    i = 0
    nxt = 0
    while True:
        b = raw[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            segs += list(lit(raw[i:i + b]).s)
            i += b
        elif b == 0x80:
            n = raw[i] | raw[i + 1] << 8
            i += 2
            segs += list(lit(raw[i:i + n]).s)
            i += n
        else:
            fl = b & 0x3f
            plain = True
            if fl & 1:
                i += 4
                plain = False
            if fl & 2:
                i += 2
                plain = False
            if fl & 4:
                i += 2
                plain = False
            if fl & 8:
                nxt = raw[i] | raw[i + 1] << 8
                i += 2
            arg = argv.i[nxt]
            nxt += 1
            while isinstance(arg, Agg) and arg.f:
                arg = arg.f[0]
            if not plain:
                c.st.n += 1
                segs += list(src_bytes(("text", c.st.n), symbol(("textlen", c.st.n), 1 << 40)).s)
            else:
                segs += list(arg.v[1].s)
    return seg_norm(segs)


@m("alloc::fmt::format", "~^alloc::fmt::format::format_inner")
def fmt_format(c):
    return new_vec(c, fmt_bytes(c, c.args[0]))


@m("~^core::fmt::Formatter::<'a>::write_(fmt|str)$", "~^<.* as core::fmt::(Debug|Display|Write)>::", "~^core::fmt::")
def fmt_any(c):
    if c.eng.T(c.dty)["k"] == "adt" and c.eng.T(c.dty)["p"] == "core::result::Result":
        return ok(c)
    raise Gap("formatting: " + c.f["p"])


@m("<alloc::string::String as core::convert::From<&str>>::from", "~^alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned$",
   "~^<str as alloc::string::(ToString|SpecToString)>::", "~^alloc::slice::<impl .*ToOwned for \\[T\\]>::to_owned$",
   "~^alloc::slice::<impl \\[T\\]>::to_vec", "~^<alloc::string::String as core::convert::From<&mut str>>::from",
   "~^alloc::str::<impl .*>::to_owned", "~^alloc::str::<impl str>::into_string",
   "~^<alloc::vec::Vec<T> as core::convert::From<&(mut )?\\[T(; N)?\\]>>::from")
def string_from(c):
    v = c.eng.as_ptr(c.args[0])
    x = container(c.eng, c.st, v) if v.base[0] != "null" else Bytes(())
    if isinstance(x, Seq):
        return new_vec(c, Seq(x.i[v.off or 0:(v.off or 0) + (v.meta if v.meta is not None else len(x.i))]))
    return new_vec(c, bytes_at(c, v))


@m("~^<T as alloc::string::ToString>::to_string$", "~ as alloc::string::SpecToString>::spec_to_string$")
def to_string(c):
    return new_vec(c, display(c, "display", c.args[0], c.eng.T(c.argtys[0])["e"]))


@m("<alloc::string::String as core::clone::Clone>::clone", "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone")
def vec_clone(c):
    v = content(c, vec_of(c, c.args[0]))
    if isinstance(v, Seq):
        for x in v.i:
            if isinstance(x, (Vec,)) or isinstance(x, Obj) and x.k in ("rc", "mmap", "file"):
                raise Gap("clone of elements")
    return new_vec(c, v)


@m("~^<alloc::string::String as core::ops::deref::Deref(Mut)?>::deref(_mut)?$", "~^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$",
   "~^alloc::vec::Vec::<T, A>::as_(mut_)?slice$", "~^alloc::string::String::(as_str|as_mut_str|as_bytes)$",
   "~^<alloc::(vec::Vec<T, A>|string::String) as core::convert::As(Ref|Mut)<(\\[T\\]|str|\\[u8\\])>>::as_(ref|mut)$",
   "~^<alloc::(vec::Vec<T, A>|string::String) as core::borrow::Borrow(Mut)?<(\\[T\\]|str)>>::borrow(_mut)?$",
   "~^alloc::vec::<impl core::borrow::Borrow(Mut)?<\\[T\\]> for alloc::vec::Vec<T, A>>::borrow",
   "~^alloc::slice::<impl core::borrow::Borrow(Mut)?<\\[T\\]> for alloc::vec::Vec<T, A>>::borrow",
   "~^alloc::str::<impl core::borrow::Borrow(Mut)?<str> for alloc::string::String>::borrow")
def vec_deref(c):
    return slice_ptr(c, vec_of(c, c.args[0]))


@m("~^<alloc::vec::Vec<T, A> as core::convert::As(Ref|Mut)<alloc::vec::Vec<T, A>>>::as_(ref|mut)$")
def vec_asref_self(c):
    return c.args[0]


@m("~^alloc::vec::Vec::<T, A>::as_(mut_)?ptr$")
def vec_as_ptr(c):
    return Ptr(vec_of(c, c.args[0]).h, (), 0, None)


@m("~^alloc::vec::Vec::<T, A>::(len)$", "~^alloc::string::String::len$")
def vec_len(c):
    return seq_len(content(c, vec_of(c, c.args[0])))


@m("~^alloc::vec::Vec::<T, A>::is_empty$", "~^alloc::string::String::is_empty$")
def vec_is_empty(c):
    return c.eng.eq(seq_len(content(c, vec_of(c, c.args[0]))), 0)


@m("~^alloc::vec::Vec::<T, A>::capacity$", "~^alloc::string::String::capacity$")
def vec_capacity(c):
    v = vec_of(c, c.args[0])
    n = seq_len(content(c, v))
    cap = symbol(("cap", v.h), (1 << 63) - 1)
    c.eng.require(c.st, c.eng.ge(cap, n))
    return cap


@m("~^alloc::vec::Vec::<T>::new$", "~^alloc::vec::Vec::<T>::with_capacity$", "<alloc::vec::Vec<T> as core::default::Default>::default",
   "~^alloc::string::String::(new|with_capacity)$", "<alloc::string::String as core::default::Default>::default",
   "~^alloc::vec::Vec::<T, A>::(new_in|with_capacity_in)$")
def vec_new(c):
    x = c.eng.T(c.dty)
    if x["p"] == "alloc::string::String" or elem_is_byte(c, x["a"][0]):
        if "with_capacity" in c.f["p"] and c.args:
            alloc_ok(c, c.eng.num(c.args[0]))
        return new_vec(c, Bytes(()))
    return new_vec(c, Seq(()))


@m("alloc::vec::from_elem")
def vec_from_elem(c):
    x = c.eng.T(c.dty)
    n = c.eng.num(c.args[1])
    alloc_ok(c, n)
    if elem_is_byte(c, x["a"][0]):
        return new_vec(c, seg_norm([(n, ("f", c.args[0]))]))
    if not isinstance(n, int):
        raise Gap("vector of unknown length")
    return new_vec(c, Seq([c.args[0]] * n))


def alloc_ok(c, n):
    """An allocation of more than isize::MAX bytes panics."""
    if not c.eng.test(c.st, c.eng.ge((1 << 63) - 1, n)):
        raise Panic("capacity overflow")
    if "allocs" in c.st.ghost:
        c.st.ghost["allocs"] += (n,)


@m("~^alloc::vec::Vec::<T, A>::resize$")
def vec_resize(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    n = c.eng.num(c.args[1])
    old = seq_len(b)
    if isinstance(b, Seq):
        if not isinstance(n, int):
            raise Gap("resize")
        set_vec(c, c.args[0], v, Seq(b.i[:n] + (c.args[2],) * max(0, n - len(b.i))))
        return
    if c.eng.test(c.st, c.eng.ge(n, old)):
        alloc_ok(c, n)
        new = seg_norm(list(b.s) + [(sub(n, old), ("f", c.args[2]))])
    else:
        new = c.eng.cut(c.st, b, 0, n)
    set_vec(c, c.args[0], v, new)


@m("~^alloc::vec::Vec::<T, A>::truncate$", "~^alloc::string::String::truncate$")
def vec_truncate(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    n = c.eng.num(c.args[1])
    if isinstance(b, Seq):
        if not isinstance(n, int):
            raise Gap("truncate")
        set_vec(c, c.args[0], v, Seq(b.i[:n]))
    elif c.eng.test(c.st, c.eng.ge(seq_len(b), n)):
        set_vec(c, c.args[0], v, c.eng.cut(c.st, b, 0, n))


@m("~^alloc::vec::Vec::<T, A>::clear$", "~^alloc::string::String::clear$")
def vec_clear(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    set_vec(c, c.args[0], v, Bytes(()) if isinstance(b, Bytes) else Seq(()))


@m("~^alloc::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$", "~^alloc::string::String::(reserve|reserve_exact|shrink_to_fit)$")
def vec_reserve(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    if len(c.args) > 1 and "reserve" in c.f["p"]:
        n = c.eng.num(c.args[1])
        if isinstance(b, Bytes):
            alloc_ok(c, add(blen(b), n))
    set_vec(c, c.args[0], v, b)


@m("~^alloc::vec::Vec::<T, A>::push$", "~^alloc::vec::Vec::<T, A>::push_mut$")
def vec_push(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    if isinstance(b, Seq):
        set_vec(c, c.args[0], v, Seq(b.i + (c.args[1],)))
    else:
        alloc_ok(c, add(blen(b), 1))
        set_vec(c, c.args[0], v, seg_norm(list(b.s) + [(1, ("b", (c.args[1],)))]))


@m("~^alloc::vec::Vec::<T, A>::pop$")
def vec_pop(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    n = seq_len(b)
    if c.eng.test(c.st, c.eng.eq(n, 0)):
        return none(c)
    if isinstance(b, Seq):
        set_vec(c, c.args[0], v, Seq(b.i[:-1]))
        return some(c, b.i[-1])
    last = c.eng.byte_list(c.st, c.eng.cut(c.st, b, sub(n, 1), 1))[0]
    set_vec(c, c.args[0], v, c.eng.cut(c.st, b, 0, sub(n, 1)))
    return some(c, last)


@m("~^alloc::vec::Vec::<T, A>::(extend_from_slice|append_elements)$", "~^alloc::string::String::push_str$",
   "~^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend$",
   "~^<alloc::vec::Vec<u8, A> as (core|alloc|std)::io::(write::)?Write>::write_all$",
   "~^(core|alloc|std)::io::impls::<impl (core|alloc|std)::io::(write::)?Write for alloc::vec::Vec<u8, A>>::(write_all|write)$")
def vec_extend_from_slice(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    if isinstance(b, Seq):
        p = c.eng.as_ptr(c.args[1])
        x = container(c.eng, c.st, p)
        set_vec(c, c.args[0], v, Seq(b.i + x.i[p.off or 0:(p.off or 0) + p.meta]))
        return
    if not isinstance(c.args[1], Ptr):
        raise Gap("extend")
    new = bytes_at(c, c.args[1])
    alloc_ok(c, add(blen(b), blen(new)))
    set_vec(c, c.args[0], v, seg_norm(list(b.s) + list(new.s)))
    if c.f["p"].endswith("::write_all"):
        return ok(c)
    if c.f["p"].endswith("::write"):
        return ok(c, blen(new))


@m("~^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend$")
def vec_extend(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    it = c.args[1]
    t = c.eng.T(c.argtys[1])
    if isinstance(b, Bytes) and t["k"] == "adt" and t["p"].endswith("::Take") and "Repeat" in t["name"]:
        rep, n = it.f
        val = c.eng.unwrap(rep)
        set_vec(c, c.args[0], v, seg_norm(list(b.s) + [(c.eng.num(n), ("f", val))]))
        return
    if isinstance(b, Bytes) and t["k"] == "array":
        set_vec(c, c.args[0], v, seg_norm(list(b.s) + list(it.s)))
        return
    if isinstance(it, Vec):
        set_vec(c, c.args[0], v, seg_norm(list(b.s) + list(content(c, it).s)) if isinstance(b, Bytes) else Seq(b.i + content(c, it).i))
        return
    if c.f.get("model") is not None:
        c.eng.push(c.st, c.eng.fn(c.f["model"]), c.args, c.dest, c.dty, c.target)
        return PUSHED
    raise Gap("extend from " + t["name"])


@m("~^alloc::vec::Vec::<T, A>::append$")
def vec_append(c):
    v, w = vec_of(c, c.args[0]), vec_of(c, c.args[1])
    b, d = content(c, v), content(c, w)
    if isinstance(b, Seq):
        set_vec(c, c.args[0], v, Seq(b.i + d.i))
        set_vec(c, c.args[1], w, Seq(()))
    else:
        set_vec(c, c.args[0], v, seg_norm(list(b.s) + list(d.s)))
        set_vec(c, c.args[1], w, Bytes(()))


@m("~^alloc::vec::Vec::<T, A>::split_off$")
def vec_split_off(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    n = c.eng.num(c.args[1])
    if not isinstance(b, Bytes):
        raise Gap("split_off")
    if not c.eng.test(c.st, c.eng.ge(blen(b), n)):
        raise Panic("split_off out of bounds")
    tail = c.eng.cut(c.st, b, n, sub(blen(b), n))
    set_vec(c, c.args[0], v, c.eng.cut(c.st, b, 0, n))
    return new_vec(c, tail)


@m("~^alloc::vec::Vec::<T, A>::drain$")
def vec_drain(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    if not isinstance(b, Bytes):
        raise Gap("drain")
    a, e = range_bounds(c, c.args[1], c.argtys[1], blen(b))
    check_range(c, a, e, blen(b))
    rest = seg_norm(list(c.eng.cut(c.st, b, 0, a).s) + list(c.eng.cut(c.st, b, e, sub(blen(b), e)).s))
    set_vec(c, c.args[0], v, rest)
    return Obj("drain")


@m("~^alloc::vec::Vec::<T, A>::set_len$")
def vec_set_len(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    n = c.eng.num(c.args[1])
    if isinstance(b, Bytes) and c.eng.test(c.st, c.eng.ge(blen(b), n)):
        set_vec_inplace(c, v, c.eng.cut(c.st, b, 0, n))
        return
    raise Viol("set_len exposes uninitialised memory")


def set_vec_inplace(c, v, b):
    c.st.mem[v.h] = b


@m("~^alloc::string::String::into_bytes$", "~^alloc::string::String::from_utf8_unchecked$")
def vec_ident(c):
    return c.args[0]


@m("~^alloc::vec::Vec::<T, A>::into_boxed_slice$", "~^alloc::string::String::into_boxed_str$",
   "~^<alloc::boxed::Box<.*> as core::convert::From<(alloc::vec::Vec<T, A>|alloc::string::String)>>::from$")
def into_boxed(c):
    v = owned_vec(c, c.args[0])
    return c.eng.wrap_box(c.dty, Ptr(v.h, (), 0, seq_len(content(c, v))))


@m("~^<alloc::boxed::Box<.*> as core::convert::From<&(\\[T\\]|str)>>::from$")
def boxed_copy(c):
    p = c.eng.as_ptr(c.args[0])
    b = bytes_at(c, p)
    return c.eng.wrap_box(c.dty, Ptr(c.eng.alloc(c.st, b), (), 0, blen(b)))


@m("~^alloc::slice::<impl \\[T\\]>::into_vec$", "~^alloc::str::<impl str>::into_string$", "~^<alloc::vec::Vec<T, A> as core::convert::From<alloc::boxed::Box<\\[T\\], A>>>::from$")
def boxed_to_vec(c):
    p = c.eng.as_ptr(c.args[0])
    if p.path or p.off not in (None, 0):
        raise Gap("box into vector")
    return Vec(p.base)


def owned_vec(c, v):
    while isinstance(v, Agg):
        v = c.eng.unwrap(v) if len(v.f) != 1 else v.f[0]
    if not isinstance(v, Vec):
        raise Gap("not a Vec: %r" % (v,))
    return v


def range_bounds(c, r, ty, n):
    """Start and end of a range value over a sequence of length n."""
    x = c.eng.T(ty)
    p = x.get("p", "")
    q = p.rsplit("::", 1)[-1]
    if x["k"] == "tuple":
        raise Gap("range")
    if q == "RangeFull":
        return 0, n
    f = [v if isinstance(v, (bool, C)) else c.eng.num(v) for v in r.f] if isinstance(r, Agg) else None
    if q == "Range":
        return f[0], f[1]
    if q == "RangeFrom":
        return f[0], n
    if q == "RangeTo":
        return 0, f[0]
    if q == "RangeInclusive":
        if len(f) > 2 and c.eng.test(c.st, c.eng.to_cond(f[2])):
            return add(f[1], 1), add(f[1], 1)
        return f[0], add(f[1], 1)
    if q == "RangeToInclusive":
        return 0, add(f[0], 1)
    raise Gap("range type " + x["name"])


def check_range(c, a, e, n):
    if not c.eng.test(c.st, c.eng.ge(e, a)):
        raise Panic("slice index starts after its end")
    if not c.eng.test(c.st, c.eng.ge(n, e)):
        raise Panic("range end index out of range")


@m("~^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$", "~^<alloc::string::String as core::ops::index::Index(Mut)?<I>>::index(_mut)?$",
   "~^core::str::traits::<impl core::ops::index::Index(Mut)?<I> for str>::index")
def vec_index(c):
    if c.eng.T(c.argtys[0])["k"] == "ref" and c.eng.T(c.eng.T(c.argtys[0])["e"])["k"] == "str":
        p = c.eng.as_ptr(c.args[0])
        a, e = range_bounds(c, c.args[1], c.argtys[1], p.meta)
        check_range(c, a, e, p.meta)
        return p.with_(off=add(p.off or 0, a), meta=sub(e, a))
    v = vec_of(c, c.args[0])
    n = seq_len(content(c, v))
    x = c.eng.T(c.argtys[1])
    if x["k"] == "uint":
        i = c.eng.num(c.args[1])
        if not c.eng.test(c.st, c.eng.ge(sub(n, 1), i)):
            raise Panic("index out of bounds")
        return Ptr(v.h, (), i, None)
    a, e = range_bounds(c, c.args[1], c.argtys[1], n)
    check_range(c, a, e, n)
    return Ptr(v.h, (), a, sub(e, a))


@m("~^<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter$")
def vec_from_iter(c):
    x = c.eng.T(c.dty)
    t = c.eng.T(c.argtys[0])
    if t["k"] == "adt" and t["p"].endswith("::Take") and "Repeat" in t["name"]:
        rep, n = c.args[0].f
        n = c.eng.num(n)
        if elem_is_byte(c, x["a"][0]):
            return new_vec(c, seg_norm([(n, ("f", c.eng.unwrap(rep)))]))
    return NotImplemented


@m("~^<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$")
def vec_into_iter(c):
    return Obj("vecinto", vec_of_value(c, c.args[0]), 0)


def vec_of_value(c, v):
    while isinstance(v, Agg):
        v = c.eng.unwrap(v) if len(v.f) != 1 else v.f[0]
    if not isinstance(v, Vec):
        raise Gap("not a Vec: %r" % (v,))
    return v


def any_value(c, ty):
    """Some value of the type."""
    x = c.eng.T(ty)
    if x["k"] == "adt" and x["ak"] == "enum":
        i = c.eng.nondet(c.st, len(x["v"]), "variant")
        return Agg(ty, i, [any_value(c, t) for t in c.eng.fields(ty, i)])
    if x["k"] == "tuple" or (x["k"] == "adt" and x["ak"] == "struct"):
        return Agg(ty, 0, [any_value(c, t) for t in c.eng.fields(ty)])
    if x["k"] == "ref" and c.eng.T(x["e"])["k"] == "str":
        n = symbol(("textlen", c.st.n), 1 << 40)
        return Ptr(c.eng.alloc(c.st, src_bytes(("text", c.st.n), n)), (), 0, n)
    raise Gap("a value of " + x["name"])


@m("~^<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)$")
def vecinto_next(c):
    p = c.eng.as_ptr(c.args[0])
    it = deref(c, c.args[0])
    if not isinstance(it, Obj) or it.k != "vecinto":
        raise Gap("iterator %r" % (it,))
    vec, n = it.v
    back = c.f["p"].endswith("back")
    et = c.eng.T(c.dty)["a"][0]
    old = content(c, vec)
    if isinstance(old, Obj):
        # elements which are not known; up to two of them
        if n >= c.eng.unknown_elements or not c.eng.nondet(c.st, 2, "more"):
            return none(c)
        v = any_value(c, et)
        c.eng.store(c.st, p, c.eng.T(c.argtys[0])["e"], Obj("vecinto", vec, n + 1))
        return some(c, v)
    k = seq_len(old)
    if isinstance(old, Bytes):
        if not c.eng.test(c.st, c.eng.ge(k, 1)):
            return none(c)
        at = sub(k, 1) if back else 0
        v = c.eng.from_bytes(c.st, c.eng.cut(c.st, old, at, 1), et)
        new = c.eng.cut(c.st, old, 0 if back else 1, sub(k, 1))
    else:
        if not k:
            return none(c)
        v = old.i[-1] if back else old.i[0]
        new = Seq(old.i[:-1] if back else old.i[1:])
    c.st.mem[vec.h] = new
    return some(c, v)


@m("~^<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::size_hint$")
def vecinto_hint(c):
    it = deref(c, c.args[0])
    n = seq_len(content(c, it.v[0]))
    return Agg(c.dty, 0, [n, mk(c.eng, c.eng.fields(c.dty)[1], "Some", n)])


@m("~^<alloc::vec::into_iter::IntoIter<T, A> as core::ops::drop::Drop>::drop$")
def vecinto_drop(c):
    it = deref(c, c.args[0])
    if isinstance(it, Obj) and it.k == "vecinto":
        release_value(c.eng, c.st, it.v[0])


@m("diff::lines", "~^diff::")
def diff_lines(c):
    return new_vec(c, Obj("opaque"))


@m("~^alloc::slice::<impl \\[T\\]>::(join|concat)$", "~^alloc::str::<impl .*Join.*>::join", "~^alloc::str::<impl .*Concat.*>::concat")
def join(c):
    p = c.eng.as_ptr(c.args[0])
    v = container(c.eng, c.st, p)
    if isinstance(v, Seq):
        sep = list(bytes_at(c, c.args[1]).s) if len(c.args) > 1 else []
        out = []
        et = c.eng.T(c.eng.T(c.argtys[0])["e"])["e"]
        items = v.i[p.off or 0:(p.off or 0) + (p.meta if p.meta is not None else len(v.i))]
        for k, it in enumerate(items):
            if k:
                out += sep
            out += list((content(c, it) if isinstance(it, Vec) else bytes_at(c, it)).s)
        return new_vec(c, seg_norm(out))
    c.st.n += 1
    return new_vec(c, src_bytes(("text", c.st.n), symbol(("textlen", c.st.n), 1 << 40)))


@m("~^<alloc::string::String as core::ops::arith::Add(Assign)?<&str>>::add(_assign)?$")
def string_add(c):
    if c.f["p"].endswith("assign"):
        return vec_extend_from_slice(c)
    b = content(c, c.args[0])
    c.st.mem.pop(c.args[0].h, None)
    return new_vec(c, seg_norm(list(b.s) + list(bytes_at(c, c.args[1]).s)))


@m("~^alloc::string::String::push$")
def string_push(c):
    v = vec_of(c, c.args[0])
    b = content(c, v)
    if not isinstance(c.args[1], int):
        raise Gap("push of a character")
    set_vec(c, c.args[0], v, seg_norm(list(b.s) + list(lit(chr(c.args[1]).encode()).s)))


@m("~^core::str::<impl str>::(as_bytes|as_bytes_mut|as_ptr)$", "~^core::str::converts::from_utf8_unchecked(_mut)?$",
   "~^core::convert::AsRef::as_ref$", "~^<str as core::convert::AsRef<(\\[u8\\]|str)>>::as_ref$", "~^<\\[T\\] as core::convert::AsRef<\\[T\\]>>::as_ref$")
def str_as_bytes(c):
    p = c.args[0]
    return p.with_(meta=None) if c.f["p"].endswith("as_ptr") else p


@m("~^core::str::<impl str>::len$")
def str_len(c):
    return c.eng.as_ptr(c.args[0]).meta


@m("~^core::str::<impl str>::is_empty$")
def str_is_empty(c):
    return c.eng.eq(c.eng.as_ptr(c.args[0]).meta, 0)


def seq_key(b):
    return tuple(b.s)


def bytes_eq_cond(c, a, b):
    """Condition that two byte sequences are equal."""
    if a == b:
        return True
    la, lb = blen(a), blen(b)
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None:
        return ca == cb
    # strip common prefix and suffix
    x, y = list(a.s), list(b.s)
    while x and y and x[0] == y[0]:
        x.pop(0)
        y.pop(0)
    while x and y and x[-1] == y[-1]:
        x.pop()
        y.pop()
    # a constant head on both sides that differs
    if x and y:
        for i in (0, -1):
            p, q = x[i], y[i]
            if p[1][0] == "c" and q[1][0] == "c":
                k = min(p[0], q[0])
                s, t = (p[1][1][:k], q[1][1][:k]) if i == 0 else (p[1][1][-k:], q[1][1][-k:])
                if s != t:
                    return False
    if not x and not y:
        return True
    if not x or not y:
        n = blen(Bytes(tuple(x or y)))
        return c.eng.eq(n, 0)
    if not c.eng.test(c.st, c.eng.eq(la, lb)):
        return False
    if c.eng.decide(c.st, c.eng.eq(la, 0)):
        return True
    ks = sorted((repr(x), repr(y)))
    k = ("opq", "seqeq", ks[0], ks[1])
    if len(x) == 1 and len(y) == 1 and k not in c.st.opq:
        # both are of the same length: it may have been named in another way
        for n in (x[0][0], y[0][0]):
            ks = sorted((repr([(n, x[0][1])]), repr([(n, y[0][1])])))
            other = ("opq", "seqeq", ks[0], ks[1])
            if other in c.st.opq:
                return C(other)
    return C(k)


def examined(st, name):
    """Whether the case depends on single bytes, or on parts, of the source."""
    def inside(k):
        if isinstance(k, tuple):
            return k[:2] == ("d", name) or any(inside(x) for x in k)
        return isinstance(k, str) and "('d', %r" % name in k

    ids = {i for f in st.facts + st.neqs if isinstance(f, P) for m in f.t for i in m}
    return any(inside(Sym.table[i][0]) for i in ids) or any(inside(k) for k in st.bits) or any(inside(k) for k in st.opq if k[1] != "utf8")


@m("core::str::traits::<impl core::cmp::PartialEq for str>::eq", "~^<alloc::string::String as core::cmp::PartialEq(<.*>)?>::(eq|ne)$",
   "~^core::slice::cmp::<impl core::cmp::PartialEq<\\[U\\]> for \\[T\\]>::(eq|ne)$", "~^alloc::(vec|string|str|slice)::.*PartialEq.*::(eq|ne)$",
   "~^<alloc::vec::Vec<.*PartialEq.*::(eq|ne)$", "~^core::str::traits::.*::ne$", "~^core::array::equality::.*::(eq|ne)$")
def str_eq(c):
    def data(i):
        t = c.eng.T(c.argtys[i])
        p = c.args[i]
        e = t.get("e")
        for _ in range(4):
            if e is not None and c.eng.T(e)["k"] == "ref":
                p = c.eng.load(c.st, c.eng.as_ptr(p), e)
                e = c.eng.T(e)["e"]
        e = c.eng.T(e) if e is not None else None
        while e is not None and e["k"] == "adt" and e["p"] == "alloc::vec::Vec" or isinstance(deref_any(c, p), Vec):
            v = vec_of(c, p)
            p = Ptr(v.h, (), 0, seq_len(content(c, v)))
            break
        x = c.eng.get_path(c.eng.base_value(c.st, p.base), p.path) if p.base[0] != "null" else Bytes(())
        if isinstance(x, Seq):
            o = p.off or 0
            et = (e or {}).get("e") if (e or {}).get("k") in ("slice", "array") else ((e or {}).get("a") or [None])[0]
            return Seq(x.i[o:o + (p.meta if p.meta is not None else len(x.i))]), et
        return bytes_at(c, p), None
    (a, ta), (b, tb) = data(0), data(1)
    if isinstance(a, Seq) or isinstance(b, Seq):
        n = seq_len(a), seq_len(b)
        if n[0] != n[1]:
            r = False
        elif n[0] == 0:
            r = True
        else:
            r = True
            for x, y in zip(a.i, b.i):
                r = c.eng.c_and(r, value_eq(c, x, y, ta))
                if r is False:
                    break
    else:
        r = bytes_eq_cond(c, a, b)
    return c.eng.c_not(r) if c.f["p"].endswith("::ne") else r


def deref_any(c, p):
    try:
        return deref(c, p)
    except (Gap, Viol):
        return None


def value_eq(c, x, y, t):
    """Whether two values of one type are equal, for the types which compare by their parts."""
    if is_num(x) and is_num(y) or isinstance(x, (bool, C)):
        if t is None:
            raise Gap("comparison of values of unknown type")
        return c.eng.to_cond(c.eng.compare(c.st, "Eq", x, y, t, None))
    if isinstance(x, Vec) and isinstance(y, Vec):
        a, b = content(c, x), content(c, y)
        if isinstance(a, Bytes) and isinstance(b, Bytes):
            return bytes_eq_cond(c, a, b)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.meta is not None:
        return bytes_eq_cond(c, bytes_at(c, x), bytes_at(c, y))
    if isinstance(x, Agg) and isinstance(y, Agg) and t is not None:
        k = c.eng.T(t)
        if k["k"] == "tuple" or (k["k"] == "adt" and k["p"] == "core::option::Option"):
            if x.var != y.var:
                return False
            r = True
            for a, b, ft in zip(x.f, y.f, c.eng.fields(t, x.var)):
                r = c.eng.c_and(r, value_eq(c, a, b, ft))
            return r
    raise Gap("comparison of %r" % (x,))


def pattern_bytes(c, i):
    t = c.eng.T(c.argtys[i])
    p = c.args[i]
    if t["name"] == "char" and isinstance(p, int):
        return lit(chr(p).encode())
    if t["k"] != "ref":
        raise Gap("string pattern " + t["name"])
    e = t["e"]
    while c.eng.T(e)["k"] == "ref":
        p = c.eng.load(c.st, c.eng.as_ptr(p), e)
        e = c.eng.T(e)["e"]
    return bytes_at(c, p)


def known_text(c, i):
    k = const_bytes(bytes_at(c, c.args[i]))
    if k is None:
        raise Gap("%s of unknown text" % c.f["p"].split("::")[-1])
    return k.decode("utf8", "replace")


def known_pattern(c, i):
    k = const_bytes(pattern_bytes(c, i))
    if k is None:
        raise Gap("unknown pattern")
    return k.decode("utf8", "replace")


@m("~^core::str::<impl str>::trim_(start_|end_|left_|right_|)matches$")
def str_trim_matches(c):
    op = c.f["p"].split("::")[-1]
    b, q, p = bytes_at(c, c.args[0]), pattern_bytes(c, 1), c.eng.as_ptr(c.args[0])
    k = blen(q)
    if k == 0:
        return p
    lo, hi = 0, blen(b)
    for head in [True] * (op in ("trim_start_matches", "trim_left_matches", "trim_matches")) + [False] * (op in ("trim_end_matches", "trim_right_matches", "trim_matches")):
        for _ in range(40):
            if not c.eng.test(c.st, c.eng.ge(sub(hi, lo), k)) or not c.eng.test(c.st, bytes_eq_cond(c, c.eng.cut(c.st, b, lo if head else sub(hi, k), k), q)):
                break
            lo, hi = (add(lo, k), hi) if head else (lo, sub(hi, k))
        else:
            raise Gap("loop bound")
    return p.with_(off=add(p.off or 0, lo), meta=sub(hi, lo))


@m("~^core::str::<impl str>::(find|rfind|contains)$")
def str_find(c):
    op = c.f["p"].split("::")[-1]
    t, q = known_text(c, 0).encode(), known_pattern(c, 1).encode()
    i = t.rfind(q) if op == "rfind" else t.find(q)
    return i >= 0 if op == "contains" else some(c, i) if i >= 0 else none(c)


@m("~^core::str::<impl str>::eq_ignore_ascii_case$")
def str_eq_ignore_case(c):
    return known_text(c, 0).encode().lower() == known_text(c, 1).encode().lower()


@m("~^alloc::str::<impl str>::(to_ascii_lowercase|to_ascii_uppercase|to_lowercase|to_uppercase|replace)$")
def str_mapped(c):
    op = c.f["p"].split("::")[-1]
    t = known_text(c, 0)
    if op == "replace":
        t = t.replace(known_pattern(c, 1), known_text(c, 2))
    elif not t.isascii() and "ascii" not in op:
        raise Gap("case of other than ASCII text")
    else:
        f = bytes.lower if "lower" in op else bytes.upper
        t = f(t.encode()).decode("utf8", "replace")
    return new_vec(c, lit(t.encode()))


@m("core::intrinsics::compare_bytes")
def compare_bytes(c):
    n = c.eng.num(c.args[2])
    a = read_raw(c.eng, c.st, c.eng.as_ptr(c.args[0]), n)
    b = read_raw(c.eng, c.st, c.eng.as_ptr(c.args[1]), n)
    if c.eng.test(c.st, bytes_eq_cond(c, a, b)):
        return 0
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None:
        return 1 if ca > cb else -1
    return 1 if c.eng.nondet(c.st, 2, "order") else -1


@m("core::intrinsics::raw_eq")
def raw_eq(c):
    n = c.eng.size_of(c.eng.T(c.argtys[0])["e"])
    a = read_raw(c.eng, c.st, c.eng.as_ptr(c.args[0]), n)
    b = read_raw(c.eng, c.st, c.eng.as_ptr(c.args[1]), n)
    return bytes_eq_cond(c, a, b)


@m("~^core::slice::<impl \\[T\\]>::(starts_with|ends_with)$")
def slice_starts_with(c):
    e = c.eng.T(c.eng.T(c.argtys[0])["e"])
    if not elem_is_byte(c, e["e"]):
        return step_into(c)
    return str_starts_with(c)


@m("~^core::str::<impl str>::(starts_with|ends_with|strip_prefix|strip_suffix)$")
def str_starts_with(c):
    op = c.f["p"].split("::")[-1]
    b, q = bytes_at(c, c.args[0]), pattern_bytes(c, 1)
    n, k = blen(b), blen(q)
    head = op in ("starts_with", "strip_prefix")
    if not c.eng.test(c.st, c.eng.ge(n, k)):
        r = False
    else:
        r = bytes_eq_cond(c, c.eng.cut(c.st, b, 0 if head else sub(n, k), k), q)
    if op.endswith("_with"):
        return r
    if not c.eng.test(c.st, r):
        return none(c)
    p = c.eng.as_ptr(c.args[0])
    return some(c, p.with_(off=add(p.off or 0, k if head else 0), meta=sub(n, k)))


@m("~^core::str::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right)$")
def str_trim(c):
    op = c.f["p"].split("::")[-1]
    b, p = bytes_at(c, c.args[0]), c.eng.as_ptr(c.args[0])
    n = blen(b)
    kb = const_bytes(b)
    if kb is not None:
        t = kb.decode("utf8", "replace")
        lo = len(kb) - len(t.lstrip().encode()) if op in ("trim", "trim_start", "trim_left") else 0
        hi = len(t.rstrip().encode()) if op in ("trim", "trim_end", "trim_right") else len(kb)
        return p.with_(off=add(p.off or 0, lo), meta=max(hi - lo, 0))
    lo, k = 0, n
    name = repr(seq_key(b))
    for side, on in (("start", op in ("trim", "trim_start", "trim_left")), ("end", op in ("trim", "trim_end", "trim_right"))):
        if on and c.eng.test(c.st, C(("opq", "trimmed", side, name))):
            d = symbol(("trimmed", side, name), 1 << 40)
            c.eng.assume(c.st, ("ge", sub(d, 1)))
            c.eng.assume(c.st, ("ge", sub(k, d)))
            k = sub(k, d)
            if side == "start":
                lo = d
    return p.with_(off=add(p.off or 0, lo), meta=k)


@m("core::str::converts::from_utf8", "~^core::str::<impl str>::from_utf8$")
def from_utf8(c):
    b = bytes_at(c, c.args[0])
    kb = const_bytes(b)
    if kb is not None:
        try:
            kb.decode()
        except UnicodeDecodeError:
            return err(c, Obj("utf8error"))
        return ok(c, c.args[0])
    k = ("opq", "utf8", repr(seq_key(b)))
    if c.eng.test(c.st, C(k)):
        return ok(c, c.args[0])
    return err(c, Obj("utf8error"))


@m("alloc::string::FromUtf8Error::utf8_error")
def from_utf8_error_utf8(c):
    return Obj("utf8error")


@m("~^alloc::string::String::from_utf8$")
def string_from_utf8(c):
    b = content(c, vec_of_value(c, c.args[0]))
    kb = const_bytes(b)
    if kb is not None:
        try:
            kb.decode()
            good = True
        except UnicodeDecodeError:
            good = False
    else:
        good = c.eng.test(c.st, C(("opq", "utf8", repr(seq_key(b)))))
    return ok(c, c.args[0]) if good else err(c, Obj("utf8error"))


@m("~^alloc::string::String::from_utf8_lossy$")
def from_utf8_lossy(c):
    b = bytes_at(c, c.args[0])
    kb = const_bytes(b)
    if kb is not None:
        good = lit(kb.decode("utf8", "replace").encode())
        if good != b:
            return mk(c.eng, c.dty, "Owned", new_vec(c, good))
    elif not c.eng.test(c.st, C(("opq", "utf8", repr(seq_key(b))))):
        n = symbol(("lossy", seq_key(b)), 1 << 40)
        return mk(c.eng, c.dty, "Owned", new_vec(c, src_bytes(("lossy", seq_key(b)), n)))
    return mk(c.eng, c.dty, "Borrowed", c.args[0])


@m("~^core::slice::<impl \\[T\\]>::(copy_from_slice|clone_from_slice)$", "~^core::slice::copy_from_slice_impl$")
def copy_from_slice(c):
    d, s = c.eng.as_ptr(c.args[0]), c.eng.as_ptr(c.args[1])
    if not c.eng.test(c.st, c.eng.eq(d.meta, s.meta)):
        raise Panic("copy_from_slice: lengths differ")
    t = c.eng.T(c.eng.T(c.argtys[0])["e"])["e"]
    copy_bytes(c.eng, c.st, s, d, d.meta, t, True)


@m("~^core::slice::<impl \\[T\\]>::copy_within$")
def copy_within(c):
    p = c.eng.as_ptr(c.args[0])
    a, e = range_bounds(c, c.args[1], c.argtys[1], p.meta)
    check_range(c, a, e, p.meta)
    d = c.eng.num(c.args[2])
    check_range(c, d, add(d, sub(e, a)), p.meta)
    data = read_raw(c.eng, c.st, p.with_(off=add(p.off or 0, a)), sub(e, a))
    write_raw(c.eng, c.st, p.with_(off=add(p.off or 0, d)), data)


@m("~^core::slice::(specialize::)?<impl \\[T\\]>::(fill|spec_fill)$", "~^core::slice::specialize::<impl .*SpecFill.*>::spec_fill$")
def slice_fill(c):
    p = c.eng.as_ptr(c.args[0])
    v = container(c.eng, c.st, p)
    if isinstance(v, Bytes):
        write_raw(c.eng, c.st, p, seg_norm([(p.meta, ("f", c.args[1]))]))
        return
    if isinstance(v, Seq) and isinstance(p.meta, int):
        t = c.eng.T(c.eng.T(c.argtys[0])["e"])["e"]
        for i in range(p.meta):
            c.eng.store(c.st, p.with_(off=(p.off or 0) + i, meta=None), t, c.args[1])
        return
    raise Gap("fill")


# ---------------------------------------------------------------- Rc, Box, cells
@m("~^alloc::rcs?(::rc)?::Rc::<T>::new$", "~^alloc::sync::Arc::<T>::new$", "~^alloc::rcs::sync::Arc::<T>::new$")
def rc_new(c):
    return new_rc(c, c.args[0], c.argtys[0])


def rc_of(c, v):
    x = deref(c, v)
    if isinstance(x, Agg):
        x = c.eng.unwrap(x)
    if not (isinstance(x, Obj) and x.k == "rc"):
        raise Gap("not an Rc: %r" % (x,))
    return x


@m("~^<alloc::rcs?(::rc|::sync)?::A?Rc<T, A> as core::clone::Clone>::clone$", "~^<alloc::rcs::(rc::Rc|sync::Arc)<T, A> as core::clone::Clone>::clone$")
def rc_clone(c):
    r = rc_of(c, c.args[0])
    k = ("rc", r.v[0].base)
    if k in c.st.mem:
        c.st.mem[k] += 1
    return r


@m("~^<alloc::rcs::(rc::Rc|sync::Arc)<T, A> as (core::ops::deref::Deref|core::convert::AsRef<T>|core::borrow::Borrow<T>)>::(deref|as_ref|borrow)$",
   "~^alloc::rcs::(rc::Rc|sync::Arc)::<T, A>::as_ptr$")
def rc_deref(c):
    r = rc_of(c, c.args[0])
    return r.v[0]


@m("~^alloc::rcs::rc::Rc::<T, A>::(strong_count)$")
def rc_count(c):
    r = rc_of(c, c.args[0])
    return c.st.mem.get(("rc", r.v[0].base), 1)


RC = "~^alloc::rcs?::(rc::Rc|sync::Arc)::<T(, A)?>::"


def rc_owners(c, r):
    n = c.st.mem.get(("rc", r.v[0].base))
    if n is None:
        raise Gap("number of owners")
    return n


@m(RC + "try_unwrap$", RC + "into_inner$")
def rc_try_unwrap(c):
    r = c.args[0]
    while isinstance(r, Agg):
        r = c.eng.unwrap(r)
    last = rc_owners(c, r) == 1
    opt = c.f["p"].endswith("into_inner")
    if not last:
        if opt:
            rc_release(c.eng, c.st, r)
            return none(c)
        return mk(c.eng, c.dty, "Err", c.args[0])
    v = c.st.mem.pop(r.v[0].base)
    c.st.mem.pop(("rc", r.v[0].base))
    return some(c, v) if opt else mk(c.eng, c.dty, "Ok", v)


@m(RC + "get_mut$")
def rc_get_mut(c):
    r = rc_of(c, c.args[0])
    return some(c, r.v[0]) if rc_owners(c, r) == 1 else none(c)


@m(RC + "ptr_eq$")
def rc_ptr_eq(c):
    return int(rc_of(c, c.args[0]).v[0].base == rc_of(c, c.args[1]).v[0].base)


@m(RC + "weak_count$")
def rc_weak(c):
    return 0


@m("~^alloc::boxed::Box::<T>::new$")
def box_new(c):
    b = c.eng.alloc(c.st, c.args[0], c.argtys[0])
    return c.eng.wrap_box(c.dty, Ptr(b))


@m("~^alloc::boxed::Box::<T>::new_uninit$")
def box_uninit(c):
    t = c.eng.T(c.dty)["a"][0]
    v = Agg(t, 0, [UNDEF])
    b = c.eng.alloc(c.st, v, t)
    return c.eng.wrap_box(c.dty, Ptr(b))


@m("~^alloc::boxed::box_assume_init_into_vec_unsafe$")
def box_into_vec(c):
    p = c.eng.as_ptr(c.args[0])
    v = c.eng.base_value(c.st, p.base)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    c.st.mem.pop(p.base, None)
    if not isinstance(v, (Seq, Bytes)):
        raise Gap("vector of %r" % (v,))
    return new_vec(c, v)


@m("~^<alloc::rcs::rc::Rc<T, A> as core::ops::drop::Drop>::drop$")
def rc_drop_fn(c):
    r = rc_of(c, c.args[0])
    rc_release(c.eng, c.st, r)


def rc_release(eng, st, r):
    k = ("rc", r.v[0].base)
    if k in st.mem:
        st.mem[k] -= 1
        if st.mem[k] == 0:
            v = st.mem.pop(r.v[0].base, None)
            st.mem.pop(k)
            release_value(eng, st, v)


def release_value(eng, st, v, depth=0):
    """Free what a dropped value owns. The destructors of the repository among it are run next."""
    if depth > 12 or v is None:
        return
    if isinstance(v, Vec):
        x = st.mem.pop(v.h, None)
        if isinstance(x, Seq):
            for i in x.i:
                release_value(eng, st, i, depth + 1)
    elif isinstance(v, Obj):
        if v.k == "rc":
            rc_release(eng, st, v)
        elif v.k == "mmap":
            st.mem.pop(v.v[0], None)
            st.events = st.events + (("unmap", v.v[0]),)
        elif v.k == "map":
            fsmodel.release_map(eng, st, v.v[0], depth)
            st.mem.pop(v.v[0], None)
        elif v.k == "mapinto":
            for x in v.v[0]:
                for y in x:
                    release_value(eng, st, y, depth + 1)
        elif v.k == "bufw":
            fsmodel.release_bufw(eng, st, v)
    elif isinstance(v, Agg):
        x = eng.T(v.ty) if v.ty is not None else None
        if x is not None and x["k"] == "adt" and x["p"] == "alloc::boxed::Box":
            p = eng.as_ptr(v)
            release_value(eng, st, st.mem.pop(p.base, None), depth + 1)
            return
        if x is not None and x.get("glue") is not None:
            st.ghost["glue"] = st.ghost.get("glue", ()) + ((v.ty, v),)
            return
        for f in v.f:
            release_value(eng, st, f, depth + 1)


MODELLED_DROPS = ("alloc::vec::Vec", "alloc::string::String", "alloc::rcs::rc::Rc", "std::path::PathBuf", "memmap::Mmap",
                  "alloc::collections::btree::map::BTreeMap", "std::fs::File", "core::io::error::Error", "core::io::cursor::Cursor",
                  "alloc::collections::btree::set::BTreeSet", "std::collections::hash::map::HashMap", "alloc::collections::btree::map::IntoIter",
                  "alloc::collections::btree::map::IntoKeys", "alloc::collections::btree::map::IntoValues", "std::collections::hash::map::IntoIter",
                  "std::collections::hash::map::IntoKeys", "std::collections::hash::map::IntoValues", "alloc::vec::drain::Drain",
                  "alloc::vec::into_iter::IntoIter", "std::ffi::os_str::OsString", "alloc::boxed::Box", "core::str::error::Utf8Error",
                  "std::io::buffered::bufwriter::BufWriter", "alloc::io::buffered::bufwriter::BufWriter", "std::fs::OpenOptions", "std::fs::Metadata")


def drop_place(eng, st, fr, loc, ty, inst, target):
    """Returns True when the drop is done, False when a frame was pushed."""
    x = eng.T(ty)
    if x["k"] == "adt" and x["p"] in MODELLED_DROPS:
        v = eng.get_path_or_undef(st.mem.get(loc.base, UNDEF), loc.path)
        if v is not UNDEF and not isinstance(v, Agg):
            release_value(eng, st, v)
        elif isinstance(v, Agg) and x["p"] == "alloc::boxed::Box":
            p = eng.as_ptr(v)
            release_value(eng, st, st.mem.pop(p.base, None))
        elif isinstance(v, Agg) and x["p"] == "core::io::cursor::Cursor":
            release_value(eng, st, v)
        return True
    f = eng.fn(inst)
    if not f.get("blocks"):
        if x["k"] == "dyn" or x["size"] == -1:
            return True
        raise Gap("drop of " + x["name"])
    dt = eng.find_type(lambda t: t["k"] == "tuple" and not t["f"])
    eng.push(st, f, [loc], lambda e, s, v: after_drop(e, s, target), dt, None)
    return False


def run_glue(eng, st):
    """The first of the destructors that release_value left to be run."""
    (ty, v), *rest = st.ghost["glue"]
    st.ghost["glue"] = tuple(rest)
    b = eng.alloc(st, v, ty)
    dt = eng.find_type(lambda t: t["k"] == "tuple" and not t["f"])

    def after(e, s, _):
        s.mem.pop(b, None)
    eng.push(st, eng.fn(eng.T(ty)["glue"]), [Ptr(b)], after, dt, None)


def after_drop(eng, st, target):
    eng.goto(st, st.frames[-1], target)


@m("~ as core::ops::drop::Drop>::drop$")
def std_drop(c):
    if c.f["crate"] in ("flatdata", "fdharness"):
        return step_into(c)
    try:
        v = deref(c, c.args[0])
    except Viol:
        raise
    if not isinstance(v, Agg):
        release_value(c.eng, c.st, v)
        return
    if c.f.get("blocks"):
        return step_into(c)
    return


def step_into(c):
    if c.f.get("blocks"):
        c.eng.push(c.st, c.f, c.args, c.dest, c.dty, c.target)
        return PUSHED
    raise Gap("no body: " + c.f["p"])


@m("~^alloc::raw_vec::RawVecInner::<A>::deallocate$", "~^alloc::alloc::(dealloc)$")
def dealloc(c):
    return None


# ---------------------------------------------------------------- input/output
@m("~^alloc::io::error::<impl core::io::error::Error>::(new|other)$", "~^(core|std)::io::error::Error::(new|other)$")
def io_error_new(c):
    if c.f["p"].endswith("other"):
        return Obj("ioerr", "Other")
    k = c.args[0]
    t = c.eng.T(k.ty)
    return Obj("ioerr", t["v"][k.var]["n"])


@m("~^<core::io::error::Error as core::convert::From<.*ErrorKind.*>>::from$")
def io_error_from_kind(c):
    k = c.args[0]
    return Obj("ioerr", c.eng.T(k.ty)["v"][k.var]["n"])


@m("~^core::io::error::Error::kind$")
def io_error_kind(c):
    x = deref(c, c.args[0])
    if not isinstance(x, Obj):
        raise Gap("kind of %r" % (x,))
    names = [v["n"] for v in c.eng.T(c.dty)["v"]]
    if x.v[0] in names:
        return mk(c.eng, c.dty, x.v[0])
    return mk(c.eng, c.dty, "Other")


# ---------------------------------------------------------------- virtual calls
def virtual(c):
    p = c.eng.as_ptr(c.args[0])
    h = c.eng.hooks.get("virtual")
    if h is not None:
        r = h(c, p)
        if r is PUSHED:
            return None
        if r is not NotImplemented:
            finish(c, r)
            return None
    k = None
    if isinstance(p.meta, tuple) and len(p.meta) == 3 and c.f.get("slot") is not None:
        vt = c.eng.d.get("vtables", {}).get("%d,%d" % p.meta[1:]) or ()
        k = vt[c.f["slot"]] if c.f["slot"] < len(vt) else None
    if k is not None:
        # the function is known from where the trait object was made
        args = [p.with_(meta=None)] + list(c.args[1:])
        return invoke(c, c.eng.fn(k), args)
    try:
        v = c.eng.get_path(c.eng.base_value(c.st, p.base), p.path)
    except Gap:
        v = None
    for t, k in c.f.get("targets") or ():
        if isinstance(v, Agg) and v.ty == t:
            c.eng.push(c.st, c.eng.fn(k), c.args, c.dest, c.dty, c.target)
            return None
    raise Gap("virtual call " + c.f["p"])


def invoke(c, f, args):
    if f.get("kind") == "ctor" or f["kind"] == "virtual":
        raise Gap("virtual call " + c.f["p"])
    c.eng.invoke(c.st, f, args, c.dest, c.dty, c.target, c.argtys)
    return None


def finish(c, r):
    if r is None:
        r = c.eng.unit()
    c.eng.store(c.st, c.dest, c.dty, r)
    if c.target is None:
        raise Gap("call does not return")
    c.eng.goto(c.st, c.st.frames[-1], c.target)


import fsmodel  # noqa: E402 (registers further contracts)
_n = len(PATTERNS)
import stdmodels  # noqa: E402
# the most specific contracts come first
PATTERNS[:] = PATTERNS[_n:] + PATTERNS[:_n]
