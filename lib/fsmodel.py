"""Contracts of what the two storages are built from: maps, paths, files, file mappings, cursors.

The file system is part of the abstract state: names are constants, contents are abstract byte
sequences. A mapping shows the file it was made from, whatever happens to its name; a file cut short
below a mapping makes the lost part inaccessible. A cursor which grows moves its buffer."""
from engine import *
from terms import *
import ghost, models
from models import m, deref, some, none, ok, err, mk, bytes_at, new_vec, content, PUSHED, EXACT, PATTERNS


# ---------------------------------------------------------------- texts
def owned(c, v):
    while isinstance(v, Agg):
        u = v.f[0] if len(v.f) == 1 else c.eng.unwrap(v)
        if u is v:
            break
        v = u
    return v


def text_arg(c, v):
    """Bytes of a str, String, Path or PathBuf, by value or behind references."""
    for _ in range(6):
        v = owned(c, v)
        if isinstance(v, Vec):
            return content(c, v)
        if not isinstance(v, Ptr):
            break
        if v.meta is not None:
            return bytes_at(c, v)
        x = c.eng.get_path(c.eng.base_value(c.st, v.base), v.path)
        if isinstance(x, Bytes):
            return bytes_at(c, v)
        v = x
    raise Gap("text of %r" % (v,))


def const(b):
    s = const_bytes(b)
    if s is None:
        raise Gap("name which is not constant")
    return s


def norm(s):
    """A path in the form in which paths are compared."""
    parts = [p for i, p in enumerate(s.split(b"/")) if p and not (p == b"." and i)]
    if b".." in parts:
        raise Gap("path with ..")
    return (b"/" if s.startswith(b"/") else b"") + b"/".join(parts)


def parent(s):
    i = s.rstrip(b"/").rfind(b"/")
    if i < 0:
        return b""
    return s[:i].rstrip(b"/") or b"/"


def join(a, b):
    if b.startswith(b"/"):
        return b
    if not a or a.endswith(b"/"):
        return a + b
    return a + b"/" + b


PATH = "~^std::path::Path::"


@m("std::path::Path::join")
def path_join(c):
    return new_vec(c, lit(join(const(text_arg(c, c.args[0])), const(text_arg(c, c.args[1])))))


@m("std::path::PathBuf::push")
def path_push(c):
    p = owned(c, deref(c, c.args[0]))
    models.set_vec(c, c.args[0], p, lit(join(const(content(c, p)), const(text_arg(c, c.args[1])))))


@m("std::path::PathBuf::new", "<std::path::PathBuf as core::default::Default>::default")
def path_new(c):
    return new_vec(c, Bytes(()))


@m("~^<std::path::PathBuf as core::clone::Clone>::clone$", "~^std::path::Path::(to_path_buf)$",
   "~^<std::path::PathBuf as core::convert::From<.*>>::from$", "~^std::path::<impl .*ToOwned for std::path::Path>::to_owned$",
   "~^<std::path::Path as alloc::borrow::ToOwned>::to_owned$", "~^std::path::PathBuf::(into_os_string)$",
   "~^<std::ffi::os_str::OsString as core::convert::From<.*>>::from$", "~^std::ffi::os_str::OsStr::(to_os_string|to_owned)$")
def path_clone(c):
    v = owned(c, c.args[0])
    return v if isinstance(v, Vec) else new_vec(c, text_arg(c, v))


def view(c, v):
    v = owned(c, v)
    if isinstance(v, Ptr) and v.meta is None:
        v = owned(c, deref(c, v))
    if isinstance(v, Vec):
        return models.slice_ptr(c, v)
    if isinstance(v, Ptr) and v.meta is not None:
        return v
    raise Gap("path behind %r" % (v,))


@m("~^<std::path::PathBuf as core::ops::deref::Deref>::deref$", "~^std::path::PathBuf::(as_path|as_os_str)$",
   "~^std::path::Path::(as_os_str|new)$", "~^<std::path::(PathBuf|Path) as core::convert::AsRef<.*>>::as_ref$",
   "~^std::path::<impl core::convert::AsRef<std::path::Path> for .*>::as_ref$", "~^<(str|alloc::string::String|std::ffi::os_str::OsStr|std::ffi::os_str::OsString) as core::convert::AsRef<std::(path::Path|ffi::os_str::OsStr)>>::as_ref$",
   "~^<std::path::PathBuf as core::borrow::Borrow<std::path::Path>>::borrow$")
def path_view(c):
    return view(c, c.args[0])


@m("std::path::Path::to_str", "std::ffi::os_str::OsStr::to_str")
def path_to_str(c):
    return some(c, view(c, c.args[0]))


@m("std::path::Path::to_string_lossy", "std::ffi::os_str::OsStr::to_string_lossy")
def path_to_string_lossy(c):
    return mk(c.eng, c.dty, "Borrowed", view(c, c.args[0]))


@m("std::path::Path::display", "std::ffi::os_str::OsStr::display")
def path_display(c):
    return Obj("display", view(c, c.args[0]))


@m("std::path::Path::parent")
def path_parent(c):
    p = view(c, c.args[0])
    s = const(bytes_at(c, p))
    t = s.rstrip(b"/")
    if not t:
        return none(c)
    return some(c, p.with_(meta=len(parent(s))))


@m("std::path::Path::file_name")
def path_file_name(c):
    p = view(c, c.args[0])
    s = const(bytes_at(c, p)).rstrip(b"/")
    i = s.rfind(b"/") + 1
    if not s[i:] or s[i:] == b"..":
        return none(c)
    return some(c, p.with_(off=add(p.off or 0, i), meta=len(s) - i))


def split_ext(s):
    """Everything but the last dot of the file name and what follows, or None."""
    i = s.rfind(b"/") + 1
    j = s.rfind(b".")
    return None if j <= i else (s[:j], s[j + 1:])


@m("std::path::Path::with_extension", "std::path::Path::with_file_name")
def path_with(c):
    s, n = const(text_arg(c, c.args[0])).rstrip(b"/"), const(text_arg(c, c.args[1]))
    if c.f["p"].endswith("file_name"):
        return new_vec(c, lit(join(parent(s), n)))
    x = split_ext(s)
    return new_vec(c, lit((x[0] if x else s) + (b"." + n if n else b"")))


@m("std::path::Path::extension")
def path_extension(c):
    p = view(c, c.args[0])
    x = split_ext(const(bytes_at(c, p)).rstrip(b"/"))
    return none(c) if x is None else some(c, p.with_(off=add(p.off or 0, len(x[0]) + 1), meta=len(x[1])))


def parts(s):
    """The components of a path."""
    return ([b"/"] if s.startswith(b"/") else []) + [x for i, x in enumerate(s.split(b"/")) if x and (x != b"." or i == 0)]


@m("~^std::path::Path::(starts_with|ends_with)$")
def path_starts_with(c):
    a, b = parts(const(text_arg(c, c.args[0]))), parts(const(text_arg(c, c.args[1])))
    if c.f["p"].endswith("ends_with"):
        return int(not b or a[-len(b):] == b)
    return int(a[:len(b)] == b)


@m("std::path::Path::strip_prefix")
def path_strip_prefix(c):
    p = view(c, c.args[0])
    s = const(bytes_at(c, p))
    a, b = parts(s), parts(const(text_arg(c, c.args[1])))
    if a[:len(b)] != b:
        return mk(c.eng, c.dty, "Err", UNDEF)
    rest = b"/".join(a[len(b):])
    i = len(s.rstrip(b"/")) - len(rest)
    if s[i:i + len(rest)] != rest:
        raise Gap("prefix of a path")
    return mk(c.eng, c.dty, "Ok", p.with_(off=add(p.off or 0, i), meta=len(rest)))


@m("std::path::PathBuf::pop")
def path_pop(c):
    v = owned(c, deref(c, c.args[0]))
    s = const(content(c, v)).rstrip(b"/")
    if not s:
        return False
    models.set_vec(c, c.args[0], v, lit(parent(s)))
    return True


@m("std::path::Path::is_absolute", "std::path::Path::has_root")
def path_is_absolute(c):
    return const(text_arg(c, c.args[0])).startswith(b"/")


@m("std::path::Path::is_relative")
def path_is_relative(c):
    return not const(text_arg(c, c.args[0])).startswith(b"/")


@m("~^<std::path::(PathBuf|Path) as core::cmp::PartialEq(<.*>)?>::(eq|ne)$")
def path_eq(c):
    r = norm(const(text_arg(c, c.args[0]))) == norm(const(text_arg(c, c.args[1])))
    return r != c.f["p"].endswith("::ne")


@m("~^<std::ffi::os_str::(OsStr|OsString) as core::cmp::PartialEq(<.*>)?>::(eq|ne)$")
def os_str_eq(c):
    r = const(text_arg(c, c.args[0])) == const(text_arg(c, c.args[1]))
    return r != c.f["p"].endswith("::ne")


# ---------------------------------------------------------------- maps
MAP = "(?:alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap)"


def map_key(c, i):
    v = c.args[i]
    t = c.argtys[i]
    if isinstance(v, Ptr) and v.meta is None and c.eng.T(t)["k"] != "ref":
        raise Gap("key of type " + c.eng.T(t)["name"])
    return key_of(c, v, t)


def key_of(c, v, ty):
    """What keys are compared by: bytes of a text, a number, or a tuple of these."""
    x = c.eng.T(ty)
    for _ in range(6):
        if x["k"] != "ref" or c.eng.T(x["e"])["k"] in ("str", "slice") or c.eng.T(x["e"])["size"] == -1:
            break
        ty = x["e"]
        v = c.eng.load(c.st, c.eng.as_ptr(v), ty)
        x = c.eng.T(ty)
    k = x["k"]
    if k in ("int", "uint", "char"):
        return c.eng.num(v)
    if k == "bool":
        return c.eng.cond_bit(c.st, v)
    if k == "tuple" or (k == "adt" and x["ak"] == "enum") or (k == "adt" and x["p"].startswith(("flatdata::", "fdharness::"))):
        if is_num(v):
            return v
        return (v.var,) + tuple(key_of(c, f, t) for f, t in zip(v.f, c.eng.fields(ty, v.var)))
    b = text_arg(c, v)
    if "path::Path" in x["name"]:
        return lit(norm(const(b)))
    return b


def keys_eq(c, a, b):
    if isinstance(a, Bytes) and isinstance(b, Bytes):
        return c.eng.test(c.st, models.bytes_eq_cond(c, a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(keys_eq(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Bytes, tuple)) or isinstance(b, (Bytes, tuple)):
        return False
    return c.eng.test(c.st, c.eng.eq(a, b))


def sort_key(k):
    """Position of a key in the order of the map; keys which are not constant have none."""
    if isinstance(k, Bytes):
        s = const_bytes(k)
        if s is None:
            raise Gap("order of unknown keys")
        return s
    if isinstance(k, tuple):
        return tuple(sort_key(x) for x in k)
    if not isinstance(k, int):
        raise Gap("order of unknown keys")
    return k


def in_order(es):
    return sorted(es, key=lambda e: sort_key(e[0])) if len(es) > 1 else list(es)


def map_of(c, v=None):
    v = owned(c, deref(c, c.args[0] if v is None else v))
    if not (isinstance(v, Obj) and v.k == "map"):
        raise Gap("not a map: %r" % (v,))
    return v.v[0]


def map_find(c, h, key):
    for i, (k, kv, vb) in enumerate(c.st.mem[h]):
        if keys_eq(c, k, key):
            return i
    return None


@m("~^<" + MAP + "<K, V.*> as core::default::Default>::default$", "~^" + MAP + "::<K, V(, .*)?>::(new|with_capacity)$")
def map_new(c):
    c.st.n += 1
    h = ("map", c.st.n)
    c.st.mem[h] = ()
    return Obj("map", h)


@m("~^" + MAP + "::<K, V(, .*)?>::contains_key$")
def map_contains(c):
    return map_find(c, map_of(c), map_key(c, 1)) is not None


@m("~^" + MAP + "::<K, V(, .*)?>::(get|get_mut)$")
def map_get(c):
    h = map_of(c)
    i = map_find(c, h, map_key(c, 1))
    return none(c) if i is None else some(c, Ptr(c.st.mem[h][i][2]))


@m("~^<" + MAP + "<K, V(, .*)?> as core::ops::index::Index<&Q>>::index$")
def map_index(c):
    h = map_of(c)
    i = map_find(c, h, map_key(c, 1))
    if i is None:
        raise Panic("no entry found for key")
    return Ptr(c.st.mem[h][i][2])


@m("~^" + MAP + "::<K, V(, .*)?>::insert$")
def map_insert(c):
    h = map_of(c)
    key = map_key(c, 1)
    i = map_find(c, h, key)
    es = c.st.mem[h]
    if i is None:
        b = c.eng.alloc(c.st, c.args[2], c.argtys[2])
        c.st.mem[h] = es + ((key, c.args[1], b),)
        return none(c)
    b = es[i][2]
    old = c.st.mem[b]
    c.st.mem[b] = c.args[2]
    models.release_value(c.eng, c.st, c.args[1])
    return some(c, old)


@m("~^" + MAP + "::<K, V(, .*)?>::(remove|remove_entry)$")
def map_remove(c):
    h = map_of(c)
    i = map_find(c, h, map_key(c, 1))
    if i is None:
        return none(c)
    es = c.st.mem[h]
    k, kv, b = es[i]
    c.st.mem[h] = es[:i] + es[i + 1:]
    v = c.st.mem.pop(b)
    if c.f["p"].endswith("entry"):
        return some(c, pair(c, kv, v))
    models.release_value(c.eng, c.st, kv)
    return some(c, v)


def pair(c, a, b):
    return Agg(c.eng.fields(c.dty, models.ty_variant(c.eng, c.dty, "Some"))[0], 0, [a, b])


@m("~^" + MAP + "::<K, V(, .*)?>::get_key_value$")
def map_get_kv(c):
    h = map_of(c)
    i = map_find(c, h, map_key(c, 1))
    if i is None:
        return none(c)
    k, kv, b = c.st.mem[h][i]
    return some(c, pair(c, Ptr(c.eng.alloc(c.st, kv)), Ptr(b)))


@m("~^" + MAP + "::<K, V(, .*)?>::(first_key_value|last_key_value|pop_first|pop_last)$")
def map_end(c):
    h = map_of(c)
    es = in_order(c.st.mem[h])
    if not es:
        return none(c)
    op = c.f["p"].split("::")[-1]
    e = es[0 if "first" in op else -1]
    if op.startswith("pop"):
        c.st.mem[h] = tuple(x for x in c.st.mem[h] if x is not e)
        return some(c, pair(c, e[1], c.st.mem.pop(e[2])))
    return some(c, pair(c, Ptr(c.eng.alloc(c.st, e[1])), Ptr(e[2])))


@m("~^" + MAP + "::<K, V(, .*)?>::(range|range_mut)$")
def map_range(c):
    t = c.eng.T(c.argtys[1])
    q = t.get("p", "").rsplit("::", 1)[-1]
    r = c.args[1]
    if q not in ("RangeFull", "Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive"):
        raise Gap("range of a map")
    fs = [sort_key(key_of(c, v, ty)) for v, ty in list(zip(r.f, c.eng.fields(c.argtys[1])))[:2]] if q != "RangeFull" else []
    lo = fs[0] if q in ("Range", "RangeFrom", "RangeInclusive") else None
    hi = fs[-1] if q in ("Range", "RangeTo", "RangeInclusive", "RangeToInclusive") else None
    out = []
    for k, kv, b in in_order(c.st.mem[map_of(c)]):
        s = sort_key(k)
        if (lo is None or s >= lo) and (hi is None or s < hi or (s == hi and "Inclusive" in q)):
            out.append((Ptr(c.eng.alloc(c.st, kv)), Ptr(b)))
    return Obj("mapiter", tuple(out))


@m("~^" + MAP + "::<K, V(, .*)?>::clear$")
def map_clear(c):
    h = map_of(c)
    release_map(c.eng, c.st, h)
    c.st.mem[h] = ()


@m("~^" + MAP + "::<K, V(, .*)?>::(len|is_empty)$")
def map_len(c):
    n = len(c.st.mem[map_of(c)])
    return n if c.f["p"].endswith("::len") else n == 0


@m("~^" + MAP + "::<K, V(, .*)?>::entry$")
def map_entry(c):
    h, key = map_of(c), map_key(c, 1)
    i = map_find(c, h, key)
    return mk(c.eng, c.dty, "Vacant" if i is None else "Occupied", Obj("entry", h, key, c.args[1], i))


ENTRY = "(?:alloc::collections::btree::map::entry|std::collections::hash::map)::"


@m("~^" + ENTRY + "OccupiedEntry::<.*>::(into_mut|get|get_mut)$")
def entry_get(c):
    en = owned(c, c.args[0])
    en = owned(c, deref(c, en)) if isinstance(en, Ptr) else en
    return Ptr(c.st.mem[en.v[0]][en.v[3]][2])


@m("~^" + ENTRY + "OccupiedEntry::<.*>::(remove|remove_entry)$")
def entry_remove(c):
    en = owned(c, c.args[0])
    h, key, kv, i = en.v
    es = c.st.mem[h]
    c.st.mem[h] = es[:i] + es[i + 1:]
    v = c.st.mem.pop(es[i][2])
    models.release_value(c.eng, c.st, kv)
    if c.f["p"].endswith("_entry"):
        return Agg(c.dty, 0, [es[i][1], v])
    models.release_value(c.eng, c.st, es[i][1])
    return v


@m("~^" + ENTRY + "(OccupiedEntry|VacantEntry)::<.*>::key$")
def entry_key(c):
    en = owned(c, deref(c, c.args[0]))
    return Ptr(c.eng.alloc(c.st, c.st.mem[en.v[0]][en.v[3]][1] if en.v[3] is not None else en.v[2]))


@m("~^" + ENTRY + "OccupiedEntry::<.*>::insert$")
def entry_replace(c):
    en = owned(c, deref(c, c.args[0]))
    b = c.st.mem[en.v[0]][en.v[3]][2]
    old = c.st.mem[b]
    c.st.mem[b] = c.args[1]
    return old


@m("~^" + ENTRY + "VacantEntry::<.*>::(insert|insert_entry)$")
def entry_insert(c):
    h, key, kv, _ = owned(c, c.args[0]).v
    b = c.eng.alloc(c.st, c.args[1], c.argtys[1])
    c.st.mem[h] = c.st.mem[h] + ((key, kv, b),)
    if c.f["p"].endswith("_entry"):
        return Obj("entry", h, key, kv, len(c.st.mem[h]) - 1)
    return Ptr(b)


@m("~^" + MAP + "::<K, V(, .*)?>::(keys|values|iter|values_mut|iter_mut)$")
def map_iter(c):
    n = c.f["p"].split("::")[-1]
    out = []
    for k, kv, b in in_order(c.st.mem[map_of(c)]):
        kp = Ptr(c.eng.alloc(c.st, kv))
        out.append({"keys": (kp,), "values": (Ptr(b),), "values_mut": (Ptr(b),)}.get(n, (kp, Ptr(b))))
    return Obj("mapiter", tuple(out))


@m("~^<&'?a? ?" + MAP + "<K, V(, .*)?> as core::iter::traits::collect::IntoIterator>::into_iter$")
def map_into_iter(c):
    out = []
    for k, kv, b in in_order(c.st.mem[map_of(c)]):
        out.append((Ptr(c.eng.alloc(c.st, kv)), Ptr(b)))
    return Obj("mapiter", tuple(out))


@m("~^<(alloc::collections::btree::map|std::collections::hash::map)::(Keys|Values|ValuesMut|Iter|IterMut|Range|RangeMut)<'a, K, V> as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)$",
   "~^<std::collections::hash::set::Iter<'a, K> as core::iter::traits::iterator::Iterator>::next$")
def map_next(c):
    it = owned(c, deref(c, c.args[0]))
    if not (isinstance(it, Obj) and it.k == "mapiter"):
        raise Gap("iterator over a map")
    back = c.f["p"].endswith("back")
    c.eng.store(c.st, c.eng.as_ptr(c.args[0]), c.eng.T(c.argtys[0])["e"], Obj("mapiter", it.v[0][:-1] if back else it.v[0][1:]))
    if not it.v[0]:
        return none(c)
    x = it.v[0][-1 if back else 0]
    if len(x) == 1:
        return some(c, x[0])
    t = c.eng.T(c.dty)
    return some(c, Agg(t["v"][models.ty_variant(c.eng, c.dty, "Some")]["f"][0][1], 0, list(x)))


@m("~^<" + MAP + "<K, V(, .*)?> as core::iter::traits::collect::IntoIterator>::into_iter$", "~^" + MAP + "::<K, V(, .*)?>::(into_keys|into_values)$")
def map_into_values(c):
    v = owned(c, c.args[0])
    if not (isinstance(v, Obj) and v.k == "map"):
        raise Gap("not a map: %r" % (v,))
    n = c.f["p"].split("::")[-1]
    out = []
    for k, kv, b in in_order(c.st.mem.pop(v.v[0])):
        x = c.st.mem.pop(b)
        if n == "into_keys":
            models.release_value(c.eng, c.st, x)
        if n == "into_values":
            models.release_value(c.eng, c.st, kv)
        out.append({"into_keys": (kv,), "into_values": (x,)}.get(n, (kv, x)))
    return Obj("mapinto", tuple(out))


@m("~^<(alloc::collections::btree::map|std::collections::hash::map)::Into(Iter|Keys|Values)<K, V(, .*)?> as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)$")
def map_into_next(c):
    it = owned(c, deref(c, c.args[0]))
    if not (isinstance(it, Obj) and it.k == "mapinto"):
        raise Gap("iterator over a map")
    back = c.f["p"].endswith("back")
    c.eng.store(c.st, c.eng.as_ptr(c.args[0]), c.eng.T(c.argtys[0])["e"], Obj("mapinto", it.v[0][:-1] if back else it.v[0][1:]))
    if not it.v[0]:
        return none(c)
    x = it.v[0][-1 if back else 0]
    if len(x) == 1:
        return some(c, x[0])
    t = c.eng.T(c.dty)
    return some(c, Agg(t["v"][models.ty_variant(c.eng, c.dty, "Some")]["f"][0][1], 0, list(x)))


def release_map(eng, st, h, depth=0):
    for k, kv, b in st.mem.get(h, ()):
        models.release_value(eng, st, kv, depth + 1)
        models.release_value(eng, st, st.mem.pop(b, None), depth + 1)


# ---------------------------------------------------------------- file system
def fs(st):
    return st.ghost.get("fs", {})


def dirs(st):
    return st.ghost.get("dirs", frozenset())


def fs_set(st, name, fid):
    d = dict(fs(st))
    if fid is None:
        d.pop(name, None)
    else:
        d[name] = fid
    st.ghost["fs"] = d


def add_file(st, name, data):
    """For set-up: a file with this content, in directories made for it."""
    st.n += 1
    st.mem[("gf", st.n)] = data
    fs_set(st, name, st.n)
    add_dirs(st, parent(name))
    return st.n


def add_dirs(st, d):
    ds = set(dirs(st))
    while d and d != b"/":
        ds.add(d)
        d = parent(d)
    st.ghost["dirs"] = frozenset(ds)


def is_dir(st, d):
    return d in (b"", b"/") or d in dirs(st)


def fs_path(c, i):
    return norm(const(text_arg(c, c.args[i])))


def stat_fails(c):
    """Whether a file is there is always found out; the checks of failures are about what may change it."""
    return False


@m("~^std::path::Path::(exists|is_file|is_dir)$", "std::fs::exists")
def path_exists(c):
    p = fs_path(c, 0)
    f, d = p in fs(c.st), is_dir(c.st, p) and p != b""
    n = c.f["p"].split("::")[-1]
    r = {"exists": f or d, "is_file": f, "is_dir": d}[n]
    return ok(c, r) if c.f["p"] == "std::fs::exists" else r


@m("std::path::Path::try_exists")
def path_try_exists(c):
    p = fs_path(c, 0)
    return ok(c, p in fs(c.st) or is_dir(c.st, p) and p != b"")


def file_value(c, fid):
    c.st.n += 1
    sid = c.st.n
    c.st.mem[("gp", sid)] = 0
    return Obj("gstream", sid, fid)


def open_file(c, p, read, write, create, truncate, new=False, append=False):
    st = c.st
    if p in dirs(st) or p in (b"", b"/"):
        return err(c, ghost.io_error("IsADirectory")) if write else None
    fid = fs(st).get(p)
    if fid is None:
        if not (create or new) or not is_dir(st, parent(p)):
            return err(c, ghost.io_error("NotFound"))
        if ghost.fails(c, "create"):
            return err(c, ghost.io_error())
        st.n += 1
        fid = st.n
        st.mem[("gf", fid)] = Bytes(())
        fs_set(st, p, fid)
        st.events += (("create", fid, p),)
        return ok(c, file_value(c, fid))
    if new:
        return err(c, ghost.io_error("AlreadyExists"))
    if ghost.fails(c, "open"):
        return err(c, ghost.io_error())
    if truncate:
        st.mem[("gf", fid)] = Bytes(())
        st.events += (("create", fid, p),)
    v = file_value(c, fid)
    if append:
        raise Gap("append mode")
    return ok(c, v)


@m("std::fs::File::create")
def file_create(c):
    return open_file(c, fs_path(c, 0), False, True, True, True)


@m("std::fs::File::create_new")
def file_create_new(c):
    return open_file(c, fs_path(c, 0), True, True, True, False, new=True)


@m("std::fs::File::open")
def file_open(c):
    r = open_file(c, fs_path(c, 0), True, False, False, False)
    if r is None:
        raise Gap("opening a directory")
    return r


OPTIONS = ("read", "write", "append", "truncate", "create", "create_new")


@m("std::fs::OpenOptions::new", "std::fs::File::options")
def options_new(c):
    return Obj("oo", frozenset())


@m("~^std::fs::OpenOptions::(%s)$" % "|".join(OPTIONS))
def options_set(c):
    o = deref(c, c.args[0])
    n = c.f["p"].split("::")[-1]
    on = c.eng.test(c.st, c.eng.to_cond(c.args[1]))
    p = c.eng.as_ptr(c.args[0])
    s = o.v[0] | {n} if on else o.v[0] - {n}
    c.eng.store(c.st, p, c.eng.T(c.argtys[0])["e"], Obj("oo", s))
    return p


@m("std::fs::OpenOptions::open")
def options_open(c):
    o = deref(c, c.args[0]).v[0]
    if ("create" in o or "truncate" in o) and not ("write" in o or "append" in o):
        return err(c, ghost.io_error("InvalidInput"))
    r = open_file(c, fs_path(c, 1), "read" in o, "write" in o, "create" in o, "truncate" in o, "create_new" in o, "append" in o)
    if r is None:
        raise Gap("opening a directory")
    return r


def file_of(c, i=0):
    v = owned(c, deref(c, c.args[i]))
    if not (isinstance(v, Obj) and v.k == "gstream"):
        raise Gap("not a file: %r" % (v,))
    return v


@m("std::fs::File::metadata")
def file_metadata(c):
    f = file_of(c)
    if ghost.fails(c, "metadata"):
        return err(c, ghost.io_error())
    return ok(c, Obj("meta", ("file", f.v[1])))


@m("std::fs::metadata", "std::path::Path::metadata", "std::fs::symlink_metadata")
def path_metadata(c):
    p = fs_path(c, 0)
    fid = fs(c.st).get(p)
    if fid is not None or is_dir(c.st, p) and p != b"":
        if ghost.fails(c, "metadata"):
            return err(c, ghost.io_error())
        return ok(c, Obj("meta", ("dir",) if fid is None else ("file", fid)))
    return err(c, ghost.io_error("NotFound"))


@m("~^std::fs::Metadata::(len|is_file|is_dir)$")
def metadata_len(c):
    x = deref(c, c.args[0]).v[0]
    n = c.f["p"].split("::")[-1]
    if n == "len":
        return blen(c.st.mem[("gf", x[1])]) if x[0] == "file" else 4096
    return (n == "is_file") == (x[0] == "file")


@m("std::fs::File::set_len")
def file_set_len(c):
    f = file_of(c)
    if ghost.fails(c, "set_len"):
        return err(c, ghost.io_error())
    e, st, k = c.eng, c.st, ("gf", f.v[1])
    n, b = e.num(c.args[1]), c.st.mem[("gf", f.v[1])]
    l = blen(b)
    st.mem[k] = e.cut(st, b, 0, n) if e.test(st, e.ge(l, n)) else seg_norm(b.s + ((sub(n, l), ("z",)),))
    return ok(c)


@m("std::fs::File::try_clone")
def file_try_clone(c):
    return ok(c, file_of(c))


@m("~^std::fs::File::(sync_all|sync_data)$")
def file_sync(c):
    if ghost.fails(c, "sync"):
        return err(c, ghost.io_error())
    return ok(c)


@m("std::fs::create_dir_all", "std::fs::create_dir")
def create_dir_all(c):
    p = fs_path(c, 0)
    one = c.f["p"].endswith("create_dir")
    if one and (p in fs(c.st) or is_dir(c.st, p)):
        return err(c, ghost.io_error("AlreadyExists"))
    if one and not is_dir(c.st, parent(p)):
        return err(c, ghost.io_error("NotFound"))
    if not is_dir(c.st, p):
        d = p
        while d:
            if d in fs(c.st):
                return err(c, ghost.io_error("AlreadyExists"))
            d = parent(d) if d != b"/" else b""
        if ghost.fails(c, "create_dir"):
            return err(c, ghost.io_error())
        add_dirs(c.st, p)
    return ok(c)


@m("std::fs::remove_file")
def remove_file(c):
    p = fs_path(c, 0)
    if p not in fs(c.st):
        return err(c, ghost.io_error("NotFound"))
    if ghost.fails(c, "remove"):
        return err(c, ghost.io_error())
    fs_set(c.st, p, None)
    return ok(c)


@m("std::fs::rename")
def rename(c):
    a, b = fs_path(c, 0), fs_path(c, 1)
    fid = fs(c.st).get(a)
    if fid is None or not is_dir(c.st, parent(b)):
        return err(c, ghost.io_error("NotFound"))
    if ghost.fails(c, "rename"):
        return err(c, ghost.io_error())
    fs_set(c.st, a, None)
    fs_set(c.st, b, fid)
    return ok(c)


@m("std::fs::read")
def fs_read(c):
    fid = fs(c.st).get(fs_path(c, 0))
    if fid is None:
        return err(c, ghost.io_error("NotFound"))
    if ghost.fails(c, "read"):
        return err(c, ghost.io_error())
    return ok(c, new_vec(c, c.st.mem[("gf", fid)]))


# ---------------------------------------------------------------- mappings
@m("memmap::Mmap::map")
def mmap_map(c):
    f = file_of(c)
    e, st = c.eng, c.st
    n = blen(st.mem[("gf", f.v[1])])
    if e.test(st, e.eq(n, 0)):
        return err(c, ghost.io_error("InvalidInput"))
    if ghost.fails(c, "map"):
        return err(c, ghost.io_error())
    st.n += 1
    b = ("mm", st.n)
    st.mem[b] = Obj("alias", ("gf", f.v[1]))
    return ok(c, Obj("mmap", b, n))


def mmap_of(c):
    v = owned(c, deref(c, c.args[0]))
    if not (isinstance(v, Obj) and v.k == "mmap"):
        raise Gap("not a mapping: %r" % (v,))
    return v


@m("<memmap::Mmap as core::ops::deref::Deref>::deref", "~^<memmap::Mmap as core::convert::AsRef<\\[u8\\]>>::as_ref$")
def mmap_deref(c):
    v = mmap_of(c)
    return Ptr(v.v[0], (), 0, v.v[1])


# ---------------------------------------------------------------- cursors, buffered writers
def field_ix(c, ty, n):
    t = c.eng.T(ty)
    for i, f in enumerate(t["v"][0]["f"]):
        if f[0] == n:
            return i
    raise Gap("no field %s in %s" % (n, t["name"]))


@m("core::io::cursor::Cursor::<T>::new", "std::io::cursor::Cursor::<T>::new")
def cursor_new(c):
    f = [None, None]
    f[field_ix(c, c.dty, "inner")] = c.args[0]
    f[field_ix(c, c.dty, "pos")] = 0
    return Agg(c.dty, 0, f)


def cursor_at(c, p=None):
    p = c.eng.as_ptr(c.args[0] if p is None else p)
    v = c.eng.get_path(c.eng.base_value(c.st, p.base), p.path)
    while isinstance(v, Agg) and len(v.f) == 1:
        p = p.with_(path=p.path + (0,))
        v = v.f[0]
    if not isinstance(v, Agg) or v.ty is None or "::Cursor<" not in c.eng.T(v.ty)["name"]:
        raise Gap("not a cursor: %r" % (v,))
    return p, v


@m("~^(core|std)::io::cursor::Cursor::<T>::(get_ref|get_mut)$")
def cursor_get_ref(c):
    p, v = cursor_at(c)
    return Ptr(p.base, p.path + (field_ix(c, v.ty, "inner"),))


@m("~^(core|std)::io::cursor::Cursor::<T>::(position)$")
def cursor_position(c):
    p, v = cursor_at(c)
    return v.f[field_ix(c, v.ty, "pos")]


@m("~^(core|std)::io::cursor::Cursor::<T>::(set_position)$")
def cursor_set_position(c):
    p, v = cursor_at(c)
    cursor_set(c, p, v, "pos", c.args[1])


@m("~^(core|std)::io::cursor::Cursor::<T>::(into_inner)$")
def cursor_into_inner(c):
    v = c.args[0]
    return v.f[field_ix(c, v.ty, "inner")]


def cursor_set(c, p, v, field, x):
    f = list(v.f)
    f[field_ix(c, v.ty, field)] = x
    c.eng.store(c.st, p.with_(meta=None), v.ty, Agg(v.ty, v.var, f))


def cursor_op(c, p, v):
    e, st = c.eng, c.st
    op = c.f["p"].split("::")[-1]
    p = p.with_(meta=None)
    pos = e.num(v.f[field_ix(c, v.ty, "pos")])
    vec = owned(c, v.f[field_ix(c, v.ty, "inner")])
    if not isinstance(vec, Vec):
        raise Gap("cursor over %r" % (vec,))
    b = content(c, vec)
    if op in ("write_all", "write", "write_fmt"):
        data = bytes_at(c, c.args[1]) if op != "write_fmt" else models.fmt_bytes(c, c.args[1])
        op = "write_all" if op == "write_fmt" else op
        n = blen(data)
        new = ghost.put(e, st, b, pos, data)
        if blen(new) == blen(b):
            st.mem[vec.h] = new
        else:
            st.mem.pop(vec.h)
            vec = Vec(e.alloc(st, new))
        f = list(v.f)
        f[field_ix(c, v.ty, "inner")] = vec
        f[field_ix(c, v.ty, "pos")] = add(pos, n)
        e.store(st, p, v.ty, Agg(v.ty, v.var, f))
        return ok(c, None if op == "write_all" else n)
    if op == "flush":
        return ok(c)
    if op in ("seek", "rewind"):
        new = ghost.seek_to(c, pos, blen(b)) if op == "seek" else 0
        if new is None:
            return err(c, ghost.io_error("InvalidInput"))
        cursor_set(c, p, v, "pos", new)
        return ok(c, new if op == "seek" else None)
    if op == "stream_position":
        return ok(c, pos)
    raise Gap("cursor operation " + op)


@m("~^(std|alloc)::io::buffered::bufwriter::BufWriter::<W>::(new|with_capacity)$")
def bufw_new(c):
    st = c.st
    st.n += 1
    b = ("bw", st.n)
    st.mem[b] = (owned(c, c.args[-1]), Bytes(()))
    return Obj("bufw", b)


def bufw_of(c, i=0):
    v = owned(c, deref(c, c.args[i]))
    if not (isinstance(v, Obj) and v.k == "bufw"):
        raise Gap("not a buffered writer: %r" % (v,))
    return v


def bufw_flush(c, b):
    """Returns whether it failed."""
    f, pend = c.st.mem[b]
    if blen(pend) == 0 and isinstance(blen(pend), int):
        return False
    if isinstance(f, Vec):
        old = content(c, f)
        c.st.mem.pop(f.h)
        c.st.mem[b] = (Vec(c.eng.alloc(c.st, seg_norm(list(old.s) + list(pend.s)))), Bytes(()))
        return False
    if not (isinstance(f, Obj) and f.k == "gstream"):
        raise Gap("buffered writer over %r" % (f,))
    bad = ghost.fails(c, "write")
    if not bad:
        ghost.write_at(c, f, pend)
    c.st.mem[b] = (f, Bytes(()))
    return bad


def bufw_op(c, p, v):
    st, b = c.st, v.v[0]
    op = c.f["p"].split("::")[-1]
    f, pend = st.mem[b]
    if op in ("write_all", "write", "write_fmt"):
        data = bytes_at(c, c.args[1]) if op != "write_fmt" else models.fmt_bytes(c, c.args[1])
        op = "write_all" if op == "write_fmt" else op
        st.mem[b] = (f, seg_norm(pend.s + data.s))
        return ok(c, None if op == "write_all" else blen(data))
    if bufw_flush(c, b):
        return err(c, ghost.io_error())
    if op == "flush":
        return ok(c)
    return ghost.stream_op(c, p, f)


class At:
    """Just enough of a call for releasing a value."""
    def __init__(self, eng, st):
        self.eng, self.st = eng, st


def release_bufw(eng, st, v):
    # an error while writing the rest is ignored
    bufw_flush(At(eng, st), v.v[0])
    st.mem.pop(v.v[0], None)


def dispatch(c, p=None):
    """Operations of streams, whatever they are made of."""
    if p is None:
        p = c.eng.as_ptr(c.args[0])
    if p.base[0] == "gs":
        return NotImplemented
    try:
        v = c.eng.get_path(c.eng.base_value(c.st, p.base), p.path)
    except Gap:
        return NotImplemented
    while isinstance(v, Agg) and len(v.f) == 1:
        p = p.with_(path=p.path + (0,))
        v = v.f[0]
    if isinstance(v, Obj) and v.k == "gstream":
        return ghost.stream_op(c, p, v)
    if isinstance(v, Obj) and v.k == "bufw":
        return bufw_op(c, p, v)
    if isinstance(v, Agg) and v.ty is not None and "::Cursor<" in c.eng.T(v.ty)["name"]:
        return cursor_op(c, p, v)
    return NotImplemented


HOOKS = {"virtual": dispatch}
for n in ("write_all", "write", "flush"):
    HOOKS["core::io::write::Write::" + n] = dispatch
for n in ("seek", "rewind", "stream_position"):
    HOOKS["core::io::seek::Seek::" + n] = dispatch


def direct(c):
    r = dispatch(c)
    if r is NotImplemented and c.f.get("blocks"):
        return models.step_into(c)
    return r


PATTERNS.insert(0, (__import__("re").compile("^<(&std::fs::File|std::fs::File|core::io::cursor::Cursor<.*>|(std|alloc)::io::buffered::bufwriter::BufWriter<.*>) as (core|std)::io::(write::Write|seek::Seek)>::(write_all|write|flush|seek|rewind|stream_position)$"), direct))
PATTERNS.insert(0, (__import__("re").compile("^(core|std)::io::(cursor::|impls::)?<impl (core|std)::io::(write::|seek::|Write|Seek).* for (core::io::cursor::)?Cursor<.*>>::(write_all|write|flush|seek|rewind|stream_position)$"), direct))
