"""Sharing between threads. What has parts that several owners use without synchronisation (by the structure of the
types, as in the dump) must not implement Send or Sync: a program which requires it must not compile."""
import json
import borrow_checks as W

# type in a client program -> how the same kind of type is called in the dump
TYPES = {
    "MemoryResourceStorage": "flatdata::memstorage::MemoryResourceStorage",
    "FileResourceStorage": "flatdata::filestorage::FileResourceStorage",
    "ExternalVector<'static, P>": "flatdata::vector::ExternalVector",
    "MultiVector<'static, Idx, Var>": "flatdata::multivector::MultiVector",
    "Arch": "archives::Mixed",
    "ArchBuilder": "archives::MixedBuilder",
    "Sub": "archives::Plain",
    "SubBuilder": "archives::PlainBuilder",
    "Vector<P>": "flatdata::vector::Vector",
    "StructBuf<P>": "flatdata::structbuf::StructBuf",
    "ArrayView<'static, P>": "flatdata::arrayview::ArrayView",
    "<ArrayView<'static, P> as IntoIterator>::IntoIter": "flatdata::arrayview::ArrayViewIter",
    "MultiArrayView<'static, Idx, Var>": "flatdata::multiarrayview::MultiArrayView",
    "<MultiArrayView<'static, Idx, Var> as IntoIterator>::IntoIter": "flatdata::multiarrayview::MultiArrayViewIter",
    "<<MultiArrayView<'static, Idx, Var> as IntoIterator>::IntoIter as Iterator>::Item": "flatdata::multiarrayview::MultiArrayViewItemIter",
}
LOCKS = ("std::sync::", "alloc::sync::", "core::sync::", "std::thread::", "std::fs::", "std::io::", "std::path::", "memmap::")
TRAITS = ("Send", "Sync")


def name(t, kind):
    return "thread-%s-%s" % ("".join(c if c.isalnum() else "-" for c in t).strip("-").lower(), kind.lower())


for t in TYPES:
    for k in TRAITS:
        W.w(name(t, k), "%s is %s" % (t, k), "", "fn f<T>() {} f::<%s>();" % t, "fn f<T: %s>() {} f::<%s>();" % (k, t))


class Structure:
    def __init__(self, dump):
        self.T = dump["types"]

    def find(self, path):
        for i, t in enumerate(self.T):
            if t["k"] == "adt" and t["p"] == path:
                return i
        return None

    def parts(self, i):
        t = self.T[i]
        return [(f[0], f[1]) for v in t["v"] for f in v["f"]]

    def why(self, i, kind, seen=frozenset(), at=""):
        """Why the type must not be Send (Sync): a path to shared state without synchronisation, None if there is none.
        Raw pointers count as what they are declared to be: nothing is known to be shared through them."""
        if (i, kind) in seen:
            return None
        seen = seen | {(i, kind)}
        t = self.T[i]
        k = t["k"]
        if k == "ref":
            return self.why(t["e"], "Send" if t["mut"] and kind == "Send" else "Sync", seen, at + "&")
        if k in ("array", "slice"):
            return self.why(t["e"], kind, seen, at + "[]")
        if k == "tuple":
            return self.first((("%d" % n, f) for n, f in enumerate(t.get("f", ()))), kind, seen, at)
        if k == "dyn":
            if kind in t["name"].split("dyn", 1)[1].replace("+", " ").replace("core::marker::", "").split():
                return None
            # one of the two storages
            if t["p"].endswith("::ResourceStorage"):
                return self.first(((p.split("::")[-1], self.find(p)) for p in list(TYPES.values())[:2]), kind, seen, at + " as ")
            return None
        if k != "adt":
            return None
        p = t["p"]
        if p.endswith(("::rc::Rc", "::rc::Weak")):
            return "%s: %s" % (at, t["name"])
        if p in ("core::cell::UnsafeCell", "core::cell::Cell", "core::cell::RefCell", "core::cell::once::OnceCell"):
            return "%s: %s" % (at, t["name"]) if kind == "Sync" else self.first(((x[0], x[1]) for x in self.parts(i)), "Send", seen, at)
        if p.endswith("::Arc"):
            return self.first((("Arc", a) for a in t["a"]), "Sync", seen, at) or self.first((("Arc", a) for a in t["a"]), "Send", seen, at)
        if p.endswith(("::Mutex", "::RwLock", "::OnceLock", "::LazyLock")):
            return self.first((("lock", a) for a in t["a"]), "Send" if p.endswith("Mutex") else kind, seen, at)
        if p.startswith(LOCKS):
            return None
        if p.startswith(("core::", "alloc::", "std::")):
            # containers own their arguments
            return self.first((("", a) for a in t["a"]), kind, seen, at)
        return self.first(self.parts(i), kind, seen, at)

    def first(self, parts, kind, seen, at):
        for n, f in parts:
            r = None if f is None or not isinstance(f, int) or f >= len(self.T) else self.why(f, kind, seen, at + ("." if n and not at.endswith(" as ") else "") + n)
            if r:
                return r
        return None


def threads(ctx):
    dump = json.load(open(ctx.path))
    s = Structure(dump)
    todo = []
    for t, p in TYPES.items():
        i = s.find(p)
        if i is None:
            ctx.gap("type %s is not in the dump" % p)
            continue
        for k in TRAITS:
            r = s.why(i, k)
            if r:
                todo.append((t, k, r))
            else:
                ctx.ob("nothing shared without synchronisation")
    res = W.compile_all([name(t, k) for t, k, _ in todo])
    for t, k, r in todo:
        g, b = res[name(t, k)]
        if g is None or b is None or g:
            ctx.gap("witness %s was not compiled: %s" % (name(t, k), g and g[0][1][:100]))
        elif not b:
            ctx.viol("shared: %s" % t, "%s implements %s, so that programs can use it in several threads, but it shares state without synchronisation: %s%s" % (t, k, t, r))
        elif {c for c, _ in b if c} == {"E0277"}:
            ctx.ob("not %s" % k)
        else:
            ctx.gap("witness %s fails for another reason: %s" % (name(t, k), b[0]))
    ctx.notes["witnesses"] = len(todo)
    ctx.notes["shared"] = ["%s must not be %s: %s%s" % (t, k, t, r) for t, k, r in todo]
    # global state
    n = 0
    for a in dump["allocs"].values():
        if a["k"] == "static" and a.get("mut") and not a.get("tl") and not a["p"].startswith(("std::", "core::", "alloc::")):
            ctx.viol("global state", "the library uses the global variable %s, which every thread can change without synchronisation" % a["p"])
        n += 1
    ctx.ob("no global state without synchronisation")
    ctx.notes["constants and statics"] = n
