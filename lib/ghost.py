"""An abstract resource storage: what every storage promises to the code above it.

Files are byte sequences in the abstract state, names may be symbolic, and every operation may fail
if faults are enabled. All operations are recorded in the state's events."""
from engine import *
from terms import *
import models


class Names:
    """Just enough of a call for models.bytes_eq_cond."""
    def __init__(self, eng, st):
        self.eng, self.st = eng, st


def find(e, st, name):
    for n, fid in st.ghost.get("names", ()):
        if e.test(st, models.bytes_eq_cond(Names(e, st), n, name)):
            return fid
    return None


def make(e, st, name, content=None):
    """Creates or truncates the file."""
    fid = find(e, st, name)
    if fid is None:
        st.n += 1
        fid = st.n
        st.ghost["names"] = st.ghost.get("names", ()) + ((name, fid),)
    st.mem[("gf", fid)] = Bytes(()) if content is None else content
    return fid


def content(e, st, name):
    fid = find(e, st, name)
    return None if fid is None else st.mem[("gf", fid)]


def storage(w, faults=False, prefix=None):
    w.st.mem[("gs", 0)] = Obj("gs", prefix)
    w.st.ghost["faults"] = faults
    return Ptr(("gs", 0), (), None, ("vt", None))


def copy_files(src, dst, files=None):
    """The files of one state put into another one."""
    dst.ghost["names"] = src.ghost.get("names", ())
    for k, v in src.mem.items():
        if k[0] == "gf":
            dst.mem[k] = v
    for fid, b in (files or {}).items():
        dst.mem[("gf", fid)] = b


def fails(c, what):
    """Does this operation fail? (Follows both ways.)"""
    f = c.st.ghost.get("faults")
    if not f:
        return False
    if c.eng.nondet(c.st, 2, what):
        c.st.events += (("fault", what),)
        return True
    return False


def io_error(kind="device"):
    return Obj("ioerr", kind)


def full_name(c, s, b):
    pre = s.v[0]
    return b if pre is None else seg_norm(pre.s + lit(b"/").s + b.s)


def storage_op(c, p, s):
    e, st = c.eng, c.st
    op = c.f["p"].split("::")[-1]
    if op in ("create_output_stream", "read_resource", "exists", "subdir"):
        name = full_name(c, s, models.bytes_at(c, c.args[1]))
    if op == "create_output_stream":
        if fails(c, "create"):
            return models.err(c, io_error())
        fid = make(e, st, name)
        st.n += 1
        sid = st.n
        st.mem[("gp", sid)] = 0
        st.events += (("create", fid, name),)
        return models.ok(c, stream_rc(c, Obj("gstream", sid, fid)))
    if op == "read_resource":
        fid = find(e, st, name)
        if fid is None:
            return models.err(c, io_error("NotFound"))
        if fails(c, "read"):
            return models.err(c, io_error())
        b = st.mem[("gf", fid)]
        st.events += (("read", fid, name),)
        return models.ok(c, Ptr(e.alloc(st, b), (), 0, blen(b)))
    if op == "exists":
        st.events += (("exists", name),)
        return find(e, st, name) is not None
    if op == "subdir":
        st.n += 1
        b = ("gs", st.n)
        st.mem[b] = Obj("gs", name)
        st.mem[("rc", b)] = 1
        st.events += (("subdir", name),)
        return Obj("rc", Ptr(b, (), None, ("vt", None)))
    if c.f.get("default") is not None:
        e.push(st, e.fn(c.f["default"]), c.args, c.dest, c.dty, c.target)
        return PUSHED
    raise Gap("storage operation " + op)


def stream_rc(c, v):
    """Rc<RefCell<dyn Stream>> around the value; c's result is a Result of it."""
    e = c.eng
    t = e.T(c.dty)
    rc = t["v"][models.ty_variant(e, c.dty, "Ok")]["f"][0][1]
    cell = e.T(rc)["a"][0]
    fs = e.fields(cell)
    f = []
    for i, x in enumerate(fs):
        if i == len(fs) - 1:
            f.append(Agg(x, 0, [v]))
        elif e.T(x)["size"] == 0:
            f.append(e.zst(x))
        else:
            f.append(e.wrap(x, 0))
    b = e.alloc(c.st, Agg(cell, 0, f), cell)
    c.st.mem[("rc", b)] = 1
    return Obj("rc", Ptr(b, (), None, ("vt", None)))


def put(e, st, b, pos, data):
    """The byte sequence after writing data at pos."""
    n = blen(data)
    if n == 0:
        return b
    l = blen(b)
    if e.test(st, e.eq(pos, l)):
        return seg_norm(b.s + data.s)
    if e.test(st, e.ge(pos, l)):
        return seg_norm(b.s + ((sub(pos, l), ("z",)),) + data.s)
    end = add(pos, n)
    if e.test(st, e.ge(l, end)):
        return e.replace(st, b, pos, data)
    return seg_norm(e.cut(st, b, 0, pos).s + data.s)


def seek_to(c, pos, n):
    """Where a seek leads to, None if that is before the start."""
    e = c.eng
    a = c.args[1]
    k = e.T(a.ty)["v"][a.var]["n"]
    new = add({"Start": 0, "Current": pos, "End": n}[k], e.num(a.f[0]))
    return new if e.test(c.st, e.ge(new, 0)) else None


def write_at(c, v, data):
    """All of data written to the stream."""
    sid, fid = v.v[:2]
    pos = c.st.mem[("gp", sid)]
    c.st.mem[("gf", fid)] = put(c.eng, c.st, c.st.mem[("gf", fid)], pos, data)
    c.st.mem[("gp", sid)] = add(pos, blen(data))


def stream_op(c, p, v):
    e, st = c.eng, c.st
    op = c.f["p"].split("::")[-1]
    sid, fid = v.v[:2]
    pos = st.mem[("gp", sid)]
    b = st.mem.get(("gf", fid), Bytes(()))
    if op in ("write_all", "write", "write_fmt"):
        data = models.bytes_at(c, c.args[1]) if op != "write_fmt" else models.fmt_bytes(c, c.args[1])
        op = "write_all" if op == "write_fmt" else op
        n = blen(data)
        bad = fails(c, op)
        if bad and op == "write":
            # nothing was written
            part, k = Bytes(()), 0
        elif not bad and op == "write" and sum(x[0] == "short" for x in st.events) >= (1 if st.ghost.get("faults") else 2):
            part, k = data, n
        elif bad or op == "write":
            least = 0 if bad or not e.test(st, e.ge(n, 1)) else 1
            if isinstance(n, int) and n <= 16:
                ks = sorted({least, min(1, n), max(n - 1, least), n})
                k = ks[e.nondet(st, len(ks), "part")]
            elif not bad and e.nondet(st, 2, "all"):
                k = n
            else:
                k = symbol(("part", st.n), (1 << 63) - 1)
                st.n += 1
                e.assume(st, ("ge", sub(n if bad else sub(n, 1), k)))
                e.assume(st, ("ge", sub(k, least)))
            part = e.cut(st, data, 0, k)
            if not bad and e.decide(st, e.eq(k, n)) is not True:
                st.events += (("short",),)
        else:
            part, k = data, n
        new = put(e, st, b, pos, part)
        st.events += (("write", fid, b, pos, part, data),)
        st.mem[("gf", fid)] = new
        st.mem[("gp", sid)] = add(pos, k)
        if bad:
            return models.err(c, io_error())
        return models.ok(c, None if op == "write_all" else k)
    if op in ("flush", "sync_all", "sync_data"):
        if fails(c, op):
            return models.err(c, io_error())
        return models.ok(c)
    if op in ("seek", "rewind"):
        if fails(c, op):
            return models.err(c, io_error())
        new = 0
        if op == "seek":
            new = seek_to(c, pos, blen(b))
            if new is None:
                return models.err(c, io_error("InvalidInput"))
        st.mem[("gp", sid)] = new
        st.events += (("seek", fid, new),)
        return models.ok(c, new if op == "seek" else None)
    if op == "stream_position":
        return models.ok(c, pos)
    raise Gap("stream operation " + op)


def dispatch(c, p=None):
    if p is None:
        p = c.eng.as_ptr(c.args[0])
    if p.base[0] == "gs":
        return storage_op(c, p, c.st.mem[p.base])
    try:
        v = models.container(c.eng, c.st, p)
    except Gap:
        return NotImplemented
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Obj) and v.k == "gstream":
        return stream_op(c, p, v)
    return NotImplemented


HOOKS = {"virtual": dispatch}
for n in ("write_all", "write", "flush", "by_ref"):
    HOOKS["core::io::write::Write::" + n] = dispatch
for n in ("seek", "rewind", "stream_position"):
    HOOKS["core::io::seek::Seek::" + n] = dispatch
