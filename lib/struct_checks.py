"""Generated accessors of structs and index types: every field of a family of layouts, see
tools/gen_layouts.py."""
import json, os
from engine import *
from terms import *
from bits_checks import MODES, TYPES, run, sub_bits, outcome_problem, first_difference, memory, LEN

LAY = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "layouts.json")))


def fields_items(ctx):
    return [(i, j) for i, s in enumerate(LAY["structs"]) for j in range(len(s["fields"]))]


def structs_items(ctx):
    return list(range(len(LAY["structs"])))


def index_items(ctx):
    return list(range(len(LAY["indexes"])))


def prim(f):
    W, s = TYPES[f["prim"]]
    return f["prim"], (8 if False else W), s


def enum_width(f):
    return LAY["enums"][f["type"]]


def want_bits(f, own):
    """Bits of the value which the field's bits stand for."""
    W, s = TYPES[f["prim"]]
    own = tuple(own)
    return own + ((own[-1] if s and len(own) > 1 else 0),) * (W - len(own))


def own_bits(f, src="data"):
    return tuple(("d", src, (f["off"] + i) // 8, (f["off"] + i) % 8) for i in range(f["bits"]))


def value_bits(e, o, f):
    """Bits of what an accessor returned."""
    v = o.value
    W, s = TYPES[f["prim"]]
    if f["enum"]:
        v = e.unwrap(v) if not isinstance(v, (int, BV, P)) else v
    if f["prim"] == "bool":
        return sub_bits(e, o.st, (e.cond_bit(o.st, v),))
    return sub_bits(e, o.st, e.bits(o.st, v, W))


def arg_value(f, fit):
    W, s = TYPES[f["prim"]]
    n = f["bits"] if fit or f["enum"] else W
    sid = sym_id(("value", "field", n), (1 << n) - 1)
    b = [("s", sid, i) for i in range(n)]
    b += [(b[-1] if s and n > 1 else 0)] * (W - n)
    if f["prim"] == "bool":
        return C(("bit", b[0])), (b[0],)
    return BV(tuple(b)), tuple(b)


def name(i, j=None):
    s = LAY["structs"][i]
    if j is None:
        return "struct of %d bytes (layout %d)" % (s["size"], i)
    f = s["fields"][j]
    return "field %d (%s at bits %d..%d) of layout %d" % (j, f["type"], f["off"], f["off"] + f["bits"], i)


def data(e, st, size, src="data", extra=True):
    if extra:
        length = symbol("len", 1 << 60)
        st.facts = st.facts + (sub(length, size),)
    else:
        length = size
    return e.alloc(st, src_bytes(src, length)), length


def getters(ctx, item):
    """Shared, mutable and converted accessors all return exactly the declared bits."""
    i, j = item
    s = LAY["structs"][i]
    f = s["fields"][j]
    want = want_bits(f, own_bits(f))
    for mode in MODES:
        for kind in ("get", "mget", "iref"):
            e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
            st = State()
            base, length = data(e, st, s["size"])
            e.start(st, "r_l%d_%s%d" % (i, kind, j), [Ptr(base, (), 0, length)])

            def judge(o):
                if o.kind == "gap":
                    return
                if o.kind != "return":
                    return "%s of %s: %s" % (kind, name(i, j), outcome_problem(o))
                got = value_bits(e, o, f)
                k = first_difference(got, want)
                if k is not None:
                    return "%s of %s: value bit %d is %s instead of %s" % (kind, name(i, j), k, atom_str(got[k]), atom_str(want[k]))
                return unchanged(e, o, base, src_bytes("data", length))
            run(ctx, e, st, "accessor reads its field", "%s of layout %d field %d" % (kind, i, j), judge)


def unchanged(e, o, base, before):
    d = e.same_bytes(o.st, o.st.mem[base], before)
    if d:
        return "reading changes the data: " + d


def setters(ctx, item):
    i, j = item
    s = LAY["structs"][i]
    f = s["fields"][j]
    for mode in MODES:
        for fit in (True, False):
            e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
            st = State()
            base, length = data(e, st, s["size"])
            v, bits = arg_value(f, fit)
            e.start(st, "r_l%d_set%d" % (i, j), [Ptr(base, (), 0, length), v])

            def judge(o):
                if o.kind == "gap":
                    return
                if o.kind != "return":
                    return "setting %s: %s" % (name(i, j), outcome_problem(o))
                return check_memory(e, o, base, length, s["size"], {f["off"] + n: bits[n] for n in range(f["bits"])},
                                    "setting " + name(i, j))
            run(ctx, e, st, "setter writes its field only", "set of layout %d field %d" % (i, j), judge)


def check_memory(e, o, base, length, size, want, what, src="data"):
    """Memory is as before, except for the bits of `want`."""
    st = o.st
    after = st.mem[base]
    d = e.same_bytes(st, e.cut(st, after, size, sub(length, size)), src_bytes(src, sub(length, size), size))
    if d:
        return "%s: bytes behind the struct change, %s" % (what, d)
    for k, x in enumerate(e.byte_list(st, e.cut(st, after, 0, size))):
        got = sub_bits(e, st, e.bits(st, x, 8))
        for n in range(8):
            w = want.get(8 * k + n, ("d", src, k, n))
            w = e.subst_bit(st, w)
            if first_difference((got[n],), (w,)) is not None:
                return "%s: bit %d becomes %s instead of %s" % (what, 8 * k + n, atom_str(got[n]), atom_str(w))


def fill(ctx, i):
    """Copying from another struct copies every field and nothing else."""
    s = LAY["structs"][i]
    for mode in MODES:
        e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
        st = State()
        dst, length = data(e, st, s["size"])
        src = e.alloc(st, src_bytes("other", s["size"]))
        e.start(st, "r_l%d_fill" % i, [Ptr(dst, (), 0, length), Ptr(src, (), 0, s["size"])])
        want = {}
        for f in s["fields"]:
            for n in range(f["bits"]):
                p = f["off"] + n
                want[p] = ("d", "other", p // 8, p % 8)

        def judge(o):
            if o.kind == "gap":
                return
            if o.kind != "return":
                return "copying %s: %s" % (name(i), outcome_problem(o))
            return check_memory(e, o, dst, length, s["size"], want, "copying " + name(i)) or \
                unchanged(e, o, src, src_bytes("other", s["size"]))
        run(ctx, e, st, "copy covers the fields", "fill of layout %d" % i, judge)


def equality(ctx, i):
    """Equal exactly when all fields are equal: padding does not count, every bit of every field does."""
    s = LAY["structs"][i]
    pos = {}
    for j, f in enumerate(s["fields"]):
        for n in range(f["bits"]):
            pos[f["off"] + n] = j
    ca = src_bytes("data", s["size"])
    for mode in MODES:
        def other(flip):
            out = []
            for k in range(s["size"]):
                bits = []
                for n in range(8):
                    p = 8 * k + n
                    if p in pos:
                        a = ("d", "data", k, n)
                        bits.append(a_not(a) if p == flip else a)
                    else:
                        bits.append(("d", "pad", k, n))
                out.append(BV(tuple(bits)))
            return Bytes(((s["size"], ("b", tuple(out))),))
        flips = [None] + sorted(pos)
        for flip in flips:
            e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
            st = State()
            a = e.alloc(st, ca)
            b = e.alloc(st, other(flip))
            e.start(st, "r_l%d_eq" % i, [Ptr(a, (), 0, s["size"]), Ptr(b, (), 0, s["size"])])

            def judge(o):
                if o.kind == "gap":
                    return
                if o.kind != "return":
                    return "comparing %s: %s" % (name(i), outcome_problem(o))
                r = e.test(o.st, e.to_cond(o.value))
                if flip is None and not r:
                    return "%s: structs whose fields are equal compare as different" % name(i)
                if flip is not None and r:
                    return "%s: structs which differ in bit %d, of field %d, compare as equal" % (name(i), flip, pos[flip])
            run(ctx, e, st, "equality is field equality", "eq of layout %d" % i, judge)


def sizes(ctx, i):
    s = LAY["structs"][i]
    e = Engine(ctx.dump())
    for root, want in (("size", s["size"]), ("schema", "schema L%d" % i)):
        st = State()
        e.start(st, "r_l%d_%s" % (i, root), [])

        def judge(o):
            if o.kind == "gap":
                return
            if o.kind != "return":
                return outcome_problem(o)
            if root == "size":
                if o.value != want:
                    return "%s: the size is %s" % (name(i), o.value)
            else:
                p = o.value
                b = e.load(o.st, p, None) if False else e.cut(o.st, o.st.mem[p.base] if p.base in o.st.mem else e.base_value(o.st, p.base), p.off or 0, p.meta)
                if const_bytes(b) != want.encode():
                    return "%s: the schema is %s" % (name(i), b)
        run(ctx, e, st, "declared " + root, "%s of layout %d" % (root, i), judge)


def short(ctx, item):
    """Accessors over fewer bytes than the struct has are refused; over enough bytes they stay inside."""
    i, j = item
    s = LAY["structs"][i]
    f = s["fields"][j]
    roots = [("get", []), ("mget", []), ("iref", []), ("set", [arg_value(f, False)[0]])]
    for mode in MODES[:2]:
        for kind, args in roots:
            # exact size: no access outside
            e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
            st = State()
            base = e.alloc(st, src_bytes("data", s["size"]))
            e.start(st, "r_l%d_%s%d" % (i, kind, j), [Ptr(base, (), 0, s["size"])] + args)

            def judge(o):
                if o.kind == "gap":
                    return
                if o.kind != "return":
                    return "%s of %s on exactly %d bytes: %s" % (kind, name(i, j), s["size"], outcome_problem(o))
            run(ctx, e, st, "accessor stays inside the struct", "%s of layout %d field %d in bounds" % (kind, i, j), judge)
            # too short
            e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
            st = State()
            n = symbol("short", s["size"] - 1)
            base = e.alloc(st, src_bytes("data", n))
            e.start(st, "r_l%d_%s%d" % (i, kind, j), [Ptr(base, (), 0, n)] + args)

            def judge2(o):
                if o.kind == "gap" or o.kind == "panic":
                    return
                return "%s of %s on fewer than %d bytes is not refused: %s" % (
                    kind, name(i, j), s["size"], outcome_problem(o) if o.kind == "ub" else "it returns")
            run(ctx, e, st, "short data is refused", "%s of layout %d field %d on short data" % (kind, i, j), judge2)


def index_types(ctx, i):
    ix = LAY["indexes"][i]
    n = ix["bits"]
    own = tuple(("d", "data", k // 8, k % 8) for k in range(n))
    for mode in MODES:
        e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
        st = State()
        base, length = data(e, st, ix["size"])
        e.start(st, "r_ix%d_index" % n, [Ptr(base, (), 0, length)])

        def judge(o):
            if o.kind == "gap":
                return
            if o.kind != "return":
                return "index of %d bits: %s" % (n, outcome_problem(o))
            got = sub_bits(e, o.st, e.bits(o.st, o.value, 64))
            if first_difference(got, own + (0,) * (64 - n)) is not None:
                return "index of %d bits: the value read is %s" % (n, BV(got))
        run(ctx, e, st, "index is read exactly", "index of %d bits" % n, judge)
        # values which fit are stored exactly
        e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
        st = State()
        base, length = data(e, st, ix["size"])
        sid = sym_id(("value", "index", n), (1 << n) - 1)
        bits = tuple(("s", sid, k) for k in range(n))
        e.start(st, "r_ix%d_set" % n, [Ptr(base, (), 0, length), BV(bits + (0,) * (64 - n))])

        def judge2(o):
            if o.kind == "gap":
                return
            if o.kind != "return":
                return "setting an index of %d bits: %s" % (n, outcome_problem(o))
            return check_memory(e, o, base, length, ix["size"], dict(enumerate(bits)), "setting an index of %d bits" % n)
        run(ctx, e, st, "index is stored exactly", "set index of %d bits" % n, judge2)
        # values which do not fit are refused
        if n < 64:
            for big in range(n, 64):
                e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
                st = State()
                base, length = data(e, st, ix["size"])
                sid = sym_id(("value", "wide", 64), MAXU[64])
                v = tuple(1 if k == big else 0 if k > big else ("s", sid, k) for k in range(64))
                e.start(st, "r_ix%d_set" % n, [Ptr(base, (), 0, length), BV(v)])

                def judge3(o):
                    if o.kind in ("gap", "panic"):
                        return
                    return "an offset which needs %d bits is stored in an index of %d bits: %s" % (
                        big + 1, n, outcome_problem(o) if o.kind == "ub" else "truncated silently")
                run(ctx, e, st, "offsets which do not fit are refused", "set index of %d bits too big" % n, judge3)
