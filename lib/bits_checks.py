"""Reading and writing of bit fields: every primitive type, width, bit offset and host byte order."""
import json, os
from engine import *
from terms import *

TYPES = {"bool": (1, False), "u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False),
         "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True)}
MODES = (("little", False), ("little", True), ("big", False), ("big", True))
K = symbol("k", 1 << 50)
LEN = symbol("len", (1 << 60))


def modes(ctx):
    return MODES


def widths(T):
    W, s = TYPES[T]
    return range(1, W + 1)


def cases(ctx):
    """(type, width, bit offset)"""
    for T in TYPES:
        for w in widths(T):
            for b in range(8):
                yield (T, w, b)


def argument(T, w, signed_fit=True):
    """A value of the type: any value, or any which fits the width."""
    W, s = TYPES[T]
    n = W if w is None else w
    sid = sym_id(("value", n), (1 << n) - 1)
    bits = [("s", sid, i) for i in range(n)]
    bits += [(bits[-1] if s and n > 1 else 0)] * (W - n)
    bits = bits[:W]
    if T == "bool":
        return C(("bit", bits[0])), tuple(bits)
    return BV(tuple(bits)), tuple(bits)


def field_bits(w, b, k=K, src="data"):
    return tuple(("d", src, add(k, (b + i) // 8), (b + i) % 8) for i in range(w))


def expected(T, w, own):
    W, s = TYPES[T]
    return tuple(own) + ((own[-1] if s and w > 1 else 0),) * (W - w)


def memory(e, st, exact, w, b, k=K, src="data"):
    """Bytes of unknown content; either exactly as long as the field needs, or longer."""
    n = (b + w + 7) // 8
    if exact:
        length = add(k, n)
    else:
        length = LEN
        st.facts = st.facts + (sub(LEN, add(k, n)),)
    return e.alloc(st, src_bytes(src, length)), length


def outcome_problem(o):
    return "%s: %s at %s" % ({"panic": "panics", "ub": "invalid memory access"}[o.kind], o.msg, o.where)


def loc(T, w, b, mode):
    return "%s of %d bits at bit offset %d (%s-endian host%s)" % (T, w, b, mode[0], ", overflow checks" if mode[1] else "")


def first_difference(got, want):
    """Index of the first bit which is not the one wanted."""
    for i in range(len(want)):
        r = compare_bits(got[i], want[i])
        if r is None:
            raise Gap("unknown bits")
        if not r:
            return i


def sub_bits(e, st, bits):
    return tuple(e.subst_bit(st, a) for a in bits)


def written(e, st, mem, base, w, b, k=K):
    """Bits of the bytes which the field overlaps, after a write."""
    n = (b + w + 7) // 8
    part = e.cut(st, st.mem[base], k, n)
    out = []
    for x in e.byte_list(st, part):
        out += list(sub_bits(e, st, e.bits(st, x, 8)))
    return out


def each_mode(f):
    def g(ctx, item):
        for m in modes(ctx):
            f(ctx, item, m)
    return g


def run(ctx, e, st, rule, key, judge):
    """Applies judge to every outcome; judge returns None or a text."""
    outs = e.run(st, after=judge)
    ctx.absorb(e, outs)
    for o in outs:
        if o.kind == "gap":
            ctx.gap("%s: %s" % (key, o.msg))
        elif getattr(o, "result", None):
            ctx.viol(key, o.result)
    ctx.ob(rule)
    if not outs:
        ctx.gap("%s: no outcome" % key)
    return outs


def reader_result(e, o, T):
    W, _ = TYPES[T]
    return sub_bits(e, o.st, e.bits(o.st, o.value, W)) if T != "bool" else sub_bits(e, o.st, (e.cond_bit(o.st, o.value),))


# ---------------------------------------------------------------- rules
@each_mode
def read_layout(ctx, item, mode):
    """The bits read are those at the field's offset, least significant first, on every host."""
    T, w, b = item
    e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
    st = State()
    base, length = memory(e, st, False, w, b)
    e.start(st, "r_rd_" + T, [Ptr(base, (), 0, length), add(mul(K, 8), b), w])
    want = expected(T, w, field_bits(w, b))

    def judge(o):
        if o.kind == "gap":
            return
        if o.kind != "return":
            return "reading %s: %s" % (loc(T, w, b, mode), outcome_problem(o))
        got = reader_result(e, o, T)
        i = first_difference(got, want)
        if i is not None:
            return "reading %s: value bit %d is %s instead of %s (bytes are relative to the start of the data)" % (
                loc(T, w, b, mode), i, atom_str(got[i]), atom_str(want[i]))
    run(ctx, e, st, "bits read are in place", "read %s" % T, judge)


@each_mode
def read_own(ctx, item, mode):
    """What is read depends on no bit outside the field."""
    T, w, b = item
    e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
    st = State()
    base, length = memory(e, st, False, w, b)
    e.start(st, "r_rd_" + T, [Ptr(base, (), 0, length), add(mul(K, 8), b), w])
    own = set(field_bits(w, b))

    def judge(o):
        if o.kind == "gap":
            return
        if o.kind != "return":
            return "reading %s: %s" % (loc(T, w, b, mode), outcome_problem(o))
        for i, a in enumerate(reader_result(e, o, T)):
            for l in sorted(set(leaves(a)), key=repr):
                if opaque(l):
                    raise Gap("unknown bits")
                if l not in own:
                    d = depends(a, l)
                    if d is None:
                        raise Gap("large bit expression")
                    if not d:
                        continue
                    return "reading %s: value bit %d depends on %s, outside the field" % (loc(T, w, b, mode), i, atom_str(l))
    run(ctx, e, st, "bits read are own", "read %s depends on other bits" % T, judge)


def start_write(ctx, item, mode, exact=False, fit=False, root="r_wr_"):
    T, w, b = item
    e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
    st = State()
    base, length = memory(e, st, exact, w, b)
    v, bits = argument(T, w if fit else None)
    e.start(st, root + T, [Ptr(base, (), 0, length), add(mul(K, 8), b), w, v])
    return e, st, base, length, bits


@each_mode
def write_layout(ctx, item, mode):
    """The value's bits end up at the field's offset, least significant first, on every host."""
    T, w, b = item
    e, st, base, length, bits = start_write(ctx, item, mode)

    def judge(o):
        if o.kind == "gap":
            return
        if o.kind != "return":
            return "writing %s: %s" % (loc(T, w, b, mode), outcome_problem(o))
        got = written(e, o.st, None, base, w, b)[b:b + w]
        want = sub_bits(e, o.st, bits[:w])
        i = first_difference(got, want)
        if i is not None:
            return "writing %s: bit %d of the field holds %s instead of %s" % (
                loc(T, w, b, mode), i, atom_str(got[i]), atom_str(want[i]))
    run(ctx, e, st, "bits written are in place", "write %s" % T, judge)


@each_mode
def write_own(ctx, item, mode):
    """A write of any value, also one too big for the field, changes no bit outside the field."""
    T, w, b = item
    e, st, base, length, bits = start_write(ctx, item, mode)
    before = src_bytes("data", length)
    n = (b + w + 7) // 8

    def judge(o):
        if o.kind == "gap":
            return
        if o.kind != "return":
            return "writing %s: %s" % (loc(T, w, b, mode), outcome_problem(o))
        after = o.st.mem[base]
        if not e.test(o.st, e.eq(blen(after), length)):
            return "writing %s: length of the data changed" % loc(T, w, b, mode)
        for off, cnt, what in ((0, K, "before"), (add(K, n), sub(length, add(K, n)), "after")):
            d = e.same_bytes(o.st, e.cut(o.st, after, off, cnt), e.cut(o.st, before, off, cnt))
            if d:
                return "writing %s: bytes %s the field change, %s" % (loc(T, w, b, mode), what, d)
        got = written(e, o.st, None, base, w, b)
        for i in range(8 * n):
            if b <= i < b + w:
                continue
            want = e.subst_bit(o.st, ("d", "data", add(K, i // 8), i % 8))
            if first_difference((got[i],), (want,)) is not None:
                return "writing %s: bit %d relative to the field's first byte, outside the field, becomes %s" % (
                    loc(T, w, b, mode), i, atom_str(got[i]))
    run(ctx, e, st, "bits outside are kept", "write %s changes other bits" % T, judge)


@each_mode
def footprint(ctx, item, mode):
    """Only bytes which the field overlaps are accessed."""
    T, w, b = item
    key = "accesses outside the field's bytes"
    e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
    st = State()
    base, length = memory(e, st, True, w, b)
    # nothing in front of the field is accessible either
    st.mem[base] = src_bytes("data", sub(length, K), K)

    def judge(what):
        def j(o):
            if o.kind in ("ub", "panic"):
                return "%s %s: %s" % (what, loc(T, w, b, mode), outcome_problem(o))
        return j
    for what, root, args in (("reading", "r_rd_", []), ("writing", "r_wr_", [argument(T, None)[0]])):
        e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
        st = State()
        n = (b + w + 7) // 8
        base = e.alloc(st, src_bytes("data", add(K, n)))
        e.start(st, root + T, [Ptr(base, (), 0, add(K, n)), add(mul(K, 8), b), w] + args)
        run(ctx, e, st, "accesses in bounds", "%s %s %s" % (what, T, key), judge(what))


@each_mode
def round_trip(ctx, item, mode):
    """Reading a field after a value which fits it was written gives the value."""
    T, w, b = item
    W, s = TYPES[T]
    if s and w == 1:
        return
    e, st, base, length, bits = start_write(ctx, item, mode, fit=True)

    def judge(o):
        if o.kind == "gap":
            return
        if o.kind != "return":
            return "writing %s: %s" % (loc(T, w, b, mode), outcome_problem(o))
        st2 = o.st.clone()
        e.start(st2, "r_rd_" + T, [Ptr(base, (), 0, length), add(mul(K, 8), b), w])
        for o2 in e.run(st2):
            if o2.kind == "gap":
                raise Gap("reading back: " + str(o2.msg))
            if o2.kind != "return":
                return "reading back %s: %s" % (loc(T, w, b, mode), outcome_problem(o2))
            got = reader_result(e, o2, T)
            want = sub_bits(e, o2.st, bits)
            i = first_difference(got, want)
            if i is not None:
                return "%s: bit %d of the value read is %s instead of %s" % (
                    loc(T, w, b, mode), i, atom_str(got[i]), atom_str(want[i]))
    run(ctx, e, st, "write then read", "round trip %s" % T, judge)


@each_mode
def short_forms(ctx, item, mode):
    """The forms without width, or without offset and width, mean the whole type at that offset."""
    T, kind = item
    W, s = TYPES[T]
    if T == "bool":
        W = 8
    for b in (range(8) if kind in ("rd3", "wr3") else [0]):
        e = Engine(ctx.dump(), endian=mode[0], debug=mode[1])
        st = State()
        k = K if kind[2] == "3" else 0
        n = (b + W + 7) // 8
        length = add(k, n)
        base = e.alloc(st, src_bytes("data", length))
        args = [Ptr(base, (), 0, length)]
        if kind[2] == "3":
            args.append(add(mul(k, 8), b))
        own = field_bits(W, b, k)
        if kind[:2] == "wr":
            v, bits = argument(T, None)
            bits = (bits + (0,) * 8)[:W]
            args.append(v)
        e.start(st, "r_%s_%s" % (kind, T), args)

        def judge(o):
            if o.kind == "gap":
                return
            if o.kind != "return":
                return "%s: %s" % (loc(T, W, b, mode), outcome_problem(o))
            if kind[:2] == "rd":
                got, want = reader_result(e, o, T), own
            else:
                got = written(e, o.st, None, base, W, b, k)[b:b + W]
                want = sub_bits(e, o.st, bits)
            if first_difference(got, want) is not None:
                return "%s: bits differ" % loc(T, W, b, mode)
        run(ctx, e, st, "short form", "short form %s of %s" % (kind, T), judge)


def short_items():
    return [(T, k) for T in TYPES for k in (("wr3", "wr2") if T == "bool" else ("rd3", "rd2", "wr3", "wr2"))]
