"""Abstract interpreter over the dumped MIR.

Forward analysis with trace partitioning: numbers are polynomials over symbols with linear relations,
or vectors of named bits; memory is a store of typed trees and byte sequences with symbolic lengths.
Nothing is executed: every input is a symbol standing for all of its values, and a comparison which the
known relations do not decide is followed both ways.
"""
import json, sys
from terms import *

sys.setrecursionlimit(20000)
MAXU = {8: 255, 16: 65535, 32: (1 << 32) - 1, 64: (1 << 64) - 1, 128: (1 << 128) - 1}


PRIMES = {"AbsT": 1000003, "AbsA": 1100009, "AbsB": 1200007, "AbsIdx": 1300021}


EMPTY = ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap",
         "std::collections::hash::set::HashSet")


class Gap(Exception):
    """The analysis does not know this construct."""


class Panic(Exception):
    pass


class Viol(Exception):
    """Undefined behaviour: the analysed code may leave the memory it owns."""


class Infeasible(Exception):
    pass


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts


class C:
    """Undecided boolean."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, C) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "cond%s" % (self.k,)


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def __repr__(self):
        return "{t%s#%s %s}" % (self.ty, self.var, ", ".join(map(repr, self.f)))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))


class Seq:
    """Array or vector of values which are not bytes; concrete length."""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = tuple(i)

    def __repr__(self):
        return "seq%r" % (self.i,)


class Bytes:
    """Byte sequence: ((length, content), ...)."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "bytes<%s>" % "; ".join("%s:%s" % (n, c if c[0] != "d" else "%s@%s" % (c[1], c[2])) for n, c in self.s)

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class Ptr:
    __slots__ = ("base", "path", "off", "meta")

    def __init__(self, base, path=(), off=None, meta=None):
        self.base, self.path, self.off, self.meta = base, path, off, meta

    def __repr__(self):
        return "&%s%s%s%s" % (self.base, "".join(".%s" % (p,) for p in self.path),
                              "" if self.off is None else "+%s" % (self.off,),
                              "" if self.meta is None else "[%s]" % (self.meta,))

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.base, self.path, self.off or 0, self.meta) == (o.base, o.path, o.off or 0, o.meta)

    def __hash__(self):
        return hash((self.base, self.path))

    def with_(self, **kw):
        p = Ptr(self.base, self.path, self.off, self.meta)
        for k, v in kw.items():
            setattr(p, k, v)
        return p


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Fn:
    __slots__ = ("i", "closure")

    def __init__(self, i, closure=False):
        self.i = i
        self.closure = closure


class Vec:
    """alloc::vec::Vec: heap object (a Bytes or a Seq); String wraps one."""
    __slots__ = ("h", "cap")

    def __init__(self, h, cap=None):
        self.h, self.cap = h, cap

    def __repr__(self):
        return "Vec(%s)" % (self.h,)


class Obj:
    """Other modelled values: kind and immutable payload."""
    __slots__ = ("k", "v")

    def __init__(self, k, *v):
        self.k, self.v = k, v

    def __repr__(self):
        return "%s%r" % (self.k, self.v)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.k == o.k and self.v == o.v

    def __hash__(self):
        return hash((self.k, self.v))


class Frame:
    __slots__ = ("fid", "fn", "blk", "idx", "dest", "dty", "target", "span", "visits")

    def copy(self):
        f = Frame()
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class State:
    __slots__ = ("mem", "frames", "facts", "neqs", "bits", "opq", "events", "n", "script", "ht", "steps", "loops", "ghost", "splits")

    def __init__(self):
        self.mem, self.frames, self.facts, self.neqs = {}, [], (), ()
        self.bits, self.opq, self.events, self.n, self.script, self.ht = {}, {}, (), 0, (), {}
        self.steps = 0
        self.loops = {}
        self.splits = 0
        self.ghost = {}

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.facts, s.neqs, s.bits, s.opq = self.facts, self.neqs, dict(self.bits), dict(self.opq)
        s.events, s.n, s.script, s.ht, s.steps = self.events, self.n, self.script, dict(self.ht), self.steps
        s.loops = dict(self.loops)
        s.splits = self.splits
        s.ghost = dict(self.ghost)
        return s


class Outcome:
    def __init__(self, kind, st, value=None, msg=None, where=None):
        self.kind, self.st, self.value, self.msg, self.where = kind, st, value, msg, where

    def __repr__(self):
        return "%s(%s) %s" % (self.kind, self.value if self.kind == "return" else self.msg, self.where or "")


# ---------------------------------------------------------------- byte sequences
def seg_norm(segs):
    out = []
    for n, c in segs:
        if isinstance(n, int):
            if n == 0:
                continue
            if c[0] == "f" and isinstance(c[1], int):
                c = ("z",) if c[1] == 0 else ("c", bytes([c[1]]) * n) if n <= 4096 else c
            if c[0] == "b":
                if all(isinstance(x, int) for x in c[1]):
                    c = ("c", bytes(c[1]))
        elif c[0] == "f" and c[1] == 0 and isinstance(c[1], int):
            c = ("z",)
        if c[0] == "c":
            # separate runs of zeros
            b = c[1]
            i = 0
            while i < len(b):
                j = i
                z = b[i] == 0
                while j < len(b) and (b[j] == 0) == z:
                    j += 1
                push_seg(out, j - i, ("z",) if z else ("c", b[i:j]))
                i = j
            continue
        if c[0] == "b" and len(c[1]) > 1:
            for x in c[1]:
                push_byte(out, x)
            continue
        if c[0] == "b":
            push_byte(out, c[1][0])
            continue
        push_seg(out, n, c)
    return Bytes(tuple(out))


def push_byte(out, x):
    if isinstance(x, int):
        push_seg(out, 1, ("z",) if x == 0 else ("c", bytes([x])))
        return
    if isinstance(x, P):
        x = BV(poly_bits(x, 8))
    b = x.b
    a = b[0]
    if isinstance(a, tuple) and a[0] == "d" and all(
            isinstance(v, tuple) and v[0] == "d" and v[1] == a[1] and v[2] == a[2] and v[3] == i for i, v in enumerate(b)):
        push_seg(out, 1, ("d", a[1], a[2]))
        return
    push_seg(out, 1, ("b", (x,)))


def push_seg(out, n, c):
    if out:
        m, d = out[-1]
        if d[0] == "z" and c[0] == "z":
            out[-1] = (add(m, n), d)
            return
        if d[0] == "c" and c[0] == "c":
            out[-1] = (m + n, ("c", d[1] + c[1]))
            return
        if d[0] == "b" and c[0] == "b":
            out[-1] = (m + n, ("b", d[1] + c[1]))
            return
        if d[0] == "d" and c[0] == "d" and d[1] == c[1] and add(d[2], m) == c[2]:
            out[-1] = (add(m, n), d)
            if isinstance(d[1], tuple) and d[1][0] == "enc" and d[2] == 0 and out[-1][0] == d[1][2]:
                out[-1] = (d[1][2], ("v", d[1][1]))       # all parts of an encoded number, put together again
            return
        if d[0] == "f" and c[0] == "f" and d[1] == c[1]:
            out[-1] = (add(m, n), d)
            return
    out.append((n, c))


def blen(b):
    n = 0
    for m, _ in b.s:
        n = add(n, m)
    return n


def const_bytes(b):
    """Python bytes if the sequence is fully known."""
    out = b""
    for n, c in b.s:
        if not isinstance(n, int):
            return None
        if c[0] == "z":
            out += b"\0" * n
        elif c[0] == "c":
            out += c[1]
        else:
            return None
    return out


def lit(s):
    return seg_norm([(len(s), ("c", s))]) if s else Bytes(())


def src_bytes(name, length, off=0):
    return Bytes(((length, ("d", name, off)),)) if length != 0 else Bytes(())


# ---------------------------------------------------------------- engine
class Engine:
    def __init__(self, dump, endian="little", debug=False, sizes=None, hooks=None, max_steps=400000, max_states=4000):
        self.d = dump
        self.fns = dump["fns"]
        self.types = dump["types"]
        self.roots = dict(dump["roots"])
        self.endian, self.debug = endian, debug
        self.sizes = sizes or {}
        self.at = None
        self.hooks = hooks or {}
        self.max_steps, self.max_states = max_steps, max_states
        self.total = 0
        self.analysed = set()
        self.modelled = set()
        self.branches = 0
        import models
        self.models = models
        self.unknown_elements = 2
        self._bytelike = {}

    # ---- types
    def T(self, t):
        return self.types[t]

    def fn(self, i):
        return self.fns[str(i)]

    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if pred(t):
                return i
        return None

    def is_bytelike(self, t):
        r = self._bytelike.get(t)
        if r is None:
            x = self.T(t)
            r = x["k"] in ("uint", "int") and x["bits"] == 8
            if x["k"] == "adt" and x["size"] == 1 and "MaybeUninit" in x["p"]:
                r = True
            self._bytelike[t] = r
        return r

    def is_unsized(self, t):
        return self.T(t)["k"] in ("slice", "str", "dyn") or (self.T(t)["size"] == -1)

    def width(self, t):
        x = self.T(t)
        k = x["k"]
        if k in ("int", "uint"):
            return x["bits"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k == "adt" and x["ak"] == "enum":
            return x["size"] * 8
        if k in ("ptr", "ref", "fnptr"):
            return 64
        raise Gap("width of " + x["name"])

    def signed(self, t):
        return self.T(t)["k"] == "int"

    def size_of(self, t):
        x = self.T(t)
        if x["size"] == -1:
            raise Gap("size of " + x["name"])
        return x["size"]

    def unit(self):
        return Agg(None, 0, ())

    def fresh(self, st, tag, hi=MAXU[64]):
        st.n += 1
        return symbol((tag, "#%d" % st.n), hi)

    def alloc(self, st, value, ty=None):
        st.n += 1
        b = ("h", st.n)
        st.mem[b] = value
        st.ht[b] = ty
        return b

    # ---- conditions
    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, BV):
            c = self.bit_cond(c.b[0])
            if isinstance(c, bool):
                return c
        if isinstance(c, P):
            c = C(("not", ("eq", c)))
        return self._decide(st, c.k)

    def _decide(self, st, k):
        t = k[0]
        if t == "ge":
            if isinstance(k[1], int):
                return k[1] >= 0
            if entails(st.facts, k[1], st.neqs):
                return True
            if entails(st.facts, sub(-1, k[1]), st.neqs):
                return False
            return None
        if t == "eq":
            p = k[1]
            if isinstance(p, int):
                return p == 0
            if p in st.neqs or neg(p) in st.neqs:
                return False
            if entails(st.facts, p, st.neqs):
                if entails(st.facts, neg(p), st.neqs):
                    return True
                if entails(st.facts, sub(p, 1), st.neqs):
                    return False
            elif entails(st.facts, sub(-1, p), st.neqs):
                return False
            return None
        if t == "bit":
            a = self.subst_bit(st, k[1])
            return bool(a) if isinstance(a, int) else None
        if t == "opq":
            return st.opq.get(k)
        if t == "not":
            r = self._decide(st, k[1])
            return None if r is None else not r
        if t == "and":
            a = self._decide(st, k[1])
            if a is False:
                return False
            b = self._decide(st, k[2])
            if b is False:
                return False
            return True if a and b else None
        if t == "or":
            a = self._decide(st, k[1])
            if a is True:
                return True
            b = self._decide(st, k[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        raise Gap("condition " + str(k))

    def subst_bit(self, st, a):
        if isinstance(a, int):
            return a
        if a in st.bits:
            return st.bits[a]
        if not st.bits:
            return a
        if a[0] == "!":
            return a_not(self.subst_bit(st, a[1]))
        if a[0] in "&|^":
            x, y = self.subst_bit(st, a[1]), self.subst_bit(st, a[2])
            return {"&": a_and, "|": a_or, "^": a_xor}[a[0]](x, y)
        return a

    def first_literal(self, st, k):
        """An undecided primitive literal of the condition."""
        t = k[0]
        if t in ("not",):
            return self.first_literal(st, k[1])
        if t in ("and", "or"):
            if self._decide(st, k[1]) is None:
                return self.first_literal(st, k[1])
            return self.first_literal(st, k[2])
        if t == "bit":
            a = self.subst_bit(st, k[1])
            while a[0] in "!&|^":
                a = a[1] if not isinstance(a[1], int) else a[2]
            return ("bit", a)
        return k

    def test(self, st, c):
        """Truth of the condition; follows both ways when it is not known."""
        r = self.decide(st, c)
        if r is not None:
            return r
        if isinstance(c, BV):
            c = self.bit_cond(c.b[0])
        if isinstance(c, P):
            c = C(("not", ("eq", c)))
        self.split_literal(st, self.first_literal(st, c.k))

    def split_literal(self, st, l):
        self.branches += 1
        if l[0] == "ge":
            raise Split([[("ge", l[1])], [("ge", sub(-1, l[1]))]])
        if l[0] == "eq":
            raise Split([[("ge", l[1]), ("ge", neg(l[1]))], [("ne", l[1])]])
        raise Split([[("set", l, True)], [("set", l, False)]])

    def assume(self, st, a):
        if a[0] == "ge":
            if isinstance(a[1], int):
                if a[1] < 0:
                    raise Infeasible()
                return
            if entails(st.facts, sub(-1, a[1]), st.neqs):
                raise Infeasible()
            if not entails(st.facts, a[1], st.neqs):
                # a weaker fact about the same combination is not needed any more
                w = {m: c for m, c in a[1].t.items() if m}
                k = len(a[1].t)
                st.facts = tuple(f for f in st.facts if not (
                    isinstance(f, P) and abs(len(f.t) - k) < 2 and {m: c for m, c in f.t.items() if m} == w)) + (a[1],)
        elif a[0] == "ne":
            p = a[1]
            if isinstance(p, int):
                if p == 0:
                    raise Infeasible()
                return
            if entails(st.facts, p, st.neqs):
                self.assume(st, ("ge", sub(p, 1)))
            elif entails(st.facts, neg(p), st.neqs):
                self.assume(st, ("ge", sub(-1, p)))
            st.neqs = st.neqs + (p,)
            if entails(st.facts, -1, st.neqs):
                raise Infeasible()
        elif a[0] == "set":
            l = a[1]
            if l[0] == "bit":
                st.bits[l[1]] = 1 if a[2] else 0
            else:
                st.opq[l] = a[2]
        elif a[0] == "script":
            st.script = st.script + (a[1],)
        else:
            raise Gap("assume")

    def require(self, st, c):
        """Keep only the states where the condition holds."""
        if not self.test(st, c):
            raise Infeasible()

    def nondet(self, st, n, label):
        if st.script:
            v = st.script[0]
            st.script = st.script[1:]
            return v
        raise Split([[("script", i)] for i in range(n)])

    def bit_cond(self, a):
        if isinstance(a, int):
            return bool(a)
        return C(("bit", a))

    def c_not(self, c):
        if isinstance(c, bool):
            return not c
        if c.k[0] == "not":
            return C(c.k[1])
        if c.k[0] == "bit":
            return self.bit_cond(a_not(c.k[1]))
        if c.k[0] == "ge":
            return C(("ge", sub(-1, c.k[1])))
        return C(("not", c.k))

    def c_and(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return C(("and", a.k, b.k))

    def c_or(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return C(("or", a.k, b.k))

    def ge(self, a, b):
        """a >= b as a condition"""
        d = sub(a, b)
        return d >= 0 if isinstance(d, int) else C(("ge", d))

    def eq(self, a, b):
        d = sub(a, b)
        return d == 0 if isinstance(d, int) else C(("eq", d))

    def to_cond(self, v):
        if isinstance(v, (bool, C)):
            return v
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, BV):
            return self.bit_cond(v.b[0]) if all(x == 0 for x in v.b[1:]) else C(("not", ("eq", self.num(v))))
        if isinstance(v, P):
            return C(("not", ("eq", v)))
        raise Gap("not a boolean: %r" % (v,))

    def cond_bit(self, st, c):
        """A boolean as one bit."""
        if isinstance(c, bool):
            return int(c)
        if isinstance(c, int):
            return c
        if isinstance(c, BV):
            return c.b[0]
        if isinstance(c, P):
            return poly_bits(c, 1)[0]
        k = c.k
        if k[0] == "bit":
            return k[1]
        if k[0] == "not" and k[1][0] == "bit":
            return a_not(k[1][1])
        return int(self.test(st, c))

    # ---- numbers
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, P)):
            return v
        if isinstance(v, BV):
            return bits_poly(v.b)
        raise Gap("not a number: %r" % (v,))

    def bits(self, st, v, w):
        if isinstance(v, (bool, C)):
            return ((self.cond_bit(st, v),) + (0,) * w)[:w]
        if isinstance(v, int):
            return int_bits(v, w)
        if isinstance(v, BV):
            return (v.b + (0,) * w)[:w]
        if isinstance(v, P):
            return poly_bits(v, w)
        raise Gap("no bits: %r" % (v,))

    def from_bits(self, b, ty):
        """Number of type ty with the given bits."""
        if self.T(ty)["k"] == "bool":
            return self.bit_cond(b[0])
        if all(isinstance(a, int) for a in b):
            v = sum(a << i for i, a in enumerate(b))
            if self.signed(ty) and b and b[-1]:
                v -= 1 << len(b)
            return v
        return BV(tuple(b))

    def divmod_const(self, st, x, c):
        """Quotient and remainder of a natural number by a positive constant."""
        if isinstance(x, int):
            return divmod(x, c)
        q, r = {}, {}
        for m, co in x.t.items():
            a, b = divmod(co, c)
            if a:
                q[m] = a
            if b:
                r[m] = b
        q, r = norm(q), norm(r)
        if r == 0:
            return q, 0
        # r has coefficients in [1, c)
        if isinstance(r, int):
            return q, r
        if self.decide(st, self.ge(sub(c, 1), r)):
            return q, r
        qs = self.quot_sym(st, r, c)
        return add(q, qs), sub(r, mul(qs, c))

    def quot_sym(self, st, x, c):
        s = symbol(("quot", x, c))
        f1, f2 = sub(x, mul(s, c)), sub(add(mul(s, c), sub(c, 1)), x)
        for f in (f1, f2):
            if f not in st.facts:
                st.facts = st.facts + (f,)
        return s

    def divmod(self, st, x, y):
        if isinstance(y, int):
            if y <= 0:
                raise Gap("division by %s" % y)
            return self.divmod_const(st, x, y)
        if x == y:
            return 1, 0
        # exact multiple?
        if isinstance(x, P) and len(y.t) == 1:
            (m, c), = y.t.items()
            q, r = {}, {}
            for n, d in x.t.items():
                rest = list(n)
                ok = d % c == 0
                for s in m:
                    if s in rest:
                        rest.remove(s)
                    else:
                        ok = False
                if ok:
                    q[tuple(rest)] = q.get(tuple(rest), 0) + d // c
                else:
                    r[n] = d
            q, r = norm(q), norm(r)
            if r == 0:
                return q, 0
            if q != 0 and self.decide(st, self.ge(r, 0)) and self.decide(st, self.ge(sub(y, 1), r)):
                return q, r
            if q != 0 and self.decide(st, self.ge(q, 0)) and self.decide(st, self.ge(r, 0)):
                q2, r2 = self.divmod(st, r, y)
                return add(q, q2), r2
        if self.decide(st, self.ge(sub(y, 1), x)):
            return 0, x
        s = self.quot_sym(st, x, y)
        return s, sub(x, mul(s, y))

    # ---- memory
    def get_path(self, v, path):
        for p in path:
            if v is UNDEF:
                return UNDEF
            if isinstance(p, int):
                if not isinstance(v, Agg):
                    if isinstance(v, Obj) and v.k == "map" and p == 1 and self.at is not None:
                        v = len(self.at.mem[v.v[0]])
                        continue
                    raise Gap("field %s of %r" % (p, v))
                v = v.f[p]
            elif p[0] == "i":
                if not isinstance(v, Seq):
                    raise Gap("element of %r" % (v,))
                if not (0 <= p[1] < len(v.i)):
                    raise Viol("element %s out of bounds" % (p[1],))
                v = v.i[p[1]]
            elif p[0] == "v":
                if not isinstance(v, Agg):
                    raise Gap("variant of %r" % (v,))
                if v.var != p[1]:
                    raise Viol("wrong variant")
                v = v.f[p[2]]
            else:
                raise Gap("path %s" % (p,))
        return v

    def set_path(self, v, path, new, ty):
        if not path:
            return new
        p = path[0]
        if isinstance(p, int) or p[0] == "v":
            i = p if isinstance(p, int) else p[2]
            var = 0 if isinstance(p, int) else p[1]
            t = ty[0] if ty else None
            if v is UNDEF or v is None or not isinstance(v, Agg):
                if v is not UNDEF and v is not None and not (t is not None and self.T(t)["k"] == "adt"):
                    raise Gap("store into field of %r" % (v,))
                if t is None:
                    raise Gap("store into a field of an untyped object")
                v = Agg(t, var, [UNDEF] * len(self.fields(t, var)))
            if v.var != var:
                v = Agg(v.ty, var, [UNDEF] * len(self.fields(t if t is not None else v.ty, var)))
            ft = None
            tt = v.ty if v.ty is not None else t
            if tt is not None and len(path) > 1:
                ft = (self.fields(tt, var)[i],)
            f = list(v.f)
            f[i] = self.set_path(f[i], path[1:], new, ft)
            return Agg(v.ty, v.var, f)
        if p[0] == "i":
            if not isinstance(v, Seq):
                raise Gap("store into element of %r" % (v,))
            it = list(v.i)
            if not (0 <= p[1] < len(it)):
                raise Viol("element %s out of bounds" % (p[1],))
            it[p[1]] = self.set_path(it[p[1]], path[1:], new, None)
            return Seq(it)
        raise Gap("path")

    def fields(self, t, var=0):
        x = self.T(t)
        k = x["k"]
        if k == "tuple":
            return x["f"]
        if k == "closure":
            return x["f"]
        if k == "adt":
            if x["ak"] == "union":
                return [x["v"][0]["f"][-1][1]]
            return [f[1] for f in x["v"][var]["f"]]
        raise Gap("fields of " + x["name"])

    def base_value(self, st, base):
        v = st.mem.get(base)
        if v is None:
            if base[0] == "a":
                v = self.const_alloc(base[1])
                if len(base) == 3:
                    a = self.d["allocs"][str(base[1])]
                    raw = bytes.fromhex(a["b"])
                    if isinstance(base[2], tuple):
                        z = self.size_of(base[2][1])
                        v = Seq([self.const_at(a, raw, z * j, base[2][1]) for j in range(base[2][2])])
                    else:
                        v = self.const_at(a, raw, 0, base[2])
                st.mem[base] = v
                return v
            if base[0] == "null":
                raise Viol("access through a null or dangling pointer")
            raise Viol("access to memory which is not alive (%s)" % (base[0],))
        if base[0] == "mm":
            # a mapping shows the file it was made from
            return st.mem[v.v[0]]
        return v

    def const_alloc(self, i):
        a = self.d["allocs"].get(str(i))
        if a is None or a["k"] != "mem":
            raise Gap("static memory")
        return lit(bytes.fromhex(a["b"]))

    def load(self, st, loc, ty):
        """Value of type ty at the pointer."""
        x = self.T(ty)
        if x["size"] == 0:
            return self.zst(ty)
        v = self.get_path(self.base_value(st, loc.base), loc.path)
        if loc.off is not None and isinstance(v, Agg):
            v = self.only_part(v)
        if isinstance(v, Bytes):
            if x["k"] in ("slice", "str"):
                return self.cut(st, v, loc.off or 0, loc.meta)
            n = self.size_of(ty)
            if loc.off is None and x["k"] in ("array",) and self.is_bytelike(x["e"]):
                return v
            if loc.base[0] == "a" and not loc.path:
                return self.load_const(st, loc, ty)
            b = self.cut(st, v, loc.off or 0, n)
            return self.from_bytes(st, b, ty)
        if isinstance(v, Seq):
            if x["k"] == "array" and loc.off is None:
                return v
            i = loc.off or 0
            if not isinstance(i, int):
                i = self.concretize(st, i, len(v.i))
            if not 0 <= i < len(v.i):
                raise Viol("element %s out of bounds" % i)
            return v.i[i]
        if v is UNDEF:
            if x["k"] in ("adt", "array", "tuple"):
                return UNDEF
            raise Gap("read of uninitialised memory")
        if is_num(v) or isinstance(v, (bool, C)):
            return self.load_scalar(st, v, loc, ty)
        if loc.off not in (None, 0):
            raise Gap("offset into %r" % (v,))
        return self.coerce_view(v, ty)

    def only_part(self, v):
        """The array in a struct that has nothing but this array."""
        w = v
        for _ in range(6):
            if not isinstance(w, Agg) or w.ty is None or self.T(w.ty)["k"] != "adt" or self.T(w.ty)["ak"] not in ("struct", "union"):
                break
            parts = [f for f in w.f if not (isinstance(f, Agg) and f.ty is not None and self.T(f.ty)["size"] == 0)]
            if len(parts) != 1:
                break
            w = parts[0]
        return w if isinstance(w, (Bytes, Seq)) else v

    def coerce_view(self, v, ty):
        """The same memory seen as another type, for wrappers of a single field."""
        x = self.T(ty)
        if isinstance(v, Agg) and v.ty is not None and v.ty != ty and x["k"] in ("int", "uint", "bool", "ptr", "ref"):
            u = self.unwrap(v)
            if not isinstance(u, Agg):
                return u
        if isinstance(v, Ptr) and x["k"] == "adt":
            return self.wrap(ty, v)
        if isinstance(v, Agg) and v.ty is not None and v.ty != ty and x["k"] == "adt" and x["ak"] == "enum":
            u = v
            while isinstance(u, Agg) and u.ty != ty and self.T(u.ty)["k"] == "adt" and self.T(u.ty)["ak"] == "struct":
                nz = [f for f, t in zip(u.f, self.fields(u.ty)) if self.T(t)["size"] != 0]
                if len(nz) != 1:
                    break
                u = nz[0]
            if isinstance(u, Agg) and u.ty == ty:
                return u
        return v

    def concretize(self, st, x, n):
        for k in range(n + 1):
            if self.test(st, self.eq(x, k)):
                return k
        raise Viol("index out of bounds")

    def slot_type(self, st, loc):
        """Static type of the memory at base.path, if known."""
        if loc.base[0] == "l":
            for f in st.frames:
                if f.fid == loc.base[1]:
                    t = f.fn["locals"][loc.base[2]]
                    break
            else:
                return None
        else:
            t = st.ht.get(loc.base)
        for p in loc.path:
            if t is None:
                return None
            if isinstance(p, int):
                fs = self.fields(t, 0)
                t = fs[p] if p < len(fs) else None
            elif p[0] == "v":
                t = self.fields(t, p[1])[p[2]]
            elif p[0] == "i":
                x = self.T(t)
                t = x.get("e")
            else:
                return None
        return t

    def scalar_type(self, st, loc, v):
        t = self.slot_type(st, loc)
        return t

    def load_scalar(self, st, v, loc, ty):
        t = self.slot_type(st, loc)
        off = loc.off or 0
        x = self.T(ty)
        if t is None or t == ty:
            if off != 0:
                raise Viol("access past a scalar") if isinstance(off, int) else Gap("offset")
            return v
        if self.T(t)["k"] == "adt" and self.T(t)["ak"] == "enum":
            return v
        sz = self.size_of(t)
        if x["k"] in ("adt", "tuple") and off == 0:
            if x["k"] == "adt" and x["ak"] == "enum":
                return v
            return self.wrap(ty, v)
        n = self.size_of(ty)
        if off == 0 and n == sz and x["k"] in ("int", "uint", "bool", "char"):
            return self.recast(st, v, t, ty)
        b = self.to_bytes(st, v, t)
        return self.from_bytes(st, self.cut(st, b, off, n), ty)

    def recast(self, st, v, t, ty):
        if self.T(t)["k"] == self.T(ty)["k"]:
            return v
        if self.T(ty)["k"] == "bool":
            return self.to_cond(v)
        w = self.width(t)
        if isinstance(v, P) and not self.signed(ty) and not self.signed(t):
            return v
        return self.from_bits(self.bits(st, v, w), ty)

    def to_bytes(self, st, v, ty):
        x = self.T(ty)
        if isinstance(v, Bytes):
            return v
        if is_num(v) or isinstance(v, (bool, C)):
            n = self.size_of(ty)
            b = self.bits(st, v, n * 8)
            by = [b[8 * i:8 * i + 8] for i in range(n)]
            if self.endian == "big":
                by.reverse()
            return seg_norm([(1, ("b", (self.byte(q),))) for q in by])
        if isinstance(v, Seq) and x["k"] == "array":
            out = ()
            for i in v.i:
                out += self.to_bytes(st, i, x["e"]).s
            return seg_norm(out)
        if isinstance(v, Agg) and x["k"] in ("adt", "tuple"):
            fs = [(a, t) for a, t in zip(v.f, self.fields(ty, v.var)) if self.T(t)["size"] != 0]
            if len(fs) == 1 and self.size_of(fs[0][1]) == self.size_of(ty):
                return self.to_bytes(st, fs[0][0], fs[0][1])
            if x["k"] == "adt" and x["ak"] == "union" and all(f is UNDEF or (isinstance(f, Agg) and not f.f) for f in v.f):
                return src_bytes(("undef", st.n), self.size_of(ty))
            b = self.struct_bytes(st, v, ty, x)
            if b is not None:
                return b
        if v is UNDEF:
            return src_bytes(("undef", st.n), self.size_of(ty))
        raise Gap("bytes of %r" % (v,))

    def struct_bytes(self, st, v, ty, x):
        """Bytes of a value as the compiler lays it out."""
        lay = x.get("lay")
        if lay is None or (x["k"] == "adt" and x["ak"] == "union"):
            return None
        parts = []
        if "single" in lay:
            offs = lay["o"]
        else:
            offs = lay["vo"][v.var]
            niche = lay.get("niche")
            m = (1 << 8 * lay["n"]) - 1
            if niche is None:
                tag = int(x["v"][v.var]["d"]) & m
            elif v.var == niche[0]:
                tag = None
            else:
                tag = (v.var - niche[1] + int(niche[3])) & m
            if tag is not None:
                parts.append((lay["at"], lit(tag.to_bytes(lay["n"], self.endian))))
        for o, f, t in zip(offs, v.f, self.fields(ty, v.var)):
            if self.T(t)["size"] > 0:
                parts.append((o, self.to_bytes(st, f, t)))
        out, at = [], 0
        for o, b in sorted(parts, key=lambda p: p[0]):
            if o < at:
                return None
            if o > at:
                out += list(src_bytes(("undef", st.n), o - at).s)
            out += list(b.s)
            at = o + blen(b)
        if at < x["size"]:
            out += list(src_bytes(("undef", st.n), x["size"] - at).s)
        return seg_norm(out)

    def byte(self, b):
        if all(isinstance(a, int) for a in b):
            return sum(a << i for i, a in enumerate(b))
        return BV(tuple(b))

    def byte_list(self, st, b):
        """Values of the bytes of a sequence of constant length."""
        out = []
        for n, c in b.s:
            if not isinstance(n, int):
                if entails(st.facts, neg(n)):
                    continue
                raise Gap("bytes of symbolic number")
            if c[0] == "z":
                out += [0] * n
            elif c[0] == "c":
                out += list(c[1])
            elif c[0] == "b":
                out += list(c[1])
            elif c[0] == "f":
                out += [c[1]] * n
            elif c[0] == "d":
                if n > 4096:
                    raise Gap("many bytes")
                for j in range(n):
                    o = add(c[2], j)
                    out.append(BV(tuple(("d", c[1], o, i) for i in range(8))))
            else:
                raise Gap("content " + str(c[0]))
        return out

    def from_bytes(self, st, b, ty):
        x = self.T(ty)
        k = x["k"]
        if k in ("int", "uint", "bool", "char") or (k == "adt" and x["ak"] == "enum"):
            by = self.byte_list(st, b)
            if self.endian == "big":
                by = by[::-1]
            bits = ()
            for q in by:
                bits += self.bits(st, q, 8)
            if k == "bool":
                if any(a != 0 for a in bits[1:]):
                    return self.to_cond(BV(bits))
                return self.bit_cond(bits[0])
            if k == "adt":
                return bits_poly(bits) if all(isinstance(a, int) for a in bits) else BV(bits)
            return self.from_bits(bits, ty)
        if k == "array":
            if self.is_bytelike(x["e"]):
                return b
            sz = self.size_of(x["e"])
            return Seq([self.from_bytes(st, self.cut(st, b, i * sz, sz), x["e"]) for i in range(x["n"])])
        if k in ("adt", "tuple"):
            fs = self.fields(ty)
            nz = [t for t in fs if self.T(t)["size"] != 0]
            if len(nz) == 1 and self.size_of(nz[0]) == self.size_of(ty):
                return Agg(ty, 0, [self.from_bytes(st, b, t) if self.T(t)["size"] else self.zst(t) for t in fs])
        raise Gap("value of type %s from bytes" % x["name"])

    def load_const(self, st, loc, ty):
        """Typed read from constant memory."""
        a = self.d["allocs"][str(loc.base[1])]
        raw = bytes.fromhex(a["b"])
        off = loc.off or 0
        if not isinstance(off, int):
            return self.from_bytes(st, self.cut(st, lit(raw), off, self.size_of(ty)), ty)
        return self.const_at(a, raw, off, ty)

    def const_at(self, a, raw, off, ty):
        x = self.T(ty)
        k = x["k"]
        n = x["size"]
        if n == 0:
            return self.zst(ty)
        if off + n > len(raw):
            raise Viol("read past constant memory")
        if k in ("int", "uint", "bool", "char"):
            v = int.from_bytes(raw[off:off + n], "little", signed=k == "int")
            return bool(v) if k == "bool" else v
        if k in ("ref", "ptr"):
            e = x["e"]
            tgt = [p for p in a.get("p", []) if p[0] == off]
            if not tgt:
                v = int.from_bytes(raw[off:off + 8], "little")
                return Ptr(("null", v))
            t = tgt[0][1]
            o = int.from_bytes(raw[off:off + 8], "little")
            m = int.from_bytes(raw[off + 8:off + 16], "little") if n == 16 else None
            return self.const_ptr(t, o, m, e)
        if k == "array":
            sz = self.size_of(x["e"])
            if self.is_bytelike(x["e"]):
                return lit(raw[off:off + n])
            return Seq([self.const_at(a, raw, off + i * sz, x["e"]) for i in range(x["n"])])
        if k == "fnptr":
            tgt = [p for p in a.get("p", []) if p[0] == off]
            al = self.d["allocs"].get(str(tgt[0][1])) if tgt else None
            if al and al["k"] == "fn":
                return Fn(al.get("i"))
        if k == "adt" and x["p"] in EMPTY and self.at is not None:
            # a constant container is empty
            self.at.n += 1
            if x["p"] in EMPTY[2:]:
                h = ("map", self.at.n)
                self.at.mem[h] = ()
                return Obj("map", h)
            el = self.T(x["a"][0]) if x["p"] == EMPTY[0] else None
            return Vec(self.alloc(self.at, Bytes(()) if el is None or self.is_bytelike(x["a"][0]) else Seq(())))
        if k in ("adt", "tuple", "closure"):
            lay = x.get("lay")
            if k == "adt" and x["ak"] == "enum":
                if lay is None:
                    raise Gap("constant " + x["name"])
                if "single" in lay:
                    var, offs = lay["single"], lay["o"]
                else:
                    var = self.variant_at(a, raw, off, x, lay)
                    offs = lay["vo"][var]
                return Agg(ty, var, [self.const_at(a, raw, off + o, t) for o, t in zip(offs, self.fields(ty, var))])
            fs = self.fields(ty)
            if k == "adt" and x["ak"] == "union":
                return Agg(ty, 0, [self.const_at(a, raw, off, fs[0])])
            if lay is not None and len(lay.get("o", ())) == len(fs):
                return Agg(ty, 0, [self.const_at(a, raw, off + o, t) for o, t in zip(lay["o"], fs)])
        raise Gap("constant of type " + x["name"])

    def variant_at(self, a, raw, off, x, lay):
        """Variant of an enum in constant memory."""
        at, n = off + lay["at"], lay["n"]
        niche = lay.get("niche")
        if niche and any(p[0] == at for p in a.get("p", [])):
            return niche[0]
        tag = int.from_bytes(raw[at:at + n], "little")
        m = (1 << (8 * n)) - 1
        if niche:
            i = ((tag - int(niche[3])) & m) + niche[1]
            return i if niche[1] <= i <= niche[2] and i != niche[0] else niche[0]
        for i, v in enumerate(x["v"]):
            if int(v["d"]) & m == tag:
                return i
        raise Viol("value of type %s out of its range" % x["name"])

    def store(self, st, loc, ty, val):
        if self.T(ty)["size"] == 0 and not isinstance(val, (Agg,)):
            return
        v = st.mem.get(loc.base)
        if v is None and loc.base[0] == "l":
            v = UNDEF
            if not any(f.fid == loc.base[1] for f in st.frames):
                raise Viol("store into a dead stack frame")
        elif v is None:
            self.base_value(st, loc.base)
        if loc.base[0] == "a":
            raise Viol("store into constant memory")
        if loc.path:
            # wrapper types: writing through a cast of a pointer
            cur = self.get_path_or_undef(v, loc.path)
        else:
            cur = v
        bt = self.slot_base_type(st, loc)
        if isinstance(cur, Bytes):
            if loc.off is None and isinstance(val, Bytes) and self.T(ty)["k"] in ("array", "slice", "str"):
                new = val
            else:
                b = val if isinstance(val, Bytes) else self.to_bytes(st, val, ty)
                new = self.replace(st, cur, loc.off or 0, b)
        elif isinstance(cur, Seq) and not (loc.off is None and isinstance(val, Seq)):
            i = loc.off or 0
            if not isinstance(i, int):
                i = self.concretize(st, i, len(cur.i))
            if not 0 <= i < len(cur.i):
                raise Viol("element %s out of bounds" % i)
            it = list(cur.i)
            it[i] = val
            new = Seq(it)
        elif loc.off not in (None,) or (is_num(cur) and (is_num(val) or isinstance(val, (bool, C, Bytes)))):
            t = self.slot_type(st, loc)
            if t is None or t == ty or (loc.off in (None, 0) and self.size_of(t) == self.size_of(ty)):
                if loc.off not in (None, 0):
                    raise Viol("store past a scalar") if isinstance(loc.off, int) else Gap("offset")
                new = val if t is None or t == ty else self.recast2(st, val, ty, t)
            else:
                if cur is UNDEF:
                    cur = src_bytes(("undef", st.n), self.size_of(t))
                b = self.replace(st, self.to_bytes(st, cur, t), loc.off or 0, self.to_bytes(st, val, ty))
                new = self.from_bytes(st, b, t)
        elif isinstance(cur, Agg) and cur.ty is not None and cur.ty != ty and not (isinstance(val, Agg) and val.ty == cur.ty):
            new = self.wrap(cur.ty, val)
        else:
            new = val
        st.mem[loc.base] = self.set_path(v, loc.path, new, (bt,) if bt is not None else None)

    def recast2(self, st, val, ty, t):
        k = self.T(t)["k"]
        if k in ("int", "uint", "bool", "char") and (is_num(val) or isinstance(val, (bool, C))):
            return self.recast(st, val, ty, t)
        if isinstance(val, Bytes):
            return self.from_bytes(st, val, t)
        return val

    def slot_base_type(self, st, loc):
        return self.slot_type(st, Ptr(loc.base))

    def get_path_or_undef(self, v, path):
        for p in path:
            if v is UNDEF or v is None:
                return UNDEF
            if isinstance(p, int) or p[0] == "v":
                i = p if isinstance(p, int) else p[2]
                var = 0 if isinstance(p, int) else p[1]
                if not isinstance(v, Agg) or v.var != var or i >= len(v.f):
                    return UNDEF
                v = v.f[i]
            elif isinstance(v, Seq) and 0 <= p[1] < len(v.i):
                v = v.i[p[1]]
            else:
                return UNDEF
        return v

    # ---- byte sequences
    def bounds(self, st, total, off, n, what):
        if not self.test(st, self.ge(total, add(off, n))) or not self.test(st, self.ge(off, 0)):
            raise Viol("%s of %s bytes at offset %s of %s bytes" % (what, n, off, total))

    def split_at(self, st, segs, off):
        """The segments before and after the offset (0 <= off <= length is known)."""
        left = []
        i = 0
        d = off
        while i < len(segs):
            if d == 0 and isinstance(d, int):
                break
            n, c = segs[i]
            if n == d:
                left.append((n, c))
                d = 0
                i += 1
                continue
            if isinstance(d, P) and self.decide(st, self.eq(d, 0)):
                break
            fits = self.decide(st, self.ge(n, d))
            beyond = self.decide(st, self.ge(d, n))
            if fits and beyond:
                left.append((d, c))
                d = 0
                i += 1
                continue
            if not fits and (beyond or self.test(st, self.ge(d, n))):
                left.append((n, c))
                d = sub(d, n)
                i += 1
                continue
            # 0 <= d <= n
            a, b = self.cut_seg(st, n, c, d)
            return left + a, b + list(segs[i + 1:])
        return left, list(segs[i:])

    def cut_seg(self, st, n, c, d):
        k = c[0]
        if k == "z":
            return [(d, c)], [(sub(n, d), c)]
        if k == "f":
            return [(d, c)], [(sub(n, d), c)]
        if k == "d":
            return [(d, c)], [(sub(n, d), ("d", c[1], add(c[2], d)))]
        if k in ("c", "b"):
            if not isinstance(d, int):
                d = self.concretize(st, d, n)
            return [(d, (k, c[1][:d]))], [(n - d, (k, c[1][d:]))]
        if k == "v":
            # an encoded number is opaque: its parts are named bytes
            src = ("enc", c[1], n)
            return [(d, ("d", src, 0))], [(sub(n, d), ("d", src, d))]
        raise Gap("cut of " + k)

    def cut(self, st, b, off, n, what="read"):
        self.bounds(st, blen(b), off, n, what)
        _, r = self.split_at(st, list(b.s), off)
        l, _ = self.split_at(st, r, n)
        return seg_norm(l)

    def replace(self, st, b, off, new):
        n = blen(new)
        self.bounds(st, blen(b), off, n, "write")
        l, r = self.split_at(st, list(b.s), off)
        _, r = self.split_at(st, r, n)
        return seg_norm(l + list(new.s) + r)

    def same_bytes(self, st, a, b):
        """Are the sequences provably equal? Returns None, or a text saying where they differ."""
        la, lb = blen(a), blen(b)
        if not self.test(st, self.eq(la, lb)):
            return "length %s instead of %s" % (la, lb)
        x, y = list(a.s), list(b.s)
        pos = 0
        while x and y:
            n, c = x[0]
            m, d = y[0]
            if self.decide(st, self.eq(n, 0)):
                x.pop(0)
                continue
            if self.decide(st, self.eq(m, 0)):
                y.pop(0)
                continue
            if n == m or self.test(st, self.eq(n, m)):
                k = n
                x1, x2, y1, y2 = [(n, c)], [], [(n, d)], []
            elif self.test(st, self.ge(n, m)):
                k = m
                x1, x2 = self.cut_seg(st, n, c, m)
                y1, y2 = [(m, d)], []
            else:
                k = n
                y1, y2 = self.cut_seg(st, m, d, n)
                x1, x2 = [(n, c)], []
            if len(x1) != 1 or len(y1) != 1 or x1[0][0] != k or y1[0][0] != k and not isinstance(k, int):
                pass
            r = self.same_content(st, k, x1[0][1], y1[0][1])
            if r:
                return "at byte %s: %s" % (pos, r)
            pos = add(pos, k)
            x = x2 + x[1:]
            y = y2 + y[1:]
        for n, c in x + y:
            if not self.decide(st, self.eq(n, 0)):
                return "at byte %s: extra content" % (pos,)
        return None

    def same_content(self, st, n, c, d):
        if c == d:
            return None
        k, l = c[0], d[0]
        if k == "d" and l == "d" and c[1] == d[1]:
            if self.test(st, self.eq(c[2], d[2])):
                return None
            return "bytes of %s from %s instead of %s" % (c[1], c[2], d[2])
        if k == "d" and l == "d" and all(isinstance(t[1], tuple) and t[1][0] == "enc" for t in (c, d)) and c[1][2] == d[1][2] and c[2] == d[2]:
            if self.test(st, self.eq(c[1][1], d[1][1])):
                return None
            return "value %s instead of %s" % (c[1][1], d[1][1])
        if k == "v" and l == "v":
            if self.test(st, self.eq(c[1], d[1])):
                return None
            return "value %s instead of %s" % (c[1], d[1])
        if isinstance(n, int) and n <= 64 and k in "zcbdf" and l in "zcbdf":
            x = self.byte_list(st, Bytes(((n, c),)))
            y = self.byte_list(st, Bytes(((n, d),)))
            for i, (p, q) in enumerate(zip(x, y)):
                p = tuple(self.subst_bit(st, t) for t in self.bits(st, p, 8))
                q = tuple(self.subst_bit(st, t) for t in self.bits(st, q, 8))
                if p != q:
                    if not self.test(st, self.eq(self.num(BV(p)), self.num(BV(q)))):
                        return "byte %d is %s instead of %s" % (i, BV(p), BV(q))
            return None
        return "%s instead of %s" % (self.desc(c), self.desc(d))

    def desc(self, c):
        return {"z": "zeros", "c": "constant %r", "b": "computed bytes"}.get(c[0], str(c)).replace("%r", repr(c[1]) if len(c) > 1 else "")

    # ---- places, operands
    def place(self, st, fr, pl):
        loc = Ptr(("l", fr.fid, pl[0]))
        ty = fr.fn["locals"][pl[0]]
        var = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, loc, ty)
                x = self.T(ty)
                loc = self.as_ptr(v)
                if x["k"] in ("ref", "ptr"):
                    ty = x["e"]
                elif x["k"] == "adt" and x["p"] == "alloc::boxed::Box":
                    ty = x["a"][0]
                else:
                    raise Gap("deref of " + x["name"])
                self.aligned(st, loc, ty)
                var = None
            elif k == ".":
                x = self.T(ty)
                keep = loc.meta if self.is_unsized(e[2]) else None
                if loc.off is not None:
                    cont = self.get_path_or_undef(st.mem.get(loc.base, UNDEF), loc.path)
                    if isinstance(cont, Seq):
                        loc = Ptr(loc.base, loc.path + (("i", loc.off),), None, None)
                    elif loc.off == 0:
                        pass
                    else:
                        raise Gap("field at offset")
                i = 0 if x["k"] == "adt" and x["ak"] == "union" else e[1]
                loc = Ptr(loc.base, loc.path + ((i,) if var is None else (("v", var, i),)), None, keep)
                ty = e[2]
                var = None
            elif k == "i":
                i = self.num(self.load(st, Ptr(("l", fr.fid, e[1])), fr.fn["locals"][e[1]]))
                loc = self.elem(st, loc, ty, i)
                ty = self.T(ty)["e"]
            elif k == "ci":
                x = self.T(ty)
                n = loc.meta if x["k"] == "slice" else x["n"]
                i = sub(n, e[1]) if e[2] else e[1]
                loc = self.elem(st, loc, ty, i)
                ty = x["e"]
            elif k == "ss":
                x = self.T(ty)
                end = sub(loc.meta if x["k"] == "slice" else x["n"], e[2]) if e[3] else e[2]
                if x["k"] != "slice":
                    raise Gap("subslice of an array")
                loc = Ptr(loc.base, loc.path, add(loc.off or 0, e[1]), sub(end, e[1]))
            elif k == "v":
                var = e[1]
                if self.T(ty)["k"] == "adt" and self.T(ty)["ak"] != "enum":
                    var = None
            elif k == "o":
                ty = e[1]
            else:
                raise Gap("projection " + k)
        return loc, ty, var

    def elem(self, st, loc, ty, i):
        """Place of an element of the array or slice at loc."""
        x = self.T(ty)
        if x["k"] == "array" and loc.off is not None:
            # an element of a sequence which is an array itself
            v = self.get_path_or_undef(st.mem.get(loc.base, UNDEF), loc.path)
            if isinstance(v, Seq):
                o = loc.off if isinstance(loc.off, int) else self.concretize(st, loc.off, len(v.i))
                y = v.i[o] if 0 <= o < len(v.i) else None
                inner = isinstance(y, Bytes) if self.is_bytelike(x["e"]) else isinstance(y, Seq)
                if inner and self.T(x["e"])["k"] == "array":
                    inner = len(y.i) > 0 and isinstance(y.i[0], (Seq, Bytes))
                if inner:
                    return Ptr(loc.base, loc.path + (("i", o),), i, None)
        return Ptr(loc.base, loc.path, add(loc.off or 0, self.stride(st, loc, x["e"], i)), None)

    def stride(self, st, loc, ety, n):
        """Number of units by which n elements move a pointer: memory which is a sequence of bytes counts bytes."""
        z = self.T(ety)["size"]
        if z in (0, 1, -1):
            return n
        v = self.get_path_or_undef(st.mem.get(loc.base, UNDEF), loc.path)
        return mul(self.num(n), z) if isinstance(v, Bytes) else n

    def as_ptr(self, v):
        while isinstance(v, Agg):
            nz = [f for f in v.f if not (isinstance(f, Agg) and not f.f)]
            if len(nz) == 0:
                raise Gap("no pointer in %r" % (v,))
            v = nz[0]
        if isinstance(v, Obj) and v.k == "rc":
            v = v.v[0]
        if not isinstance(v, Ptr):
            raise Gap("not a pointer: %r" % (v,))
        return v

    def zst(self, ty):
        x = self.T(ty)
        if x["k"] in ("tuple", "closure") or (x["k"] == "adt" and x["ak"] == "struct"):
            return Agg(ty, 0, [self.zst(t) for t in self.fields(ty)])
        if x["k"] == "fndef":
            return Fn(x["i"])
        if x["k"] == "array":
            return Bytes(()) if self.is_bytelike(x["e"]) else Seq(())
        return Agg(ty, 0, ())

    def const(self, c):
        t = c["t"]
        v = c["v"]
        k = v[0]
        x = self.T(t)
        if k == "int":
            n = int(v[1])
            if x["k"] == "bool":
                return bool(n)
            if x["k"] == "int":
                w = x["bits"]
                return n - (1 << w) if n >> (w - 1) else n
            if x["k"] in ("ptr", "ref"):
                return Ptr(("null", n))
            if x["k"] == "adt":
                return self.const_scalar_adt(t, n)
            if n >= 500000 and x["k"] == "uint":
                for name, z in PRIMES.items():
                    a, b = divmod(n + 64, z)
                    if 1 <= a <= 16 and b <= 128 and name in self.sizes:
                        return add(mul(self.sizes[name], a), b - 64)
            return n
        if k == "zst":
            return self.zst(t)
        if k == "ptr":
            if x["k"] == "adt":
                if x.get("lay") is not None:
                    return self.const_at({"p": [[0, v[1]]]}, int(v[2]).to_bytes(8, "little"), 0, t)
                return self.wrap(t, Ptr(("a", v[1]), (), v[2] or None))
            a = self.d["allocs"].get(str(v[1]))
            if a and a["k"] == "fn":
                return Fn(a.get("i"))
            return self.const_ptr(v[1], v[2], None, x.get("e"))
        if k == "slice":
            return self.const_ptr(v[1], 0, v[2], x.get("e"))
        if k == "mem":
            a = self.d["allocs"][str(v[1])]
            return self.const_at(a, bytes.fromhex(a["b"]), v[2], t)
        if k == "dc":
            return self.const_dc(t, v)
        if k == "sym":
            if v[1] not in self.sizes:
                raise Gap("no size for " + v[1])
            return self.sizes[v[1]]
        raise Gap("constant " + str(v))

    def const_ptr(self, i, o, m, e):
        """Pointer to constant memory; structured memory is seen with its type."""
        a = self.d["allocs"].get(str(i))
        if e is not None and a and a["k"] == "mem":
            x = self.T(e)
            if x["k"] == "slice" and m is not None and not self.is_bytelike(x["e"]):
                z = self.size_of(x["e"])
                if z and o % z == 0:
                    return Ptr(("a", i, ("seq", x["e"], len(a["b"]) // 2 // z)), (), o // z, m)
            elif o == 0 and m is None and 0 < x["size"] <= len(a["b"]) // 2 and (
                    x["k"] in ("tuple", "closure") or (x["k"] == "adt" and "MaybeUninit" not in x["p"])
                    or (x["k"] == "array" and not self.is_bytelike(x["e"]))):
                return Ptr(("a", i, e), (), None, None)
        return Ptr(("a", i), (), o or None if m is None else o, m)

    def const_dc(self, t, v):
        if self.T(t)["k"] == "adt" and self.T(t)["p"] in EMPTY and self.at is not None:
            return self.const_at({}, bytes(self.T(t)["size"]), 0, t)
        fs = [self.const(f) for f in v[2]]
        x = self.T(t)
        if x["k"] == "array":
            if self.is_bytelike(x["e"]):
                return seg_norm([(1, ("b", (f,))) for f in fs])
            return Seq(fs)
        return Agg(t, v[1], fs)

    def const_scalar_adt(self, t, n):
        x = self.T(t)
        if x["ak"] == "enum":
            for i, v in enumerate(x["v"]):
                if v["d"] is not None and int(v["d"]) & ((1 << 8 * x["size"]) - 1) == n and all(self.T(f[1])["size"] == 0 for f in v["f"]):
                    return Agg(t, i, [self.zst(f[1]) for f in v["f"]])
            return self.const_at({}, n.to_bytes(x["size"], "little"), 0, t)
        fs = self.fields(t)
        return Agg(t, 0, [self.zst(f) if self.T(f)["size"] == 0 else
                          (self.const_scalar_adt(f, n) if self.T(f)["k"] == "adt" else
                           self.scalar_of(f, n)) for f in fs])

    def scalar_of(self, t, n):
        x = self.T(t)
        if x["k"] == "bool":
            return bool(n)
        if x["k"] in ("ptr", "ref"):
            return Ptr(("null", n))
        if x["k"] == "int":
            return n - (1 << x["bits"]) if n >> (x["bits"] - 1) else n
        return n

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            loc, ty, var = self.place(st, fr, o[1])
            return self.load(st, loc, ty)
        if k == "k":
            self.at = st
            return self.const(o[1])
        if k == "rc":
            return self.debug and o[1] in ("OverflowChecks",)
        raise Gap("operand " + k)

    def operand_ty(self, st, fr, o):
        if o[0] in ("c", "m"):
            ty = fr.fn["locals"][o[1][0]]
            for e in o[1][1]:
                if e[0] == ".":
                    ty = e[2]
                elif e[0] == "*":
                    x = self.T(ty)
                    ty = x["e"] if "e" in x else x["a"][0]
                elif e[0] in ("i", "ci"):
                    ty = self.T(ty)["e"]
                elif e[0] == "o":
                    ty = e[1]
            return ty
        if o[0] == "k":
            return o[1]["t"]
        return self.find_type(lambda t: t["k"] == "bool")

    def unwrap(self, v):
        while isinstance(v, Agg) and v.ty is not None and self.T(v.ty)["k"] in ("adt", "tuple") and \
                not (self.T(v.ty)["k"] == "adt" and self.T(v.ty)["ak"] == "enum"):
            fs = self.fields(v.ty, 0)
            nz = [f for f, t in zip(v.f, fs) if self.T(t)["size"] != 0]
            if len(nz) != 1:
                return v
            v = nz[0]
        return v

    def wrap(self, ty, v):
        """Rebuild a single-field wrapper type around a value."""
        x = self.T(ty)
        if isinstance(v, Agg) and v.ty == ty:
            return v
        if x["k"] in ("adt", "tuple") and not (x["k"] == "adt" and x["ak"] == "enum"):
            fs = self.fields(ty)
            nz = [t for t in fs if self.T(t)["size"] != 0]
            if x["k"] == "adt" and x["ak"] == "union":
                return Agg(ty, 0, (self.wrap(fs[0], v),))
            if len(nz) == 1:
                return Agg(ty, 0, [self.wrap(t, v) if self.T(t)["size"] != 0 else self.zst(t) for t in fs])
        return v

    # ---- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow"):
            loc, ty, var = self.place(st, fr, r[1])
            x = self.T(ty)
            if x["k"] == "array" and loc.off is None and False:
                return loc
            return loc
        if k == "cast":
            if len(r) > 4:
                return Fn(r[4], True)
            return self.cast(st, fr, r[1], r[2], r[3])
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.operand_ty(st, fr, r[2]), dty, self.operand_ty(st, fr, r[3]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            t = self.operand_ty(st, fr, r[2])
            if r[1] == "PtrMetadata":
                p = self.as_ptr(v)
                return p.meta if p.meta is not None else self.unit()
            if r[1] == "Not":
                if self.T(t)["k"] == "bool":
                    return self.c_not(self.to_cond(v))
                w = self.width(t)
                return self.from_bits(tuple(a_not(a) for a in self.bits(st, v, w)), t)
            if r[1] == "Neg":
                if isinstance(v, int):
                    return -v
                if isinstance(v, P) and self.decide(st, self.ge(v, 0)):
                    return neg(v)
                raise Gap("negation")
            raise Gap("unary " + r[1])
        if k == "discr":
            loc, ty, var = self.place(st, fr, r[1])
            return self.discr(self.load(st, loc, ty), ty)
        if k == "agg":
            return self.aggregate(st, fr, r, dty)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            n = int(n) if not isinstance(n, (list, dict)) else None
            if n is None:
                raise Gap("repeat")
            if self.is_bytelike(self.T(dty)["e"]):
                if isinstance(v, Agg) or v is UNDEF:
                    return src_bytes(("undef", st.n), n)
                return seg_norm([(n, ("f", v))])
            return Seq([v] * n)
        raise Gap("rvalue " + str(r)[:100])

    def discr(self, v, ty):
        x = self.T(ty)
        if isinstance(v, Agg):
            if x["k"] != "adt" or x["ak"] != "enum":
                return 0
            d = x["v"][v.var]["d"]
            return int(d) if d is not None else v.var
        if is_num(v):
            return v
        raise Gap("discriminant of %r" % (v,))

    def aggregate(self, st, fr, r, dty):
        h = r[1]
        ops = [self.operand(st, fr, o) for o in r[2]]
        k = h[0]
        if k == "array":
            if self.is_bytelike(h[1]):
                if any(isinstance(o, (Agg, Undef)) for o in ops):
                    return src_bytes(("undef", st.n), len(ops))
                return seg_norm([(1, ("b", (o,))) for o in ops])
            return Seq(ops)
        if k == "tuple":
            return Agg(dty, 0, ops)
        if k == "adt":
            t, var = h[1], h[2]
            if self.T(t)["p"] in EMPTY[2:] and self.T(t)["ak"] == "struct":
                return self.const_dc(t, None)
            if self.T(t)["ak"] == "union":
                return Agg(t, 0, ops[-1:])
            return Agg(t, var, ops)
        if k == "closure":
            return Agg(dty, 0, ops)
        if k == "rawptr":
            p = self.as_ptr(ops[0])
            m = ops[1]
            if isinstance(m, Agg):
                return p.with_(meta=None)
            if isinstance(m, (BV,)):
                m = self.num(m)
            return p.with_(meta=m, off=p.off if p.off is not None else (0 if is_num(m) else None))
        raise Gap("aggregate " + k)

    def cast(self, st, fr, kind, op, ty):
        v = self.operand(st, fr, op)
        ft = self.operand_ty(st, fr, op)
        if kind == "IntToInt":
            return self.int_cast(st, v, ft, ty)
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, Fn):
                return v
            p = self.as_ptr(v)
            if not self.is_unsized(self.T(ty)["e"]):
                p = p.with_(meta=None)
                if self.T(ft)["k"] in ("ptr", "ref"):
                    p = self.recast_ptr(st, p, self.T(ft)["e"], self.T(ty)["e"])
            return p
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, v, ft, ty)
        if kind.startswith("coerce:"):
            c = kind[7:]
            if c.startswith("Unsize"):
                return self.unsize(st, v, ft, ty)
            if c.startswith(("MutToConst", "ArrayToPointer")):
                return v
            if c.startswith(("ReifyFnPointer", "ClosureFnPointer", "UnsafeFnPointer")):
                return v
        if kind.startswith("Subtype"):
            return v
        raise Gap("cast " + kind)

    def recast_ptr(self, st, p, e, f):
        """A pointer to a struct seen as a pointer to its only part, where that part is not a scalar."""
        if e == f or p.off is not None:
            return p
        y = self.T(f)
        if y["k"] not in ("adt", "tuple") or y["size"] <= 0:
            return p
        v = self.get_path_or_undef(st.mem.get(p.base, UNDEF), p.path)
        path = ()
        for _ in range(6):
            if not isinstance(v, Agg) or v.ty is None or v.ty == f:
                break
            x = self.T(v.ty)
            if x["k"] == "adt" and x["ak"] != "struct":
                return p
            fs = [(i, t) for i, t in enumerate(self.fields(v.ty)) if self.T(t)["size"] != 0]
            if len(fs) != 1 or fs[0][0] >= len(v.f):
                return p
            path += (fs[0][0],)
            if fs[0][1] == f:
                return p.with_(path=p.path + path)
            v = v.f[fs[0][0]]
        return p

    def int_cast(self, st, v, ft, ty):
        fk, tk = self.T(ft)["k"], self.T(ty)["k"]
        if fk == "bool" or isinstance(v, (bool, C)):
            b = self.cond_bit(st, v)
            if isinstance(b, int):
                return b
            return BV((b,) + (0,) * (self.width(ty) - 1))
        if isinstance(v, Agg):
            v = self.discr(v, ft)
        fw, tw = self.width(ft), self.width(ty)
        if isinstance(v, int):
            v &= MAXU[tw] if tw in MAXU else (1 << tw) - 1
            if tk == "int" and v >> (tw - 1):
                v -= 1 << tw
            return v
        if isinstance(v, P):
            if tk != "int" and tw >= fw and fk != "int":
                return v
            if tk != "int" and fk != "int" and entails(st.facts, sub((1 << tw) - 1, v)):
                return v
            if tk == "int" and fk != "int" and entails(st.facts, sub((1 << (tw - 1)) - 1, v)):
                return v
            if fk == "int" and tw >= fw and entails(st.facts, v):
                return v
        b = self.bits(st, v, fw)
        if tw <= fw:
            b = b[:tw]
        else:
            b = b + ((b[-1],) if fk == "int" else (0,)) * (tw - fw)
        r = self.from_bits(b, ty)
        return r

    def transmute(self, st, v, ft, ty):
        if ft == ty:
            return v
        x, y = self.T(ft), self.T(ty)
        if x["size"] != y["size"] and x["size"] >= 0 and y["size"] >= 0:
            raise Viol("transmute between sizes")
        if y["size"] == 0:
            return self.zst(ty)
        scal = ("int", "uint", "bool", "char")
        u = self.unwrap(v)
        if y["k"] in scal:
            if isinstance(u, Bytes):
                return self.from_bytes(st, u, ty)
            if isinstance(u, Agg) and u.ty is not None:
                return self.from_bytes(st, self.to_bytes(st, u, u.ty), ty)
            if is_num(u) or isinstance(u, (bool, C)):
                if isinstance(u, (bool, C)):
                    if y["k"] == "bool":
                        return u
                    b = self.cond_bit(st, u)
                    return b if isinstance(b, int) else BV((b,) + (0,) * (self.width(ty) - 1))
                if y["k"] == "bool":
                    if isinstance(u, BV) and any(a != 0 for a in u.b[1:]):
                        raise Viol("transmute of a number to bool")
                    return self.to_cond(u)
                if y["k"] == "int" or (isinstance(u, int) and u < 0):
                    return self.from_bits(self.bits(st, u, y["size"] * 8), ty)
                return u
            if isinstance(u, Ptr) and u.base[0] == "null":
                return u.base[1]
            if isinstance(u, Ptr):
                return self.addr(st, u)
            raise Gap("transmute to " + y["name"])
        if y["k"] in ("ptr", "ref"):
            if isinstance(u, int):
                return Ptr(("null", u))
            return u if isinstance(u, (Ptr, Fn, Obj)) else self.as_ptr(u)
        if y["k"] == "array" and (is_num(u) or isinstance(u, (bool, C))):
            return self.from_bytes(st, self.to_bytes(st, u, self.scalar_src(v, ft)), ty)
        if y["k"] == "array":
            return u
        if y["k"] == "adt" and y["ak"] == "enum":
            if is_num(u) and y["p"] == "core::option::Option" and self.T(y["a"][0]).get("p") == "core::num::nonzero::NonZero":
                if self.test(st, self.eq(self.num(u), 0)):
                    return Agg(ty, 0, [])
                return Agg(ty, 1, [self.wrap(y["a"][0], u)])
            if is_num(u) or isinstance(u, (bool, C)):
                return u if not isinstance(u, (bool, C)) else self.int_cast(st, u, ft, ft)
            return v
        if isinstance(u, (Ptr, Bytes, Vec, Obj, Seq)) or is_num(u) or isinstance(u, (bool, C)):
            return self.wrap(ty, u)
        if isinstance(v, Agg) and x["k"] == y["k"] and x.get("p") == y.get("p"):
            return Agg(ty, v.var, v.f)
        return v

    def scalar_src(self, v, ft):
        while isinstance(v, Agg):
            fs = self.fields(ft, 0)
            for f, t in zip(v.f, fs):
                if self.T(t)["size"] != 0:
                    v, ft = f, t
                    break
            else:
                break
        return ft

    def addr(self, st, p):
        if p.base[0] == "null":
            return p.base[1]
        s = symbol(("addr", p.base, p.path), MAXU[64])
        if sub(s, 1) not in st.facts:
            st.facts = st.facts + (sub(s, 1),)
        return add(s, p.off or 0)

    def aligned(self, st, p, ty):
        """Memory that is a sequence of bytes may start anywhere: only addresses known to be multiples will do."""
        x = self.T(ty)
        if x["k"] == "slice":
            x = self.T(x["e"])
        n = x.get("align") or 1
        if n <= 1 or x["size"] == 0 or p.base[0] in ("null", "a"):
            return
        try:
            v = self.get_path(self.base_value(st, p.base), p.path)
        except (Gap, Viol):
            return
        if not isinstance(v, Bytes) or self.slot_is_typed(st, p):
            return
        a = self.addr(st, p)
        if self.decide(st, self.eq(self.divmod(st, a, n)[1], 0)):
            return
        if all(b == 0 or st.bits.get(b) == 0 for b in self.bits(st, a, 64)[:n.bit_length() - 1]):
            return
        raise Viol("%s at an address which need not be a multiple of %d" % (x["name"], n))

    def slot_is_typed(self, st, p):
        """The place was declared with a type of larger alignment."""
        try:
            t = self.slot_base_type(st, p)
        except Exception:
            return False
        if t is None:
            return False
        x = self.T(t)
        return (x.get("align") or 1) > 1

    def unsize(self, st, v, ft, ty):
        x, y = self.T(ft), self.T(ty)
        if x["k"] in ("ref", "ptr"):
            p = self.as_ptr(v)
            e, f = self.T(x["e"]), self.T(y["e"])
            return self.unsize_ptr(p, x["e"], y["e"])
        if isinstance(v, Obj) and v.k == "rc":
            return Obj("rc", self.unsize_ptr(v.v[0], x["a"][0], y["a"][0]))
        if isinstance(v, Agg):
            # Box and friends: rewrap the pointer
            p = self.as_ptr(v)
            np = self.unsize_ptr(p, x["a"][0], y["a"][0])
            return self.wrap_box(ty, np)
        raise Gap("unsize of " + x["name"])

    def wrap_box(self, ty, p):
        def go(t):
            y = self.T(t)
            if y["size"] == 0:
                return self.zst(t)
            if y["k"] == "adt" and y["ak"] == "struct":
                return Agg(t, 0, [go(f) for f in self.fields(t)])
            return p
        return go(ty)

    def unsize_ptr(self, p, e, f):
        x, y = self.T(e), self.T(f)
        if x["k"] == "array" and y["k"] == "slice":
            return p.with_(off=p.off if p.off is not None else 0, meta=x["n"])
        if y["k"] == "dyn":
            return p.with_(meta=("vt", e, f))
        if x["k"] == "dyn":
            return p
        if x["k"] == "adt" and y["k"] == "adt":
            # struct with an unsized tail
            fx, fy = self.fields(e)[-1], self.fields(f)[-1]
            return self.unsize_ptr(p, fx, fy)
        raise Gap("unsize %s to %s" % (x["name"], y["name"]))

    # ---- arithmetic
    def binop(self, st, op, a, b, ty, dty, tyb=None):
        x = self.T(ty)
        k = x["k"]
        if k in ("ptr", "ref", "fnptr"):
            if op == "Offset" and k != "fnptr":
                b = self.stride(st, self.as_ptr(a), x["e"], b)
            return self.ptr_op(st, op, a, b)
        if k == "tuple" and op in ("Eq", "Ne"):
            return op == "Eq"
        if isinstance(a, Agg):
            a = self.discr(a, ty)
        if isinstance(b, Agg):
            b = self.discr(b, ty)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, base, a, b, ty, dty)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, base, a, b, ty)
        if base in ("Shl", "Shr"):
            return self.shift(st, op, a, b, ty, dty)
        w = self.width(ty)
        if isinstance(a, (bool, C)) or isinstance(b, (bool, C)):
            raise Gap("arithmetic on booleans")
        if isinstance(a, BV) or isinstance(b, BV):
            if base == "Add":
                ba, bb = self.bits(st, a, w), self.bits(st, b, w)
                if all(p == 0 or q == 0 for p, q in zip(ba, bb)):
                    v = self.from_bits(tuple(a_or(p, q) for p, q in zip(ba, bb)), ty)
                    return Agg(dty, 0, (v, False)) if op.endswith("Overflow") else v
            if base == "Mul":
                for s, t in ((a, b), (b, a)):
                    if isinstance(s, int) and s > 0 and s & (s - 1) == 0:
                        bits = self.bits(st, t, w)
                        n = s.bit_length() - 1
                        if not self.signed(ty) and (n == 0 or all(q == 0 for q in bits[w - n:])):
                            v = self.from_bits((0,) * n + bits[:w - n], ty)
                            return Agg(dty, 0, (v, False)) if op.endswith("Overflow") else v
            if self.signed(ty):
                raise Gap("signed arithmetic on unknown bits")
            a, b = self.num(a), self.num(b)
        if self.signed(ty) and (isinstance(a, P) or isinstance(b, P)):
            raise Gap("signed arithmetic")
        if base in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Panic("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if base == "Div" else a - q * b
            q, r = self.divmod(st, a, b)
            return q if base == "Div" else r
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base == "Offset":
            return self.ptr_add(a, b)
        else:
            raise Gap("operation " + op)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if self.signed(ty) else (0, (1 << w) - 1)
        if isinstance(r, int):
            ov = not (lo <= r <= hi)
            if ov:
                r &= (1 << w) - 1
                if self.signed(ty) and r >> (w - 1):
                    r -= 1 << w
        else:
            ov = False
            if base == "Sub" and not self.test(st, self.ge(r, 0)):
                ov = True
                r = add(r, 1 << w)
            elif base != "Sub" and not self.test(st, self.ge(hi, r)):
                ov = True
                if base == "Add":
                    r = sub(r, 1 << w)
                else:
                    _, r = self.divmod_const(st, r, 1 << w)
        if op.endswith("WithOverflow"):
            return Agg(dty, 0, (r, ov))
        if op.endswith("Unchecked") and ov:
            raise Viol("unchecked arithmetic overflows")
        return r

    def compare(self, st, op, a, b, ty, dty):
        if isinstance(a, (bool, C)) or isinstance(b, (bool, C)):
            a, b = self.cond_bit(st, a), self.cond_bit(st, b)
            if isinstance(a, int) and isinstance(b, int):
                e = a == b
            else:
                e = self.bit_cond(a_not(a_xor(a, b)))
            if op == "Eq":
                return e
            if op == "Ne":
                return self.c_not(e)
            a = a if isinstance(a, int) else BV((a,))
            b = b if isinstance(b, int) else BV((b,))
        if isinstance(a, BV) and b == 0 or isinstance(b, BV) and a == 0:
            v = a if isinstance(a, BV) else b
            if op in ("Eq", "Ne"):
                live = [t for t in v.b if t != 0]
                if any(t == 1 for t in live):
                    r = False
                elif len(live) == 0:
                    r = True
                elif len(live) == 1:
                    r = self.bit_cond(a_not(live[0]))
                else:
                    r = None
                if r is not None:
                    return r if op == "Eq" else self.c_not(r)
        if op in ("Eq", "Ne") and (isinstance(a, BV) or isinstance(b, BV)):
            w = self.width(ty)
            if self.signed(ty) and any(isinstance(x, P) and not entails(st.facts, x) for x in (a, b)):
                raise Gap("comparison of a negative number")
            ba, bb = self.bits(st, a, w), self.bits(st, b, w)
            ba = [self.subst_bit(st, t) for t in ba]
            bb = [self.subst_bit(st, t) for t in bb]
            diff = [(p, q) for p, q in zip(ba, bb) if p != q]
            if not diff:
                r = True
            elif any(p == a_not(q) for p, q in diff):
                r = False
            elif len(diff) == 1:
                r = self.bit_cond(a_not(a_xor(*diff[0])))
            else:
                ca, cb = bits_poly(ba), bits_poly(bb)
                r = self.eq(ca, cb)
                if isinstance(r, C) and len(diff) <= 8 and any(isinstance(q, int) for _, q in diff):
                    pass
            return r if op == "Eq" else self.c_not(r)
        if self.signed(ty):
            w = self.width(ty)
            if any(isinstance(x, P) and not entails(st.facts, x) for x in (a, b)):
                raise Gap("comparison of a negative number")
            if not all(isinstance(x, int) or isinstance(x, P) and entails(st.facts, sub((1 << (w - 1)) - 1, x))
                       for x in (a, b)):
                fa = list(self.bits(st, a, w))
                fb = list(self.bits(st, b, w))
                fa[-1], fb[-1] = a_not(fa[-1]), a_not(fb[-1])
                a, b = bits_poly(fa), bits_poly(fb)
        a, b = self.num(a), self.num(b)
        if op == "Eq":
            return self.eq(a, b)
        if op == "Ne":
            return self.c_not(self.eq(a, b))
        if op == "Lt":
            return self.ge(sub(b, 1), a)
        if op == "Le":
            return self.ge(b, a)
        if op == "Gt":
            return self.ge(sub(a, 1), b)
        if op == "Ge":
            return self.ge(a, b)
        if op == "Cmp":
            v = 0 if self.test(st, self.eq(a, b)) else (-1 if self.test(st, self.ge(sub(b, 1), a)) else 1)
            for i, va in enumerate(self.T(dty)["v"]):
                d = int(va["d"])
                if d == v:
                    return Agg(dty, i, ())
        raise Gap("comparison " + op)

    def bitop(self, st, op, a, b, ty):
        if self.T(ty)["k"] == "bool" or isinstance(a, (bool, C)) or isinstance(b, (bool, C)):
            x, y = self.to_cond(a), self.to_cond(b)
            if op == "BitAnd":
                return self.c_and(x, y)
            if op == "BitOr":
                return self.c_or(x, y)
            p, q = self.cond_bit(st, x), self.cond_bit(st, y)
            return self.bit_cond(a_xor(p, q))
        w = self.width(ty)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            v = {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op] & m
            return v - (1 << w) if self.signed(ty) and v >> (w - 1) else v
        if op == "BitAnd" and not self.signed(ty):
            for s, t in ((a, b), (b, a)):
                if isinstance(s, int):
                    s &= (1 << w) - 1
                    if s == (1 << w) - 1:
                        return t
                    if isinstance(t, P) and s & (s + 1) == 0:
                        return self.divmod_const(st, t, s + 1)[1]
        f = {"BitAnd": a_and, "BitOr": a_or, "BitXor": a_xor}[op]
        x, y = self.bits(st, a, w), self.bits(st, b, w)
        return self.from_bits(tuple(f(p, q) for p, q in zip(x, y)), ty)

    def shift(self, st, op, a, b, ty, dty):
        w = self.width(ty)
        b = self.num(b)
        if isinstance(b, P):
            q = self.concretize_small(st, b, 2 * w)
            b = q
        ov = not (0 <= b < w)
        if ov and "Unchecked" in op:
            raise Viol("unchecked shift overflows")
        s = b & (w - 1)
        if isinstance(a, int):
            if op.startswith("Shl"):
                v = (a << s) & ((1 << w) - 1)
                if self.signed(ty) and v >> (w - 1):
                    v -= 1 << w
            else:
                v = a >> s
        elif isinstance(a, P) and op.startswith("Shr") and not self.signed(ty):
            v = self.divmod_const(st, a, 1 << s)[0]
        elif isinstance(a, P) and op.startswith("Shl") and not self.signed(ty) and entails(st.facts, sub((1 << (w - s)) - 1, a)):
            v = mul(a, 1 << s)
        else:
            x = self.bits(st, a, w)
            if op.startswith("Shl"):
                x = (0,) * s + x[:w - s]
            else:
                x = x[s:] + ((x[-1],) if self.signed(ty) else (0,)) * s
            v = self.from_bits(x, ty)
        if op.endswith("WithOverflow"):
            return Agg(dty, 0, (v, ov))
        return v

    def concretize_small(self, st, x, lim):
        # a remainder by a small constant, for instance
        for k in range(lim):
            if self.test(st, self.eq(x, k)):
                return k
        raise Gap("unbounded value")

    def ptr_add(self, p, n):
        p = self.as_ptr(p)
        return p.with_(off=add(p.off or 0, self.num(n)))

    def ptr_op(self, st, op, a, b):
        if op == "Offset":
            p = self.as_ptr(a)
            n = self.num(b)
            return p.with_(off=add(p.off or 0, n))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            p, q = self.as_ptr(a), self.as_ptr(b)
            if p.base == q.base and p.path == q.path:
                x, y = p.off or 0, q.off or 0
                t = {"Eq": lambda: self.eq(x, y), "Ne": lambda: self.c_not(self.eq(x, y)),
                     "Lt": lambda: self.ge(sub(y, 1), x), "Le": lambda: self.ge(y, x),
                     "Gt": lambda: self.ge(sub(x, 1), y), "Ge": lambda: self.ge(x, y)}[op]()
                return t
            if op in ("Eq", "Ne"):
                if p.base[0] == "null" or q.base[0] == "null":
                    if p.base[0] == q.base[0]:
                        return (p.base[1] == q.base[1]) == (op == "Eq")
                    return op == "Ne"
                return C(("opq", "ptreq", str(p), str(q))) if op == "Eq" else self.c_not(C(("opq", "ptreq", str(p), str(q))))
        raise Gap("pointer operation " + op)

    # ---- execution
    def start(self, st, name_or_id, args):
        fid = self.roots[name_or_id] if isinstance(name_or_id, str) else name_or_id
        self.push(st, self.fn(fid), args, None, None, None)
        return st

    def push(self, st, f, args, dest, dty, target):
        if not f.get("blocks"):
            raise Gap("no body: " + f["p"])
        if len(st.frames) > 150:
            raise Gap("call depth")
        self.analysed.add(f["name"])
        fr = Frame()
        st.n += 1
        fr.fid, fr.fn, fr.blk, fr.idx, fr.dest, fr.dty, fr.target, fr.span = st.n, f, 0, 0, dest, dty, target, f["span"]
        fr.visits = None
        n = f["nargs"]
        if len(args) != n:
            if n > len(args) >= 1 and isinstance(args[-1], Agg):
                args = list(args[:-1]) + list(args[-1].f)
            if len(args) != n:
                raise Gap("arguments of " + f["p"])
        st.frames.append(fr)
        for i, a in enumerate(args):
            st.mem[("l", fr.fid, i + 1)] = a
        return fr

    def pop(self, st):
        fr = st.frames.pop()
        v = st.mem.get(("l", fr.fid, 0), UNDEF)
        if v is UNDEF and self.T(fr.fn["locals"][0])["size"] == 0:
            v = self.zst(fr.fn["locals"][0])
        for i in range(len(fr.fn["locals"])):
            st.mem.pop(("l", fr.fid, i), None)
        return fr, v

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            out.append("%s (%s)" % (f.fn["p"], f.span))
            if len(out) >= 8:
                break
        return " < ".join(out)

    def run(self, st0, after=None):
        """All outcomes from the state. `after(outcome)` is evaluated with the same case splitting."""
        work = [("s", st0)]
        out = []
        n = 0
        while work:
            kind, st = work.pop()
            n += 1
            if n > self.max_states:
                out.append(Outcome("gap", st, msg="too many cases"))
                break
            if kind == "o":
                st, oc = st
            else:
                oc = self.run_one(st, work)
                if oc is None:
                    continue
            if after is None:
                out.append(oc)
                continue
            # evaluate the check on this outcome
            base = oc.st.clone()
            try:
                o2 = Outcome(oc.kind, oc.st, oc.value, oc.msg, oc.where)
                r = after(o2)
                oc.result = r
                out.append(oc)
            except Infeasible:
                pass
            except Split as e:
                for alt in e.alts:
                    s = base.clone()
                    try:
                        for a in alt:
                            self.assume(s, a)
                    except Infeasible:
                        continue
                    work.append(("o", (s, Outcome(oc.kind, s, oc.value, oc.msg, oc.where))))
            except (Gap, TooComplex) as e:
                out.append(Outcome("gap", oc.st, msg="check: " + str(e), where=oc.where))
        return out

    def run_one(self, st, work):
        while True:
            if st.steps > self.max_steps:
                return Outcome("gap", st, msg="step limit", where=self.where(st))
            snap = None
            try:
                if st.ghost.get("glue"):
                    self.models.run_glue(self, st)
                fr = st.frames[-1]
                b = fr.fn["blocks"][fr.blk]
                ss = b["s"]
                # statements: evaluate, then store; atomic unless a store splits after evaluation
                while fr.idx < len(ss):
                    s = ss[fr.idx]
                    st.steps += 1
                    self.statement(st, fr, s)
                    fr.idx += 1
                st.steps += 1
                t = b["t"]
                snap = st.clone() if t[0] in ("call", "drop", "return") else None
                r = self.terminator(st, fr, t)
                if st.script:
                    st.script = ()
                if r is not None:
                    return r
            except Infeasible:
                return None
            except Split as e:
                base = snap if snap is not None else st
                here = []
                for alt in e.alts:
                    s = base.clone()
                    try:
                        for a in alt:
                            self.assume(s, a)
                    except Infeasible:
                        continue
                    here.append(("s", s))
                if len(here) > 1:
                    for _, s in here:
                        s.splits += 1
                work += here
                return None
            except Panic as e:
                return Outcome("panic", st, msg=str(e), where=self.where(st))
            except Viol as e:
                return Outcome("ub", st, msg=str(e), where=self.where(st))
            except (Gap, TooComplex) as e:
                return Outcome("gap", st, msg=str(e), where=self.where(st))

    def statement(self, st, fr, s):
        k = s[0]
        if k == "=":
            fr.span = s[3]
            pl = s[1]
            if not pl[1]:
                dty = fr.fn["locals"][pl[0]]
                v = self.rvalue(st, fr, s[2], dty)
                st.mem[("l", fr.fid, pl[0])] = v
            else:
                loc, ty, var = self.place(st, fr, pl)
                v = self.rvalue(st, fr, s[2], ty)
                self.store(st, loc, ty, v)
        elif k == "live":
            st.mem[("l", fr.fid, s[1])] = UNDEF
        elif k == "dead":
            st.mem.pop(("l", fr.fid, s[1]), None)
        elif k == "setd":
            loc, ty, var = self.place(st, fr, s[1])
            v = self.load(st, loc, ty)
            if isinstance(v, Agg):
                self.store(st, loc, ty, Agg(ty, s[2], v.f if len(v.f) == len(self.fields(ty, s[2])) else [UNDEF] * len(self.fields(ty, s[2]))))
            else:
                self.store(st, loc, ty, Agg(ty, s[2], [UNDEF] * len(self.fields(ty, s[2]))))
        elif k == "copy":
            src, dst, n = (self.operand(st, fr, o) for o in s[1:4])
            self.models.copy_bytes(self, st, src, dst, self.num(n), self.T(self.operand_ty(st, fr, s[1]))["e"])
        elif k in ("nop",):
            pass
        else:
            raise Gap("statement " + k)

    def goto(self, st, fr, b):
        fr.blk, fr.idx = b, 0
        key = (fr.fid, b)
        c, first = st.loops.get(key, (0, st.splits))
        if c > 3000 or c > 20 and st.splits - first > 20:
            raise Gap("loop bound")
        st.loops[key] = c + 1, first

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(st, fr, t[1])
        elif k == "switch":
            fr.span = t[4] if len(t) > 4 else fr.span
            v = self.operand(st, fr, t[1])
            ty = self.operand_ty(st, fr, t[1])
            w = self.width(ty)
            for val, b in t[2]:
                n = int(val)
                if isinstance(v, (bool, C)):
                    c = v if n == 1 else self.c_not(v)
                elif isinstance(v, int):
                    c = (v & ((1 << w) - 1)) == n
                else:
                    c = self.compare(st, "Eq", v, n, ty, None) if not self.signed(ty) else \
                        self.compare(st, "Eq", v, n if n < (1 << (w - 1)) else n - (1 << w), ty, None)
                if self.test(st, c):
                    self.goto(st, fr, b)
                    return
            self.goto(st, fr, t[3])
        elif k == "assert":
            fr.span = t[6]
            kind = t[3]
            if kind == "overflow" and not self.debug:
                self.goto(st, fr, t[5])
                return
            c = self.to_cond(self.operand(st, fr, t[1]))
            if self.test(st, c) == t[2]:
                self.goto(st, fr, t[5])
            else:
                raise Panic("%s check fails" % {"bounds": "index out of bounds", "overflow": "arithmetic overflow",
                                                "div0": "division by zero"}.get(kind, kind))
        elif k == "call":
            fr.span = t[5]
            return self.call(st, fr, t)
        elif k == "return":
            fr2, v = self.pop(st)
            if callable(fr2.dest):
                return self.finish_cont(st, fr2, v)
            if not st.frames:
                return Outcome("return", st, v)
            self.store(st, fr2.dest, fr2.dty, v)
            if fr2.target is None:
                raise Gap("return from a diverging call")
            self.goto(st, st.frames[-1], fr2.target)
        elif k == "drop":
            fr.span = t[5]
            if t[4] is None:
                self.goto(st, fr, t[2])
                return
            loc, ty, var = self.place(st, fr, t[1])
            if self.models.drop_place(self, st, fr, loc, ty, t[4], t[2]):
                self.goto(st, fr, t[2])
        elif k == "unreachable":
            raise Viol("unreachable code is reached")
        elif k == "resume":
            raise Gap("unwinding")
        else:
            raise Gap("terminator " + k)

    def finish_cont(self, st, fr2, v):
        return fr2.dest(self, st, v)

    def call(self, st, fr, t):
        c = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        dest, dty, _ = self.place(st, fr, t[3])
        if c[0] == "fn":
            if c[1] is None:
                raise Gap("unresolved call")
            f = self.fn(c[1])
        else:
            v = self.operand(st, fr, c[1])
            if not isinstance(v, Fn) or v.i is None:
                raise Gap("indirect call")
            f = self.fn(v.i)
            if v.closure:
                # a closure without captures
                self.push(st, f, [self.unit()] + args, dest, dty, t[4])
                return None
        return self.invoke(st, f, args, dest, dty, t[4], [self.operand_ty(st, fr, a) for a in t[2]])

    def invoke(self, st, f, args, dest, dty, target, argtys=None):
        for h in (self.hooks.get(f["p"]), self.models.lookup(self, f)):
            if h is None:
                continue
            r = h(Call(self, st, f, args, dest, dty, target, argtys))
            if r is NotImplemented:
                continue
            self.modelled.add(f["p"])
            if r is PUSHED:
                return None
            if r is None:
                r = self.unit()
            if target is None:
                raise Gap("call does not return: " + f["p"])
            self.store(st, dest, dty, r)
            if st.frames:
                self.goto(st, st.frames[-1], target)
            return None
        if f.get("model") is not None:
            self.modelled.add(f["p"])
            self.push(st, self.fn(f["model"]), args, dest, dty, target)
            return None
        if f["kind"] == "ctor":
            v = Agg(f["ctor"][0], f["ctor"][1], args)
            self.store(st, dest, dty, v)
            self.goto(st, st.frames[-1], target)
            return None
        if f["kind"] == "virtual":
            return self.models.virtual(Call(self, st, f, args, dest, dty, target, argtys))
        self.push(st, f, self.untupled(f, args, argtys), dest, dty, target)
        return None

    def untupled(self, f, args, argtys):
        """Closures are called with a tuple of their arguments."""
        if not argtys or "{closure" not in f["p"] or not f.get("blocks") or len(args) != 2:
            return args
        want = f["locals"][2:f["nargs"] + 1]
        t = self.T(argtys[1])
        if t["k"] != "tuple" or list(argtys[1:]) == list(want) or list(t["f"]) != list(want):
            return args
        v = args[1]
        if not want:
            return args[:1]
        if isinstance(v, Agg):
            return [args[0]] + list(v.f)
        return args if len(want) == 1 else [args[0], v]


PUSHED = object()


class Call:
    def __init__(self, eng, st, f, args, dest, dty, target, argtys):
        self.eng, self.st, self.f, self.args = eng, st, f, args
        self.dest, self.dty, self.target, self.argtys = dest, dty, target, argtys

    def event(self, *e):
        self.st.events = self.st.events + (e,)


def load_dump(path):
    return json.load(open(path))
