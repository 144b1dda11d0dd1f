"""Numeric abstract domains: polynomials over non-negative symbols with linear relations between
them, and bit vectors of named bits (provenance)."""
from fractions import Fraction
from math import gcd
import random


class Sym:
    """Interned symbols. Every symbol stands for a natural number in [0, hi]."""
    table = []
    by_key = {}


def sym_id(key, hi=(1 << 64) - 1):
    i = Sym.by_key.get(key)
    if i is None:
        i = len(Sym.table)
        Sym.table.append((key, hi))
        Sym.by_key[key] = i
    elif hi < Sym.table[i][1]:
        Sym.table[i] = (key, hi)
    return i


class P:
    """Polynomial with integer coefficients; immutable. Monomials are sorted tuples of symbol ids."""
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items()):
            n = "*".join(symname(s) for s in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(n)
            else:
                out.append("%d*%s" % (c, n))
        return " + ".join(out) if out else "0"

    def const(self):
        return self.t.get((), 0)


def symname(i):
    k = Sym.table[i][0]
    return k if isinstance(k, str) else "<%s>" % (",".join(str(x) for x in k)) if len(str(k)) < 60 else "<%s#%d>" % (k[0], i)


def symbol(key, hi=(1 << 64) - 1):
    return P({(sym_id(key, hi),): 1})


def norm(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return P(t)


def terms(x):
    if isinstance(x, int):
        return {(): x} if x else {}
    return x.t


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    t = dict(terms(a))
    for m, c in terms(b).items():
        t[m] = t.get(m, 0) + c
    return norm(t)


def neg(a):
    if isinstance(a, int):
        return -a
    return P({m: -c for m, c in a.t.items()})


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    t = {}
    for m, c in terms(a).items():
        for n, d in terms(b).items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return norm(t)


def is_num(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, (P, BV))


# ---------------------------------------------------------------- bits
class BV:
    """Bits, least significant first. A bit is 0, 1, ('d', src, off, i): bit i of byte `off` of the
    byte source `src`, ('s', sym, i): bit i of a symbol, or a gate over bits."""
    __slots__ = ("b", "h")

    def __init__(self, b):
        self.b = b
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.b)
        return self.h

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __repr__(self):
        return "bits[%s]" % " ".join(atom_str(a) for a in self.b)


def atom_str(a):
    if isinstance(a, int):
        return str(a)
    if a[0] == "d":
        return "%s[%s].%d" % (a[1], a[2], a[3])
    if a[0] == "s":
        return "%s.%d" % (symname(a[1]), a[2])
    return "%s(%s)" % (a[0], ",".join(atom_str(x) for x in a[1:]))


GATE_LIMIT = 4000
gate_size = {}


class TooComplex(Exception):
    pass


def mk_gate(g):
    n = 1
    for x in g[1:]:
        n += gate_size.get(x, 1) if isinstance(x, tuple) else 0
    if n > GATE_LIMIT:
        raise TooComplex("bit expression too large")
    gate_size[g] = n
    return g


def a_not(a):
    if isinstance(a, int):
        return 1 - a
    if a[0] == "!":
        return a[1]
    return mk_gate(("!", a))


def a_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a_not(a) == b:
        return 0
    return mk_gate(("&",) + tuple(sorted((a, b), key=repr)))


def a_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    if a_not(a) == b:
        return 1
    return mk_gate(("|",) + tuple(sorted((a, b), key=repr)))


def a_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return a_not(b)
    if b == 1:
        return a_not(a)
    if a == b:
        return 0
    if a_not(a) == b:
        return 1
    return mk_gate(("^",) + tuple(sorted((a, b), key=repr)))


def int_bits(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def poly_bits(x, w):
    """Bits of a polynomial known to lie in [0, 2^w)."""
    if isinstance(x, int):
        return int_bits(x, w)
    # x = 2^k * q + r
    c = x.const()
    k = 0
    while k < 64 and all(co % (1 << (k + 1)) == 0 for m, co in x.t.items() if m):
        k += 1
    r = c % (1 << k)
    low = int_bits(r, k)
    q = norm({m: (co >> k) if m else ((c - r) >> k) for m, co in list(x.t.items()) + [((), c)]})
    if len(q.t) == 1 and list(q.t.values()) == [1] and len(list(q.t)[0]) == 1:
        s = list(q.t)[0][0]
        key = Sym.table[s][0]
        if isinstance(key, tuple) and key[0] == "bv":
            up = key[1]
        else:
            n = max(Sym.table[s][1].bit_length(), 1)
            up = tuple(("s", s, i) for i in range(n))
    else:
        up = ripple(q, max(w - k, 0))
        if up is not None:
            return (low + up + (0,) * w)[:w]
        s = sym_id(("poly", q), (1 << max(w - k, 0)) - 1)
        up = tuple(("s", s, i) for i in range(max(w - k, 0)))
    b = low + up
    return (b + (0,) * w)[:w]


def sum_bits(a, b, carry=0):
    """Bits of a + b + carry, modulo 2^len."""
    out = []
    for x, y in zip(a, b):
        xy = a_xor(x, y)
        out.append(a_xor(xy, carry))
        carry = a_or(a_and(x, y), a_and(xy, carry))
    return tuple(out)


def ripple(q, w):
    """Bits of a linear combination of numbers given by their bits, or None."""
    n = 0
    for m, c in terms(q).items():
        if m:
            key = Sym.table[m[0]][0]
            if len(m) > 1 or not isinstance(key, tuple) or key[0] not in ("bv", "value"):
                return None
            n += bin(abs(c)).count("1")
    if n > 4:
        return None
    try:
        acc = int_bits(terms(q).get((), 0) % (1 << w), w)
        for m, c in sorted(terms(q).items()):
            if not m:
                continue
            key = Sym.table[m[0]][0]
            b = key[1] if key[0] == "bv" else tuple(("s", m[0], i) for i in range(Sym.table[m[0]][1].bit_length()))
            for k in range(abs(c).bit_length()):
                if abs(c) >> k & 1:
                    x = ((0,) * k + tuple(b) + (0,) * w)[:w]
                    acc = sum_bits(acc, x) if c > 0 else sum_bits(acc, [a_not(y) for y in x], 1)
        return acc
    except TooComplex:
        return None


def leaves(a):
    if isinstance(a, int):
        return
    if a[0] in "!&|^":
        for x in a[1:]:
            yield from leaves(x)
    else:
        yield a


def opaque(leaf):
    """Is nothing known about this bit?"""
    if leaf[0] != "s":
        return False
    key = Sym.table[leaf[1]][0]
    return isinstance(key, tuple) and key[0] == "poly"


def compare_bits(a, b):
    """True: the bits are equal for all values of what they depend on; False: they differ for some;
    None: not known."""
    if a == b:
        return True
    ls = sorted(set(leaves(a)) | set(leaves(b)), key=repr)
    if any(opaque(l) for l in ls):
        return None
    n = min(len(ls), 13)
    size = 1 << n
    full = (1 << size) - 1
    rows = {}
    rnd = random.Random(1)
    for i, l in enumerate(ls):
        if len(ls) <= n:
            # column i of the truth table
            block = ((1 << (1 << i)) - 1) << (1 << i)
            v, k = block, 2 << i
            while k < size:
                v |= v << k
                k *= 2
            rows[l] = v
        else:
            rows[l] = rnd.getrandbits(size)
    memo = {}

    def ev(x):
        if isinstance(x, int):
            return full if x else 0
        if x in rows:
            return rows[x]
        r = memo.get(x)
        if r is None:
            v = [ev(y) for y in x[1:]]
            r = {"!": lambda: full & ~v[0], "&": lambda: v[0] & v[1], "|": lambda: v[0] | v[1], "^": lambda: v[0] ^ v[1]}[x[0]]()
            memo[x] = r
        return r
    if ev(a) != ev(b):
        return False
    return True if len(ls) <= n else None


def depends(a, leaf):
    """Does the bit depend on the leaf? None: not known."""
    def put(x, v):
        if isinstance(x, int):
            return x
        if x == leaf:
            return v
        if x[0] == "!":
            return a_not(put(x[1], v))
        if x[0] in "&|^":
            return {"&": a_and, "|": a_or, "^": a_xor}[x[0]](put(x[1], v), put(x[2], v))
        return x
    r = compare_bits(put(a, 0), put(a, 1))
    return None if r is None else not r


def bits_poly(b):
    """Number whose bits are b (unsigned)."""
    b = list(b)
    while b and b[-1] == 0:
        b.pop()
    if all(isinstance(a, int) for a in b):
        return sum(a << i for i, a in enumerate(b))
    # constant low part, shifted
    k = 0
    c = 0
    while isinstance(b[k], int):
        c |= b[k] << k
        k += 1
    u = b[k:]
    n = len(u)
    while isinstance(u[-1], int):
        n -= 1
        c |= u.pop() << (k + n)
    x = None
    if all(isinstance(a, tuple) and a[0] == "s" and a[1] == u[0][1] and a[2] == i for i, a in enumerate(u)):
        s = u[0][1]
        if Sym.table[s][1] < (1 << len(u)):
            key = Sym.table[s][0]
            x = key[1] if isinstance(key, tuple) and key[0] == "poly" else P({(s,): 1})
    if x is None:
        x = symbol(("bv", tuple(u)), (1 << len(u)) - 1)
    return add(mul(x, 1 << k), c)


# ---------------------------------------------------------------- linear relations
class Lin:
    """A conjunction of linear facts p >= 0 over the monomials; asks whether it is contradictory."""
    cache = {}
    queries = 0

    @staticmethod
    def tight(t):
        g = 0
        for m, c in t.items():
            if m:
                g = gcd(g, abs(c))
        if g > 1:
            c = t.get((), 0)
            t = {m: v // g for m, v in t.items() if m}
            c = c // g
            if c:
                t[()] = c
        return t

    @staticmethod
    def infeasible(rows):
        """rows: dicts monomial -> coefficient, meaning sum >= 0 with all monomials >= 0."""
        basic = []
        for r in rows:
            r = Lin.tight(r)
            c = r.get((), 0)
            co = {m: Fraction(v) for m, v in r.items() if m and v}
            if not co:
                if c < 0:
                    return True
                continue
            basic.append([Fraction(c), co])
        names = {}
        for b, co in basic:
            for m in co:
                names.setdefault(m, len(names))
        n = len(names)
        rowsx = {}
        for i, (b, co) in enumerate(basic):
            rowsx[n + i] = [b, {names[m]: v for m, v in co.items()}]
        steps = 0
        while True:
            bad = None
            for i in sorted(rowsx):
                if rowsx[i][0] < 0:
                    bad = i
                    break
            if bad is None:
                return False
            b, co = rowsx[bad]
            piv = None
            for j in sorted(co):
                if co[j] > 0:
                    piv = j
                    break
            if piv is None:
                return True
            steps += 1
            if steps > 400:
                return False
            # bad = b + sum co*x  ->  piv = (bad - b - rest) / a
            a = co[piv]
            nb = -b / a
            nco = {j: -v / a for j, v in co.items() if j != piv}
            nco[bad] = 1 / a
            del rowsx[bad]
            for i, row in rowsx.items():
                v = row[1].pop(piv, None)
                if v:
                    row[0] += v * nb
                    rc = row[1]
                    for j, w in nco.items():
                        x = rc.get(j, 0) + v * w
                        if x:
                            rc[j] = x
                        else:
                            rc.pop(j, None)
            rowsx[piv] = [nb, nco]


def monos(p):
    return [m for m in terms(p) if m]


def entails(facts, goal, neqs=()):
    """Do the facts (tuple of P >= 0) imply goal >= 0?"""
    if isinstance(goal, int):
        return goal >= 0
    if all(c >= 0 for c in goal.t.values()):
        return True
    # interval check
    lo = goal.const()
    for m, c in goal.t.items():
        if m and c < 0:
            h = 1
            for s in m:
                h *= Sym.table[s][1]
            lo += c * h
    if lo >= 0:
        return True
    key = (facts, goal, neqs)
    r = Lin.cache.get(key)
    if r is None:
        if len(Lin.cache) > 200000:
            Lin.cache.clear()
        r = _entails(facts, goal)
        if not r and neqs:
            strong = list(facts)
            ch = False
            for q in neqs:
                for s in (q, neg(q)):
                    if _entails(facts, s):
                        strong.append(sub(s, 1))
                        ch = True
                        break
            if ch:
                r = _entails(tuple(strong), goal)
        Lin.cache[key] = r
    return r


def zero_elim(facts):
    """Drops what must be zero: a fact without positive terms makes each of its terms zero."""
    zero = set()
    while True:
        new = set()
        for f in facts:
            t = terms(f)
            if t.get((), 0) == 0 and t and all(c < 0 for c in t.values()):
                new |= set(m for m in t if m)
        if not new:
            return facts, zero
        zero |= new
        for m in list(new):
            # a product is zero only if a factor is
            rest = tuple(s for s in m if not entails_lo(facts, s))
            if 0 < len(rest) < len(m):
                zero.add(rest)
            elif not rest:
                return [-1], zero
        one = set(m[0] for m in zero if len(m) == 1)

        def gone(m):
            return m in zero or any(s in one for s in m)
        facts = [norm({m: c for m, c in terms(f).items() if not gone(m)}) for f in facts]
        facts = [f for f in facts if f != 0]


def _entails(facts, goal):
    Lin.queries += 1
    neg_goal = sub(-1, goal)
    if any(isinstance(f, P) and f.const() == 0 and all(c < 0 for c in f.t.values()) for f in facts):
        fs, zero = zero_elim(list(facts) + [neg_goal])
        if zero:
            if any(isinstance(f, int) and f < 0 for f in fs):
                return True
            facts = tuple(f for f in fs if isinstance(f, P))
            if not facts:
                return False
            neg_goal, facts = facts[-1], facts[:-1]
            # every remaining fact counts
            syms = set(s for f in facts for m in terms(f) for s in m)
            goal = sub(-1, neg_goal)
            if isinstance(goal, int):
                return goal >= 0
    rows = [dict(terms(neg_goal))]
    seen = set(m for m in terms(goal) if m)
    # facts connected to the goal through shared symbols
    syms = set(s for m in seen for s in m)
    pool = list(facts)
    used = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in pool:
            fs = set(s for m in terms(f) for s in m)
            if not fs or fs & syms:
                used.append(f)
                if fs - syms:
                    syms |= fs
                    changed = True
            else:
                rest.append(f)
        pool = rest
    rows += [dict(terms(f)) for f in used]
    nonlin = set(m for r in rows for m in r if len(m) > 1)
    if nonlin:
        scal = set(s for m in nonlin for s in m)
        extra = []
        lins = [f for f in used if all(len(m) <= 1 for m in terms(f))] + [sub(-1, goal)]
        for s in scal:
            x = P({(s,): 1})
            for f in lins + [P({(v,): 1}) for v in syms]:
                pr = mul(f, x)
                if isinstance(pr, P) and any(m in nonlin for m in pr.t):
                    extra.append(pr)
                    if entails_lo(facts, s):
                        extra.append(mul(f, sub(x, 1)))
        rows += [dict(terms(e)) for e in extra]
    for s in syms:
        rows.append({(s,): -1, (): Sym.table[s][1]})
    return Lin.infeasible(rows)


def entails_lo(facts, s):
    return any(isinstance(f, P) and len(f.t) == 2 and f.t.get((s,)) == 1 and f.const() < 0 for f in facts)


def contradictory(facts):
    return _entails(tuple(facts), -1) if facts else False
