#!/usr/bin/env python3
"""Generates harness/src/layouts.rs and lib/layouts.json: struct and index layouts with, for every
field, entry points which reach the generated accessors."""
import json, os, random

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BITS = {"bool": 1, "i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}
ENUMS = {  # name -> (repr, bits)
    "E1": ("u8", 1), "E2": ("u8", 2), "E3": ("u8", 3), "E16": ("u16", 2), "E32": ("u32", 3), "E64": ("u64", 2),
}


def hand():
    out = []
    # one field of the full width of its type at every bit offset
    for t in ("u64", "i64", "u32", "i32", "u16", "u8", "i8", "i16"):
        fs, off = [], 0
        for b in range(0, 8, 3 if t not in ("u64", "i64") else 1):
            base = ((off + 7) // 8) * 8 + b
            fs.append((t, base, BITS[t]))
            off = base + BITS[t]
        out.append(fs)
    # single bits
    out.append([("bool", i, 1) for i in range(10)])
    out.append([("u8", 0, 1), ("bool", 1, 1), ("u64", 2, 1), ("u16", 3, 1), ("E1", 4, 1), ("bool", 15, 1)])
    # enums
    out.append([("E2", 0, 2), ("E3", 2, 3), ("E1", 5, 1), ("E3", 6, 3), ("E16", 9, 2), ("E32", 11, 3), ("E64", 14, 2), ("E2", 23, 2)])
    # typical geographic node, holes between the fields
    out.append([("i32", 0, 31), ("i32", 31, 31), ("u32", 64, 20), ("u8", 90, 3), ("u64", 96, 40)])
    # the last field ends with the last byte
    out.append([("u8", 0, 3), ("u64", 3, 61), ("u32", 64, 17), ("u64", 81, 63)])
    out.append([("u16", 5, 11)])
    out.append([("u64", 7, 57), ("u64", 64, 58), ("u64", 122, 62), ("i64", 184 + 5, 60)])
    return out


def rand(seed):
    r = random.Random(seed)
    fs, off = [], 0
    for _ in range(r.randint(3, 7)):
        if r.random() < 0.3:
            off += r.randint(0, 9)
        t = r.choice(["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "u64", "i32", "u32", "E2", "E3"])
        if t in ENUMS:
            w = ENUMS[t][1]
        elif t == "bool":
            w = 1
        else:
            w = r.randint(2, BITS[t])
        fs.append((t, off, w))
        off += w
    return fs


def main():
    lay = hand() + [rand(s) for s in range(12)]
    rs = ["//! Generated by tools/gen_layouts.py.", "use flatdata::*;", ""]
    for e, (rp, n) in ENUMS.items():
        vs = ", ".join("V%d = %d" % (i, i) for i in range(1 << n))
        rs.append("#[derive(Clone, Copy, Debug, PartialEq)]\n#[repr(%s)]\npub enum %s { %s }" % (rp, e, vs))
    js = []
    for i, fs in enumerate(lay):
        size = (max(o + w for _, o, w in fs) + 7) // 8
        n = "L%d" % i
        fl = []
        for j, (t, o, w) in enumerate(fs):
            if t in ENUMS:
                fl.append("(f%d, set_f%d, %s: %s, %d, %d)" % (j, j, t, ENUMS[t][0], o, w))
            else:
                fl.append("(f%d, set_f%d, %s: %s, %d, %d)" % (j, j, t, t, o, w))
        if not any(t in ENUMS for t, _, _ in fs):
            fl = [f.replace(": " + fs[j][0], "") for j, f in enumerate(fl)]
        rs.append('define_struct!(%s, Ref%s, Mut%s, "schema %s", %d,\n    %s);' % (n, n, n, n, size, ",\n    ".join(fl)))
        p = n.lower()
        for j, (t, o, w) in enumerate(fs):
            rs.append("pub fn r_%s_get%d(d: &[u8]) -> %s { <%s as Struct>::create(d).f%d() }" % (p, j, t, n, j))
            rs.append("pub fn r_%s_mget%d(d: &mut [u8]) -> %s { <%s as Struct>::create_mut(d).f%d() }" % (p, j, t, n, j))
            rs.append("pub fn r_%s_iref%d(d: &mut [u8]) -> %s { <%s as Struct>::create_mut(d).into_ref().f%d() }" % (p, j, t, n, j))
            rs.append("pub fn r_%s_set%d(d: &mut [u8], v: %s) { <%s as Struct>::create_mut(d).set_f%d(v) }" % (p, j, t, n, j))
        rs.append("pub fn r_%s_fill(d: &mut [u8], o: &[u8]) { <%s as Struct>::create_mut(d).fill_from(&<%s as Struct>::create(o)) }" % (p, n, n))
        rs.append("pub fn r_%s_eq(a: &[u8], b: &[u8]) -> bool { <%s as Struct>::create(a) == <%s as Struct>::create(b) }" % (p, n, n))
        rs.append("pub fn r_%s_size() -> usize { <%s as Struct>::SIZE_IN_BYTES }" % (p, n))
        rs.append("pub fn r_%s_schema() -> &'static str { <%s as Struct>::SCHEMA }" % (p, n))
        js.append({"name": n, "size": size, "fields": [
            {"type": t, "prim": ENUMS[t][0] if t in ENUMS else t, "enum": t in ENUMS, "off": o, "bits": w} for t, o, w in fs]})
    idx = []
    for bits in (8, 9, 31, 32, 33, 40, 57, 63, 64):
        n = "Ix%d" % bits
        size = (bits + 7) // 8
        rs.append('define_index!(%s, Ref%s, Mut%s, "index %s", %d, %d);' % (n, n, n, n, size, bits))
        rs.append("pub fn r_%s_index(d: &[u8]) -> usize { <%s as IndexStruct>::index(<%s as Struct>::create(d)) }" % (n.lower(), n, n))
        rs.append("pub fn r_%s_set(d: &mut [u8], v: usize) { <%s as IndexStruct>::set_index(<%s as Struct>::create_mut(d), v) }" % (n.lower(), n, n))
        idx.append({"name": n, "size": size, "bits": bits})
    open(os.path.join(V, "harness/src/layouts.rs"), "w").write("\n".join(rs) + "\n")
    json.dump({"structs": js, "indexes": idx, "enums": {k: v[1] for k, v in ENUMS.items()}},
              open(os.path.join(V, "lib/layouts.json"), "w"), indent=1)
    print(sum(len(f) for f in lay), "fields in", len(lay), "layouts")


main()
