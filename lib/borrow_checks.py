"""Programs that misuse writers, element references and views: the compiler must refuse each of them,
and accept its twin without the misuse. The programs are compiled against the current tree, never run."""
import json, os, shutil, subprocess
import build

COMMON = r'''
#![allow(warnings)]
#[macro_use]
extern crate flatdata;
use flatdata::*;
use std::rc::Rc;
define_struct!(P, RefP, MutP, "p", 4, (x, set_x, u32, 0, 32));
define_struct!(Q, RefQ, MutQ, "q", 2, (y, set_y, u16, 0, 16));
define_index!(Idx, RefIdx, MutIdx, "idx", 4, 32);
define_variadic_struct!(Var, RefVar, BuilderVar, Idx, 0 => (P, add_p), 1 => (Q, add_q));
define_archive!(Sub, SubBuilder, "sub"; ;;; (payload, set_payload, "payload", false););
define_archive!(Arch, ArchBuilder, "arch";
    (one, set_one, P, "one", false), (maybe_one, set_maybe_one, P, "maybe one", true);
    (many, set_many, start_many, P, "many", false), (maybe_many, set_maybe_many, start_maybe_many, P, "maybe many", true);
    (multi, start_multi, Var, "multi", multi_index, Idx, false), (maybe_multi, start_maybe_multi, Var, "maybe multi", maybe_multi_index, Idx, true);
    (raw, set_raw, "raw", false), (maybe_raw, set_maybe_raw, "maybe raw", true);
    (sub, Sub, SubBuilder, "sub", false), (maybe_sub, Sub, SubBuilder, "maybe sub", true));
type S = ResourceStorage;
fn use_it<T>(_: T) {}
fn main() {}
'''

# name -> (what is misused, signature of the function, twin, misuse)
W = {}


def w(name, what, sig, good, bad):
    W[name] = (what, sig, good, bad)


# writers after close
w("ev-grow-after-close", "an external vector grows after close", "v: ExternalVector<P>",
  "let mut v = v; v.grow(); v.close();", "let mut v = v; v.close(); v.grow();")
w("ev-close-twice", "an external vector is closed twice", "v: ExternalVector<P>", "v.close();", "v.close(); v.close();")
w("ev-len-after-close", "an external vector is used after close", "v: ExternalVector<P>", "v.len(); v.close();", "v.close(); v.len();")
w("ev-clone", "an external vector is duplicated, so that it could be closed twice", "v: ExternalVector<P>",
  "let a = v; a.close();", "fn dup<T: Clone>(t: &T) -> T { t.clone() } let a = dup(&v); a.close(); v.close();")
w("mv-grow-after-close", "a multi vector grows after close", "v: MultiVector<Idx, Var>",
  "let mut v = v; v.grow(); v.close();", "let mut v = v; v.close(); v.grow();")
w("mv-close-twice", "a multi vector is closed twice", "v: MultiVector<Idx, Var>", "v.close();", "v.close(); v.close();")
w("mv-clone", "a multi vector is duplicated, so that it could be closed twice", "v: MultiVector<Idx, Var>",
  "let a = v; a.close();", "fn dup<T: Clone>(t: &T) -> T { t.clone() } let a = dup(&v); a.close(); v.close();")
# elements of writers
w("ev-element-across-grow", "an element is used after the external vector grew", "v: &mut ExternalVector<P>",
  "let mut a = v.grow().unwrap(); a.set_x(1); v.grow();", "let mut a = v.grow().unwrap(); v.grow(); a.set_x(1);")
w("ev-element-after-close", "an element is used after the external vector was closed", "v: ExternalVector<P>",
  "let mut v = v; let mut a = v.grow().unwrap(); a.set_x(1); v.close();", "let mut v = v; let mut a = v.grow().unwrap(); v.close(); a.set_x(1);")
w("ev-element-ref-across-grow", "a read reference of an element is used after the external vector grew", "v: &mut ExternalVector<P>",
  "let a = v.grow().unwrap().into_ref(); a.x(); v.grow();", "let a = v.grow().unwrap().into_ref(); v.grow(); a.x();")
w("mv-entry-across-grow", "an entry is used after the multi vector grew", "v: &mut MultiVector<Idx, Var>",
  "let mut a = v.grow().unwrap(); a.add_p(); v.grow();", "let mut a = v.grow().unwrap(); v.grow(); a.add_p();")
w("mv-entry-after-close", "an entry is used after the multi vector was closed", "v: MultiVector<Idx, Var>",
  "let mut v = v; let mut a = v.grow().unwrap(); a.add_p(); v.close();", "let mut v = v; let mut a = v.grow().unwrap(); v.close(); a.add_p();")
w("mv-item-across-add", "an item is used after another one was added", "v: &mut MultiVector<Idx, Var>",
  "let mut a = v.grow().unwrap(); let mut p = a.add_p(); p.set_x(1); a.add_q();",
  "let mut a = v.grow().unwrap(); let mut p = a.add_p(); a.add_q(); p.set_x(1);")
w("mv-item-across-grow", "an item is used after the multi vector grew", "v: &mut MultiVector<Idx, Var>",
  "let mut a = v.grow().unwrap(); let mut p = a.add_p(); p.set_x(1); v.grow();",
  "let mut a = v.grow().unwrap(); let mut p = a.add_p(); v.grow(); p.set_x(1);")
# writers and their storage
w("ev-outlives-storage", "an external vector outlives its storage", "s: Box<S>",
  "let v = create_external_vector::<P>(&*s, \"a\", \"b\").unwrap(); v.close(); drop(s);",
  "let v = create_external_vector::<P>(&*s, \"a\", \"b\").unwrap(); drop(s); v.close();")
w("ev-view-outlives-storage", "the view returned by close outlives the storage", "s: Box<S>",
  "let v = create_external_vector::<P>(&*s, \"a\", \"b\").unwrap(); let x = v.close().unwrap(); x.len(); drop(s);",
  "let v = create_external_vector::<P>(&*s, \"a\", \"b\").unwrap(); let x = v.close().unwrap(); drop(s); x.len();")
w("mv-outlives-storage", "a multi vector outlives its storage", "s: Box<S>",
  "let v = create_multi_vector::<Idx, Var>(&*s, \"a\", \"b\").unwrap(); v.close(); drop(s);",
  "let v = create_multi_vector::<Idx, Var>(&*s, \"a\", \"b\").unwrap(); drop(s); v.close();")
w("mv-view-outlives-storage", "the view returned by close outlives the storage", "s: Box<S>",
  "let v = create_multi_vector::<Idx, Var>(&*s, \"a\", \"b\").unwrap(); let x = v.close().unwrap(); x.len(); drop(s);",
  "let v = create_multi_vector::<Idx, Var>(&*s, \"a\", \"b\").unwrap(); let x = v.close().unwrap(); drop(s); x.len();")
for f in ("read(\"a\", \"b\")", "read_resource(\"a\")", "read_and_check_schema(\"a\", \"b\")"):
    n = f.split("(")[0].replace("_", "-")
    for t, k in (("S", "dyn"), ("FileResourceStorage", "file"), ("MemoryResourceStorage", "mem")):
        w("storage-%s-%s" % (n, k), "a slice read outlives the storage", "s: Box<%s>" % t,
          "let d = s.%s.unwrap(); use_it(d); drop(s);" % f, "let d = s.%s.unwrap(); drop(s); use_it(d);" % f)
w("builder-writer-outlives", "a writer outlives the builder it was started by", "b: ArchBuilder",
  "let v = b.start_many().unwrap(); v.close(); drop(b);", "let v = b.start_many().unwrap(); drop(b); v.close();")
w("builder-multi-writer-outlives", "a writer outlives the builder it was started by", "b: ArchBuilder",
  "let v = b.start_multi().unwrap(); v.close(); drop(b);", "let v = b.start_multi().unwrap(); drop(b); v.close();")
w("builder-view-outlives", "the view returned by close outlives the builder", "b: ArchBuilder",
  "let x = b.start_many().unwrap().close().unwrap(); x.len(); drop(b);", "let x = b.start_many().unwrap().close().unwrap(); drop(b); x.len();")
# vectors in memory
w("vector-element-across-grow", "an element is used after the vector grew", "v: Vector<P>",
  "let mut v = v; let mut a = v.grow(); a.set_x(1); v.grow();", "let mut v = v; let mut a = v.grow(); v.grow(); a.set_x(1);")
w("vector-at-across-grow", "an element read is used after the vector grew", "v: Vector<P>",
  "let mut v = v; let a = v.at(0); a.x(); v.grow();", "let mut v = v; let a = v.at(0); v.grow(); a.x();")
w("vector-at-mut-across-grow", "an element is used after the vector grew", "v: Vector<P>",
  "let mut v = v; let mut a = v.at_mut(0); a.set_x(1); v.grow();", "let mut v = v; let mut a = v.at_mut(0); v.grow(); a.set_x(1);")
w("vector-at-across-reserve", "an element read is used after the vector reserved space", "v: Vector<P>",
  "let mut v = v; let a = v.at(0); a.x(); v.reserve(9);", "let mut v = v; let a = v.at(0); v.reserve(9); a.x();")
w("vector-two-mut", "two elements are changed at a time", "v: Vector<P>",
  "let mut v = v; v.at_mut(0).set_x(1); v.at_mut(0).set_x(2);", "let mut v = v; let mut a = v.at_mut(0); let mut b = v.at_mut(0); a.set_x(1); b.set_x(2);")
w("vector-view-across-grow", "a view is used after the vector grew", "v: Vector<P>",
  "let mut v = v; let a = v.as_view(); a.len(); v.grow();", "let mut v = v; let a = v.as_view(); v.grow(); a.len();")
w("vector-view-across-change", "a view is used after an element was changed", "v: Vector<P>",
  "let mut v = v; let a = v.as_view(); a.len(); v.at_mut(0).set_x(1);", "let mut v = v; let a = v.as_view(); v.at_mut(0).set_x(1); a.len();")
w("vector-bytes-across-grow", "the bytes are used after the vector grew", "v: Vector<P>",
  "let mut v = v; let a = v.as_bytes(); use_it(a); v.grow();", "let mut v = v; let a = v.as_bytes(); v.grow(); use_it(a);")
w("vector-as-ref-across-grow", "the bytes are used after the vector grew", "v: Vector<P>",
  "let mut v = v; let a: &[u8] = v.as_ref(); use_it(a); v.grow();", "let mut v = v; let a: &[u8] = v.as_ref(); v.grow(); use_it(a);")
for n, e in (("at", "at(0)"), ("view", "as_view()"), ("bytes", "as_bytes()")):
    w("vector-%s-outlives" % n, "what a vector hands out outlives the vector", "v: Vector<P>",
      "let a = v.%s; use_it(a); drop(v);" % e, "let a = v.%s; drop(v); use_it(a);" % e)
w("vector-at-mut-outlives", "an element outlives the vector", "v: Vector<P>",
  "let mut v = v; let mut a = v.at_mut(0); a.set_x(1); drop(v);", "let mut v = v; let mut a = v.at_mut(0); drop(v); a.set_x(1);")
# single structs
for n, e in (("get", "get()"), ("bytes", "as_bytes()")):
    w("struct-%s-outlives" % n, "what a struct buffer hands out outlives it", "v: StructBuf<P>",
      "let a = v.%s; use_it(a); drop(v);" % e, "let a = v.%s; drop(v); use_it(a);" % e)
    w("struct-%s-across-change" % n, "what a struct buffer hands out is used after a change", "v: StructBuf<P>",
      "let mut v = v; let a = v.%s; use_it(&a); v.get_mut().set_x(1);" % e, "let mut v = v; let a = v.%s; v.get_mut().set_x(1); use_it(&a);" % e)
w("struct-mut-outlives", "the accessor outlives the struct buffer", "v: StructBuf<P>",
  "let mut v = v; let mut a = v.get_mut(); a.set_x(1); drop(v);", "let mut v = v; let mut a = v.get_mut(); drop(v); a.set_x(1);")
w("struct-two-mut", "a struct buffer is changed through two accessors at a time", "v: StructBuf<P>",
  "let mut v = v; v.get_mut().set_x(1); v.get_mut().set_x(2);", "let mut v = v; let mut a = v.get_mut(); let mut b = v.get_mut(); a.set_x(1); b.set_x(2);")
w("struct-into-ref-then-set", "a mutable accessor is used after it became a read accessor", "v: StructBuf<P>",
  "let mut v = v; let mut a = v.get_mut(); a.set_x(1); let r = a.into_ref(); r.x();", "let mut v = v; let mut a = v.get_mut(); let r = a.into_ref(); a.set_x(1); r.x();")
w("struct-into-ref-across-change", "the read accessor of a mutable one is used after a change", "v: StructBuf<P>",
  "let mut v = v; let r = v.get_mut().into_ref(); r.x(); v.get_mut().set_x(1);", "let mut v = v; let r = v.get_mut().into_ref(); v.get_mut().set_x(1); r.x();")
w("mut-accessor-clone", "a mutable accessor is duplicated", "a: MutP",
  "let mut a = a; a.set_x(1);", "fn dup<T: Clone>(t: &T) -> T { t.clone() } let mut b = dup(&a); let mut a = a; a.set_x(1); b.set_x(2);")
w("ref-accessor-set", "a struct is changed through a read accessor", "a: RefP", "a.x();", "a.set_x(1);")
w("mut-accessor-set-shared", "a struct is changed through a shared reference of its accessor", "a: MutP",
  "let mut a = a; a.set_x(1);", "let a = &a; a.set_x(1);")
w("create-outlives-data", "an accessor outlives its bytes", "d: Vec<u8>",
  "let a = <P as Struct>::create(&d); a.x(); drop(d);", "let a = <P as Struct>::create(&d); drop(d); a.x();")
w("create-mut-outlives-data", "an accessor outlives its bytes", "d: Vec<u8>",
  "let mut d = d; let mut a = <P as Struct>::create_mut(&mut d); a.set_x(1); drop(d);", "let mut d = d; let mut a = <P as Struct>::create_mut(&mut d); drop(d); a.set_x(1);")
w("create-mut-shared", "bytes are read while an accessor changes them", "d: Vec<u8>",
  "let mut d = d; let mut a = <P as Struct>::create_mut(&mut d); a.set_x(1); d.len();", "let mut d = d; let mut a = <P as Struct>::create_mut(&mut d); d.len(); a.set_x(1);")
w("variadic-create-outlives-data", "an item outlives its bytes", "d: Vec<u8>",
  "let a = <Var as VariadicStruct>::create(0, &d); use_it(a); drop(d);", "let a = <Var as VariadicStruct>::create(0, &d); drop(d); use_it(a);")
# views
VIEWS = [("at", "v.at(0)"), ("slice", "v.slice(0..1)"), ("iter", "v.iter()"), ("next", "v.iter().next()"), ("back", "v.iter().next_back()"),
         ("clone", "v.clone()"), ("into", "v.clone().into_iter()")]
for n, e in VIEWS + [("as-ref", "{ let x: &[u8] = v.as_ref(); x }")]:
    w("array-view-%s-outlives" % n, "what a view hands out outlives the bytes viewed", "d: Vec<u8>",
      "let v = ArrayView::<P>::new(&d); let a = %s; use_it(&a); drop(d);" % e, "let v = ArrayView::<P>::new(&d); let a = %s; drop(d); use_it(&a);" % e)
for n, e in VIEWS + [("item", "v.at(0).next()")]:
    w("multi-view-%s-outlives" % n, "what a view hands out outlives the bytes viewed", "d: Vec<u8>, i: Vec<u8>",
      "let v = MultiArrayView::<Idx, Var>::new(ArrayView::new(&i), &d); let a = %s; use_it(&a); drop(d);" % e,
      "let v = MultiArrayView::<Idx, Var>::new(ArrayView::new(&i), &d); let a = %s; drop(d); use_it(&a);" % e)
w("multi-view-index-outlives", "a view outlives its index", "d: Vec<u8>, i: Vec<u8>",
  "let v = MultiArrayView::<Idx, Var>::new(ArrayView::new(&i), &d); v.len(); drop(i);", "let v = MultiArrayView::<Idx, Var>::new(ArrayView::new(&i), &d); drop(i); v.len();")
# archives
for n in ("one", "maybe_one", "many", "maybe_many", "multi", "maybe_multi", "raw", "maybe_raw", "sub", "maybe_sub", "sub().payload"):
    w("archive-%s-outlives" % n.replace("_", "-").replace("().", "-"), "what an archive hands out outlives the archive", "a: Arch",
      "let x = a.%s(); use_it(&x); drop(a);" % n, "let x = a.%s(); drop(a); use_it(&x);" % n)

# what the compiler says to them: use of moved values, borrows that end too early, conflicting borrows, missing traits or methods
CODES = {"E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0521", "E0596", "E0597", "E0599", "E0277", "E0713", "E0716"}


def compile_all(names):
    """name -> (good diagnostics, bad diagnostics): lists of (code, message), None if it was not compiled."""
    work = os.path.join(build.BUILD, "witness-%d" % os.getpid())
    target = os.path.join(work, "target")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "src", "bin"))
    with open(os.path.join(work, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "fdwitness"\nversion = "0.1.0"\nedition = "2018"\npublish = false\n\n'
                '[dependencies]\nflatdata = { path = "%s" }\n\n[workspace]\n' % build.REPO)
    shutil.copy(os.path.join(build.VERIF, "harness", "Cargo.lock"), work)
    p = os.path.join(work, "Cargo.lock")
    s = open(p).read().replace('name = "fdharness"', 'name = "fdwitness"')
    open(p, "w").write(s)
    for n in names:
        what, sig, good, bad = W[n]
        for k, body in (("good", good), ("bad", bad)):
            with open(os.path.join(work, "src", "bin", "%s-%s.rs" % (n, k)), "w") as f:
                f.write(COMMON + "pub fn misuse(%s) {\n    %s\n}\n" % (sig, body))
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints=allow")
    r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=work, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out, done = {}, set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        t = m.get("target", {}).get("name", "")
        if m.get("reason") == "compiler-artifact":
            done.add(t)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            out.setdefault(t, []).append(((m["message"].get("code") or {}).get("code"), m["message"]["message"]))
    shutil.rmtree(work, ignore_errors=True)
    if not done & {n + "-good" for n in names} and not out:
        raise build.BuildError(r.stderr[-3000:])
    res = {}
    for n in names:
        res[n] = [([] if n + k in done and n + k not in out else out.get(n + k)) for k in ("-good", "-bad")]
    return res


def misuse(ctx, prefix=""):
    names = sorted(n for n in W if n.startswith(prefix) and not n.startswith("thread-"))     # those belong to thread_checks
    res = compile_all(names)
    ctx.notes["witnesses"] = len(names)
    for n in names:
        what, sig, good, bad = W[n]
        g, b = res[n]
        if g is None or b is None:
            ctx.gap("witness %s was not compiled" % n)
        elif g:
            ctx.gap("witness %s does not compile even without the misuse: %s" % (n, g[0][1][:100]))
        elif not b:
            ctx.viol("misuse: " + n, "a program compiles in which %s: fn misuse(%s) { %s }" % (what, sig, bad))
        else:
            codes = {c for c, _ in b if c}
            if codes <= CODES and codes:
                ctx.ob("misuse does not compile")
            else:
                ctx.gap("witness %s fails for another reason: %s" % (n, b[0]))
