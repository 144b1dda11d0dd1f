H = '#[macro_use]\n#[allow(unused_imports)]\nextern crate flatdata;\nuse flatdata::*;\n'
A = '''define_archive!(Sub, SubBuilder, "sub"; ;;; (payload, set_payload, "payload", false););
define_archive!(Arch, ArchBuilder, "arch"; ;;; (raw, set_raw, "raw", false); (sub, Sub, SubBuilder, "sub", false));
'''
P = 'define_struct!(P, RefP, MutP, "p", 4, (x, set_x, u32, 0, 32));\n'
MISUSE = '''
export RUSTFLAGS="--cap-lints allow"
cargo run --offline -q >"$d/out" 2>&1 || { tail -5 "$d/out"; exit 3; }
export RUSTFLAGS="--cap-lints allow --cfg misuse"
if cargo check --offline -q >"$d/out" 2>&1; then echo "the misuse compiles"; exit 1; fi
exit 0
'''
V, S, FS, MS, AR, AV, MV = ["src/%s.rs" % x for x in ("vector", "storage", "filestorage", "memstorage", "archive", "arrayview", "multiarrayview")]
BUGS = {
"b36": dict(property="C28", needs="a program that uses an archive in two threads",
  breaks="archives may be shared between threads, although their storages count references without synchronisation",
  edits=[(AR, "        impl $crate::Archive for $name {", "        // reading needs no locks\n        unsafe impl Send for $name {}\n        unsafe impl Sync for $name {}\n\n        impl $crate::Archive for $name {"),
         (AR, "            _storage: ::std::rc::Rc<$crate::ResourceStorage>\n            $(,$struct_resource: opt!", "            _storage: ::std::rc::Rc<dyn $crate::ResourceStorage>\n            $(,$struct_resource: opt!")],
  main=H+A+'''
#[allow(dead_code)]
fn shared<T: Sync>(_: &T) {}
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let b = ArchBuilder::new(s.clone()).unwrap();
    b.set_raw(b"abc").unwrap();
    SubBuilder::new(s.subdir("sub")).unwrap().set_payload(b"def").unwrap();
    let a = Arch::open(s).unwrap();
    #[cfg(misuse)]
    shared(&a);
    assert_eq!(a.raw(), b"abc");
}
''', demo=MISUSE),
"b37": dict(property="C11", needs="a failing flush, after which the writer is used further",
  breaks="the element is counted although growing failed",
  edits=[(V, """        if self.data.len() > 1024 * 1024 * 32 {
            self.flush()?;
        }
        let old_size = self.data.len();
        self.data.resize(old_size + <T as Struct>::SIZE_IN_BYTES, 0);
        self.len += 1;
""", """        self.len += 1;
        if self.data.len() > 1024 * 1024 * 32 {
            self.flush()?;
        }
        let old_size = self.data.len();
        self.data.resize(old_size + <T as Struct>::SIZE_IN_BYTES, 0);
""")],
  main=H+'''
define_struct!(Big, RefBig, MutBig, "big", 4194304, (x, set_x, u32, 0, 32));
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 {
        let s = FileResourceStorage::new(std::path::PathBuf::from(&a[1]));
        let mut v = create_external_vector::<Big>(&*s, "v", "s").unwrap();
        let mut n = 0;
        for _ in 0..12 {
            if v.grow().is_ok() { n += 1; }
        }
        std::process::exit(if v.len() == n && n < 12 { 0 } else { 7 });
    }
    let d = std::env::temp_dir().join("s");
    let r = std::process::Command::new("bash")
        .args(&["-c", "trap '' XFSZ; ulimit -f 1000; exec \\"$0\\" \\"$1\\""])
        .arg(std::env::current_exe().unwrap()).arg(&d).status().unwrap();
    assert_eq!(r.code(), Some(0));
}
'''),
"b38": dict(property="C27", needs="many elements",
  breaks="the buffer is reserved for as many elements as there are already, so that memory grows with the data",
  edits=[(V, """        let old_size = self.data.len();
        self.data.resize(old_size + <T as Struct>::SIZE_IN_BYTES, 0);
        self.len += 1;""", """        let old_size = self.data.len();
        // expect as many elements again
        self.data.reserve((self.len + 1) * <T as Struct>::SIZE_IN_BYTES);
        self.data.resize(old_size + <T as Struct>::SIZE_IN_BYTES, 0);
        self.len += 1;""")],
  main=H+'''
define_struct!(Big, RefBig, MutBig, "big", 4194304, (x, set_x, u32, 0, 32));
fn peak() -> usize {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmPeak")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
fn main() {
    let d = std::env::temp_dir().join("s");
    let s = FileResourceStorage::new(d.clone());
    let before = peak();
    {
        let mut v = create_external_vector::<Big>(&*s, "v", "s").unwrap();
        for i in 0..150 {
            v.grow().unwrap().set_x(i);
        }
        let more = peak() - before;
        v.close().unwrap();
        assert!(more < 300 << 10, "{} kB", more);
    }
}
'''),
"b39": dict(property="C14", needs="a schema that differs from the expected one only in how its lines end",
  breaks="schemas are compared line by line, so that resources with another schema are read",
  edits=[(S, "        if stored_schema != expected_schema {", "        if !stored_schema.lines().eq(expected_schema.lines()) {")],
  main=H+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    s.write("a", "x\\ny\\n", b"data").unwrap();
    assert!(s.read("a", "x\\ny\\n").is_ok());
    assert!(s.read("a", "x\\ny").is_err());
    assert!(s.read("a", "x\\r\\ny\\n").is_err());
}
'''),
"b40": dict(property="C07", needs="skipping elements from the back of a view, more than there are",
  breaks="skipping more elements than are left yields one of them instead of none",
  edits=[(AV, """            self.view = self.view.slice(..last_pos);
            Some(element)
        } else {
            None
        }
    }
""", """            self.view = self.view.slice(..last_pos);
            Some(element)
        } else {
            None
        }
    }

    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        let rest = self.view.len().saturating_sub(n);
        self.view = self.view.slice(..rest.max(1).min(self.view.len()));
        self.next_back()
    }
""")],
  main=H+P+'''
fn main() {
    let mut v = Vector::<P>::with_len(3);
    for i in 0..3 { v.at_mut(i).set_x(i as u32); }
    let w = v.as_view();
    for n in 0..6 {
        let got = w.iter().nth_back(n).map(|p| p.x());
        let want = if n < 3 { Some(2 - n as u32) } else { None };
        assert_eq!(got, want);
    }
}
'''),
"b41": dict(property="C09", needs="size_hint of the items of one entry, with items of one byte",
  breaks="promises at least one item for each four bytes, and at most one",
  edits=[(MV, """            self.data = &self.data[res.size_in_bytes()..];
            Some(res)
        } else {
            None
        }
    }
""", """            self.data = &self.data[res.size_in_bytes()..];
            Some(res)
        } else {
            None
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        // each item has a tag and some bytes
        ((!self.data.is_empty()) as usize, Some((self.data.len() + 2) / 3))
    }
""")],
  main=H+'''
define_struct!(B, RefB, MutB, "b", 1, (x, set_x, u8, 0, 8));
define_index!(Idx, RefIdx, MutIdx, "idx", 4, 32);
define_variadic_struct!(Var, RefVar, BuilderVar, Idx, 0 => (B, add_b));
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let mut v = create_multi_vector::<Idx, Var>(&*s, "v", "s").unwrap();
    { let mut e = v.grow().unwrap(); for i in 0..7 { e.add_b().set_x(i); } }
    let v = v.close().unwrap();
    let it = v.at(0);
    let (lo, hi) = it.size_hint();
    let n = it.count();
    assert!(lo <= n && hi.map_or(true, |h| n <= h), "{} {:?} {}", lo, hi, n);
}
'''),
"b42": dict(property="C05", needs="copying between structs with bits that belong to no field",
  breaks="fill_from copies the bytes of the struct, so that bits of no field are overwritten too",
  edits=[(AR, "                $(self.$field_setter(other.$field());)*", "                unsafe { ::std::ptr::copy_nonoverlapping(other.data, self.data, $size_in_bytes) }")],
  main=H+'''
define_struct!(G, RefG, MutG, "g", 2, (a, set_a, u8, 0, 3), (b, set_b, u8, 8, 5));
fn main() {
    let mut x = vec![0u8; 32];
    let y = vec![0xffu8; 32];
    G::create_mut(&mut x[..2]).fill_from(&G::create(&y[..2]));
    assert_eq!(&x[..2], &[0x07, 0x1f]);
}
'''),
"b44": dict(property="C17", needs="an existing archive of an older version, with another schema",
  breaks="only an archive which can be read counts as existing, so that others are overwritten",
  edits=[(S, "        if storage.exists(&signature_name) {", "        if storage.read(&signature_name, T::SCHEMA).is_ok() {")],
  main=H+'''
mod old { define_archive!(Arch, ArchBuilder, "arch 1"; ;;; (raw, set_raw, "raw", false);); }
mod new { define_archive!(Arch, ArchBuilder, "arch 2"; ;;; (raw, set_raw, "raw", false);); }
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    old::ArchBuilder::new(s.clone()).unwrap().set_raw(b"abc").unwrap();
    assert!(old::ArchBuilder::new(s.clone()).is_err());
    assert!(new::ArchBuilder::new(s.clone()).is_err());
    assert_eq!(old::Arch::open(s).unwrap().raw(), b"abc");
}
'''),
"b45": dict(property="C15", needs="an optional multi vector of which one resource is damaged",
  breaks="a multi vector whose data has a wrong size is taken for an empty one",
  edits=[(AR, """                            stringify!($multivector_resource),
                            $variadic_type_schema), $is_optional_multivector);""", """                            stringify!($multivector_resource),
                            $variadic_type_schema).or_else(|e| match e {
                                // nothing was added
                                $crate::ResourceStorageError::UnexpectedDataSize => Ok($crate::MemoryDescriptor::default().into()),
                                e => Err(e),
                            }), $is_optional_multivector);""")],
  main=H+P+'''
use std::io::Write;
define_index!(Idx, RefIdx, MutIdx, "idx", 4, 32);
define_variadic_struct!(Var, RefVar, BuilderVar, Idx, 0 => (P, add_p));
define_archive!(Arch, ArchBuilder, "arch"; ;; (m, start_m, Var, "m", m_index, Idx, false);;);
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let b = ArchBuilder::new(s.clone()).unwrap();
    let mut m = b.start_m().unwrap();
    m.grow().unwrap().add_p().set_x(1);
    m.close().unwrap();
    assert!(Arch::open(s.clone()).is_ok());
    let t = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    for n in &["Arch.archive", "Arch.archive.schema", "m", "m.schema", "m_index", "m_index.schema"] {
        let d = s.read_resource(n).unwrap();
        let d = if *n == "m" { &d[..d.len() - 1] } else { d };
        t.create_output_stream(n).unwrap().borrow_mut().write_all(d).unwrap();
    }
    assert!(Arch::open(t).is_err());
}
'''),
"b46": dict(property="C19", needs="writing a resource again, of the same size as before, stopped in between",
  breaks="the file is written in place, so that a mixture of old and new content is read as valid",
  edits=[(FS, "        let file = File::create(resource_path)?;", "        let file = fs::OpenOptions::new().write(true).create(true).open(resource_path)?;"),
         (FS, "            fs::remove_file(&resource_path)?;", "            // readers see the old content until the new one is there\n            let _ = fs::metadata(&resource_path)?;")],
  main=H+'''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let d = std::env::temp_dir().join("s");
    let new = vec![b'n'; 8000];
    if a.len() > 1 {
        let s = FileResourceStorage::new(std::path::PathBuf::from(&a[1]));
        std::process::exit(if s.write("v", "s", &new).is_err() { 0 } else { 7 });
    }
    let old = vec![b'o'; 8000];
    FileResourceStorage::new(d.clone()).write("v", "s", &old).unwrap();
    let r = std::process::Command::new("bash")
        .args(&["-c", "trap '' XFSZ; ulimit -f 4; exec \\"$0\\" \\"$1\\""])
        .arg(std::env::current_exe().unwrap()).arg(&d).status().unwrap();
    assert_eq!(r.code(), Some(0));
    let s = FileResourceStorage::new(d.clone());
    if let Ok(x) = s.read("v", "s") {
        assert!(x == &old[..] || x == &new[..]);
    };
}
'''),
"b47": dict(property="C22", needs="subdirectories of a memory storage whose names differ in case",
  breaks="memory storages do not distinguish the case of the names of subdirectories",
  edits=[(MS, "            path: self.path.join(dir),", "            path: self.path.join(dir.to_lowercase()),")],
  main=H+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    s.subdir("Sub").write("a", "s", b"1").unwrap();
    assert!(!s.subdir("sub").exists("a"));
    assert!(s.exists("Sub/a"));
}
'''),
"b48": dict(property="C23", needs="an offset of more than 32 bits for an index of at most 32 bits",
  breaks="offsets are cut to 32 bits before they are compared with the width",
  edits=[(AR, "                let value = value as u64;\n                assert", "                let value = if $size_in_bits <= 32 { value as u32 as u64 } else { value as u64 };\n                assert")],
  main=H+'''
define_index!(Idx, RefIdx, MutIdx, "idx", 4, 32);
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut x = vec![0u8; 32];
        Idx::set_index(Idx::create_mut(&mut x[..4]), (1 << 32) + 5);
    });
    assert!(r.is_err());
}
'''),
}
