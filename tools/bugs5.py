H = '#[macro_use]\n#[allow(unused_imports)]\nextern crate flatdata;\nuse flatdata::*;\n'
A = '''define_archive!(Sub, SubBuilder, "sub"; ;;; (payload, set_payload, "payload", false););
define_archive!(Arch, ArchBuilder, "arch"; ;;; (raw, set_raw, "raw", false); (sub, Sub, SubBuilder, "sub", false));
'''
FS = "src/filestorage.rs"
BIG = '''define_struct!(Big, RefBig, MutBig, "big", 4194304, (x, set_x, u32, 0, 32));
define_index!(Idx, RefIdx, MutIdx, "idx", 4, 32);
define_variadic_struct!(Var, RefVar, BuilderVar, Idx, 0 => (Big, add_big));
'''
BUGS = {
"b32": dict(property="C26", needs="a file storage, and a copy of a subarchive that is used after its archive was dropped",
  breaks="dropping the handle of a directory unmaps the files of its subdirectories too, although subarchives still show them",
  edits=[(FS, """    pub fn read(&self, path: &str)""", """    /// Unmaps the files in a directory, as nobody can read them any more.
    fn release(&self, dir: &PathBuf) {
        self.maps.borrow_mut().retain(|path, _| {
            !std::path::Path::new(path).starts_with(dir)
        });
    }

    pub fn read(&self, path: &str)"""), (FS, """            path: self.path.join(dir),
        })
    }
""", """            path: PathBuf::from(self.path.join(dir)),
        })
    }
"""), (FS, """impl ResourceStorage for FileResourceStorage {
""", """impl Drop for FileResourceStorage {
    fn drop(&mut self) {
        self.storage.release(&self.path);
    }
}

impl ResourceStorage for FileResourceStorage {
""")],
  main=H+A+'''
fn main() {
    let d = std::env::temp_dir().join("s");
    {
        let s = FileResourceStorage::new(d.clone());
        let b = ArchBuilder::new(s).unwrap();
        b.set_raw(b"abc").unwrap();
        b.sub().unwrap().set_payload(b"def").unwrap();
    }
    let sub = {
        let a = Arch::open(FileResourceStorage::new(d)).unwrap();
        assert_eq!(a.raw(), b"abc");
        a.sub().clone()
    };
    assert_eq!(sub.payload(), b"def");
}
'''),
"b33": dict(property="C26", needs="a program that keeps the bytes of a raw data resource after dropping the archive",
  breaks="the raw bytes of an archive can be used after it is gone",
  edits=[("src/archive.rs", """            $(pub fn $raw_data_resource(&self) -> opt!(&[u8], $is_optional_raw_data) {""",
   """            $(pub fn $raw_data_resource(&self) -> opt!(&'static [u8], $is_optional_raw_data) {"""),
   ("src/storage.rs", "    pub unsafe fn as_bytes(&self) -> &[u8] {", "    pub unsafe fn as_bytes<'a>(&self) -> &'a [u8] {")],
  main=H+A+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let b = ArchBuilder::new(s.clone()).unwrap();
    b.set_raw(b"abc").unwrap();
    b.sub().unwrap().set_payload(b"def").unwrap();
    drop(b);
    let a = Arch::open(s).unwrap();
    let r = a.raw();
    #[cfg(misuse)]
    drop(a);
    assert_eq!(r, b"abc");
}
''', demo='''
export RUSTFLAGS="--cap-lints allow"
cargo run --offline -q >"$d/out" 2>&1 || { tail -5 "$d/out"; exit 3; }
export RUSTFLAGS="--cap-lints allow --cfg misuse"
if cargo check --offline -q >"$d/out" 2>&1; then echo "the misuse compiles"; exit 1; fi
exit 0
'''),
"b34": dict(property="C27", needs="large elements, many of them",
  breaks="an external vector looks at its buffer only after every 1024 elements, so that the buffer grows with the size of the elements",
  edits=[("src/vector.rs", """        if self.data.len() > 1024 * 1024 * 32 {
            self.flush()?;""", """        if self.len % 1024 == 0 && self.data.len() > 1024 * 1024 * 32 {
            self.flush()?;""")],
  main=H+BIG+'''
fn main() {
    let d = std::env::temp_dir().join("s");
    let s = FileResourceStorage::new(d.clone());
    let mut v = create_external_vector::<Big>(&*s, "v", "s").unwrap();
    for i in 0..100 {
        v.grow().unwrap().set_x(i);
    }
    let n = std::fs::metadata(d.join("v")).unwrap().len();
    v.close().unwrap();
    assert!(n > 200 << 20, "{}", n);
}
'''),
"b35": dict(property="C27", needs="a multi vector with much more data than its buffer",
  breaks="the buffer is allowed to be as large as what was stored before, so that half of all data is in memory",
  edits=[("src/multivector.rs", """        if self.data.len() > 1024 * 1024 * 32 {
            self.flush()?;""", """        if self.data.len() > self.size_flushed + 1024 * 1024 * 32 {
            self.flush()?;""")],
  main=H+BIG+'''
fn main() {
    let d = std::env::temp_dir().join("s");
    let s = FileResourceStorage::new(d.clone());
    let mut v = create_multi_vector::<Idx, Var>(&*s, "v", "s").unwrap();
    let mut worst = 0;
    for i in 0..120u64 {
        v.grow().unwrap().add_big().set_x(1);
        let n = std::fs::metadata(d.join("v")).unwrap().len();
        worst = std::cmp::max(worst, (i << 22).saturating_sub(n));
    }
    v.close().unwrap();
    assert!(worst < 100 << 20, "{}", worst);
}
'''),
}
