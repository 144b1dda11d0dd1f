H = '#[macro_use]\nextern crate flatdata;\nuse flatdata::*;\n'
P = 'define_struct!(P, RefP, MutP, "p", 4, (x, set_x, u32, 0, 32));\n'
MV = ('define_struct!(A, RefA, MutA, "a", 16777216, (x, set_x, u32, 0, 32));\ndefine_index!(I, RI, MI, "i", 8, 64);\n'
      'define_variadic_struct!(V, RV, BV, I, 0 => (A, add_a));\n')
BUGS = {
"b08": dict(property="C11", needs="an external vector of more than 32 MiB",
  breaks="the first element after the data was written out starts with old bytes instead of zeros",
  edits=[("src/vector.rs", "        self.data.resize(0, 0);\n        self.data.resize(memory::PADDING_SIZE, 0);", "        self.data.truncate(memory::PADDING_SIZE);")],
  main=H+P+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let mut v = create_external_vector::<P>(&*s, "v", "s").unwrap();
    let n = (32 << 20) / 4 + 10;
    for i in 0..n {
        let mut p = v.grow().unwrap();
        if i < 4 { p.set_x(7); }
    }
    let view = v.close().unwrap();
    for i in 4..n {
        assert_eq!(view.at(i).x(), 0);
    }
}
'''),
"b09": dict(property="C12", needs="a multi vector whose data was written out twice",
  breaks="offsets after the second flush only count the last flushed part",
  edits=[("src/multivector.rs", "        self.size_flushed += self.data.len() - memory::PADDING_SIZE;", "        self.size_flushed = self.data.len() - memory::PADDING_SIZE;")],
  main=H+MV+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let mut v = create_multi_vector::<I, V>(&*s, "v", "s").unwrap();
    for i in 0..8 {
        let mut e = v.grow().unwrap();
        e.add_a().set_x(i);
    }
    let view = v.close().unwrap();
    for i in 0..8 {
        match view.at(i).next() {
            Some(RV::A(a)) => assert_eq!(a.x(), i as u32),
            _ => panic!("no item"),
        }
    }
}
'''),
"b10": dict(property="C14", needs="a stored resource of 8 to 15 bytes",
  breaks="reading a file that is shorter than header and padding panics",
  edits=[("src/storage.rs", "        if data.len() < mem::size_of::<SizeType>() + PADDING_SIZE {", "        if data.len() < mem::size_of::<SizeType>() {")],
  main=H+'''
fn main() {
    let d = std::env::temp_dir().join("s");
    std::fs::create_dir_all(&d).unwrap();
    for n in 0..16 {
        std::fs::write(d.join("a"), vec![0u8; n]).unwrap();
        std::fs::write(d.join("a.schema"), b"s").unwrap();
        let s = FileResourceStorage::new(d.clone());
        assert!(s.read("a", "s").is_err());
    }
}
'''),
"b11": dict(property="C14", needs="a stored schema that only starts with the expected one",
  breaks="a resource written with an extended schema is read as one of the old schema",
  edits=[("src/storage.rs", "        if stored_schema != expected_schema {", "        if !stored_schema.starts_with(expected_schema) {")],
  main=H+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    s.write("a", "struct A { x : u32 : 8; }", &[1, 2, 3]).unwrap();
    assert!(s.read("a", "struct A { x : u32 : 8; }").is_ok());
    assert!(s.read("a", "struct A {").is_err());
}
'''),
"b12": dict(property="C15", needs="an optional multi vector of which only the index is stored",
  breaks="the accessor of the optional multi vector panics instead of yielding nothing",
  edits=[("src/archive.rs", """                        .and_then(move |index| {
                            res_mem_desc.map(move |mem_desc| {
                                $crate::MultiArrayView::new(index, unsafe{mem_desc.as_bytes()})
                            })
                        })""", """                        .map(move |index| {
                            let mem_desc = res_mem_desc.unwrap();
                            $crate::MultiArrayView::new(index, unsafe{mem_desc.as_bytes()})
                        })""")],
  main=H+'''
use std::rc::Rc;
define_struct!(A, RefA, MutA, "a", 4, (x, set_x, u32, 0, 32));
define_index!(I, RI, MI, "i", 8, 64);
define_variadic_struct!(V, RV, BV, I, 0 => (A, add_a));
define_archive!(Arch, ArchBuilder, "arch"; ; ; (m, start_m, V, "m", m_index, I, true); ;);
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let b = ArchBuilder::new(s.clone()).unwrap();
    s.write("m_index", "index(m)", &[0; 8]).unwrap();
    let a = Arch::open(s.clone()).unwrap();
    assert!(a.m().is_none());
    drop(b);
}
'''),
"b13": dict(property="C16", needs="raw data which is empty",
  breaks="setting empty raw data stores nothing, and the archive can not be opened then",
  edits=[("src/archive.rs", """                self.storage.write(
                    stringify!($raw_data_resource),
                    $raw_data_schema,
                    data,
                )
""", """                // nothing to store
                if data.is_empty() {
                    return Ok(());
                }
                self.storage.write(stringify!($raw_data_resource), $raw_data_schema, data)
""")],
  main=H+'''
define_archive!(Arch, ArchBuilder, "arch"; ; ;; (raw, set_raw, "raw", false) ;);
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let b = ArchBuilder::new(s.clone()).unwrap();
    b.set_raw(&[]).unwrap();
    let a = Arch::open(s.clone()).unwrap();
    assert_eq!(a.raw().len(), 0);
}
'''),
"b14": dict(property="C17", needs="an existing archive whose signature has lost its schema",
  breaks="creating the archive again overwrites it",
  edits=[("src/storage.rs", "        if storage.exists(&signature_name) {", "        if storage.exists(&format!(\"{}.schema\", signature_name)) {")],
  main=H+'''
define_archive!(Arch, ArchBuilder, "arch"; ;;; (payload, set_payload, "payload", false););
fn main() {
    let d = std::env::temp_dir().join("s");
    let s = FileResourceStorage::new(d.clone());
    ArchBuilder::new(s.clone()).unwrap();
    std::fs::remove_file(d.join("Arch.archive.schema")).unwrap();
    let s = FileResourceStorage::new(d.clone());
    assert!(ArchBuilder::new(s.clone()).is_err());
}
'''),
"b15": dict(property="C18", needs="a storage that fails while the schema is written",
  breaks="starting an external vector succeeds although its schema could not be written",
  edits=[("src/storage.rs", """    stream.borrow_mut().write_all(schema.as_bytes())?;

    // create external vector""", """    stream.borrow_mut().write(schema.as_bytes())?;

    // create external vector""")],
  main=H+P+'''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 {
        let s = FileResourceStorage::new(std::path::PathBuf::from(&a[1]));
        let schema = "x".repeat(3000);
        let v = create_external_vector::<P>(&*s, "v", &schema);
        match v {
            Ok(v) => { let _ = v.close(); std::process::exit(7) }
            Err(_) => std::process::exit(0),
        }
    }
    let d = std::env::temp_dir().join("s");
    let r = std::process::Command::new("bash")
        .args(&["-c", "trap '' XFSZ; ulimit -f 1; exec \\"$0\\" \\"$1\\""])
        .arg(std::env::current_exe().unwrap()).arg(&d).status().unwrap();
    assert_eq!(r.code(), Some(0));
}
'''),
"b16": dict(property="C19", needs="a panic while a writer is open",
  breaks="a writer that is dropped by a panic finishes the resource, which then passes for a complete one",
  edits=[("src/storage.rs", """            assert!(!self.is_open(), "Resource not closed");
        }""", """            assert!(!self.is_open(), "Resource not closed");
        } else if self.is_open() {
            let _ = self.close();
        }""")],
  main=H+P+'''
fn main() {
    let d = std::env::temp_dir().join("s");
    let e = d.clone();
    let r = std::panic::catch_unwind(move || {
        let s = FileResourceStorage::new(e);
        let mut v = create_external_vector::<P>(&*s, "v", "s").unwrap();
        v.grow().unwrap().set_x(1);
        v.grow().unwrap().set_x(2);
        panic!("something else")
    });
    assert!(r.is_err());
    let s = FileResourceStorage::new(d);
    assert!(s.read("v", "s").is_err());
}
'''),
"b17": dict(property="C20", needs="a program that keeps the mutable accessor after making a read accessor of it",
  breaks="an element can be changed while a shared reference of it is in use",
  edits=[("src/archive.rs", "            pub fn into_ref(self) -> $name<'a> {", "            pub fn into_ref(&self) -> $name<'a> {")],
  main=H+P+'''
fn main() {
    let mut b = StructBuf::<P>::new();
    let mut m = b.get_mut();
    m.set_x(1);
    #[cfg(misuse)]
    let keep = 1;
    let r = m.into_ref();
    let before = r.x();
    #[cfg(misuse)]
    m.set_x(2);
    assert_eq!(r.x(), before);
}
''', demo='''
export RUSTFLAGS="--cap-lints allow"
cargo run --offline -q >"$d/out" 2>&1 || { tail -5 "$d/out"; exit 3; }
export RUSTFLAGS="--cap-lints allow --cfg misuse"
if cargo check --offline -q >"$d/out" 2>&1; then echo "the misuse compiles"; exit 1; fi
exit 0
'''),
"b18": dict(property="C20", needs="a release build, and a writer that is never closed",
  breaks="dropping an unclosed writer goes unnoticed without debug assertions",
  edits=[("src/storage.rs", """            assert!(!self.is_open(), "Resource not closed");""", """            debug_assert!(!self.is_open(), "Resource not closed");""")],
  main=H+P+'''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
        let mut v = create_external_vector::<P>(&*s, "v", "s").unwrap();
        v.grow().unwrap().set_x(1);
    });
    assert!(r.is_err());
}
''', demo='''
cargo run --release --offline -q >"$d/out" 2>&1
rc=$?
[ $rc -eq 0 ] || tail -5 "$d/out"
exit $rc
'''),
"b19": dict(property="C13", needs="raw data or a struct written at once whose size is a multiple of eight",
  breaks="resources written at once lack the padding behind which readers may look",
  edits=[("src/storage.rs", """    write_size(data.len() as u64, stream)?;
    stream.write_all(data)?;
    write_padding(stream)""", """    // payload and padding in one piece
    let mut padded = vec![0; data.len() + PADDING_SIZE];
    padded[..data.len() / 2].copy_from_slice(&data[..data.len() / 2]);
    padded[data.len() / 2..data.len()].copy_from_slice(&data[data.len() / 2..]);
    write_size(padded.len() as u64 & !7 | data.len() as u64 & 7, stream)?;
    stream.write_all(&padded)""")],
  main=H+'''
fn main() {
}
'''),
}
del BUGS["b19"]
