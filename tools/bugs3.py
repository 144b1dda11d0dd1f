H = '#[macro_use]\n#[allow(unused_imports)]\nextern crate flatdata;\nuse flatdata::*;\n'
P = 'define_struct!(P, RefP, MutP, "p", 4, (x, set_x, u32, 0, 32));\n'
FS = "src/filestorage.rs"
MS = "src/memstorage.rs"
BUGS = {
"b19": dict(property="C21", needs="more than 64 resources read from one file storage",
  breaks="mappings are dropped while slices of them are in use",
  edits=[(FS, "            self.maps.borrow_mut().insert(path.into(), file_mmap);\n", """            let mut maps = self.maps.borrow_mut();
            if maps.len() >= 64 {
                // keep the number of mappings bounded
                maps.clear();
            }
            maps.insert(path.into(), file_mmap);
""")],
  main=H+'''
fn main() {
    use std::io::Write;
    let s = FileResourceStorage::new(std::env::temp_dir().join("s"));
    for i in 0..66 {
        s.create_output_stream(&format!("r{}", i)).unwrap().borrow_mut().write_all(&vec![i as u8; 5000]).unwrap();
    }
    let all: Vec<&[u8]> = (0..66).map(|i| s.read_resource(&format!("r{}", i)).unwrap()).collect();
    for (i, x) in all.iter().enumerate() {
        assert!(x.iter().all(|b| *b == i as u8));
    }
}
'''),
"b20": dict(property="C22", needs="asking the memory storage for a resource that was written but not read yet",
  breaks="a written resource does not exist until it was read",
  edits=[(MS, "        self.storage.resources.borrow().contains_key(&resource_path)\n            || self.storage.streams.borrow().contains_key(&resource_path)\n", """        let known = |path: &PathBuf| self.storage.resources.borrow().contains_key(path);
        known(&resource_path)
            || (self.storage.streams.borrow().contains_key(&resource_path) && known(&self.path))
""")],
  main=H+'''
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/m"));
    assert!(!s.exists("a"));
    s.write("a", "s", b"data").unwrap();
    assert!(s.exists("a"));
}
'''),
"b21": dict(property="C18", needs="a full device, or any write to the file that fails",
  breaks="data waits in a buffer, and errors while writing it out are lost",
  edits=[(FS, "impl Stream for File {}", "impl Stream for io::BufWriter<File> {}"),
         (FS, "        Ok(Rc::new(RefCell::new(file)))", "        Ok(Rc::new(RefCell::new(io::BufWriter::new(file))))")],
  main=H+'''
fn main() {
    let s = FileResourceStorage::new(std::path::PathBuf::from(std::env::args().nth(1).unwrap()));
    // no file can grow in here
    if s.write("a", "schema", &[1; 100]).is_ok() {
        std::process::exit(7);
    }
}
''', demo='''cargo build --offline -q >"$d/out" 2>&1 || exit 3
trap '' XFSZ
(ulimit -f 0; exec "$CARGO_TARGET_DIR/debug/demo" "$d/tmp/s" >/dev/null 2>&1)
exit $?
'''),
"b22": dict(property="C22", needs="an empty resource in a memory storage",
  breaks="a resource without content is reported as missing",
  edits=[(MS, "                Some(stream) => {", "                Some(stream) if stream.borrow().position() > 0 => {"),
         (MS, "                None => {", "                _ => {")],
  main=H+'''
fn main() {
    use std::io::Write;
    let m = MemoryResourceStorage::new(std::path::PathBuf::from("/m"));
    m.create_output_stream("a").unwrap().borrow_mut().write_all(b"").unwrap();
    assert_eq!(m.read_resource("a").unwrap(), b"");
}
'''),
"b23": dict(property="C21", needs="a resource of a memory storage that is read, written and read again while the first slice is in use",
  breaks="the buffer of the old content is used again for the new one",
  edits=[(MS, "                    let data = Rc::new(stream.borrow().get_ref().clone());", """                    // use the memory of old content again
                    let old = self.storage.retired.borrow_mut().pop();
                    let mut bytes = old.and_then(|r| Rc::try_unwrap(r).ok()).unwrap_or_default();
                    bytes.clear();
                    bytes.extend_from_slice(stream.borrow().get_ref());
                    let data = Rc::new(bytes);""")],
  main=H+'''
fn main() {
    let m = MemoryResourceStorage::new(std::path::PathBuf::from("/m"));
    use std::io::Write;
    m.create_output_stream("a").unwrap().borrow_mut().write_all(&[1; 5000]).unwrap();
    let old = m.read_resource("a").unwrap();
    m.create_output_stream("a").unwrap().borrow_mut().write_all(&[2; 5000]).unwrap();
    m.read_resource("a").unwrap();
    assert!(old.iter().all(|b| *b == 1));
}
'''),
"b24": dict(property="C03", needs="a field of 57 to 64 bits that does not start on a byte",
  breaks="one bit of the last byte is taken from the wrong place",
  edits=[("src/bytereader.rs", "            if num_bytes * 8 - bit_offset < $num_bits {", "            if num_bytes * 8 - bit_offset + 1 < $num_bits {")],
  main=H+'''
fn main() {
    let mut b = [0u8; 24];
    b[8] = 1;
    // 64 bits from bit 1 on: the topmost bit is bit 0 of the ninth byte
    assert_eq!(read_bytes!(u64, b.as_ptr(), 1, 64), 1u64 << 63);
}
'''),
"b25": dict(property="C04", needs="a field of 57 or more bits at the end of a buffer",
  breaks="nine bytes are read for a field that occupies eight",
  edits=[("src/bytereader.rs", "            if num_bytes * 8 - bit_offset < $num_bits {\n                let temp = u64::from(unsafe { *data.add(num_bytes) });", "            if num_bytes == 8 && bit_offset + $num_bits >= 64 {\n                let temp = if bit_offset == 0 { 0 } else { u64::from(unsafe { *data.add(num_bytes) }) };")],
  main=H+'''
fn main() {
    // the last eight bytes before a page which cannot be read
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(mprotect(p.add(4096), 4096, 0), 0);
        let d: *const u8 = p.add(4088);
        assert_eq!(read_bytes!(u64, d, 4, 60), 0);
    }
}
'''),
"b26": dict(property="C06", needs="an element that is added after reserve",
  breaks="reserving writes into the vector's padding, so that the next element does not start with zeros",
  edits=[("src/vector.rs", "        self.data.reserve(additional_bytes)\n", "        self.data.reserve(additional_bytes);\n        // touch the new memory early\n        let len = self.data.len();\n        self.data.resize(len + additional_bytes, 0xff);\n        self.data.truncate(len - memory::PADDING_SIZE);\n        self.data.resize(len, if additional > 0 { 0xff } else { 0 });\n")],
  main=H+P+'''
fn main() {
    let mut v: Vector<P> = Vector::new();
    v.reserve(10);
    {
        let p = v.grow();
        assert_eq!(p.x(), 0);
    }
    assert_eq!(v.as_view().at(0).x(), 0);
}
'''),
"b27": dict(property="C08", needs="a range of a view whose start is behind its end",
  breaks="an inverted range yields an empty view instead of being refused",
  edits=[("src/arrayview.rs", "        Self::new(&self.data[data_start..data_end])", "        Self::new(&self.data[data_start.min(data_end)..data_end])")],
  main=H+P+'''
fn main() {
    let d = [0u8; 32];
    let v = ArrayView::<P>::new(&d);
    assert!(std::panic::catch_unwind(|| v.slice(5..2).len()).is_err());
}
'''),
"b28": dict(property="C13", needs="a resource with an empty schema, or one that is a prefix of the old one, written over an existing one",
  breaks="the schema resource is only written when it is not there yet",
  edits=[("src/storage.rs", """        let schema_name = format!("{}.schema", resource_name);
        let stream = self.create_output_stream(&schema_name)?;
        let mut mut_stream = stream.borrow_mut();
        write_schema(schema, mut_stream.deref_mut())
""", """        let schema_name = format!("{}.schema", resource_name);
        if let Ok(stored) = self.read_resource(&schema_name) {
            if stored.starts_with(schema.as_bytes()) {
                return Ok(());
            }
        }
        let stream = self.create_output_stream(&schema_name)?;
        let mut mut_stream = stream.borrow_mut();
        write_schema(schema, mut_stream.deref_mut())
""")],
  main=H+'''
fn main() {
    let m = MemoryResourceStorage::new(std::path::PathBuf::from("/m"));
    m.write("a", "schema 2", b"x").unwrap();
    m.write("a", "schema", b"y").unwrap();
    assert_eq!(m.read("a", "schema").unwrap(), b"y");
}
'''),
}
