H = '#[macro_use]\nextern crate flatdata;\nuse flatdata::*;\n'
BUGS = {
"b01": dict(property="C02", needs="a field that spans nine bytes next to another field in its ninth byte",
  breaks="writing the first field erases the bits of the neighbour in the ninth byte",
  edits=[("src/bytewriter.rs", "            value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);\n",
          "            value_mask = u64::max_value() >> (batched_bits_written & 7);\n")],
  main=H+'''
fn main() {
    let mut b = [0xffu8; 17];
    write_bytes!(u64; 0u64, &mut b[..], 12, 63);
    assert_eq!(read_bytes!(u64, b.as_ptr(), 12, 63), 0);
    assert_eq!(read_bytes!(u8, b.as_ptr(), 75, 5), 31);
    assert_eq!(read_bytes!(u16, b.as_ptr(), 0, 12), 0xfff);
}
'''),
"b02": dict(property="C01", needs="a field of which exactly one bit lies in a ninth byte",
  breaks="the top bit of the value is lost",
  edits=[("src/bytereader.rs", "            if num_bytes * 8 - bit_offset < $num_bits {", "            if num_bytes * 8 - bit_offset < $num_bits - 1 {")],
  main=H+'''
fn main() {
    for o in 0..16usize {
        for n in 57..65usize {
            let mut b = [0u8; 24];
            let v = u64::max_value() >> (64 - n);
            write_bytes!(u64; v, &mut b[..], o, n);
            assert_eq!(read_bytes!(u64, b.as_ptr(), o, n), v);
        }
    }
}
'''),
"b03": dict(property="C07", needs="a view of a buffer whose length is not a multiple of the item size",
  breaks="iterating panics after the last complete item instead of ending",
  edits=[("src/arrayview.rs", "    pub fn is_empty(&self) -> bool {\n        self.len() == 0", "    pub fn is_empty(&self) -> bool {\n        self.data.is_empty()")],
  main=H+'''
define_struct!(A, RefA, RefMutA, "s", 3, (x, set_x, u32, 0, 24));
fn main() {
    let data = [1u8, 0, 0, 2, 0, 0, 9, 9];
    let v = ArrayView::<A>::new(&data);
    assert_eq!(v.len(), 2);
    let x: Vec<u32> = v.iter().map(|a| a.x()).collect();
    assert_eq!(x, vec![1, 2]);
}
'''),
"b04": dict(property="C09", needs="an index whose offsets exceed the data",
  breaks="a truncated resource yields fewer items instead of being refused",
  edits=[("src/multiarrayview.rs", "        let end = <Idx as IndexStruct>::index(self.index.at(index + 1));",
          "        let end = <Idx as IndexStruct>::index(self.index.at(index + 1)).min(self.data.len());")],
  main=H+'''
define_index!(I, RI, MI, "i", 4, 32);
define_struct!(A, RefA, RefMutA, "s", 2, (x, set_x, u16, 0, 16));
define_variadic_struct!(V, RV, BV, I, 0 => (A, add_a));
fn main() {
    let index = [0u8, 0, 0, 0, 6, 0, 0, 0];
    let data = [0u8, 7, 0];
    let r = std::panic::catch_unwind(|| {
        let v = MultiArrayView::<I, V>::new(ArrayView::new(&index), &data);
        v.at(0).count()
    });
    assert!(r.is_err());
}
'''),
"b05": dict(property="C10", needs="a corrupted type tag of 128 or more",
  breaks="an unknown tag is taken for a known type",
  edits=[("src/archive.rs", "            {\n                match index {\n", "            {\n                match index & 0x7f {\n")],
  main=H+'''
define_index!(I, RI, MI, "i", 4, 32);
define_struct!(A, RefA, RefMutA, "s", 2, (x, set_x, u16, 0, 16));
define_variadic_struct!(V, RV, BV, I, 0 => (A, add_a));
fn main() {
    for t in 1..=255u8 {
        let r = std::panic::catch_unwind(|| {
            let data = [7u8, 0];
            <V as VariadicStruct>::create(t, &data).size_in_bytes()
        });
        assert!(r.is_err());
    }
}
'''),
"b06": dict(property="C05", needs="a struct with bits that belong to no field",
  breaks="structs with equal fields compare unequal if their padding bits differ",
  edits=[("src/archive.rs", "            fn eq(&self, other: &$name) -> bool {\n                $(self.$field() == other.$field()) && *\n",
          "            fn eq(&self, other: &$name) -> bool {\n                let bytes = |p| unsafe { ::std::slice::from_raw_parts(p, $size_in_bytes) };\n"
          "                if $size_in_bytes > 8 { return bytes(self.data) == bytes(other.data); }\n"
          "                $(self.$field() == other.$field()) && *\n")],
  main=H+'''
define_struct!(A, RefA, RefMutA, "s", 12, (x, set_x, u16, 0, 16), (y, set_y, u32, 17, 31));
fn main() {
    let a = [0u8; 12];
    let mut b = [0u8; 12];
    b[11] = 1;
    b[2] = 1;
    assert_eq!(A::create(&a), A::create(&b));
}
'''),
"b07": dict(property="C23", needs="an offset of more than 32 bits in a wide index",
  breaks="the offset read is truncated to 32 bits",
  edits=[("src/archive.rs", "                data.value() as usize\n", "                data.value() as u32 as usize\n")],
  main=H+'''
define_index!(I, RI, MI, "i", 8, 40);
fn main() {
    let mut b = [0u8; 16];
    I::set_index(I::create_mut(&mut b), 0x12_3456_789a);
    assert_eq!(I::index(I::create(&b)), 0x12_3456_789a);
}
'''),
}
