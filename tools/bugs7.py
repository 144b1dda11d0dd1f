import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "tools", "bugs6.py")).read().split("BUGS = {")[0])
MA = "src/multiarrayview.rs"
BUGS = {
"b50": dict(property="C15", needs="an optional struct all of whose fields are zero",
  breaks="a stored struct is shown as absent",
  edits=[(AR, """                    self.$struct_resource.as_ref().map(|mem_desc| {
                        <$struct_type""", """                    self.$struct_resource.as_ref().filter(|x| unsafe { x.as_bytes() } != &[0; <$struct_type as $crate::Struct>::SIZE_IN_BYTES][..]).map(|mem_desc| {
                        <$struct_type""")],
  main=H+P+'''
define_archive!(Arch, ArchBuilder, "arch"; (p, set_p, P, "p", true);;;;);
fn main() {
    let s = MemoryResourceStorage::new(std::path::PathBuf::from("/root/m"));
    let b = ArchBuilder::new(s.clone()).unwrap();
    let mut p = StructBuf::<P>::new();
    p.get_mut().set_x(0);
    b.set_p(p.get()).unwrap();
    let a = Arch::open(s).unwrap();
    assert_eq!(a.p().expect("stored").x(), 0);
}
'''),
"b52": dict(property="C09", needs="offsets beyond the data (a truncated or corrupted resource)",
  breaks="entries beyond the data are cut off or empty instead of being refused",
  edits=[(MA, "        let end = <Idx as IndexStruct>::index(self.index.at(index + 1));", "        let end = <Idx as IndexStruct>::index(self.index.at(index + 1)).min(self.data.len());")],
  main=H+P+'''
define_index!(Idx, RefIdx, MutIdx, "idx", 4, 32);
define_variadic_struct!(Var, RefVar, BuilderVar, Idx, 0 => (P, add_p));
fn main() {
    let index = [0u8, 0, 0, 0, 10, 0, 0, 0];
    let data = [0u8, 1, 0, 0, 0, 0u8, 2, 0, 0, 0];
    let view = MultiArrayView::<Idx, Var>::new(ArrayView::new(&index), &data);
    assert_eq!(view.at(0).count(), 2);
    let short = MultiArrayView::<Idx, Var>::new(ArrayView::new(&index), &data[..5]);
    let r = std::panic::catch_unwind(|| short.at(0).count());
    assert!(r.is_err(), "offsets beyond the data are not refused");
}
'''),
}
