H = '#[macro_use]\n#[allow(unused_imports)]\nextern crate flatdata;\nuse flatdata::*;\n'
P = 'define_struct!(P, RefP, MutP, "p", 4, (x, set_x, u32, 0, 32));\n'
AV = "src/arrayview.rs"
MA = "src/multiarrayview.rs"
BR = "src/bytereader.rs"
BUGS = {
"b29": dict(property="C07", needs="nth() past the end of an iterator, which is used again afterwards",
  breaks="nth() past the end does not use up the items, so that next() yields one again",
  edits=[(AV, """        if !self.view.is_empty() {
            let element = self.view.at(0);
            self.view = self.view.slice(1..);
            Some(element)
        } else {
            None
        }
    }

    fn size_hint""", """        self.nth(0)
    }

    // no need to go through the elements before
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n < self.view.len() {
            let element = self.view.at(n);
            self.view = self.view.slice(n + 1..);
            Some(element)
        } else {
            None
        }
    }

    fn size_hint""")],
  main=H+P+'''
fn main() {
    let data = [1u8, 0, 0, 0, 2, 0, 0, 0];
    let v: ArrayView<P> = ArrayView::new(&data);
    let mut it = v.iter();
    assert!(it.nth(1).is_some());
    let mut it = v.iter();
    assert!(it.nth(2).is_none());
    assert!(it.next().is_none());
}
'''),
"b30": dict(property="C09", needs="nth() or skip() past the end of a multi array view",
  breaks="nth() past the end panics instead of yielding nothing",
  edits=[(MA, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.view.len();
        (len, Some(len))
    }
""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // no need to look at the items before
        self.view = self.view.slice(n..);
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let remaining = self.view.len();
        (remaining, Some(remaining))
    }
""")],
  main=H+P+'''
define_index!(I, RefI, MutI, "i", 4, 32);
define_variadic_struct!(V, RefV, BuilderV, I, 0 => (P, add_p));
fn main() {
    let index = [0u8, 0, 0, 0, 5, 0, 0, 0];
    let data = [0u8, 1, 0, 0, 0];
    let v: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(&index), &data);
    assert_eq!(v.len(), 1);
    assert!(v.iter().nth(0).is_some());
    assert!(v.iter().nth(3).is_none());
}
'''),
"b31": dict(property="C04", needs="a 64 bit field that is aligned in its struct, and bytes which are not aligned in memory",
  breaks="fields aligned in the struct are read with an access that needs aligned memory",
  edits=[(BR, """            let mut result: u64 = 0;
            unsafe { ::std::ptr::copy(data, &mut result as *mut u64 as *mut u8, num_bytes) };
            result = u64::from_le(result);
""", """            let mut result: u64 = 0;
            if $num_bits == 64 && $offset % 64 == 0 {
                // the whole word at once
                result = unsafe { *(data as *const u64) };
            } else {
                unsafe { ::std::ptr::copy(data, &mut result as *mut u64 as *mut u8, num_bytes) };
            }
            result = u64::from_le(result);
""")],
  main=H+'''
define_struct!(Q, RefQ, MutQ, "q", 8, (x, set_x, u64, 0, 64));
fn main() {
    let data = [7u8; 32];
    for i in 0..8 {
        let v: ArrayView<Q> = ArrayView::new(&data[i..i + 8]);
        assert_eq!(v.at(0).x(), 0x0707_0707_0707_0707);
    }
}
'''),
}
