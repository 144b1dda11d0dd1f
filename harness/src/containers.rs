//! Vector, StructBuf, views, external vectors and multivectors over arbitrary element types.
use crate::abs::*;
use flatdata::*;
use std::io;
use std::ops::Bound;

// StructBuf
pub fn r_sb_new() -> StructBuf<AbsT> {
    StructBuf::new()
}
pub fn r_sb_default() -> StructBuf<AbsT> {
    StructBuf::default()
}
pub fn r_sb_get(s: &StructBuf<AbsT>) -> AbsRef {
    s.get()
}
pub fn r_sb_get_mut(s: &mut StructBuf<AbsT>) -> AbsMut {
    s.get_mut()
}
pub fn r_sb_as_bytes(s: &StructBuf<AbsT>) -> &[u8] {
    s.as_bytes()
}
pub fn r_sb_as_ref(s: &StructBuf<AbsT>) -> &[u8] {
    s.as_ref()
}

// Vector
pub fn r_vec_new() -> Vector<AbsT> {
    Vector::new()
}
pub fn r_vec_default() -> Vector<AbsT> {
    Vector::default()
}
pub fn r_vec_with_len(n: usize) -> Vector<AbsT> {
    Vector::with_len(n)
}
pub fn r_vec_len(v: &Vector<AbsT>) -> usize {
    v.len()
}
pub fn r_vec_is_empty(v: &Vector<AbsT>) -> bool {
    v.is_empty()
}
pub fn r_vec_size_in_bytes(v: &Vector<AbsT>) -> usize {
    v.size_in_bytes()
}
pub fn r_vec_as_bytes(v: &Vector<AbsT>) -> &[u8] {
    v.as_bytes()
}
pub fn r_vec_as_ref(v: &Vector<AbsT>) -> &[u8] {
    v.as_ref()
}
pub fn r_vec_at(v: &Vector<AbsT>, i: usize) -> AbsRef {
    v.at(i)
}
pub fn r_vec_at_mut(v: &mut Vector<AbsT>, i: usize) -> AbsMut {
    v.at_mut(i)
}
pub fn r_vec_grow(v: &mut Vector<AbsT>) -> AbsMut {
    v.grow()
}
pub fn r_vec_reserve(v: &mut Vector<AbsT>, n: usize) {
    v.reserve(n)
}
pub fn r_vec_clone(v: &Vector<AbsT>) -> Vector<AbsT> {
    v.clone()
}
pub fn r_vec_as_view_bytes(v: &Vector<AbsT>) -> usize {
    v.as_view().len()
}
pub fn r_vec_view_bytes(v: &Vector<AbsT>) -> (usize, usize, AbsRef) {
    let w = v.as_view();
    let b: &[u8] = w.as_ref();
    (w.len(), b.len(), AbsRef(unsafe { std::mem::transmute::<&[u8], &[u8]>(b) }))
}
pub fn r_vec_into_view<'a>(v: &'a Vector<AbsT>) -> ArrayView<'a, AbsT> {
    v.into()
}
pub fn r_vec_as_view<'a>(v: &'a Vector<AbsT>) -> ArrayView<'a, AbsT> {
    v.as_view()
}

// ArrayView
pub type V<'a> = ArrayView<'a, AbsT>;
pub fn r_av_new(data: &[u8]) -> V {
    ArrayView::new(data)
}
pub fn r_av_len(v: &V) -> usize {
    v.len()
}
pub fn r_av_is_empty(v: &V) -> bool {
    v.is_empty()
}
pub fn r_av_as_bytes<'a>(v: &'a V) -> &'a [u8] {
    v.as_bytes()
}
pub fn r_av_as_ref<'a>(v: &'a V) -> &'a [u8] {
    v.as_ref()
}
pub fn r_av_at<'a>(v: &V<'a>, i: usize) -> AbsRef<'a> {
    v.at(i)
}
pub fn r_av_clone<'a>(v: &V<'a>) -> V<'a> {
    v.clone()
}
pub fn r_av_slice_ie<'a>(v: &V<'a>, a: usize, b: usize) -> V<'a> {
    v.slice(a..b)
}
pub fn r_av_slice_ii<'a>(v: &V<'a>, a: usize, b: usize) -> V<'a> {
    v.slice((Bound::Included(a), Bound::Included(b)))
}
pub fn r_av_slice_rii<'a>(v: &V<'a>, a: usize, b: usize) -> V<'a> {
    v.slice(a..=b)
}
pub fn r_av_slice_iu<'a>(v: &V<'a>, a: usize) -> V<'a> {
    v.slice(a..)
}
pub fn r_av_slice_ue<'a>(v: &V<'a>, b: usize) -> V<'a> {
    v.slice(..b)
}
pub fn r_av_slice_ui<'a>(v: &V<'a>, b: usize) -> V<'a> {
    v.slice(..=b)
}
pub fn r_av_slice_uu<'a>(v: &V<'a>) -> V<'a> {
    v.slice(..)
}
pub fn r_av_slice_ee<'a>(v: &V<'a>, a: usize, b: usize) -> V<'a> {
    v.slice((Bound::Excluded(a), Bound::Excluded(b)))
}
pub fn r_av_slice_ei<'a>(v: &V<'a>, a: usize, b: usize) -> V<'a> {
    v.slice((Bound::Excluded(a), Bound::Included(b)))
}
pub fn r_av_slice_eu<'a>(v: &V<'a>, a: usize) -> V<'a> {
    v.slice((Bound::Excluded(a), Bound::Unbounded))
}
pub fn r_av_iter_len(v: &V) -> (usize, (usize, Option<usize>)) {
    let it = v.iter();
    (it.len(), it.size_hint())
}
pub fn r_av_next<'a>(v: &V<'a>) -> (Option<AbsRef<'a>>, usize, (usize, Option<usize>), Option<AbsRef<'a>>, Option<AbsRef<'a>>) {
    let mut it = v.iter();
    let x = it.next();
    let n = it.len();
    let h = it.size_hint();
    let front = it.clone().next();
    let back = it.next_back();
    (x, n, h, front, back)
}
pub fn r_av_next_back<'a>(v: &V<'a>) -> (Option<AbsRef<'a>>, usize, (usize, Option<usize>), Option<AbsRef<'a>>, Option<AbsRef<'a>>) {
    let mut it = v.iter();
    let x = it.next_back();
    let n = it.len();
    let h = it.size_hint();
    let front = it.clone().next();
    let back = it.next_back();
    (x, n, h, front, back)
}
pub fn r_av_into_next<'a>(v: V<'a>) -> (Option<AbsRef<'a>>, usize) {
    let mut it = v.into_iter();
    (it.next(), it.len())
}
pub fn r_av_ref_into_next<'a>(v: &V<'a>) -> (Option<AbsRef<'a>>, usize) {
    let mut it = v.into_iter();
    (it.next(), it.len())
}

// MultiArrayView
pub type MV<'a> = MultiArrayView<'a, AbsIdx, AbsTs>;
pub fn r_ma_new<'a>(index: &'a [u8], data: &'a [u8]) -> MV<'a> {
    MultiArrayView::new(ArrayView::new(index), data)
}
pub fn r_ma_len(v: &MV) -> usize {
    v.len()
}
pub fn r_ma_is_empty(v: &MV) -> bool {
    v.is_empty()
}
pub fn r_ma_clone<'a>(v: &MV<'a>) -> MV<'a> {
    v.clone()
}
pub fn r_ma_at_first<'a>(v: &MV<'a>, i: usize) -> Option<AbsVar<'a>> {
    v.at(i).next()
}
pub fn r_ma_at_two<'a>(v: &MV<'a>, i: usize) -> (Option<AbsVar<'a>>, Option<AbsVar<'a>>) {
    let mut it = v.at(i);
    let a = it.next();
    let b = it.next();
    (a, b)
}
pub fn r_ma_slice_ie<'a>(v: &MV<'a>, a: usize, b: usize, i: usize) -> (usize, Option<AbsVar<'a>>) {
    let s = v.slice(a..b);
    (s.len(), s.at(i).next())
}
pub fn r_ma_sl_ie<'a>(v: &MV<'a>, a: usize, b: usize) -> MV<'a> {
    v.slice(a..b)
}
pub fn r_ma_sl_ii<'a>(v: &MV<'a>, a: usize, b: usize) -> MV<'a> {
    v.slice((Bound::Included(a), Bound::Included(b)))
}
pub fn r_ma_sl_rii<'a>(v: &MV<'a>, a: usize, b: usize) -> MV<'a> {
    v.slice(a..=b)
}
pub fn r_ma_sl_iu<'a>(v: &MV<'a>, a: usize) -> MV<'a> {
    v.slice(a..)
}
pub fn r_ma_sl_ue<'a>(v: &MV<'a>, b: usize) -> MV<'a> {
    v.slice(..b)
}
pub fn r_ma_sl_ui<'a>(v: &MV<'a>, b: usize) -> MV<'a> {
    v.slice(..=b)
}
pub fn r_ma_sl_uu<'a>(v: &MV<'a>) -> MV<'a> {
    v.slice(..)
}
pub fn r_ma_sl_ee<'a>(v: &MV<'a>, a: usize, b: usize) -> MV<'a> {
    v.slice((Bound::Excluded(a), Bound::Excluded(b)))
}
pub fn r_ma_sl_ei<'a>(v: &MV<'a>, a: usize, b: usize) -> MV<'a> {
    v.slice((Bound::Excluded(a), Bound::Included(b)))
}
pub fn r_ma_sl_eu<'a>(v: &MV<'a>, a: usize) -> MV<'a> {
    v.slice((Bound::Excluded(a), Bound::Unbounded))
}
pub fn r_ma_iter_len(v: &MV) -> (usize, (usize, Option<usize>)) {
    let it = v.iter();
    (it.len(), it.size_hint())
}
pub fn r_ma_next<'a>(v: &MV<'a>) -> (Option<Option<AbsVar<'a>>>, usize, (usize, Option<usize>), Option<Option<AbsVar<'a>>>, Option<Option<AbsVar<'a>>>) {
    let mut it = v.iter();
    let x = it.next().map(|mut i| i.next());
    let n = it.len();
    let h = it.size_hint();
    let front = it.clone().next().map(|mut i| i.next());
    let back = it.next_back().map(|mut i| i.next());
    (x, n, h, front, back)
}
pub fn r_ma_next_back<'a>(v: &MV<'a>) -> (Option<Option<AbsVar<'a>>>, usize, (usize, Option<usize>), Option<Option<AbsVar<'a>>>, Option<Option<AbsVar<'a>>>) {
    let mut it = v.iter();
    let x = it.next_back().map(|mut i| i.next());
    let n = it.len();
    let h = it.size_hint();
    let front = it.clone().next().map(|mut i| i.next());
    let back = it.next_back().map(|mut i| i.next());
    (x, n, h, front, back)
}
pub fn r_ma_into_next<'a>(v: MV<'a>) -> (Option<Option<AbsVar<'a>>>, usize) {
    let mut it = v.into_iter();
    (it.next().map(|mut i| i.next()), it.len())
}
pub fn r_ma_ref_into_next<'a>(v: &MV<'a>) -> (Option<Option<AbsVar<'a>>>, usize) {
    let mut it = v.into_iter();
    (it.next().map(|mut i| i.next()), it.len())
}

// Variadic structs
pub fn r_var_create<'a>(tag: u8, data: &'a [u8]) -> RefVarAB<'a> {
    <VarAB as VariadicStruct>::create(tag, data)
}
pub fn r_var_size(v: &RefVarAB) -> usize {
    v.size_in_bytes()
}
pub fn r_var_add_a<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    let mut b = <VarAB as VariadicStruct>::create_mut(v);
    unsafe { std::mem::transmute::<&mut [u8], &mut [u8]>(b.add_a().0) }
}
pub fn r_var_add_b<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    let mut b = <VarAB as VariadicStruct>::create_mut(v);
    unsafe { std::mem::transmute::<&mut [u8], &mut [u8]>(b.add_b().0) }
}
pub fn r_varhi_create<'a>(tag: u8, data: &'a [u8]) -> RefVarHi<'a> {
    <VarHi as VariadicStruct>::create(tag, data)
}
pub fn r_varhi_size(v: &RefVarHi) -> usize {
    v.size_in_bytes()
}
pub fn r_varhi_add_a<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    let mut b = <VarHi as VariadicStruct>::create_mut(v);
    unsafe { std::mem::transmute::<&mut [u8], &mut [u8]>(b.add_a().0) }
}
pub fn r_varhi_add_b<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    let mut b = <VarHi as VariadicStruct>::create_mut(v);
    unsafe { std::mem::transmute::<&mut [u8], &mut [u8]>(b.add_b().0) }
}
pub fn r_varhi_add_t<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    let mut b = <VarHi as VariadicStruct>::create_mut(v);
    unsafe { std::mem::transmute::<&mut [u8], &mut [u8]>(b.add_t().0) }
}

// ExternalVector
pub type EV<'a> = ExternalVector<'a, AbsT>;
pub fn r_ev_create<'a>(s: &'a ResourceStorage, name: &str, schema: &str) -> io::Result<EV<'a>> {
    create_external_vector(s, name, schema)
}
pub fn r_ev_grow<'b>(v: &'b mut EV) -> io::Result<AbsMut<'b>> {
    v.grow()
}
pub fn r_ev_len(v: &EV) -> usize {
    v.len()
}
pub fn r_ev_is_empty(v: &EV) -> bool {
    v.is_empty()
}
pub fn r_ev_is_open(v: &EV) -> bool {
    v.is_open()
}
pub fn r_ev_close<'a>(v: EV<'a>) -> Result<ArrayView<'a, AbsT>, ResourceStorageError> {
    v.close()
}
pub fn r_ev_drop(v: EV) {
    drop(v)
}

// MultiVector
pub type MW<'a> = MultiVector<'a, AbsIdx, AbsTs>;
pub fn r_mv_create<'a>(s: &'a ResourceStorage, name: &str, schema: &str) -> io::Result<MW<'a>> {
    create_multi_vector(s, name, schema)
}
pub fn r_mv_grow<'b>(v: &'b mut MW) -> io::Result<&'b mut Vec<u8>> {
    v.grow().map(|b| b.0)
}
pub fn r_mv_close<'a>(v: MW<'a>) -> Result<MV<'a>, ResourceStorageError> {
    v.close()
}
pub fn r_mv_drop(v: MW) {
    drop(v)
}

// Real items added to a multi vector's entry.
pub fn r_mv_add_a<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    r_var_add_a(v)
}
pub fn r_mv_add_b<'a>(v: &'a mut Vec<u8>) -> &'a mut [u8] {
    r_var_add_b(v)
}
