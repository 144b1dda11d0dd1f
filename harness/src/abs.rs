//! Opaque element types.
use flatdata::{IndexStruct, Ref, RefMut, Struct, VariadicRef, VariadicStruct, TypeIndex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct AbsRef<'a>(pub &'a [u8]);
#[derive(Debug)]
pub struct AbsMut<'a>(pub &'a mut [u8]);
impl<'a> Ref for AbsRef<'a> {}
impl<'a> RefMut for AbsMut<'a> {}

macro_rules! abs {
    ($n:ident, $size:expr) => {
        #[derive(Clone)]
        pub struct $n {}
        impl<'a> Struct<'a> for $n {
            const SCHEMA: &'static str = "abs";
            const SIZE_IN_BYTES: usize = $size;
            type Item = AbsRef<'a>;
            fn create(data: &'a [u8]) -> AbsRef<'a> {
                if data.len() < Self::SIZE_IN_BYTES {
                    panic!("short struct")
                }
                AbsRef(data)
            }
            type ItemMut = AbsMut<'a>;
            fn create_mut(data: &'a mut [u8]) -> AbsMut<'a> {
                if data.len() < Self::SIZE_IN_BYTES {
                    panic!("short struct")
                }
                AbsMut(data)
            }
        }
    };
}
abs!(AbsT, 1_000_003);
abs!(AbsA, 1_100_009);
abs!(AbsB, 1_200_007);
abs!(AbsIdx, 1_300_021);

/// Modelled by the analyser: the value the accessor's bytes hold.
#[inline(never)]
pub fn model_index_get(_data: &[u8]) -> usize {
    0
}
/// Modelled by the analyser: stores the value in the accessor's bytes.
#[inline(never)]
pub fn model_index_set(_data: &mut [u8], _value: usize) {}

impl<'a> IndexStruct<'a> for AbsIdx {
    fn index(data: AbsRef<'a>) -> usize {
        model_index_get(data.0)
    }
    fn set_index(data: AbsMut<'a>, value: usize) {
        model_index_set(data.0, value)
    }
}

/// An arbitrary variadic type: every item consumes a number of bytes which depends on its tag only.
#[derive(Clone)]
pub struct AbsTs {}
#[derive(Clone, Debug, PartialEq)]
pub struct AbsVar<'a>(pub TypeIndex, pub &'a [u8]);
/// Modelled by the analyser: size of the struct with the given tag.
#[inline(never)]
pub fn model_tag_size(_tag: TypeIndex) -> usize {
    0
}
impl<'a> VariadicRef for AbsVar<'a> {
    fn size_in_bytes(&self) -> usize {
        model_tag_size(self.0)
    }
}
pub struct AbsBuilder<'a>(pub &'a mut Vec<u8>);
impl<'a> VariadicStruct<'a> for AbsTs {
    type Item = AbsVar<'a>;
    fn create(tag: TypeIndex, data: &'a [u8]) -> AbsVar<'a> {
        if data.len() < model_tag_size(tag) {
            panic!("short struct")
        }
        AbsVar(tag, data)
    }
    type ItemMut = AbsBuilder<'a>;
    fn create_mut(data: &'a mut Vec<u8>) -> AbsBuilder<'a> {
        AbsBuilder(data)
    }
}

define_variadic_struct!(VarAB, RefVarAB, BuilderVarAB, AbsIdx,
    0 => (AbsA, add_a),
    1 => (AbsB, add_b));
define_variadic_struct!(VarHi, RefVarHi, BuilderVarHi, AbsIdx,
    7 => (AbsB, add_b),
    3 => (AbsA, add_a),
    255 => (AbsT, add_t));
