//! Generated by tools/gen_layouts.py.
use flatdata::*;

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum E1 { V0 = 0, V1 = 1 }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum E2 { V0 = 0, V1 = 1, V2 = 2, V3 = 3 }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum E3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u16)]
pub enum E16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3 }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u32)]
pub enum E32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u64)]
pub enum E64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3 }
define_struct!(L0, RefL0, MutL0, "schema L0", 71,
    (f0, set_f0, u64, 0, 64),
    (f1, set_f1, u64, 65, 64),
    (f2, set_f2, u64, 138, 64),
    (f3, set_f3, u64, 211, 64),
    (f4, set_f4, u64, 284, 64),
    (f5, set_f5, u64, 357, 64),
    (f6, set_f6, u64, 430, 64),
    (f7, set_f7, u64, 503, 64));
pub fn r_l0_get0(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f0() }
pub fn r_l0_mget0(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f0() }
pub fn r_l0_iref0(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l0_set0(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l0_get1(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f1() }
pub fn r_l0_mget1(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f1() }
pub fn r_l0_iref1(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l0_set1(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l0_get2(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f2() }
pub fn r_l0_mget2(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f2() }
pub fn r_l0_iref2(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l0_set2(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l0_get3(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f3() }
pub fn r_l0_mget3(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f3() }
pub fn r_l0_iref3(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l0_set3(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l0_get4(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f4() }
pub fn r_l0_mget4(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f4() }
pub fn r_l0_iref4(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l0_set4(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l0_get5(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f5() }
pub fn r_l0_mget5(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f5() }
pub fn r_l0_iref5(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l0_set5(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l0_get6(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f6() }
pub fn r_l0_mget6(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f6() }
pub fn r_l0_iref6(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l0_set6(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l0_get7(d: &[u8]) -> u64 { <L0 as Struct>::create(d).f7() }
pub fn r_l0_mget7(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).f7() }
pub fn r_l0_iref7(d: &mut [u8]) -> u64 { <L0 as Struct>::create_mut(d).into_ref().f7() }
pub fn r_l0_set7(d: &mut [u8], v: u64) { <L0 as Struct>::create_mut(d).set_f7(v) }
pub fn r_l0_fill(d: &mut [u8], o: &[u8]) { <L0 as Struct>::create_mut(d).fill_from(&<L0 as Struct>::create(o)) }
pub fn r_l0_eq(a: &[u8], b: &[u8]) -> bool { <L0 as Struct>::create(a) == <L0 as Struct>::create(b) }
pub fn r_l0_size() -> usize { <L0 as Struct>::SIZE_IN_BYTES }
pub fn r_l0_schema() -> &'static str { <L0 as Struct>::SCHEMA }
define_struct!(L1, RefL1, MutL1, "schema L1", 71,
    (f0, set_f0, i64, 0, 64),
    (f1, set_f1, i64, 65, 64),
    (f2, set_f2, i64, 138, 64),
    (f3, set_f3, i64, 211, 64),
    (f4, set_f4, i64, 284, 64),
    (f5, set_f5, i64, 357, 64),
    (f6, set_f6, i64, 430, 64),
    (f7, set_f7, i64, 503, 64));
pub fn r_l1_get0(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f0() }
pub fn r_l1_mget0(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f0() }
pub fn r_l1_iref0(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l1_set0(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l1_get1(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f1() }
pub fn r_l1_mget1(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f1() }
pub fn r_l1_iref1(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l1_set1(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l1_get2(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f2() }
pub fn r_l1_mget2(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f2() }
pub fn r_l1_iref2(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l1_set2(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l1_get3(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f3() }
pub fn r_l1_mget3(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f3() }
pub fn r_l1_iref3(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l1_set3(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l1_get4(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f4() }
pub fn r_l1_mget4(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f4() }
pub fn r_l1_iref4(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l1_set4(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l1_get5(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f5() }
pub fn r_l1_mget5(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f5() }
pub fn r_l1_iref5(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l1_set5(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l1_get6(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f6() }
pub fn r_l1_mget6(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f6() }
pub fn r_l1_iref6(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l1_set6(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l1_get7(d: &[u8]) -> i64 { <L1 as Struct>::create(d).f7() }
pub fn r_l1_mget7(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).f7() }
pub fn r_l1_iref7(d: &mut [u8]) -> i64 { <L1 as Struct>::create_mut(d).into_ref().f7() }
pub fn r_l1_set7(d: &mut [u8], v: i64) { <L1 as Struct>::create_mut(d).set_f7(v) }
pub fn r_l1_fill(d: &mut [u8], o: &[u8]) { <L1 as Struct>::create_mut(d).fill_from(&<L1 as Struct>::create(o)) }
pub fn r_l1_eq(a: &[u8], b: &[u8]) -> bool { <L1 as Struct>::create(a) == <L1 as Struct>::create(b) }
pub fn r_l1_size() -> usize { <L1 as Struct>::SIZE_IN_BYTES }
pub fn r_l1_schema() -> &'static str { <L1 as Struct>::SCHEMA }
define_struct!(L2, RefL2, MutL2, "schema L2", 14,
    (f0, set_f0, u32, 0, 32),
    (f1, set_f1, u32, 35, 32),
    (f2, set_f2, u32, 78, 32));
pub fn r_l2_get0(d: &[u8]) -> u32 { <L2 as Struct>::create(d).f0() }
pub fn r_l2_mget0(d: &mut [u8]) -> u32 { <L2 as Struct>::create_mut(d).f0() }
pub fn r_l2_iref0(d: &mut [u8]) -> u32 { <L2 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l2_set0(d: &mut [u8], v: u32) { <L2 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l2_get1(d: &[u8]) -> u32 { <L2 as Struct>::create(d).f1() }
pub fn r_l2_mget1(d: &mut [u8]) -> u32 { <L2 as Struct>::create_mut(d).f1() }
pub fn r_l2_iref1(d: &mut [u8]) -> u32 { <L2 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l2_set1(d: &mut [u8], v: u32) { <L2 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l2_get2(d: &[u8]) -> u32 { <L2 as Struct>::create(d).f2() }
pub fn r_l2_mget2(d: &mut [u8]) -> u32 { <L2 as Struct>::create_mut(d).f2() }
pub fn r_l2_iref2(d: &mut [u8]) -> u32 { <L2 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l2_set2(d: &mut [u8], v: u32) { <L2 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l2_fill(d: &mut [u8], o: &[u8]) { <L2 as Struct>::create_mut(d).fill_from(&<L2 as Struct>::create(o)) }
pub fn r_l2_eq(a: &[u8], b: &[u8]) -> bool { <L2 as Struct>::create(a) == <L2 as Struct>::create(b) }
pub fn r_l2_size() -> usize { <L2 as Struct>::SIZE_IN_BYTES }
pub fn r_l2_schema() -> &'static str { <L2 as Struct>::SCHEMA }
define_struct!(L3, RefL3, MutL3, "schema L3", 14,
    (f0, set_f0, i32, 0, 32),
    (f1, set_f1, i32, 35, 32),
    (f2, set_f2, i32, 78, 32));
pub fn r_l3_get0(d: &[u8]) -> i32 { <L3 as Struct>::create(d).f0() }
pub fn r_l3_mget0(d: &mut [u8]) -> i32 { <L3 as Struct>::create_mut(d).f0() }
pub fn r_l3_iref0(d: &mut [u8]) -> i32 { <L3 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l3_set0(d: &mut [u8], v: i32) { <L3 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l3_get1(d: &[u8]) -> i32 { <L3 as Struct>::create(d).f1() }
pub fn r_l3_mget1(d: &mut [u8]) -> i32 { <L3 as Struct>::create_mut(d).f1() }
pub fn r_l3_iref1(d: &mut [u8]) -> i32 { <L3 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l3_set1(d: &mut [u8], v: i32) { <L3 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l3_get2(d: &[u8]) -> i32 { <L3 as Struct>::create(d).f2() }
pub fn r_l3_mget2(d: &mut [u8]) -> i32 { <L3 as Struct>::create_mut(d).f2() }
pub fn r_l3_iref2(d: &mut [u8]) -> i32 { <L3 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l3_set2(d: &mut [u8], v: i32) { <L3 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l3_fill(d: &mut [u8], o: &[u8]) { <L3 as Struct>::create_mut(d).fill_from(&<L3 as Struct>::create(o)) }
pub fn r_l3_eq(a: &[u8], b: &[u8]) -> bool { <L3 as Struct>::create(a) == <L3 as Struct>::create(b) }
pub fn r_l3_size() -> usize { <L3 as Struct>::SIZE_IN_BYTES }
pub fn r_l3_schema() -> &'static str { <L3 as Struct>::SCHEMA }
define_struct!(L4, RefL4, MutL4, "schema L4", 8,
    (f0, set_f0, u16, 0, 16),
    (f1, set_f1, u16, 19, 16),
    (f2, set_f2, u16, 46, 16));
pub fn r_l4_get0(d: &[u8]) -> u16 { <L4 as Struct>::create(d).f0() }
pub fn r_l4_mget0(d: &mut [u8]) -> u16 { <L4 as Struct>::create_mut(d).f0() }
pub fn r_l4_iref0(d: &mut [u8]) -> u16 { <L4 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l4_set0(d: &mut [u8], v: u16) { <L4 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l4_get1(d: &[u8]) -> u16 { <L4 as Struct>::create(d).f1() }
pub fn r_l4_mget1(d: &mut [u8]) -> u16 { <L4 as Struct>::create_mut(d).f1() }
pub fn r_l4_iref1(d: &mut [u8]) -> u16 { <L4 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l4_set1(d: &mut [u8], v: u16) { <L4 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l4_get2(d: &[u8]) -> u16 { <L4 as Struct>::create(d).f2() }
pub fn r_l4_mget2(d: &mut [u8]) -> u16 { <L4 as Struct>::create_mut(d).f2() }
pub fn r_l4_iref2(d: &mut [u8]) -> u16 { <L4 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l4_set2(d: &mut [u8], v: u16) { <L4 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l4_fill(d: &mut [u8], o: &[u8]) { <L4 as Struct>::create_mut(d).fill_from(&<L4 as Struct>::create(o)) }
pub fn r_l4_eq(a: &[u8], b: &[u8]) -> bool { <L4 as Struct>::create(a) == <L4 as Struct>::create(b) }
pub fn r_l4_size() -> usize { <L4 as Struct>::SIZE_IN_BYTES }
pub fn r_l4_schema() -> &'static str { <L4 as Struct>::SCHEMA }
define_struct!(L5, RefL5, MutL5, "schema L5", 5,
    (f0, set_f0, u8, 0, 8),
    (f1, set_f1, u8, 11, 8),
    (f2, set_f2, u8, 30, 8));
pub fn r_l5_get0(d: &[u8]) -> u8 { <L5 as Struct>::create(d).f0() }
pub fn r_l5_mget0(d: &mut [u8]) -> u8 { <L5 as Struct>::create_mut(d).f0() }
pub fn r_l5_iref0(d: &mut [u8]) -> u8 { <L5 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l5_set0(d: &mut [u8], v: u8) { <L5 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l5_get1(d: &[u8]) -> u8 { <L5 as Struct>::create(d).f1() }
pub fn r_l5_mget1(d: &mut [u8]) -> u8 { <L5 as Struct>::create_mut(d).f1() }
pub fn r_l5_iref1(d: &mut [u8]) -> u8 { <L5 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l5_set1(d: &mut [u8], v: u8) { <L5 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l5_get2(d: &[u8]) -> u8 { <L5 as Struct>::create(d).f2() }
pub fn r_l5_mget2(d: &mut [u8]) -> u8 { <L5 as Struct>::create_mut(d).f2() }
pub fn r_l5_iref2(d: &mut [u8]) -> u8 { <L5 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l5_set2(d: &mut [u8], v: u8) { <L5 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l5_fill(d: &mut [u8], o: &[u8]) { <L5 as Struct>::create_mut(d).fill_from(&<L5 as Struct>::create(o)) }
pub fn r_l5_eq(a: &[u8], b: &[u8]) -> bool { <L5 as Struct>::create(a) == <L5 as Struct>::create(b) }
pub fn r_l5_size() -> usize { <L5 as Struct>::SIZE_IN_BYTES }
pub fn r_l5_schema() -> &'static str { <L5 as Struct>::SCHEMA }
define_struct!(L6, RefL6, MutL6, "schema L6", 5,
    (f0, set_f0, i8, 0, 8),
    (f1, set_f1, i8, 11, 8),
    (f2, set_f2, i8, 30, 8));
pub fn r_l6_get0(d: &[u8]) -> i8 { <L6 as Struct>::create(d).f0() }
pub fn r_l6_mget0(d: &mut [u8]) -> i8 { <L6 as Struct>::create_mut(d).f0() }
pub fn r_l6_iref0(d: &mut [u8]) -> i8 { <L6 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l6_set0(d: &mut [u8], v: i8) { <L6 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l6_get1(d: &[u8]) -> i8 { <L6 as Struct>::create(d).f1() }
pub fn r_l6_mget1(d: &mut [u8]) -> i8 { <L6 as Struct>::create_mut(d).f1() }
pub fn r_l6_iref1(d: &mut [u8]) -> i8 { <L6 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l6_set1(d: &mut [u8], v: i8) { <L6 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l6_get2(d: &[u8]) -> i8 { <L6 as Struct>::create(d).f2() }
pub fn r_l6_mget2(d: &mut [u8]) -> i8 { <L6 as Struct>::create_mut(d).f2() }
pub fn r_l6_iref2(d: &mut [u8]) -> i8 { <L6 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l6_set2(d: &mut [u8], v: i8) { <L6 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l6_fill(d: &mut [u8], o: &[u8]) { <L6 as Struct>::create_mut(d).fill_from(&<L6 as Struct>::create(o)) }
pub fn r_l6_eq(a: &[u8], b: &[u8]) -> bool { <L6 as Struct>::create(a) == <L6 as Struct>::create(b) }
pub fn r_l6_size() -> usize { <L6 as Struct>::SIZE_IN_BYTES }
pub fn r_l6_schema() -> &'static str { <L6 as Struct>::SCHEMA }
define_struct!(L7, RefL7, MutL7, "schema L7", 8,
    (f0, set_f0, i16, 0, 16),
    (f1, set_f1, i16, 19, 16),
    (f2, set_f2, i16, 46, 16));
pub fn r_l7_get0(d: &[u8]) -> i16 { <L7 as Struct>::create(d).f0() }
pub fn r_l7_mget0(d: &mut [u8]) -> i16 { <L7 as Struct>::create_mut(d).f0() }
pub fn r_l7_iref0(d: &mut [u8]) -> i16 { <L7 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l7_set0(d: &mut [u8], v: i16) { <L7 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l7_get1(d: &[u8]) -> i16 { <L7 as Struct>::create(d).f1() }
pub fn r_l7_mget1(d: &mut [u8]) -> i16 { <L7 as Struct>::create_mut(d).f1() }
pub fn r_l7_iref1(d: &mut [u8]) -> i16 { <L7 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l7_set1(d: &mut [u8], v: i16) { <L7 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l7_get2(d: &[u8]) -> i16 { <L7 as Struct>::create(d).f2() }
pub fn r_l7_mget2(d: &mut [u8]) -> i16 { <L7 as Struct>::create_mut(d).f2() }
pub fn r_l7_iref2(d: &mut [u8]) -> i16 { <L7 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l7_set2(d: &mut [u8], v: i16) { <L7 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l7_fill(d: &mut [u8], o: &[u8]) { <L7 as Struct>::create_mut(d).fill_from(&<L7 as Struct>::create(o)) }
pub fn r_l7_eq(a: &[u8], b: &[u8]) -> bool { <L7 as Struct>::create(a) == <L7 as Struct>::create(b) }
pub fn r_l7_size() -> usize { <L7 as Struct>::SIZE_IN_BYTES }
pub fn r_l7_schema() -> &'static str { <L7 as Struct>::SCHEMA }
define_struct!(L8, RefL8, MutL8, "schema L8", 2,
    (f0, set_f0, bool, 0, 1),
    (f1, set_f1, bool, 1, 1),
    (f2, set_f2, bool, 2, 1),
    (f3, set_f3, bool, 3, 1),
    (f4, set_f4, bool, 4, 1),
    (f5, set_f5, bool, 5, 1),
    (f6, set_f6, bool, 6, 1),
    (f7, set_f7, bool, 7, 1),
    (f8, set_f8, bool, 8, 1),
    (f9, set_f9, bool, 9, 1));
pub fn r_l8_get0(d: &[u8]) -> bool { <L8 as Struct>::create(d).f0() }
pub fn r_l8_mget0(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f0() }
pub fn r_l8_iref0(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l8_set0(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l8_get1(d: &[u8]) -> bool { <L8 as Struct>::create(d).f1() }
pub fn r_l8_mget1(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f1() }
pub fn r_l8_iref1(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l8_set1(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l8_get2(d: &[u8]) -> bool { <L8 as Struct>::create(d).f2() }
pub fn r_l8_mget2(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f2() }
pub fn r_l8_iref2(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l8_set2(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l8_get3(d: &[u8]) -> bool { <L8 as Struct>::create(d).f3() }
pub fn r_l8_mget3(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f3() }
pub fn r_l8_iref3(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l8_set3(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l8_get4(d: &[u8]) -> bool { <L8 as Struct>::create(d).f4() }
pub fn r_l8_mget4(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f4() }
pub fn r_l8_iref4(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l8_set4(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l8_get5(d: &[u8]) -> bool { <L8 as Struct>::create(d).f5() }
pub fn r_l8_mget5(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f5() }
pub fn r_l8_iref5(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l8_set5(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l8_get6(d: &[u8]) -> bool { <L8 as Struct>::create(d).f6() }
pub fn r_l8_mget6(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f6() }
pub fn r_l8_iref6(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l8_set6(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l8_get7(d: &[u8]) -> bool { <L8 as Struct>::create(d).f7() }
pub fn r_l8_mget7(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f7() }
pub fn r_l8_iref7(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f7() }
pub fn r_l8_set7(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f7(v) }
pub fn r_l8_get8(d: &[u8]) -> bool { <L8 as Struct>::create(d).f8() }
pub fn r_l8_mget8(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f8() }
pub fn r_l8_iref8(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f8() }
pub fn r_l8_set8(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f8(v) }
pub fn r_l8_get9(d: &[u8]) -> bool { <L8 as Struct>::create(d).f9() }
pub fn r_l8_mget9(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).f9() }
pub fn r_l8_iref9(d: &mut [u8]) -> bool { <L8 as Struct>::create_mut(d).into_ref().f9() }
pub fn r_l8_set9(d: &mut [u8], v: bool) { <L8 as Struct>::create_mut(d).set_f9(v) }
pub fn r_l8_fill(d: &mut [u8], o: &[u8]) { <L8 as Struct>::create_mut(d).fill_from(&<L8 as Struct>::create(o)) }
pub fn r_l8_eq(a: &[u8], b: &[u8]) -> bool { <L8 as Struct>::create(a) == <L8 as Struct>::create(b) }
pub fn r_l8_size() -> usize { <L8 as Struct>::SIZE_IN_BYTES }
pub fn r_l8_schema() -> &'static str { <L8 as Struct>::SCHEMA }
define_struct!(L9, RefL9, MutL9, "schema L9", 2,
    (f0, set_f0, u8: u8, 0, 1),
    (f1, set_f1, bool: bool, 1, 1),
    (f2, set_f2, u64: u64, 2, 1),
    (f3, set_f3, u16: u16, 3, 1),
    (f4, set_f4, E1: u8, 4, 1),
    (f5, set_f5, bool: bool, 15, 1));
pub fn r_l9_get0(d: &[u8]) -> u8 { <L9 as Struct>::create(d).f0() }
pub fn r_l9_mget0(d: &mut [u8]) -> u8 { <L9 as Struct>::create_mut(d).f0() }
pub fn r_l9_iref0(d: &mut [u8]) -> u8 { <L9 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l9_set0(d: &mut [u8], v: u8) { <L9 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l9_get1(d: &[u8]) -> bool { <L9 as Struct>::create(d).f1() }
pub fn r_l9_mget1(d: &mut [u8]) -> bool { <L9 as Struct>::create_mut(d).f1() }
pub fn r_l9_iref1(d: &mut [u8]) -> bool { <L9 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l9_set1(d: &mut [u8], v: bool) { <L9 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l9_get2(d: &[u8]) -> u64 { <L9 as Struct>::create(d).f2() }
pub fn r_l9_mget2(d: &mut [u8]) -> u64 { <L9 as Struct>::create_mut(d).f2() }
pub fn r_l9_iref2(d: &mut [u8]) -> u64 { <L9 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l9_set2(d: &mut [u8], v: u64) { <L9 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l9_get3(d: &[u8]) -> u16 { <L9 as Struct>::create(d).f3() }
pub fn r_l9_mget3(d: &mut [u8]) -> u16 { <L9 as Struct>::create_mut(d).f3() }
pub fn r_l9_iref3(d: &mut [u8]) -> u16 { <L9 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l9_set3(d: &mut [u8], v: u16) { <L9 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l9_get4(d: &[u8]) -> E1 { <L9 as Struct>::create(d).f4() }
pub fn r_l9_mget4(d: &mut [u8]) -> E1 { <L9 as Struct>::create_mut(d).f4() }
pub fn r_l9_iref4(d: &mut [u8]) -> E1 { <L9 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l9_set4(d: &mut [u8], v: E1) { <L9 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l9_get5(d: &[u8]) -> bool { <L9 as Struct>::create(d).f5() }
pub fn r_l9_mget5(d: &mut [u8]) -> bool { <L9 as Struct>::create_mut(d).f5() }
pub fn r_l9_iref5(d: &mut [u8]) -> bool { <L9 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l9_set5(d: &mut [u8], v: bool) { <L9 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l9_fill(d: &mut [u8], o: &[u8]) { <L9 as Struct>::create_mut(d).fill_from(&<L9 as Struct>::create(o)) }
pub fn r_l9_eq(a: &[u8], b: &[u8]) -> bool { <L9 as Struct>::create(a) == <L9 as Struct>::create(b) }
pub fn r_l9_size() -> usize { <L9 as Struct>::SIZE_IN_BYTES }
pub fn r_l9_schema() -> &'static str { <L9 as Struct>::SCHEMA }
define_struct!(L10, RefL10, MutL10, "schema L10", 4,
    (f0, set_f0, E2: u8, 0, 2),
    (f1, set_f1, E3: u8, 2, 3),
    (f2, set_f2, E1: u8, 5, 1),
    (f3, set_f3, E3: u8, 6, 3),
    (f4, set_f4, E16: u16, 9, 2),
    (f5, set_f5, E32: u32, 11, 3),
    (f6, set_f6, E64: u64, 14, 2),
    (f7, set_f7, E2: u8, 23, 2));
pub fn r_l10_get0(d: &[u8]) -> E2 { <L10 as Struct>::create(d).f0() }
pub fn r_l10_mget0(d: &mut [u8]) -> E2 { <L10 as Struct>::create_mut(d).f0() }
pub fn r_l10_iref0(d: &mut [u8]) -> E2 { <L10 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l10_set0(d: &mut [u8], v: E2) { <L10 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l10_get1(d: &[u8]) -> E3 { <L10 as Struct>::create(d).f1() }
pub fn r_l10_mget1(d: &mut [u8]) -> E3 { <L10 as Struct>::create_mut(d).f1() }
pub fn r_l10_iref1(d: &mut [u8]) -> E3 { <L10 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l10_set1(d: &mut [u8], v: E3) { <L10 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l10_get2(d: &[u8]) -> E1 { <L10 as Struct>::create(d).f2() }
pub fn r_l10_mget2(d: &mut [u8]) -> E1 { <L10 as Struct>::create_mut(d).f2() }
pub fn r_l10_iref2(d: &mut [u8]) -> E1 { <L10 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l10_set2(d: &mut [u8], v: E1) { <L10 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l10_get3(d: &[u8]) -> E3 { <L10 as Struct>::create(d).f3() }
pub fn r_l10_mget3(d: &mut [u8]) -> E3 { <L10 as Struct>::create_mut(d).f3() }
pub fn r_l10_iref3(d: &mut [u8]) -> E3 { <L10 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l10_set3(d: &mut [u8], v: E3) { <L10 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l10_get4(d: &[u8]) -> E16 { <L10 as Struct>::create(d).f4() }
pub fn r_l10_mget4(d: &mut [u8]) -> E16 { <L10 as Struct>::create_mut(d).f4() }
pub fn r_l10_iref4(d: &mut [u8]) -> E16 { <L10 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l10_set4(d: &mut [u8], v: E16) { <L10 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l10_get5(d: &[u8]) -> E32 { <L10 as Struct>::create(d).f5() }
pub fn r_l10_mget5(d: &mut [u8]) -> E32 { <L10 as Struct>::create_mut(d).f5() }
pub fn r_l10_iref5(d: &mut [u8]) -> E32 { <L10 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l10_set5(d: &mut [u8], v: E32) { <L10 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l10_get6(d: &[u8]) -> E64 { <L10 as Struct>::create(d).f6() }
pub fn r_l10_mget6(d: &mut [u8]) -> E64 { <L10 as Struct>::create_mut(d).f6() }
pub fn r_l10_iref6(d: &mut [u8]) -> E64 { <L10 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l10_set6(d: &mut [u8], v: E64) { <L10 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l10_get7(d: &[u8]) -> E2 { <L10 as Struct>::create(d).f7() }
pub fn r_l10_mget7(d: &mut [u8]) -> E2 { <L10 as Struct>::create_mut(d).f7() }
pub fn r_l10_iref7(d: &mut [u8]) -> E2 { <L10 as Struct>::create_mut(d).into_ref().f7() }
pub fn r_l10_set7(d: &mut [u8], v: E2) { <L10 as Struct>::create_mut(d).set_f7(v) }
pub fn r_l10_fill(d: &mut [u8], o: &[u8]) { <L10 as Struct>::create_mut(d).fill_from(&<L10 as Struct>::create(o)) }
pub fn r_l10_eq(a: &[u8], b: &[u8]) -> bool { <L10 as Struct>::create(a) == <L10 as Struct>::create(b) }
pub fn r_l10_size() -> usize { <L10 as Struct>::SIZE_IN_BYTES }
pub fn r_l10_schema() -> &'static str { <L10 as Struct>::SCHEMA }
define_struct!(L11, RefL11, MutL11, "schema L11", 17,
    (f0, set_f0, i32, 0, 31),
    (f1, set_f1, i32, 31, 31),
    (f2, set_f2, u32, 64, 20),
    (f3, set_f3, u8, 90, 3),
    (f4, set_f4, u64, 96, 40));
pub fn r_l11_get0(d: &[u8]) -> i32 { <L11 as Struct>::create(d).f0() }
pub fn r_l11_mget0(d: &mut [u8]) -> i32 { <L11 as Struct>::create_mut(d).f0() }
pub fn r_l11_iref0(d: &mut [u8]) -> i32 { <L11 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l11_set0(d: &mut [u8], v: i32) { <L11 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l11_get1(d: &[u8]) -> i32 { <L11 as Struct>::create(d).f1() }
pub fn r_l11_mget1(d: &mut [u8]) -> i32 { <L11 as Struct>::create_mut(d).f1() }
pub fn r_l11_iref1(d: &mut [u8]) -> i32 { <L11 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l11_set1(d: &mut [u8], v: i32) { <L11 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l11_get2(d: &[u8]) -> u32 { <L11 as Struct>::create(d).f2() }
pub fn r_l11_mget2(d: &mut [u8]) -> u32 { <L11 as Struct>::create_mut(d).f2() }
pub fn r_l11_iref2(d: &mut [u8]) -> u32 { <L11 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l11_set2(d: &mut [u8], v: u32) { <L11 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l11_get3(d: &[u8]) -> u8 { <L11 as Struct>::create(d).f3() }
pub fn r_l11_mget3(d: &mut [u8]) -> u8 { <L11 as Struct>::create_mut(d).f3() }
pub fn r_l11_iref3(d: &mut [u8]) -> u8 { <L11 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l11_set3(d: &mut [u8], v: u8) { <L11 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l11_get4(d: &[u8]) -> u64 { <L11 as Struct>::create(d).f4() }
pub fn r_l11_mget4(d: &mut [u8]) -> u64 { <L11 as Struct>::create_mut(d).f4() }
pub fn r_l11_iref4(d: &mut [u8]) -> u64 { <L11 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l11_set4(d: &mut [u8], v: u64) { <L11 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l11_fill(d: &mut [u8], o: &[u8]) { <L11 as Struct>::create_mut(d).fill_from(&<L11 as Struct>::create(o)) }
pub fn r_l11_eq(a: &[u8], b: &[u8]) -> bool { <L11 as Struct>::create(a) == <L11 as Struct>::create(b) }
pub fn r_l11_size() -> usize { <L11 as Struct>::SIZE_IN_BYTES }
pub fn r_l11_schema() -> &'static str { <L11 as Struct>::SCHEMA }
define_struct!(L12, RefL12, MutL12, "schema L12", 18,
    (f0, set_f0, u8, 0, 3),
    (f1, set_f1, u64, 3, 61),
    (f2, set_f2, u32, 64, 17),
    (f3, set_f3, u64, 81, 63));
pub fn r_l12_get0(d: &[u8]) -> u8 { <L12 as Struct>::create(d).f0() }
pub fn r_l12_mget0(d: &mut [u8]) -> u8 { <L12 as Struct>::create_mut(d).f0() }
pub fn r_l12_iref0(d: &mut [u8]) -> u8 { <L12 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l12_set0(d: &mut [u8], v: u8) { <L12 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l12_get1(d: &[u8]) -> u64 { <L12 as Struct>::create(d).f1() }
pub fn r_l12_mget1(d: &mut [u8]) -> u64 { <L12 as Struct>::create_mut(d).f1() }
pub fn r_l12_iref1(d: &mut [u8]) -> u64 { <L12 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l12_set1(d: &mut [u8], v: u64) { <L12 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l12_get2(d: &[u8]) -> u32 { <L12 as Struct>::create(d).f2() }
pub fn r_l12_mget2(d: &mut [u8]) -> u32 { <L12 as Struct>::create_mut(d).f2() }
pub fn r_l12_iref2(d: &mut [u8]) -> u32 { <L12 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l12_set2(d: &mut [u8], v: u32) { <L12 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l12_get3(d: &[u8]) -> u64 { <L12 as Struct>::create(d).f3() }
pub fn r_l12_mget3(d: &mut [u8]) -> u64 { <L12 as Struct>::create_mut(d).f3() }
pub fn r_l12_iref3(d: &mut [u8]) -> u64 { <L12 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l12_set3(d: &mut [u8], v: u64) { <L12 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l12_fill(d: &mut [u8], o: &[u8]) { <L12 as Struct>::create_mut(d).fill_from(&<L12 as Struct>::create(o)) }
pub fn r_l12_eq(a: &[u8], b: &[u8]) -> bool { <L12 as Struct>::create(a) == <L12 as Struct>::create(b) }
pub fn r_l12_size() -> usize { <L12 as Struct>::SIZE_IN_BYTES }
pub fn r_l12_schema() -> &'static str { <L12 as Struct>::SCHEMA }
define_struct!(L13, RefL13, MutL13, "schema L13", 2,
    (f0, set_f0, u16, 5, 11));
pub fn r_l13_get0(d: &[u8]) -> u16 { <L13 as Struct>::create(d).f0() }
pub fn r_l13_mget0(d: &mut [u8]) -> u16 { <L13 as Struct>::create_mut(d).f0() }
pub fn r_l13_iref0(d: &mut [u8]) -> u16 { <L13 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l13_set0(d: &mut [u8], v: u16) { <L13 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l13_fill(d: &mut [u8], o: &[u8]) { <L13 as Struct>::create_mut(d).fill_from(&<L13 as Struct>::create(o)) }
pub fn r_l13_eq(a: &[u8], b: &[u8]) -> bool { <L13 as Struct>::create(a) == <L13 as Struct>::create(b) }
pub fn r_l13_size() -> usize { <L13 as Struct>::SIZE_IN_BYTES }
pub fn r_l13_schema() -> &'static str { <L13 as Struct>::SCHEMA }
define_struct!(L14, RefL14, MutL14, "schema L14", 32,
    (f0, set_f0, u64, 7, 57),
    (f1, set_f1, u64, 64, 58),
    (f2, set_f2, u64, 122, 62),
    (f3, set_f3, i64, 189, 60));
pub fn r_l14_get0(d: &[u8]) -> u64 { <L14 as Struct>::create(d).f0() }
pub fn r_l14_mget0(d: &mut [u8]) -> u64 { <L14 as Struct>::create_mut(d).f0() }
pub fn r_l14_iref0(d: &mut [u8]) -> u64 { <L14 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l14_set0(d: &mut [u8], v: u64) { <L14 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l14_get1(d: &[u8]) -> u64 { <L14 as Struct>::create(d).f1() }
pub fn r_l14_mget1(d: &mut [u8]) -> u64 { <L14 as Struct>::create_mut(d).f1() }
pub fn r_l14_iref1(d: &mut [u8]) -> u64 { <L14 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l14_set1(d: &mut [u8], v: u64) { <L14 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l14_get2(d: &[u8]) -> u64 { <L14 as Struct>::create(d).f2() }
pub fn r_l14_mget2(d: &mut [u8]) -> u64 { <L14 as Struct>::create_mut(d).f2() }
pub fn r_l14_iref2(d: &mut [u8]) -> u64 { <L14 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l14_set2(d: &mut [u8], v: u64) { <L14 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l14_get3(d: &[u8]) -> i64 { <L14 as Struct>::create(d).f3() }
pub fn r_l14_mget3(d: &mut [u8]) -> i64 { <L14 as Struct>::create_mut(d).f3() }
pub fn r_l14_iref3(d: &mut [u8]) -> i64 { <L14 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l14_set3(d: &mut [u8], v: i64) { <L14 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l14_fill(d: &mut [u8], o: &[u8]) { <L14 as Struct>::create_mut(d).fill_from(&<L14 as Struct>::create(o)) }
pub fn r_l14_eq(a: &[u8], b: &[u8]) -> bool { <L14 as Struct>::create(a) == <L14 as Struct>::create(b) }
pub fn r_l14_size() -> usize { <L14 as Struct>::SIZE_IN_BYTES }
pub fn r_l14_schema() -> &'static str { <L14 as Struct>::SCHEMA }
define_struct!(L15, RefL15, MutL15, "schema L15", 10,
    (f0, set_f0, u32: u32, 0, 3),
    (f1, set_f1, i64: i64, 11, 27),
    (f2, set_f2, E3: u8, 38, 3),
    (f3, set_f3, i64: i64, 41, 24),
    (f4, set_f4, i16: i16, 65, 10),
    (f5, set_f5, E2: u8, 77, 2));
pub fn r_l15_get0(d: &[u8]) -> u32 { <L15 as Struct>::create(d).f0() }
pub fn r_l15_mget0(d: &mut [u8]) -> u32 { <L15 as Struct>::create_mut(d).f0() }
pub fn r_l15_iref0(d: &mut [u8]) -> u32 { <L15 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l15_set0(d: &mut [u8], v: u32) { <L15 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l15_get1(d: &[u8]) -> i64 { <L15 as Struct>::create(d).f1() }
pub fn r_l15_mget1(d: &mut [u8]) -> i64 { <L15 as Struct>::create_mut(d).f1() }
pub fn r_l15_iref1(d: &mut [u8]) -> i64 { <L15 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l15_set1(d: &mut [u8], v: i64) { <L15 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l15_get2(d: &[u8]) -> E3 { <L15 as Struct>::create(d).f2() }
pub fn r_l15_mget2(d: &mut [u8]) -> E3 { <L15 as Struct>::create_mut(d).f2() }
pub fn r_l15_iref2(d: &mut [u8]) -> E3 { <L15 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l15_set2(d: &mut [u8], v: E3) { <L15 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l15_get3(d: &[u8]) -> i64 { <L15 as Struct>::create(d).f3() }
pub fn r_l15_mget3(d: &mut [u8]) -> i64 { <L15 as Struct>::create_mut(d).f3() }
pub fn r_l15_iref3(d: &mut [u8]) -> i64 { <L15 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l15_set3(d: &mut [u8], v: i64) { <L15 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l15_get4(d: &[u8]) -> i16 { <L15 as Struct>::create(d).f4() }
pub fn r_l15_mget4(d: &mut [u8]) -> i16 { <L15 as Struct>::create_mut(d).f4() }
pub fn r_l15_iref4(d: &mut [u8]) -> i16 { <L15 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l15_set4(d: &mut [u8], v: i16) { <L15 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l15_get5(d: &[u8]) -> E2 { <L15 as Struct>::create(d).f5() }
pub fn r_l15_mget5(d: &mut [u8]) -> E2 { <L15 as Struct>::create_mut(d).f5() }
pub fn r_l15_iref5(d: &mut [u8]) -> E2 { <L15 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l15_set5(d: &mut [u8], v: E2) { <L15 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l15_fill(d: &mut [u8], o: &[u8]) { <L15 as Struct>::create_mut(d).fill_from(&<L15 as Struct>::create(o)) }
pub fn r_l15_eq(a: &[u8], b: &[u8]) -> bool { <L15 as Struct>::create(a) == <L15 as Struct>::create(b) }
pub fn r_l15_size() -> usize { <L15 as Struct>::SIZE_IN_BYTES }
pub fn r_l15_schema() -> &'static str { <L15 as Struct>::SCHEMA }
define_struct!(L16, RefL16, MutL16, "schema L16", 5,
    (f0, set_f0, E2: u8, 0, 2),
    (f1, set_f1, u16: u16, 2, 3),
    (f2, set_f2, i64: i64, 5, 32),
    (f3, set_f3, E2: u8, 37, 2));
pub fn r_l16_get0(d: &[u8]) -> E2 { <L16 as Struct>::create(d).f0() }
pub fn r_l16_mget0(d: &mut [u8]) -> E2 { <L16 as Struct>::create_mut(d).f0() }
pub fn r_l16_iref0(d: &mut [u8]) -> E2 { <L16 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l16_set0(d: &mut [u8], v: E2) { <L16 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l16_get1(d: &[u8]) -> u16 { <L16 as Struct>::create(d).f1() }
pub fn r_l16_mget1(d: &mut [u8]) -> u16 { <L16 as Struct>::create_mut(d).f1() }
pub fn r_l16_iref1(d: &mut [u8]) -> u16 { <L16 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l16_set1(d: &mut [u8], v: u16) { <L16 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l16_get2(d: &[u8]) -> i64 { <L16 as Struct>::create(d).f2() }
pub fn r_l16_mget2(d: &mut [u8]) -> i64 { <L16 as Struct>::create_mut(d).f2() }
pub fn r_l16_iref2(d: &mut [u8]) -> i64 { <L16 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l16_set2(d: &mut [u8], v: i64) { <L16 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l16_get3(d: &[u8]) -> E2 { <L16 as Struct>::create(d).f3() }
pub fn r_l16_mget3(d: &mut [u8]) -> E2 { <L16 as Struct>::create_mut(d).f3() }
pub fn r_l16_iref3(d: &mut [u8]) -> E2 { <L16 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l16_set3(d: &mut [u8], v: E2) { <L16 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l16_fill(d: &mut [u8], o: &[u8]) { <L16 as Struct>::create_mut(d).fill_from(&<L16 as Struct>::create(o)) }
pub fn r_l16_eq(a: &[u8], b: &[u8]) -> bool { <L16 as Struct>::create(a) == <L16 as Struct>::create(b) }
pub fn r_l16_size() -> usize { <L16 as Struct>::SIZE_IN_BYTES }
pub fn r_l16_schema() -> &'static str { <L16 as Struct>::SCHEMA }
define_struct!(L17, RefL17, MutL17, "schema L17", 9,
    (f0, set_f0, E3: u8, 5, 3),
    (f1, set_f1, u16: u16, 12, 11),
    (f2, set_f2, u64: u64, 23, 45));
pub fn r_l17_get0(d: &[u8]) -> E3 { <L17 as Struct>::create(d).f0() }
pub fn r_l17_mget0(d: &mut [u8]) -> E3 { <L17 as Struct>::create_mut(d).f0() }
pub fn r_l17_iref0(d: &mut [u8]) -> E3 { <L17 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l17_set0(d: &mut [u8], v: E3) { <L17 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l17_get1(d: &[u8]) -> u16 { <L17 as Struct>::create(d).f1() }
pub fn r_l17_mget1(d: &mut [u8]) -> u16 { <L17 as Struct>::create_mut(d).f1() }
pub fn r_l17_iref1(d: &mut [u8]) -> u16 { <L17 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l17_set1(d: &mut [u8], v: u16) { <L17 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l17_get2(d: &[u8]) -> u64 { <L17 as Struct>::create(d).f2() }
pub fn r_l17_mget2(d: &mut [u8]) -> u64 { <L17 as Struct>::create_mut(d).f2() }
pub fn r_l17_iref2(d: &mut [u8]) -> u64 { <L17 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l17_set2(d: &mut [u8], v: u64) { <L17 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l17_fill(d: &mut [u8], o: &[u8]) { <L17 as Struct>::create_mut(d).fill_from(&<L17 as Struct>::create(o)) }
pub fn r_l17_eq(a: &[u8], b: &[u8]) -> bool { <L17 as Struct>::create(a) == <L17 as Struct>::create(b) }
pub fn r_l17_size() -> usize { <L17 as Struct>::SIZE_IN_BYTES }
pub fn r_l17_schema() -> &'static str { <L17 as Struct>::SCHEMA }
define_struct!(L18, RefL18, MutL18, "schema L18", 9,
    (f0, set_f0, u8, 0, 4),
    (f1, set_f1, i64, 4, 42),
    (f2, set_f2, u64, 46, 2),
    (f3, set_f3, i64, 48, 18));
pub fn r_l18_get0(d: &[u8]) -> u8 { <L18 as Struct>::create(d).f0() }
pub fn r_l18_mget0(d: &mut [u8]) -> u8 { <L18 as Struct>::create_mut(d).f0() }
pub fn r_l18_iref0(d: &mut [u8]) -> u8 { <L18 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l18_set0(d: &mut [u8], v: u8) { <L18 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l18_get1(d: &[u8]) -> i64 { <L18 as Struct>::create(d).f1() }
pub fn r_l18_mget1(d: &mut [u8]) -> i64 { <L18 as Struct>::create_mut(d).f1() }
pub fn r_l18_iref1(d: &mut [u8]) -> i64 { <L18 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l18_set1(d: &mut [u8], v: i64) { <L18 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l18_get2(d: &[u8]) -> u64 { <L18 as Struct>::create(d).f2() }
pub fn r_l18_mget2(d: &mut [u8]) -> u64 { <L18 as Struct>::create_mut(d).f2() }
pub fn r_l18_iref2(d: &mut [u8]) -> u64 { <L18 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l18_set2(d: &mut [u8], v: u64) { <L18 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l18_get3(d: &[u8]) -> i64 { <L18 as Struct>::create(d).f3() }
pub fn r_l18_mget3(d: &mut [u8]) -> i64 { <L18 as Struct>::create_mut(d).f3() }
pub fn r_l18_iref3(d: &mut [u8]) -> i64 { <L18 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l18_set3(d: &mut [u8], v: i64) { <L18 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l18_fill(d: &mut [u8], o: &[u8]) { <L18 as Struct>::create_mut(d).fill_from(&<L18 as Struct>::create(o)) }
pub fn r_l18_eq(a: &[u8], b: &[u8]) -> bool { <L18 as Struct>::create(a) == <L18 as Struct>::create(b) }
pub fn r_l18_size() -> usize { <L18 as Struct>::SIZE_IN_BYTES }
pub fn r_l18_schema() -> &'static str { <L18 as Struct>::SCHEMA }
define_struct!(L19, RefL19, MutL19, "schema L19", 5,
    (f0, set_f0, u32, 0, 14),
    (f1, set_f1, i8, 14, 2),
    (f2, set_f2, u16, 24, 14),
    (f3, set_f3, bool, 38, 1));
pub fn r_l19_get0(d: &[u8]) -> u32 { <L19 as Struct>::create(d).f0() }
pub fn r_l19_mget0(d: &mut [u8]) -> u32 { <L19 as Struct>::create_mut(d).f0() }
pub fn r_l19_iref0(d: &mut [u8]) -> u32 { <L19 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l19_set0(d: &mut [u8], v: u32) { <L19 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l19_get1(d: &[u8]) -> i8 { <L19 as Struct>::create(d).f1() }
pub fn r_l19_mget1(d: &mut [u8]) -> i8 { <L19 as Struct>::create_mut(d).f1() }
pub fn r_l19_iref1(d: &mut [u8]) -> i8 { <L19 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l19_set1(d: &mut [u8], v: i8) { <L19 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l19_get2(d: &[u8]) -> u16 { <L19 as Struct>::create(d).f2() }
pub fn r_l19_mget2(d: &mut [u8]) -> u16 { <L19 as Struct>::create_mut(d).f2() }
pub fn r_l19_iref2(d: &mut [u8]) -> u16 { <L19 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l19_set2(d: &mut [u8], v: u16) { <L19 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l19_get3(d: &[u8]) -> bool { <L19 as Struct>::create(d).f3() }
pub fn r_l19_mget3(d: &mut [u8]) -> bool { <L19 as Struct>::create_mut(d).f3() }
pub fn r_l19_iref3(d: &mut [u8]) -> bool { <L19 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l19_set3(d: &mut [u8], v: bool) { <L19 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l19_fill(d: &mut [u8], o: &[u8]) { <L19 as Struct>::create_mut(d).fill_from(&<L19 as Struct>::create(o)) }
pub fn r_l19_eq(a: &[u8], b: &[u8]) -> bool { <L19 as Struct>::create(a) == <L19 as Struct>::create(b) }
pub fn r_l19_size() -> usize { <L19 as Struct>::SIZE_IN_BYTES }
pub fn r_l19_schema() -> &'static str { <L19 as Struct>::SCHEMA }
define_struct!(L20, RefL20, MutL20, "schema L20", 4,
    (f0, set_f0, E2: u8, 5, 2),
    (f1, set_f1, E3: u8, 7, 3),
    (f2, set_f2, u64: u64, 10, 3),
    (f3, set_f3, E2: u8, 13, 2),
    (f4, set_f4, i32: i32, 15, 3),
    (f5, set_f5, i8: i8, 18, 4),
    (f6, set_f6, i16: i16, 22, 8));
pub fn r_l20_get0(d: &[u8]) -> E2 { <L20 as Struct>::create(d).f0() }
pub fn r_l20_mget0(d: &mut [u8]) -> E2 { <L20 as Struct>::create_mut(d).f0() }
pub fn r_l20_iref0(d: &mut [u8]) -> E2 { <L20 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l20_set0(d: &mut [u8], v: E2) { <L20 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l20_get1(d: &[u8]) -> E3 { <L20 as Struct>::create(d).f1() }
pub fn r_l20_mget1(d: &mut [u8]) -> E3 { <L20 as Struct>::create_mut(d).f1() }
pub fn r_l20_iref1(d: &mut [u8]) -> E3 { <L20 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l20_set1(d: &mut [u8], v: E3) { <L20 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l20_get2(d: &[u8]) -> u64 { <L20 as Struct>::create(d).f2() }
pub fn r_l20_mget2(d: &mut [u8]) -> u64 { <L20 as Struct>::create_mut(d).f2() }
pub fn r_l20_iref2(d: &mut [u8]) -> u64 { <L20 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l20_set2(d: &mut [u8], v: u64) { <L20 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l20_get3(d: &[u8]) -> E2 { <L20 as Struct>::create(d).f3() }
pub fn r_l20_mget3(d: &mut [u8]) -> E2 { <L20 as Struct>::create_mut(d).f3() }
pub fn r_l20_iref3(d: &mut [u8]) -> E2 { <L20 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l20_set3(d: &mut [u8], v: E2) { <L20 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l20_get4(d: &[u8]) -> i32 { <L20 as Struct>::create(d).f4() }
pub fn r_l20_mget4(d: &mut [u8]) -> i32 { <L20 as Struct>::create_mut(d).f4() }
pub fn r_l20_iref4(d: &mut [u8]) -> i32 { <L20 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l20_set4(d: &mut [u8], v: i32) { <L20 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l20_get5(d: &[u8]) -> i8 { <L20 as Struct>::create(d).f5() }
pub fn r_l20_mget5(d: &mut [u8]) -> i8 { <L20 as Struct>::create_mut(d).f5() }
pub fn r_l20_iref5(d: &mut [u8]) -> i8 { <L20 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l20_set5(d: &mut [u8], v: i8) { <L20 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l20_get6(d: &[u8]) -> i16 { <L20 as Struct>::create(d).f6() }
pub fn r_l20_mget6(d: &mut [u8]) -> i16 { <L20 as Struct>::create_mut(d).f6() }
pub fn r_l20_iref6(d: &mut [u8]) -> i16 { <L20 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l20_set6(d: &mut [u8], v: i16) { <L20 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l20_fill(d: &mut [u8], o: &[u8]) { <L20 as Struct>::create_mut(d).fill_from(&<L20 as Struct>::create(o)) }
pub fn r_l20_eq(a: &[u8], b: &[u8]) -> bool { <L20 as Struct>::create(a) == <L20 as Struct>::create(b) }
pub fn r_l20_size() -> usize { <L20 as Struct>::SIZE_IN_BYTES }
pub fn r_l20_schema() -> &'static str { <L20 as Struct>::SCHEMA }
define_struct!(L21, RefL21, MutL21, "schema L21", 19,
    (f0, set_f0, i64: i64, 0, 50),
    (f1, set_f1, u8: u8, 50, 7),
    (f2, set_f2, E2: u8, 57, 2),
    (f3, set_f3, i32: i32, 59, 26),
    (f4, set_f4, E2: u8, 92, 2),
    (f5, set_f5, u64: u64, 100, 36),
    (f6, set_f6, i16: i16, 136, 11));
pub fn r_l21_get0(d: &[u8]) -> i64 { <L21 as Struct>::create(d).f0() }
pub fn r_l21_mget0(d: &mut [u8]) -> i64 { <L21 as Struct>::create_mut(d).f0() }
pub fn r_l21_iref0(d: &mut [u8]) -> i64 { <L21 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l21_set0(d: &mut [u8], v: i64) { <L21 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l21_get1(d: &[u8]) -> u8 { <L21 as Struct>::create(d).f1() }
pub fn r_l21_mget1(d: &mut [u8]) -> u8 { <L21 as Struct>::create_mut(d).f1() }
pub fn r_l21_iref1(d: &mut [u8]) -> u8 { <L21 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l21_set1(d: &mut [u8], v: u8) { <L21 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l21_get2(d: &[u8]) -> E2 { <L21 as Struct>::create(d).f2() }
pub fn r_l21_mget2(d: &mut [u8]) -> E2 { <L21 as Struct>::create_mut(d).f2() }
pub fn r_l21_iref2(d: &mut [u8]) -> E2 { <L21 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l21_set2(d: &mut [u8], v: E2) { <L21 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l21_get3(d: &[u8]) -> i32 { <L21 as Struct>::create(d).f3() }
pub fn r_l21_mget3(d: &mut [u8]) -> i32 { <L21 as Struct>::create_mut(d).f3() }
pub fn r_l21_iref3(d: &mut [u8]) -> i32 { <L21 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l21_set3(d: &mut [u8], v: i32) { <L21 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l21_get4(d: &[u8]) -> E2 { <L21 as Struct>::create(d).f4() }
pub fn r_l21_mget4(d: &mut [u8]) -> E2 { <L21 as Struct>::create_mut(d).f4() }
pub fn r_l21_iref4(d: &mut [u8]) -> E2 { <L21 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l21_set4(d: &mut [u8], v: E2) { <L21 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l21_get5(d: &[u8]) -> u64 { <L21 as Struct>::create(d).f5() }
pub fn r_l21_mget5(d: &mut [u8]) -> u64 { <L21 as Struct>::create_mut(d).f5() }
pub fn r_l21_iref5(d: &mut [u8]) -> u64 { <L21 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l21_set5(d: &mut [u8], v: u64) { <L21 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l21_get6(d: &[u8]) -> i16 { <L21 as Struct>::create(d).f6() }
pub fn r_l21_mget6(d: &mut [u8]) -> i16 { <L21 as Struct>::create_mut(d).f6() }
pub fn r_l21_iref6(d: &mut [u8]) -> i16 { <L21 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l21_set6(d: &mut [u8], v: i16) { <L21 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l21_fill(d: &mut [u8], o: &[u8]) { <L21 as Struct>::create_mut(d).fill_from(&<L21 as Struct>::create(o)) }
pub fn r_l21_eq(a: &[u8], b: &[u8]) -> bool { <L21 as Struct>::create(a) == <L21 as Struct>::create(b) }
pub fn r_l21_size() -> usize { <L21 as Struct>::SIZE_IN_BYTES }
pub fn r_l21_schema() -> &'static str { <L21 as Struct>::SCHEMA }
define_struct!(L22, RefL22, MutL22, "schema L22", 9,
    (f0, set_f0, u32, 0, 22),
    (f1, set_f1, i8, 30, 4),
    (f2, set_f2, u64, 34, 15),
    (f3, set_f3, u32, 55, 4),
    (f4, set_f4, u32, 67, 3));
pub fn r_l22_get0(d: &[u8]) -> u32 { <L22 as Struct>::create(d).f0() }
pub fn r_l22_mget0(d: &mut [u8]) -> u32 { <L22 as Struct>::create_mut(d).f0() }
pub fn r_l22_iref0(d: &mut [u8]) -> u32 { <L22 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l22_set0(d: &mut [u8], v: u32) { <L22 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l22_get1(d: &[u8]) -> i8 { <L22 as Struct>::create(d).f1() }
pub fn r_l22_mget1(d: &mut [u8]) -> i8 { <L22 as Struct>::create_mut(d).f1() }
pub fn r_l22_iref1(d: &mut [u8]) -> i8 { <L22 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l22_set1(d: &mut [u8], v: i8) { <L22 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l22_get2(d: &[u8]) -> u64 { <L22 as Struct>::create(d).f2() }
pub fn r_l22_mget2(d: &mut [u8]) -> u64 { <L22 as Struct>::create_mut(d).f2() }
pub fn r_l22_iref2(d: &mut [u8]) -> u64 { <L22 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l22_set2(d: &mut [u8], v: u64) { <L22 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l22_get3(d: &[u8]) -> u32 { <L22 as Struct>::create(d).f3() }
pub fn r_l22_mget3(d: &mut [u8]) -> u32 { <L22 as Struct>::create_mut(d).f3() }
pub fn r_l22_iref3(d: &mut [u8]) -> u32 { <L22 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l22_set3(d: &mut [u8], v: u32) { <L22 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l22_get4(d: &[u8]) -> u32 { <L22 as Struct>::create(d).f4() }
pub fn r_l22_mget4(d: &mut [u8]) -> u32 { <L22 as Struct>::create_mut(d).f4() }
pub fn r_l22_iref4(d: &mut [u8]) -> u32 { <L22 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l22_set4(d: &mut [u8], v: u32) { <L22 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l22_fill(d: &mut [u8], o: &[u8]) { <L22 as Struct>::create_mut(d).fill_from(&<L22 as Struct>::create(o)) }
pub fn r_l22_eq(a: &[u8], b: &[u8]) -> bool { <L22 as Struct>::create(a) == <L22 as Struct>::create(b) }
pub fn r_l22_size() -> usize { <L22 as Struct>::SIZE_IN_BYTES }
pub fn r_l22_schema() -> &'static str { <L22 as Struct>::SCHEMA }
define_struct!(L23, RefL23, MutL23, "schema L23", 8,
    (f0, set_f0, u32, 0, 6),
    (f1, set_f1, i8, 6, 3),
    (f2, set_f2, i16, 17, 8),
    (f3, set_f3, i64, 25, 33));
pub fn r_l23_get0(d: &[u8]) -> u32 { <L23 as Struct>::create(d).f0() }
pub fn r_l23_mget0(d: &mut [u8]) -> u32 { <L23 as Struct>::create_mut(d).f0() }
pub fn r_l23_iref0(d: &mut [u8]) -> u32 { <L23 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l23_set0(d: &mut [u8], v: u32) { <L23 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l23_get1(d: &[u8]) -> i8 { <L23 as Struct>::create(d).f1() }
pub fn r_l23_mget1(d: &mut [u8]) -> i8 { <L23 as Struct>::create_mut(d).f1() }
pub fn r_l23_iref1(d: &mut [u8]) -> i8 { <L23 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l23_set1(d: &mut [u8], v: i8) { <L23 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l23_get2(d: &[u8]) -> i16 { <L23 as Struct>::create(d).f2() }
pub fn r_l23_mget2(d: &mut [u8]) -> i16 { <L23 as Struct>::create_mut(d).f2() }
pub fn r_l23_iref2(d: &mut [u8]) -> i16 { <L23 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l23_set2(d: &mut [u8], v: i16) { <L23 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l23_get3(d: &[u8]) -> i64 { <L23 as Struct>::create(d).f3() }
pub fn r_l23_mget3(d: &mut [u8]) -> i64 { <L23 as Struct>::create_mut(d).f3() }
pub fn r_l23_iref3(d: &mut [u8]) -> i64 { <L23 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l23_set3(d: &mut [u8], v: i64) { <L23 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l23_fill(d: &mut [u8], o: &[u8]) { <L23 as Struct>::create_mut(d).fill_from(&<L23 as Struct>::create(o)) }
pub fn r_l23_eq(a: &[u8], b: &[u8]) -> bool { <L23 as Struct>::create(a) == <L23 as Struct>::create(b) }
pub fn r_l23_size() -> usize { <L23 as Struct>::SIZE_IN_BYTES }
pub fn r_l23_schema() -> &'static str { <L23 as Struct>::SCHEMA }
define_struct!(L24, RefL24, MutL24, "schema L24", 13,
    (f0, set_f0, u16, 0, 4),
    (f1, set_f1, i32, 4, 18),
    (f2, set_f2, u64, 22, 7),
    (f3, set_f3, u64, 29, 46),
    (f4, set_f4, u8, 81, 7),
    (f5, set_f5, u32, 88, 15));
pub fn r_l24_get0(d: &[u8]) -> u16 { <L24 as Struct>::create(d).f0() }
pub fn r_l24_mget0(d: &mut [u8]) -> u16 { <L24 as Struct>::create_mut(d).f0() }
pub fn r_l24_iref0(d: &mut [u8]) -> u16 { <L24 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l24_set0(d: &mut [u8], v: u16) { <L24 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l24_get1(d: &[u8]) -> i32 { <L24 as Struct>::create(d).f1() }
pub fn r_l24_mget1(d: &mut [u8]) -> i32 { <L24 as Struct>::create_mut(d).f1() }
pub fn r_l24_iref1(d: &mut [u8]) -> i32 { <L24 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l24_set1(d: &mut [u8], v: i32) { <L24 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l24_get2(d: &[u8]) -> u64 { <L24 as Struct>::create(d).f2() }
pub fn r_l24_mget2(d: &mut [u8]) -> u64 { <L24 as Struct>::create_mut(d).f2() }
pub fn r_l24_iref2(d: &mut [u8]) -> u64 { <L24 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l24_set2(d: &mut [u8], v: u64) { <L24 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l24_get3(d: &[u8]) -> u64 { <L24 as Struct>::create(d).f3() }
pub fn r_l24_mget3(d: &mut [u8]) -> u64 { <L24 as Struct>::create_mut(d).f3() }
pub fn r_l24_iref3(d: &mut [u8]) -> u64 { <L24 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l24_set3(d: &mut [u8], v: u64) { <L24 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l24_get4(d: &[u8]) -> u8 { <L24 as Struct>::create(d).f4() }
pub fn r_l24_mget4(d: &mut [u8]) -> u8 { <L24 as Struct>::create_mut(d).f4() }
pub fn r_l24_iref4(d: &mut [u8]) -> u8 { <L24 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l24_set4(d: &mut [u8], v: u8) { <L24 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l24_get5(d: &[u8]) -> u32 { <L24 as Struct>::create(d).f5() }
pub fn r_l24_mget5(d: &mut [u8]) -> u32 { <L24 as Struct>::create_mut(d).f5() }
pub fn r_l24_iref5(d: &mut [u8]) -> u32 { <L24 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l24_set5(d: &mut [u8], v: u32) { <L24 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l24_fill(d: &mut [u8], o: &[u8]) { <L24 as Struct>::create_mut(d).fill_from(&<L24 as Struct>::create(o)) }
pub fn r_l24_eq(a: &[u8], b: &[u8]) -> bool { <L24 as Struct>::create(a) == <L24 as Struct>::create(b) }
pub fn r_l24_size() -> usize { <L24 as Struct>::SIZE_IN_BYTES }
pub fn r_l24_schema() -> &'static str { <L24 as Struct>::SCHEMA }
define_struct!(L25, RefL25, MutL25, "schema L25", 7,
    (f0, set_f0, u64: u64, 7, 2),
    (f1, set_f1, E3: u8, 16, 3),
    (f2, set_f2, bool: bool, 21, 1),
    (f3, set_f3, i32: i32, 22, 4),
    (f4, set_f4, bool: bool, 31, 1),
    (f5, set_f5, u8: u8, 32, 6),
    (f6, set_f6, u32: u32, 38, 11));
pub fn r_l25_get0(d: &[u8]) -> u64 { <L25 as Struct>::create(d).f0() }
pub fn r_l25_mget0(d: &mut [u8]) -> u64 { <L25 as Struct>::create_mut(d).f0() }
pub fn r_l25_iref0(d: &mut [u8]) -> u64 { <L25 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l25_set0(d: &mut [u8], v: u64) { <L25 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l25_get1(d: &[u8]) -> E3 { <L25 as Struct>::create(d).f1() }
pub fn r_l25_mget1(d: &mut [u8]) -> E3 { <L25 as Struct>::create_mut(d).f1() }
pub fn r_l25_iref1(d: &mut [u8]) -> E3 { <L25 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l25_set1(d: &mut [u8], v: E3) { <L25 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l25_get2(d: &[u8]) -> bool { <L25 as Struct>::create(d).f2() }
pub fn r_l25_mget2(d: &mut [u8]) -> bool { <L25 as Struct>::create_mut(d).f2() }
pub fn r_l25_iref2(d: &mut [u8]) -> bool { <L25 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l25_set2(d: &mut [u8], v: bool) { <L25 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l25_get3(d: &[u8]) -> i32 { <L25 as Struct>::create(d).f3() }
pub fn r_l25_mget3(d: &mut [u8]) -> i32 { <L25 as Struct>::create_mut(d).f3() }
pub fn r_l25_iref3(d: &mut [u8]) -> i32 { <L25 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l25_set3(d: &mut [u8], v: i32) { <L25 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l25_get4(d: &[u8]) -> bool { <L25 as Struct>::create(d).f4() }
pub fn r_l25_mget4(d: &mut [u8]) -> bool { <L25 as Struct>::create_mut(d).f4() }
pub fn r_l25_iref4(d: &mut [u8]) -> bool { <L25 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l25_set4(d: &mut [u8], v: bool) { <L25 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l25_get5(d: &[u8]) -> u8 { <L25 as Struct>::create(d).f5() }
pub fn r_l25_mget5(d: &mut [u8]) -> u8 { <L25 as Struct>::create_mut(d).f5() }
pub fn r_l25_iref5(d: &mut [u8]) -> u8 { <L25 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l25_set5(d: &mut [u8], v: u8) { <L25 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l25_get6(d: &[u8]) -> u32 { <L25 as Struct>::create(d).f6() }
pub fn r_l25_mget6(d: &mut [u8]) -> u32 { <L25 as Struct>::create_mut(d).f6() }
pub fn r_l25_iref6(d: &mut [u8]) -> u32 { <L25 as Struct>::create_mut(d).into_ref().f6() }
pub fn r_l25_set6(d: &mut [u8], v: u32) { <L25 as Struct>::create_mut(d).set_f6(v) }
pub fn r_l25_fill(d: &mut [u8], o: &[u8]) { <L25 as Struct>::create_mut(d).fill_from(&<L25 as Struct>::create(o)) }
pub fn r_l25_eq(a: &[u8], b: &[u8]) -> bool { <L25 as Struct>::create(a) == <L25 as Struct>::create(b) }
pub fn r_l25_size() -> usize { <L25 as Struct>::SIZE_IN_BYTES }
pub fn r_l25_schema() -> &'static str { <L25 as Struct>::SCHEMA }
define_struct!(L26, RefL26, MutL26, "schema L26", 13,
    (f0, set_f0, E3: u8, 0, 3),
    (f1, set_f1, i64: i64, 3, 30),
    (f2, set_f2, u64: u64, 33, 14),
    (f3, set_f3, i64: i64, 55, 42),
    (f4, set_f4, u8: u8, 97, 2),
    (f5, set_f5, u8: u8, 99, 2));
pub fn r_l26_get0(d: &[u8]) -> E3 { <L26 as Struct>::create(d).f0() }
pub fn r_l26_mget0(d: &mut [u8]) -> E3 { <L26 as Struct>::create_mut(d).f0() }
pub fn r_l26_iref0(d: &mut [u8]) -> E3 { <L26 as Struct>::create_mut(d).into_ref().f0() }
pub fn r_l26_set0(d: &mut [u8], v: E3) { <L26 as Struct>::create_mut(d).set_f0(v) }
pub fn r_l26_get1(d: &[u8]) -> i64 { <L26 as Struct>::create(d).f1() }
pub fn r_l26_mget1(d: &mut [u8]) -> i64 { <L26 as Struct>::create_mut(d).f1() }
pub fn r_l26_iref1(d: &mut [u8]) -> i64 { <L26 as Struct>::create_mut(d).into_ref().f1() }
pub fn r_l26_set1(d: &mut [u8], v: i64) { <L26 as Struct>::create_mut(d).set_f1(v) }
pub fn r_l26_get2(d: &[u8]) -> u64 { <L26 as Struct>::create(d).f2() }
pub fn r_l26_mget2(d: &mut [u8]) -> u64 { <L26 as Struct>::create_mut(d).f2() }
pub fn r_l26_iref2(d: &mut [u8]) -> u64 { <L26 as Struct>::create_mut(d).into_ref().f2() }
pub fn r_l26_set2(d: &mut [u8], v: u64) { <L26 as Struct>::create_mut(d).set_f2(v) }
pub fn r_l26_get3(d: &[u8]) -> i64 { <L26 as Struct>::create(d).f3() }
pub fn r_l26_mget3(d: &mut [u8]) -> i64 { <L26 as Struct>::create_mut(d).f3() }
pub fn r_l26_iref3(d: &mut [u8]) -> i64 { <L26 as Struct>::create_mut(d).into_ref().f3() }
pub fn r_l26_set3(d: &mut [u8], v: i64) { <L26 as Struct>::create_mut(d).set_f3(v) }
pub fn r_l26_get4(d: &[u8]) -> u8 { <L26 as Struct>::create(d).f4() }
pub fn r_l26_mget4(d: &mut [u8]) -> u8 { <L26 as Struct>::create_mut(d).f4() }
pub fn r_l26_iref4(d: &mut [u8]) -> u8 { <L26 as Struct>::create_mut(d).into_ref().f4() }
pub fn r_l26_set4(d: &mut [u8], v: u8) { <L26 as Struct>::create_mut(d).set_f4(v) }
pub fn r_l26_get5(d: &[u8]) -> u8 { <L26 as Struct>::create(d).f5() }
pub fn r_l26_mget5(d: &mut [u8]) -> u8 { <L26 as Struct>::create_mut(d).f5() }
pub fn r_l26_iref5(d: &mut [u8]) -> u8 { <L26 as Struct>::create_mut(d).into_ref().f5() }
pub fn r_l26_set5(d: &mut [u8], v: u8) { <L26 as Struct>::create_mut(d).set_f5(v) }
pub fn r_l26_fill(d: &mut [u8], o: &[u8]) { <L26 as Struct>::create_mut(d).fill_from(&<L26 as Struct>::create(o)) }
pub fn r_l26_eq(a: &[u8], b: &[u8]) -> bool { <L26 as Struct>::create(a) == <L26 as Struct>::create(b) }
pub fn r_l26_size() -> usize { <L26 as Struct>::SIZE_IN_BYTES }
pub fn r_l26_schema() -> &'static str { <L26 as Struct>::SCHEMA }
define_index!(Ix8, RefIx8, MutIx8, "index Ix8", 1, 8);
pub fn r_ix8_index(d: &[u8]) -> usize { <Ix8 as IndexStruct>::index(<Ix8 as Struct>::create(d)) }
pub fn r_ix8_set(d: &mut [u8], v: usize) { <Ix8 as IndexStruct>::set_index(<Ix8 as Struct>::create_mut(d), v) }
define_index!(Ix9, RefIx9, MutIx9, "index Ix9", 2, 9);
pub fn r_ix9_index(d: &[u8]) -> usize { <Ix9 as IndexStruct>::index(<Ix9 as Struct>::create(d)) }
pub fn r_ix9_set(d: &mut [u8], v: usize) { <Ix9 as IndexStruct>::set_index(<Ix9 as Struct>::create_mut(d), v) }
define_index!(Ix31, RefIx31, MutIx31, "index Ix31", 4, 31);
pub fn r_ix31_index(d: &[u8]) -> usize { <Ix31 as IndexStruct>::index(<Ix31 as Struct>::create(d)) }
pub fn r_ix31_set(d: &mut [u8], v: usize) { <Ix31 as IndexStruct>::set_index(<Ix31 as Struct>::create_mut(d), v) }
define_index!(Ix32, RefIx32, MutIx32, "index Ix32", 4, 32);
pub fn r_ix32_index(d: &[u8]) -> usize { <Ix32 as IndexStruct>::index(<Ix32 as Struct>::create(d)) }
pub fn r_ix32_set(d: &mut [u8], v: usize) { <Ix32 as IndexStruct>::set_index(<Ix32 as Struct>::create_mut(d), v) }
define_index!(Ix33, RefIx33, MutIx33, "index Ix33", 5, 33);
pub fn r_ix33_index(d: &[u8]) -> usize { <Ix33 as IndexStruct>::index(<Ix33 as Struct>::create(d)) }
pub fn r_ix33_set(d: &mut [u8], v: usize) { <Ix33 as IndexStruct>::set_index(<Ix33 as Struct>::create_mut(d), v) }
define_index!(Ix40, RefIx40, MutIx40, "index Ix40", 5, 40);
pub fn r_ix40_index(d: &[u8]) -> usize { <Ix40 as IndexStruct>::index(<Ix40 as Struct>::create(d)) }
pub fn r_ix40_set(d: &mut [u8], v: usize) { <Ix40 as IndexStruct>::set_index(<Ix40 as Struct>::create_mut(d), v) }
define_index!(Ix57, RefIx57, MutIx57, "index Ix57", 8, 57);
pub fn r_ix57_index(d: &[u8]) -> usize { <Ix57 as IndexStruct>::index(<Ix57 as Struct>::create(d)) }
pub fn r_ix57_set(d: &mut [u8], v: usize) { <Ix57 as IndexStruct>::set_index(<Ix57 as Struct>::create_mut(d), v) }
define_index!(Ix63, RefIx63, MutIx63, "index Ix63", 8, 63);
pub fn r_ix63_index(d: &[u8]) -> usize { <Ix63 as IndexStruct>::index(<Ix63 as Struct>::create(d)) }
pub fn r_ix63_set(d: &mut [u8], v: usize) { <Ix63 as IndexStruct>::set_index(<Ix63 as Struct>::create_mut(d), v) }
define_index!(Ix64, RefIx64, MutIx64, "index Ix64", 8, 64);
pub fn r_ix64_index(d: &[u8]) -> usize { <Ix64 as IndexStruct>::index(<Ix64 as Struct>::create(d)) }
pub fn r_ix64_set(d: &mut [u8], v: usize) { <Ix64 as IndexStruct>::set_index(<Ix64 as Struct>::create_mut(d), v) }
