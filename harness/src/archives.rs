//! Archives with every kind of resource.
use crate::abs::*;
use flatdata::*;
use std::io;
use std::rc::Rc;

define_struct!(S5, RefS5, MutS5, "schema S5", 5, (x, set_x, u64, 0, 40));
define_struct!(S9, RefS9, MutS9, "schema S9", 9, (x, set_x, u64, 0, 64), (y, set_y, u8, 64, 8));

pub type Io = io::Result<()>;
pub type Res<T> = Result<T, ResourceStorageError>;

define_archive!(Inner, InnerBuilder, "inner schema";
    ;;;
    (payload, set_payload, "inner payload schema", false);
);
define_archive!(Plain, PlainBuilder, "plain schema";
    (header, set_header, S5, "header schema", false);
    (items, set_items, start_items, AbsT, "items schema", false);
    (multi, start_multi, AbsTs, "multi schema", multi_index, AbsIdx, false);
    (raw, set_raw, "raw schema", false);
    (sub, Inner, InnerBuilder, "sub schema", false)
);
define_archive!(Opt, OptBuilder, "opt schema";
    (header, set_header, S5, "header schema", true);
    (items, set_items, start_items, AbsT, "items schema", true);
    (multi, start_multi, AbsTs, "multi schema", multi_index, AbsIdx, true);
    (raw, set_raw, "raw schema", true);
    (sub, Inner, InnerBuilder, "sub schema", true)
);
define_archive!(Mixed, MixedBuilder, "mixed schema";
    (header, set_header, S5, "header schema", false), (other_header, set_other_header, S9, "other header\n\tschema\n", true);
    (items, set_items, start_items, AbsT, "items schema", true), (others, set_others, start_others, AbsT, "  others   schema ", false);
    (multi, start_multi, AbsTs, "multi schema", multi_index, AbsIdx, false),
    (other_multi, start_other_multi, AbsTs, "\n/** other */ multi (schema)\n", other_multi_index, AbsIdx, true);
    (raw, set_raw, "raw schema", true), (other_raw, set_other_raw, "Other Raw Schema\u{e9}{}%s", false);
    (sub, Inner, InnerBuilder, "sub schema", true), (other_sub, Inner, InnerBuilder, "other sub schema\n", false)
);
define_archive!(Empty, EmptyBuilder, "empty schema";;;;;);

pub type AMulti<'a> = MultiArrayView<'a, AbsIdx, AbsTs>;

macro_rules! archive {
    ($A:ident, $B:ident, $new:ident, $create:ident, $open:ident) => {
        pub fn $new(s: Rc<ResourceStorage>) -> Res<$B> {
            <$B as ArchiveBuilder>::new(s)
        }
        pub fn $create(s: &Rc<ResourceStorage>) -> Res<()> {
            create_archive::<$B>(s)
        }
        pub fn $open(s: Rc<ResourceStorage>) -> Res<$A> {
            <$A as Archive>::open(s)
        }
    };
}
archive!(Inner, InnerBuilder, r_inner_new, r_inner_create, r_inner_open);
archive!(Plain, PlainBuilder, r_plain_new, r_plain_create, r_plain_open);
archive!(Opt, OptBuilder, r_opt_new, r_opt_create, r_opt_open);
archive!(Mixed, MixedBuilder, r_mixed_new, r_mixed_create, r_mixed_open);
archive!(Empty, EmptyBuilder, r_empty_new, r_empty_create, r_empty_open);

macro_rules! s {
    ($A:ident, $B:ident, $f:ident, $set:ident, $T:ident, $r:ident, $w:ident, opt) => {
        pub fn $r<'a>(a: &'a $A) -> Option<<$T as Struct<'a>>::Item> { a.$f() }
        pub fn $w(b: &$B, data: &[u8]) -> Io { b.$set(<$T as Struct>::create(data)) }
    };
    ($A:ident, $B:ident, $f:ident, $set:ident, $T:ident, $r:ident, $w:ident, req) => {
        pub fn $r<'a>(a: &'a $A) -> Option<<$T as Struct<'a>>::Item> { Some(a.$f()) }
        pub fn $w(b: &$B, data: &[u8]) -> Io { b.$set(<$T as Struct>::create(data)) }
    };
}
macro_rules! v {
    ($A:ident, $B:ident, $f:ident, $set:ident, $start:ident, $r:ident, $w:ident, $st:ident, $k:ident) => {
        pub fn $r<'a>(a: &'a $A) -> Option<ArrayView<'a, AbsT>> { v!($k, a.$f()) }
        pub fn $w(b: &$B, v: &ArrayView<AbsT>) -> Io { b.$set(v) }
        pub fn $st<'a>(b: &'a $B) -> io::Result<ExternalVector<'a, AbsT>> { b.$start() }
    };
    (opt, $e:expr) => { $e };
    (req, $e:expr) => { Some($e) };
}
macro_rules! m {
    ($A:ident, $B:ident, $f:ident, $start:ident, $r:ident, $st:ident, $k:ident) => {
        pub fn $r<'a>(a: &'a $A) -> Option<AMulti<'a>> { v!($k, a.$f()) }
        pub fn $st<'a>(b: &'a $B) -> io::Result<MultiVector<'a, AbsIdx, AbsTs>> { b.$start() }
    };
}
macro_rules! d {
    ($A:ident, $B:ident, $f:ident, $set:ident, $r:ident, $w:ident, $k:ident) => {
        pub fn $r<'a>(a: &'a $A) -> Option<&'a [u8]> { v!($k, a.$f()) }
        pub fn $w(b: &$B, data: &[u8]) -> Io { b.$set(data) }
    };
}
macro_rules! a {
    ($A:ident, $B:ident, $f:ident, $r:ident, $n:ident, opt) => {
        pub fn $r<'a>(a: &'a $A) -> Option<&'a Inner> { a.$f().as_ref() }
        pub fn $n(b: &$B) -> Res<InnerBuilder> { b.$f() }
    };
    ($A:ident, $B:ident, $f:ident, $r:ident, $n:ident, req) => {
        pub fn $r<'a>(a: &'a $A) -> Option<&'a Inner> { Some(a.$f()) }
        pub fn $n(b: &$B) -> Res<InnerBuilder> { b.$f() }
    };
}
d!(Inner, InnerBuilder, payload, set_payload, r_inner_payload, r_inner_set_payload, req);

s!(Plain, PlainBuilder, header, set_header, S5, r_plain_header, r_plain_set_header, req);
v!(Plain, PlainBuilder, items, set_items, start_items, r_plain_items, r_plain_set_items, r_plain_start_items, req);
m!(Plain, PlainBuilder, multi, start_multi, r_plain_multi, r_plain_start_multi, req);
d!(Plain, PlainBuilder, raw, set_raw, r_plain_raw, r_plain_set_raw, req);
a!(Plain, PlainBuilder, sub, r_plain_sub, r_plain_new_sub, req);

s!(Opt, OptBuilder, header, set_header, S5, r_opt_header, r_opt_set_header, opt);
v!(Opt, OptBuilder, items, set_items, start_items, r_opt_items, r_opt_set_items, r_opt_start_items, opt);
m!(Opt, OptBuilder, multi, start_multi, r_opt_multi, r_opt_start_multi, opt);
d!(Opt, OptBuilder, raw, set_raw, r_opt_raw, r_opt_set_raw, opt);
a!(Opt, OptBuilder, sub, r_opt_sub, r_opt_new_sub, opt);

s!(Mixed, MixedBuilder, header, set_header, S5, r_mixed_header, r_mixed_set_header, req);
s!(Mixed, MixedBuilder, other_header, set_other_header, S9, r_mixed_other_header, r_mixed_set_other_header, opt);
v!(Mixed, MixedBuilder, items, set_items, start_items, r_mixed_items, r_mixed_set_items, r_mixed_start_items, opt);
v!(Mixed, MixedBuilder, others, set_others, start_others, r_mixed_others, r_mixed_set_others, r_mixed_start_others, req);
m!(Mixed, MixedBuilder, multi, start_multi, r_mixed_multi, r_mixed_start_multi, req);
m!(Mixed, MixedBuilder, other_multi, start_other_multi, r_mixed_other_multi, r_mixed_start_other_multi, opt);
d!(Mixed, MixedBuilder, raw, set_raw, r_mixed_raw, r_mixed_set_raw, opt);
d!(Mixed, MixedBuilder, other_raw, set_other_raw, r_mixed_other_raw, r_mixed_set_other_raw, req);
a!(Mixed, MixedBuilder, sub, r_mixed_sub, r_mixed_new_sub, opt);
a!(Mixed, MixedBuilder, other_sub, r_mixed_other_sub, r_mixed_new_other_sub, req);
