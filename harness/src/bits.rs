//! Reading and writing of single fields.
macro_rules! bits {
    ($T:tt, $rd:ident, $wr:ident, $rd3:ident, $wr3:ident, $rd2:ident, $wr2:ident) => {
        pub fn $rd(data: &[u8], offset: usize, num_bits: usize) -> $T {
            read_bytes!($T, data.as_ptr(), offset, num_bits)
        }
        pub fn $wr(data: &mut [u8], offset: usize, num_bits: usize, value: $T) {
            write_bytes!($T; value, data, offset, num_bits)
        }
        pub fn $wr3(data: &mut [u8], offset: usize, value: $T) {
            write_bytes!($T; value, data, offset)
        }
        pub fn $wr2(data: &mut [u8], value: $T) {
            write_bytes!($T; value, data)
        }
        bits!(@rd $T, $rd3, $rd2);
    };
    (@rd bool, $rd3:ident, $rd2:ident) => {};
    (@rd $T:tt, $rd3:ident, $rd2:ident) => {
        pub fn $rd3(data: &[u8], offset: usize) -> $T {
            read_bytes!($T, data.as_ptr(), offset)
        }
        pub fn $rd2(data: &[u8]) -> $T {
            read_bytes!($T, data.as_ptr())
        }
    };
}
bits!(bool, r_rd_bool, r_wr_bool, r_rd3_bool, r_wr3_bool, r_rd2_bool, r_wr2_bool);
bits!(u8, r_rd_u8, r_wr_u8, r_rd3_u8, r_wr3_u8, r_rd2_u8, r_wr2_u8);
bits!(u16, r_rd_u16, r_wr_u16, r_rd3_u16, r_wr3_u16, r_rd2_u16, r_wr2_u16);
bits!(u32, r_rd_u32, r_wr_u32, r_rd3_u32, r_wr3_u32, r_rd2_u32, r_wr2_u32);
bits!(u64, r_rd_u64, r_wr_u64, r_rd3_u64, r_wr3_u64, r_rd2_u64, r_wr2_u64);
bits!(i8, r_rd_i8, r_wr_i8, r_rd3_i8, r_wr3_i8, r_rd2_i8, r_wr2_i8);
bits!(i16, r_rd_i16, r_wr_i16, r_rd3_i16, r_wr3_i16, r_rd2_i16, r_wr2_i16);
bits!(i32, r_rd_i32, r_wr_i32, r_rd3_i32, r_wr3_i32, r_rd2_i32, r_wr2_i32);
bits!(i64, r_rd_i64, r_wr_i64, r_rd3_i64, r_wr3_i64, r_rd2_i64, r_wr2_i64);
