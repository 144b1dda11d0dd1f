//! Small programs over the standard library, which the analyser has to follow to their end. They
//! are run natively as well (tools/probe.py), so that the models agree with the real functions.
#![allow(unused)]
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::convert::{TryFrom, TryInto};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::rc::{Rc, Weak};

macro_rules! p { ($($n:ident $b:block)*) => { $(pub fn $n() $b)* } }

fn bytes() -> Vec<u8> { vec![3, 1, 4, 1, 5, 9, 2, 6] }

p! {
// ---- vectors
r_p_vec_drain { let mut v = bytes(); let d: Vec<u8> = v.drain(1..3).collect(); assert!(d == [1, 4]); assert!(v == [3, 1, 5, 9, 2, 6]); }
r_p_vec_drain_all { let mut v = bytes(); v.drain(..); assert!(v.is_empty()); }
r_p_vec_drain_to { let mut v = bytes(); v.drain(..2); assert!(v.len() == 6 && v[0] == 4); }
r_p_vec_truncate { let mut v = bytes(); v.truncate(3); assert!(v == [3, 1, 4]); v.truncate(9); assert!(v.len() == 3); }
r_p_vec_split_off { let mut v = bytes(); let t = v.split_off(6); assert!(t == [2, 6]); assert!(v.len() == 6); }
r_p_vec_insert { let mut v = bytes(); v.insert(2, 7); assert!(v[2] == 7 && v[3] == 4 && v.len() == 9); }
r_p_vec_remove { let mut v = bytes(); assert!(v.remove(2) == 4); assert!(v[2] == 1 && v.len() == 7); }
r_p_vec_swap_remove { let mut v = bytes(); assert!(v.swap_remove(0) == 3); assert!(v[0] == 6 && v.len() == 7); }
r_p_vec_extend_slice { let mut v = bytes(); v.extend_from_slice(&[8, 8]); assert!(v.len() == 10 && v[9] == 8); }
r_p_vec_extend_within { let mut v = bytes(); v.extend_from_within(..2); assert!(v.len() == 10 && v[8] == 3); }
r_p_vec_append { let mut v = bytes(); let mut w = vec![1, 2]; v.append(&mut w); assert!(v.len() == 10 && w.is_empty()); }
r_p_vec_resize_with { let mut v = bytes(); v.resize_with(10, || 1); assert!(v[9] == 1); }
r_p_vec_resize_default { let mut v = bytes(); v.resize_with(10, Default::default); assert!(v[9] == 0); }
r_p_vec_retain { let mut v = bytes(); v.retain(|x| *x > 3); assert!(v == [4, 5, 9, 6]); }
r_p_vec_dedup { let mut v = vec![1, 1, 2]; v.dedup(); assert!(v == [1, 2]); }
r_p_vec_splice { let mut v = bytes(); v.splice(0..1, [7u8, 7].iter().cloned()); assert!(v.len() == 9 && v[1] == 7); }
r_p_vec_pop { let mut v = bytes(); assert!(v.pop() == Some(6)); assert!(v.len() == 7); }
r_p_vec_first { let v = bytes(); assert!(v.first() == Some(&3)); assert!(v.last() == Some(&6)); let e: Vec<u8> = vec![]; assert!(e.first().is_none()); }
r_p_vec_get { let v = bytes(); assert!(v.get(2) == Some(&4)); assert!(v.get(9).is_none()); assert!(v.get(2..4) == Some(&[4u8, 1][..])); assert!(v.get(7..9).is_none()); }
r_p_vec_get_mut { let mut v = bytes(); *v.get_mut(1).unwrap() = 8; assert!(v[1] == 8); if let Some(s) = v.get_mut(2..4) { s[0] = 9; } assert!(v[2] == 9); }
r_p_vec_reserve { let mut v = bytes(); v.reserve(100); v.shrink_to_fit(); assert!(v.capacity() >= 8); assert!(v.len() == 8); }
r_p_vec_reserve_exact { let mut v = bytes(); v.reserve_exact(100); assert!(v.len() == 8); let w: Vec<u8> = Vec::with_capacity(9); assert!(w.is_empty()); }
r_p_vec_boxed { let b = bytes().into_boxed_slice(); assert!(b.len() == 8 && b[1] == 1); let v = b.into_vec(); assert!(v.len() == 8); }
r_p_vec_clone { let v = bytes(); let mut w = v.clone(); w[0] = 0; assert!(v[0] == 3); w.clone_from(&v); assert!(w[0] == 3); }
r_p_vec_eq { assert!(bytes() == bytes()); assert!(bytes() != vec![1]); assert!(&bytes()[..2] == &[3, 1]); }
r_p_vec_from { let a = Vec::from(&[1u8, 2][..]); assert!(a == [1, 2]); let b = Vec::from([1u8, 2]); assert!(b == a); let c: Vec<u8> = b.into(); assert!(c.len() == 2); }
r_p_vec_to_vec { let a = bytes()[2..].to_vec(); assert!(a.len() == 6 && a[0] == 4); let b = bytes()[..2].to_owned(); assert!(b == [3, 1]); }
r_p_vec_take { let mut v = bytes(); let w = std::mem::take(&mut v); assert!(v.is_empty() && w.len() == 8); }
r_p_vec_replace { let mut v = bytes(); let w = std::mem::replace(&mut v, vec![0; 8]); assert!(v[7] == 0 && w.len() == 8); }
r_p_vec_swap { let mut v = bytes(); let mut w = vec![1]; std::mem::swap(&mut v, &mut w); assert!(v.len() == 1 && w.len() == 8); }
r_p_vec_iter_sum { let n: usize = bytes().iter().map(|x| *x as usize).sum(); assert!(n == 31); }
r_p_vec_into_iter { let mut n = 0; for x in bytes() { n += x as u32; } assert!(n == 31); }
r_p_vec_into_iter_rev { let mut n = 0; for x in bytes().into_iter().rev() { n = x; } assert!(n == 3); }
r_p_vec_iter_mut { let mut v = bytes(); for x in v.iter_mut() { *x += 1; } assert!(v[0] == 4 && v[7] == 7); }
r_p_vec_collect { let v: Vec<u16> = bytes().iter().map(|x| *x as u16 * 256).collect(); assert!(v[5] == 9 * 256); }
r_p_vec_collect_res { let v: Result<Vec<u8>, ()> = bytes().into_iter().map(|x| Ok(x)).collect(); assert!(v.unwrap().len() == 8); }
r_p_vec_of_vec { let mut v: Vec<Vec<u8>> = Vec::new(); v.push(bytes()); v.push(vec![1]); assert!(v.iter().map(|x| x.len()).sum::<usize>() == 9); let f = v.concat(); assert!(f.len() == 9); }
r_p_vec_deque { let mut v = VecDeque::new(); v.push_back(1u8); v.push_back(2); assert!(v.pop_front() == Some(1)); assert!(v.len() == 1); }
r_p_vec_set_len { let mut v = bytes(); unsafe { v.set_len(3); } assert!(v == [3, 1, 4]); }
r_p_vec_as_ptr { let v = bytes(); let p = v.as_ptr(); unsafe { assert!(*p.add(2) == 4); assert!(p.add(3).read() == 1); } }
r_p_vec_leak { let v = bytes().leak(); assert!(v.len() == 8); }
// ---- slices
r_p_sl_copy { let mut v = bytes(); v[..2].copy_from_slice(&[7, 8]); assert!(v[1] == 8); v[2..4].clone_from_slice(&[7, 8]); assert!(v[3] == 8); }
r_p_sl_copy_within { let mut v = bytes(); v.copy_within(4.., 0); assert!(v == [5, 9, 2, 6, 5, 9, 2, 6]); }
r_p_sl_fill { let mut v = bytes(); v[2..].fill(0); assert!(v == [3, 1, 0, 0, 0, 0, 0, 0]); }
r_p_sl_split { let v = bytes(); let (a, b) = v.split_at(3); assert!(a == [3, 1, 4] && b.len() == 5); }
r_p_sl_split_mut { let mut v = bytes(); { let (a, b) = v.split_at_mut(3); a[0] = b[0]; } assert!(v[0] == 1); }
r_p_sl_split_first { let v = bytes(); let (a, b) = v.split_first().unwrap(); assert!(*a == 3 && b.len() == 7); let (a, b) = v.split_last().unwrap(); assert!(*a == 6 && b.len() == 7); }
r_p_sl_chunks { let mut n = 0; for c in bytes().chunks(3) { n = n * 10 + c.len(); } assert!(n == 332); }
r_p_sl_chunks_exact { let v = bytes(); let mut n = 0; for c in v.chunks_exact(3) { n = n * 10 + c.len(); } assert!(n == 33); assert!(v.chunks_exact(3).remainder().len() == 2); }
r_p_sl_chunks_mut { let mut v = bytes(); for c in v.chunks_mut(3) { c[0] = 0; } assert!(v[3] == 0 && v[6] == 0); }
r_p_sl_windows { assert!(bytes().windows(2).filter(|w| w[0] < w[1]).count() == 4); }
r_p_sl_iter_zip { let v = bytes(); let w = bytes(); assert!(v.iter().zip(w.iter()).all(|(a, b)| a == b)); }
r_p_sl_enumerate { for (i, x) in bytes().iter().enumerate() { if i == 5 { assert!(*x == 9); } } }
r_p_sl_rev { let v: Vec<u8> = bytes().iter().rev().cloned().collect(); assert!(v[0] == 6 && v[7] == 3); }
r_p_sl_reverse { let mut v = bytes(); v.reverse(); assert!(v[0] == 6); }
r_p_sl_rotate { let mut v = bytes(); v.rotate_left(2); assert!(v[0] == 4 && v[6] == 3); }
r_p_sl_swap { let mut v = bytes(); v.swap(0, 2); assert!(v[0] == 4 && v[2] == 3); }
r_p_sl_contains { assert!(bytes().contains(&9)); assert!(!bytes().contains(&8)); }
r_p_sl_starts { assert!(bytes().starts_with(&[3, 1])); assert!(bytes().ends_with(&[2, 6])); assert!(!bytes().starts_with(&[1])); }
r_p_sl_position { assert!(bytes().iter().position(|x| *x == 4) == Some(2)); assert!(bytes().iter().rposition(|x| *x == 1) == Some(3)); }
r_p_sl_any { assert!(bytes().iter().any(|x| *x == 4)); assert!(!bytes().iter().all(|x| *x == 4)); }
r_p_sl_max { assert!(bytes().iter().max() == Some(&9)); assert!(bytes().iter().copied().min() == Some(1)); }
r_p_sl_fold { assert!(bytes().iter().fold(0u64, |a, x| a << 8 | *x as u64) == 0x0301040105090206); }
r_p_sl_skip_take { let v: Vec<u8> = bytes().into_iter().skip(2).take(3).collect(); assert!(v == [4, 1, 5]); }
r_p_sl_step { let v: Vec<u8> = bytes().into_iter().step_by(3).collect(); assert!(v == [3, 1, 2]); }
r_p_sl_take_while { let v: Vec<u8> = bytes().into_iter().take_while(|x| *x < 5).collect(); assert!(v.len() == 4); }
r_p_sl_chain { let v: Vec<u8> = bytes().into_iter().chain(std::iter::once(7)).collect(); assert!(v.len() == 9 && v[8] == 7); }
r_p_sl_repeat { let v: Vec<u8> = std::iter::repeat(0).take(5).collect(); assert!(v.len() == 5); }
r_p_sl_find { assert!(bytes().iter().find(|x| **x > 4) == Some(&5)); assert!(bytes().iter().filter_map(|x| if *x > 4 { Some(x + 1) } else { None }).next() == Some(6)); }
r_p_sl_flat_map { let n = bytes().iter().flat_map(|x| vec![*x, *x]).count(); assert!(n == 16); }
r_p_sl_last { assert!(bytes().iter().last() == Some(&6)); assert!(bytes().iter().nth(2) == Some(&4)); }
r_p_sl_scan { let v: Vec<u32> = bytes().iter().scan(0, |s, x| { *s += *x as u32; Some(*s) }).collect(); assert!(v[7] == 31); }
r_p_sl_peekable { let v = bytes(); let mut i = v.iter().peekable(); assert!(i.peek() == Some(&&3)); i.next(); assert!(i.next() == Some(&1)); }
r_p_sl_sort { let mut v = bytes(); v.sort(); assert!(v[0] == 1 && v[7] == 9); }
r_p_sl_sort_by { let mut v = bytes(); v.sort_by(|a, b| b.cmp(a)); assert!(v[0] == 9); v.sort_unstable(); assert!(v[0] == 1); }
r_p_sl_binary { let v = [1u8, 3, 5, 7]; assert!(v.binary_search(&5) == Ok(2)); assert!(v.binary_search(&4) == Err(2)); }
r_p_sl_partition_point { let v = [1u8, 3, 5, 7]; assert!(v.partition_point(|x| *x < 4) == 2); }
r_p_sl_cmp { assert!(bytes()[..] > [1u8][..]); assert!([1u8, 2] < [1u8, 3]); }
r_p_sl_concat { let v = [&[1u8, 2][..], &[3]].concat(); assert!(v == [1, 2, 3]); }
r_p_sl_as_array { let v = bytes(); let a: [u8; 4] = v[..4].try_into().unwrap(); assert!(a[2] == 4); assert!(<[u8; 4]>::try_from(&v[..3]).is_err()); }
r_p_sl_as_array_ref { let v = bytes(); let a: &[u8; 4] = (&v[..4]).try_into().unwrap(); assert!(a[2] == 4); }
r_p_sl_raw { let v = bytes(); let s = unsafe { std::slice::from_raw_parts(v.as_ptr().offset(1), 3) }; assert!(s == [1, 4, 1]); }
r_p_sl_raw_mut { let mut v = bytes(); let s = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr().add(1), 3) }; s[0] = 7; assert!(v[1] == 7); }
r_p_sl_get_unchecked { let v = bytes(); unsafe { assert!(*v.get_unchecked(2) == 4); assert!(v.get_unchecked(1..3) == [1, 4]); } }
r_p_sl_ptr_range { let v = bytes(); let r = v.as_ptr_range(); unsafe { assert!(r.end.offset_from(r.start) == 8); } }
r_p_ptr_copy { let v = bytes(); let mut w = [0u8; 8]; unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), w.as_mut_ptr(), 8); } assert!(w == v[..]); }
r_p_ptr_write { let mut w = [0u8; 8]; unsafe { std::ptr::write_bytes(w.as_mut_ptr(), 7, 4); std::ptr::write(w.as_mut_ptr().add(5), 9); } assert!(w == [7, 7, 7, 7, 0, 9, 0, 0]); }
r_p_ptr_unaligned { let v = bytes(); let x = unsafe { (v.as_ptr().add(1) as *const u32).read_unaligned() }; assert!(u32::from_le(x) == 0x05010401); }
// ---- integers
r_p_int_bytes { assert!(0x01020304u32.to_le_bytes() == [4, 3, 2, 1]); assert!(0x01020304u32.to_be_bytes() == [1, 2, 3, 4]); assert!(u16::from_le_bytes([1, 2]) == 0x0201); assert!(u64::from_be_bytes([0, 0, 0, 0, 0, 0, 0, 9]) == 9); assert!(u32::from_ne_bytes(5u32.to_ne_bytes()) == 5); }
r_p_int_checked { assert!(250u8.checked_add(9).is_none()); assert!(1usize.checked_sub(2).is_none()); assert!(3usize.checked_mul(usize::max_value()).is_none()); assert!(8usize.checked_div(0).is_none()); assert!(5usize.checked_add(2) == Some(7)); }
r_p_int_wrapping { assert!(250u8.wrapping_add(9) == 3); assert!(1u8.wrapping_sub(2) == 255); assert!(16u8.wrapping_mul(17) == 16); assert!(1u32.wrapping_shl(33) == 2); }
r_p_int_saturating { assert!(250u8.saturating_add(9) == 255); assert!(1usize.saturating_sub(2) == 0); assert!(200u8.saturating_mul(2) == 255); }
r_p_int_overflowing { assert!(250u8.overflowing_add(9) == (3, true)); assert!(1u8.overflowing_sub(1) == (0, false)); }
r_p_int_bits { assert!(0b1011u8.count_ones() == 3); assert!(8u32.trailing_zeros() == 3); assert!(1u64.leading_zeros() == 63); assert!(0x12u8.rotate_left(4) == 0x21); assert!(0x0102u16.swap_bytes() == 0x0201); assert!(1u8.reverse_bits() == 128); }
r_p_int_pow { assert!(2usize.pow(10) == 1024); assert!(64u32.is_power_of_two()); assert!(65u32.next_power_of_two() == 128); }
r_p_int_div { assert!(17usize.div_ceil(8) == 3); assert!((-7i32).rem_euclid(4) == 1); assert!((-7i32).div_euclid(4) == -2); assert!(17usize.next_multiple_of(8) == 24); assert!(7usize.abs_diff(9) == 2); }
r_p_int_minmax { assert!(3usize.min(4) == 3); assert!(std::cmp::max(3, 4) == 4); assert!(9i32.clamp(0, 5) == 5); assert!((-3i32).abs() == 3); assert!((-3i32).signum() == -1); }
r_p_int_try { assert!(u8::try_from(300usize).is_err()); assert!(u8::try_from(30usize) == Ok(30)); let x: Result<u32, _> = (1u64 << 40).try_into(); assert!(x.is_err()); assert!(usize::try_from(-1i64).is_err()); }
r_p_int_from { assert!(u64::from(3u8) == 3); let x: u32 = 7u16.into(); assert!(x == 7); assert!(u8::from(true) == 1); assert!(i64::from(-1i8) == -1); }
r_p_int_cast { assert!(-1i8 as u8 == 255); assert!(300u32 as u8 == 44); assert!(200u8 as i8 == -56); assert!(-1i32 as u64 == u64::max_value()); assert!(true as u32 == 1); assert!('a' as u8 == 97); }
r_p_int_parse { assert!("12".parse::<u32>() == Ok(12)); assert!("x".parse::<u32>().is_err()); }
r_p_int_mem { assert!(std::mem::size_of::<u64>() == 8); assert!(std::mem::size_of_val(&[0u8; 5]) == 5); assert!(std::mem::align_of::<u32>() == 4); }
r_p_float { let x = 1.5f32; assert!(f32::from_bits(x.to_bits()) == 1.5); }
r_p_range { assert!((2..5).contains(&3)); assert!((2..5).len() == 3); assert!((2..=5).rev().next() == Some(5)); let mut n = 0; for i in (0..10).step_by(4) { n += i; } assert!(n == 12); assert!((5..2).is_empty()); }
r_p_range_iter { let v: Vec<usize> = (0..4).map(|i| i * 2).collect(); assert!(v == [0, 2, 4, 6]); assert!((1..=4).product::<usize>() == 24); assert!((0..5).rev().skip(1).next() == Some(3)); }
// ---- option, result
r_p_opt { let a = Some(3); assert!(a.map(|x| x + 1) == Some(4)); assert!(a.and_then(|x| if x > 3 { Some(x) } else { None }).is_none()); assert!(a.unwrap_or(7) == 3); assert!(a.filter(|x| *x == 3).is_some()); assert!(a.ok_or(1) == Ok(3)); assert!(a.xor(None) == Some(3)); assert!(a.map_or(0, |x| x * 2) == 6); assert!(a.zip(Some(4)) == Some((3, 4))); assert!(a.is_some_and(|x| x == 3)); }
r_p_opt_mut { let mut a = Some(3); assert!(a.take() == Some(3)); assert!(a.is_none()); assert!(*a.get_or_insert(5) == 5); assert!(a.replace(6) == Some(5)); if let Some(x) = a.as_mut() { *x = 9; } assert!(a.unwrap_or_default() == 9); assert!(*a.insert(4) == 4); assert!(*a.get_or_insert_with(|| 7) == 4); }
r_p_opt_ref { let a = Some(bytes()); assert!(a.as_ref().map(|v| v.len()) == Some(8)); assert!(a.as_deref().map(|s| s[0]) == Some(3)); assert!(a.iter().count() == 1); assert!(a.clone().unwrap().len() == 8); let b: Option<Option<u8>> = Some(None); assert!(b.flatten().is_none()); assert!(Some(&3).copied() == Some(3)); assert!(Some(&3).cloned() == Some(3)); }
r_p_res { let a: Result<u8, u8> = Ok(3); assert!(a.map(|x| x + 1) == Ok(4)); assert!(a.map_err(|e| e + 1) == Ok(3)); assert!(a.and_then(|_| Err::<u8, u8>(5)) == Err(5)); assert!(a.or_else(|e| Err::<u8, u8>(e)) == Ok(3)); assert!(a.is_ok() && !a.is_err()); assert!(a.ok() == Some(3)); assert!(a.err().is_none()); assert!(a.unwrap_or_else(|e| e) == 3); assert!(a.unwrap_or(1) == 3); assert!(a.iter().count() == 1); }
r_p_res_transpose { let a: Option<Result<u8, u8>> = Some(Ok(3)); assert!(a.transpose() == Ok(Some(3))); let b: Result<Option<u8>, u8> = Ok(None); assert!(b.transpose().is_none()); assert!(Ok::<u8, u8>(3).as_ref().unwrap() == &3); assert!(Ok::<u8, u8>(1).and(Ok::<u8, u8>(2)) == Ok(2)); }
r_p_question { fn f(x: Option<u8>) -> Option<u8> { Some(x? + 1) } assert!(f(Some(1)) == Some(2)); assert!(f(None).is_none()); fn g(x: Result<u8, u8>) -> Result<u8, u16> { Ok(x? + 1) } assert!(g(Err(1)) == Err(1)); }
// ---- strings
r_p_str { let s = String::from("abc/def"); assert!(s.len() == 7); assert!(s.starts_with("abc")); assert!(s.ends_with("def")); assert!(s.contains('/')); assert!(s.find('/') == Some(3)); assert!(&s[4..] == "def"); assert!(!s.is_empty()); }
r_p_str_contains { let s = String::from("abc/def"); assert!(s.contains("c/d")); assert!(!s.contains("x")); assert!(s.find("def") == Some(4)); assert!(s.rfind('/') == Some(3)); }
r_p_str_push { let mut s = String::new(); s.push_str("ab"); s.push('c'); s += "d"; assert!(s == "abcd"); s.insert(0, 'x'); assert!(s == "xabcd"); s.truncate(2); assert!(s == "xa"); assert!(s.pop() == Some('a')); s.clear(); assert!(s.is_empty()); }
r_p_str_format { let s = format!("{}.{}", "a", "schema"); assert!(s == "a.schema"); let t = format!("{}_{}", s, 3); assert!(t == "a.schema_3"); let u = "a".to_string() + ".b"; assert!(u == "a.b"); }
r_p_str_format_args { let n = 5usize; let s = format!("{n}-{:?}-{:02}", n, n); assert!(s == "5-5-05"); }
r_p_str_concat { let s = ["a", "b"].concat(); assert!(s == "ab"); assert!(["a", "b"].join("/") == "a/b"); let v: Vec<String> = vec!["a".into(), "b".into()]; assert!(v.join(".") == "a.b"); }
r_p_str_split { let v: Vec<&str> = "a/b/c".split('/').collect(); assert!(v.len() == 3 && v[2] == "c"); let mut i = "a.b".splitn(2, '.'); assert!(i.next() == Some("a")); assert!(i.next() == Some("b")); }
r_p_str_split_at { let (a, b) = "abcd".split_at(1); assert!(a == "a" && b == "bcd"); assert!("a=b".split_once('=') == Some(("a", "b"))); assert!("a.b.c".rsplit('.').next() == Some("c")); assert!("a.b.c".rsplit_once('.') == Some(("a.b", "c"))); }
r_p_str_strip { assert!("abc.schema".strip_suffix(".schema") == Some("abc")); assert!("abc".strip_prefix("x").is_none()); assert!("/a/".trim_matches('/') == "a"); assert!(" a ".trim() == "a"); assert!("a/".trim_end_matches('/') == "a"); assert!("xa".trim_start_matches("x") == "a"); }
r_p_str_bytes { let s = "abc"; assert!(s.as_bytes() == [97, 98, 99]); assert!(s.bytes().map(|b| b as u32).sum::<u32>() == 294); assert!(s.to_owned().into_bytes().len() == 3); assert!(std::str::from_utf8(&[97, 98]) == Ok("ab")); assert!(std::str::from_utf8(&[255]).is_err()); assert!(String::from_utf8(vec![97]).unwrap() == "a"); assert!(String::from_utf8_lossy(&[97]) == "a"); assert!(unsafe { std::str::from_utf8_unchecked(&[97]) } == "a"); }
r_p_str_cmp { assert!("a" < "b"); assert!(String::from("a") == "a"); assert!("a".eq("a")); assert!("A".eq_ignore_ascii_case("a")); assert!("a".cmp("b") == std::cmp::Ordering::Less); assert!("Ab".to_lowercase() == "ab"); assert!("ab".to_ascii_uppercase() == "AB"); }
r_p_str_replace { assert!("a/b".replace('/', "_") == "a_b"); assert!("ab".repeat(2) == "abab"); assert!("a b".replace(" ", "") == "ab"); }
r_p_str_chars { assert!("abc".chars().count() == 3); assert!("abc".chars().rev().next() == Some('c')); assert!("abc".chars().all(|c| c.is_alphanumeric())); let s: String = "abc".chars().filter(|c| *c != 'b').collect(); assert!(s == "ac"); assert!("a\nb".lines().count() == 2); assert!("abc".char_indices().nth(1) == Some((1, 'b'))); }
r_p_str_cow { let c: Cow<str> = Cow::Borrowed("a"); assert!(c.len() == 1); assert!(c.into_owned() == "a"); let d: Cow<[u8]> = Cow::Owned(vec![1]); assert!(d[0] == 1); }
r_p_str_into { let a: String = "a".into(); let b: Box<str> = "b".into(); assert!(&*b == "b"); let c: Rc<str> = Rc::from("c"); assert!(&*c == "c"); let d: &str = a.as_ref(); assert!(d == "a"); let e: &str = &a; assert!(e.to_string() == a); assert!(a.as_str() == "a"); assert!(a.into_boxed_str().len() == 1); }
r_p_str_write { use std::fmt::Write; let mut s = String::new(); write!(s, "{}-{}", 1, "x").unwrap(); s.write_str("y").unwrap(); assert!(s == "1-xy"); }
r_p_str_concat_macro { assert!(concat!("a", ".", "b") == "a.b"); assert!(stringify!(abc) == "abc"); }
// ---- maps
r_p_map { let mut m = BTreeMap::new(); m.insert(String::from("a"), 1); m.insert(String::from("b"), 2); assert!(m.len() == 2); assert!(m.get("a") == Some(&1)); assert!(m["b"] == 2); assert!(m.contains_key("a")); assert!(m.remove("a") == Some(1)); assert!(m.get("a").is_none()); assert!(!m.is_empty()); }
r_p_map_insert_old { let mut m = BTreeMap::new(); assert!(m.insert("a", 1).is_none()); assert!(m.insert("a", 2) == Some(1)); if let Some(x) = m.get_mut("a") { *x = 5; } assert!(m["a"] == 5); }
r_p_map_entry { let mut m: BTreeMap<String, u32> = BTreeMap::new(); *m.entry("a".into()).or_insert(0) += 1; *m.entry("a".into()).or_insert(0) += 1; assert!(m["a"] == 2); m.entry("b".into()).or_insert_with(|| 7); m.entry("b".into()).and_modify(|x| *x += 1).or_insert(0); assert!(m["b"] == 8); *m.entry("c".into()).or_default() += 3; assert!(m["c"] == 3); }
r_p_map_entry_match { let mut m: BTreeMap<u32, u32> = BTreeMap::new(); match m.entry(3) { btree_map::Entry::Occupied(_) => panic!(), btree_map::Entry::Vacant(v) => { v.insert(4); } } match m.entry(3) { btree_map::Entry::Occupied(o) => assert!(o.remove() == 4), _ => panic!() } assert!(m.is_empty()); }
r_p_map_iter { let mut m = BTreeMap::new(); m.insert("b", 2); m.insert("a", 1); let k: Vec<&str> = m.keys().cloned().collect(); assert!(k == ["a", "b"]); assert!(m.values().sum::<i32>() == 3); for (_, v) in m.iter_mut() { *v += 1; } let mut n = 0; for (_, v) in &m { n += *v; } assert!(n == 5); for (k, v) in m { assert!(k.len() == 1 && v > 0); } }
r_p_map_values_mut { let mut m = BTreeMap::new(); m.insert("b", 2); for v in m.values_mut() { *v = 9; } assert!(m["b"] == 9); assert!(m.into_values().next() == Some(9)); }
r_p_map_first { let mut m = BTreeMap::new(); m.insert(2, "b"); m.insert(1, "a"); assert!(m.iter().next() == Some((&1, &"a"))); assert!(m.iter().next_back().unwrap().0 == &2); assert!(m.first_key_value().unwrap().0 == &1); assert!(m.last_key_value().unwrap().0 == &2); assert!(m.pop_first() == Some((1, "a"))); }
r_p_map_range { let mut m = BTreeMap::new(); m.insert(2, "b"); m.insert(1, "a"); m.insert(5, "c"); assert!(m.range(2..).count() == 2); }
r_p_map_retain { let mut m = BTreeMap::new(); m.insert(String::from("b"), 2); m.insert(String::from("a"), 1); m.retain(|k, _| k != "a"); assert!(m.len() == 1 && m.contains_key("b")); }
r_p_map_extend { let mut m = BTreeMap::new(); m.extend(vec![("a", 1), ("b", 2)]); let n: BTreeMap<&str, i32> = m.clone().into_iter().collect(); assert!(n == m); let mut o = BTreeMap::new(); o.append(&mut m); assert!(o.len() == 2 && m.is_empty()); }
r_p_map_path { let mut m: BTreeMap<PathBuf, u8> = BTreeMap::new(); m.insert(PathBuf::from("a/b"), 1); assert!(m.get(Path::new("a/b")) == Some(&1)); assert!(m.get(&PathBuf::from("a").join("b")) == Some(&1)); }
r_p_map_tuple { let mut m: BTreeMap<(u32, u32), u8> = BTreeMap::new(); m.insert((1, 2), 1); assert!(m.get(&(1, 2)) == Some(&1)); assert!(m.get(&(1, 3)).is_none()); }
r_p_hash { let mut m = HashMap::new(); m.insert(String::from("a"), 1); assert!(m.get("a") == Some(&1)); assert!(m.remove("a") == Some(1)); assert!(m.is_empty()); *m.entry("b".into()).or_insert(1) += 1; assert!(m["b"] == 2); assert!(m.values().count() == 1); m.retain(|_, v| *v > 5); assert!(m.is_empty()); }
r_p_set { let mut s = BTreeSet::new(); assert!(s.insert("a")); assert!(!s.insert("a")); assert!(s.contains("a")); assert!(s.len() == 1); assert!(s.remove("a")); assert!(s.is_empty()); }
r_p_set_iter { let mut s = BTreeSet::new(); s.insert(String::from("b")); s.insert(String::from("a")); assert!(s.iter().next().unwrap() == "a"); let h: HashSet<u8> = vec![1, 1, 2].into_iter().collect(); assert!(h.len() == 2 && h.contains(&1)); }
// ---- ownership
r_p_rc { let a = Rc::new(RefCell::new(bytes())); let b = a.clone(); b.borrow_mut().push(7); assert!(a.borrow().len() == 9); assert!(Rc::strong_count(&a) == 2); drop(b); assert!(Rc::try_unwrap(a).unwrap().into_inner().len() == 9); }
r_p_rc_ptr { let a = Rc::new(5); let b = Rc::clone(&a); assert!(Rc::ptr_eq(&a, &b)); assert!(*a == 5); assert!(*b.as_ref() == 5); let mut c = Rc::new(1); *Rc::get_mut(&mut c).unwrap() = 2; *Rc::make_mut(&mut c) += 1; assert!(*c == 3); }
r_p_rc_slice { let a: Rc<[u8]> = Rc::from(bytes()); let b = a.clone(); assert!(b.len() == 8 && a[1] == 1); let c: Rc<Vec<u8>> = Rc::new(bytes()); assert!(c.len() == 8 && c[2] == 4); }
r_p_rc_weak { let a = Rc::new(5); let w = Rc::downgrade(&a); assert!(w.upgrade().map(|x| *x) == Some(5)); drop(a); assert!(w.upgrade().is_none()); let e: Weak<u8> = Weak::new(); assert!(e.upgrade().is_none()); }
r_p_arc { let a = std::sync::Arc::new(std::sync::Mutex::new(bytes())); a.lock().unwrap().push(1); assert!(a.lock().unwrap().len() == 9); let b = a.clone(); assert!(std::sync::Arc::strong_count(&b) == 2); }
r_p_rwlock { let a = std::sync::RwLock::new(bytes()); a.write().unwrap().push(1); assert!(a.read().unwrap().len() == 9); }
r_p_cell { let c = Cell::new(3); c.set(c.get() + 1); assert!(c.replace(9) == 4); assert!(c.take() == 9); assert!(c.into_inner() == 0); }
r_p_refcell { let c = RefCell::new(3); { let b = c.borrow(); assert!(c.try_borrow_mut().is_err()); assert!(*b == 3); } assert!(c.try_borrow_mut().is_ok()); assert!(c.replace(4) == 3); *c.borrow_mut() += 1; assert!(c.take() == 5); let d = std::cell::Ref::map(c.borrow(), |x| x); assert!(*d == 0); }
r_p_atomic { use std::sync::atomic::*; let a = AtomicUsize::new(1); assert!(a.fetch_add(2, Ordering::SeqCst) == 1); assert!(a.load(Ordering::Relaxed) == 3); a.store(9, Ordering::Release); assert!(a.swap(1, Ordering::SeqCst) == 9); let b = AtomicBool::new(false); assert!(!b.swap(true, Ordering::SeqCst)); }
r_p_oncecell { let c = std::cell::OnceCell::new(); assert!(*c.get_or_init(|| 5) == 5); assert!(c.get() == Some(&5)); assert!(c.set(6).is_err()); }
r_p_box { let b: Box<dyn Fn(u8) -> u8> = Box::new(|x| x + 1); assert!(b(2) == 3); let c = Box::new(bytes()); assert!(c.len() == 8); let d = *c; assert!(d.len() == 8); let r = Box::into_raw(Box::new(5)); assert!(unsafe { *Box::from_raw(r) } == 5); }
r_p_manually { let m = std::mem::ManuallyDrop::new(bytes()); assert!(m.len() == 8); std::mem::forget(bytes()); let mut u = std::mem::MaybeUninit::<u32>::uninit(); u.write(5); assert!(unsafe { u.assume_init() } == 5); }
r_p_dyn { trait A { fn f(&self) -> u8; } struct B; struct C(u8); impl A for B { fn f(&self) -> u8 { 1 } } impl A for C { fn f(&self) -> u8 { self.0 } } let v: Vec<Box<dyn A>> = vec![Box::new(B), Box::new(C(4))]; assert!(v.iter().map(|x| x.f()).sum::<u8>() == 5); }
r_p_drop { struct D(Rc<Cell<u32>>); impl Drop for D { fn drop(&mut self) { self.0.set(self.0.get() + 1); } } let c = Rc::new(Cell::new(0)); { let _a = D(c.clone()); let v = vec![D(c.clone()), D(c.clone())]; let r = Rc::new(D(c.clone())); drop(r); assert!(c.get() == 1); drop(v); assert!(c.get() == 3); let b = Box::new(D(c.clone())); let o = Some(D(c.clone())); } assert!(c.get() == 6); }
r_p_closure { let mut n = 0; let mut f = |x: u32| n += x; f(1); f(2); assert!(n == 3); fn g<F: FnOnce() -> Vec<u8>>(f: F) -> usize { f().len() } let v = bytes(); assert!(g(move || v) == 8); let h: fn(u8) -> u8 = |x| x * 2; assert!(h(3) == 6); }
r_p_any { use std::any::Any; let x: &dyn Any = &5u32; assert!(x.downcast_ref::<u32>() == Some(&5)); assert!(x.downcast_ref::<u8>().is_none()); }
r_p_phantom { use std::marker::PhantomData; struct P<T>(u8, PhantomData<T>); impl<T> Clone for P<T> { fn clone(&self) -> Self { P(self.0, PhantomData) } } assert!(P::<u64>(3, PhantomData).clone().0 == 3); }
r_p_const { const N: usize = 1 + std::mem::size_of::<u32>(); static S: [u8; 3] = [1, 2, 3]; assert!(N == 5 && S[2] == 3); const T: &[&str] = &["a", "b"]; assert!(T[1] == "b"); }
r_p_array { let a = [[1u8; 3]; 2]; assert!(a[1][2] == 1); let b = [1u8, 2, 3].map(|x| x * 2); assert!(b == [2, 4, 6]); assert!([1u8, 2].iter().eq([1u8, 2].iter())); for x in [1u8, 2] { assert!(x > 0); } let [x, y] = [1, 2]; assert!(x < y); }
r_p_match { let v = bytes(); match &v[..] { [] => panic!(), [a, .., z] => assert!(*a == 3 && *z == 6), _ => panic!() } if let [a, b, rest @ ..] = &v[..] { assert!(*b == 1 && rest.len() == 6 && *a == 3); } match 5u8 { 0..=4 => panic!(), n @ 5..=9 => assert!(n == 5), _ => panic!() } }
r_p_let_else { let Some(x) = Some(3) else { panic!() }; assert!(x == 3); assert!(matches!(Some(3), Some(n) if n > 2)); let t = 'l: { if x == 3 { break 'l 1; } 2 }; assert!(t == 1); }
// ---- input and output
r_p_cursor { let mut c = Cursor::new(Vec::new()); c.write_all(&[1, 2, 3]).unwrap(); c.seek(SeekFrom::Start(1)).unwrap(); c.write_all(&[9]).unwrap(); assert!(c.position() == 2); assert!(c.get_ref() == &vec![1, 9, 3]); c.set_position(0); let mut b = [0u8; 2]; c.read_exact(&mut b).unwrap(); assert!(b == [1, 9]); assert!(c.into_inner().len() == 3); }
r_p_cursor_seek { let mut c = Cursor::new(vec![1u8, 2, 3]); assert!(c.seek(SeekFrom::End(0)).unwrap() == 3); c.write_all(&[4]).unwrap(); assert!(c.seek(SeekFrom::Current(-1)).unwrap() == 3); assert!(c.stream_position().unwrap() == 3); c.rewind().unwrap(); assert!(c.position() == 0); assert!(c.seek(SeekFrom::Current(-1)).is_err()); c.flush().unwrap(); }
r_p_cursor_read { let mut c = Cursor::new(vec![1u8, 2, 3]); let mut v = Vec::new(); assert!(c.read_to_end(&mut v).unwrap() == 3); assert!(v == [1, 2, 3]); let mut b = [0u8; 2]; assert!(c.read_exact(&mut b).is_err()); assert!(c.read(&mut b).unwrap() == 0); }
r_p_str_lossy { assert!(String::from_utf8_lossy(b"ab") == "ab"); assert!(String::from_utf8_lossy(&[97, 255]).len() == 4); let s = String::from_utf8_lossy(b"x").into_owned(); assert!(s == "x"); let t = String::from_utf8_lossy(b"yy"); let r: &str = &t; assert!(r == "yy" && r.trim_end() == "yy"); }
r_p_path_from { let p: PathBuf = Path::new("a/b/c").components().filter(|c| c.as_os_str() != "b").collect(); assert!(p == Path::new("a/c")); }
r_p_write_vec { let mut v: Vec<u8> = Vec::new(); v.write_all(b"ab").unwrap(); write!(v, "{}", 5).unwrap(); assert!(v == b"ab5"); assert!(v.write(&[1]).unwrap() == 1); v.flush().unwrap(); }
r_p_write_slice { let mut b = [0u8; 4]; { let mut s = &mut b[..]; s.write_all(&[1, 2]).unwrap(); assert!(s.len() == 2); } assert!(b == [1, 2, 0, 0]); let mut r = &b[..]; let mut c = [0u8; 2]; r.read_exact(&mut c).unwrap(); assert!(c == [1, 2] && r.len() == 2); }
r_p_bufwriter { let mut w = io::BufWriter::new(Vec::new()); w.write_all(&[1, 2]).unwrap(); w.flush().unwrap(); assert!(w.get_ref().len() == 2); assert!(w.into_inner().unwrap() == [1, 2]); }
r_p_io_error { let e = io::Error::new(io::ErrorKind::NotFound, "x"); assert!(e.kind() == io::ErrorKind::NotFound); let f: io::Error = io::ErrorKind::Other.into(); assert!(f.kind() == io::ErrorKind::Other); let r: io::Result<u8> = Err(e); match r { Err(ref e) if e.kind() == io::ErrorKind::NotFound => {} _ => panic!() } assert!(io::Error::other("x").kind() == io::ErrorKind::Other); }
r_p_io_copy { let mut r = &[1u8, 2, 3][..]; let mut w = Vec::new(); assert!(io::copy(&mut r, &mut w).unwrap() == 3); assert!(w == [1, 2, 3]); let mut c = (&[1u8, 2, 3][..]).take(2); let mut v = Vec::new(); c.read_to_end(&mut v).unwrap(); assert!(v.len() == 2); }
r_p_dyn_write { fn f(w: &mut dyn Write) -> io::Result<()> { w.write_all(&[1, 2])?; w.flush() } let mut v = Vec::new(); f(&mut v).unwrap(); assert!(v == [1, 2]); fn g<W: Write + ?Sized>(w: &mut W) { w.write_all(&[3]).unwrap(); } g(&mut v); assert!(v.len() == 3); }
// ---- paths
r_p_path { let p = PathBuf::from("/a"); let q = p.join("b").join("c.x"); assert!(q.to_str() == Some("/a/b/c.x")); assert!(q.parent() == Some(Path::new("/a/b"))); assert!(q.file_name().unwrap() == "c.x"); assert!(q.extension().unwrap() == "x"); assert!(q.file_stem().unwrap() == "c"); assert!(q.starts_with("/a")); assert!(!q.starts_with("/a/bb")); assert!(q.with_extension("y").to_str() == Some("/a/b/c.y")); }
r_p_path2 { let mut p = PathBuf::from("a"); p.push("b"); assert!(p == Path::new("a/b")); assert!(p.pop()); assert!(p.as_path() == Path::new("a")); assert!(p.display().to_string() == "a"); assert!(p.to_string_lossy() == "a"); assert!(p.is_relative()); assert!(p.as_os_str() == "a"); assert!(p.into_os_string().into_string().unwrap() == "a"); }
r_p_path3 { let p = Path::new("a/b/c"); assert!(p.components().count() == 3); assert!(p.strip_prefix("a").unwrap() == Path::new("b/c")); assert!(p.ancestors().nth(1) == Some(Path::new("a/b"))); assert!(p.iter().next().unwrap() == "a"); let q: PathBuf = ["a", "b"].iter().collect(); assert!(q == Path::new("a/b")); assert!(p.to_path_buf() == p); assert!(p.with_file_name("d") == Path::new("a/b/d")); }
r_p_path_cmp { let mut s = BTreeSet::new(); s.insert(PathBuf::from("b")); s.insert(PathBuf::from("a")); assert!(s.contains(Path::new("a"))); assert!(PathBuf::from("a") < PathBuf::from("b")); assert!(Path::new("a").join("") == Path::new("a/")); assert!(Path::new("a").join("/b") == Path::new("/b")); }
}
