//! Everything else iterators offer.
use crate::abs::*;
use crate::containers::{MV, V};

type R<'a> = Option<AbsRef<'a>>;
type W<'a> = Option<Option<AbsVar<'a>>>;

fn one<I: DoubleEndedIterator>(it: &mut I, back: bool) -> Option<I::Item> {
    if back {
        it.next_back()
    } else {
        it.next()
    }
}

// ArrayView
pub fn r_av_steps<'a>(v: &V<'a>, a: bool, b: bool, c: bool, d: bool) -> (R<'a>, R<'a>, R<'a>, R<'a>, usize) {
    let mut it = v.iter();
    let w = one(&mut it, a);
    let x = one(&mut it, b);
    let y = one(&mut it, c);
    let z = one(&mut it, d);
    (w, x, y, z, it.len())
}
pub fn r_av_nth<'a>(v: &V<'a>, before: bool, k: usize) -> (R<'a>, usize, R<'a>, R<'a>) {
    let mut it = v.iter();
    if before {
        it.next();
    }
    let x = it.nth(k);
    let n = it.len();
    let y = it.clone().next();
    (x, n, y, it.next_back())
}
pub fn r_av_nth_back<'a>(v: &V<'a>, before: bool, k: usize) -> (R<'a>, usize, R<'a>, R<'a>) {
    let mut it = v.iter();
    if before {
        it.next_back();
    }
    let x = it.nth_back(k);
    let n = it.len();
    let y = it.clone().next();
    (x, n, y, it.next_back())
}
pub fn r_av_count(v: &V, before: bool) -> usize {
    let mut it = v.iter();
    if before {
        it.next();
    }
    it.count()
}
pub fn r_av_last<'a>(v: &V<'a>, before: bool) -> R<'a> {
    let mut it = v.iter();
    if before {
        it.next_back();
    }
    it.last()
}
pub fn r_av_fold<'a>(v: &V<'a>, before: bool) -> (R<'a>, R<'a>, R<'a>, usize) {
    let mut it = v.iter();
    if before {
        it.next();
    }
    it.fold((None, None, None, 0), |(a, b, c, n), x| match n {
        0 => (Some(x), b, c, 1),
        1 => (a, Some(x), c, 2),
        2 => (a, b, Some(x), 3),
        _ => (a, b, c, n + 1),
    })
}
pub fn r_av_rfold<'a>(v: &V<'a>, before: bool) -> (R<'a>, R<'a>, R<'a>, usize) {
    let mut it = v.iter();
    if before {
        it.next_back();
    }
    it.rfold((None, None, None, 0), |(a, b, c, n), x| match n {
        0 => (Some(x), b, c, 1),
        1 => (a, Some(x), c, 2),
        2 => (a, b, Some(x), 3),
        _ => (a, b, c, n + 1),
    })
}

// MultiArrayView
pub fn r_ma_steps<'a>(v: &MV<'a>, a: bool, b: bool, c: bool, d: bool) -> (W<'a>, W<'a>, W<'a>, W<'a>, usize) {
    let mut it = v.iter();
    let w = one(&mut it, a).map(|mut i| i.next());
    let x = one(&mut it, b).map(|mut i| i.next());
    let y = one(&mut it, c).map(|mut i| i.next());
    let z = one(&mut it, d).map(|mut i| i.next());
    (w, x, y, z, it.len())
}
pub fn r_ma_nth<'a>(v: &MV<'a>, before: bool, k: usize) -> (W<'a>, usize, W<'a>, W<'a>) {
    let mut it = v.iter();
    if before {
        it.next();
    }
    let x = it.nth(k).map(|mut i| i.next());
    let n = it.len();
    let y = it.clone().next().map(|mut i| i.next());
    (x, n, y, it.next_back().map(|mut i| i.next()))
}
pub fn r_ma_nth_back<'a>(v: &MV<'a>, before: bool, k: usize) -> (W<'a>, usize, W<'a>, W<'a>) {
    let mut it = v.iter();
    if before {
        it.next_back();
    }
    let x = it.nth_back(k).map(|mut i| i.next());
    let n = it.len();
    let y = it.clone().next().map(|mut i| i.next());
    (x, n, y, it.next_back().map(|mut i| i.next()))
}
pub fn r_ma_count(v: &MV, before: bool) -> usize {
    let mut it = v.iter();
    if before {
        it.next();
    }
    it.count()
}
pub fn r_ma_last<'a>(v: &MV<'a>, before: bool) -> W<'a> {
    let mut it = v.iter();
    if before {
        it.next_back();
    }
    it.last().map(|mut i| i.next())
}
pub fn r_ma_fold<'a>(v: &MV<'a>, before: bool) -> (W<'a>, W<'a>, W<'a>, usize) {
    let mut it = v.iter();
    if before {
        it.next();
    }
    it.fold((None, None, None, 0), |(a, b, c, n), mut x| match n {
        0 => (Some(x.next()), b, c, 1),
        1 => (a, Some(x.next()), c, 2),
        2 => (a, b, Some(x.next()), 3),
        _ => (a, b, c, n + 1),
    })
}
pub fn r_ma_rfold<'a>(v: &MV<'a>, before: bool) -> (W<'a>, W<'a>, W<'a>, usize) {
    let mut it = v.iter();
    if before {
        it.next_back();
    }
    it.rfold((None, None, None, 0), |(a, b, c, n), mut x| match n {
        0 => (Some(x.next()), b, c, 1),
        1 => (a, Some(x.next()), c, 2),
        2 => (a, b, Some(x.next()), 3),
        _ => (a, b, c, n + 1),
    })
}

// The items of one position
pub fn r_mi_nth<'a>(v: &MV<'a>, i: usize, k: usize) -> (Option<AbsVar<'a>>, Option<AbsVar<'a>>) {
    let mut it = v.at(i);
    let x = it.nth(k);
    (x, it.next())
}
pub fn r_mi_count(v: &MV, i: usize) -> usize {
    v.at(i).count()
}
pub fn r_mi_last<'a>(v: &MV<'a>, i: usize) -> Option<AbsVar<'a>> {
    v.at(i).last()
}
pub fn r_mi_fold<'a>(v: &MV<'a>, i: usize) -> (Option<AbsVar<'a>>, Option<AbsVar<'a>>, usize) {
    v.at(i).fold((None, None, 0), |(a, b, n), x| match n {
        0 => (Some(x), b, 1),
        1 => (a, Some(x), 2),
        _ => (a, b, n + 1),
    })
}
pub fn r_mi_hint(v: &MV, i: usize) -> ((usize, Option<usize>), Option<()>, (usize, Option<usize>)) {
    let mut it = v.at(i);
    let a = it.size_hint();
    let x = it.next().map(|_| ());
    (a, x, it.size_hint())
}
