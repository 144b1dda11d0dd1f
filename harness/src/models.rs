//! Bodies which the analyser uses in place of those of the standard library which work on raw
//! memory. lib/stop.txt assigns them to the functions they stand for.

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}

pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}

pub fn vec_extend_ref<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(*x);
    }
}

pub fn btree_retain<K: Ord, V, A, F: FnMut(&K, &mut V) -> bool>(m: &mut std::collections::BTreeMap<K, V>, mut f: F) {
    for (k, mut v) in std::mem::replace(m, std::collections::BTreeMap::new()) {
        if f(&k, &mut v) {
            m.insert(k, v);
        }
    }
}

pub fn hash_retain<K: Eq + std::hash::Hash, V, S, A, F: FnMut(&K, &mut V) -> bool>(m: &mut std::collections::HashMap<K, V>, mut f: F) {
    for (k, mut v) in std::mem::replace(m, std::collections::HashMap::new()) {
        if f(&k, &mut v) {
            m.insert(k, v);
        }
    }
}

pub fn btree_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(m: &mut std::collections::BTreeMap<K, V>, it: I) {
    for (k, v) in it {
        m.insert(k, v);
    }
}

pub fn hash_extend<K: Eq + std::hash::Hash, V, S, A, I: IntoIterator<Item = (K, V)>>(m: &mut std::collections::HashMap<K, V>, it: I) {
    for (k, v) in it {
        m.insert(k, v);
    }
}

pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}

pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    for x in std::mem::replace(v, Vec::new()) {
        if f(&x) {
            v.push(x);
        }
    }
}

pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    for mut x in std::mem::replace(v, Vec::new()) {
        if f(&mut x) {
            v.push(x);
        }
    }
}

pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    for x in std::mem::replace(v, Vec::new()) {
        if v.is_empty() || v[v.len() - 1] != x {
            v.push(x);
        }
    }
}

pub fn into_iter_fold<T, A, B, F: FnMut(B, T) -> B>(mut it: std::vec::IntoIter<T>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn into_iter_try_fold<T, A, B, F: FnMut(B, T) -> R, R: std::ops::Try<Output = B>>(it: &mut std::vec::IntoIter<T>, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}

pub fn slice_sort<T: Ord>(v: &mut [T]) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && v[j] < v[j - 1] {
            v.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}

pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j], &v[j - 1]) == std::cmp::Ordering::Less {
            v.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}

pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j]) < f(&v[j - 1]) {
            v.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}

macro_rules! entries {
    ($m:ident; $or_insert:ident $or_insert_with:ident $or_insert_with_key:ident $or_default:ident $and_modify:ident) => {
        pub fn $or_insert<'a, K: Ord + std::hash::Hash, V, A>(e: $m::Entry<'a, K, V>, v: V) -> &'a mut V {
            match e {
                $m::Entry::Occupied(e) => e.into_mut(),
                $m::Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn $or_insert_with<'a, K: Ord + std::hash::Hash, V, A, F: FnOnce() -> V>(e: $m::Entry<'a, K, V>, f: F) -> &'a mut V {
            match e {
                $m::Entry::Occupied(e) => e.into_mut(),
                $m::Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn $or_insert_with_key<'a, K: Ord + std::hash::Hash, V, A, F: FnOnce(&K) -> V>(e: $m::Entry<'a, K, V>, f: F) -> &'a mut V {
            match e {
                $m::Entry::Occupied(e) => e.into_mut(),
                $m::Entry::Vacant(e) => {
                    let v = f(e.key());
                    e.insert(v)
                }
            }
        }
        pub fn $or_default<'a, K: Ord + std::hash::Hash, V: Default, A>(e: $m::Entry<'a, K, V>) -> &'a mut V {
            match e {
                $m::Entry::Occupied(e) => e.into_mut(),
                $m::Entry::Vacant(e) => e.insert(Default::default()),
            }
        }
        pub fn $and_modify<'a, K: Ord + std::hash::Hash, V, A, F: FnOnce(&mut V)>(e: $m::Entry<'a, K, V>, f: F) -> $m::Entry<'a, K, V> {
            match e {
                $m::Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    $m::Entry::Occupied(e)
                }
                e => e,
            }
        }
    };
}
use std::collections::{btree_map, hash_map};
entries!(btree_map; btree_or_insert btree_or_insert_with btree_or_insert_with_key btree_or_default btree_and_modify);
entries!(hash_map; hash_or_insert hash_or_insert_with hash_or_insert_with_key hash_or_default hash_and_modify);

pub fn write_fmt<W: std::io::Write + ?Sized>(w: &mut W, a: std::fmt::Arguments) -> std::io::Result<()> {
    w.write_all(std::fmt::format(a).as_bytes())
}

pub fn path_from_iter<P: AsRef<std::path::Path>, I: IntoIterator<Item = P>>(it: I) -> std::path::PathBuf {
    let mut p = std::path::PathBuf::new();
    for x in it {
        p.push(x);
    }
    p
}

macro_rules! strings {
    ($($from:ident $extend:ident $t:ty, $x:ident => $e:expr, $push:ident;)*) => {
        $(
            pub fn $from<'a, I: IntoIterator<Item = $t>>(it: I) -> String {
                let mut s = String::new();
                for $x in it {
                    s.$push($e);
                }
                s
            }
            pub fn $extend<'a, I: IntoIterator<Item = $t>>(s: &mut String, it: I) {
                for $x in it {
                    s.$push($e);
                }
            }
        )*
    };
}
strings!(string_from_chars string_extend_chars char, x => x, push;
    string_from_char_refs string_extend_char_refs &'a char, x => *x, push;
    string_from_strs string_extend_strs &'a str, x => x, push_str;
    string_from_strings string_extend_strings String, x => &x, push_str;);

pub fn rc_default<T: Default>() -> std::rc::Rc<T> {
    std::rc::Rc::new(T::default())
}

pub fn arc_default<T: Default>() -> std::sync::Arc<T> {
    std::sync::Arc::new(T::default())
}

pub fn box_default<T: Default>() -> Box<T> {
    Box::new(T::default())
}
