//! Stand-ins for library functions whose own bodies are out of the analyser's reach (raw memory,
//! specialisation).  Each follows the documented behaviour; `driver/shadow.txt` says which it replaces,
//! type arguments are taken over in order.  Never run, only interpreted.
#![allow(unused)]
use std::cmp::Ordering;
use std::collections::*;

// ------------------------------------------------------------------ iterators
pub fn slice_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn slice_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn slice_find<'a, T, P: FnMut(&&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<&'a T> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn slice_find_map<'a, T, B, F: FnMut(&'a T) -> Option<B>>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
    None
}
pub fn slice_position<'a, T, P: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i) } i += 1; }
    None
}
pub fn slice_rposition<'a, T, P: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i) } }
    None
}
pub fn slice_for_each<'a, T, F: FnMut(&'a T)>(mut it: std::slice::Iter<'a, T>, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn slice_mut_any<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut std::slice::IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn slice_mut_all<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut std::slice::IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn slice_mut_find<'a, T, P: FnMut(&&'a mut T) -> bool>(it: &mut std::slice::IterMut<'a, T>, mut f: P) -> Option<&'a mut T> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn slice_mut_position<'a, T, P: FnMut(&'a mut T) -> bool>(it: &mut std::slice::IterMut<'a, T>, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i) } i += 1; }
    None
}
pub fn slice_mut_for_each<'a, T, F: FnMut(&'a mut T)>(mut it: std::slice::IterMut<'a, T>, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn rf_next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> {
    let n = r.start;
    r.start = n + 1;
    Some(n)
}
pub struct StepBy<I> { it: I, step: usize, first: bool }
pub fn rangefrom_next<A: Clone + StepUp>(r: &mut std::ops::RangeFrom<A>) -> Option<A> {
    let n = r.start.clone();
    r.start = n.up();
    Some(n)
}
pub trait StepUp { fn up(&self) -> Self; }
macro_rules! up { ($($t:ty)*) => { $(impl StepUp for $t { fn up(&self) -> Self { *self + 1 } })* } }
up!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

// ------------------------------------------------------------------ vectors and slices
pub fn vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(x.clone()) }
}
pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(f()) }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() { if f(&v[i]) { i += 1 } else { v.remove(i); } }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() { if f(&mut v[i]) { i += 1 } else { v.remove(i); } }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() { if v[i] == v[i - 1] { v.remove(i); } else { i += 1 } }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0], &mut a[i - 1]) { v.remove(i); } else { i += 1 }
    }
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0]) == f(&mut a[i - 1]) { v.remove(i); } else { i += 1 }
    }
}
pub fn vec_split_off<T, A>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    if at > v.len() { panic!("split_off") }
    let mut r = Vec::new();
    while v.len() > at { r.push(v.remove(at)) }
    r
}
pub fn vec_extend_reserve<T, A>(v: &mut Vec<T>, n: usize) {}
pub fn vec_extend_one<T, A>(v: &mut Vec<T>, x: T) { v.push(x) }
pub fn vec_pop_if<T, A>(v: &mut Vec<T>, f: impl FnOnce(&mut T) -> bool) -> Option<T> {
    let l = v.last_mut()?;
    if f(l) { v.pop() } else { None }
}
/// stable insertion sort
fn insort<T>(v: &mut [T], mut less: impl FnMut(&T, &T) -> bool) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && less(&v[j], &v[j - 1]) { v.swap(j, j - 1); j -= 1; }
        i += 1;
    }
}
pub fn sort<T: Ord>(v: &mut [T]) { insort(v, |a, b| a < b) }
pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut [T], mut f: F) { insort(v, |a, b| f(a, b) == Ordering::Less) }
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) { insort(v, |a, b| f(a) < f(b)) }
pub fn is_sorted<T: PartialOrd>(v: &[T]) -> bool {
    let mut i = 1;
    while i < v.len() { if !(v[i - 1] <= v[i]) { return false } i += 1 }
    true
}
pub fn binary_search<T: Ord>(v: &[T], x: &T) -> Result<usize, usize> { binary_search_by(v, |y| y.cmp(x)) }
pub fn binary_search_by<T, F: FnMut(&T) -> Ordering>(v: &[T], mut f: F) -> Result<usize, usize> {
    let mut lo = 0;
    let mut hi = v.len();
    while lo < hi {
        let m = (lo + hi) / 2;
        match f(&v[m]) { Ordering::Equal => return Ok(m), Ordering::Less => lo = m + 1, Ordering::Greater => hi = m }
    }
    Err(lo)
}
pub fn binary_search_by_key<T, B: Ord, F: FnMut(&T) -> B>(v: &[T], b: &B, mut f: F) -> Result<usize, usize> { binary_search_by(v, |y| f(y).cmp(b)) }
pub fn partition_point<T, P: FnMut(&T) -> bool>(v: &[T], mut f: P) -> usize {
    let mut i = 0;
    while i < v.len() && f(&v[i]) { i += 1 }
    i
}
pub fn starts_with<T: PartialEq>(v: &[T], w: &[T]) -> bool {
    if w.len() > v.len() { return false }
    let mut i = 0;
    while i < w.len() { if v[i] != w[i] { return false } i += 1 }
    true
}
pub fn ends_with<T: PartialEq>(v: &[T], w: &[T]) -> bool {
    if w.len() > v.len() { return false }
    let d = v.len() - w.len();
    let mut i = 0;
    while i < w.len() { if v[d + i] != w[i] { return false } i += 1 }
    true
}
pub fn slice_fill<T: Clone>(v: &mut [T], x: T) {
    let mut i = 0;
    while i < v.len() { v[i] = x.clone(); i += 1 }
}
pub fn clone_from_slice<T: Clone>(v: &mut [T], w: &[T]) {
    if v.len() != w.len() { panic!("length") }
    let mut i = 0;
    while i < v.len() { v[i] = w[i].clone(); i += 1 }
}
pub fn copy_from_slice<T: Copy>(v: &mut [T], w: &[T]) {
    if v.len() != w.len() { panic!("length") }
    let mut i = 0;
    while i < v.len() { v[i] = w[i]; i += 1 }
}
pub fn slice_repeat<T: Copy>(v: &[T], n: usize) -> Vec<T> {
    let mut r = Vec::new();
    let mut k = 0;
    while k < n { let mut i = 0; while i < v.len() { r.push(v[i]); i += 1 } k += 1 }
    r
}
pub fn rotate_left<T>(v: &mut [T], n: usize) {
    if n > v.len() { panic!("rotate") }
    let mut k = 0;
    while k < n { let mut i = 1; while i < v.len() { v.swap(i - 1, i); i += 1 } k += 1 }
}
pub fn rotate_right<T>(v: &mut [T], n: usize) {
    if n > v.len() { panic!("rotate") }
    let m = v.len() - n;
    rotate_left(v, m)
}

// ------------------------------------------------------------------ maps
pub fn bm_retain<K: Ord, V, A, F: FnMut(&K, &mut V) -> bool>(m: &mut BTreeMap<K, V>, mut f: F) {
    let mut n = BTreeMap::new();
    for (k, mut v) in std::mem::take(m) { if f(&k, &mut v) { n.insert(k, v); } }
    *m = n;
}
pub fn bm_append<K: Ord, V, A>(m: &mut BTreeMap<K, V>, o: &mut BTreeMap<K, V>) {
    for (k, v) in std::mem::take(o) { m.insert(k, v); }
}
pub fn bm_first<'a, K: Ord, V, A>(m: &'a BTreeMap<K, V>) -> Option<(&'a K, &'a V)> { m.iter().next() }
pub fn bm_last<'a, K: Ord, V, A>(m: &'a BTreeMap<K, V>) -> Option<(&'a K, &'a V)> { m.iter().next_back() }
pub fn bm_pop_first<K: Ord, V, A>(m: &mut BTreeMap<K, V>) -> Option<(K, V)> {
    let mut it = std::mem::take(m).into_iter();
    let r = it.next();
    *m = it.collect();
    r
}
pub fn bm_pop_last<K: Ord, V, A>(m: &mut BTreeMap<K, V>) -> Option<(K, V)> {
    let mut it = std::mem::take(m).into_iter();
    let r = it.next_back();
    *m = it.collect();
    r
}
pub fn bm_extend_ref<'a, K: Ord + Copy + 'a, V: Copy + 'a, A, I: IntoIterator<Item = (&'a K, &'a V)>>(m: &mut BTreeMap<K, V>, i: I) {
    for (k, v) in i { m.insert(*k, *v); }
}

// ------------------------------------------------------------------ options, results, cells
pub fn opt_as_slice<T>(o: &Option<T>) -> &[T] {
    match o { Some(x) => std::slice::from_ref(x), None => &[] }
}

pub fn slice_iter_as_slice() {}
pub fn vec_extend_one_unchecked<T, A>(v: &mut Vec<T>, x: T) { v.push(x) }
pub fn slice_concat<T, I: ConcatFrom<T> + ?Sized>(v: &I) -> Vec<T> { v.cat() }
pub trait ConcatFrom<T> { fn cat(&self) -> Vec<T>; }

pub fn range_contains<Idx: PartialOrd<U>, U: PartialOrd<Idx>>(r: &std::ops::Range<Idx>, u: &U) -> bool { r.start <= *u && *u < r.end }
pub fn range_incl_contains<Idx: PartialOrd<U>, U: PartialOrd<Idx>>(r: &std::ops::RangeInclusive<Idx>, u: &U) -> bool { *r.start() <= *u && *u <= *r.end() }
pub fn range_is_empty<Idx: PartialOrd<Idx>>(r: &std::ops::Range<Idx>) -> bool { !(r.start < r.end) }
pub fn array_from_slice<T: Copy, const N: usize>(s: &[T]) -> Result<[T; N], std::array::TryFromSliceError> {
    match <[T; N]>::try_from(s.to_vec()) { Ok(a) => Ok(a), Err(_) => Err(try_from_slice_error()) }
}
fn try_from_slice_error() -> std::array::TryFromSliceError { loop {} }

// ------------------------------------------------------------------ speedy: a text is one token
pub fn sp_read_string<'a, C: speedy::Context, R: speedy::Reader<'a, C>>(r: &mut R) -> Result<String, C::Error> {
    let n = r.read_u32()?;
    match r.read_bytes_borrowed_until_eof() {
        Some(b) => Ok(crate::support::bytes_text(b)),
        None => Err(C::Error::from(unreadable())),
    }
}
fn unreadable() -> speedy::Error { loop {} }
pub fn sp_write_string<C: speedy::Context, W: ?Sized + speedy::Writer<C>>(s: &String, w: &mut W) -> Result<(), C::Error> {
    w.write_u32(0)?;
    w.write_bytes(crate::support::text_bytes(s.as_str()))
}
