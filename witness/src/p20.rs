//! P20: the operations of reflected lists, arrays and maps are those of sequences and maps.
use crate::support::*;
use crate::types::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn place(r: Option<&dyn Reflect>, l: Option<Loc>) -> bool {
    match (r, l) { (Some(r), Some(l)) => at_loc(r.as_reflect(), l), (None, None) => true, _ => false }
}
fn place_mut(r: Option<&mut dyn Reflect>, l: Option<Loc>) -> bool {
    match (r, l) { (Some(r), Some(l)) => at_loc(r.as_reflect(), l), (None, None) => true, _ => false }
}
/// the object itself; a box or a dynamic value is seen as its content
trait Item: FromReflect + DescribeType { fn is(&self, r: &dyn Reflect) -> bool; }
macro_rules! item {
    (own: $($t:ty),*) => { $(impl Item for $t { fn is(&self, r: &dyn Reflect) -> bool { match r.downcast_ref::<$t>() { Some(x) => veq(x, self), None => false } } })* };
    (content: $($t:ty),*) => { $(impl Item for $t { fn is(&self, r: &dyn Reflect) -> bool { veq(&r.to_value(), &self.to_value()) } })* };
}
item!(own: i32, String, T1, S3, Option<i32>, Vec<i32>, (i32, String), [i32; 2]);
item!(content: Box<i32>, Value);
fn boxed<T: Item>(r: &Option<Box<dyn Reflect>>, want: Option<&T>) -> bool {
    match (r, want) {
        (Some(r), Some(w)) => w.is(&**r),
        (None, None) => true,
        _ => false,
    }
}
fn same_items<T>(v: &[T], w: &[T]) -> bool {
    if v.len() != w.len() { return false }
    let mut i = 0;
    while i < v.len() { if !veq(&v[i], &w[i]) { return false } i += 1 }
    true
}
fn seq(len: usize, d: &mut dyn Array, ls: &[Loc], i: usize) {
    let want = if i < len { Some(ls[i]) } else { None };
    check("the length is the number of elements", d.len() == len && d.is_empty() == (len == 0));
    check("an element is found at its position, nothing elsewhere", place(d.get(i), want));
    check("mutable and shared lookups give the same element", place_mut(d.get_mut(i), want));
    let mut k = 0;
    for r in d.iter() {
        check("iteration yields the elements in order", k < len && at_loc(r.as_reflect(), ls[k]));
        k += 1;
    }
    check("iteration yields every element", k == len);
    let mut k = 0;
    for r in d.iter_mut() {
        check("mutable iteration yields the elements in order", k < len && at_loc(r.as_reflect(), ls[k]));
        k += 1;
    }
    check("mutable iteration yields every element", k == len);
}
fn locs<T: Reflect>(v: &[T]) -> Vec<Loc> {
    let mut ls = Vec::new();
    for x in v { ls.push(loc(x.as_reflect())) }
    ls
}
fn list_read<T: Item>(v: &mut Vec<T>, i: usize) {
    let (n, ls) = (v.len(), locs(v));
    {
        let d: &mut dyn Reflect = v;
        let Some(l) = d.as_list_mut() else { return check("a list is seen as a list", false) };
        check("the length is the number of elements", l.len() == n && l.is_empty() == (n == 0));
        check("an element is found at its position, nothing elsewhere", place(l.get(i), ls.get(i).copied()) && place_mut(l.get_mut(i), ls.get(i).copied()));
    }
    seq(n, v, &ls, i)
}
fn array_read<T: FromReflect + DescribeType, const N: usize>(v: &mut [T; N], i: usize) {
    let ls = locs(&v[..]);
    seq(N, v, &ls, i)
}
fn list_push<T: Item>(v: &mut Vec<T>, r: &dyn Reflect) {
    let mut w: Vec<T> = twin_ref(v);
    let d: &mut dyn List = v;
    d.push(r);
    if let Some(x) = T::from_reflect(r) { w.push(x) }
    check("pushing appends the converted element and nothing else, and ignores one that does not convert", same_items(v, &w));
}
fn list_pop<T: Item>(v: &mut Vec<T>) {
    let mut w: Vec<T> = twin_ref(v);
    let d: &mut dyn List = v;
    let r = d.pop();
    let x = w.pop();
    check("popping gives the last element", boxed(&r, x.as_ref()));
    check("popping removes the last element and nothing else", same_items(v, &w));
}
fn list_remove<T: Item>(v: &mut Vec<T>, i: usize) {
    let mut w: Vec<T> = twin_ref(v);
    let d: &mut dyn List = v;
    let r = d.try_remove(i);
    let x = if i < w.len() { Some(w.remove(i)) } else { None };
    check("removing gives the element at the position, or nothing", boxed(&r, x.as_ref()));
    check("removing takes out that element and keeps the others in order", same_items(v, &w));
}
macro_rules! lists {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_read(v: &mut Vec<$t>, i: usize) { list_read::<$t>(v, i) }
        pub fn ob_push(v: &mut Vec<$t>, r: &dyn Reflect) { list_push::<$t>(v, r) }
        pub fn ob_pop(v: &mut Vec<$t>) { list_pop::<$t>(v) }
        pub fn ob_remove(v: &mut Vec<$t>, i: usize) { list_remove::<$t>(v, i) }
    })* };
}
lists!(li32 = i32, lstring = String, lt1 = T1, ls3 = S3, lopt = Option<i32>, lvec = Vec<i32>, ltup = (i32, String), lbox = Box<i32>, lval = Value);
macro_rules! arrays {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_read(v: &mut $t, i: usize) { array_read(v, i) } })* };
}
arrays!(a0 = [i32; 0], a1 = [S3; 1], a2 = [i32; 2], a3 = [String; 3], a_nest = [[i32; 2]; 2], a_box = [Box<i32>; 2]);

fn same_map<K, V>(a: &BTreeMap<K, V>, b: &BTreeMap<K, V>) -> bool {
    if a.len() != b.len() { return false }
    let mut j = b.iter();
    for (k, v) in a.iter() {
        let Some((l, w)) = j.next() else { return false };
        if !veq(k, l) || !veq(v, w) { return false }
    }
    true
}
fn map_read<K: FromReflect + DescribeType + Ord, V: Item>(m: &mut BTreeMap<K, V>, k: &dyn Reflect) {
    let n = m.len();
    let want = match K::from_reflect(k) { Some(k) => m.get(&k).map(|v| loc(v.as_reflect())), None => None };
    let mut ls = Vec::new();
    for (k, v) in m.iter() { ls.push((loc(k.as_reflect()), loc(v.as_reflect()))) }
    let d: &mut dyn Map = m;
    check("the length is the number of entries", d.len() == n && d.is_empty() == (n == 0));
    check("the entry of an equal key is found, nothing otherwise", place(d.get(k), want));
    check("mutable and shared lookups give the same entry", place_mut(d.get_mut(k), want));
    let mut i = 0;
    for (k, v) in d.iter() {
        check("iteration yields the entries in key order", i < n && at_loc(k.as_reflect(), ls[i].0) && at_loc(v.as_reflect(), ls[i].1));
        i += 1;
    }
    check("iteration yields every entry", i == n);
    let mut i = 0;
    for (k, v) in d.iter_mut() {
        check("mutable iteration yields the entries in key order", i < n && at_loc(k.as_reflect(), ls[i].0) && at_loc(v.as_reflect(), ls[i].1));
        i += 1;
    }
    check("mutable iteration yields every entry", i == n);
}
fn map_insert<K: FromReflect + DescribeType + Ord, V: Item>(m: &mut BTreeMap<K, V>, k: &dyn Reflect, v: &dyn Reflect) {
    let mut w: BTreeMap<K, V> = twin_ref(m);
    let d: &mut dyn Map = m;
    let r = d.insert(k, v);
    let old = match (K::from_reflect(k), V::from_reflect(v)) { (Some(k), Some(v)) => w.insert(k, v), _ => None };
    check("inserting gives the value it replaces", boxed(&r, old.as_ref()));
    check("inserting sets the entry of the converted key and nothing else, and ignores what does not convert", same_map(m, &w));
}
fn map_remove<K: FromReflect + DescribeType + Ord, V: Item>(m: &mut BTreeMap<K, V>, k: &dyn Reflect) {
    let mut w: BTreeMap<K, V> = twin_ref(m);
    let d: &mut dyn Map = m;
    let r = d.remove(k);
    let old = match K::from_reflect(k) { Some(k) => w.remove(&k), None => None };
    check("removing gives the value of the entry", boxed(&r, old.as_ref()));
    check("removing takes out that entry and nothing else", same_map(m, &w));
}
macro_rules! maps {
    ($($m:ident = $k:ty, $v:ty);* $(;)?) => { $(pub mod $m { use super::*;
        pub fn ob_read(m: &mut BTreeMap<$k, $v>, k: &dyn Reflect) { map_read::<$k, $v>(m, k) }
        pub fn ob_insert(m: &mut BTreeMap<$k, $v>, k: &dyn Reflect, v: &dyn Reflect) { map_insert::<$k, $v>(m, k, v) }
        pub fn ob_remove(m: &mut BTreeMap<$k, $v>, k: &dyn Reflect) { map_remove::<$k, $v>(m, k) }
    })* };
}
maps!(mi = i32, i32; ms = String, i32; mt = i32, T1; mo = String, Option<i32>; mb = i32, Box<i32>; mv = i32, Vec<i32>);
/// typed keys: every key of the map's own type is found
pub fn ob_typed(m: &mut BTreeMap<String, i32>, k: String, v: i32) {
    let d: &mut dyn Map = m;
    d.insert(&k, &v);
    check("what was inserted is found", match d.get(&k) { Some(r) => r.downcast_ref::<i32>() == Some(&v), None => false });
    let r = d.remove(&k);
    check("what was inserted is removed", boxed(&r, Some(&v)) && d.get(&k).is_none());
}
pub fn ob_stack(v: &mut Vec<i32>, x: i32, y: i32) {
    let w: Vec<i32> = twin_ref(v);
    let d: &mut dyn List = v;
    d.push(&x);
    d.push(&y);
    let a = d.pop();
    let b = d.pop();
    check("elements are popped in reverse order", boxed(&a, Some(&y)) && boxed(&b, Some(&x)));
    check("popping what was pushed restores the list", same_items(v, &w));
}
