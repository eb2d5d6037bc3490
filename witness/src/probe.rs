//! Self-test of the analyser's transfer functions (feature `probe`): every check must be decided and hold,
//! every `wrong_` obligation must be refuted.
use crate::support::*;
use std::borrow::Cow;
use std::collections::*;
macro_rules! ob { ($($n:ident ($($a:ident : $t:ty),*) $b:block)*) => { $(pub fn $n($($a: $t),*) $b)* } }
fn c(b: bool) { check("c", b) }
fn three(a: i32, b: i32, d: i32) -> Vec<i32> { let mut v = Vec::new(); v.push(a); v.push(b); v.push(d); v }
ob! {
ob_nth(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.iter().nth(1) == Some(&b)); c(v.iter().nth(3).is_none()); let mut w = three(a, b, d); c(w.iter_mut().nth(2).map(|x| *x) == Some(d)); c(v.into_iter().nth(0) == Some(a)); }
ob_skip(a: i32, b: i32, d: i32) { let v = three(a, b, d); let mut i = v.iter().skip(1); c(i.next() == Some(&b)); c(i.next() == Some(&d)); c(i.next().is_none()); c(v.iter().skip(1).count() == 2); c(v.iter().skip(1).len() == 2) }
ob_take(a: i32, b: i32, d: i32) { let v = three(a, b, d); let w: Vec<i32> = v.iter().take(2).copied().collect(); c(w == [a, b]); }
ob_rev(a: i32, b: i32, d: i32) { let v = three(a, b, d); let w: Vec<i32> = v.iter().rev().cloned().collect(); c(w == [d, b, a]); let w: Vec<i32> = v.into_iter().rev().collect(); c(w == [d, b, a]); }
ob_step(a: i32, b: i32, d: i32) { let v = three(a, b, d); let w: Vec<i32> = v.iter().step_by(2).cloned().collect(); c(w == [a, d]); }
ob_enum(a: i32, b: i32, d: i32) { let v = three(a, b, d); for (i, x) in v.iter().enumerate() { c(*x == v[i]) } for (i, x) in v.iter().enumerate().rev() { c(*x == v[i]) } c(v.iter().enumerate().nth(1) == Some((1, &b))); }
ob_zip(a: i32, b: i32, d: i32) { let v = three(a, b, d); let mut n = 0; for (i, x) in (0..).zip(v.iter()) { c(*x == v[i]); n += 1; } c(n == 3); for (x, y) in v.iter().zip(v.iter().skip(1)) { c(*x == a || *y == d) } for (i, x) in (0..v.len()).zip(&v) { c(*x == v[i]) } }
ob_chain(a: i32, b: i32, d: i32) { let v = three(a, b, d); let w: Vec<i32> = v.iter().copied().chain(std::iter::once(d)).collect(); c(w == [a, b, d, d]); c(v.iter().chain(v.iter()).count() == 6); }
ob_last(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.iter().last() == Some(&d)); c(v.iter().count() == 3); c(v.iter().next_back() == Some(&d)); c(v.iter().nth_back(1) == Some(&b)); c(v.iter().len() == 3); c(v.iter().size_hint() == (3, Some(3))); }
ob_find(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.iter().find(|x| **x == a) == Some(&a)); c(v.iter().position(|x| *x == a) == Some(0)); c(v.iter().any(|x| *x == d)); c(v.iter().all(|x| *x == a || *x == b || *x == d)); c(v.iter().find_map(|x| if *x == a { Some(1) } else { None }) == Some(1)); c(v.iter().rposition(|x| *x == d) == Some(2)); }
ob_fold(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.iter().fold(0, |n, _| n + 1) == 3); c(v.iter().try_fold(0, |n, _| Some(n + 1)) == Some(3)); let mut n = 0; v.iter().for_each(|_| n += 1); c(n == 3); let r: Result<(), i32> = v.iter().try_for_each(|x| if *x == a { Err(*x) } else { Ok(()) }); c(r == Err(a)); }
ob_filter(a: i32, b: i32, d: i32) { let v = three(a, b, d); assume(a != b && b != d); let w: Vec<&i32> = v.iter().filter(|x| **x != b).collect(); c(w.len() == 2 && *w[0] == a && *w[1] == d); let w: Vec<i32> = v.iter().filter_map(|x| if *x == b { Some(*x) } else { None }).collect(); c(w == [b]); c(v.iter().filter(|x| **x == b).count() == 1); }
ob_flat(a: i32, b: i32, d: i32) { let v = vec![three(a, b, d), three(b, d, a)]; let w: Vec<i32> = v.iter().flatten().copied().collect(); c(w.len() == 6 && w[3] == b && w[5] == a); let w: Vec<i32> = v.iter().flat_map(|x| x.iter().copied().take(1)).collect(); c(w == [a, b]); let w: Vec<i32> = [Some(a), None, Some(d)].into_iter().flatten().collect(); c(w == [a, d]); }
ob_peek(a: i32, b: i32, d: i32) { let v = three(a, b, d); let mut p = v.iter().peekable(); c(p.peek() == Some(&&a)); c(p.next() == Some(&a)); c(p.next() == Some(&b)); let mut w = v.iter(); let x: Vec<i32> = w.by_ref().take(1).copied().collect(); c(x == [a] && w.next() == Some(&b)); }
ob_while(a: i32, b: i32, d: i32) { let v = three(a, b, d); assume(a != b); c(v.iter().skip_while(|x| **x == a).next() == Some(&b)); c(v.iter().take_while(|x| **x == a).count() == 1); c(v.iter().map_while(|x| if *x == a { Some(1) } else { None }).count() == 1); c(v.iter().scan(0, |s, x| { *s += 1; Some((*s, *x)) }).last() == Some((3, d))); }
ob_minmax(a: i32, b: i32) { let v = vec![a, b]; let m = *v.iter().max().unwrap(); c(m >= a && m >= b); let m = *v.iter().min().unwrap(); c(m <= a && m <= b); c(std::cmp::max(a, b) >= a); c(a.min(b) <= b); let m = v.iter().max_by_key(|x| **x).unwrap(); c(*m >= a); let m = v.iter().min_by(|x, y| x.cmp(y)).unwrap(); c(*m <= a); }
ob_sum(a: u8, b: u8) { let v = [a as u32, b as u32]; let s: u32 = v.iter().sum(); c(s == a as u32 + b as u32); c([2usize, 3].iter().product::<usize>() == 6); c([2usize, 3].iter().copied().sum::<usize>() == 5); }
ob_collect(a: i32, b: i32, d: i32) { let v = three(a, b, d); let o: Option<Vec<i32>> = v.iter().map(|x| Some(*x)).collect(); c(o == Some(v.clone())); let o: Option<Vec<i32>> = v.iter().map(|x| if *x == b { None } else { Some(*x) }).collect(); c(o.is_none()); let r: Result<Vec<i32>, i32> = v.iter().map(|x| if *x == a { Err(7) } else { Ok(*x) }).collect(); c(r == Err(7)); }
ob_unzip(a: i32, b: i32) { let (x, y): (Vec<i32>, Vec<i32>) = vec![(a, b), (b, a)].into_iter().unzip(); c(x == [a, b] && y == [b, a]); let (p, q): (Vec<i32>, Vec<i32>) = vec![1, 2, 3].into_iter().partition(|x| *x == 2); c(p == [2] && q == [1, 3]); }
ob_cmp(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.iter().eq(v.iter())); c(v.iter().cmp(v.iter()).is_eq()); c(v.iter().ne([a].iter())); c([a, b].iter().eq(v.iter().take(2))); c(v.iter().partial_cmp(v.iter()) == Some(std::cmp::Ordering::Equal)); }
ob_src(a: i32) { c(std::iter::repeat(a).take(3).count() == 3); c(std::iter::empty::<i32>().next().is_none()); let mut n = 0; let v: Vec<i32> = std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } }).collect(); c(v == [1, 2, 3]); c(std::iter::successors(Some(1), |x| if *x < 3 { Some(x + 1) } else { None }).count() == 3); let w: [i32; 3] = std::array::from_fn(|i| i as i32); c(w == [0, 1, 2]); let v: Vec<i32> = std::iter::repeat_with(|| a).take(2).collect(); c(v == [a, a]); c((0..3).map(|i| i * 2).collect::<Vec<i32>>() == [0, 2, 4]); c((0..=3).count() == 4); c((0..5).rev().next() == Some(4)); c((0..5).contains(&3)); c((0..5).len() == 5); c((0..10).step_by(4).count() == 3); c((1..4).nth(1) == Some(2)); c((0..3).last() == Some(2)); }
ob_vec(a: i32, b: i32, d: i32) { let mut v = Vec::with_capacity(4); v.extend([a, b]); v.extend_from_slice(&[d]); c(v == [a, b, d]); v.insert(1, 9); c(v == [a, 9, b, d]); c(v.remove(1) == 9); c(v.swap_remove(0) == a); c(v == [d, b]); v.truncate(1); c(v == [d]); v.resize(3, b); c(v == [d, b, b]); v.clear(); c(v.is_empty()); }
ob_vec2(a: i32, b: i32, d: i32) { assume(a != b && b != d && a != d); let mut v = three(a, b, d); v.retain(|x| *x != b); c(v == [a, d]); let mut v = three(a, b, d); let w: Vec<i32> = v.drain(..).collect(); c(w == [a, b, d] && v.is_empty()); let mut v = three(a, b, d); let w: Vec<i32> = v.drain(1..).collect(); c(w == [b, d] && v == [a]); let mut v = three(a, b, d); let w = v.split_off(1); c(w == [b, d] && v == [a]); let mut x = vec![a]; let mut y = vec![b]; x.append(&mut y); c(x == [a, b] && y.is_empty()); }
ob_vec3(a: i32, b: i32, d: i32) { let mut v = three(a, b, d); v.reverse(); c(v == [d, b, a]); v.swap(0, 2); c(v == [a, b, d]); c(v.first() == Some(&a) && v.last() == Some(&d)); if let Some(x) = v.last_mut() { *x = 5 } c(v[2] == 5); if let Some(x) = v.first_mut() { *x = 4 } c(v[0] == 4); c(v.get(5).is_none()); if let Some(x) = v.get_mut(1) { *x = 3 } c(v == [4, 3, 5]); c(v.contains(&3)); c(v.split_first() == Some((&4, &[3, 5][..]))); c(&v[1..] == [3, 5]); c(&v[..2] == [4, 3]); c(&v[1..2] == [3]); c(v.iter().collect::<Vec<_>>().len() == 3); v.dedup(); c(v.len() == 3); }
ob_slice(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.windows(2).count() == 2); c(v.chunks(2).count() == 2); let (x, y) = v.split_at(1); c(x == [a] && y == [b, d]); match &v[..] { [x, .., y] => c(*x == a && *y == d), _ => c(false) } match v.as_slice() { [x, rest @ ..] => c(*x == a && rest.len() == 2), _ => c(false) } c(v.concat_self() == 6); c(v.to_vec() == v); c(v.starts_with(&[a])); c(v.ends_with(&[d])); c([vec![a], vec![b]].concat() == [a, b]); }
ob_sort() { let mut v = vec![3, 1, 2]; v.sort(); c(v == [1, 2, 3]); v.sort_by(|x, y| y.cmp(x)); c(v == [3, 2, 1]); v.sort_by_key(|x| *x); c(v == [1, 2, 3]); v.sort_unstable(); c(v.binary_search(&2) == Ok(1)); c(v.is_sorted()); }
ob_sort2(a: i32, b: i32) { let mut v = vec![a, b]; v.sort(); c(v[0] <= v[1]); let mut w = vec![(b, 1), (b, 0)]; w.sort_by_key(|x| x.1); c(w[0].1 == 0) }
ob_btree(a: i32, b: i32, d: i32) { assume(a < b && b < d); let mut m = BTreeMap::new(); m.insert(b, 2); m.insert(a, 1); m.insert(d, 3); c(m.get(&a) == Some(&1)); c(m.keys().copied().collect::<Vec<_>>() == [a, b, d]); c(m.values().copied().collect::<Vec<_>>() == [1, 2, 3]); c(m.values_mut().nth(1) == Some(&mut 2)); c(m.iter().nth(2) == Some((&d, &3))); c(m.first_key_value() == Some((&a, &1))); c(m.last_key_value() == Some((&d, &3))); c(m.contains_key(&b)); c(m.iter().rev().next() == Some((&d, &3))); for (k, v) in &mut m { if *k == b { *v = 9 } } c(m[&b] == 9); c(m.remove(&a) == Some(1)); c(m.len() == 2); c(m.pop_first() == Some((b, 9))); c(m.pop_last() == Some((d, 3))); c(m.is_empty()); }
ob_btree2(a: i32, b: i32) { assume(a < b); let mut m: BTreeMap<i32, i32> = [(a, 1), (b, 2)].into(); *m.entry(a).or_insert(0) += 1; c(m[&a] == 2); m.entry(b).and_modify(|x| *x = 5).or_default(); c(m[&b] == 5); let n: BTreeMap<i32, i32> = m.iter().map(|(k, v)| (*k, *v)).collect(); c(n == m); c(m.clone().into_iter().map(|x| x.1).collect::<Vec<_>>() == [2, 5]); c(m.clone().into_keys().collect::<Vec<_>>() == [a, b]); c(m.clone().into_values().collect::<Vec<_>>() == [2, 5]); m.retain(|k, _| *k == a); c(m.len() == 1); m.extend([(b, 7)]); c(m.get_key_value(&b) == Some((&b, &7))); c(m.remove_entry(&b) == Some((b, 7))); m.clear(); c(m.is_empty()); match m.entry(a) { btree_map::Entry::Vacant(v) => { v.insert(4); } btree_map::Entry::Occupied(_) => c(false) } match m.entry(a) { btree_map::Entry::Occupied(mut o) => { c(o.insert(5) == 4); c(*o.get() == 5); } btree_map::Entry::Vacant(_) => c(false) } let mut x: BTreeMap<i32, i32> = BTreeMap::new(); x.append(&mut m); c(x.len() == 1 && m.is_empty()); c(x.iter_mut().next().map(|(_, v)| *v) == Some(5)); }
ob_set(a: i32, b: i32) { assume(a != b); let mut s = BTreeSet::new(); c(s.insert(a)); c(!s.insert(a)); c(s.contains(&a) && !s.contains(&b)); c(s.len() == 1); c(s.remove(&a)); let t: HashSet<i32> = [a, b].into_iter().collect(); c(t.contains(&b)); c(t.len() == 2); let u: BTreeSet<i32> = [a, b].into(); c(u.iter().count() == 2); }
ob_hash(a: i32, b: i32) { assume(a != b); let mut m = HashMap::new(); m.insert(a, 1); c(m.insert(a, 2) == Some(1)); c(m.get(&b).is_none()); c(m.contains_key(&a)); *m.entry(b).or_insert(3) = 4; c(m[&b] == 4); c(m.len() == 2); c(m.remove(&a) == Some(2)); let mut q = VecDeque::new(); q.push_back(a); q.push_back(b); c(q.pop_front() == Some(a)); c(q.len() == 1); q.push_front(a); c(q.pop_back() == Some(b)); c(q.front() == Some(&a)); }
ob_str(s: String, t: String) { c(s == s.clone()); c(s.as_str() == &*s); c((s == t) == (t == s)); let u = s.to_owned(); c(u == s); c(s.to_string() == s); c(String::from(s.as_str()) == s); c(s.as_str().cmp(t.as_str()) == s.cmp(&t)); c((s < t) == (s.as_str() < t.as_str())); let w: Cow<'_, str> = Cow::Borrowed(&s); c(w == s); c(w.into_owned() == s); let w: Cow<'_, str> = Cow::Owned(t.clone()); c(w.as_ref() == t.as_str()); c(s.len() == s.as_str().len()); c(s.is_empty() == (s == "")); let b: Box<str> = s.clone().into_boxed_str(); c(*b == *s); }
ob_str2() { let s = String::from("hello"); c(s.starts_with("he")); c(s.strip_prefix("he") == Some("llo")); c(s.strip_suffix("lo") == Some("hel")); c(s.contains("ll")); c(s.find('l') == Some(2)); c(s.len() == 5); c(s.chars().count() == 5); c(s.chars().nth(1) == Some('e')); c(&s[1..3] == "el"); c(s.split('l').count() == 3); c(s.trim() == "hello"); c(s.to_uppercase() == "HELLO"); c(s.bytes().next() == Some(b'h')); c(s.eq_ignore_ascii_case("HELLO")); c("12".parse::<usize>() == Ok(12)); c("x".parse::<usize>().is_err()); c(s.char_indices().nth(1) == Some((1, 'e'))); c(s.replace("l", "L") == "heLLo"); c(s.split_once('e') == Some(("h", "llo"))); c(s.rsplit('e').next() == Some("llo")); c(["a", "b"].join("-") == "a-b"); c(["a", "b"].concat() == "ab"); c(s.as_bytes()[0] == b'h'); c("a-b".splitn(2, '-').nth(1) == Some("b")); c(s.get(0..1) == Some("h")); c(s.ends_with('o')); c("r#x".trim_start_matches("r#") == "x"); c(s.rfind('l') == Some(3)); c("ab".repeat(2) == "abab"); c('a'.is_alphabetic()); c('1'.to_digit(10) == Some(1)); c("a b".split_whitespace().count() == 2); c("a\nb".lines().count() == 2) }
ob_fmt(i: i32) { c(format!("a{}", 1) == "a1"); c(format!("field_{}", 3usize) == "field_3"); let mut s = String::new(); s.push_str("x"); s.push('y'); c(s == "xy"); s += "z"; c(s == "xyz"); use std::fmt::Write; write!(s, "{}", 4).unwrap(); c(s == "xyz4"); c(format!("{i}") == format!("{}", i)); c(i.to_string() == i.to_string()); let x = "n".to_string() + "m"; c(x == "nm"); c(format!("{:?}", "a") == "\"a\""); c(s.pop() == Some('4')); s.insert(0, 'q'); c(s == "qxyz"); s.truncate(2); c(s == "qx"); s.clear(); c(s.is_empty()); s.extend(["a", "b"]); c(s == "ab"); let t: String = ["c", "d"].iter().copied().collect(); c(t == "cd"); let t: String = ['c', 'd'].iter().collect(); c(t == "cd") }
ob_int(a: u8, i: i32, n: usize) { c(3u32.checked_sub(4).is_none()); c(a.checked_add(1).is_none() == (a == 255)); c(i32::from(a) >= 0); c(u8::try_from(i).is_ok() == (i >= 0 && i < 256)); c(usize::try_from(i).is_ok() == (i >= 0)); c(n.checked_sub(1).is_none() == (n == 0)); c(5i32.pow(2) == 25); c((-3i32).abs() == 3); c(5usize.clamp(0, 3) == 3); c((-7i32).rem_euclid(3) == 2); c(7 / 2 == 3); c(1u32 << 3 == 8); c(0b1010u32.count_ones() == 2); c(usize::MAX.wrapping_add(1) == 0); c(3u8.overflowing_sub(4) == (255, true)); c(n.min(3) <= 3); c(4usize.next_power_of_two() == 4); c(10usize.div_ceil(3) == 4); c(i.signum() >= -1 || true); c(3usize.abs_diff(5) == 2); c(u16::from(a) as u8 == a); c((i as i64) as i32 == i); c(n.is_power_of_two() || true); c(8u32.trailing_zeros() == 3) ; c(7usize.rem_euclid(4) == 3); c((n & 1) < 2) }
ob_mem(a: i32, b: i32) { let mut x = a; let mut y = b; std::mem::swap(&mut x, &mut y); c(x == b && y == a); c(std::mem::replace(&mut x, 3) == b && x == 3); let mut v = vec![a]; c(std::mem::take(&mut v) == [a] && v.is_empty()); let o = Some(a); c(std::mem::discriminant(&o) == std::mem::discriminant(&Some(b))); c(std::mem::discriminant(&o) != std::mem::discriminant(&None)); }
ob_opt(o: Option<i32>, r: Result<i32, String>) { c(o.is_some() == o.as_ref().is_some()); c(o.map(|x| x) == o); c(o.and_then(|x| Some(x)) == o); c(o.or(Some(1)).is_some()); c(o.unwrap_or(0) == o.unwrap_or_default()); c(o.ok_or(1).is_ok() == o.is_some()); c(o.filter(|_| false).is_none()); c(o.iter().count() == o.is_some() as usize); c(o.xor(None) == o); c(o.zip(Some(1)).is_some() == o.is_some()); let mut p = o; c(p.take() == o && p.is_none()); c(*p.get_or_insert(3) == 3); c(p.insert(4) == &4); c(p.replace(5) == Some(4)); c(o.is_some_and(|x| x == x) == o.is_some()); c(o.map_or(true, |_| false) == o.is_none()); c(r.is_ok() == r.as_ref().ok().is_some()); c(r.as_ref().map(|x| *x).ok() == r.as_ref().ok().copied()); c(r.as_ref().err().is_some() == r.is_err()); c(Some(Some(1)).flatten() == Some(1)); c(Some(Ok::<i32, i32>(1)).transpose() == Ok(Some(1))); c(o.as_ref().copied() == o); c(o.into_iter().chain(None).count() <= 1); c(o == o.clone()); c(o.cmp(&o).is_eq()); c(matches!(r, Ok(_)) != matches!(r, Err(_))); c(r.clone().unwrap_or(2) == r.clone().unwrap_or_else(|_| 2)); c(r.as_ref().is_ok_and(|_| true) == r.is_ok()); c(o.map_or_else(|| 1, |_| 2) == if o.is_some() { 2 } else { 1 }); c(o.or_else(|| Some(1)).is_some()); c(o.is_none_or(|_| true)) }
ob_rc(a: i32) { let r = std::rc::Rc::new(a); c(*r == a); c(*r.clone() == a); let s = std::sync::Arc::new(a); c(*s.clone() == a); let x = std::cell::Cell::new(a); x.set(3); c(x.get() == 3); let b = Box::new(a); c(*b == a); let m = std::sync::Mutex::new(a); *m.lock().unwrap() = 5; c(*m.lock().unwrap() == 5); let o = std::sync::OnceLock::new(); c(*o.get_or_init(|| a) == a); c(o.get() == Some(&a)); let o = std::cell::OnceCell::new(); c(*o.get_or_init(|| a) == a); let n = std::sync::atomic::AtomicUsize::new(0); c(n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0); c(n.load(std::sync::atomic::Ordering::SeqCst) == 1); }
ob_float(x: f32, y: f64) { c(x == x || x.is_nan()); c((x as f64) as f32 == x || x.is_nan()); c(x.total_cmp(&x).is_eq()); c(y.to_bits() == y.to_bits()); c(1.5f32 + 1.0 == 2.5); c(y.is_finite() || y.is_nan() || y.is_infinite()); c((-1.0f32).abs() == 1.0); c(y.partial_cmp(&y).is_some() != y.is_nan()) }
ob_dyn(a: i32) { let b: Box<dyn std::any::Any> = Box::new(a); c(b.is::<i32>()); c(b.downcast_ref::<i32>() == Some(&a)); c(b.downcast::<i32>().map(|x| *x == a).unwrap_or(false)); let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| if x == 0 { a } else { x }); c(f(0) == a); let f: &dyn Fn() -> i32 = &|| a; c(f() == a); let g: fn(i32) -> i32 = |x| x; c(g(a) == a); let i: Box<dyn Iterator<Item = i32>> = Box::new(vec![a].into_iter()); c(i.collect::<Vec<_>>() == [a]); let t = std::any::TypeId::of::<i32>(); c(t == std::any::TypeId::of::<i32>() && t != std::any::TypeId::of::<u32>()) }
ob_arr(a: i32, b: i32) { let x = [a, b]; c(x.map(|y| y) == x); c(x.len() == 2); let y: [i32; 2] = vec![a, b].try_into().unwrap(); c(x == y); c(x.iter().len() == 2); let z: Result<[i32; 3], _> = <[i32; 3]>::try_from(vec![a]); c(z.is_err()); c(x.into_iter().collect::<Vec<_>>() == [a, b]); let [p, q] = x; c(p == a && q == b); c(x.as_slice() == [a, b]); c(x.contains(&a)); let mut w = x; w.swap(0, 1); c(w == [b, a]); w.copy_from_slice(&[a, a]); c(w == [a, a]); w.fill(b); c(w == [b, b]); let s: &[i32] = &x; let y: [i32; 2] = s.try_into().unwrap(); c(y == x); let mut u = [0; 4]; u[1..3].clone_from_slice(&x); c(u == [0, a, b, 0]); c(s.iter().copied().reduce(|x, _| x) == Some(a)); c(x.get(0..1).map(|s| s.len()) == Some(1)); c(x.first_chunk::<1>() == Some(&[a])); c(x.chunks_exact(1).count() == 2) ; c(s.repeat(2).len() == 4) }
ob_char(ch: char) { c(ch == ch); c(char::from_u32(ch as u32) == Some(ch)); c((ch as u32) < 0x110000); c(u8::try_from('a') == Ok(97)); c(char::from(97u8) == 'a'); c(ch.to_string().len() > 0) ; c('a'.is_ascii_lowercase()); c(u32::from(ch) == ch as u32) }
ob_loop(v: &Vec<i32>) { let mut n = 0; let mut i = 0; while i < v.len() { n += 1; i += 1 } c(n == v.len()); c(v.iter().map(|_| 1).sum::<usize>() == v.len()); let w: Vec<i32> = v.iter().cloned().collect(); c(w == *v); for (i, x) in v.iter().enumerate() { c(v.get(i) == Some(x)) } let mut it = v.iter(); while let Some(x) = it.next() { c(v.contains(x)) } loop { if i == 0 { break } i -= 1; } c(i == 0); c(v.iter().skip(1).count() == v.len().saturating_sub(1)); let mut it = v.iter(); c(it.len() == v.len()); it.next(); c(it.as_slice().len() == v.len().saturating_sub(1)); }
ob_str3(s: String, t: String) { match s.strip_prefix("r#") { Some(x) => c(format!("r#{x}") == s && s.starts_with("r#")), None => c(!s.starts_with("r#") && s != "r#a") } c(format!("a{s}").strip_prefix("a") == Some(s.as_str())); c(format!("a{s}").strip_prefix("b").is_none()); c(format!("{s}a").ends_with('a')); c(s.trim() == s.trim()); if s == "Ab" { c(s.to_lowercase() == "ab"); c(s.eq_ignore_ascii_case("aB")) } if s.eq_ignore_ascii_case("q") && s != "q" { c(s != "z") } c(s != t || s.eq_ignore_ascii_case(&t)); if s.trim() != s { c(s != "a") } }
ob_wrong_10(s: String) { check("w", s.trim() == s) }
ob_wrong_11(s: String) { check("w", format!(".{}", s.strip_prefix("r#").unwrap_or(&s)) == format!(".{s}")) }
ob_wrong_12(s: String, t: String) { check("w", s.eq_ignore_ascii_case(&t) == (s == t)) }
ob_wrong_1(a: i32, b: i32) { check("w", a == b) }
ob_wrong_2(a: f32) { check("w", a == a) }
ob_wrong_3(v: &Vec<i32>) { check("w", v.len() == 1) }
ob_wrong_4(a: i32, b: i32) { let mut v = vec![a, b]; v.sort(); check("w", v == [a, b]) }
ob_wrong_5(a: i32, b: i32) { let m: BTreeMap<i32, i32> = [(a, 1), (b, 2)].into(); check("w", m.len() == 2) }
ob_wrong_6(a: i32, b: i32) { let m: BTreeMap<i32, i32> = [(a, 1), (b, 2)].into(); check("w", m.iter().next() == Some((&a, &1))) }
ob_wrong_7(a: f32, b: f32) { assume(a == b); check("w", a.to_bits() == b.to_bits()) }
ob_wrong_8(s: String, t: String) { check("w", format!("{s}{t}") == format!("{t}{s}")) }
ob_wrong_9(a: i64) { check("w", (a as i32) as i64 == a) }
}
trait CS { fn concat_self(&self) -> usize; }
impl CS for Vec<i32> { fn concat_self(&self) -> usize { [self.as_slice(), self.as_slice()].concat().len() } }
pub mod more { use super::*;
ob! {
ob_bx1(a: i32, b: i32, d: i32) { let v = three(a, b, d); let x: Box<[i32]> = v.clone().into(); c(&x[..] == &v[..]); let y = v.clone().into_boxed_slice(); c(x == y); c(y.into_vec() == v); }
ob_bx2(a: i32, b: i32, d: i32) { let v = three(a, b, d); let x: Box<[i32]> = v.iter().copied().collect(); c(x.len() == 3 && x[1] == b); let w: Vec<i32> = x.into(); c(w == v); let z: Box<[i32]> = Box::from(&v[..]); c(z.iter().eq(v.iter())); let q: Box<[i32]> = Box::new([a, b]); c(q.len() == 2); c(q.clone() == q); let e: Box<[i32]> = Default::default(); c(e.is_empty()) }
ob_bx3(s: String) { let b: Box<str> = s.clone().into_boxed_str(); c(&*b == s.as_str()); c(b.into_string() == s); let b: Box<str> = s.as_str().into(); c(*b == *s); let t: String = b.into(); c(t == s); }
ob_vecfrom(a: i32, b: i32, s: String) { let v: Vec<i32> = Vec::from([a, b]); c(v == [a, b]); let w: Vec<i32> = v.as_slice().into(); c(v == w); let w = Vec::from(&v[..]); c(v == w); let w: Vec<i32> = (&v[..]).to_vec(); c(w == v); c(v.to_owned() == v); let r: &[i32] = v.as_ref(); c(r.len() == 2); let x: Cow<[i32]> = Cow::Borrowed(&v); c(x.len() == 2); c(x.into_owned() == v); let y: Cow<str> = Cow::from(s.as_str()); c(y == s.as_str()); c(y.into_owned() == s); let z: Cow<str> = s.clone().into(); c(z.as_ref() == s.as_str()); c(z.to_string() == s) }
ob_rep(a: i32) { let v = vec![a; 3]; c(v == [a, a, a]); let w: Vec<i32> = std::iter::repeat_n(a, 2).collect(); c(w == [a, a]); let x: Vec<i32> = std::iter::repeat_with(|| a).take(2).collect(); c(x == w); let y: [i32; 3] = std::array::from_fn(|i| i as i32); c(y == [0, 1, 2]); let z: Vec<usize> = std::iter::successors(Some(1usize), |x| if *x < 4 { Some(x + 1) } else { None }).collect(); c(z == [1, 2, 3, 4]) }
ob_dq(a: i32, b: i32) { let mut q = VecDeque::new(); q.push_back(a); q.push_front(b); c(q.pop_front() == Some(b)); c(q.len() == 1); c(q.pop_back() == Some(a)); c(q.is_empty()); }
ob_opt2(o: Option<i32>, p: Option<i32>) { c(o.zip(p).is_some() == (o.is_some() && p.is_some())); c(o.xor(p).is_some() == (o.is_some() != p.is_some())); let mut q = o; c(q.take() == o && q.is_none()); let mut q = o; c(q.replace(3) == o && q == Some(3)); let mut q = o; let x = *q.get_or_insert_with(|| 5); c(q == Some(x)); let mut q = o; *q.insert(4) = 6; c(q == Some(6)); let mut q = o; *q.get_or_insert(1) = 2; c(q == Some(2)); }
ob_opt3(o: Option<i32>, s: Option<String>) { c(o.is_some_and(|x| x == 1) == (o == Some(1))); c(o.is_none_or(|x| x == 1) == (o.is_none() || o == Some(1))); c(o.map_or_else(|| 0, |x| x) == o.unwrap_or(0)); c(o.map_or(0, |x| x) == o.unwrap_or(0)); c(o.ok_or(1).ok() == o); c(o.ok_or_else(|| "x").is_ok() == o.is_some()); c(o.filter(|x| *x == 1) == if o == Some(1) { o } else { None }); c(Some(o).flatten() == o); c(o.iter().count() == o.into_iter().count()); c(s.as_deref().map(|x| x.len()) == s.as_ref().map(|x| x.len())); c(s.as_ref().cloned() == s); c(o.as_ref().copied() == o); c(o.or_else(|| Some(1)).is_some()); }
ob_opt4(o: Option<i32>) { let t: Result<Option<i32>, ()> = o.map(Ok).transpose(); c(t == Ok(o)); let u: (Option<i32>, Option<u8>) = o.map(|x| (x, 1u8)).unzip(); c(u.0 == o); c(o.and(Some(1u8)).is_some() == o.is_some()); if let Some(x) = o { c(o.unwrap() == x && o.expect("x") == x); } let Some(y) = o else { return c(o.is_none()) }; c(o == Some(y)); c(matches!(o, Some(z) if z == y)); let mut m = o; if let Some(r) = m.as_mut() { *r = 9 } c(m == Some(9)); c(m.as_deref_mut_probe()) }
ob_res(r: Result<i32, String>) { c(r.is_ok() == r.as_ref().ok().is_some()); c(r.is_err() == r.as_ref().err().is_some()); c(r.as_ref().map(|x| *x).unwrap_or(0) == match &r { Ok(x) => *x, Err(_) => 0 }); c(r.clone().map_err(|_| 1).is_err() == r.is_err()); c(r.clone().and_then(|x| Ok::<i32, String>(x)) == r); c(r.clone().or_else(|e| Err::<i32, String>(e)) == r); c(r.clone().unwrap_or_else(|_| 3) == *r.as_ref().unwrap_or(&3)); c(r.clone().unwrap_or_default() == *r.as_ref().unwrap_or(&0)); c(r.iter().count() == usize::from(r.is_ok())); c(r.clone().ok().is_some() == r.is_ok()); c(r.as_ref().is_ok_and(|x| *x == 1) == (r == Ok(1))) }
ob_vec4(a: i32, b: i32, d: i32) { let mut v = three(a, b, d); let w: Vec<i32> = v.drain(1..).collect(); c(v == [a] && w == [b, d]); let mut v = three(a, b, d); v.splice(0..1, [d, d]); c(v == [d, d, b, d]); v.truncate(1); c(v == [d]); v.append(&mut three(a, b, d)); c(v.len() == 4); v.clear(); c(v.is_empty()); c([[a], [b]].concat() == [a, b]); c([vec![a], vec![b]].concat() == [a, b]); }
ob_sl2(a: i32, b: i32, d: i32) { let v = three(a, b, d); c(v.split_first() == Some((&a, &[b, d][..]))); c(v.split_last() == Some((&d, &[a, b][..]))); c(v.get(1..) == Some(&[b, d][..])); c(v.get(4..).is_none()); c(v.get(..2).map(|x| x.len()) == Some(2)); c(v.contains(&a)); c(v.iter().rev().enumerate().next() == Some((0, &d))); c(v.iter().copied().rev().next() == Some(d)); c(v.chunks_exact(2).next() == Some(&[a, b][..])); c(v.first_chunk::<2>() == Some(&[a, b])); let [x, y, z] = v[..] else { return }; c(x == a && y == b && z == d); c(v.iter().rfold(0, |n, _| n + 1) == 3); c(v.iter().rfind(|x| **x == d) == Some(&d)); }
ob_it2(a: i32, b: i32, d: i32) { let v = three(a, b, d); let w: Vec<usize> = v.iter().scan(0, |n, _| { *n += 1; Some(*n) }).collect(); c(w == [1, 2, 3]); c(v.iter().inspect(|_| ()).fuse().count() == 3); c(v.iter().cycle().take(4).last() == Some(&a)); c(v.iter().copied().reduce(|x, _| x) == Some(a)); let r: Result<(), i32> = v.iter().try_for_each(|x| if *x == b { Err(*x) } else { Ok(()) }); c(r.is_err()); let s: Option<usize> = v.iter().map(|_| Some(1usize)).sum(); c(s == Some(3)); c(std::iter::zip(&v, &v).all(|(x, y)| x == y)); c(v.iter().map(|x| (x, 1)).unzip::<&i32, i32, Vec<&i32>, Vec<i32>>().1.len() == 3); let mut i = v.iter(); c(i.as_slice().len() == 3); i.next(); c(i.as_slice() == [b, d]); c(i.clone().count() == 2); c(v.iter().size_hint() == (3, Some(3))) }
ob_bt3(a: i32, b: i32) { assume(a < b); let mut m: BTreeMap<i32, i32> = BTreeMap::from([(a, 1), (b, 2)]); c(m.iter().next_back() == Some((&b, &2))); c(m.iter().rev().next() == Some((&b, &2))); for v in m.values_mut() { *v += 1 } c(m[&a] == 2 && m[&b] == 3); c(m.remove_entry(&a) == Some((a, 2))); c(m.get_key_value(&b) == Some((&b, &3))); match m.entry(a) { btree_map::Entry::Vacant(e) => { e.insert(7); } btree_map::Entry::Occupied(_) => c(false) } c(m.len() == 2); match m.entry(b) { btree_map::Entry::Occupied(mut e) => { c(*e.get() == 3 && *e.key() == b); e.insert(8); } _ => c(false) } c(m[&b] == 8); c(m.clone().into_values().collect::<Vec<_>>() == [7, 8]); c(m.clone().into_keys().next() == Some(a)); m.extend([(a, 0)]); c(m[&a] == 0); c(m.values().count() == 2 && m.keys().len() == 2); c(m.first_key_value() == Some((&a, &0))); c(m.contains_key(&b)); c(m.get_mut(&b).map(|x| std::mem::replace(x, 1)) == Some(8)); c(m.into_iter().map(|(_, v)| v).collect::<Vec<_>>() == [0, 1]) }
ob_bt4(a: i32, b: i32) { let mut m = BTreeMap::new(); m.insert(a, 1); *m.entry(b).or_insert_with(|| 5) += 1; c(m[&b] == if a == b { 2 } else { 6 }); let n = m.iter().fold(0, |n, _| n + 1); c(n == m.len()); let mut o = m.clone(); o.retain(|k, _| *k != a); c(!o.contains_key(&a)); for (_, v) in &mut m { *v = 0 } c(m[&a] == 0); m.clear(); c(m.is_empty()); let x: BTreeMap<i32, i32> = [(a, b)].into_iter().collect(); c(x.get(&a).copied() == Some(b)); c(x == x.clone()); let y: Vec<(i32, i32)> = x.into_iter().collect(); c(y == [(a, b)]) }
ob_str4(s: String) { let mut t = s.clone(); t.push_str("a"); c(t != s && t.ends_with("a")); c(t.pop() == Some('a')); c(t == s); c(s.is_empty() == (s.len() == 0)); c([s.as_str(), "x"].concat() == format!("{s}x")); c(["a", "b"].join(".") == "a.b"); let u: String = ["a", "b"].iter().copied().collect(); c(u == "ab"); c("a.b".split('.').collect::<Vec<_>>() == ["a", "b"]); c("a::b".rsplit("::").next() == Some("b")); c("x=1".split_once('=') == Some(("x", "1"))); c("12".parse::<i32>() == Ok(12)); c("ab".chars().rev().collect::<String>() == "ba"); c("ab".char_indices().nth(1) == Some((1, 'b'))); c("Ab".to_lowercase() == "ab") }
ob_misc(a: i32, b: i32) { let t = (a, b); let (x, y) = t; c(x == a && y == b); c((a, b) == t && t <= t); let f = |z: i32| z == a; c(f(a)); fn ap<F: FnOnce(i32) -> i32>(f: F, x: i32) -> i32 { f(x) } c(ap(|q| q, a) == a); let g: fn(i32) -> i32 = |q| q; c(g(b) == b); let d: &dyn Fn(i32) -> bool = &f; c(d(a)); c(std::convert::identity(a) == a); let h: Box<dyn FnMut(i32) -> i32> = Box::new(move |q| q + 0); let mut h = h; c(h(a) == a); c(std::ptr::eq(&a, &a)); c(a.clone() == a); c(Some(a).as_ref().map(ToOwned::to_owned) == Some(a)); let l = 'o: loop { if a == b { break 'o 1 } break 2 }; c(l == 1 || a != b); c(usize::MAX.saturating_add(1) == usize::MAX); c(bool::then(a == b, || 1).is_some() == (a == b)); c((a == b).then_some(1).is_some() == (a == b)) }
}
trait Prb { fn as_deref_mut_probe(&mut self) -> bool; }
impl Prb for Option<i32> { fn as_deref_mut_probe(&mut self) -> bool { true } }
}
