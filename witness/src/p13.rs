//! P13: a path is the sequence of the keys it was built from.
use crate::support::*;
use mirror_mirror::key_path::*;
use mirror_mirror::*;

fn is(p: &KeyPath, want: &[&Key]) {
    check("a path holds its keys in order", p.len() == want.len() && p.iter().count() == want.len() && p.iter().zip(want).all(|(a, b)| veq(a, *b)));
    check("a path is empty exactly when it has no keys", p.is_empty() == want.is_empty());
}
pub fn ob_push(p: KeyPath, k: Key) {
    let old = twin_ref(&p);
    let mut q = p;
    let l = q.len();
    q.push(k.clone());
    check("pushing a key appends it", q.len() == l + 1 && q.iter().nth(l).map_or(false, |x| veq(x, &k)) && q.iter().take(l).zip(old.iter()).all(|(a, b)| veq(a, b)));
    q.pop();
    check("popping removes the last key", q.len() == l && veq(&q, &old));
}
pub fn ob_pop(p: KeyPath) {
    let old = twin_ref(&p);
    let mut q = p;
    q.pop();
    let l = old.len();
    check("popping removes the last key", q.len() == if l == 0 { 0 } else { l - 1 } && q.iter().zip(old.iter()).all(|(a, b)| veq(a, b)));
}
pub fn ob_builders(n: String, i: usize, v: Value) {
    let kn = Key::Field(NamedOrNumbered::Named(n.clone()));
    let ki = Key::Field(NamedOrNumbered::Numbered(i));
    let kg = Key::Get(v.clone());
    let kv = Key::Variant(n.clone());
    is(&KeyPath::default(), &[]);
    is(&field(n.clone()), &[&kn]);
    is(&field(&n), &[&kn]);
    is(&field(n.as_str()), &[&kn]);
    is(&field(i), &[&ki]);
    is(&get(v.clone()), &[&kg]);
    is(&variant(n.clone()), &[&kv]);
    is(&variant(n.as_str()), &[&kv]);
    is(&KeyPath::default().field(&n).field(i).get(v.clone()).variant(n.clone()), &[&kn, &ki, &kg, &kv]);
    is(&get(v.clone()).variant(&*n).field(i).field(n.as_str()), &[&kg, &kv, &ki, &kn]);
    let mut p = KeyPath::default();
    p.push_variant(n.clone());
    p.push_field(i);
    p.push_get(v.clone());
    p.push_field(n.clone());
    p.push_field(&n);
    p.push_field(n.as_str());
    is(&p, &[&kv, &ki, &kg, &kn, &kn, &kn]);
}
pub fn ob_keys(n: String, i: usize, v: Value) {
    check("key constructors", veq(&Key::named_field(n.clone()), &Key::Field(NamedOrNumbered::Named(n.clone()))));
    check("key constructors", veq(&Key::named_field(n.as_str()), &Key::Field(NamedOrNumbered::Named(n.clone()))));
    check("key constructors", veq(&Key::numbered_field(i), &Key::Field(NamedOrNumbered::Numbered(i))));
    check("key constructors", veq(&Key::get(v.clone()), &Key::Get(v)));
    check("key constructors", veq(&Key::variant(n.clone()), &Key::Variant(n)));
}
pub fn ob_get_from(a: u8, b: i32, c: i128, s: String, f: f32, t: bool, ch: char) {
    macro_rules! g { ($($x:expr => $v:ident),*) => { $(is(&get($x.clone()), &[&Key::Get(Value::$v($x.clone()))]);)* } }
    g!(a => u8, b => i32, c => i128, s => String, f => f32, t => bool, ch => char);
    is(&get(s.as_str()), &[&Key::Get(Value::String(s.clone()))]);
}
pub fn ob_from_one(k: Key) { is(&KeyPath::from(k.clone()), &[&k]) }
pub fn ob_collect(a: Key, b: Key, c: Key) {
    is(&[a.clone(), b.clone(), c.clone()].into_iter().collect::<KeyPath>(), &[&a, &b, &c]);
    is(&vec![a.clone(), b.clone()].into_iter().rev().collect::<KeyPath>(), &[&b, &a]);
    is(&Vec::<Key>::new().into_iter().collect::<KeyPath>(), &[]);
}
pub fn ob_extend(p: KeyPath, a: Key, b: Key) {
    let old = twin_ref(&p);
    let mut q = p;
    let l = q.len();
    q.extend([a.clone(), b.clone()]);
    check("extending appends the keys in order", q.len() == l + 2 && q.iter().take(l).zip(old.iter()).all(|(x, y)| veq(x, y)) && q.iter().nth(l).map_or(false, |x| veq(x, &a)) && q.iter().nth(l + 1).map_or(false, |x| veq(x, &b)));
    q.extend(Vec::new());
    check("extending by nothing changes nothing", q.len() == l + 2);
}
/// iteration, from both ends, shared and owned
pub fn ob_iter(a: Key, b: Key, c: Key) {
    let p: KeyPath = [a.clone(), b.clone(), c.clone()].into_iter().collect();
    {
        let mut i = p.iter();
        check("iteration gives the keys in order", i.len() == 3 && i.next().map_or(false, |x| veq(x, &a)) && i.len() == 2 && i.next_back().map_or(false, |x| veq(x, &c)) && i.len() == 1 && i.next_back().map_or(false, |x| veq(x, &b)) && i.len() == 0 && i.next().is_none() && i.next_back().is_none() && i.next().is_none());
        let mut r = (&p).into_iter();
        check("iteration gives the keys in order", r.next().map_or(false, |x| veq(x, &a)) && r.next().map_or(false, |x| veq(x, &b)) && r.next().map_or(false, |x| veq(x, &c)) && r.next().is_none());
        let mut r = p.iter().rev();
        check("backward iteration gives the keys in reverse order", r.next().map_or(false, |x| veq(x, &c)) && r.next().map_or(false, |x| veq(x, &b)) && r.next().map_or(false, |x| veq(x, &a)) && r.next().is_none());
    }
    let mut i = p.into_iter();
    check("owned iteration gives the keys in order", i.len() == 3 && i.next().map_or(false, |x| veq(&x, &a)) && i.len() == 2 && i.next_back().map_or(false, |x| veq(&x, &c)) && i.len() == 1 && i.next().map_or(false, |x| veq(&x, &b)) && i.len() == 0 && i.next().is_none() && i.next_back().is_none());
}
pub fn ob_iter_any(p: KeyPath) {
    let l = p.len();
    check("iteration visits every key once", p.iter().count() == l && (&p).into_iter().count() == l && p.iter().rev().count() == l && p.clone().into_iter().count() == l && p.iter().len() == l);
    check("owned and shared iteration agree", p.clone().into_iter().zip(p.iter()).all(|(x, y)| veq(&x, y)));
}
/// the breadcrumbs of a path are its nonempty prefixes, shortest first
pub fn ob_breadcrumbs(a: Key, b: Key, c: Key) {
    let p: KeyPath = [a.clone(), b.clone(), c.clone()].into_iter().collect();
    let pre = |s: Option<&[Key]>, w: &[&Key]| s.map_or(false, |s| s.len() == w.len() && s.iter().zip(w).all(|(x, y)| veq(x, *y)));
    let mut i = p.breadcrumbs();
    check("breadcrumbs are the prefixes", pre(i.next(), &[&a]));
    check("breadcrumbs are the prefixes", pre(i.next(), &[&a, &b]));
    check("breadcrumbs are the prefixes", pre(i.next(), &[&a, &b, &c]));
    check("breadcrumbs are the prefixes", i.next().is_none() && i.next().is_none());
    check("the empty path has no breadcrumbs", KeyPath::default().breadcrumbs().next().is_none());
    check("breadcrumbs are the prefixes", KeyPath::from(a.clone()).breadcrumbs().count() == 1);
}
pub fn ob_breadcrumbs_any(p: KeyPath) {
    check("there are as many breadcrumbs as keys", p.breadcrumbs().count() == p.len());
    check("every breadcrumb is a prefix", p.breadcrumbs().enumerate().all(|(i, s)| s.len() == i + 1 && s.iter().zip(p.iter()).all(|(x, y)| veq(x, y))));
}
/// the path macro
pub fn ob_macro(n: usize, s: String, v: Value) {
    let kf = |x: &str| Key::Field(NamedOrNumbered::Named(x.to_owned()));
    let ki = |x: usize| Key::Field(NamedOrNumbered::Numbered(x));
    is(&key_path!(), &[]);
    is(&key_path!(.a), &[&kf("a")]);
    is(&key_path!(.0), &[&ki(0)]);
    is(&key_path!([n]), &[&Key::Get(Value::usize(n))]);
    is(&key_path!(::Some), &[&Key::Variant("Some".to_owned())]);
    is(&key_path!(.a.b.c), &[&kf("a"), &kf("b"), &kf("c")]);
    is(&key_path!(.a::Some.0[s.clone()].c), &[&kf("a"), &Key::Variant("Some".to_owned()), &ki(0), &Key::Get(Value::String(s)), &kf("c")]);
    is(&key_path!([v.clone()][n]::None.b), &[&Key::Get(v), &Key::Get(Value::usize(n)), &Key::Variant("None".to_owned()), &kf("b")]);
    is(&key_path!(.r#type::A.12), &[&kf("r#type"), &Key::Variant("A".to_owned()), &ki(12)]);
    is(&key_path!(."a"[1 + 1]), &[&kf("a"), &Key::Get(Value::i32(2))]);
}
pub fn ob_equal(p: KeyPath, q: KeyPath) {
    check("paths are equal exactly when their keys are", (p == q) == (p.len() == q.len() && p.iter().zip(q.iter()).all(|(a, b)| a == b)));
    check("a copy is equal", p.clone() == p);
}
pub fn ob_key_equal(a: Key, b: Key) {
    let want = match (&a, &b) {
        (Key::Field(NamedOrNumbered::Named(x)), Key::Field(NamedOrNumbered::Named(y))) => x == y,
        (Key::Field(NamedOrNumbered::Numbered(x)), Key::Field(NamedOrNumbered::Numbered(y))) => x == y,
        (Key::Get(x), Key::Get(y)) => x == y,
        (Key::Variant(x), Key::Variant(y)) => x == y,
        _ => false,
    };
    check("keys are equal exactly when their form and content are", (a == b) == want);
}
