//! C15 and C30: exported values through text and back, and the refusal of values that are not of their type's shape.

use std::collections::{ BTreeMap, BTreeSet, HashMap, HashSet };
use std::fmt::Debug;
use std::net::{ IpAddr, Ipv4Addr, Ipv6Addr };
use std::panic::{ catch_unwind, AssertUnwindSafe };
use std::path::PathBuf;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::{ Arc, Mutex };
use std::time::Duration;

use node_tree::prelude::*;
use toml_edit::{ Array, Datetime, DocumentMut, InlineTable, Item, Value };

use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::{ hash_str, Rng };

// ------------------------------------------------------------------------------- shapes

/// Which values are of a type's shape.
#[derive(Clone, Debug)]
pub enum Shape {
    Bool, Int(i64, i64), F32, F64, Text, Char, V4, V6, Ip, Span, Date,
    List(Box<Shape>), Set(Box<Shape>), Fixed(Vec<Shape>), Maybe(Box<Shape>), Map(Box<Shape>), CharMap(Box<Shape>), Named(Vec<(&'static str, Shape)>)
}

/// A value that is certainly not of the shape, at its top.
fn wrong_here(s: &Shape, v: &Value, r: &mut Rng) -> Value {
    use Shape::*;
    let others = |r: &mut Rng, kinds: &[u8]| -> Value {
        match *r.pick(kinds) {
            b'b' => r.chance(50).into(),
            b'i' => (*r.pick(&[0i64, 1, -1, 7, i64::MIN])).into(),
            b'f' => (*r.pick(&[0.5f64, -1.25, f64::NAN, f64::INFINITY, 1e300])).into(),
            b's' => (*r.pick(&["", "true", "1", "1.0", "[]", "a"])).into(),
            b'a' => Value::Array(if r.chance(50) { Array::new() } else { Array::from_iter([1i64, 2]) }),
            b't' => Value::InlineTable(InlineTable::from_iter([("valeu", Value::from(1i64))])),
            _    => Datetime::from_str("1979-05-27T07:32:00Z").expect("a date").into()
        }
    };
    match s {
        Bool        => others(r, b"ifsatd"),
        Int(lo, hi) => {
            if r.chance(60) && (*lo > i64::MIN || *hi < i64::MAX) {
                let mut over: Vec<i64> = Vec::new();
                if *hi < i64::MAX { over.extend([hi + 1, hi.saturating_mul(2).saturating_add(2), hi.saturating_add(hi - lo + 1), i64::MAX, hi + 1 + (r.u64() % 1000) as i64]); }
                if *lo > i64::MIN { over.extend([lo - 1, lo.saturating_mul(2).saturating_sub(1), lo.saturating_sub(hi - lo + 1), i64::MIN, lo - 1 - (r.u64() % 1000) as i64]); }
                (*r.pick(&over)).into()
            } else if r.chance(25) { 1.5f64.into() } else { others(r, b"bsatd") }
        },
        F32  => if r.chance(40) { (*r.pick(&[1e39f64, -1e39, 3.5e38, f64::MAX, f64::MIN, -1e300])).into() } else { others(r, b"bsatd") },
        F64  => others(r, b"bsatd"),
        Text => others(r, b"bifatd"),
        Char => if r.chance(50) { (*r.pick(&["", "ab", "é1", "名前", "e\u{301}", "\r\n"])).into() } else { others(r, b"bifatd") },
        V4   => if r.chance(50) { (*r.pick(&["", "256.0.0.1", "1.2.3", "1.2.3.4.5", "::1", "1.2.3.4 "])).into() } else { others(r, b"bifatd") },
        V6   => if r.chance(50) { (*r.pick(&["", "1.2.3.4", ":::", "12345::", "1::2::3", "g::"])).into() } else { others(r, b"bifatd") },
        Ip   => if r.chance(50) { (*r.pick(&["", "256.0.0.1", ":::", "localhost", "1.2.3.4:80"])).into() } else { others(r, b"bifatd") },
        Span => match r.below(5) {
            0 | 1 => (*r.pick(&[-1.0f64, -0.001, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30, f64::MAX])).into(),
            _     => others(r, b"bsatd")
        },
        Date => others(r, b"bifsat"),
        List(_) | Set(_) => others(r, b"bifstd"),
        Fixed(shapes) => {
            let Some(a) = v.as_array() else { return others(r, b"bifstd") };
            match r.below(4) {
                0 if !shapes.is_empty() => { let mut a = a.clone(); a.remove(r.below(shapes.len())); Value::Array(a) },
                1 if !shapes.is_empty() => { let mut a = a.clone(); let x = a.get(r.below(shapes.len())).expect("an element").clone(); a.push(x); Value::Array(a) },
                2 if !shapes.is_empty() => Value::Array(Array::new()),
                _ => others(r, b"bifstd")
            }
        },
        Maybe(inner) => match r.below(3) {
            0 => { let mut t = InlineTable::new(); t.insert("valeu", v.as_inline_table().and_then(|t| t.get("value")).cloned().unwrap_or_else(|| 1i64.into())); t.into() },
            1 => { let _ = inner; let mut t = v.as_inline_table().cloned().unwrap_or_default(); t.insert("other", 1i64.into()); t.into() },
            _ => others(r, b"bifsad")
        },
        Map(_) => others(r, b"bifsad"),
        CharMap(_) => {
            let Some(t) = v.as_inline_table().filter(|t| !t.is_empty() && r.chance(60)) else { return others(r, b"bifsad") };
            let mut t = t.clone();
            let key = t.iter().next().expect("an entry").0.to_string();
            let x = t.remove(&key).expect("an entry");
            t.insert(*r.pick(&["", "ab", "名前"]), x);
            t.into()
        },
        Named(fields) => {
            let Some(t) = v.as_inline_table() else { return others(r, b"bifsad") };
            let mut t = t.clone();
            match r.below(4) {
                0 => { t.remove(fields[r.below(fields.len())].0); t.into() },
                1 => { let k = fields[r.below(fields.len())].0; let x = t.remove(k).expect("a component"); t.insert(format!("{k}_"), x); t.into() },
                2 => { let k = fields[r.below(fields.len())].0; let x = t.get(k).expect("a component").clone(); t.insert("extra", x); t.into() },
                _ => others(r, b"bifsad")
            }
        }
    }
}

/// Breaks a value of the shape in one place.
fn wrong(s: &Shape, v: &Value, r: &mut Rng) -> Value {
    use Shape::*;
    if r.chance(30) { return wrong_here(s, v, r); }
    match s {
        List(inner) | Set(inner) => if let Some(a) = v.as_array().filter(|a| !a.is_empty()) {
            let i = r.below(a.len());
            let mut a = a.clone();
            let x = wrong(inner, a.get(i).expect("an element"), r);
            a.replace(i, x);
            return Value::Array(a);
        },
        Fixed(shapes) => if let Some(a) = v.as_array().filter(|a| !a.is_empty()) {
            let i = r.below(a.len());
            let mut a = a.clone();
            let x = wrong(&shapes[i], a.get(i).expect("an element"), r);
            a.replace(i, x);
            return Value::Array(a);
        },
        Maybe(inner) => if let Some(x) = v.as_inline_table().and_then(|t| t.get("value")) {
            return InlineTable::from_iter([("value", wrong(inner, x, r))]).into();
        },
        Map(inner) | CharMap(inner) => if let Some(t) = v.as_inline_table().filter(|t| !t.is_empty()) {
            let keys: Vec<String> = t.iter().map(|(k, _)| k.to_string()).collect();
            let k = r.pick(&keys);
            let mut t = t.clone();
            let x = wrong(inner, t.get(k).expect("an entry"), r);
            t.insert(k, x);
            return t.into();
        },
        Named(fields) => if let Some(t) = v.as_inline_table() {
            let (k, inner) = r.pick(fields);
            let mut t = t.clone();
            let x = wrong(inner, t.get(k).expect("a component"), r);
            t.insert(*k, x);
            return t.into();
        },
        _ => ()
    }
    wrong_here(s, v, r)
}

// ------------------------------------------------------------------------------- types

/// An exportable type with generated values.
pub trait Ex: Exportable + Debug + Sized + 'static {
    fn make(r: &mut Rng) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn shape() -> Shape;
}

macro_rules! ints { ($($t:ty),*) => { $( impl Ex for $t {
    fn make(r: &mut Rng) -> Self {
        match r.below(5) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => (r.u64() % 3) as $t, 3 => ((1u64 << r.below(64)).wrapping_sub(r.u64() % 2)) as $t, _ => r.u64() as $t }
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Int(<$t>::MIN as i64, <$t>::MAX as i64) }
} )* } }
ints!(u8, u16, u32, i8, i16, i32, i64);

impl Ex for u64 {
    fn make(r: &mut Rng) -> Self { match r.below(5) { 0 => 0, 1 => u64::MAX, 2 => i64::MAX as u64 + r.u64() % 3, 3 => 1 << r.below(64), _ => r.u64() } }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Int(i64::MIN, i64::MAX) }
}

impl Ex for bool {
    fn make(r: &mut Rng) -> Self { r.chance(50) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Bool }
}

impl Ex for f32 {
    fn make(r: &mut Rng) -> Self {
        match r.below(7) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e10, 16777216.0, 16777217.0, 1e-10]),
            1 => *r.pick(&[f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, -1e-45]),
            2 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
            3 => (r.u64() % 100) as f32,
            _ => f32::from_bits(r.u64() as u32)
        }
    }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
    fn shape() -> Shape { Shape::F32 }
}

impl Ex for f64 {
    fn make(r: &mut Rng) -> Self {
        match r.below(7) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, 9007199254740993.0, 1e-10, 123456789012345680.0]),
            1 => *r.pick(&[f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, -5e-324]),
            2 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            3 => (r.u64() % 100) as f64,
            _ => f64::from_bits(r.u64())
        }
    }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
    fn shape() -> Shape { Shape::F64 }
}

impl Ex for char {
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => *r.pick(&['\0', '\n', '\r', '\t', '"', '\'', '\\', ' ', '\u{7f}', '\u{1}', '=', '#', '.', ']']),
            1 => *r.pick(&['é', 'ß', '名', '\u{1F600}', '\u{10FFFF}', '\u{FEFF}', '\u{D7FF}', '\u{E000}', '\u{301}', '\u{2028}']),
            2 => (b'a' + r.below(26) as u8) as char,
            3 => r.below(0x80) as u8 as char,
            _ => loop { if let Some(c) = char::from_u32((r.u64() % 0x110000) as u32) { break c; } }
        }
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Char }
}

impl Ex for String {
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => String::new(),
            1 => r.pick(&["true", "1", "'''", "\"\"\"", "''' \"\"\"", "{ a = 1 }", "[a]\nb = 1", "\\u0041", "\\", " lead", "trail ", "\n", "\r\n", "nan", "1979-05-27", "a = \"b\" # c", "\u{FEFF}x"]).to_string(),
            2 => { let n = match r.below(200) { 0 => r.range(60_000, 70_000), 1..=4 => r.range(1000, 9000), _ => r.range(1, 400) }; r.pick(&["x", "é", "\n", "\"", " a"]).repeat(n) },
            _ => (0..r.below(12)).map(|_| char::make(r)).collect()
        }
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Text }
}

impl Ex for NodePath {
    fn make(r: &mut Rng) -> Self {
        let segments: Vec<String> = (0..r.below(5)).map(|_| match r.below(5) { 0 => "..".into(), 1 => ".".into(), 2 => "名前".into(), 3 => "a b\"\\".into(), _ => format!("Node{}", r.below(20)) }).collect();
        NodePath::from_str(&format!("{}{}", if r.chance(40) { "/" } else { "" }, segments.join("/")))
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Text }
}

impl Ex for PathBuf {
    fn make(r: &mut Rng) -> Self { match r.below(4) { 0 => PathBuf::from("/"), 1 => PathBuf::from(format!("../a/{}", r.below(9))), _ => PathBuf::from(String::make(r)) } }
    fn same(&self, o: &Self) -> bool { self.as_os_str() == o.as_os_str() }
    fn shape() -> Shape { Shape::Text }
}

impl Ex for Ipv4Addr {
    fn make(r: &mut Rng) -> Self { match r.below(4) { 0 => Ipv4Addr::UNSPECIFIED, 1 => Ipv4Addr::BROADCAST, _ => Ipv4Addr::from(r.u64() as u32) } }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::V4 }
}
impl Ex for Ipv6Addr {
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Ipv6Addr::LOCALHOST, 1 => Ipv6Addr::UNSPECIFIED, 2 => Ipv4Addr::from(r.u64() as u32).to_ipv6_mapped(), 3 => Ipv4Addr::from(r.u64() as u32).to_ipv6_compatible(),
            _ => Ipv6Addr::from(((r.u64() as u128) << 64 | r.u64() as u128) & ((r.u64() as u128) << 70 | 0xFFFF_0000_FFFF))
        }
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::V6 }
}
impl Ex for IpAddr {
    fn make(r: &mut Rng) -> Self { if r.chance(50) { IpAddr::V4(Ipv4Addr::make(r)) } else { IpAddr::V6(Ipv6Addr::make(r)) } }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Ip }
}

impl Ex for Duration {
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => *r.pick(&[Duration::ZERO, Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_nanos(1), Duration::new(1, 999_999_999), Duration::from_secs(1 << 53)]),
            1 => Duration::from_millis(r.u64() % 100_000),
            2 => Duration::from_nanos(r.u64() % 10_000_000_000),
            3 => Duration::new(r.u64() % 100_000_000, (r.u64() % 1_000_000_000) as u32),
            4 => Duration::from_secs(r.u64()),
            _ => Duration::new(r.u64() >> r.below(64), (r.u64() % 1_000_000_000) as u32)
        }
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Span }
}

impl Ex for Datetime {
    fn make(r: &mut Rng) -> Self {
        let date = format!("{:04}-{:02}-{:02}", r.below(10000), r.range(1, 12), r.range(1, 28));
        let time = format!("{:02}:{:02}:{:02}{}", r.below(24), r.below(60), r.below(60), match r.below(4) { 0 => format!(".{:03}", r.below(1000)), 1 => format!(".{:09}", r.below(1_000_000_000)), _ => String::new() });
        let offset = match r.below(4) { 0 => "Z".to_string(), 1 => format!("+{:02}:{:02}", r.below(24), r.below(60)), 2 => format!("-{:02}:{:02}", r.below(24), r.below(60)), _ => String::new() };
        let text = match r.below(4) { 0 => date, 1 => time, _ => format!("{date}T{time}{offset}") };
        Datetime::from_str(&text).unwrap_or_else(|_| panic!("the generated date {text} is invalid"))
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Date }
}

thread_local! { static ROOM: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

/// How many elements a container gets: a few, and rarely very many (but not in several nested ones).
fn some(r: &mut Rng) -> usize {
    let many = ROOM.get();
    if many > 0 && r.chance(30) { ROOM.set(0); return many; }
    *r.pick(&[0, 1, 2, 3, 3, 5, 9])
}

/// Gives room for one large container, in a few cases.
fn make_room(r: &mut Rng) {
    ROOM.set(match r.below(600) { 0 => r.range(1000, 5000), 1..=6 => r.range(100, 700), 7..=40 => r.range(10, 70), _ => 0 });
}

impl<T: Ex> Ex for Option<T> {
    fn make(r: &mut Rng) -> Self { if r.chance(35) { None } else { Some(T::make(r)) } }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    fn shape() -> Shape { Shape::Maybe(Box::new(T::shape())) }
}
impl<T: Ex> Ex for Vec<T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| T::make(r)).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn shape() -> Shape { Shape::List(Box::new(T::shape())) }
}
impl<T: Ex + std::hash::Hash + Eq> Ex for HashSet<T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| T::make(r)).collect() }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Set(Box::new(T::shape())) }
}
impl<T: Ex + Ord> Ex for BTreeSet<T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| T::make(r)).collect() }
    fn same(&self, o: &Self) -> bool { self == o }
    fn shape() -> Shape { Shape::Set(Box::new(T::shape())) }
}
impl<T: Ex> Ex for HashMap<String, T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| (String::make(r), T::make(r))).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w))) }
    fn shape() -> Shape { Shape::Map(Box::new(T::shape())) }
}
impl<T: Ex> Ex for HashMap<char, T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| (char::make(r), T::make(r))).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w))) }
    fn shape() -> Shape { Shape::CharMap(Box::new(T::shape())) }
}
impl<T: Ex> Ex for BTreeMap<String, T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| (String::make(r), T::make(r))).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w))) }
    fn shape() -> Shape { Shape::Map(Box::new(T::shape())) }
}
impl<T: Ex> Ex for BTreeMap<char, T> {
    fn make(r: &mut Rng) -> Self { (0..some(r)).map(|_| (char::make(r), T::make(r))).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w))) }
    fn shape() -> Shape { Shape::CharMap(Box::new(T::shape())) }
}
macro_rules! pointers { ($($p:ident),*) => { $( impl<T: Ex> Ex for $p<T> {
    fn make(r: &mut Rng) -> Self { $p::new(T::make(r)) }
    fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
    fn shape() -> Shape { T::shape() }
} )* } }
pointers!(Box, Rc, Arc);
impl<T: Ex> Ex for Mutex<T> {
    fn make(r: &mut Rng) -> Self { Mutex::new(T::make(r)) }
    fn same(&self, o: &Self) -> bool { self.lock().expect("a lock").same(&o.lock().expect("a lock")) }
    fn shape() -> Shape { T::shape() }
}
impl<const N: usize, T: Ex> Ex for [T; N] {
    fn make(r: &mut Rng) -> Self { std::array::from_fn(|_| T::make(r)) }
    fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn shape() -> Shape { Shape::Fixed(vec![T::shape(); N]) }
}
macro_rules! tuples { ($( ($($t:ident $n:tt),*) ),*) => { $( impl<$($t: Ex),*> Ex for ($($t,)*) {
    fn make(r: &mut Rng) -> Self { ($($t::make(r),)*) }
    fn same(&self, o: &Self) -> bool { $(self.$n.same(&o.$n))&&* }
    fn shape() -> Shape { Shape::Fixed(vec![$($t::shape()),*]) }
} )* } }
tuples!((A 0), (A 0, B 1), (A 0, B 1, C 2), (A 0, B 1, C 2, D 3), (A 0, B 1, C 2, D 3, E 4), (A 0, B 1, C 2, D 3, E 4, F 5), (A 0, B 1, C 2, D 3, E 4, F 5, G 6),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7), (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8), (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9));

// ------------------------------------------------------------------------------- glam

macro_rules! vectors { ($($t:ty, $e:ty, $n:literal, $($c:ident)*);* $(;)?) => { $( impl Ex for $t {
    fn make(r: &mut Rng) -> Self { let mut v = <$t>::default(); $( v.$c = <$e>::make(r); )* v }
    fn same(&self, o: &Self) -> bool { $( self.$c.same(&o.$c) )&&* }
    fn shape() -> Shape { Shape::Fixed(vec![<$e>::shape(); $n]) }
} )* } }
vectors! {
    glam::BVec2, bool, 2, x y; glam::BVec3, bool, 3, x y z; glam::BVec4, bool, 4, x y z w;
    glam::U8Vec2, u8, 2, x y; glam::U8Vec3, u8, 3, x y z; glam::U8Vec4, u8, 4, x y z w;
    glam::U16Vec2, u16, 2, x y; glam::U16Vec3, u16, 3, x y z; glam::U16Vec4, u16, 4, x y z w;
    glam::UVec2, u32, 2, x y; glam::UVec3, u32, 3, x y z; glam::UVec4, u32, 4, x y z w;
    glam::U64Vec2, u64, 2, x y; glam::U64Vec3, u64, 3, x y z; glam::U64Vec4, u64, 4, x y z w;
    glam::I8Vec2, i8, 2, x y; glam::I8Vec3, i8, 3, x y z; glam::I8Vec4, i8, 4, x y z w;
    glam::I16Vec2, i16, 2, x y; glam::I16Vec3, i16, 3, x y z; glam::I16Vec4, i16, 4, x y z w;
    glam::IVec2, i32, 2, x y; glam::IVec3, i32, 3, x y z; glam::IVec4, i32, 4, x y z w;
    glam::I64Vec2, i64, 2, x y; glam::I64Vec3, i64, 3, x y z; glam::I64Vec4, i64, 4, x y z w;
    glam::Vec2, f32, 2, x y; glam::Vec3, f32, 3, x y z; glam::Vec3A, f32, 3, x y z; glam::Vec4, f32, 4, x y z w; glam::Quat, f32, 4, x y z w;
    glam::DVec2, f64, 2, x y; glam::DVec3, f64, 3, x y z; glam::DVec4, f64, 4, x y z w; glam::DQuat, f64, 4, x y z w;
}

macro_rules! matrices { ($($t:ty, $v:ty, $n:literal, $($c:ident)*);* $(;)?) => { $( impl Ex for $t {
    fn make(r: &mut Rng) -> Self { let mut m = <$t>::default(); $( m.$c = <$v>::make(r); )* m }
    fn same(&self, o: &Self) -> bool { $( self.$c.same(&o.$c) )&&* }
    fn shape() -> Shape { Shape::Fixed(vec![<$v>::shape(); $n]) }
} )* } }
matrices! {
    glam::Mat2, glam::Vec2, 2, x_axis y_axis; glam::Mat3, glam::Vec3, 3, x_axis y_axis z_axis; glam::Mat3A, glam::Vec3A, 3, x_axis y_axis z_axis; glam::Mat4, glam::Vec4, 4, x_axis y_axis z_axis w_axis;
    glam::DMat2, glam::DVec2, 2, x_axis y_axis; glam::DMat3, glam::DVec3, 3, x_axis y_axis z_axis; glam::DMat4, glam::DVec4, 4, x_axis y_axis z_axis w_axis;
}

macro_rules! affines { ($($t:ty, $f:ident $m:ty, $v:ty);* $(;)?) => { $( impl Ex for $t {
    fn make(r: &mut Rng) -> Self { let mut a = <$t>::IDENTITY; a.$f = <$m>::make(r); a.translation = <$v>::make(r); a }
    fn same(&self, o: &Self) -> bool { self.$f.same(&o.$f) && self.translation.same(&o.translation) }
    fn shape() -> Shape { Shape::Named(vec![(stringify!($f), <$m>::shape()), ("translation", <$v>::shape())]) }
} )* } }
affines! {
    glam::Affine2, matrix2 glam::Mat2, glam::Vec2; glam::Affine3A, matrix3 glam::Mat3A, glam::Vec3A;
    glam::DAffine2, matrix2 glam::DMat2, glam::DVec2; glam::DAffine3, matrix3 glam::DMat3, glam::DVec3;
}

// ------------------------------------------------------------------------------- the monitors

/// The value as it comes out of a document that was written and parsed.
fn through_text(v: Value) -> Result<Value, String> {
    let mut doc = DocumentMut::new();
    doc.insert("x", Item::Value(v));
    let text = doc.to_string();
    let back: DocumentMut = text.parse().map_err(|e| format!("{e}\n{text}"))?;
    match back.get("x") { Some(Item::Value(v)) => Ok(v.clone()), other => Err(format!("{other:?} in\n{text}")) }
}

fn short(s: String) -> String { s.chars().take(300).collect() }

fn check<T: Ex>(r: &mut Rng, name: &str) {
    let v = T::make(r);
    let saved = match catch_unwind(AssertUnwindSafe(|| v.to_value())) { Ok(s) => s, Err(_) => return fail(format!("exporting {} panics ({})", short(format!("{v:?}")), crate::last_panic())) };
    let read = match through_text(saved.clone()) { Ok(v) => v, Err(e) => return fail(format!("{v:?}, a {name}, is exported as text that is not valid: {e}")) };
    match catch_unwind(AssertUnwindSafe(|| T::from_value(read.clone()))) {
        Err(_)      => return fail(format!("importing {} as {name} panics ({})", short(read.to_string()), crate::last_panic())),
        Ok(None)    => return fail(format!("{}, a {name}, is exported as {}, which is refused", short(format!("{v:?}")), short(saved.to_string()))),
        Ok(Some(b)) => {
            if !v.same(&b) { return fail(format!("{}, a {name}, is exported as {}, and imported as {}", short(format!("{v:?}")), short(saved.to_string()), short(format!("{b:?}")))); }
            // Exporting it again gives an equal value again, and the original can be exported any number of times.
            match through_text(b.to_value()).ok().and_then(T::from_value) { Some(c) if c.same(&v) => (), c => return fail(format!("{} changes when it is exported again: {c:?}", short(format!("{v:?}")))) }
        }
    }
    count("values_restored");

    let shape = T::shape();
    for _ in 0..2 {
        let bad = wrong(&shape, &saved, r);
        let bad = if r.chance(50) { match through_text(bad.clone()) { Ok(b) => b, Err(_) => bad } } else { bad };
        match catch_unwind(AssertUnwindSafe(|| T::from_value(bad.clone()))) {
            Err(_)      => return fail(format!("importing {} as {name} panics ({})", short(bad.to_string()), crate::last_panic())),
            Ok(Some(b)) => return fail(format!("{}, which is no {name}, is imported as {} instead of being refused", short(bad.to_string()), short(format!("{b:?}")))),
            Ok(None)    => count("values_refused")
        }
    }
    evaluated(true, hash_str(&format!("{name}{saved}")));
    if wants_sample() { sample(format!("{name}: {}", saved)); }
}

macro_rules! table { ($name:ident: $($t:ty),* $(,)?) => {
    const $name: &[(&str, fn(&mut Rng, &str))] = &[ $( (stringify!($t), check::<$t>) ),* ];
} }

table! { STD:
    bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, String, NodePath, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr, Duration, Datetime,
    bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, String, NodePath, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr, Duration, Datetime,
    Option<u8>, Option<Option<bool>>, Option<Option<Option<String>>>, Option<Vec<Option<i16>>>, Option<Duration>, Option<HashMap<String, u8>>,
    Vec<u64>, Vec<f32>, Vec<char>, Vec<Vec<i8>>, Vec<Option<String>>, Vec<HashMap<char, u8>>, Vec<Duration>, Vec<Datetime>, Vec<NodePath>,
    HashSet<u32>, HashSet<String>, HashSet<char>, HashSet<Vec<i32>>, HashSet<Option<u8>>, BTreeSet<i64>, BTreeSet<String>, BTreeSet<(u8, char)>, BTreeSet<BTreeSet<u16>>,
    HashMap<String, f64>, HashMap<String, HashMap<String, Option<i32>>>, HashMap<char, String>, HashMap<char, Vec<u16>>, HashMap<String, Datetime>,
    BTreeMap<String, i8>, BTreeMap<String, BTreeMap<char, bool>>, BTreeMap<char, f32>, BTreeMap<char, Option<Vec<u64>>>, BTreeMap<char, BTreeMap<String, Ipv4Addr>>,
    Box<u16>, Box<Option<String>>, Rc<i32>, Rc<Vec<f64>>, Arc<String>, Arc<HashMap<String, u8>>, Mutex<i64>, Mutex<Vec<char>>, Box<Rc<Arc<u8>>>, Vec<Box<[u8; 2]>>, Arc<Mutex<Duration>>,
    [u8; 0], [u8; 1], [i64; 3], [String; 4], [f64; 5], [bool; 16], [Option<u32>; 3], [[f32; 2]; 2], [Vec<u8>; 2], [Box<String>; 2], [(u8, String); 3], [char; 33],
    (u8,), (u8, i16), (u8, u8, u8), (String, i8, f32, bool), (i64, i64, i64, i64, i64), (u8, u16, u32, u64, i8, i16), (u8, u8, u8, u8, u8, u8, u8),
    (char, char, char, char, char, char, char, char), (i8, i8, i8, i8, i8, i8, i8, i8, i8), (u16, u16, u16, u16, u16, u16, u16, u16, u16, u16),
    (String, bool, f64, Option<u8>, Vec<i32>, char, [u8; 2], (u8, i8), HashMap<String, bool>, Duration), ((u8, String), (bool, (char,))), (Datetime, IpAddr, NodePath, PathBuf)
}

table! { GLAM:
    glam::BVec2, glam::BVec3, glam::BVec4, glam::U8Vec2, glam::U8Vec3, glam::U8Vec4, glam::U16Vec2, glam::U16Vec3, glam::U16Vec4, glam::UVec2, glam::UVec3, glam::UVec4,
    glam::U64Vec2, glam::U64Vec3, glam::U64Vec4, glam::I8Vec2, glam::I8Vec3, glam::I8Vec4, glam::I16Vec2, glam::I16Vec3, glam::I16Vec4, glam::IVec2, glam::IVec3, glam::IVec4,
    glam::I64Vec2, glam::I64Vec3, glam::I64Vec4, glam::Vec2, glam::Vec3, glam::Vec3A, glam::Vec4, glam::Quat, glam::DVec2, glam::DVec3, glam::DVec4, glam::DQuat,
    glam::Mat2, glam::Mat3, glam::Mat3A, glam::Mat4, glam::DMat2, glam::DMat3, glam::DMat4, glam::Affine2, glam::Affine3A, glam::DAffine2, glam::DAffine3,
    Vec<glam::Vec3>, Option<glam::Affine3A>, HashMap<String, glam::DMat4>, [glam::IVec2; 3], (glam::Quat, glam::BVec3), Vec<Option<glam::U8Vec4>>
}

pub fn run(mut r: Rng, case: u64) {
    make_room(&mut r);
    // Every fifth case takes the values through a node and a scene file, the others go through the types in turn.
    if r.chance(10) { return nodes(&mut r); }
    let (name, f) = STD[(case as usize) % STD.len()];
    f(&mut r, name);
}

pub fn run_glam(mut r: Rng, case: u64) {
    make_room(&mut r);
    if r.chance(10) { return glam_nodes(&mut r); }
    let (name, f) = GLAM[(case as usize) % GLAM.len()];
    f(&mut r, name);
}

// ------------------------------------------------------------------------------- through nodes and scenes

macro_rules! holders { ($( $fn:ident $class:ident { $( $f:ident $t:ty ),* $(,)? } )*) => { $(
    #[allow(clippy::too_many_arguments)]
    fn $fn(r: &mut Rng) {
        $( let $f = <$t>::make(r); )*
        let node = { let mut n = $class::new(); $( n.$f = ExportableField::new(<$t>::make(r)); )* $( *n.$f = copy(&$f); )* n };
        let scene = NodeScene::new(node);
        let text = match catch_unwind(AssertUnwindSafe(|| scene.save_to_str())) { Ok(Ok(t)) => t, Ok(Err(e)) => return fail(format!("a {} cannot be saved: {e}", stringify!($class))), Err(_) => return fail(format!("saving a {} panics ({})", stringify!($class), crate::last_panic())) };
        let loaded = match catch_unwind(AssertUnwindSafe(|| NodeScene::load_from_str(&text))) { Ok(Ok(s)) => s, Ok(Err(e)) => return fail(format!("a saved {} cannot be loaded: {e}\n{text}", stringify!($class))), Err(_) => return fail(format!("loading a saved {} panics ({})\n{text}", stringify!($class), crate::last_panic())) };
        let mut bad: Option<String> = None;
        crate::engine::peek(&loaded, |n| match n.as_any_ref().downcast_ref::<$class>() {
            None    => bad = Some("the type of a loaded node is another one".into()),
            Some(n) => { $( if bad.is_none() && !n.$f.same(&$f) { bad = Some(format!("the field '{}' is {} instead of {}", stringify!($f), short(format!("{:?}", *n.$f)), short(format!("{:?}", $f)))); } count("fields_restored"); )* }
        });
        if let Some(b) = bad { fail(format!("{b} after saving and loading\n{text}")); }
        evaluated(true, hash_str(&text));
    }
)* } }

/// A copy, by way of the value: not every type here can be cloned.
fn copy<T: Ex>(v: &T) -> T { T::from_value(v.to_value()).expect("an exported value") }

class! {
    pub declare Simple;
    pub export default let a: bool;
    pub export default let b: u8;
    pub export default let c: u16;
    pub export default let d: u32;
    pub export default let e: u64;
    pub export default let f: i8;
    pub export default let g: i16;
    pub export default let h: i32;
    pub export default let i: i64;
    pub export default let j: f32;
    pub export default let k: f64;
    pub export default let l: char;
    pub export default let m: String;
    pub export default let n: NodePath;
    pub export default let o: PathBuf;
    pub export default let p: Option<Ipv4Addr>;
    pub export default let q: Vec<Ipv6Addr>;
    pub export default let r: Option<IpAddr>;
    pub export default let s: Duration;
    pub export default let t: Option<Datetime>;
}

class! {
    pub declare Compound;
    pub export default let a: Option<Option<u8>>;
    pub export default let b: Vec<Option<String>>;
    pub export default let c: HashMap<String, Vec<i64>>;
    pub export default let d: HashMap<char, f64>;
    pub export default let e: BTreeMap<String, BTreeMap<char, bool>>;
    pub export default let f: HashSet<String>;
    pub export default let g: BTreeSet<char>;
    pub export default let h: Box<Option<i16>>;
    pub export default let i: Rc<String>;
    pub export default let j: Arc<Vec<u32>>;
    pub export default let k: [String; 3];
    pub export default let l: (u8, String, f32);
    pub export default let m: (bool, Vec<(char, i8)>);
    pub export default let name: String;
    pub export default let value: String;
    pub export default let type_name: String;
    pub export default let parent: i64;
    pub export default let is_owner: Option<bool>;
}

class! {
    pub declare Spatial;
    pub export default let a: glam::Vec2;
    pub export default let b: glam::Vec3;
    pub export default let c: glam::Quat;
    pub export default let d: glam::Mat4;
    pub export default let e: glam::Affine2;
    pub export default let f: glam::Affine3A;
    pub export default let g: glam::DAffine3;
    pub export default let h: glam::BVec4;
    pub export default let i: glam::I64Vec3;
    pub export default let j: glam::U64Vec2;
    pub export default let k: Vec<glam::DVec4>;
    pub export default let l: glam::Vec3A;
}

holders! {
    simple_node Simple { a bool, b u8, c u16, d u32, e u64, f i8, g i16, h i32, i i64, j f32, k f64, l char, m String, n NodePath, o PathBuf, p Option<Ipv4Addr>, q Vec<Ipv6Addr>, r Option<IpAddr>, s Duration, t Option<Datetime> }
    compound_node Compound {
        a Option<Option<u8>>, b Vec<Option<String>>, c HashMap<String, Vec<i64>>, d HashMap<char, f64>, e BTreeMap<String, BTreeMap<char, bool>>, f HashSet<String>, g BTreeSet<char>,
        h Box<Option<i16>>, i Rc<String>, j Arc<Vec<u32>>, k [String; 3], l (u8, String, f32), m (bool, Vec<(char, i8)>),
        name String, value String, type_name String, parent i64, is_owner Option<bool>
    }
    glam_nodes Spatial {
        a glam::Vec2, b glam::Vec3, c glam::Quat, d glam::Mat4, e glam::Affine2, f glam::Affine3A, g glam::DAffine3, h glam::BVec4, i glam::I64Vec3, j glam::U64Vec2, k Vec<glam::DVec4>, l glam::Vec3A
    }
}

fn nodes(r: &mut Rng) { if r.chance(50) { simple_node(r) } else { compound_node(r) } }
