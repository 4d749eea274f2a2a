//! C26: fields next to a plain model value; copies and reloaded nodes.

use std::ops::*;
use std::panic::{ catch_unwind, AssertUnwindSafe };

use node_tree::prelude::*;
use toml_edit::Value;

use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::Rng;

/// A value with which every operator does something else.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct W(pub i64);

impl Default for W { fn default() -> Self { W(4242) } }
impl Exportable for W {
    fn to_value(&self) -> Value { self.0.into() }
    fn from_value(value: Value) -> Option<Self> { value.as_integer().map(W) }
}

fn mix(op: u64, a: i64, b: i64) -> i64 {
    let mut x = (a as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ op.wrapping_mul(0xD1342543DE82EF95);
    let h = crate::rng::splitmix(&mut x);
    let mut y = h ^ (b as u64).wrapping_mul(0x2545F4914F6CDD1D);
    crate::rng::splitmix(&mut y) as i64 >> 8
}

macro_rules! w_ops { ($($n:literal $t:ident $f:ident),*) => { $( impl $t for W { fn $f(&mut self, o: W) { self.0 = mix($n, self.0, o.0); } } )* } }
w_ops!(1 AddAssign add_assign, 2 SubAssign sub_assign, 3 MulAssign mul_assign, 4 DivAssign div_assign, 5 RemAssign rem_assign,
       6 BitOrAssign bitor_assign, 7 BitXorAssign bitxor_assign, 8 BitAndAssign bitand_assign, 9 ShlAssign shl_assign, 10 ShrAssign shr_assign);

class! {
    pub declare FieldNode;

    pub export         let ex:   W;
    pub export default let exd:  W;
    pub default        let de:   W;
    pub unique         let un:   W;
    pub                let pl:   W;
    pub export         let text: String;
    pub default        let list: Vec<i64>;

    hk _init(a: i64) {
        let ex   = W(a);
        let un   = W(a + 1);
        let pl   = W(a + 2);
        let text = format!("t{a}");
    }
}

fn void_panics(f: impl FnOnce() -> W) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

/// A history on one field; `voidable` kinds may be emptied.
macro_rules! history {
    ($r:expr, $kind:ident, voidable: $v:tt, copies: $copies:expr) => {{
        let r: &mut Rng = $r;
        let first = W((r.u64() % 1000) as i64);
        let mut f: $kind<W> = if r.chance(50) { $kind::new(first) } else { $kind::from(first) };
        let mut m: Option<W> = Some(first);
        let mut ops: Vec<String> = vec![format!("new {}", first.0)];
        let steps = r.range(3, 25);
        let mut key = 0u64;
        for _ in 0..steps {
            let x = W((r.u64() % 1000) as i64);
            let which = r.below(32);
            key = key.wrapping_mul(37).wrapping_add(which as u64 + 1);
            let mut bad: Option<String> = None;
            macro_rules! assign { ($name:literal, $op:tt) => {{
                let own = r.chance(50);
                ops.push(format!("{} {} ({})", $name, x.0, if own { "field" } else { "value" }));
                match &mut m {
                    Some(m) => { if own { f $op $kind::new(x); } else { f $op x; } *m $op x; },
                    None => {
                        let p = catch_unwind(AssertUnwindSafe(|| { if own { f $op $kind::new(x); } else { f $op x; } })).is_err();
                        if !p { bad = Some("an operator on a void field does not panic".into()); }
                        count("void_accesses");
                    }
                }
            }} }
            match which {
                0  => assign!("+=", +=), 1 => assign!("-=", -=), 2 => assign!("*=", *=), 3 => assign!("/=", /=), 4 => assign!("%=", %=),
                5  => assign!("|=", |=), 6 => assign!("^=", ^=), 7 => assign!("&=", &=), 8 => assign!("<<=", <<=), 9 => assign!(">>=", >>=),
                10 | 11 => {
                    ops.push(format!("*f = {}", x.0));
                    match &mut m {
                        Some(m) => { *f = x; *m = x; },
                        None => { if catch_unwind(AssertUnwindSafe(|| { *f = x; })).is_ok() { bad = Some("a write through a void field does not panic".into()); } count("void_accesses"); }
                    }
                },
                12 | 13 => {
                    ops.push("clone".into());
                    let c = f.clone();
                    count("copies");
                    let expect = if $copies { m } else { None };
                    history!(@same $v, c, expect, bad, "the copy");
                    // The copy is another value.
                    if let Some(mut e) = expect { let mut c = c; c += x; e += x; if *c != e { bad = Some(format!("the copy holds {:?} after +=, and the value {:?}", c, e)); } }
                },
                14 | 15 => {
                    ops.push(format!("compare {}", x.0));
                    let o: $kind<W> = $kind::new(x);
                    if let Some(m) = m {
                        let y = if r.chance(40) { m } else { x };
                        let o: $kind<W> = $kind::new(y);
                        if (f == o) != (m == y) || (f != o) != (m != y) || f.cmp(&o) != m.cmp(&y) || f.partial_cmp(&o) != m.partial_cmp(&y)
                            || (f < o) != (m < y) || (f >= o) != (m >= y) {
                            bad = Some(format!("comparing {} with {} gives another result than for the values", m.0, y.0));
                        }
                    } else if f == o { bad = Some("a void field equals one with a value".into()); }
                    count("comparisons");
                },
                16 => {
                    ops.push("swap".into());
                    let mut o: $kind<W> = $kind::new(x);
                    std::mem::swap(&mut f, &mut o);
                    match m { Some(mm) => if *o != mm { bad = Some("a moved field changed".into()); }, None => if !void_panics(|| *o) { bad = Some("a moved void field holds a value".into()); } }
                    m = Some(x);
                },
                n => history!(@void $v, n, $kind, f, m, ops, x, bad)
            }
            count("field_operations");
            if bad.is_none() { history!(@same $v, f, m, bad, "the field"); }
            if let Some(b) = bad { fail(format!("{}: {b}, after {}", stringify!($kind), ops.join(", "))); break; }
        }
        evaluated(ops.len() > 3, key ^ crate::rng::hash_str(stringify!($kind)));
        if wants_sample() { sample(format!("{}: {}", stringify!($kind), ops.join(", "))); }
    }};

    (@same yes, $f:expr, $m:expr, $bad:ident, $what:literal) => {{
        match &$m {
            Some(m) => {
                if !$f.is_reachable() || $f.is_void() { $bad = Some(format!("{} says that it is void although it holds {m:?}", $what)); }
                else if *$f != *m { $bad = Some(format!("{} holds {:?} instead of {m:?}", $what, *$f)); }
            },
            None => {
                if $f.is_reachable() || !$f.is_void() { $bad = Some(format!("{} does not say that it is void", $what)); }
                else if !void_panics(|| *$f) { $bad = Some(format!("reading {}, which is void, does not panic", $what)); }
                count("void_accesses");
            }
        }
    }};
    (@same no, $f:expr, $m:expr, $bad:ident, $what:literal) => {{
        if let Some(m) = &$m { if *$f != *m { $bad = Some(format!("{} holds {:?} instead of {m:?}", $what, *$f)); } }
    }};

    (@void yes, $n:expr, $kind:ident, $f:ident, $m:ident, $ops:ident, $x:ident, $bad:ident) => {
        match $n {
            17..=19 => {
                $ops.push("take".into());
                let t = $f.take();
                if t != $m { $bad = Some(format!("take gives {t:?} instead of {:?}", $m)); }
                $m = None;
            },
            20 => {
                $ops.push("force_take".into());
                let g = std::mem::replace(&mut $f, $kind::Void);
                match $m {
                    Some(m) => { let t = g.force_take(); if t != m { $bad = Some(format!("force_take gives {t:?} instead of {m:?}")); } },
                    None    => if !void_panics(|| g.force_take()) { $bad = Some("force_take of a void field does not panic".into()); }
                }
                $m = None;
            },
            21..=25 => {
                $ops.push(format!("write_valid {}", $x.0));
                let old = $f.write_valid($x);
                if old != $m { $bad = Some(format!("write_valid gives {old:?} back instead of {:?}", $m)); }
                $m = Some($x);
            },
            26 => {
                $ops.push("void()".into());
                $f = $kind::void();
                $m = None;
            },
            27 => {
                $ops.push("is ghost export".into());
                if !$kind::<W>::is_ghost_export_type() { $bad = Some("a field that is not exported is saved".into()); }
            },
            _ => ()
        }
    };
    (@void no, $n:expr, $kind:ident, $f:ident, $m:ident, $ops:ident, $x:ident, $bad:ident) => {
        match $n {
            17 => {
                $ops.push("void()".into());
                $f = $kind::void();
                $m = Some(W::default());
            },
            18..=21 => {
                $ops.push("is ghost export".into());
                let exported = stringify!($kind) == "ExportableField";
                if $kind::<W>::is_ghost_export_type() == exported { $bad = Some("whether the field is exported is not as it should be".into()); }
                if exported {
                    match $kind::<W>::from_value($f.to_value()) {
                        Some(g) => $f = g,
                        None    => $bad = Some("the exported value is refused".into())
                    }
                }
            },
            _ => ()
        }
    };
}

/// Copies and reloads of a node with fields of every kind.
fn node_case(r: &mut Rng) {
    let a = (r.u64() % 100_000) as i64;
    let mut n = FieldNode::new(a);
    let (mut ex, mut exd, mut de, mut un, mut pl) = (W(a), W::default(), W::default(), Some(W(a + 1)), Some(W(a + 2)));
    let mut text = format!("t{a}");
    let mut list: Vec<i64> = Vec::new();
    let mut did = Vec::new();
    for _ in 0..r.below(10) {
        let x = W((r.u64() % 1000) as i64);
        let k = r.below(9);
        did.push(format!("{k}:{}", x.0));
        match k {
            0 => { n.ex += x; ex += x; },
            1 => { *n.exd = x; exd = x; },
            2 => { n.de *= x; de *= x; },
            3 => { un = Some(x); n.un.write_valid(x); },
            4 => { un = None; n.un.take(); },
            5 => { pl = Some(x); n.pl.write_valid(x); },
            6 => { pl = None; n.pl.take(); },
            7 => { n.text.push('é'); text.push('é'); },
            _ => { n.list.push(x.0); list.push(x.0); }
        }
    }
    let show = |n: &FieldNode| -> (W, W, W, Option<W>, Option<W>, String, Vec<i64>) {
        (*n.ex, *n.exd, *n.de, if n.un.is_void() { None } else { Some(*n.un) }, if n.pl.is_void() { None } else { Some(*n.pl) }, (*n.text).clone(), (*n.list).clone())
    };
    let want = (ex, exd, de, un, pl, text.clone(), list.clone());
    let got = show(&n);
    if got != want { return fail(format!("the fields of a node hold {got:?} instead of {want:?} after {did:?}")); }

    // A copy.
    let want_copy = (ex, exd, de, None, pl, text.clone(), list.clone());
    let mut c = n.clone();
    count("copies");
    let got = show(&c);
    if got != want_copy { return fail(format!("the fields of a copied node are {got:?} instead of {want_copy:?}")); }
    c.ex += W(1);
    c.list.push(1);
    c.pl.write_valid(W(-5));
    if show(&n) != want { return fail("writing to the fields of a copy changes the original".into()); }

    // Copied as a scene, and as a part of a tree.
    let read = |s: &NodeScene| crate::engine::peek(s, |x| x.as_any_ref().downcast_ref::<FieldNode>().map(&show));
    let scene = NodeScene::new(n);
    let copy = scene.clone();
    count("copies");
    let got = read(&copy);
    if got != Some(want_copy.clone()) { return fail(format!("the fields of a copied scene are {got:?} instead of {want_copy:?}")); }

    // Saved and loaded.
    let text_form = match scene.save_to_str() { Ok(t) => t, Err(e) => return fail(format!("the node cannot be saved: {e}")) };
    let loaded = match NodeScene::load_from_str(&text_form) { Ok(l) => l, Err(e) => return fail(format!("the saved node cannot be loaded: {e}\n{text_form}")) };
    count("reloads");
    let want_loaded = (ex, exd, W::default(), None, None, text, Vec::new());
    let got = read(&loaded);
    if got != Some(want_loaded.clone()) { return fail(format!("the fields of a loaded node are {got:?} instead of {want_loaded:?}")); }
    let got = read(&scene);
    if got != Some(want.clone()) { return fail(format!("the fields of a saved node are {got:?} instead of {want:?}")); }

    // Void fields of the loaded node panic when read, and can be used again.
    let mut m = unsafe { loaded.get_node() };
    if let Some(x) = m.as_any_mut().downcast_mut::<FieldNode>() {
        if !void_panics(|| *x.un) || !void_panics(|| *x.pl) { fail("reading a void field of a loaded node does not panic".into()); }
        count("void_accesses");
        if x.un.take().is_some() || x.pl.write_valid(W(9)).is_some() || *x.pl != W(9) || x.pl.is_void() { fail("a void field of a loaded node is not void and writable".into()); }
    }
    let _ = Box::into_raw(m);
    evaluated(!did.is_empty(), crate::rng::hash_str(&format!("{a}{did:?}")));
    drop((scene, copy, loaded));
}

pub fn run(mut r: Rng) {
    match r.below(5) {
        0 => history!(&mut r, Field, voidable: yes, copies: true),
        1 => history!(&mut r, UniqueField, voidable: yes, copies: false),
        2 => history!(&mut r, ExportableField, voidable: no, copies: true),
        3 => history!(&mut r, DefaultField, voidable: no, copies: true),
        _ => node_case(&mut r)
    }
}
