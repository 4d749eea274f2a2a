//! C25: every combinator of `TreeOption` and `TreeResult` next to the one of the standard library.
#![allow(unused, mismatched_lifetime_syntaxes)]

use std::cell::RefCell;
use std::rc::Rc;

use node_tree::prelude::*;

use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::Rng;

/// A value whose copies are counted.
#[derive(Debug, Clone)]
struct V { n: i64, live: Option<Rc<()>> }

impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.n == o.n } }
impl Default for V { fn default() -> Self { V { n: -77, live: None } } }
impl std::ops::Deref for V { type Target = i64; fn deref(&self) -> &i64 { &self.n } }
impl std::ops::DerefMut for V { fn deref_mut(&mut self) -> &mut i64 { &mut self.n } }

/// The calls of the closures that one combinator was given.
#[derive(Default, Debug, Clone)]
struct Calls(Rc<RefCell<Vec<(u8, String)>>>);

impl Calls {
    fn hit(&self, which: u8, arg: impl std::fmt::Debug) { self.0.borrow_mut().push((which, format!("{arg:?}"))) }
    fn all(&self) -> Vec<(u8, String)> { self.0.borrow().clone() }
}

struct Env { tree: *mut dyn NodeTree, owner: RID, other: RID }

impl Env {
    fn o<T>(&self, x: Option<T>) -> TreeOption<'static, T> { unsafe { TreeOption::new(self.tree, self.owner, x) } }
    fn o2<T>(&self, x: Option<T>) -> TreeOption<'static, T> { unsafe { TreeOption::new(self.tree, self.other, x) } }
    fn r<T, E>(&self, x: Result<T, E>) -> TreeResult<'static, T, E> { unsafe { TreeResult::new(self.tree, self.owner, x) } }
    fn r2<T, E>(&self, x: Result<T, E>) -> TreeResult<'static, T, E> { unsafe { TreeResult::new(self.tree, self.other, x) } }
}

/// What a combinator returned, made comparable; trees and owners are part of the comparison.
trait Show { fn show(&self, e: &Env) -> String; }
macro_rules! show_plain { ($($t:ty),*) => { $( impl Show for $t { fn show(&self, _: &Env) -> String { format!("{:?}", self) } } )* } }
show_plain!(bool, i64, usize, String, (), u8);
impl Show for V { fn show(&self, _: &Env) -> String { format!("{}", self.n) } }
impl<T: Show> Show for &T { fn show(&self, e: &Env) -> String { (**self).show(e) } }
impl<T: Show> Show for &mut T { fn show(&self, e: &Env) -> String { (**self).show(e) } }
impl<T: Show> Show for [T] { fn show(&self, e: &Env) -> String { self.iter().map(|x| x.show(e)).collect::<Vec<_>>().join(";") } }
impl<T: Show> Show for Vec<T> { fn show(&self, e: &Env) -> String { self.as_slice().show(e) } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self, e: &Env) -> String { format!("({}, {})", self.0.show(e), self.1.show(e)) } }
impl<T: Show> Show for Option<T> { fn show(&self, e: &Env) -> String { match self { Some(x) => format!("Some {}", x.show(e)), None => "None".into() } } }
impl<T: Show, E: Show> Show for Result<T, E> { fn show(&self, e: &Env) -> String { match self { Ok(x) => format!("Ok {}", x.show(e)), Err(x) => format!("Err {}", x.show(e)) } } }

/// Whose is it? Found out by comparing with one of a known owner and the same content.
impl<'a, T: Show> Show for TreeOption<'a, T> {
    fn show(&self, e: &Env) -> String {
        let probe:  TreeOption<u8> = self.as_ref().map(|_| 0u8);
        // `transfer_owner` copies the owner of `self`.
        let mine:   TreeOption<u8> = self.transfer_owner(e.o2(None::<u8>));
        let content = self.as_ref().to_option().show(e);
        if mine != e.o(None) { return format!("{content} of another owner"); }
        if probe != e.o(probe.to_option()) { return format!("{content} whose reference has another owner"); }
        content
    }
}
impl<'a, T: Show, E: Show> Show for TreeResult<'a, T, E> {
    fn show(&self, e: &Env) -> String {
        let content = self.as_ref().to_result().show(e);
        let mine: TreeResult<u8, u8> = self.as_ref().map(|_| 0u8).map_err(|_| 0u8);
        let plain: Result<u8, u8> = self.as_ref().to_result().map(|_| 0u8).map_err(|_| 0u8);
        if mine != e.r(plain) { return format!("{content} of another owner"); }
        content
    }
}

pub fn run(mut r: Rng) {
    let tree = Box::leak(node_tree_simple());
    let env = Env { tree: tree.as_dyn_raw_mut(), owner: r.u64() % 5, other: 5 + r.u64() % 5 };
    let live = Rc::new(());
    let mut used: Vec<String> = Vec::new();
    let v = |n: i64, live: &Rc<()>| V { n, live: Some(live.clone()) };
    {
        let e = &env;
        let vals: Vec<i64> = (0..6).map(|_| (r.u64() % 7) as i64 - 3).collect();
        let some = r.chance(50);
        let some2 = r.chance(50);
        let mk  = || if some { Some(v(vals[0], &live)) } else { None };
        let mk2 = || if some2 { Some(v(vals[1], &live)) } else { None };
        let mkr  = || -> Result<V, V> { if some { Ok(v(vals[0], &live)) } else { Err(v(vals[2], &live)) } };
        let mkr2 = || -> Result<V, V> { if some2 { Ok(v(vals[1], &live)) } else { Err(v(vals[3], &live)) } };
        let pred = vals[4] > 0;
        let seen = RefCell::new(0u64);

        // The same expression for both: `$x` is the subject, `$y` a second one, `$c` the log of the closures.
        macro_rules! cmp {
            ($name:expr, $lib:expr, $std:expr) => {{
                let a: (String, Vec<(u8, String)>) = { let c = Calls::default(); let s = { let f: &dyn Fn(&Calls) -> String = &$lib; f(&c) }; (s, c.all()) };
                let b: (String, Vec<(u8, String)>) = { let c = Calls::default(); let s = { let f: &dyn Fn(&Calls) -> String = &$std; f(&c) }; (s, c.all()) };
                *seen.borrow_mut() += 1;
                count("combinators_compared");
                if a.0 != b.0 { fail(format!("{} of {:?} (second {:?}, predicate {pred}) gives {:?}, and the standard library's {:?}", $name, mkr().map(|x| x.n).map_err(|x| x.n), mkr2().map(|x| x.n).map_err(|x| x.n), a.0, b.0)); }
                else if a.1 != b.1 { fail(format!("{} of {:?} (second {:?}, predicate {pred}) calls its closures with {:?}, and the standard library's with {:?}", $name, mkr().map(|x| x.n).map_err(|x| x.n), mkr2().map(|x| x.n).map_err(|x| x.n), a.1, b.1)); }
                if wants_sample() { used.push(format!("{}: {} {:?}", $name, a.0, a.1)); }
            }}
        }
        // The common form: the body is written once and used for both.
        macro_rules! opt {
            ($name:literal, |$x:ident, $y:ident, $c:ident| $body:expr) => {
                cmp!(concat!("TreeOption::", $name),
                    |$c: &Calls| { #[allow(unused_mut, unused_variables)] let (mut $x, mut $y) = (e.o(mk()), e.o2(mk2())); $body },
                    |$c: &Calls| { #[allow(unused_mut, unused_variables)] let (mut $x, mut $y) = (mk(), mk2()); $body })
            };
            ($name:literal, $lib:expr, $std:expr) => { cmp!(concat!("TreeOption::", $name), $lib, $std) }
        }
        macro_rules! res {
            ($name:literal, |$x:ident, $y:ident, $c:ident| $body:expr) => {
                cmp!(concat!("TreeResult::", $name),
                    |$c: &Calls| { #[allow(unused_mut, unused_variables)] let (mut $x, mut $y) = (e.r(mkr()), e.r2(mkr2())); $body },
                    |$c: &Calls| { #[allow(unused_mut, unused_variables)] let (mut $x, mut $y) = (mkr(), mkr2()); $body })
            };
            ($name:literal, $lib:expr, $std:expr) => { cmp!(concat!("TreeResult::", $name), $lib, $std) }
        }
        let d = vals[5];

        // ---- TreeOption
        opt!("to_option", |_: &Calls| e.o(mk()).to_option().show(e), |_: &Calls| mk().show(e));
        opt!("is_some", |x, _y, c| x.is_some().show(e));
        opt!("is_none", |x, _y, c| x.is_none().show(e));
        opt!("is_some_and", |c: &Calls| e.o(mk()).is_some_and(|a| { c.hit(0, a.n); a.n > 0 }).show(e), |c: &Calls| mk().is_some_and(|a| { c.hit(0, a.n); a.n > 0 }).show(e));
        opt!("as_ref", |x, _y, c| x.as_ref().show(e));
        opt!("as_mut", |x, _y, c| { if let Some(a) = opt_of(x.as_mut()) { a.n += d; } x.show(e) });
        opt!("as_slice", |x, _y, c| x.as_slice().show(e));
        opt!("as_mut_slice", |x, _y, c| { for a in x.as_mut_slice() { a.n += d; } x.show(e) });
        opt!("unwrap_or", |x, _y, c| x.unwrap_or(v(d, &live)).show(e));
        opt!("unwrap_or_else", |x, _y, c| x.unwrap_or_else(|| { c.hit(0, ()); v(d, &live) }).show(e));
        opt!("unwrap_or_default", |x, _y, c| x.unwrap_or_default().show(e));
        if some {
            opt!("unwrap", |x, _y, c| x.unwrap().show(e));
            opt!("expect", |x, _y, c| x.expect("there").show(e));
            opt!("unwrap_unchecked", |x, _y, c| unsafe { x.unwrap_unchecked() }.show(e));
        }
        opt!("map", |x, _y, c| x.map(|a| { c.hit(0, a.n); a.n * 3 }).show(e));
        opt!("inspect", |x, _y, c| x.inspect(|a| c.hit(0, a.n)).show(e));
        opt!("map_or", |x, _y, c| x.map_or(d, |a| { c.hit(0, a.n); a.n * 3 }).show(e));
        opt!("map_or_else", |x, _y, c| x.map_or_else(|| { c.hit(1, ()); d }, |a| { c.hit(0, a.n); a.n * 3 }).show(e));
        opt!("ok_or", |x, _y, c| x.ok_or(d).show(e));
        opt!("ok_or_else", |x, _y, c| x.ok_or_else(|| { c.hit(0, ()); d }).show(e));
        opt!("as_deref", |x, _y, c| x.as_deref().show(e));
        opt!("as_deref_mut", |x, _y, c| { { let t = x.as_deref_mut(); if let Some(a) = opt_of(t) { *a += d; } } x.show(e) });
        opt!("iter", |x, _y, c| x.iter().collect::<Vec<_>>().show(e));
        opt!("iter_mut", |x, _y, c| { for a in x.iter_mut() { a.n -= d; } x.show(e) });
        opt!("and", |x, y, c| x.and(y.map(|b| b.n)).show(e));
        opt!("and_then", |c: &Calls| e.o(mk()).and_then(|a| { c.hit(0, a.n); e.o2(mk2().map(|b| b.n + a.n)) }).show(e), |c: &Calls| mk().and_then(|a| { c.hit(0, a.n); mk2().map(|b| b.n + a.n) }).show(e));
        opt!("filter", |x, _y, c| x.filter(|a| { c.hit(0, a.n); pred }).show(e));
        opt!("or", |x, y, c| x.or(y).show(e));
        opt!("or_else", |x, y, c| x.or_else(|| { c.hit(0, ()); y }).show(e));
        opt!("xor", |x, y, c| x.xor(y).show(e));
        opt!("insert", |x, _y, c| { let s = { let a = x.insert(v(d, &live)); a.n += 1; a.show(e) }; s + &x.show(e) });
        opt!("get_or_insert", |x, _y, c| { let s = { let a = x.get_or_insert(v(d, &live)); a.n += 1; a.show(e) }; s + &x.show(e) });
        opt!("get_or_insert_default", |x, _y, c| { let s = { let a = x.get_or_insert_default(); a.n += 1; a.show(e) }; s + &x.show(e) });
        opt!("get_or_insert_with", |x, _y, c| { let s = { let a = x.get_or_insert_with(|| { c.hit(0, ()); v(d, &live) }); a.n += 1; a.show(e) }; s + &x.show(e) });
        opt!("take", |x, _y, c| { let s = x.take().show(e); s + &x.show(e) });
        opt!("take_if", |x, _y, c| { let s = x.take_if(|a| { c.hit(0, a.n); a.n += d; pred }).show(e); s + &x.show(e) });
        opt!("replace", |x, _y, c| { let s = x.replace(v(d, &live)).show(e); s + &x.show(e) });
        opt!("zip", |x, y, c| x.zip(y.map(|b| b.n)).show(e));
        opt!("unzip", |x, _y, c| x.map(|a| (a.n, v(d, &live))).unzip().show(e));
        opt!("copied", |x, _y, c| x.as_deref().copied().show(e));
        opt!("copied (mutable)", |x, _y, c| x.as_deref_mut().copied().show(e));
        opt!("cloned", |x, _y, c| x.as_ref().cloned().show(e));
        opt!("cloned (mutable)", |x, _y, c| x.as_mut().cloned().show(e));
        opt!("flatten", |c: &Calls| { let _ = c; e.o(if pred { Some(e.o2(mk())) } else { None }).flatten().show(e) }, |_: &Calls| (if pred { Some(mk()) } else { None }).flatten().show(e));
        opt!("transpose", |_: &Calls| e.o(if pred { Some(e.r2(mkr())) } else { None }).transpose().show(e), |_: &Calls| (if pred { Some(mkr()) } else { None }).transpose().show(e));
        opt!("clone", |x, _y, c| x.clone().show(e));

        // ---- TreeResult
        res!("to_result", |_: &Calls| e.r(mkr()).to_result().show(e), |_: &Calls| mkr().show(e));
        res!("to_option", |_: &Calls| e.r(mkr()).to_option().show(e), |_: &Calls| mkr().ok().show(e));
        res!("is_ok", |x, _y, c| x.is_ok().show(e));
        res!("is_err", |x, _y, c| x.is_err().show(e));
        res!("is_ok_and", |c: &Calls| e.r(mkr()).is_ok_and(|a| { c.hit(0, a.n); a.n > 0 }).show(e), |c: &Calls| mkr().is_ok_and(|a| { c.hit(0, a.n); a.n > 0 }).show(e));
        res!("is_err_and", |c: &Calls| e.r(mkr()).is_err_and(|a| { c.hit(0, a.n); a.n > 0 }).show(e), |c: &Calls| mkr().is_err_and(|a| { c.hit(0, a.n); a.n > 0 }).show(e));
        res!("ok", |x, _y, c| x.ok().show(e));
        res!("err", |x, _y, c| x.err().show(e));
        res!("as_ref", |x, _y, c| x.as_ref().show(e));
        res!("as_mut", |x, _y, c| { match res_of(x.as_mut()) { Ok(a) => a.n += d, Err(a) => a.n -= d } x.show(e) });
        res!("map", |x, _y, c| x.map(|a| { c.hit(0, a.n); a.n * 3 }).show(e));
        res!("map_or", |x, _y, c| x.map_or(d, |a| { c.hit(0, a.n); a.n * 3 }).show(e));
        res!("map_or_else", |x, _y, c| x.map_or_else(|b| { c.hit(1, b.n); b.n - 9 }, |a| { c.hit(0, a.n); a.n * 3 }).show(e));
        res!("map_err", |x, _y, c| x.map_err(|a| { c.hit(0, a.n); a.n * 3 }).show(e));
        res!("inspect", |x, _y, c| x.inspect(|a| c.hit(0, a.n)).show(e));
        res!("inspect_err", |x, _y, c| x.inspect_err(|a| c.hit(0, a.n)).show(e));
        res!("as_deref", |x, _y, c| x.as_deref().show(e));
        res!("as_deref_mut", |_: &Calls| { let mut x = std::mem::ManuallyDrop::new(e.r(mkr())); let p: *mut TreeResult<'static, V, V> = &mut *x;
                { if let Ok(a) = unsafe { &mut *p }.as_deref_mut().to_result() { *a += d; } } let s = unsafe { &*p }.show(e); let _ = std::mem::ManuallyDrop::into_inner(x); s },
            |_: &Calls| { let mut x = mkr(); if let Ok(a) = x.as_deref_mut() { *a += d; } x.show(e) });
        res!("iter", |x, _y, c| x.iter().collect::<Vec<_>>().show(e));
        res!("iter_mut", |x, _y, c| { for a in x.iter_mut() { a.n -= d; } x.show(e) });
        if some {
            res!("unwrap", |x, _y, c| x.unwrap().show(e));
            res!("expect", |x, _y, c| x.expect("there").show(e));
            res!("unwrap_unchecked", |x, _y, c| unsafe { x.unwrap_unchecked() }.show(e));
        } else {
            res!("unwrap_err", |x, _y, c| x.unwrap_err().show(e));
            res!("expect_err", |x, _y, c| x.expect_err("there").show(e));
            res!("unwrap_err_unchecked", |x, _y, c| unsafe { x.unwrap_err_unchecked() }.show(e));
        }
        res!("unwrap_or_default", |x, _y, c| x.unwrap_or_default().show(e));
        res!("unwrap_or", |x, _y, c| x.unwrap_or(v(d, &live)).show(e));
        res!("unwrap_or_else", |x, _y, c| x.unwrap_or_else(|b| { c.hit(0, b.n); v(b.n - 5, &live) }).show(e));
        res!("and", |x, y, c| x.and(y.map(|b| b.n)).show(e));
        res!("and_then", |c: &Calls| e.r(mkr()).and_then(|a| { c.hit(0, a.n); e.r2(mkr2().map(|b| b.n + a.n)) }).show(e), |c: &Calls| mkr().and_then(|a| { c.hit(0, a.n); mkr2().map(|b| b.n + a.n) }).show(e));
        res!("or", |x, y, c| x.or(y).show(e));
        res!("or_else", |c: &Calls| e.r(mkr()).or_else::<V, _>(|b| { c.hit(0, b.n); e.r2(mkr2()) }).show(e), |c: &Calls| mkr().or_else(|b| { c.hit(0, b.n); mkr2() }).show(e));
        res!("copied", |x, _y, c| x.as_ref().map(|a| &a.n).copied().show(e));
        res!("copied (mutable)", |x, _y, c| x.as_mut().map(|a| &mut a.n).copied().show(e));
        res!("cloned", |x, _y, c| x.as_ref().cloned().show(e));
        res!("cloned (mutable)", |x, _y, c| x.as_mut().cloned().show(e));
        res!("transpose", |_: &Calls| e.r(if pred { Ok(e.o2(mk())) } else { Err(d) }).transpose().show(e), |_: &Calls| (if pred { Ok(mk()) } else { Err(d) }).transpose().show(e));
        res!("flatten", |_: &Calls| e.r(if pred { Ok(e.r2(mkr())) } else { Err(v(d, &live)) }).flatten().show(e), |_: &Calls| (if pred { Ok(mkr()) } else { Err(v(d, &live)) }).and_then(|x| x).show(e));
        res!("clone", |x, _y, c| x.clone().show(e));

        // ---- A chain of combinators that each give the same type again.
        let steps = r.range(1, 12);
        let c1 = Calls::default();
        let c2 = Calls::default();
        let (mut a, mut b) = (e.o(mk()), mk());
        let mut names: Vec<&str> = Vec::new();
        for _ in 0..steps {
            let k = (r.u64() % 9) as i64 - 4;
            let alt = if r.chance(50) { Some(v(k, &live)) } else { None };
            let altr = if r.chance(50) { Ok(v(k, &live)) } else { Err(v(k + 100, &live)) };
            macro_rules! both { ($name:literal, |$x:ident, $alt:ident, $altr:ident, $c:ident| $body:expr) => {{
                names.push($name);
                a = { let ($x, $c) = (a, &c1); let ($alt, $altr) = (e.o2(alt.clone()), e.r2(altr.clone())); $body };
                b = { let ($x, $c) = (b, &c2); let ($alt, $altr) = (alt, altr); $body };
            }} }
            match r.below(13) {
                0  => both!("map", |x, _alt, _altr, c| x.map(|mut q| { c.hit(0, q.n); q.n += k; q })),
                1  => both!("and_then", |x, alt, _altr, c| x.and_then(|q| { c.hit(1, q.n); alt.map(|mut z| { z.n += q.n; z }) })),
                2  => both!("filter", |x, _alt, _altr, c| x.filter(|q| { c.hit(2, q.n); q.n >= k })),
                3  => both!("or", |x, alt, _altr, _c| x.or(alt)),
                4  => both!("or_else", |x, alt, _altr, c| x.or_else(|| { c.hit(3, ()); alt })),
                5  => both!("xor", |x, alt, _altr, _c| x.xor(alt)),
                6  => both!("and", |x, alt, _altr, _c| x.and(alt)),
                7  => both!("zip.map", |x, alt, _altr, _c| x.zip(alt).map(|(p, q)| { let mut p = p; p.n -= q.n; p })),
                8  => both!("ok_or.ok", |x, _alt, _altr, _c| x.ok_or(k).ok()),
                9  => both!("ok_or.map_err.err.map", |x, _alt, _altr, _c| x.ok_or(k).map_err(|q| v(q, &live)).err()),
                10 => both!("inspect", |x, _alt, _altr, c| x.inspect(|q| c.hit(4, q.n))),
                11 => both!("ok_or.and_then.ok", |x, _alt, altr, c| x.ok_or(v(k, &live)).and_then(|q| { c.hit(5, q.n); altr }).ok()),
                _  => both!("ok_or.and.or.ok", |x, _alt, altr, _c| x.ok_or(v(k, &live)).and(altr.clone()).or(altr).ok())
            }
            count("chain_steps");
            if a.show(e) != b.show(e) || c1.all() != c2.all() {
                fail(format!("after {} from {:?} the chain gives {} with calls {:?}, and that of the standard library {} with {:?}", names.join("."), mk().map(|x| x.n), a.show(e), c1.all(), b.show(e), c2.all()));
                break;
            }
        }
        let mut key = crate::rng::hash_str(&names.join("."));
        for x in [some as i64, some2 as i64].iter().chain(&vals) { key = key.wrapping_mul(31).wrapping_add(*x as u64); }
        evaluated(*seen.borrow() > 80, key);
    }
    if wants_sample() { sample(used.join(" | ")); }
    if Rc::strong_count(&live) != 1 {
        fail(format!("{} values were never dropped by the combinators", Rc::strong_count(&live) - 1));
    }
    drop(unsafe { Box::from_raw(tree) });
}

fn node_tree_simple() -> Box<node_tree::trees::tree_simple::TreeSimple> {
    node_tree::trees::tree_simple::TreeSimple::new(crate::nodes::NodeA::new(1, String::new()), LoggerVerbosity::OnlyPanics)
}

// The same names for both kinds.
trait IntoOpt<T> { fn into_opt(self) -> Option<T>; }
impl<T> IntoOpt<T> for Option<T> { fn into_opt(self) -> Option<T> { self } }
impl<'a, T> IntoOpt<T> for TreeOption<'a, T> { fn into_opt(self) -> Option<T> { self.to_option() } }
fn opt_of<T>(x: impl IntoOpt<T>) -> Option<T> { x.into_opt() }
trait IntoRes<T, E> { fn into_res(self) -> Result<T, E>; }
impl<T, E> IntoRes<T, E> for Result<T, E> { fn into_res(self) -> Result<T, E> { self } }
impl<'a, T, E> IntoRes<T, E> for TreeResult<'a, T, E> { fn into_res(self) -> Result<T, E> { self.to_result() } }
fn res_of<T, E>(x: impl IntoRes<T, E>) -> Result<T, E> { x.into_res() }
