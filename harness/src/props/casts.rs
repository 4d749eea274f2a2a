//! C27: what dynamic pointers convert and cast to.

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::report::{ add, count, evaluated, fail, sample, wants_sample };
use crate::rng::Rng;

macro_rules! a_trait { ($($t:ident),*) => { $( pub trait $t { fn who(&self) -> u64; fn put(&mut self, v: u64); fn by(&self) -> &'static str; } )* } }
a_trait!(Ta, Tb, Tc, Td, Never);

/// The bits of the traits that a class declares; all classes implement all of the traits.
macro_rules! classes { ($($name:ident = $bits:literal: $($t:ident),*;)*) => {
    $(
        class! {
            pub declare $name extends $($t),*;
            pub let uid:  u64;
            pub let kept: u64 = 0;
            hk _init(uid_: u64) { let uid = uid_; }
        }
        implement!($name: Ta, Tb, Tc, Td, Never);
    )*
    const EXTENDING: &[(&str, u32)] = &[$((stringify!($name), $bits)),*];
} }

macro_rules! implement { ($name:ident: $($t:ident),*) => { $(
    impl $t for $name {
        fn who(&self) -> u64 { *self.uid }
        fn put(&mut self, v: u64) { *self.kept = v; }
        fn by(&self) -> &'static str { concat!(stringify!($name), " ", stringify!($t)) }
    }
)* } }

classes! {
    K1  = 1:  Ta;
    K2  = 2:  Tb;
    K3  = 3:  Ta, Tb;
    K4  = 4:  Tc;
    K5  = 5:  Tc, Ta;
    K6  = 6:  Tb, Tc;
    K7  = 7:  Tc, Tb, Ta;
    K8  = 8:  Td;
    K9  = 9:  Td, Ta;
    K10 = 10: Tb, Td;
    K12 = 12: Tc, Td;
    K15 = 15: Ta, Tb, Tc, Td;
}

class! {
    pub declare K0;
    pub let uid:  u64;
    pub let kept: u64 = 0;
    hk _init(uid_: u64) { let uid = uid_; }
}
implement!(K0: Ta, Tb, Tc, Td, Never);

/// Classes and traits of the same names elsewhere.
mod elsewhere {
    use node_tree::prelude::*;
    pub trait Ta { fn who(&self) -> u64; }
    class! {
        pub declare K1 extends Ta;
        pub let uid:  u64;
        pub let kept: u64 = 0;
        hk _init(uid_: u64) { let uid = uid_; }
    }
    impl Ta for K1 { fn who(&self) -> u64 { *self.uid + 1_000_000 } }
    impl super::Ta for K1 { fn who(&self) -> u64 { *self.uid } fn put(&mut self, _v: u64) {} fn by(&self) -> &'static str { "" } }
}

const COUNT: usize = 14;

macro_rules! with_k { ($n:expr, $t:ident => $e:expr) => { match $n {
    0 => { type $t = K0; $e }, 1 => { type $t = K1; $e }, 2 => { type $t = K2; $e }, 3 => { type $t = K3; $e }, 4 => { type $t = K4; $e }, 5 => { type $t = K5; $e },
    6 => { type $t = K6; $e }, 7 => { type $t = K7; $e }, 8 => { type $t = K8; $e }, 9 => { type $t = K9; $e }, 10 => { type $t = K10; $e }, 11 => { type $t = K12; $e },
    12 => { type $t = K15; $e }, _ => { type $t = elsewhere::K1; $e }
} } }

fn bits(k: usize) -> u32 { match k { 0 => 0, 13 => 16, _ => EXTENDING[k - 1].1 } }

fn kept(n: &dyn Node, k: usize) -> Option<(u64, u64)> { with_k!(k, T => n.as_any_ref().downcast_ref::<T>().map(|x| (*x.uid, *x.kept))) }

fn long(p: TpDyn) -> TpDyn<'static> { unsafe { std::mem::transmute(p) } }

macro_rules! check_trait { ($p:ident, $t:ident, $has:expr, $alive:expr, $uid:expr, $k:expr, $next:ident) => { {
    let (has, alive) = ($has, $alive);
    let what = format!("{} of node {} of class {}{}", stringify!($t), $uid, $k, if alive { "" } else { ", which has left" });
    let p: TpDyn<'static> = $p;
    count("casts_tried");
    if p.is_of::<dyn $t>() != (has && alive) { fail(format!("is_of says {} for the trait {what}", p.is_of::<dyn $t>())); }
    match (p.cast::<dyn $t>().to_result(), has && alive) {
        (Ok(x), true)   => { count("casts_made"); if x.who() != $uid { fail(format!("cast to the trait {what} gives node {}", x.who())); } },
        (Ok(x), false)  => fail(format!("cast to the trait {what} succeeds and gives node {}", x.who())),
        (Err(e), true)  => fail(format!("cast to the trait {what} fails: {e:?}")),
        (Err(e), false) => { count("casts_refused"); if alive != matches!(e, TPError::DynCastFailed) { fail(format!("cast to the trait {what} fails with {e:?}")); } }
    }
    let mut p = p;
    match (p.cast_mut::<dyn $t>().to_result(), has && alive) {
        (Ok(x), true)   => {
            $next += 1;
            x.put($next);
            if x.by().split(' ').nth(1) != Some(stringify!($t)) { fail(format!("cast_mut to the trait {what} gives {}", x.by())); }
            let real = kept(p.get(), $k);
            if real != Some(($uid, $next)) { fail(format!("{} was put by way of the trait {what}, but the node has {real:?}", $next)); }
        },
        (Ok(x), false)  => fail(format!("cast_mut to the trait {what} succeeds and gives node {}", x.who())),
        (Err(e), true)  => fail(format!("cast_mut to the trait {what} fails: {e:?}")),
        (Err(e), false) => if alive != matches!(e, TPError::DynCastFailed) { fail(format!("cast_mut to the trait {what} fails with {e:?}")); }
    }
} } }

fn check(p: TpDyn<'static>, uid: u64, k: usize, alive: bool, next: &mut u64) {
    let b = bits(k);
    let mut n = *next;
    check_trait!(p, Ta, b & 1 != 0, alive, uid, k, n);
    check_trait!(p, Tb, b & 2 != 0, alive, uid, k, n);
    check_trait!(p, Tc, b & 4 != 0, alive, uid, k, n);
    check_trait!(p, Td, b & 8 != 0, alive, uid, k, n);
    check_trait!(p, Never, false, alive, uid, k, n);
    *next = n;
    // The trait of the same name elsewhere.
    let has = b & 16 != 0 && alive;
    if p.is_of::<dyn elsewhere::Ta>() != has { fail(format!("is_of says {} for elsewhere::Ta of class {k}", !has)); }
    match (p.cast::<dyn elsewhere::Ta>().to_result(), has) {
        (Ok(x), true) => if x.who() != uid + 1_000_000 { fail(format!("cast to elsewhere::Ta gives {}", x.who())); },
        (Ok(_), _)    => fail(format!("cast to elsewhere::Ta succeeds for class {k}")),
        (Err(e), h)   => if h { fail(format!("cast to elsewhere::Ta fails: {e:?}")); }
    }
    // Types.
    for other in 0..COUNT {
        let want = other == k && alive;
        count("types_tried");
        with_k!(other, T => {
            if p.is::<T>() != want { fail(format!("is says {} for type {other} of node {uid} of class {k}, alive {alive}", !want)); }
            match (p.to::<T>().to_result(), want) {
                (Ok(t), true)   => { count("conversions_made"); if t.try_get().map(|x| *x.uid).to_option() != Some(uid) { fail(format!("to gives another node than {uid}")); }
                                     if t.is_null() || t.rid() != p.get().rid() { fail(format!("to gives a pointer to another node than {uid}")); } },
                (Ok(_), false)  => fail(format!("to makes a pointer of type {other} for node {uid} of class {k}, alive {alive}")),
                (Err(e), true)  => fail(format!("to fails for node {uid} of class {k}: {e:?}")),
                (Err(e), false) => if matches!(e, TPError::WrongType) != alive { fail(format!("to type {other} of node {uid} of class {k}, alive {alive}, fails with {e:?}")); }
            }
        });
    }
}

pub fn run(mut r: Rng) {
    let n = r.range(1, 12);
    let ks: Vec<usize> = (0..n).map(|_| r.below(COUNT)).collect();
    let mut scenes: Vec<NodeScene> = ks.iter().enumerate().map(|(i, &k)| with_k!(k, T => NodeScene::new(T::new(i as u64)))).collect();
    let parents: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { r.below(i) }).collect();
    for i in (1..n).rev() { let s = scenes.pop().expect("one"); scenes[parents[i]].append(s); }
    let mut tree: Box<TreeSimple> = TreeSimple::new(scenes.pop().expect("the root"), LoggerVerbosity::OnlyPanics);
    // Pointers obtained from the root.
    let mut held: Vec<Option<TpDyn<'static>>> = vec![None; n];
    let rids = tree.root().top_down(true);
    for rid in rids {
        let node = tree.get_node(rid).expect("a node");
        let (uid, _) = (0..COUNT).find_map(|k| kept(node, k)).expect("a node of ours");
        let path = node.get_absolute_path();
        let p = tree.root().get_node_dyn(path).unwrap();
        held[uid as usize] = Some(long(if r.chance(50) { p } else { node.this_dyn() }));
    }
    let mut alive = vec![true; n];
    let mut next = 0;
    for round in 0..2 {
        for i in 0..n {
            if round > 0 || r.chance(70) { check(held[i].expect("a pointer"), i as u64, ks[i], alive[i], &mut next); }
        }
        if round == 0 {
            for _ in 0..r.below(3) {
                let gone = r.below(n);
                if !alive[gone] || (gone == 0 && r.chance(80)) { continue; }
                held[gone].expect("a pointer").free();
                for i in 0..n {
                    let mut at = i;
                    loop { if at == gone { alive[i] = false; } if at == 0 { break; } at = parents[at]; }
                }
            }
        }
    }
    let log = tree.get_log().to_string();
    if alive[0] && log.contains("PANIC!") { fail(format!("casting logs a panic: {log:?}")); }
    add("nodes_that_left", alive.iter().filter(|a| !**a).count() as u64);
    let key = crate::rng::hash_str(&format!("{ks:?} {parents:?} {alive:?}"));
    if wants_sample() { sample(format!("classes {ks:?} below {parents:?}, alive {alive:?}, declared {EXTENDING:?}")); }
    evaluated(true, key);
    drop(tree);
}
