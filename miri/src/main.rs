//! Small workloads for Miri, which watches every access: `MODE SEED`.
//! Miri cannot run code before main, so the nodes here are written out instead of declared with class!.
#![allow(dead_code)]

use std::cell::{ Cell, RefCell };
use std::collections::{ BTreeMap, BTreeSet, HashMap, HashSet };

use node_tree::prelude::*;
use node_tree::services::node_registry::{ register_deserializer, FieldMap, SFieldMap };
use node_tree::structs::node_field::{ DefaultField, ExportableField, Field, UniqueField };
use node_tree::traits::exportable::{ Exportable, Voidable };
use node_tree::trees::tree_simple::TreeSimple;

#[path = "../../harness/src/rng.rs"]
mod rng;
use rng::Rng;

// ------------------------------------------------------------------------------------------- nodes

macro_rules! node { ($name:ident) => {
    #[derive(Debug, Clone, Abstract)]
    pub struct $name {
        base:    NodeBase,
        pub on:  Signal<u64>,
        pub on2: Signal<(u64, String)>,
        pub a:   Field<String>,
        pub b:   ExportableField<Vec<u64>>,
        pub c:   UniqueField<Box<u64>>,
        pub d:   DefaultField<String>,
        pub e:   ExportableField<(String, Option<[u8; 3]>)>
    }

    impl $name {
        pub fn new(text: &str) -> Self {
            $name {
                base: NodeBase::new(stringify!($name).to_string()), on: Signal::new(), on2: Signal::new(), a: Field::new(text.to_string()), b: ExportableField::new(vec![1, 2]),
                c: UniqueField::new(Box::new(7)), d: DefaultField::new(text.to_string()), e: ExportableField::new((text.to_string(), Some([1, 2, 3])))
            }
        }
        pub fn hear(&self, v: &u64) { count("heard"); let mut me = self.this_dyn(); act(v % 3 == 0, &mut *me); }
        pub fn hear2(&self, v: &(u64, String)) { count("heard"); assert!(v.1.len() < 1000); }
    }

    impl node_tree::traits::registered::Registered for $name {
        fn save_from_owned(&self) -> FieldMap {
            let mut map = FieldMap::new();
            map.insert("on".into(), Box::new(self.on.clone()));
            map.insert("on2".into(), Box::new(self.on2.clone()));
            map.insert("a".into(), Box::new(self.a.clone()));
            map.insert("b".into(), Box::new(self.b.clone()));
            map.insert("c".into(), Box::new(self.c.clone()));
            map.insert("d".into(), Box::new(self.d.clone()));
            map.insert("e".into(), Box::new(self.e.clone()));
            map
        }
        fn load_from_owned(mut state: SFieldMap) -> Result<Self, String> {
            Ok($name {
                base: NodeBase::new(stringify!($name).to_string()), on: Signal::void(), on2: Signal::void(), a: Field::void(),
                b: ExportableField::from_value(state.remove("b").ok_or("b")?).ok_or("b")?, c: UniqueField::void(), d: DefaultField::void(),
                e: ExportableField::from_value(state.remove("e").ok_or("e")?).ok_or("e")?
            })
        }
    }

    impl Node for $name {
        fn loaded(&mut self)  { count("hooks"); self.a.write_valid("loaded".to_string()); }
        fn ready(&mut self)   { count("hooks"); act(true, self); touch(self); }
        fn process(&mut self, delta: f32) { count("hooks"); assert!(delta >= 0.0); act(true, self); touch(self); self.on.emit(3u64); }
        fn terminal(&mut self, _r: TerminationReason) { count("hooks"); act(true, self); touch(self); }
        fn process_mode(&self) -> ProcessMode { if self.a.is_void() || self.a.len() % 3 != 0 { ProcessMode::Inherit } else { ProcessMode::Always } }
    }

    impl Drop for $name { fn drop(&mut self) { count("nodes_dropped"); } }
} }

node!(P);
node!(Q);

thread_local! {
    static R:     RefCell<Option<Rng>> = const { RefCell::new(None) };
    static LEFT:  Cell<u32> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static HELD:  RefCell<Vec<TpDyn<'static>>> = const { RefCell::new(Vec::new()) };
    static STASH: RefCell<Vec<NodeScene>> = const { RefCell::new(Vec::new()) };
    static COUNT: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static TRACE: RefCell<String> = const { RefCell::new(String::new()) };
}

fn count(what: &'static str) { COUNT.with(|c| *c.borrow_mut().entry(what).or_insert(0) += 1) }
fn below(n: usize) -> usize { R.with(|r| r.borrow_mut().as_mut().map(|r| r.below(n)).unwrap_or(0)) }
fn name() -> String { ["A", "B", "B1", "ü", "x_9", "Q"][below(6)].to_string() }

fn touch(n: &dyn Node) {
    // Still there, whatever happened in the meantime.
    assert!(!n.name().is_empty());
    let any = n.as_any_ref();
    let ok = any.downcast_ref::<P>().map(|p| p.b.len() + p.e.0.len() + p.d.len()).or(any.downcast_ref::<Q>().map(|q| q.b.len() + q.e.0.len() + q.d.len()));
    assert!(ok.is_some());
}

fn scene(size: usize) -> NodeScene {
    let mut all: Vec<NodeScene> = (0..size).map(|i| {
        let text = format!("t{i}");
        if below(2) == 0 { let mut n = P::new(&text); n.set_name(&name()); NodeScene::new(n) } else { let mut n = Q::new(&text); n.set_name(&name()); NodeScene::new(n) }
    }).collect();
    for i in (1..size).rev() {
        let s = all.pop().expect("one");
        let at = below(i);
        if below(4) == 0 { all[at].append_as_owner(s); } else { all[at].append(s); }
    }
    all.pop().expect("the root")
}

/// One random operation, as seen from a node of the tree.
fn act(allowed: bool, me: &mut dyn Node) {
    if !allowed || LEFT.with(|l| l.get()) == 0 || DEPTH.with(|d| d.get()) > 3 { return; }
    LEFT.with(|l| l.set(l.get() - 1));
    DEPTH.with(|d| d.set(d.get() + 1));
    count("operations");
    let op = below(20);
    TRACE.with(|t| t.borrow_mut().push((b'a' + op as u8) as char));
    match op {
        0 | 1 => { let s = 1 + below(3); me.add_child(scene(s)); },
        2     => me.add_child(P::new("single")),
        3     => { let n = me.num_children(); if n > 0 { let c = me.get_child_dyn(below(n)); if let Some(c) = c.to_option() { let name = c.get().name().to_string(); me.remove_child(&name); } } },
        4     => { let n = me.num_children(); if n > 0 { if let Some(mut c) = me.get_child_dyn(below(n)).to_option() { c.free(); } } },
        5     => if below(3) == 0 { me.free(); },
        6     => if let Some(mut p) = me.parent_dyn().to_option() { if below(3) == 0 { p.free(); } else { p.add_child(Q::new("sibling")); } },
        7     => me.set_name(&name()),
        8     => { let p = me.this_dyn(); HELD.with(|h| h.borrow_mut().push(unsafe { std::mem::transmute::<TpDyn, TpDyn<'static>>(p) })); },
        9     => {
            let held = HELD.with(|h| h.borrow().clone());
            for p in held {
                if !p.is_null() { assert!(!p.get().name().is_empty()); count("pointers_alive"); } else { count("pointers_null"); assert!(p.try_get().to_option().is_none()); }
                if let Some(t) = p.to::<P>().to_option() { assert!(t.b.len() < 1000); }
            }
        },
        10    => { let b = me.save_as_branch(); STASH.with(|s| s.borrow_mut().push(b)); },
        11    => { let s = STASH.with(|s| s.borrow_mut().pop()); if let Some(s) = s { me.add_child(s); } },
        12    => { let s = STASH.with(|s| s.borrow().last().cloned()); if let Some(s) = s { me.add_child(s); } },
        13    => { let s = STASH.with(|s| s.borrow_mut().pop()); drop(s); },
        14    => { let paths = ["../A", "B/B1", "/A", "..", "Q", "A/.."]; let p: &str = paths[below(6)]; if let Some(n) = me.get_node_dyn(NodePath::from_str(p)).to_option() { touch(n.get()); } },
        15    => { let target = HELD.with(|h| { let h = h.borrow(); if h.is_empty() || below(3) == 0 { None } else { Some(h[below(h.len())]) } }); let target = target.unwrap_or_else(|| unsafe { std::mem::transmute::<TpDyn, TpDyn<'static>>(me.this_dyn()) }); link(me, Some(target)); },
        16    => { if let Some(p) = me.as_any_ref().downcast_ref::<P>() { p.on.emit(below(9) as u64); p.on2.emit((3u64, "text".to_string())); } },
        17    => me.post(Log::Warn("a warning")),
        18    => { let root: &dyn Node = me; let _ = (root.top_down(true).len(), root.top_down(false).len(), format!("{:?}", me.get_absolute_path())); },
        _     => { if let Some(t) = me.tree_mut() { if below(12) == 0 { t.queue_termination(); } else { let _ = me.register_as_singleton(name()); } } }
    }
    DEPTH.with(|d| d.set(d.get() - 1));
}

fn link(me: &mut dyn Node, target: Option<TpDyn<'static>>) {
    let Some(target) = target else { return };
    let Some(t) = target.to::<P>().to_option() else { return };
    let Some(p) = me.as_any_ref().downcast_ref::<P>() else { return };
    count("connections");
    unsafe {
        let (a, b) = (t.clone(), t.clone());
        let rid = if below(2) == 0 { p.on.connect(move |v| if !a.is_null() { a.hear(v) }) } else { p.on.connect_once(move |v| if !a.is_null() { a.hear(v) }) };
        p.on2.connect(move |v| if !b.is_null() { b.hear2(v) });
        if below(3) == 0 { p.on.disconnect(rid); }
    }
}

// ----------------------------------------------------------------------------------------- modes

fn tree(seed: u64) {
    R.with(|r| *r.borrow_mut() = Some(Rng::new(seed)));
    LEFT.with(|l| l.set(0));
    HELD.with(|h| h.borrow_mut().clear());
    STASH.with(|s| s.borrow_mut().clear());
    let size = 1 + below(5);
    let mut tree: Box<TreeSimple> = if below(4) == 0 { TreeSimple::new(P::new("root"), LoggerVerbosity::OnlyPanics) } else { TreeSimple::new(scene(size), LoggerVerbosity::OnlyPanics) };
    for _ in 0..5 {
        LEFT.with(|l| l.set(14));
        for _ in 0..3 {
            let rids = tree.root().top_down(true);
            let rid = rids[below(rids.len())];
            if let Some(n) = tree.get_node_mut(rid) { act(true, n); }
            if tree.get_node(0).is_none() { break; }
        }
        let status = tree.process();
        count("frames");
        if status.has_terminated() { break; }
    }
    LEFT.with(|l| l.set(6));
    if below(2) == 0 { tree.queue_termination(); for _ in 0..2 { let _ = tree.process(); } }
    LEFT.with(|l| l.set(0));
    HELD.with(|h| h.borrow_mut().clear());
    drop(tree);
    STASH.with(|s| s.borrow_mut().clear());
}

fn register() {
    unsafe {
        register_deserializer(std::any::type_name::<P>().into(), Box::new(|m| P::load_from_owned(m).map(|n| Box::new(n) as Box<dyn Node>)));
        register_deserializer(std::any::type_name::<Q>().into(), Box::new(|m| Q::load_from_owned(m).map(|n| Box::new(n) as Box<dyn Node>)));
    }
}

use node_tree::traits::registered::Registered;

fn scenes(seed: u64) {
    R.with(|r| *r.borrow_mut() = Some(Rng::new(seed)));
    let size = 1 + below(4);
    let s = scene(size);
    let hash = s.structural_hash();
    let text = s.save_to_str().expect("text");
    let l = NodeScene::load_from_str(&text).expect("a scene");
    if l.structural_hash() != hash { println!("MISMATCH a loaded scene has another hash"); }
    let c = l.clone();
    drop(l);
    if c.structural_hash() != hash { println!("MISMATCH a copy has another hash"); }
    // Damaged at a random place.
    let mut bytes = text.clone().into_bytes();
    let at = below(bytes.len());
    bytes[at] = *b"x0\"[=]-.\n".get(below(9)).unwrap_or(&b'x');
    if let Ok(t) = String::from_utf8(bytes) { if let Ok(d) = NodeScene::load_from_str(&t) { count("damaged_loaded"); let _ = d.structural_hash(); drop(d); } else { count("damaged_refused"); } }
    let t: Box<TreeSimple> = TreeSimple::new(c, LoggerVerbosity::OnlyPanics);
    drop(t);
    count("scenes");
}

fn round<T: Exportable + PartialEq + std::fmt::Debug + Clone>(v: T) {
    let back = T::from_value(v.clone().to_value());
    if back.as_ref() != Some(&v) { println!("MISMATCH {v:?} comes back as {back:?}"); }
    count("values_restored");
}

fn exports(seed: u64) {
    let mut r = Rng::new(seed);
    let n = r.u64();
    let text = |r: &mut Rng| { let k = r.below(5); "aé名\"\n".chars().cycle().skip(k).take(k).collect::<String>() };
    round(n as u8); round(n as i16); round(n & (u64::MAX >> 1)); round(n as i64); round((n as u32) as f32 / 7.0); round(n as f64); round(n % 2 == 0);
    round(char::from_u32((n % 0xD000) as u32).unwrap_or('x')); round(text(&mut r));
    round([text(&mut r), text(&mut r), text(&mut r)]);
    round([[Some(Box::new(text(&mut r))), None], [None, Some(Box::new("q".to_string()))]]);
    round([vec![1u8; r.below(4)], vec![2]]);
    round([std::rc::Rc::new(text(&mut r)); 1]);
    round::<[String; 0]>([]);
    round((text(&mut r), n as u8, [n as i8; 3], vec![Some(text(&mut r))]));
    round(vec![(text(&mut r), [text(&mut r), text(&mut r)])]);
    round(HashMap::from([(text(&mut r), vec![text(&mut r)]), ("k".to_string(), vec![])]));
    round(BTreeMap::from([('a', [text(&mut r)]), ('é', ["x".to_string()])]));
    round(HashSet::from([text(&mut r), text(&mut r)]));
    round(BTreeSet::from([n as i32, 4]));
    round(std::time::Duration::new(n % 1000, (n % 1_000_000_000) as u32));
    // Arrays whose contents are of the wrong kind part of the way, or too few or too many.
    let bad = vec![Some("a".to_string()), Some("b".to_string())].to_value();
    if <[u8; 2]>::from_value(bad.clone()).is_some() { println!("MISMATCH texts are loaded as numbers"); }
    if <[String; 3]>::from_value(vec!["a".to_string(); 2].to_value()).is_some() { println!("MISMATCH two texts are loaded as three"); }
    if <[String; 1]>::from_value(vec!["a".to_string(); 2].to_value()).is_some() { println!("MISMATCH two texts are loaded as one"); }
    if <[char; 3]>::from_value(vec!["a".to_string(), "b".to_string(), "long".to_string()].to_value()).is_some() { println!("MISMATCH a text is loaded as a character"); }
    count("value_sets");
}

fn threads(seed: u64) {
    let hs: Vec<_> = (0..3).map(|i| std::thread::spawn(move || {
        let s = seed.wrapping_mul(31).wrapping_add(i);
        scenes(s);
        tree(s);
        scenes(s + 7);
        COUNT.with(|c| std::mem::take(&mut *c.borrow_mut()))
    })).collect();
    for h in hs { for (k, v) in h.join().expect("a thread") { COUNT.with(|c| *c.borrow_mut().entry(k).or_insert(0) += v); } }
    count("thread_sets");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("noop");
    let seed: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    register();
    match mode {
        "tree"    => for i in 0..3 { tree(seed * 100 + i); count("trees"); },
        "scenes"  => for i in 0..2 { scenes(seed * 100 + i); },
        "exports" => exports(seed),
        "threads" => threads(seed),
        _         => {}
    }
    let counters: Vec<String> = COUNT.with(|c| c.borrow().iter().map(|(k, v)| format!("\"miri_{k}\": {v}")).collect());
    let key = rng::hash_str(&format!("{mode} {seed}"));
    let trace = TRACE.with(|t| t.borrow().clone());
    println!("OBSERVED {{\"evaluations\": 1, \"counters\": {{{}}}, \"distinct\": [\"{key:x}\"], \"samples\": [\"miri {mode} {seed} {trace}\"], \"violations\": []}}", counters.join(", "));
    std::process::exit(0);
}
