//! C13: listeners and emissions, with listeners that use the signal themselves. C14: copies have signals of their own.

use std::cell::RefCell;
use std::collections::{ BTreeMap, BTreeSet };

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::engine;
use crate::nodes::*;
use crate::report::{ add, count, evaluated, fail, sample, wants_sample };
use crate::rng::{ hash_str, Rng };

// ------------------------------------------------------------------------------- C13, plain signals

#[derive(Clone, Debug)]
struct Conn { sig: usize, rid: RID, once: bool, alive: bool, calls: u32, running: u32, consumed: bool }

struct Emission { sig: usize, value: u64, due: BTreeSet<usize>, called: BTreeSet<usize> }

struct Model {
    rng: Rng, conns: Vec<Conn>, stack: Vec<Emission>, budget: i32, trace: Vec<String>, broken: bool, next_value: u64,
    emissions: u64, nested: u64, calls: u64, changed_inside: u64, panicking: bool, retired: BTreeMap<(usize, RID), usize>
}

thread_local! {
    static M: RefCell<Option<Model>> = const { RefCell::new(None) };
    static SIGNALS: RefCell<Vec<&'static Signal<u64>>> = const { RefCell::new(Vec::new()) };
}

fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R { M.with(|c| f(c.borrow_mut().as_mut().expect("a case"))) }

fn signal(i: usize) -> &'static Signal<u64> { SIGNALS.with(|s| s.borrow()[i]) }

impl Model {
    fn log(&mut self, s: String) { let i = "  ".repeat(self.stack.len()); self.trace.push(format!("{i}{s}")); }
    fn fail(&mut self, s: String) {
        if self.broken { return; }
        self.broken = true;
        let t = self.trace.join("\n");
        fail(format!("{s}; after\n{t}"));
    }
}

fn connect(sig: usize) {
    let (id, once) = m(|m| (m.conns.len(), m.rng.chance(35)));
    // The connection is known before its identifier is, but nothing can call it in the meantime.
    m(|m| m.conns.push(Conn { sig, rid: 0, once, alive: true, calls: 0, running: 0, consumed: false }));
    let s = signal(sig);
    // What a listener holds is there as long as it runs, even if it disconnects itself.
    let held = Box::new([id as u64, !(id as u64), 0x5ea1]);
    let listener = move |v: &u64| {
        let (before, what) = (&*held as *const [u64; 3] as usize, [id as u64, !(id as u64), 0x5ea1]);
        called(id, *v);
        if before != &*held as *const [u64; 3] as usize || *held != what { m(|m| m.fail(format!("what listener {id} holds is not valid any more while it runs"))); }
    };
    let rid = unsafe { if once { s.connect_once(listener) } else { s.connect(listener) } };
    m(|m| {
        m.log(format!("connect{} listener {id} to signal {sig}: connection {rid}", if once { "_once" } else { "" }));
        if let Some((o, _)) = m.conns.iter().enumerate().find(|(_, c)| c.sig == sig && c.alive && c.rid == rid && !std::ptr::eq(*c, &m.conns[id])) {
            if o != id { m.fail(format!("two connections of signal {sig} have the identifier {rid}: those of listeners {o} and {id}")); }
        }
        m.conns[id].rid = rid;
        if !m.stack.is_empty() { m.changed_inside += 1; }
    });
}

fn disconnect(sig: usize) {
    let pick = m(|m| {
        let n = m.conns.len();
        let ids: Vec<usize> = (0..n).filter(|&i| m.conns[i].sig == sig).collect();
        match m.rng.below(10) {
            0 | 1 => None,
            2 => ids.last().copied(),
            3 | 4 => { let run: Vec<usize> = ids.iter().copied().filter(|&i| m.conns[i].running > 0).collect(); if run.is_empty() { None } else { Some(*m.rng.pick(&run)) } },
            _ => if ids.is_empty() { None } else { Some(*m.rng.pick(&ids)) }
        }
    });
    let rid = match pick { Some(i) => m(|m| m.conns[i].rid), None => m(|m| 100_000 + m.rng.below(1000) as RID) };
    // Whether a one-shot connection exists while its listener runs is not specified.
    let (holder, open) = m(|m| (m.conns.iter().position(|c| c.sig == sig && c.alive && c.rid == rid), m.conns.iter().any(|c| c.sig == sig && c.rid == rid && c.once && c.running > 0)));
    if open && holder.is_none() { return; }
    let got = signal(sig).disconnect(rid);
    m(|m| {
        m.log(format!("disconnect {rid} of signal {sig} (listener {holder:?}): {got}"));
        if got != holder.is_some() { m.fail(format!("disconnecting {rid} of signal {sig} says {got}, but the connection {}", if holder.is_some() { "existed" } else { "did not exist" })); }
        if let Some(h) = holder { m.conns[h].alive = false; m.retired.insert((sig, rid), h); }
        if !m.stack.is_empty() { m.changed_inside += 1; }
    });
}

fn emit(sig: usize) {
    let (value, how) = m(|m| {
        m.next_value += 1;
        let value = m.next_value;
        let due: BTreeSet<usize> = m.conns.iter().enumerate().filter(|(_, c)| c.sig == sig && c.alive).map(|(i, _)| i).collect();
        m.log(format!("emit {value} on signal {sig}, listeners {due:?}"));
        if !m.stack.is_empty() { m.nested += 1; }
        m.stack.push(Emission { sig, value, due, called: BTreeSet::new() });
        m.emissions += 1;
        (value, m.rng.below(6))
    });
    let s = signal(sig);
    // A listener may panic: the emission ends there, and everything else goes on as if it had ended.
    let whole = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
        0 => s.emit(Field::new(value)),
        1 => s.emit(ExportableField::new(value)),
        2 => s.emit(UniqueField::new(value)),
        3 => s.emit(DefaultField::new(value)),
        _ => s.emit(value)
    }));
    m(|m| {
        let e = m.stack.pop().expect("an emission");
        m.log(format!("the emission of {} ends{}", e.value, if whole.is_ok() { "" } else { " with a panic" }));
        if let Err(p) = whole {
            if p.downcast_ref::<OnPurpose>().is_none() { m.fail(format!("the emission of {} panics ({})", e.value, crate::last_panic())); }
            return;
        }
        let missed: Vec<usize> = e.due.iter().copied().filter(|&i| !e.called.contains(&i) && m.conns[i].alive).collect();
        if !missed.is_empty() { m.fail(format!("the emission of {} on signal {} did not call the listeners {missed:?}, which were connected all the time", e.value, e.sig)); }
    });
}

/// What every listener does.
fn called(id: usize, value: u64) {
    let go = m(|m| {
        m.calls += 1;
        m.log(format!("listener {id} is called with {value}"));
        let c = m.conns[id].clone();
        let Some(e) = m.stack.last() else { m.fail(format!("listener {id} is called although nothing is emitted")); return false; };
        let (sig, want) = (e.sig, e.value);
        if sig != c.sig { m.fail(format!("listener {id} of signal {} is called by signal {sig}", c.sig)); }
        else if want != value { m.fail(format!("listener {id} gets {value}, but {want} was emitted")); }
        else if e.called.contains(&id) { m.fail(format!("listener {id} is called twice by the emission of {value}")); }
        else if c.once && c.consumed { m.fail(format!("the one-shot listener {id} is called again")); }
        else if !c.alive { m.fail(format!("listener {id} is called although it was disconnected")); }
        m.stack.last_mut().expect("an emission").called.insert(id);
        let c = &mut m.conns[id];
        c.calls += 1;
        c.running += 1;
        if c.once { c.consumed = true; c.alive = false; }
        if m.stack.len() > 4 || m.broken { return false; }
        m.budget -= 1;
        m.budget > 0
    });
    if go {
        for _ in 0..m(|m| if m.rng.chance(45) { m.rng.range(1, 3) } else { 0 }) { act(); }
    }
    m(|m| m.conns[id].running -= 1);
    if m(|m| !m.broken && m.budget > 0 && m.panicking && m.rng.chance(12)) {
        m(|m| m.log(format!("listener {id} panics")));
        count("listeners_that_panic");
        std::panic::resume_unwind(Box::new(OnPurpose));
    }
}

struct OnPurpose;

fn act() {
    let Some((what, sig)) = m(|m| if m.broken || m.budget <= 0 { None } else { m.budget -= 1; Some((m.rng.below(12), m.rng.below(SIGNALS.with(|s| s.borrow().len())))) }) else { return };
    match what {
        0..=3 => connect(sig),
        4..=6 => disconnect(sig),
        7 => {
            // A copy of a signal is another one.
            let copy = signal(sig).clone();
            copy.emit(7_000_000_000);
            count("copies_emitted");
        },
        _ => emit(sig)
    }
}

fn plain(rng: Rng) {
    let mut r = rng;
    let n = r.range(1, 3);
    let steps = r.range(4, 30);
    let panicking = r.chance(20);
    let many = if r.chance(5) { if r.chance(20) { r.range(254, 700) } else { 150 } } else { 0 };
    let signals: Vec<*mut Signal<u64>> = (0..n).map(|i| Box::into_raw(Box::new(match i { 0 => Signal::new(), 1 => Signal::default(), _ => Signal::void() }))).collect();
    SIGNALS.with(|s| *s.borrow_mut() = signals.iter().map(|&p| unsafe { &*p }).collect());
    M.with(|c| *c.borrow_mut() = Some(Model {
        rng: r, conns: Vec::new(), stack: Vec::new(), budget: 220, trace: Vec::new(), broken: false, next_value: 0,
        emissions: 0, nested: 0, calls: 0, changed_inside: 0, panicking, retired: BTreeMap::new()
    }));
    for _ in 0..many { connect(0); }
    for _ in 0..steps {
        m(|m| if m.budget < 20 { m.budget = 20; });
        act();
    }
    // Whatever happened, every listener that is still connected hears one last emission.
    for i in 0..n { if !m(|m| m.broken) { m(|m| m.budget = 0); emit(i); } }
    let model = M.with(|c| c.borrow_mut().take()).expect("a case");
    SIGNALS.with(|s| s.borrow_mut().clear());
    if !model.broken { for p in signals { drop(unsafe { Box::from_raw(p) }); } }
    add("emissions", model.emissions);
    add("emissions_inside_listeners", model.nested);
    add("listener_calls", model.calls);
    add("connections_changed_inside_listeners", model.changed_inside);
    add("connections", model.conns.len() as u64);
    evaluated(model.calls > 2 && model.emissions > 2, hash_str(&model.trace.join("\n")));
    if wants_sample() { sample(model.trace.join("\n")); }
}

// ------------------------------------------------------------------------------- C13, nodes

class! {
    pub declare Caller;

    pub signal none();
    pub signal one(v: u64);
    pub signal two(a: u64, b: String);

    pub fn link(&self, kind: u64, once: bool, to: Tp<'static, Hearer>) -> RID {
        match (kind, once) {
            (0, false) => connect! { none -> to.hear0 },
            (0, true)  => connect! { none ~> to.hear0 },
            (1, false) => connect! { one -> to.hear1 },
            (1, true)  => connect! { one ~> to.hear1 },
            (_, false) => connect! { two -> to.hear2 },
            (_, true)  => connect! { two ~> to.hear2 }
        }
    }
}

class! {
    pub declare Hearer;

    pub let id: u64;

    hk _init(id_: u64) { let id = id_; }

    pub fn hear0(&self, _v: &())           { hears(*self.id, "()".to_string()) }
    pub fn hear1(&self, v: &u64)           { hears(*self.id, format!("{v}")) }
    pub fn hear2(&self, v: &(u64, String)) { hears(*self.id, format!("{} {}", v.0, v.1)) }
}

thread_local! { static HEARINGS: RefCell<Vec<(u64, String)>> = const { RefCell::new(Vec::new()) }; }

fn hears(id: u64, what: String) { HEARINGS.with(|h| h.borrow_mut().push((id, what))) }

fn lengthen<'a, T: Node>(t: Tp<'a, T>) -> Tp<'static, T> { unsafe { std::mem::transmute(t) } }

fn in_tree(mut r: Rng) {
    let n = r.range(1, 5);
    let callers = r.range(1, 2);
    let mut scene = NodeScene::new(Hearer::new(0));
    for i in 1..n { scene.append(NodeScene::new(Hearer::new(i as u64))); }
    for _ in 0..callers { scene.append(NodeScene::new(Caller::new())); }
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::All);
    let root: *mut dyn Node = tree.root_mut();
    let root = unsafe { &*root };
    let hearer = |i: usize| -> Tp<'static, Hearer> { lengthen(if i == 0 { root.this::<Hearer>() } else { root.get_child::<Hearer>(i - 1).unwrap() }) };
    let caller = |i: usize| -> Tp<'static, Caller> { lengthen(root.get_child::<Caller>(n - 1 + i).unwrap()) };
    HEARINGS.with(|h| h.borrow_mut().clear());
    // (caller, kind, hearer, once, rid, alive)
    let mut conns: Vec<(usize, u64, usize, bool, RID, bool)> = Vec::new();
    let mut want: Vec<Vec<String>> = vec![Vec::new(); n];
    let mut trace = Vec::new();
    for step in 0..r.range(3, 25) {
        let (c, kind) = (r.below(callers), r.below(3) as u64);
        match r.below(5) {
            0 | 1 => {
                let (h, once) = (r.below(n), r.chance(40));
                let rid = caller(c).link(kind, once, hearer(h));
                trace.push(format!("connect {c}.{kind} {} {h}: {rid}", if once { "~>" } else { "->" }));
                conns.push((c, kind, h, once, rid, true));
                count("connections");
            },
            2 if !conns.is_empty() => {
                let i = r.below(conns.len());
                let (c, kind, _, _, rid, _) = conns[i];
                let exists = conns.iter().position(|x| x.0 == c && x.1 == kind && x.4 == rid && x.5);
                let n = caller(c);
                let got = match kind { 0 => n.none.disconnect(rid), 1 => n.one.disconnect(rid), _ => n.two.disconnect(rid) };
                trace.push(format!("disconnect {c}.{kind} {rid}: {got}"));
                if got != exists.is_some() { return fail(format!("disconnecting {rid} says {got}; after {}", trace.join(", "))); }
                if let Some(e) = exists { conns[e].5 = false; }
            },
            _ => {
                let n = caller(c);
                let said = match kind {
                    0 => { n.none.emit(()); "()".to_string() },
                    1 => { n.one.emit(step as u64); format!("{step}") },
                    _ => { n.two.emit((step as u64, format!("s{step}"))); format!("{step} s{step}") }
                };
                trace.push(format!("emit {c}.{kind} {said}"));
                for x in conns.iter_mut().filter(|x| x.0 == c && x.1 == kind && x.5) {
                    want[x.2].push(said.clone());
                    count("listener_calls");
                    if x.3 { x.5 = false; }
                }
                count("emissions");
            }
        }
        for (i, want) in want.iter_mut().enumerate() {
            let heard: Vec<String> = HEARINGS.with(|h| h.borrow().iter().filter(|x| x.0 == i as u64).map(|x| x.1.clone()).collect());
            if heard != *want { return fail(format!("the listening node {i} heard {heard:?} instead of {want:?}; after {}", trace.join(", "))); }
            want.clear();
        }
        HEARINGS.with(|h| h.borrow_mut().clear());
    }
    count("trees_with_connected_nodes");
    evaluated(trace.len() > 4, hash_str(&trace.join("\n")));
}

pub fn run(mut r: Rng) {
    if r.chance(80) { plain(r) } else { in_tree(r) }
}

// ------------------------------------------------------------------------------- C14

thread_local! { static HEARD: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) }; }

fn listen(node: &mut dyn Node, tag: u64, once: bool) -> Option<RID> {
    let any = node.as_any_mut();
    let f = move |v: &u64| HEARD.with(|h| h.borrow_mut().push((tag, *v)));
    macro_rules! go { ($($t:ty),*) => { $( if let Some(x) = any.downcast_mut::<$t>() { return Some(unsafe { if once { x.sig.connect_once(f) } else { x.sig.connect(f) } }); } )* } }
    go!(NodeA, NodeB, NodeC);
    None
}

fn emit_on(node: &mut dyn Node, v: u64) {
    let any = node.as_any_mut();
    macro_rules! go { ($($t:ty),*) => { $( if let Some(x) = any.downcast_mut::<$t>() { return x.sig.emit(v); } )* } }
    go!(NodeA, NodeB, NodeC);
}

fn drop_connection(node: &mut dyn Node, rid: RID) -> bool {
    let any = node.as_any_mut();
    macro_rules! go { ($($t:ty),*) => { $( if let Some(x) = any.downcast_mut::<$t>() { return x.sig.disconnect(rid); } )* } }
    go!(NodeA, NodeB, NodeC);
    false
}

/// All nodes of a scene, in order.
fn nodes_of(s: &NodeScene, out: &mut Vec<*mut dyn Node>) {
    let b = unsafe { s.get_node() };
    out.push(Box::into_raw(b));
    for c in s.children() { nodes_of(c, out); }
}

fn nodes_in(n: &mut dyn Node, tree: *mut dyn NodeTree, out: &mut Vec<*mut dyn Node>) {
    let mut ids = vec![n.rid()];
    ids.extend(n.top_down(false));
    for i in ids { if let Some(n) = unsafe { &mut *tree }.get_node_mut(i) { out.push(n as *mut dyn Node); } }
}

type Group = (String, Vec<*mut dyn Node>, Vec<Vec<(u64, bool)>>, Vec<Vec<RID>>);

pub fn run_copies(mut r: Rng) {
    HEARD.with(|h| h.borrow_mut().clear());
    let mut next = 1;
    let size = r.range(1, 7);
    let d = engine::gen_desc(&mut r, size, 20, 0, &mut next);
    let first = engine::build(&d);
    let mut trace = vec![d.show()];
    let mut tags = 1u64;
    let mut scenes: Vec<Box<NodeScene>> = Vec::new();
    let mut boxes: Vec<Box<dyn Node>> = Vec::new();
    let mut trees: Vec<Box<TreeSimple>> = Vec::new();
    // Every family of nodes, with the listeners that each node should have.
    let mut groups: Vec<Group> = Vec::new();
    let mut v = Vec::new();
    nodes_of(&first, &mut v);
    groups.push(("built".into(), v, vec![Vec::new(); size], vec![Vec::new(); size]));
    scenes.push(Box::new(first));
    let mut origin: Vec<(u8, usize)> = vec![(0, 0)];    // Where a group lives: a scene, a tree or a box.

    for step in 0..r.range(4, 16) {
        match r.below(10) {
            0..=2 => {
                // Connect something somewhere.
                let g = r.below(groups.len());
                let k = r.below(groups[g].1.len());
                let once = r.chance(25);
                let (tag, node) = (tags, groups[g].1[k]);
                tags += 1;
                let Some(rid) = listen(unsafe { &mut *node }, tag, once) else { return fail("a node is not of its type any more".into()) };
                trace.push(format!("connect{} {tag} to {}[{k}]", if once { "_once" } else { "" }, groups[g].0));
                groups[g].2[k].push((tag, once));
                groups[g].3[k].push(rid);
                count("connections");
            },
            3..=6 if groups.len() < 7 => {
                let g = r.below(groups.len());
                let (kind, i) = origin[g];
                let what = r.below(4);
                let copy: Option<(String, Box<NodeScene>)> = match (kind, what) {
                    (0, 0) => Some((format!("g{}: clone of g{g}", groups.len()), Box::new((*scenes[i]).clone()))),
                    (0, 1) => {
                        let text = match scenes[i].save_to_str() { Ok(t) => t, Err(e) => return fail(format!("a scene with connected signals cannot be saved: {e}")) };
                        match NodeScene::load_from_str(&text) { Ok(s) => Some((format!("g{}: loaded from g{g}", groups.len()), Box::new(s))), Err(e) => return fail(format!("the saved scene cannot be loaded: {e}")) }
                    },
                    (1, 0 | 1) => {
                        let k = r.below(groups[g].1.len());
                        Some((format!("g{}: branch of g{g}[{k}]", groups.len()), Box::new(unsafe { &*groups[g].1[k] }.save_as_branch())))
                    },
                    _ => None
                };
                if let Some((name, s)) = copy {
                    let mut v = Vec::new();
                    nodes_of(&s, &mut v);
                    let n = v.len();
                    trace.push(name.clone());
                    groups.push((name, v, vec![Vec::new(); n], vec![Vec::new(); n]));
                    origin.push((0, scenes.len()));
                    scenes.push(s);
                    count("copies");
                } else if what == 2 {
                    // A single node.
                    let k = r.below(groups[g].1.len());
                    let mut b = unsafe { &*groups[g].1[k] }.clone_as_instance();
                    let name = format!("g{}: copy of g{g}[{k}]", groups.len());
                    trace.push(name.clone());
                    let p: *mut dyn Node = &mut *b;
                    groups.push((name, vec![p], vec![Vec::new()], vec![Vec::new()]));
                    origin.push((2, boxes.len()));
                    boxes.push(b);
                    count("copies");
                } else if kind == 0 && trees.len() < 2 {
                    // A tree from a copy of the scene; the copy's nodes become those of the tree.
                    let s = (*scenes[i]).clone();
                    let mut t: Box<TreeSimple> = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
                    let tp: *mut dyn NodeTree = &mut *t as &mut dyn NodeTree;
                    let mut v = Vec::new();
                    nodes_in(t.root_mut(), tp, &mut v);
                    let n = v.len();
                    let name = format!("g{}: tree of a clone of g{g}", groups.len());
                    trace.push(name.clone());
                    groups.push((name, v, vec![Vec::new(); n], vec![Vec::new(); n]));
                    origin.push((1, trees.len()));
                    trees.push(t);
                    count("copies");
                }
            },
            7 => {
                // A connection of one node is none of another.
                let (a, b) = (r.below(groups.len()), r.below(groups.len()));
                let (ka, kb) = (r.below(groups[a].1.len()), r.below(groups[b].1.len()));
                if groups[a].3[ka].is_empty() || (a, ka) == (b, kb) { continue; }
                let rid = *r.pick(&groups[a].3[ka]);
                if groups[b].3[kb].contains(&rid) { continue; }
                trace.push(format!("disconnect the connection {rid} of {}[{ka}] on {}[{kb}]", groups[a].0, groups[b].0));
                if drop_connection(unsafe { &mut *groups[b].1[kb] }, rid) { return fail(format!("a connection of one node could be disconnected on its copy; after {}", trace.join(", "))); }
            },
            _ => {
                let g = r.below(groups.len());
                for k in 0..groups[g].1.len() {
                    let value = (step * 100 + k) as u64;
                    emit_on(unsafe { &mut *groups[g].1[k] }, value);
                    let mut heard = HEARD.with(|h| std::mem::take(&mut *h.borrow_mut()));
                    let mut want: Vec<(u64, u64)> = groups[g].2[k].iter().map(|&(t, _)| (t, value)).collect();
                    heard.sort();
                    want.sort();
                    count("emissions");
                    add("listener_calls", want.len() as u64);
                    if heard != want {
                        return fail(format!("emitting {value} on node {k} of {} reaches {heard:?} (listener, value) instead of {want:?}; after {}", groups[g].0, trace.join(", ")));
                    }
                    groups[g].2[k].retain(|&(_, once)| !once);
                }
                trace.push(format!("emit on {}", groups[g].0));
            }
        }
    }
    evaluated(groups.len() > 1 && tags > 1, hash_str(&trace.join("\n")));
    if wants_sample() { sample(trace.join("\n")); }
}
