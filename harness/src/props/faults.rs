//! C34: user code that panics while nodes are copied, saved, loaded, added or processed, at any moment.

use std::cell::{ Cell, RefCell };
use std::collections::BTreeMap;
use std::panic::{ catch_unwind, panic_any, AssertUnwindSafe };

use node_tree::prelude::*;
use node_tree::traits::exportable::Exportable;
use node_tree::trees::tree_simple::TreeSimple;
use toml_edit::Value;

use crate::engine::peek;
use crate::nodes::{ reset_tokens, Token, TOKENS };
use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::{ hash_str, Rng };

/// What the user code panics with.
struct Boom;

thread_local! {
    /// The number of calls into user code that are left until one panics.
    static FUSE:   Cell<Option<u32>>               = const { Cell::new(None) };
    static CALLS:  Cell<u32>                       = const { Cell::new(0) };
    static EVENTS: RefCell<Vec<(char, u64, usize)>> = const { RefCell::new(Vec::new()) };
    static BROKEN: Cell<bool>                      = const { Cell::new(false) };
    static TRACE:  RefCell<Vec<String>>            = const { RefCell::new(Vec::new()) };
}

fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    match FUSE.with(|f| f.get()) {
        Some(1) => { FUSE.with(|f| f.set(None)); panic_any(Boom) },
        Some(n) => FUSE.with(|f| f.set(Some(n - 1))),
        None    => ()
    }
}

fn wrong(what: String) {
    if !BROKEN.with(|b| b.replace(true)) { TRACE.with(|t| fail(format!("{what}; after\n{}", t.borrow().join("\n")))); }
}
fn broken() -> bool { BROKEN.with(|b| b.get()) }
fn note(s: String) { TRACE.with(|t| t.borrow_mut().push(s)); }

/// A value of the user's that may panic whenever anything is done with it.
#[derive(Debug, PartialEq)]
pub struct Part(Box<u64>);

impl Part { fn new(n: u64) -> Part { Part(Box::new(n)) } }
impl Default for Part { fn default() -> Part { tick(); Part::new(0) } }
impl Clone for Part { fn clone(&self) -> Part { tick(); Part::new(*self.0) } }
impl Exportable for Part {
    fn to_value(&self) -> Value { tick(); (*self.0 as i64).into() }
    fn from_value(v: Value) -> Option<Part> { tick(); v.as_integer().filter(|i| *i >= 0).map(|i| Part::new(i as u64)) }
}

macro_rules! fragile {
    ($($name:ident),*) => { $(
        class! {
            pub declare $name;

            pub export  let id:     u64;
            pub default let first:  Token;
            pub export  let part:   Part;
            pub default let middle: Part;
            pub         let shard:  Part;
            pub default let token:  Token;

            hk _init(id_: u64) {
                let id    = id_;
                let part  = Part::new(id_ * 10);
                let shard = Part::new(id_ * 10 + 1);
            }

            hk loaded(&mut self)                          { runs('L', *self.id, self.rid() as usize); tick(); }
            hk ready(&mut self)                           { runs('R', *self.id, self.rid() as usize); tick(); }
            hk process(&mut self, _delta: f32)            { runs('P', *self.id, self.rid() as usize); tick(); }
            hk terminal(&mut self, _r: TerminationReason) { runs('T', *self.id, self.rid() as usize); }
        }
    )* }
}

fragile!(Fragile, Brittle);

fn runs(hook: char, id: u64, rid: usize) { EVENTS.with(|e| e.borrow_mut().push((hook, id, rid))); }
fn mark() -> usize { EVENTS.with(|e| e.borrow().len()) }
fn since(at: usize) -> Vec<(char, u64)> { EVENTS.with(|e| e.borrow()[at..].iter().map(|x| (x.0, x.1)).collect()) }

/// What a scene, or the part of a tree below a node, looks like.
#[derive(Clone, PartialEq, Debug)]
struct D { brittle: bool, id: u64, name: String, owner: bool, part: u64, shard: u64, children: Vec<D> }

impl D {
    fn size(&self) -> usize { 1 + self.children.iter().map(|c| c.size()).sum::<usize>() }
    fn ids(&self, out: &mut Vec<u64>) { out.push(self.id); for c in &self.children { c.ids(out); } }
    fn loaded(&self) -> D { D { shard: 0, children: self.children.iter().map(|c| c.loaded()).collect(), ..self.clone() } }
    fn find(&mut self, id: u64) -> Option<&mut D> {
        if self.id == id { return Some(self); }
        self.children.iter_mut().find_map(|c| c.find(id))
    }
}

fn look(n: &dyn Node) -> Option<(bool, u64, u64, u64, [usize; 2])> {
    let any = n.as_any_ref();
    macro_rules! go { ($($b:expr => $t:ty),*) => { $( if let Some(x) = any.downcast_ref::<$t>() {
        if !x.first.is_sound() || !x.token.is_sound() { wrong(format!("node {} is no valid memory", *x.id)); return None; }
        return Some(($b, *x.id, *x.part.0, if x.shard.is_void() { 0 } else { *x.shard.0 }, [x.first.index(), x.token.index()]));
    } )* } }
    go!(false => Fragile, true => Brittle);
    wrong("a node is of no type that was made".to_string());
    None
}

fn flatten(s: &NodeScene, tokens: &mut Vec<usize>) -> Option<D> {
    let (x, name) = peek(s, |n| (look(n), n.name().to_string()));
    let (brittle, id, part, shard, t) = x?;
    tokens.extend(t);
    let mut children = Vec::new();
    for c in s.children() { children.push(flatten(c, tokens)?); }
    Some(D { brittle, id, name, owner: s.is_owner, part, shard, children })
}

fn survey(n: &dyn Node, parent: Option<RID>, tokens: &mut Vec<usize>) -> Option<D> {
    let (brittle, id, part, shard, t) = look(n)?;
    tokens.extend(t);
    let up = if n.is_root() { None } else { Some(n.parent_dyn().unwrap().rid()) };
    if up != parent { wrong(format!("the parent of node {id} is {up:?} and not {parent:?}")); return None; }
    let mut children = Vec::new();
    for c in n.children() { children.push(survey(c.get(), Some(n.rid()), tokens)?); }
    Some(D { brittle, id, name: n.name().to_string(), owner: n.is_owner(), part, shard, children })
}

fn make(r: &mut Rng, next: &mut u64, size: usize) -> (NodeScene, D) {
    let mut parts: Vec<(NodeScene, D)> = Vec::new();
    let parents: Vec<usize> = (0..size).map(|i| if i == 0 { 0 } else { r.below(i) }).collect();
    for _ in 0..size {
        let id = *next;
        *next += 1;
        let brittle = r.chance(40);
        let mut node: Box<dyn Node> = if brittle { Brittle::new(id).to_dyn_box() } else { Fragile::new(id).to_dyn_box() };
        let name = format!("N{id}x");
        node.set_name(&name);
        parts.push((NodeScene::new_dyn(node), D { brittle, id, name, owner: true, part: id * 10, shard: id * 10 + 1, children: Vec::new() }));
    }
    for i in (1..size).rev() {
        let (s, mut d) = parts.pop().unwrap();
        d.owner = r.chance(30);
        let p = &mut parts[parents[i]];
        // The last one comes first here, and goes to the end all the same.
        if d.owner { p.0.append_as_owner(s); } else { p.0.append(s); }
        p.1.children.push(d);
    }
    parts.pop().unwrap()
}

/// A collection of the user's that gives some nodes and then panics.
struct Burst { nodes: Vec<Box<dyn Node>>, gives: usize }

impl Instanceable for Burst {
    fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
        for (i, n) in self.nodes.into_iter().enumerate() {
            if i == self.gives { panic_any(Boom); }
            iterator(None, Box::into_raw(n), false);
        }
    }
}

enum Out<R> { Done(R), Boom }

/// Runs something in which user code may panic.
fn lit<R>(fuse: Option<u32>, f: impl FnOnce() -> R) -> Out<R> {
    FUSE.with(|x| x.set(fuse));
    let got = catch_unwind(AssertUnwindSafe(f));
    let went_off = FUSE.with(|x| x.replace(None)).is_none() && fuse.is_some();
    match got {
        Ok(v) => {
            if went_off { wrong("user code panicked, and the panic does not reach whoever called the library".to_string()); }
            Out::Done(v)
        },
        Err(e) if e.is::<Boom>() => { count("panics_let_through"); Out::Boom },
        Err(_) => { wrong(format!("the library panicked: {}", crate::last_panic())); Out::Boom }
    }
}

struct World { pool: Vec<(NodeScene, D, bool)>, tree: Box<TreeSimple>, root: D, lost: usize }

impl World {
    /// Everything is as the model says, and no node is missing or left over.
    fn check(&mut self, what: &str) {
        if broken() { return; }
        let mut tokens = Vec::new();
        for (s, d, _) in &self.pool {
            match flatten(s, &mut tokens) {
                Some(real) if real != *d => wrong(format!("{what}: a scene is {real:?} and not {d:?}")),
                Some(_) => count("scenes_intact"),
                None => ()
            }
            if broken() { return; }
        }
        let real = survey(self.tree.root(), None, &mut tokens);
        if broken() { return; }
        if real.as_ref() != Some(&self.root) { return wrong(format!("{what}: the tree is {real:?} and not {:?}", self.root)); }
        count("trees_intact");
        tokens.sort();
        let live: Vec<usize> = TOKENS.with(|t| t.borrow().iter().enumerate().filter(|x| x.1.drops == 0).map(|x| x.0).collect());
        if let Some(x) = TOKENS.with(|t| t.borrow().iter().position(|x| x.drops > 1)) { return wrong(format!("{what}: something was dropped twice ({x})")); }
        if tokens.windows(2).any(|w| w[0] == w[1]) { return wrong(format!("{what}: a node is in two places")); }
        if tokens.iter().any(|t| live.binary_search(t).is_err()) { return wrong(format!("{what}: a node that can be reached was dropped")); }
        if live.len() != tokens.len() + self.lost { wrong(format!("{what}: {} tokens are neither dropped nor can they be reached", live.len() as isize - tokens.len() as isize - self.lost as isize)); }
    }

    fn live(&self) -> usize { TOKENS.with(|t| t.borrow().iter().filter(|x| x.drops == 0).count()) }
}

pub fn run(mut r: Rng) {
    reset_tokens();
    BROKEN.with(|b| b.set(false));
    FUSE.with(|f| f.set(None));
    TRACE.with(|t| t.borrow_mut().clear());
    EVENTS.with(|e| e.borrow_mut().clear());
    let mut next = 1;
    let size = r.range(1, 5);
    let (s, mut root) = make(&mut r, &mut next, size);
    root.owner = true;
    let tree = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
    let mut w = World { pool: Vec::new(), tree, root, lost: 0 };
    let mut texts: Vec<(String, D)> = Vec::new();
    w.check("just built");
    let mut booms = 0;
    for _ in 0..r.range(4, 25) {
        if broken() { break; }
        // How many calls into user code such an operation makes is not known here; most of the time one of them panics.
        let fuse = if r.chance(25) { None } else { Some(if r.chance(50) { r.range(1, 4) } else { r.range(1, 30) } as u32) };
        let what = if w.pool.is_empty() { 0 } else { r.below(20) };
        if w.pool.len() > 5 { let k = r.below(w.pool.len()); w.pool.remove(k); }
        let calls = CALLS.with(|c| c.get());
        let k = if w.pool.is_empty() { 0 } else { r.below(w.pool.len()) };
        let mut ids = Vec::new();
        w.root.ids(&mut ids);
        let some = *r.pick(&ids);
        let mut known: BTreeMap<u64, RID> = BTreeMap::new();
        for rid in w.tree.root().top_down(true) { if let Some(x) = w.tree.get_node(rid).and_then(look) { known.insert(x.1, rid); } }
        let mut boom = false;
        let op;
        match what {
            0 | 1 => {
                op = "a new scene";
                let size = r.range(1, 7);
                let (s, d) = make(&mut r, &mut next, size);
                w.pool.push((s, d, false));
            },
            2..=5 => {
                op = "copying a scene";
                note(format!("{op} of {} nodes, {fuse:?}", w.pool[k].1.size()));
                match lit(fuse, || w.pool[k].0.clone()) {
                    Out::Done(c) => { let (d, disk) = (w.pool[k].1.clone(), w.pool[k].2); w.pool.push((c, d, disk)); },
                    Out::Boom    => boom = true
                }
            },
            6..=8 => {
                op = "saving a scene";
                note(format!("{op} of {} nodes, {fuse:?}", w.pool[k].1.size()));
                let before = w.live();
                match lit(fuse, || w.pool[k].0.save_to_str()) {
                    Out::Done(Ok(t))  => texts.push((t, w.pool[k].1.loaded())),
                    Out::Done(Err(e)) => wrong(format!("a scene cannot be saved: {e}")),
                    Out::Boom         => {
                        boom = true;
                        // What was made in order to save the scene may be left behind, the scene itself is whole.
                        let more = w.live() - before.min(w.live());
                        if more > w.pool[k].1.size() * 2 { wrong(format!("saving {} nodes left {more} tokens behind", w.pool[k].1.size())); }
                        w.lost += more;
                    }
                }
            },
            9..=11 if !texts.is_empty() => {
                op = "loading a scene";
                let (text, d) = texts[r.below(texts.len())].clone();
                let spoil = r.chance(15);
                let text = if spoil { let at = format!("part = {}", d.part); text.replace(&format!("{at}\n"), "part = -1\n") } else { text };
                note(format!("{op} of {} nodes, {fuse:?}{}", d.size(), if spoil { ", with a value that is refused" } else { "" }));
                match lit(fuse, || NodeScene::load_from_str(&text)) {
                    Out::Done(Ok(_)) if spoil => wrong(format!("a value that its type refuses is loaded from\n{text}")),
                    Out::Done(Ok(s))  => w.pool.push((s, d, true)),
                    Out::Done(Err(e)) => if !spoil { wrong(format!("a saved scene cannot be loaded any more: {e}\n{text}")) } else { count("values_refused") },
                    Out::Boom         => boom = true
                }
            },
            12 | 13 => {
                op = "saving a branch";
                note(format!("{op} at {some}, {fuse:?}"));
                let node = w.tree.get_node(known[&some]).unwrap();
                match lit(fuse, || node.save_as_branch()) {
                    Out::Done(s) => { let mut d = w.root.find(some).unwrap().clone(); d.owner = true; w.pool.push((s, d, false)); },
                    Out::Boom    => boom = true
                }
            },
            14 => {
                op = "copying a node";
                note(format!("{op}, {some}, {fuse:?}"));
                let node = w.tree.get_node(known[&some]).unwrap();
                match lit(fuse, || node.clone_as_instance()) {
                    Out::Done(b) => { let d = D { children: Vec::new(), owner: true, ..w.root.find(some).unwrap().clone() }; w.pool.push((NodeScene::new_dyn(b), d, false)); },
                    Out::Boom    => boom = true
                }
            },
            15 | 16 if known.len() < 25 => {
                op = "adding a scene";
                let (s, mut d, disk) = w.pool.remove(k);
                // No two nodes of the tree are to have the same number.
                let shift = next;
                let mut renumber = |n: &mut dyn Node| {
                    let id = next;
                    next += 1;
                    if let Some(x) = n.as_any_mut().downcast_mut::<Fragile>() { *x.id = id; }
                    if let Some(x) = n.as_any_mut().downcast_mut::<Brittle>() { *x.id = id; }
                    n.set_name(&format!("N{id}x"));
                };
                fn both(s: &NodeScene, d: &mut D, id: &mut u64, f: &mut impl FnMut(&mut dyn Node)) {
                    peek(s, |n| f(n));
                    d.id = *id;
                    d.name = format!("N{id}x");
                    *id += 1;
                    for (c, d) in s.children().iter().zip(&mut d.children) { both(c, d, id, f); }
                }
                both(&s, &mut d, &mut { shift }, &mut renumber);
                note(format!("{op} of {} nodes{} below {some}, {fuse:?}", d.size(), if disk { " that were loaded" } else { "" }));
                let at = mark();
                let node = w.tree.get_node_mut(known[&some]).unwrap();
                boom = matches!(lit(fuse, || node.add_child(s)), Out::Boom);
                let ran = since(at);
                if !boom {
                    let n = d.size();
                    let (l, y) = (ran.iter().filter(|e| e.0 == 'L').count(), ran.iter().filter(|e| e.0 == 'R').count());
                    if y != n || l != if disk { n } else { 0 } { wrong(format!("adding {n} nodes runs {ran:?}")); }
                }
                // Every node is in its place before the first hook runs.
                w.root.find(some).unwrap().children.push(d);
            },
            17 if known.len() < 25 => {
                op = "adding a collection that panics";
                let n = r.range(1, 4);
                let gives = r.below(n);
                note(format!("{op} after {gives} of {n} nodes, below {some}"));
                let mut nodes: Vec<Box<dyn Node>> = Vec::new();
                for i in 0..n {
                    let mut b = Fragile::new(next).to_dyn_box();
                    let name = format!("N{next}x");
                    b.set_name(&name);
                    if i < gives { w.root.find(some).unwrap().children.push(D { brittle: false, id: next, name, owner: false, part: next * 10, shard: next * 10 + 1, children: Vec::new() }); }
                    nodes.push(b);
                    next += 1;
                }
                let node = w.tree.get_node_mut(known[&some]).unwrap();
                match lit(None, || node.add_child(Burst { nodes, gives })) { Out::Done(()) => wrong("a panic inside a collection did not get through".to_string()), Out::Boom => boom = true }
            },
            18 => {
                op = "removing a node";
                if some == w.root.id { continue; }
                note(format!("{op}, {some}"));
                let mut d = w.root.clone();
                fn cut(d: &mut D, id: u64) { d.children.retain(|c| c.id != id); for c in &mut d.children { cut(c, id); } }
                cut(&mut d, some);
                w.root = d;
                w.tree.get_node_mut(known[&some]).unwrap().free();
                // What was removed is dropped at the end of a frame.
                w.tree.process();
            },
            _ => {
                op = "a frame";
                note(format!("{op}, {fuse:?}"));
                let at = mark();
                match lit(fuse, || w.tree.process()) {
                    Out::Boom => boom = true,
                    Out::Done(status) => {
                        let mut ran: Vec<u64> = since(at).iter().filter(|e| e.0 == 'P').map(|e| e.1).collect();
                        ran.sort();
                        ids.sort();
                        if ran != ids { wrong(format!("a frame of the nodes {ids:?} processes {ran:?}")); }
                        if !matches!(status, TreeStatus::Process(_)) { wrong(format!("the tree is {status:?}")); }
                    }
                }
            }
        }
        if boom { booms += 1; note("  panicked".to_string()); }
        if fuse.is_some() && !boom { count("operations_that_escaped"); }
        if boom { count(match op {
            "copying a scene" => "copies_that_panicked", "saving a scene" => "saves_that_panicked", "loading a scene" => "loads_that_panicked",
            "saving a branch" => "branches_that_panicked", "adding a scene" => "arrivals_that_panicked", "a frame" => "frames_that_panicked", _ => "others_that_panicked"
        }); }
        crate::report::add("calls_into_user_code", (CALLS.with(|c| c.get()) - calls) as u64);
        w.check(op);
    }
    let trace = TRACE.with(|t| t.borrow().join("\n"));
    if !broken() {
        let lost = w.lost;
        drop(w);
        let live = TOKENS.with(|t| t.borrow().iter().filter(|x| x.drops == 0).count());
        if TOKENS.with(|t| t.borrow().iter().any(|x| x.drops > 1)) { wrong("something was dropped twice in the end".to_string()); }
        if live != lost { wrong(format!("{} tokens are left in the end", live - lost)); }
    } else {
        std::mem::forget(w);
    }
    if wants_sample() && booms > 2 { sample(trace.clone()); }
    evaluated(booms > 0, hash_str(&trace));
}
