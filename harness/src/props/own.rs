//! C33: tree, node and scene types of one's own.

use std::cell::RefCell;
use std::collections::{ HashMap, HashSet };

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::{ hash_str, Rng };

/// Counts drops.
#[derive(Debug)]
pub struct Tok(usize, Box<usize>);

impl Tok { fn new() -> Self { m(|m| { m.drops.push(0); Tok(m.drops.len() - 1, Box::new(m.drops.len() - 1)) }) } }

impl Drop for Tok {
    fn drop(&mut self) { M.with(|c| if let Ok(mut c) = c.try_borrow_mut() { if let Some(m) = c.as_mut() { match m.drops.get_mut(self.0) { Some(d) if *self.1 == self.0 => *d += 1, _ => m.odd_drop = true } } }) }
}

// Trees.

#[derive(Tree)]
pub struct Arena { seen: Vec<(u64, char)>, mark: u64, base: Option<NodeTreeBase>, words: String, tok: Tok }

#[derive(Tree)]
pub struct Plot { base: Option<NodeTreeBase>, seen: Vec<(u64, char)>, mark: u64, tok: Tok }

#[derive(Debug, Tree)]
struct Bed { pub mark: u64, pub base: Option<NodeTreeBase> }

fn arena<I: Instanceable>(mark: u64, what: I) -> Box<Arena> {
    let mut t = Box::new(Arena { seen: Vec::new(), mark, base: None, words: format!("tree {mark}"), tok: Tok::new() });
    initialize_base(&mut t, what, LoggerVerbosity::All);
    t
}

fn plot<I: Instanceable>(mark: u64, what: I) -> Box<Plot> {
    let mut t = Box::new(Plot { base: None, seen: Vec::new(), mark, tok: Tok::new() });
    initialize_base(&mut t, what, LoggerVerbosity::NoDebug);
    t
}

fn bed<I: Instanceable>(mark: u64, what: I) -> Box<Bed> {
    let mut t = Box::new(Bed { mark, base: None });
    initialize_base(&mut t, what, LoggerVerbosity::OnlyIssues);
    t
}

// Nodes without `class!`, and one with it.

macro_rules! hooks {
    ($($l:ident)?) => {
        fn loaded(&mut self)                      { let i = *self.id; runs(self, i, 'L') }
        fn ready(&mut self)                       { let i = *self.id; runs(self, i, 'R') }
        fn process(&mut self, _d: f32)            { let i = *self.id; runs(self, i, 'P') }
        fn terminal(&mut self, _r: TerminationReason) { let i = *self.id; runs(self, i, 'T') }
        fn process_mode(&self) -> ProcessMode     { ProcessMode::Always }
    }
}

#[derive(Debug, Clone, Abstract, Register)]
pub struct Bare { base: NodeBase, id: ExportableField<u64> }

impl Node for Bare { hooks!(); }

#[derive(Debug, Clone, Abstract, Register)]
struct Mid { id: ExportableField<u64>, word: ExportableField<String>, pub base: NodeBase, tok: UniqueField<Tok>, note: DefaultField<Vec<u8>>, plain: Field<i8> }

impl Node for Mid { hooks!(); }

mod deeper {
    use super::*;
    // The same name elsewhere.
    #[derive(Debug, Clone, Abstract, Register)]
    pub struct Bare { pub id: ExportableField<u64>, pub base: NodeBase, pub tok: UniqueField<Tok> }

    impl Node for Bare { hooks!(); }
}

class! {
    pub declare Made;
    export let id: u64;
    unique let tok: Tok = Tok::new();
    hk _init(id_: u64) { let id = id_; }
    hk loaded(&mut self)                          { let i = *self.id; runs(self, i, 'L') }
    hk ready(&mut self)                           { let i = *self.id; runs(self, i, 'R') }
    hk process(&mut self, _d: f32)                { let i = *self.id; runs(self, i, 'P') }
    hk terminal(&mut self, _r: TerminationReason) { let i = *self.id; runs(self, i, 'T') }
    hk process_mode(&self) -> ProcessMode         { ProcessMode::Always }
}

fn make(kind: usize, id: u64, name: &str) -> Box<dyn Node> {
    let base = NodeBase::new(name.to_string());
    let mut n: Box<dyn Node> = match kind {
        0 => Bare { base, id: ExportableField::new(id) }.to_dyn_box(),
        1 => Mid { base, id: ExportableField::new(id), word: ExportableField::new(format!("w{id}")), tok: UniqueField::new(Tok::new()), note: DefaultField::new(vec![id as u8]), plain: Field::new(-3) }.to_dyn_box(),
        2 => deeper::Bare { base, id: ExportableField::new(id), tok: UniqueField::new(Tok::new()) }.to_dyn_box(),
        _ => Box::new(Made::new(id))
    };
    if kind == 3 { n.set_name(name); }
    n
}

fn type_of(kind: usize) -> &'static str {
    [std::any::type_name::<Bare>(), std::any::type_name::<Mid>(), std::any::type_name::<deeper::Bare>(), std::any::type_name::<Made>()][kind]
}

fn id_of(n: &dyn Node) -> Option<(usize, u64)> {
    let a = n.as_any_ref();
    let all = [a.downcast_ref::<Bare>().map(|n| *n.id), a.downcast_ref::<Mid>().map(|n| *n.id), a.downcast_ref::<deeper::Bare>().map(|n| *n.id), a.downcast_ref::<Made>().map(|n| *n.id)];
    let some: Vec<(usize, u64)> = all.iter().enumerate().filter_map(|(k, i)| i.map(|i| (k, i))).collect();
    if some.len() == 1 { Some(some[0]) } else { None }
}

// What can be planted, in an order and by a collection of its own.

#[derive(Clone, Debug)]
struct Plant { parent: Option<usize>, kind: usize, id: u64, name: String, owner: bool }

struct Planting { plants: Vec<Plant>, order: Vec<usize> }

impl Instanceable for Planting {
    fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
        let mut made: HashMap<usize, *mut dyn Node> = HashMap::new();
        for i in self.order {
            let p = &self.plants[i];
            let node: *mut dyn Node = Box::into_raw(make(p.kind, p.id, &p.name));
            made.insert(i, node);
            iterator(p.parent.map(|p| made[&p]), node, p.owner);
        }
    }
}

/// A scene with one more node.
struct Grafted(NodeScene, Plant);

impl Instanceable for Grafted {
    fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
        let mut first: Option<*mut dyn Node> = None;
        self.0.iterate(|parent, node, owner| { first.get_or_insert(node); iterator(parent, node, owner) });
        iterator(first, Box::into_raw(make(self.1.kind, self.1.id, &self.1.name)), self.1.owner);
    }
}

// The monitor.

#[derive(Debug)]
struct Known { tree: usize, kind: usize, parent: Option<u64>, owner: u64, kids: Vec<u64>, loaded: bool }

struct Grown { kind: usize, addr: usize, mark: u64, seen: Vec<(u64, char)>, alive: bool, root: u64, over: bool }

#[derive(Default)]
struct Model { drops: Vec<u32>, odd_drop: bool, trees: Vec<Grown>, nodes: HashMap<u64, Known>, gone: HashSet<u64>, trace: Vec<String>, broken: bool, calls: u64 }

thread_local! { static M: RefCell<Option<Model>> = const { RefCell::new(None) }; }

fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R { M.with(|c| f(c.borrow_mut().as_mut().expect("a case"))) }
fn wrong(what: String) {
    let t = m(|m| { let first = !m.broken; m.broken = true; if first { Some(m.trace.join("\n")) } else { None } });
    if let Some(t) = t { fail(format!("{what}; after\n{t}")); }
}
fn note(t: String) { m(|m| m.trace.push(t)); }
fn broken() -> bool { m(|m| m.broken) }

const KINDS: [&str; 4] = ["Arena", "Plot", "Bed", "TreeSimple"];

/// Which kind of tree this is, by all that can be asked.
fn kind_of(t: &dyn NodeTree) -> Vec<usize> {
    let a = t.as_any();
    [a.is::<Arena>(), a.is::<Plot>(), a.is::<Bed>(), a.is::<TreeSimple>()].iter().enumerate().filter(|(_, y)| **y).map(|(k, _)| k).collect()
}

/// Looks at a tree from wherever.
fn check_tree(t: &mut dyn NodeTree, at: usize, from: &str) {
    let (kind, addr, mark) = m(|m| (m.trees[at].kind, m.trees[at].addr, m.trees[at].mark));
    let kinds = kind_of(t);
    if kinds != [kind] { return wrong(format!("{from}, tree {at} is taken for {:?} and not for {}", kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>(), KINDS[kind])); }
    let me = t as *const dyn NodeTree as *const () as usize;
    // While it is being built its place is not known yet.
    let addr = if addr == 0 { m(|m| m.trees[at].addr = me); me } else { addr };
    let places = [me, t.as_any() as *const dyn std::any::Any as *const () as usize, t.as_any_mut() as *mut dyn std::any::Any as *const () as usize, t.as_dyn() as *const dyn NodeTree as *const () as usize,
        t.as_dyn_mut() as *mut dyn NodeTree as *const () as usize, t.as_dyn_raw() as *const () as usize, t.as_dyn_raw_mut() as *const () as usize];
    if places.iter().any(|p| *p != addr) { return wrong(format!("{from}, tree {at} is found in the places {places:x?} and not at {addr:x}")); }
    let bases = [&**t as *const NodeTreeBase as usize, &mut **t as *mut NodeTreeBase as usize, t.base() as *const NodeTreeBase as usize, t.base_mut() as *mut NodeTreeBase as usize];
    if bases.iter().any(|b| *b != bases[0]) { return wrong(format!("{from}, tree {at} has several bases {bases:x?}")); }
    let seen = match kind {
        0 => { let a = t.as_any().downcast_ref::<Arena>().unwrap(); if a.words != format!("tree {at}") { return wrong(format!("{from}, the words of tree {at} are {:?}", a.words)); } Some((a.mark, a.seen.clone(), *a.tok.1 == a.tok.0)) },
        1 => { let a = t.as_any().downcast_ref::<Plot>().unwrap(); Some((a.mark, a.seen.clone(), *a.tok.1 == a.tok.0)) },
        2 => { let a = t.as_any().downcast_ref::<Bed>().unwrap(); Some((a.mark, m(|m| m.trees[at].seen.clone()), true)) },
        _ => None
    };
    if let Some((found, seen, sound)) = seen {
        if found != mark || !sound { return wrong(format!("{from}, the mark of tree {at} is {found} and should be {mark}")); }
        let was = m(|m| m.trees[at].seen.clone());
        if seen != was { return wrong(format!("{from}, tree {at} has noted {seen:?} and should have noted {was:?}")); }
    }
    count("trees_looked_at");
}

fn check_node(n: &mut dyn Node, from: &str) -> Option<u64> {
    let Some((kind, id)) = id_of(n) else { wrong(format!("{from}, a node is of no type or of several")); return None };
    let me = n as *const dyn Node as *const () as usize;
    let places = [n.as_dyn() as *const dyn Node as *const () as usize, n.as_dyn_mut() as *mut dyn Node as *const () as usize, n.as_dyn_raw() as *const () as usize, n.as_dyn_raw_mut() as *const () as usize,
        n.as_any_ref() as *const dyn std::any::Any as *const () as usize, n.as_any_mut() as *mut dyn std::any::Any as *const () as usize];
    if places.iter().any(|p| *p != me) { wrong(format!("{from}, node {id} is found in the places {places:x?} and not at {me:x}")); return None; }
    let bases = [&**n as *const NodeBase as usize, &mut **n as *mut NodeBase as usize, n.base() as *const NodeBase as usize, n.base_mut() as *mut NodeBase as usize];
    if bases.iter().any(|b| *b != bases[0]) { wrong(format!("{from}, node {id} has several bases {bases:x?}")); return None; }
    if n.name_as_type() != type_of(kind) { wrong(format!("{from}, node {id} says that its type is {} and not {}", n.name_as_type(), type_of(kind))); return None; }
    let _ = format!("{n:?}");
    count("nodes_looked_at");
    Some(id)
}

fn runs(node: &mut dyn Node, id: u64, hook: char) {
    if M.with(|c| c.try_borrow().map(|b| b.is_none()).unwrap_or(true)) || broken() { return; }
    let from = format!("in {hook} of node {id}");
    if check_node(node, &from) != Some(id) { return; }
    let Some(at) = m(|m| m.nodes.get(&id).map(|k| k.tree)) else { return wrong(format!("{from}: no such node was added")) };
    let rid = node.rid();
    let me = node as *const dyn Node as *const () as usize;
    let Some(t) = node.tree_mut() else { return wrong(format!("{from}: it is in no tree")) };
    check_tree(t, at, &from);
    if broken() { return; }
    if t.get_node(rid).map(|n| n as *const dyn Node as *const () as usize) != Some(me) { return wrong(format!("{from}: its tree has another node under its identifier")); }
    m(|m| { m.trees[at].seen.push((id, hook)); m.calls += 1; });
    match m(|m| m.trees[at].kind) {
        0 => t.as_any_mut().downcast_mut::<Arena>().unwrap().seen.push((id, hook)),
        1 => t.as_any_mut().downcast_mut::<Plot>().unwrap().seen.push((id, hook)),
        2 => { let n = m(|m| { m.trees[at].mark += 1; m.trees[at].mark }); t.as_any_mut().downcast_mut::<Bed>().unwrap().mark = n; },
        _ => ()
    }
    count("hooks_at_home");
}

/// The nodes of a tree against the model.
fn check_nodes(t: &mut dyn NodeTree, at: usize) {
    let (root, over) = m(|m| (m.trees[at].root, m.trees[at].over));
    if over { if t.get_node(0).is_some() { wrong(format!("the root of tree {at} was freed and is still there")); } return; }
    let mut todo: Vec<(RID, Option<RID>, u64)> = vec![(0, None, root)];
    let mut rids: HashMap<u64, RID> = HashMap::new();
    while let Some((rid, parent, id)) = todo.pop() {
        let Some(n) = t.get_node_mut(rid) else { return wrong(format!("node {id} is missing from tree {at}")) };
        if check_node(n, "at rest") != Some(id) { if !broken() { wrong(format!("node {id} of tree {at} is another one")); } return; }
        rids.insert(id, rid);
        let kids: Vec<RID> = n.children().iter().map(|c| c.rid()).collect();
        let (should, owner, kind) = m(|m| { let k = &m.nodes[&id]; (k.kids.clone(), k.owner, k.kind) });
        if id_of(n).map(|x| x.0) != Some(kind) { return wrong(format!("node {id} of tree {at} has another type")); }
        if n.parent_dyn().to_option().map(|p| p.rid()) != parent { return wrong(format!("node {id} of tree {at} has another parent")); }
        if rids.get(&owner) != Some(&n.owner_dyn().rid()) { return wrong(format!("the owner of node {id} of tree {at} is not node {owner}")); }
        if kids.len() != should.len() { return wrong(format!("node {id} of tree {at} has {} children and should have {should:?}", kids.len())); }
        for (k, s) in kids.iter().zip(should).rev() { todo.push((*k, Some(rid), s)); }
    }
    count("trees_walked");
}

enum Tree { Arena(Box<Arena>), Plot(Box<Plot>), Bed(Box<Bed>), Simple(Box<TreeSimple>) }

impl Tree {
    fn dynamic(&mut self) -> &mut dyn NodeTree { match self { Tree::Arena(t) => &mut **t, Tree::Plot(t) => &mut **t, Tree::Bed(t) => &mut **t, Tree::Simple(t) => &mut **t } }
    fn build<I: Instanceable>(kind: usize, mark: u64, what: I) -> Tree {
        match kind { 0 => Tree::Arena(arena(mark, what)), 1 => Tree::Plot(plot(mark, what)), 2 => Tree::Bed(bed(mark, what)), _ => Tree::Simple(TreeSimple::new(what, LoggerVerbosity::All)) }
    }
}

/// Some plants, the first one (or several) without a parent, in any order that has parents first.
fn invent(r: &mut Rng, next: &mut u64, roots: usize, most: usize) -> Planting {
    let n = roots + r.below(most);
    let plants: Vec<Plant> = (0..n).map(|i| {
        let id = *next; *next += 1;
        Plant { parent: if i < roots { None } else { Some(r.below(i)) }, kind: r.below(4), id, name: format!("{}{id}", ["N", "x y", "名"][r.below(3)]), owner: r.chance(30) }
    }).collect();
    let mut order = Vec::new();
    while order.len() < n {
        let open: Vec<usize> = (0..n).filter(|i| !order.contains(i) && plants[*i].parent.is_none_or(|p| order.contains(&p))).collect();
        order.push(if order.is_empty() && roots == 1 { 0 } else { *r.pick(&open) });
    }
    Planting { plants, order }
}

/// What the plants become.
fn planted(p: &Planting, tree: usize, below: Option<u64>, is_root: bool) {
    m(|m| for i in &p.order {
        let x = &p.plants[*i];
        let parent = x.parent.map(|q| p.plants[q].id).or(below);
        let owner = match parent { Some(q) if !x.owner => m.nodes[&q].owner, _ => x.id };
        if let Some(q) = parent { m.nodes.get_mut(&q).unwrap().kids.push(x.id); }
        m.nodes.insert(x.id, Known { tree, kind: x.kind, parent, owner, kids: Vec::new(), loaded: false });
        if is_root && parent.is_none() { m.trees[tree].root = x.id; }
    })
}

/// The hooks that adding ran.
fn arrivals(at: usize, before: usize, ids: &[(u64, bool)]) {
    let new: Vec<(u64, char)> = m(|m| m.trees[at].seen[before..].to_vec());
    for (id, loaded) in ids {
        let has: Vec<char> = new.iter().filter(|e| e.0 == *id).map(|e| e.1).collect();
        let should: &[char] = if *loaded { &['L', 'R'] } else { &['R'] };
        if has != should { return wrong(format!("node {id} was added and ran {has:?}, not {should:?}")); }
        let parent = m(|m| m.nodes[id].parent);
        let place = |i: u64| new.iter().position(|e| *e == (i, 'R'));
        if let Some(p) = parent { if ids.iter().any(|x| x.0 == p) && place(p) < place(*id) { return wrong(format!("node {p} was ready before its child {id}")); } }
    }
    if new.len() != ids.iter().map(|x| 1 + x.1 as usize).sum::<usize>() { wrong(format!("adding {ids:?} ran {new:?}")); }
}

fn leave(id: u64) {
    m(|m| {
        let mut todo = vec![id];
        if let Some(p) = m.nodes[&id].parent { m.nodes.get_mut(&p).unwrap().kids.retain(|k| *k != id); }
        while let Some(i) = todo.pop() { let k = m.nodes.remove(&i).unwrap(); todo.extend(k.kids); m.gone.insert(i); }
    })
}

fn below(id: u64) -> Vec<u64> { m(|m| { let mut all = vec![id]; let mut i = 0; while i < all.len() { let k = m.nodes[&all[i]].kids.clone(); all.extend(k); i += 1; } all }) }

fn rid_of(t: &dyn NodeTree, id: u64) -> Option<RID> {
    t.root().top_down(true).into_iter().find(|r| t.get_node(*r).and_then(id_of).map(|x| x.1) == Some(id))
}

pub fn run(mut r: Rng) {
    M.with(|c| *c.borrow_mut() = Some(Model::default()));
    let mut next: u64 = 0;
    let mut trees: Vec<Option<Tree>> = Vec::new();
    let steps = r.range(5, 30);
    for _ in 0..steps {
        if broken() { break; }
        let alive: Vec<usize> = (0..trees.len()).filter(|i| trees[*i].is_some()).collect();
        let what = if alive.is_empty() { 0 } else { r.below(20) };
        if what == 0 || alive.len() < 2 && what == 1 {
            let kind = r.below(4);
            let at = trees.len();
            let p = invent(&mut r, &mut next, 1, 6);
            note(format!("tree {at}, {}, of {:?}, in the order {:?}", KINDS[kind], p.plants, p.order));
            m(|m| m.trees.push(Grown { kind, addr: 0, mark: at as u64, seen: Vec::new(), alive: true, root: 0, over: false }));
            planted(&p, at, None, true);
            let ids: Vec<(u64, bool)> = p.plants.iter().map(|x| (x.id, false)).collect();
            let mut t = Tree::build(kind, at as u64, p);
            if kind == 3 || broken() { m(|m| m.trees[at].addr = t.dynamic() as *const dyn NodeTree as *const () as usize); }
            if !broken() { check_tree(t.dynamic(), at, "just built"); arrivals(at, 0, &ids); }
            trees.push(Some(t));
            count("trees_grown");
            continue;
        }
        let at = *r.pick(&alive);
        let over = m(|m| m.trees[at].over);
        let ids: Vec<u64> = if over { Vec::new() } else { below(m(|m| m.trees[at].root)) };
        match what {
            1..=5 => {
                note(format!("a frame of tree {at}"));
                let before = m(|m| m.trees[at].seen.len());
                trees[at].as_mut().unwrap().dynamic().process();
                if broken() { break; }
                let ran: Vec<u64> = m(|m| m.trees[at].seen[before..].iter().filter(|e| e.1 == 'P').map(|e| e.0).collect());
                if ran.len() != ids.len() || ids.iter().any(|i| !ran.contains(i)) { wrong(format!("a frame of tree {at} processed {ran:?} and not {ids:?}")); }
                count("frames");
            },
            6..=9 if !over => {
                let parent = *r.pick(&ids);
                let several = r.range(1, 3);
                let p = invent(&mut r, &mut next, several, 5);
                note(format!("below {parent} of tree {at}, {:?} in the order {:?}", p.plants, p.order));
                let new: Vec<(u64, bool)> = p.plants.iter().map(|x| (x.id, false)).collect();
                let before = m(|m| m.trees[at].seen.len());
                planted(&p, at, Some(parent), false);
                let t = trees[at].as_mut().unwrap().dynamic();
                let rid = rid_of(t, parent);
                let Some(n) = rid.and_then(|x| t.get_node_mut(x)) else { wrong(format!("node {parent} is missing")); break };
                n.add_child(p);
                if !broken() { arrivals(at, before, &new); }
                count("plantings");
                if several > 1 { count("plantings_of_several"); }
            },
            10..=12 if !over => {
                // A scene of such nodes, perhaps from text, with one more.
                let parent = *r.pick(&ids);
                let p = invent(&mut r, &mut next, 1, 5);
                let mut parts: Vec<Option<NodeScene>> = p.plants.iter().map(|x| Some(NodeScene::new_dyn(make(x.kind, x.id, &x.name)))).collect();
                for i in (1..parts.len()).rev() {
                    // The last child first would turn the order around.
                    let mut s = parts[i].take().unwrap();
                    let kids: Vec<usize> = (i + 1..p.plants.len()).filter(|k| p.plants[*k].parent == Some(i)).collect();
                    for k in kids { let c = parts[k].take().unwrap(); if p.plants[k].owner { s.append_as_owner(c) } else { s.append(c) } }
                    parts[i] = Some(s);
                }
                let mut scene = parts[0].take().unwrap();
                for k in 1..p.plants.len() { if p.plants[k].parent == Some(0) { let c = parts[k].take().unwrap(); if p.plants[k].owner { scene.append_as_owner(c) } else { scene.append(c) } } }
                let loaded = r.chance(60);
                if loaded {
                    match scene.save_to_str().and_then(|t| NodeScene::load_from_str(&t)) {
                        Ok(s) => { drop(scene); scene = s; },
                        Err(e) => { wrong(format!("a scene of own nodes cannot be loaded: {e}")); break }
                    }
                    count("own_nodes_loaded");
                }
                let extra = Plant { parent: Some(0), kind: r.below(4), id: next, name: "graft".to_string(), owner: r.chance(30) };
                next += 1;
                let graft = r.chance(50);
                // The root of a scene is its owner; the order is that of the traversal.
                let mut full = Planting { plants: p.plants.clone(), order: (0..p.plants.len()).collect() };
                full.plants[0].owner = true;
                if graft { full.plants.push(extra.clone()); full.order.push(full.plants.len() - 1); }
                note(format!("below {parent} of tree {at}, the scene {:?}, loaded: {loaded}", full.plants));
                let new: Vec<(u64, bool)> = full.plants.iter().enumerate().map(|(i, x)| (x.id, loaded && i < p.plants.len())).collect();
                let before = m(|m| m.trees[at].seen.len());
                planted(&full, at, Some(parent), false);
                if loaded { m(|m| for x in &p.plants { m.nodes.get_mut(&x.id).unwrap().loaded = true; }); }
                let t = trees[at].as_mut().unwrap().dynamic();
                let rid = rid_of(t, parent);
                let Some(n) = rid.and_then(|x| t.get_node_mut(x)) else { wrong(format!("node {parent} is missing")); break };
                if graft { n.add_child(Grafted(scene, extra)); count("grafts"); } else { n.add_child(scene); }
                if !broken() { arrivals(at, before, &new); }
            },
            13 if !over => {
                let id = *r.pick(&ids);
                note(format!("node {id} of tree {at} is freed"));
                let gone = below(id);
                let before = m(|m| m.trees[at].seen.len());
                let t = trees[at].as_mut().unwrap().dynamic();
                let rid = rid_of(t, id);
                let Some(n) = rid.and_then(|x| t.get_node_mut(x)) else { wrong(format!("node {id} is missing")); break };
                n.free();
                if broken() { break; }
                let ran: Vec<(u64, char)> = m(|m| m.trees[at].seen[before..].to_vec());
                if ran.len() != gone.len() || gone.iter().any(|g| !ran.contains(&(*g, 'T'))) { wrong(format!("freeing {gone:?} ran {ran:?}")); }
                leave(id);
                if m(|m| m.trees[at].root) == id { m(|m| m.trees[at].over = true); }
            },
            14 => {
                // Its own state is the user's.
                let mark = r.u64();
                note(format!("the mark of tree {at} becomes {mark}"));
                match trees[at].as_mut().unwrap() { Tree::Arena(t) => t.mark = mark, Tree::Plot(t) => t.mark = mark, Tree::Bed(t) => t.mark = mark % 1000, Tree::Simple(_) => () }
                m(|m| if m.trees[at].kind < 3 { m.trees[at].mark = if m.trees[at].kind == 2 { mark % 1000 } else { mark } });
            },
            15 | 16 if !over => {
                // A node and its copy.
                let id = *r.pick(&ids);
                let t = trees[at].as_mut().unwrap().dynamic();
                let rid = rid_of(t, id);
                let Some(n) = rid.and_then(|x| t.get_node_mut(x)) else { wrong(format!("node {id} is missing")); break };
                let mut c = n.clone_as_instance();
                if check_node(&mut *c, "in a copy") != Some(id) || id_of(&*c) != id_of(n) || c.name() != n.name() || c.in_tree() { wrong(format!("the copy of node {id} is another one")); break; }
                let was_loaded = m(|m| m.nodes[&id].loaded);
                if let (Some(a), Some(b)) = (n.as_any_ref().downcast_ref::<Mid>(), c.as_any_ref().downcast_ref::<Mid>()) {
                    let empty = was_loaded && a.note.is_empty();
                    if *b.word != format!("w{id}") || *a.word != *b.word || b.note != a.note || !(empty || *a.note == vec![id as u8]) || !b.tok.is_void() || a.tok.is_void() != was_loaded || b.plain.is_void() != was_loaded { wrong(format!("the copy {b:?} of {a:?}")); break; }
                }
                count("copies");
            },
            17 if alive.len() > 1 || r.chance(20) => {
                note(format!("tree {at} is dropped"));
                let t = trees[at].take().unwrap();
                drop(t);
                m(|m| { m.trees[at].alive = false; m.nodes.retain(|_, k| k.tree != at); });
                count("trees_dropped");
            },
            _ => {
                // The boxes move about.
                trees.reserve(r.below(50));
                let t = trees[at].take();
                let moved = std::hint::black_box(Box::new(t));
                trees[at] = *moved;
            }
        }
        if broken() { break; }
        let alive: Vec<usize> = (0..trees.len()).filter(|i| trees[*i].is_some()).collect();
        for at in alive {
            let t = trees[at].as_mut().unwrap().dynamic();
            check_tree(t, at, "at rest");
            if !broken() { check_nodes(t, at); }
            if broken() { break; }
        }
    }
    if broken() { std::mem::forget(trees); } else {
        drop(trees);
        let (bad, odd, all) = m(|m| (m.drops.iter().enumerate().filter(|d| *d.1 != 1).map(|d| (d.0, *d.1)).collect::<Vec<_>>(), m.odd_drop, m.drops.len()));
        if !bad.is_empty() || odd { wrong(format!("of {all} tokens in trees and nodes, those (with the number of their drops) were not dropped once: {bad:?}")); }
        crate::report::add("tokens_dropped_once", all as u64);
    }
    let st = M.with(|c| c.borrow_mut().take()).unwrap();
    if wants_sample() { sample(st.trace.join("\n")); }
    evaluated(st.calls > 5, hash_str(&st.trace.join("\n")));
}
