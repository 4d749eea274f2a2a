//! C32: nodes that are in no tree.

use std::cell::RefCell;
use std::panic::{ catch_unwind, AssertUnwindSafe };

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::engine::peek;
use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::{ hash_str, Rng };

class! {
    pub declare Loner;
    pub export let id: u64;
    pub signal rings(v: u64);
    hk _init(id_: u64) { let id = id_; }
    hk loaded(&mut self)                          { let i = *self.id; runs(self, i, 'L') }
    hk ready(&mut self)                           { let i = *self.id; runs(self, i, 'R') }
    hk process(&mut self, _d: f32)                { let i = *self.id; runs(self, i, 'P') }
    hk terminal(&mut self, _r: TerminationReason) { let i = *self.id; runs(self, i, 'T') }
    hk process_mode(&self) -> ProcessMode         { ProcessMode::Always }
}

// The same as another class.
class! {
    pub declare Other;
    pub export let id: u64;
    hk _init(id_: u64) { let id = id_; }
}

/// How a node is to leave the tree, from inside a hook of it.
#[derive(Clone, Copy, Debug)]
enum Way { FreesItself, ParentFreed, RemovedByParent, RootFreed, SiblingFreesIt, SignalFreesIt }

struct Stage { rng: Rng, events: Vec<(u64, char)>, plan: Option<(u64, char, Way)>, trace: Vec<String>, broken: bool, refused: u64, answered: u64 }

thread_local! { static S: RefCell<Option<Stage>> = const { RefCell::new(None) }; }

fn s<R>(f: impl FnOnce(&mut Stage) -> R) -> R { S.with(|c| f(c.borrow_mut().as_mut().expect("a case"))) }

fn wrong(what: String) {
    let t = s(|s| { let first = !s.broken; s.broken = true; if first { Some(s.trace.join("\n")) } else { None } });
    if let Some(t) = t { fail(format!("{what}; after\n{t}")); }
}

fn note(t: String) { s(|s| s.trace.push(t)); }

fn loner(id: u64, name: &str) -> Loner { let mut n = Loner::new(id); n.set_name(name); n }

/// Everything that can be seen of a tree.
fn look(t: *mut dyn NodeTree) -> String {
    let t = unsafe { &mut *t };
    let mut out = format!("{:?} {}", t.get_log().len(), s(|s| s.events.len()));
    let nodes = if t.get_node(0).is_some() { t.root().top_down(true) } else { Vec::new() };
    for rid in nodes {
        let Some(n) = t.get_node(rid) else { return format!("{rid} is missing") };
        let kids: Vec<RID> = n.children().iter().map(|c| c.rid()).collect();
        out += &format!("; {rid} {:?} {:?} {kids:?} {} {}", n.name(), n.parent_dyn().to_option().map(|p| p.rid()), n.depth(), n.owner_dyn().rid());
    }
    out += &format!("; {:?} {:?}", t.get_node_rid("S1", None), t.get_node_rid("S2", None));
    out
}

/// Something that needs a tree is refused.
fn refuse(tree: *mut dyn NodeTree, what: &str, f: impl FnOnce() -> String) {
    if s(|s| s.broken) { return; }
    let before = look(tree);
    note(format!("{what} of a node in no tree"));
    let out = catch_unwind(AssertUnwindSafe(f));
    if let Ok(out) = out { return wrong(format!("{what} of a node that is in no tree is not refused, but gives {out}")); }
    let after = look(tree);
    if before != after { return wrong(format!("{what} of a node that is in no tree is refused and has changed a tree from\n{before} to\n{after}")); }
    s(|s| s.refused += 1);
    count("refusals");
}

/// Uses a node that is in no tree.
fn probe(tree: *mut dyn NodeTree, node: &mut dyn Node, fresh: bool) {
    let node: *mut dyn Node = node;
    let n = || unsafe { &mut *node };
    let steps = s(|s| s.rng.range(3, 12));
    for _ in 0..steps {
        if s(|s| s.broken) { return; }
        // What needs no tree.
        let bad = if n().in_tree() || !n().is_stray() { "says that it is in a tree" } else if n().tree().is_some() || n().tree_mut().is_some() { "has a tree" } else if n().is_root() { "says that it is a root" }
            else if n().is_owner() { "says that it is an owner" } else if fresh && n().depth() != 0 { "has a depth" } else { "" };
        if !bad.is_empty() { return wrong(format!("a node that is in no tree {bad}")); }
        s(|s| s.answered += 1);
        if n().base().clone().name() != n().name() { return wrong("a copy of its base has another name".into()); }
        let (what, x) = s(|s| (s.rng.below(26), s.rng.below(4)));
        let p = ["nothing", ".", "..", "/Root"][x];
        match what {
            0  => refuse(tree, "this_dyn()", || format!("a pointer to {}", n().this_dyn().rid())),
            1  => refuse(tree, "this()", || format!("a pointer to {}", n().this::<Loner>().rid())),
            2  => refuse(tree, "get_child_dyn()", || format!("{}", n().get_child_dyn(x).to_option().is_some())),
            3  => refuse(tree, "get_child()", || format!("{}", n().get_child::<Loner>(x).to_option().is_some())),
            4  => refuse(tree, "children()", || format!("{}", n().children().len())),
            5  => refuse(tree, "get_node_dyn()", || format!("{}", n().get_node_dyn(NodePath::from_str(p)).to_option().is_some())),
            6  => refuse(tree, "get_node()", || format!("{}", n().get_node::<Loner>(NodePath::from_str(p)).to_option().is_some())),
            7  => refuse(tree, "get_node_dyn() by a singleton's name", || format!("{}", n().get_node_dyn("S1").to_option().is_some())),
            8  => refuse(tree, "get_node_raw()", || format!("{:?}", n().get_node_raw(NodePath::from_str(p)))),
            9  => refuse(tree, "top_down()", || format!("{:?}", n().top_down(x % 2 == 0))),
            10 => refuse(tree, "get_absolute_path()", || format!("{:?}", n().get_absolute_path())),
            11 => refuse(tree, "post()", || { n().post(match x { 0 => Log::Debug("m"), 1 => Log::Info("m"), 2 => Log::Warn("m"), _ => Log::Panic("m") }); "nothing".into() }),
            12 => refuse(tree, "a log macro", || { let m = n(); match x { 0 => debug!(m, "m {x}"), 1 => info!(m, "m {x}"), 2 => warn!(m, "m {x}"), _ => error!(m, "m {x}") } "nothing".into() }),
            13 | 14 => refuse(tree, "free()", || { n().free(); "nothing".into() }),
            15 => refuse(tree, "save_as_branch()", || { std::mem::forget(n().save_as_branch()); "a scene".into() }),
            16 => refuse(tree, "owner_dyn()", || format!("{}", n().owner_dyn().rid())),
            17 => refuse(tree, "owner()", || format!("{}", n().owner::<Loner>().to_option().is_some())),
            18 => refuse(tree, "parent_dyn()", || format!("{}", n().parent_dyn().to_option().is_some())),
            19 => refuse(tree, "parent()", || format!("{}", n().parent::<Loner>().to_option().is_some())),
            20 => refuse(tree, "register_as_singleton()", || format!("{}", n().register_as_singleton("S2".to_string()))),
            21 => refuse(tree, "add_child() of a node", || { n().add_child(loner(9000, "Late")); "nothing".into() }),
            22 => refuse(tree, "add_child() of a scene", || { let mut sc = NodeScene::new(loner(9001, "Late")); sc.append(NodeScene::new(loner(9002, "Later"))); n().add_child(sc); "nothing".into() }),
            23 => refuse(tree, "remove_child()", || format!("{}", n().remove_child(["Root", "Late", "", "N1"][x]))),
            _ => {
                // A name is taken as it is.
                let name = ["Root", "N1", "", "x y", "N1"][s(|s| s.rng.below(5))];
                note(format!("renamed to {name:?}"));
                n().set_name(name);
                if n().name() != name { return wrong(format!("a node in no tree is renamed to {name:?} and is called {:?}", n().name())); }
                count("strays_renamed");
            }
        }
    }
}

fn runs(node: &mut dyn Node, id: u64, hook: char) {
    if S.with(|c| c.try_borrow().map(|b| b.is_none()).unwrap_or(true)) { return; }
    s(|s| s.events.push((id, hook)));
    let plan = s(|s| match s.plan { Some((i, h, w)) if i == id && h == hook => { s.plan = None; Some(w) }, _ => None });
    let Some(way) = plan else { return };
    let Some(tree) = node.tree_mut().map(|t| t as *mut dyn NodeTree) else { return wrong(format!("a hook runs of node {id}, which has no tree")) };
    let t = || unsafe { &mut *tree };
    let rid = node.rid();
    note(format!("{hook} of {id}: {way:?}"));
    match way {
        Way::FreesItself     => node.free(),
        Way::ParentFreed     => match node.parent_dyn().to_option() { Some(mut p) => p.free(), None => node.free() },
        Way::RemovedByParent => match node.parent_dyn().to_option() { Some(mut p) => { let name = node.name().to_string(); if !p.remove_child(&name) { wrong("a child is not found".into()); } }, None => node.free() },
        Way::RootFreed       => t().get_node_mut(0).unwrap().free(),
        Way::SiblingFreesIt  => t().get_node_mut(rid).unwrap().free(),
        Way::SignalFreesIt   => {
            let me = node.as_any_mut().downcast_mut::<Loner>().unwrap();
            unsafe { me.rings.connect_once(move |_: &u64| if let Some(n) = (&mut *tree).get_node_mut(rid) { n.free() }) };
            me.rings.emit(1);
        }
    }
    if s(|s| s.broken) { return; }
    if t().get_node(rid).is_some() { return wrong(format!("node {id} was to leave the tree and can still be looked up")); }
    count("strays_in_hooks");
    probe(tree, node, false);
    count("strays_used_in_hooks");
}

pub fn run(mut r: Rng) {
    let n = r.range(2, 8) as u64;
    // The nodes 0..n in any shape.
    let parents: Vec<usize> = (0..n as usize).map(|i| if i == 0 { 0 } else { r.below(i) }).collect();
    let mut parts: Vec<Option<NodeScene>> = (0..n).map(|i| Some(NodeScene::new(loner(i, if i == 0 { "Root" } else if i % 3 == 0 { "Twin" } else { ["N0", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8"][i as usize] })))).collect();
    for i in (1..n as usize).rev() { let c = parts[i].take().unwrap(); parts[parents[i]].as_mut().unwrap().append(c); }
    let kind = r.below(8);
    let target = r.below(n as usize) as u64;
    let way = *r.pick(&[Way::FreesItself, Way::ParentFreed, Way::RemovedByParent, Way::RootFreed, Way::SiblingFreesIt, Way::SignalFreesIt]);
    let extra = r.u64();
    S.with(|c| *c.borrow_mut() = Some(Stage { rng: r, events: Vec::new(), plan: None, trace: vec![format!("kind {kind}, nodes below {parents:?}, target {target}")], broken: false, refused: 0, answered: 0 }));
    let mut r = Rng::new(extra);
    let mut tree = TreeSimple::new(parts[0].take().unwrap(), LoggerVerbosity::All);
    let raw: *mut dyn NodeTree = &mut *tree;
    tree.root_mut().register_as_singleton("S1".to_string());
    for _ in 0..r.below(3) { tree.process(); }
    let rids: Vec<RID> = tree.root().top_down(true);
    let pick = *r.pick(&rids);
    // What is left once it was used, to be added.
    let mut later: Option<(NodeScene, u64, bool)> = None;
    match kind {
        0 => {
            let mut f = loner(100, "New");
            probe(raw, &mut f, true);
            later = Some((NodeScene::new(f), 1, false));
        },
        1 => {
            // A copy of a live node is in no tree.
            let mut c: Box<dyn Node> = unsafe { &*raw }.get_node(pick).unwrap().clone_as_instance();
            probe(raw, &mut *c, true);
            later = Some((NodeScene::new_dyn(c), 1, false));
        },
        2 => {
            let live: &Loner = unsafe { &*raw }.get_node(pick).unwrap().as_any_ref().downcast_ref::<Loner>().unwrap();
            let mut c: Loner = live.clone();
            probe(raw, &mut c, true);
            later = Some((NodeScene::new(c), 1, false));
        },
        3 => {
            let mut scene = NodeScene::new(loner(200, "Top"));
            scene.append(NodeScene::new(loner(201, "Low")));
            if r.chance(50) { peek(&scene, |n| probe(raw, n, true)); } else { peek(&scene.children()[0], |n| probe(raw, n, true)); }
            later = Some((scene, 2, false));
        },
        4 => {
            let scene = unsafe { &*raw }.get_node(pick).unwrap().save_as_branch();
            let size = unsafe { &*raw }.get_node(pick).unwrap().top_down(true).len() as u64;
            peek(&scene, |n| probe(raw, n, true));
            let text = scene.save_to_str();
            if r.chance(50) { later = Some((scene, size, false)); } else {
                match text.and_then(|t| NodeScene::load_from_str(&t)) {
                    Err(e) => wrong(format!("a saved branch cannot be loaded: {e}")),
                    Ok(l) => { peek(&l, |n| probe(raw, n, true)); later = Some((l, size, true)); }
                }
            }
        },
        _ => {
            let hook = *r.pick(&['P', 'P', 'R', 'L']);
            if hook == 'P' {
                s(|s| s.plan = Some((target, 'P', way)));
                tree.process();
            } else {
                // It leaves before it has quite arrived.
                let mut scene = NodeScene::new(loner(300, "Come"));
                scene.append(NodeScene::new(loner(301, "Go")));
                if hook == 'L' { scene = NodeScene::load_from_str(&scene.save_to_str().unwrap()).unwrap(); }
                s(|s| s.plan = Some((300 + r.below(2) as u64, hook, way)));
                tree.get_node_mut(pick).unwrap().add_child(scene);
            }
            if !s(|s| s.broken) && s(|s| s.plan.is_some()) { wrong("the hook that was to be used was not run".into()); }
        }
    }
    // The tree goes on, and a node that was used in no tree is like any other.
    if let (Some((scene, size, loaded)), false) = (later, s(|s| s.broken)) {
        let before = s(|s| s.events.len());
        let many = tree.root().top_down(true).len() as u64;
        tree.get_node_mut(pick).unwrap().add_child(scene);
        let new: Vec<(u64, char)> = s(|s| s.events[before..].to_vec());
        let (l, y) = (new.iter().filter(|e| e.1 == 'L').count() as u64, new.iter().filter(|e| e.1 == 'R').count() as u64);
        if y != size || l != if loaded { size } else { 0 } || (l + y) as usize != new.len() { wrong(format!("adding {size} nodes runs the hooks {new:?}")); }
        if tree.root().top_down(true).len() as u64 != many + size { wrong(format!("adding {size} nodes to {many} gives {}", tree.root().top_down(true).len())); }
        count("strays_added");
    }
    if !s(|s| s.broken) {
        let before = s(|s| s.events.len());
        let all = if tree.get_node(0).is_some() { tree.root().top_down(true).len() } else { 0 };
        tree.process();
        let ran = s(|s| s.events[before..].iter().filter(|e| e.1 == 'P').count());
        if ran != all { wrong(format!("a frame of {all} nodes processes {ran}")); }
    }
    let st = S.with(|c| c.borrow_mut().take()).unwrap();
    if st.broken { std::mem::forget(tree); } else { drop(tree); }
    if wants_sample() { sample(st.trace.join("\n")); }
    evaluated(st.refused + st.answered > 3, hash_str(&st.trace.join("\n")));
}
