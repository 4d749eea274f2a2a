//! A second tree in the same thread, which is used in between (also from inside hooks of the first):
//! neither may notice the other. It has a model of its own, a much simpler one.

use std::cell::{ Cell, RefCell };
use std::collections::BTreeMap;
use std::time::Instant;

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::report::count;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Event { Loaded(u64), Ready(u64), Process(u64, f32), Terminal(u64, TerminationReason), Drop(u64) }

thread_local! {
    static EVENTS: RefCell<Vec<Event>>                   = const { RefCell::new(Vec::new()) };
    static MODES:  RefCell<BTreeMap<u64, ProcessMode>>   = const { RefCell::new(BTreeMap::new()) };
    static FIRST:  Cell<Option<Instant>>                 = const { Cell::new(None) };
    static SIDE:   RefCell<Option<Side>>                 = const { RefCell::new(None) };
}

fn event(e: Event) {
    let _ = EVENTS.try_with(|v| v.borrow_mut().push(e));
    if let Event::Process(..) = e { FIRST.with(|f| if f.get().is_none() { f.set(Some(Instant::now())) }); }
}

fn take() -> Vec<Event> { EVENTS.with(|v| std::mem::take(&mut *v.borrow_mut())) }

/// Says when it is dropped.
#[derive(Debug, Default)]
pub struct Mark(Cell<u64>);
impl Drop for Mark { fn drop(&mut self) { if self.0.get() > 0 { event(Event::Drop(self.0.get())) } } }
impl Clone for Mark { fn clone(&self) -> Self { Mark(Cell::new(0)) } }

class! {
    pub declare SideNode;

    pub export  let number: u64;
    pub default let mark:   Mark;

    hk _init(number_: u64) { let number = number_; }

    hk loaded(&mut self)              { event(Event::Loaded(*self.number)) }
    hk ready(&mut self)               { self.mark.0.set(*self.number); event(Event::Ready(*self.number)) }
    hk process(&mut self, delta: f32) { event(Event::Process(*self.number, delta)) }
    hk terminal(&mut self, reason: TerminationReason) { event(Event::Terminal(*self.number, reason)) }
    hk process_mode(&self) -> ProcessMode { MODES.with(|m| m.borrow().get(&*self.number).copied()).unwrap_or(ProcessMode::Inherit) }
}

struct SideRec { parent: Option<u64>, children: Vec<u64>, name: String, rid: RID }

#[derive(Clone, Copy, Debug, PartialEq)]
enum SideStatus { Run(bool), Queued(bool), Terminating, Terminated }

struct Side {
    tree: Box<TreeSimple>, nodes: BTreeMap<u64, SideRec>, root: u64, next: u64, status: SideStatus, last: (Instant, Instant),
    singles: BTreeMap<String, u64>, posts: Vec<String>, post_no: u64, seen: (String, usize), to_drop: Vec<u64>
}

pub type Failed = (Vec<&'static str>, String);
type R<T = ()> = Result<T, Failed>;

fn bad<T>(tags: &[&'static str], msg: String) -> R<T> { Err((tags.to_vec(), format!("in a second tree of the thread: {msg}"))) }

/// Forgets what is left of an earlier tree.
pub fn reset() {
    if let Some(s) = SIDE.with(|s| s.borrow_mut().take()) { std::mem::forget(s); }
    take();
    MODES.with(|m| m.borrow_mut().clear());
}

/// Nothing that happens elsewhere may have changed the second tree.
pub fn undisturbed() -> R {
    SIDE.with(|s| s.borrow().as_ref().map_or(Ok(()), |s| s.check()))
}

/// Drops the second tree.
pub fn finish() -> R {
    let Some(s) = SIDE.with(|s| s.borrow_mut().take()) else { return Ok(()) };
    s.check()?;
    s.end()
}

/// Does something with the second tree.
pub fn step(r: &mut Rng) -> R {
    match SIDE.with(|s| s.borrow_mut().take()) {
        None => {
            let s = Side::make(r)?;
            SIDE.with(|c| *c.borrow_mut() = Some(s));
        },
        Some(mut s) => {
            s.check()?;
            let n = r.range(2, 9);
            let mut done = Ok(());
            for _ in 0..n { done = s.act(r); if done.is_err() { break; } }
            if done.is_err() { std::mem::forget(s); return done; }
            if r.chance(6) || s.status == SideStatus::Terminated { return s.end(); }
            SIDE.with(|c| *c.borrow_mut() = Some(s));
        }
    }
    Ok(())
}

impl Side {
    fn make(r: &mut Rng) -> R<Self> {
        take();
        MODES.with(|m| m.borrow_mut().clear());
        let size = r.range(1, 6) as u64;
        let mut scene = NodeScene::new(side_node(1, "Root"));
        let mut names = vec![("Root".to_string(), 1)];
        for u in 2..=size {
            let name = format!("Node{u}");
            scene.append(NodeScene::new(side_node(u, &name)));
            names.push((name, u));
        }
        let disk = r.chance(30);
        if disk {
            let text = scene.save_to_str().map_err(|e| (vec!["C16"], format!("a scene cannot be saved: {e}")))?;
            scene = NodeScene::load_from_str(&text).map_err(|e| (vec!["C16"], format!("a saved scene cannot be loaded: {e}")))?;
        }
        take();
        let begin = Instant::now();
        let tree = TreeSimple::new(scene, LoggerVerbosity::All);
        let end = Instant::now();
        let mut nodes = BTreeMap::new();
        let root = tree.root();
        nodes.insert(1, SideRec { parent: None, children: (2..=size).collect(), name: "Root".into(), rid: root.rid() });
        for (i, c) in root.children().iter().enumerate() {
            nodes.insert(i as u64 + 2, SideRec { parent: Some(1), children: Vec::new(), name: format!("Node{}", i + 2), rid: c.rid() });
        }
        if nodes.len() as u64 != size { return bad(&["C05", "C01"], format!("a scene of {size} nodes becomes a tree of {}", nodes.len())); }
        let got = take();
        let mut want: Vec<Event> = (1..=size).map(Event::Ready).collect();
        if disk { want.extend((1..=size).map(Event::Loaded)); }
        if !same(&got, &want) { return bad(&["C08"], format!("a scene of {size} nodes ({}) is added with the hooks {got:?}", if disk { "loaded" } else { "made" })); }
        let mut s = Side { tree, nodes, root: 1, next: size + 1, status: SideStatus::Run(false), last: (begin, end), singles: BTreeMap::new(), posts: Vec::new(), post_no: 0, seen: (String::new(), 0), to_drop: Vec::new() };
        s.seen.0 = s.tree.get_log().to_string();
        count("second_trees");
        s.check()?;
        Ok(s)
    }

    fn check(&self) -> R {
        let got = EVENTS.with(|v| v.borrow().clone());
        if !got.is_empty() { return bad(&["C01", "C06", "C08", "C09", "C11"], format!("hooks ran although nothing was done with it: {got:?}")); }
        if self.tree.get_log() != self.seen.0 { return bad(&["C22"], "its log has changed although nothing was done with it".into()); }
        if self.status == SideStatus::Terminated && !self.nodes.contains_key(&self.root) { return Ok(()); }
        for (&u, n) in &self.nodes {
            let Some(node) = self.tree.get_node(n.rid) else { return bad(&["C01"], format!("node {u} is not found")) };
            let Some(side) = node.as_any_ref().downcast_ref::<SideNode>() else { return bad(&["C01"], format!("node {u} is of another class")) };
            if *side.number != u || node.rid() != n.rid { return bad(&["C01"], format!("node {u} is found as node {}", *side.number)); }
            if node.name() != n.name { return bad(&["C02"], format!("node {u} is called {:?} and not {:?}", node.name(), n.name)); }
            if !node.in_tree() || node.depth() != self.depth(u) || node.is_root() != (u == self.root) { return bad(&["C01"], format!("node {u}: in_tree {} depth {} is_root {}", node.in_tree(), node.depth(), node.is_root())); }
            let kids: Vec<RID> = node.children().iter().map(|c| c.rid()).collect();
            let want: Vec<RID> = n.children.iter().map(|c| self.nodes[c].rid).collect();
            if kids != want { return bad(&["C01", "C05"], format!("node {u} has the children {kids:?} and not {want:?}")); }
            if node.tree().map(|t| t as *const dyn NodeTree as *const u8) != Some(&*self.tree as *const TreeSimple as *const u8) { return bad(&["C01", "C12"], format!("node {u} belongs to another tree")); }
        }
        for name in ["S1", "S2", "A"] {
            let want = self.singles.get(name).map(|u| self.nodes[u].rid);
            let have = self.tree.get_node_rid(name, None);
            if have != want { return bad(&["C21"], format!("the singleton name {name:?} leads to {have:?} and not to {want:?}")); }
        }
        count("second_trees_checked");
        Ok(())
    }

    fn depth(&self, u: u64) -> usize { if self.nodes[&u].parent.is_some() { 1 + self.depth(self.nodes[&u].parent.unwrap()) } else { 0 } }

    fn branch(&self, u: u64) -> Vec<u64> {
        let mut out = vec![u];
        for &c in &self.nodes[&u].children { out.extend(self.branch(c)); }
        out
    }

    fn mode(&self, u: u64) -> ProcessMode {
        let m = MODES.with(|m| m.borrow().get(&u).copied()).unwrap_or(ProcessMode::Inherit);
        match (m, self.nodes[&u].parent) {
            (ProcessMode::Inherit, Some(p)) => self.mode(p),
            (ProcessMode::Inherit, None)    => ProcessMode::Pausable,
            _ => m
        }
    }

    fn act(&mut self, r: &mut Rng) -> R {
        let live: Vec<u64> = self.nodes.keys().copied().collect();
        if live.is_empty() { return Ok(()); }
        let u = *r.pick(&live);
        let rid = self.nodes[&u].rid;
        match if self.status == SideStatus::Terminated { 0 } else { r.below(20) } {
            0..=6 => self.frame()?,
            7..=9 if live.len() < 12 => {
                let new = self.next;
                self.next += 1;
                let name = if r.chance(50) { format!("Node{new}") } else { "Twin".to_string() };
                let n = side_node(new, &name);
                let n = self.tree.get_node_mut(rid).unwrap().add_child(n);
                let _ = n;
                let got = take();
                if !same(&got, &[Event::Ready(new)]) { return bad(&["C08"], format!("node {new} is added with the hooks {got:?}")); }
                let node = self.tree.get_node(rid).unwrap();
                let child = node.children().last().copied().map(|c| (c.rid(), c.name().to_string()));
                let Some((crid, cname)) = child else { return bad(&["C01"], format!("node {new} was added to node {u}, which has no children")) };
                let taken: Vec<String> = self.nodes[&u].children.iter().map(|c| self.nodes[c].name.clone()).collect();
                if taken.contains(&cname) || !taken.contains(&name) && cname != name { return bad(&["C02"], format!("node {new} was to be called {name:?} beside {taken:?} and is called {cname:?}")); }
                self.nodes.insert(new, SideRec { parent: Some(u), children: Vec::new(), name: cname, rid: crid });
                self.nodes.get_mut(&u).unwrap().children.push(new);
            },
            10..=12 if u != self.root => {
                let free = r.chance(50);
                let parent = self.nodes[&u].parent.unwrap();
                let branch = self.branch(u);
                if free { self.tree.get_node_mut(rid).unwrap().free(); } else {
                    let name = self.nodes[&u].name.clone();
                    if !self.tree.get_node_mut(self.nodes[&parent].rid).unwrap().remove_child(&name) { return bad(&["C09"], format!("node {u} cannot be removed from node {parent}")); }
                }
                let reason = if free { TerminationReason::Freed } else { TerminationReason::RemovedAsChild };
                let got = take();
                let (terminals, drops): (Vec<Event>, Vec<Event>) = got.iter().partition(|e| !matches!(e, Event::Drop(_)));
                let want: Vec<Event> = branch.iter().map(|&b| Event::Terminal(b, reason)).collect();
                if !same(&terminals, &want) { return bad(&["C09"], format!("the branch {branch:?} is removed with the hooks {got:?}")); }
                self.to_drop.extend(&branch);
                self.dropped(&drops)?;
                self.nodes.get_mut(&parent).unwrap().children.retain(|&c| c != u);
                for b in branch { self.nodes.remove(&b); self.singles.retain(|_, v| *v != b); }
            },
            13 => {
                let p = r.chance(50);
                if p { self.tree.pause(); } else { self.tree.unpause(); }
                match &mut self.status { SideStatus::Run(x) | SideStatus::Queued(x) => *x = p, _ => () }
            },
            14 => MODES.with(|m| { m.borrow_mut().insert(u, *r.pick(&[ProcessMode::Inherit, ProcessMode::Always, ProcessMode::Pausable, ProcessMode::Inverse])); }),
            15..=16 if !self.singles.values().any(|&v| v == u) => {
                let name = r.pick(&["S1", "S2", "A"]).to_string();
                let free = !self.singles.contains_key(&name);
                let ok = self.tree.get_node_mut(rid).unwrap().register_as_singleton(name.clone());
                if ok != free { return bad(&["C21"], format!("node {u} is registered as {name:?}: {ok}, although the name is {}", if free { "free" } else { "taken" })); }
                if ok { self.singles.insert(name, u); count("second_tree_singletons"); }
            },
            17..=18 => {
                self.post_no += 1;
                let line = format!("aside#{};", self.post_no);
                let node = self.tree.get_node(rid).unwrap();
                node.post(Log::Info(&line));
                let single = self.singles.iter().find(|(_, v)| **v == u).map(|(n, _)| n.clone());
                let path = { let mut p = vec![self.nodes[&u].name.clone()]; let mut at = u; while let Some(up) = self.nodes[&at].parent { p.insert(0, self.nodes[&up].name.clone()); at = up; } p.join("/") };
                self.posts.push(format!("{} | INFO | {line}", single.unwrap_or(format!("[{path}]"))));
            },
            19 if r.chance(40) => {
                self.tree.queue_termination();
                if let SideStatus::Run(p) = self.status { self.status = SideStatus::Queued(p); }
            },
            _ => ()
        }
        let log = self.tree.get_log().to_string();
        if !log.starts_with(&self.seen.0) { return bad(&["C22"], "its log has changed in a part that was already written".into()); }
        let mut at = self.seen.1;
        let posts = std::mem::take(&mut self.posts);
        for p in &posts {
            match log[at..].find(p.as_str()) {
                Some(i) => at += i + p.len(),
                None => return bad(&["C22"], format!("its log lacks {p:?} and ends with {:?}", log.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect::<String>()))
            }
        }
        self.seen = (log, at);
        self.check()
    }

    fn dropped(&mut self, drops: &[Event]) -> R {
        for d in drops {
            let Event::Drop(u) = d else { continue };
            if !self.to_drop.contains(u) { return bad(&["C11", "C12"], format!("node {u} is dropped while it is in the tree, or twice")); }
            self.to_drop.retain(|x| x != u);
        }
        Ok(())
    }

    fn frame(&mut self) -> R {
        take();
        FIRST.with(|f| f.set(None));
        let enter = Instant::now();
        let status = self.tree.process();
        let exit = Instant::now();
        let got = take();
        let first = FIRST.with(|f| f.get()).unwrap_or(exit);
        let order = self.branch(self.root);
        let (events, drops): (Vec<Event>, Vec<Event>) = got.iter().partition(|e| !matches!(e, Event::Drop(_)));
        let want: Vec<u64> = match self.status {
            SideStatus::Run(p) | SideStatus::Queued(p) => order.iter().copied().filter(|&u| { let m = self.mode(u); m == ProcessMode::Always || m == if p { ProcessMode::Inverse } else { ProcessMode::Pausable } }).collect(),
            _ => Vec::new()
        };
        let ran: Vec<u64> = events.iter().filter_map(|e| if let Event::Process(u, _) = e { Some(*u) } else { None }).collect();
        if ran != want { return bad(&["C06", "C07"], format!("a frame in {:?} processes {ran:?} and not {want:?}", self.status)); }
        for e in &events {
            let Event::Process(u, delta) = e else { continue };
            let low  = enter.saturating_duration_since(self.last.1).as_secs_f64();
            let high = first.duration_since(self.last.0).as_secs_f64();
            let d = *delta as f64;
            if d < low - 1e-4 - low * 1e-5 || d > high + 1e-4 + high * 1e-5 { return bad(&["C06"], format!("node {u} is told {d} s passed since the previous frame, which was between {low} s and {high} s")); }
        }
        let terminals: Vec<Event> = events.iter().copied().filter(|e| !matches!(e, Event::Process(..))).collect();
        let ends: Vec<Event> = if self.status == SideStatus::Terminating { order.iter().map(|&u| Event::Terminal(u, TerminationReason::TreeExit)).collect() } else { Vec::new() };
        if !same(&terminals, &ends) { return bad(&["C09", "C10"], format!("a frame in {:?} runs the hooks {terminals:?}", self.status)); }
        if self.status != SideStatus::Terminated {
            self.last = (enter, first);
            if self.status == SideStatus::Terminating { self.to_drop.extend(&order); }
            self.dropped(&drops)?;
            if self.status != SideStatus::Terminating && !self.to_drop.is_empty() { return bad(&["C11"], format!("the nodes {:?} left the tree and are not dropped at the end of the frame", self.to_drop)); }
            if self.status == SideStatus::Terminating { self.to_drop.clear(); }
        } else if !drops.is_empty() { return bad(&["C11", "C10"], format!("a frame after the end drops {drops:?}")); }
        self.status = match self.status { SideStatus::Queued(_) => SideStatus::Terminating, SideStatus::Terminating => SideStatus::Terminated, s => s };
        let says = match self.status {
            SideStatus::Run(p)      => TreeStatus::Process(if p { TreeProcess::Paused } else { TreeProcess::Running }),
            SideStatus::Queued(p)   => TreeStatus::QueuedTermination(if p { TreeProcess::Paused } else { TreeProcess::Running }),
            SideStatus::Terminating => TreeStatus::Terminating,
            SideStatus::Terminated  => TreeStatus::Terminated
        };
        if status != says { return bad(&["C10", "C07"], format!("a frame returns {status:?} and not {says:?}")); }
        count("second_tree_frames");
        Ok(())
    }

    fn end(self) -> R {
        let left: Vec<u64> = self.nodes.keys().copied().collect();
        drop(self.tree);
        let got = take();
        let mut drops: Vec<u64> = got.iter().filter_map(|e| if let Event::Drop(u) = e { Some(*u) } else { None }).collect();
        drops.sort();
        let mut want = left;
        want.extend(&self.to_drop);
        want.sort();
        count("second_trees_dropped");
        if drops != want { return bad(&["C11"], format!("dropping it drops the nodes {drops:?} and not {want:?}")); }
        Ok(())
    }
}

/// The same events in any order.
fn same(a: &[Event], b: &[Event]) -> bool {
    a.len() == b.len() && a.iter().all(|x| a.iter().filter(|y| *y == x).count() == b.iter().filter(|y| *y == x).count())
}

fn side_node(number: u64, name: &str) -> SideNode {
    let mut n = SideNode::new(number);
    n.set_name(name);
    n
}
