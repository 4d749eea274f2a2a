//! C11, C12: hooks that run frames of their own tree. Nothing that has left may be destroyed while a hook of it is running.
//! C06, C08, C09, C10: such a frame is one like any other: with an elapsed time and a state of its own.
//! And hooks that panic, which somebody further out catches: the tree stays in one piece.

use std::cell::RefCell;
use std::collections::HashSet;
use std::time::{ Duration, Instant };
use std::panic::{ catch_unwind, resume_unwind, AssertUnwindSafe };

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::nodes::{ is_live, live_tokens, reset_tokens, Token };
use crate::report::{ add, count, evaluated, violation };
use crate::rng::{ hash_str, Rng };

class! {
    pub declare Nest;
    pub default let token: Token;
    pub let id: u64;
    pub signal told(v: u64);
    hk _init(id_: u64) { let id = id_; }
    hk ready(&mut self)                           { let (i, t) = (*self.id, self.token.index()); act(self, i, t, 'R') }
    hk process(&mut self, d: f32)                 { let (i, t) = (*self.id, self.token.index()); told(i, d); act(self, i, t, 'P') }
    hk terminal(&mut self, _r: TerminationReason) { let (i, t) = (*self.id, self.token.index()); act(self, i, t, 'T') }
    hk process_mode(&self) -> ProcessMode         { ProcessMode::Always }
}

struct State { rng: Rng, budget: i32, depth: u32, running: Vec<(u64, usize)>, trace: Vec<String>, next: u64, nested: u64, left_in_hooks: u64, broken: bool, panics: bool, caught: u64, frames: Vec<Frame>, last: (Instant, Option<Instant>), stage: u8, ends: bool, had: HashSet<(char, u64)> }

/// A frame that has not ended: when it began at the earliest, the one before it, the elapsed time it tells and who was told.
struct Frame { begun: Instant, before: (Instant, Instant), told: Option<f32>, who: HashSet<u64> }

thread_local! { static S: RefCell<Option<State>> = const { RefCell::new(None) }; }

fn s<R>(f: impl FnOnce(&mut State) -> R) -> R { S.with(|c| f(c.borrow_mut().as_mut().expect("a case"))) }

fn wrong(what: String) { wrong_for(&["C11", "C12"], what) }

fn wrong_for(tags: &'static [&'static str], what: String) {
    let trace = s(|s| { let first = !s.broken; s.broken = true; if first { Some(s.trace[s.trace.len().saturating_sub(80)..].join("\n")) } else { None } });
    if let Some(trace) = trace { violation(tags, what, trace); }
}

/// How far the tree has come with its termination.
fn stage(status: TreeStatus) -> u8 {
    match status { TreeStatus::Process(_) => 0, TreeStatus::QueuedTermination(_) => 1, TreeStatus::Terminating => 2, TreeStatus::Terminated => 3 }
}

/// Runs a frame of the tree, of which somebody further out may be running one already.
fn frame(tree: &mut dyn NodeTree) -> TreeStatus {
    let now = Instant::now();
    let (level, from) = s(|s| {
        s.close(now);
        s.frames.push(Frame { begun: now, before: (s.last.0, s.last.1.unwrap_or(now)), told: None, who: HashSet::new() });
        s.last = (now, None);
        (s.frames.len() - 1, s.stage)
    });
    let got = tree.process();
    s(|s| { s.close(Instant::now()); s.frames.truncate(level); });
    let least = match from { 0 => 0, 1 => 2, _ => 3 }.max(s(|s| s.stage));
    if stage(got) < least || stage(got) == 1 { wrong_for(&["C10"], format!("a frame that starts in stage {from} of the termination ends in {got:?}")); }
    if stage(got) > 0 && !s(|s| s.ends) { wrong_for(&["C10"], format!("a frame ends in {got:?}, and nobody wanted the tree to end")); }
    s(|s| s.stage = s.stage.max(stage(got)));
    count("states_of_frames");
    got
}

/// A node is told how long ago the previous frame was.
fn told(id: u64, delta: f32) {
    if S.with(|c| c.try_borrow().map(|b| b.is_none()).unwrap_or(true)) { return; }
    let now = Instant::now();
    let bad = s(|s| {
        s.close(now);
        let Some(f) = s.frames.last_mut() else { return Some(format!("node {id} is processed outside of a frame")) };
        if !f.who.insert(id) { return Some(format!("node {id} is processed twice in one frame")); }
        match f.told {
            Some(d) if d.to_bits() != delta.to_bits() => return Some(format!("node {id} is told {delta} s, and another one in the same frame {d} s")),
            Some(_) => return None,
            None    => f.told = Some(delta)
        }
        let (low, high) = (f.begun.saturating_duration_since(f.before.1).as_secs_f32(), now.saturating_duration_since(f.before.0).as_secs_f32());
        if delta < low - 1e-6 - low * 1e-5 || delta > high + 1e-6 + high * 1e-5 {
            return Some(format!("node {id} is told that {delta} s have passed since the previous frame, which was between {low} s and {high} s ago"));
        }
        None
    });
    count("elapsed_times_of_frames");
    if let Some(what) = bad { wrong_for(&["C06"], what); }
}

/// Every node with a hook that is running must still be there.
fn look(after: &str) {
    let gone = s(|s| s.running.iter().find(|(_, t)| !is_live(*t)).map(|r| r.0));
    if let Some(id) = gone { wrong(format!("node {id} is destroyed by {after} while one of its hooks is running")); }
    count("running_hooks_checked");
}

impl State {
    /// The latest frame began by now.
    fn close(&mut self, now: Instant) { if self.last.1.is_none() { self.last.1 = Some(now); } }
}

fn scene(n: u64, shape: usize) -> NodeScene {
    let first = s(|s| { s.next += n; s.next - n });
    let mut whole = NodeScene::new(named(first));
    let mut rest: Option<NodeScene> = None;
    for i in (1..n).rev() {
        let mut part = NodeScene::new(named(first + i));
        if shape == 0 { if let Some(r) = rest.take() { part.append(r); } rest = Some(part); } else { whole.append(part); }
    }
    if let Some(r) = rest { whole.append(r); }
    whole
}

fn named(id: u64) -> Nest { let mut n = Nest::new(id); n.set_name(&format!("n{id}")); n }

/// Does it; whether a panic is caught here is a matter of chance. Returns whether there was none.
fn guarded(percent: u32, f: impl FnOnce()) -> bool {
    let (catches, running, depth, level) = s(|s| (s.panics && s.rng.chance(percent), s.running.len(), s.depth, s.frames.len()));
    if !catches { f(); return true; }
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(())  => true,
        Err(_) => {
            s(|s| { s.running.truncate(running); s.depth = depth; s.close(Instant::now()); s.frames.truncate(level); s.caught += 1; s.trace.push(format!("{}caught", "  ".repeat(running + 1))); });
            false
        }
    }
}

/// The tree is in one piece.
fn whole(tree: &TreeSimple) {
    if tree.get_node(0).is_none() { return; }
    let rids = tree.root().top_down(true);
    for &rid in &rids {
        let Some(n) = tree.get_node(rid) else { return wrong(format!("identifier {rid} is in the tree and leads to no node")) };
        let Some(nest) = n.as_any_ref().downcast_ref::<Nest>() else { return wrong(format!("identifier {rid} leads to something else")) };
        if !nest.token.is_sound() { return wrong(format!("identifier {rid} leads to memory that is not valid")); }
        if !n.in_tree() || n.rid() != rid { return wrong(format!("node {} of the tree says: in_tree {}, identifier {} instead of {rid}", *nest.id, n.in_tree(), n.rid())); }
        if rid != 0 {
            let up = n.parent_dyn().to_option().map(|p| p.children().iter().filter(|c| c.rid() == rid).count());
            if up != Some(1) { return wrong(format!("node {} is {up:?} times a child of its parent", *nest.id)); }
        }
    }
    let live = live_tokens().len();
    if live < rids.len() { wrong(format!("{} nodes are in the tree, of which {live} exist", rids.len())); }
    count("trees_whole_after_panics");
}

/// One thing that a hook does.
fn one(node: &mut Nest, tree: *mut dyn NodeTree, id: u64, what: usize, indent: usize) {
    let tree = || unsafe { &mut *tree };     // As the tree_mut() of any node that is still in it.
    let note = |t: &str| s(|s| s.trace.push(format!("{}{t}", "  ".repeat(indent + 1))));
    match what {
        0 if node.tree().is_some() => { note("frees itself"); if node.rid() == 0 { s(|s| s.ends = true); } node.free(); },
        1 if node.tree().is_some() => if let Some(mut p) = node.parent_dyn().to_option() { note("frees its parent"); if p.rid() == 0 { s(|s| s.ends = true); } p.free(); },
        2 if node.tree().is_some() => if let Some(mut p) = node.parent_dyn().to_option() { note("is removed by its parent"); let n = node.name().to_string(); p.remove_child(&n); },
        3 if node.tree().is_some() => {
            let kids = node.num_children();
            if kids > 0 { let k = s(|s| s.rng.below(kids)); note("frees a child"); node.get_child_dyn(k).unwrap().free(); }
        },
        4 if node.tree().is_some() && s(|s| s.next < 60) => { let (n, shape) = s(|s| (s.rng.range(1, 3) as u64, s.rng.below(2))); note("adds"); node.add_child(scene(n, shape)); },
        5 => {
            // Some node of the tree is freed.
            if tree().get_node(0).is_none() { return; }
            let rids = tree().root().top_down(false);
            if rids.is_empty() { return; }
            let k = s(|s| s.rng.below(rids.len()));
            if let Some(n) = tree().get_node_mut(rids[k]) { note("frees some node"); n.free(); }
        },
        6 if s(|s| s.rng.chance(10)) => { note("queues termination"); tree().queue_termination(); s(|s| { s.ends = true; s.stage = s.stage.max(1); }); },
        7 if s(|s| s.rng.chance(5))  => { note("frees the root"); s(|s| s.ends = true); if let Some(root) = tree().get_node_mut(0) { root.free(); } },
        8 | 9 | 10 | 11 if s(|s| s.depth < 3) && tree().get_node(0).is_some() => {
            note("runs a frame");
            s(|s| { s.depth += 1; s.nested += 1; s.left_in_hooks += 1; });
            if s(|s| s.rng.chance(20)) { std::thread::sleep(Duration::from_micros(s(|s| s.rng.range(1, 60)) as u64)); }
            frame(tree());
            s(|s| s.depth -= 1);
            look("a frame that a hook runs");
        },
        14 if s(|s| s.rng.chance(20)) && node.tree().is_some() => { note("unwraps a child it does not have"); node.get_child_dyn(usize::MAX).unwrap(); },
        14 | 15 => { note("panics"); resume_unwind(Box::new("on purpose")) },
        _ => {
            note("emits");
            // A listener that frees the node that emits, and runs a frame.
            if node.tree().is_none() || s(|s| s.depth >= 3) { return; }
            let t = tree() as *mut dyn NodeTree;
            let rid = node.rid();
            unsafe { node.told.connect_once(move |_: &u64| {
                let tree = &mut *t;
                if s(|s| s.panics && s.rng.chance(20)) { resume_unwind(Box::new("on purpose")) }
                if let Some(n) = tree.get_node_mut(rid) { if n.parent_dyn().to_option().is_some() { n.free(); } }
                if tree.get_node(0).is_some() { s(|s| { s.depth += 1; s.nested += 1; }); frame(tree); s(|s| s.depth -= 1); }
            }); }
            node.told.emit(id);
            look("a listener");
        }
    }
}

fn act(node: &mut Nest, id: u64, token: usize, hook: char) {
    if S.with(|c| c.try_borrow().map(|b| b.is_none()).unwrap_or(true)) { return; }
    if !node.in_tree() { wrong_for(&["C09"], format!("a hook ({hook}) of node {id} runs, which is in no tree")); }
    if hook != 'P' && !s(|s| s.had.insert((hook, id))) { wrong_for(if hook == 'T' { &["C09"] } else { &["C08"] }, format!("node {id} has the hook {hook} called a second time")); }
    s(|s| s.close(Instant::now()));
    let indent = s(|s| { s.running.push((id, token)); s.running.len() });
    s(|s| s.trace.push(format!("{}{hook} {id}", "  ".repeat(indent))));
    let Some(tree) = node.tree_mut().map(|t| t as *mut dyn NodeTree) else { s(|s| s.running.pop()); return };
    let acts = s(|s| if s.broken || s.budget <= 0 { 0 } else if s.rng.chance(45) { s.rng.range(1, 4) } else { 0 });
    for _ in 0..acts {
        if s(|s| { s.budget -= 1; s.broken || s.budget < 0 }) { break; }
        let what = s(|s| s.rng.below(if s.panics { 16 } else { 14 }));
        guarded(50, || one(node, tree, id, what, indent));
        look("an operation");
        if s(|s| s.broken) { break; }
    }
    // The node is used once more, whatever happened.
    if !s(|s| s.broken) && (*node.id != id || !node.token.is_sound()) { wrong(format!("node {id} is not valid memory any more when its hook ends")); }
    s(|s| s.running.pop());
}

pub fn run(r: Rng) { play(r, false) }

/// The same with hooks and listeners that panic.
pub fn run_panics(r: Rng) { play(r, true) }

fn play(mut r: Rng, panics: bool) {
    let (n, shape, frames) = (r.range(1, 9) as u64, r.below(2), if panics { r.range(2, 8) } else { r.range(1, 5) });
    reset_tokens();
    S.with(|c| *c.borrow_mut() = Some(State { rng: r, budget: 90, depth: 0, running: Vec::new(), trace: Vec::new(), next: 0, nested: 0, left_in_hooks: 0, broken: false, panics, caught: 0, frames: Vec::new(), last: (Instant::now(), None), stage: 0, ends: panics, had: HashSet::new() }));
    let first = scene(n, shape);
    let mut made = None;
    let whole_tree = guarded(100, || made = Some(TreeSimple::new(first, LoggerVerbosity::NoDebug)));
    let Some(mut tree) = made else {
        // A hook panicked while the tree was made, which so there is none.
        let (caught, trace) = s(|s| (s.caught, s.trace.join("\n")));
        S.with(|c| *c.borrow_mut() = None);
        let left = live_tokens().len();
        if left > 0 { violation(&["C11"], format!("a hook panicked while the tree was made, and {left} nodes are never destroyed"), trace.clone()); }
        add("hook_panics_caught", caught);
        count("trees_not_made");
        evaluated(!whole_tree, hash_str(&trace));
        return;
    };
    for _ in 0..frames {
        if s(|s| s.broken) { break; }
        if tree.get_node(0).is_some() && s(|s| s.rng.chance(30)) {
            let rids = tree.root().top_down(false);
            if !rids.is_empty() {
                let k = s(|s| s.rng.below(rids.len()));
                s(|s| s.trace.push("from outside, frees some node".into()));
                if !guarded(100, || tree.get_node_mut(rids[k]).unwrap().free()) { whole(&tree); }
            }
        }
        s(|s| s.trace.push("frame".into()));
        let before = tree.get_node(0).is_some();
        let mut active = false;
        if !guarded(100, || active = frame(&mut *tree).is_active()) {
            if !s(|s| s.broken) { whole(&tree); }
            continue;
        }
        if panics && !s(|s| s.broken) { whole(&tree); }
        if before && active && !s(|s| s.broken) {
            let inside = tree.root().top_down(true).len();
            let live = live_tokens().len();
            if inside != live { wrong(format!("{live} nodes exist after a frame, but {inside} are in the tree")); }
            count("frames_without_rest");
        }
        if !active { break; }
    }
    let (broken, nested, caught, trace) = s(|s| (s.broken, s.nested, s.caught, s.trace.join("\n")));
    S.with(|c| *c.borrow_mut() = None);
    if broken { std::mem::forget(tree); return; }
    drop(tree);
    let left = live_tokens().len();
    if left > 0 { violation(&["C11"], format!("{left} nodes are never destroyed"), trace.clone()); }
    add("frames_run_by_hooks", nested);
    add("hook_panics_caught", caught);
    evaluated(nested + caught > 0, hash_str(&trace));
}
