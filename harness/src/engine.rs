//! Drives one real tree with random operations from outside and from inside its hooks, next to a
//! small model of what the tree must look like. Every hook invocation, drop and operation result is
//! an event that is checked against the model as it happens.

use std::cell::{ Cell, RefCell };
use std::collections::{ BTreeMap, HashMap, HashSet };
use std::panic::{ catch_unwind, AssertUnwindSafe };
use std::time::{ Duration, Instant };

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

use crate::nodes::*;
use crate::report::*;
use crate::rng::{ hash_str, Rng };
use crate::with_class;

pub type Tags = &'static [&'static str];

/// A hook of a node that is about to run.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook { Loaded, Ready, Process(f32), Terminal(TerminationReason) }

// ------------------------------------------------------------------------------------- scenes

/// What a scene is meant to look like.
#[derive(Clone, Debug, PartialEq)]
pub struct SDesc {
    pub ty: u8, pub uid: u64, pub name: String, pub payload: String,
    pub is_owner: bool, pub from_disk: bool, pub children: Vec<SDesc>
}

impl SDesc {
    pub fn count(&self) -> usize { 1 + self.children.iter().map(|c| c.count()).sum::<usize>() }

    pub fn set_from_disk(&mut self, v: bool) {
        self.from_disk = v;
        for c in &mut self.children { c.set_from_disk(v); }
    }

    pub fn show(&self) -> String {
        format!("{}#{}{:?}{}{}", CLASS_NAMES[self.ty as usize], self.uid, self.name, if self.is_owner { "!" } else { "" },
            if self.children.is_empty() { String::new() } else { format!("[{}]", self.children.iter().map(|c| c.show()).collect::<Vec<_>>().join(", ")) })
    }

    /// The first difference of two scenes, apart from where they come from.
    pub fn differs(&self, other: &SDesc, uids: bool) -> Option<String> {
        let at = |what: &str, a: String, b: String| Some(format!("{what} of node {:?} is {b} and should be {a}", self.name));
        if self.ty != other.ty             { return at("the type", format!("{}", self.ty), format!("{}", other.ty)); }
        if uids && self.uid != other.uid   { return at("the field 'uid'", self.uid.to_string(), other.uid.to_string()); }
        if self.name != other.name         { return at("the name", format!("{:?}", self.name), format!("{:?}", other.name)); }
        if self.payload != other.payload   { return at("the field 'payload'", format!("{:?}", self.payload), format!("{:?}", other.payload)); }
        if self.is_owner != other.is_owner { return at("the ownership mark", self.is_owner.to_string(), other.is_owner.to_string()); }
        if self.children.len() != other.children.len() {
            return at("the number of children", self.children.len().to_string(), other.children.len().to_string());
        }
        self.children.iter().zip(&other.children).find_map(|(a, b)| a.differs(b, uids))
    }
}

pub fn build(d: &SDesc) -> NodeScene {
    let mut s = with_uid(d.uid, || with_class!(d.ty, T => {
        let mut n = T::new(d.uid, d.payload.clone());
        n.set_name(&d.name);
        NodeScene::new(n)
    }));
    for c in &d.children {
        if c.is_owner { s.append_as_owner(build(c)); } else { s.append(build(c)); }
    }
    s.is_owner = d.is_owner;
    s
}

/// Looks at the node of a scene.
pub fn peek<R>(s: &NodeScene, f: impl FnOnce(&mut dyn Node) -> R) -> R {
    // The box is the scene's, even if this panics.
    let mut b = std::mem::ManuallyDrop::new(unsafe { s.get_node() });
    f(&mut **b)
}

/// What a scene really looks like.
pub fn flatten(s: &NodeScene) -> Option<SDesc> {
    let (id, name, payload) = peek(s, |n| (ident(n), n.name().to_string(), payload_of(n)));
    let id = id?;
    let mut children = Vec::new();
    for c in s.children() { children.push(flatten(c)?); }
    Some(SDesc { ty: id.ty, uid: id.uid, name, payload: payload?, is_owner: s.is_owner, from_disk: false, children })
}

/// Gives every node of a scene a new uid, in the scene and in its description.
pub fn retag(s: &NodeScene, d: &mut SDesc, next: &mut u64) {
    d.uid = *next;
    *next += 1;
    let uid = d.uid;
    peek(s, |n| {
        let any = n.as_any_mut();
        macro_rules! go { ($($t:ty),*) => { $( if let Some(x) = any.downcast_mut::<$t>() { *x.uid = uid; x.token.bind(uid); } )* } }
        go!(NodeA, NodeB, NodeC);
    });
    for (c, cd) in s.children().iter().zip(&mut d.children) { retag(c, cd, next); }
}

pub const NAMES: &[&str] = &[
    "A", "B", "C", "Node", "Node1", "Node2", "Node9", "Node09", "Node10", "1", "0", "Node999", "Child_1", "_", "_7", "a_b_3",
    "ü", "名前", "node tree", " ", "x-y", "\"q\"", "it's", "A.B", "Node18446744073709551615", "Node99999999999999999999999",
    "Node4294967295", "Node00", "é9", "٣", "Node٣", "node", "NODE", "nODE1", "a", "NÖDE", "Nöde", "Child_1 ", " A", "Node 1", "Node-1", "A1", "A01"
];

const ODD_NAMES: &[&str] = &["", "/", ".", "..", "a/b", "/A", "A/", "...", "\n", "\u{0}", "a\tb", "~", "../A"];

/// The same letters in the other case.
pub fn other_case(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_lowercase() { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect() }).collect()
}

pub fn gen_name(r: &mut Rng, odd: u32) -> String {
    if r.chance(odd) { return r.pick(ODD_NAMES).to_string(); }
    match r.below(20) {
        0..=12  => r.pick(NAMES).to_string(),
        13..=16 => r.pick(&NAMES[..8]).to_string(),
        17      => format!("Node{}", r.below(12)),
        18      => format!("{}{}", r.pick(NAMES), r.below(30)),
        _       => "N".repeat(r.range(1, 70))
    }
}

/// A scene whose nodes have many children, most of which want the same few names.
pub fn gen_wide(r: &mut Rng, size: usize, next: &mut u64) -> SDesc {
    let mut root = gen_desc(r, 1, 0, 0, next);
    let few: Vec<String> = (0..r.range(1, 4)).map(|_| gen_name(r, 0)).collect();
    let distinct = r.chance(30);
    let mut left = size;
    fn leaf(r: &mut Rng, few: &[String], distinct: bool, next: &mut u64) -> SDesc {
        let mut c = gen_desc(r, 1, 0, 0, next);
        c.is_owner = r.chance(20);
        c.name = if distinct { format!("N{}x", c.uid) } else if r.chance(85) { r.pick(few).clone() } else { format!("{}{}", r.pick(few), r.below(size_of::<u64>() * 30)) };
        c
    }
    while left > 0 {
        let mut c = leaf(r, &few, distinct, next);
        left -= 1;
        if r.chance(4) {
            let n = r.below(left.min(60) + 1);
            for _ in 0..n { c.children.push(leaf(r, &few, distinct, next)); }
            left -= n;
        }
        root.children.push(c);
    }
    root
}

/// A scene that goes deep.
pub fn gen_deep(r: &mut Rng, size: usize, next: &mut u64) -> SDesc {
    let mut at = gen_desc(r, 1, 0, 0, next);
    for _ in 1..size {
        let mut up = gen_desc(r, 1, 0, 0, next);
        at.is_owner = r.chance(15);
        up.children.push(at);
        if r.chance(10) { up.children.insert(0, gen_desc(r, 1, 20, 0, next)); }
        at = up;
    }
    at
}

pub fn gen_payload(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "a \"quoted\" = [text] # no comment".to_string(),
        2 => "line\nline\r\n\ttab \u{1F600} \\ \u{7f} \u{1}".to_string(),
        _ => format!("p{}", r.below(1000))
    }
}

pub fn gen_desc(r: &mut Rng, size: usize, owners: u32, odd: u32, next: &mut u64) -> SDesc {
    let root = SDesc {
        ty: r.below(3) as u8, uid: *next, name: gen_name(r, odd), payload: gen_payload(r),
        is_owner: r.chance(80), from_disk: false, children: Vec::new()
    };
    *next += 1;
    let mut flat: Vec<(SDesc, usize)> = vec![(root, 0)];
    let chain = r.chance(20);
    for i in 1..size.max(1) {
        let parent = if chain { i - 1 } else { r.below(i) };
        flat.push((SDesc {
            ty: r.below(3) as u8, uid: *next, name: gen_name(r, odd), payload: gen_payload(r),
            is_owner: r.chance(owners), from_disk: false, children: Vec::new()
        }, parent));
        *next += 1;
    }
    while flat.len() > 1 {
        let (d, p) = flat.pop().unwrap();
        flat[p].0.children.insert(0, d);
    }
    flat.pop().unwrap().0
}

// -------------------------------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place { In, Left }

#[derive(Clone, Debug)]
struct MNode {
    ty: u8, payload: String, want: String,
    parent: Option<u64>, owner: Option<u64>, children: Vec<u64>, depth: usize, place: Place,
    name: Option<String>, rid: Option<RID>, token: Option<usize>,
    ready: u32, loaded: u32, terminal: u32, from_disk: bool,
    mode: ProcessMode, active: u32, dropped: bool, left_at: u64
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum MStatus { Process(bool), Queued(bool), Terminating, Terminated }   // true: paused

#[derive(Debug)]
enum Ctx {
    Frame { active: bool },
    Add { batch: Vec<u64>, cursor: usize, just_loaded: Option<u64> },
    Removal { target: u64, reason: TerminationReason },
    Quiet { what: &'static str, tags: Tags },
    Hook { uid: u64, ptr: *const dyn Node }
}

struct FrameRec {
    order: Vec<u64>, index: HashMap<u64, usize>, cursor: usize, seen: HashSet<u64>,
    delta: Option<f32>, first: Option<Instant>, enter: Instant, mode_changed: HashSet<u64>, hooks: u64,
    excused: HashSet<u64>,  // Were rightly held back when a node further on was processed.
    early_parents: HashSet<u64>  // Had a child come before them.
}

/// How an episode is to be spent.
#[derive(Clone, Debug)]
pub struct Profile {
    pub weights:    BTreeMap<&'static str, u32>,
    pub max_nodes:  usize,
    pub odd_names:  u32,
    pub deterministic: bool,    // No sleeping, no check of elapsed times.
    pub big:        bool,
    pub plain:      bool,       // No very wide or deep trees.
    pub frames:     (usize, usize),
    pub hook_ops:   u32          // Percentage of hooks that do something.
}

pub const OPS: &[(&str, u32)] = &[
    ("add_single", 10), ("add_scene", 6), ("add_stash", 4), ("remove", 10), ("remove_missing", 2), ("free", 8),
    ("rename", 7), ("queue", 1), ("terminate", 1), ("free_root", 1), ("post_panic", 1), ("pause", 4), ("unpause", 5),
    ("set_mode", 7), ("single", 5), ("post", 6), ("take_ptr", 6), ("save_branch", 3), ("stash_build", 2),
    ("stash_load", 3), ("stash_clone", 2), ("stash_drop", 2), ("paths", 4), ("types", 3), ("sleep", 1), ("aside", 5)
];

impl Profile {
    pub fn new(boost: &[(&'static str, u32)]) -> Self {
        let mut weights: BTreeMap<&'static str, u32> = OPS.iter().map(|&(n, w)| (n, w * 10)).collect();
        for &(n, percent) in boost {
            let w = weights.get_mut(n).unwrap_or_else(|| panic!("no operation {n}"));
            *w = (*w * percent) / 100;
        }
        Profile { weights, max_nodes: 40, odd_names: 6, deterministic: false, big: false, plain: false, frames: (3, 14), hook_ops: 30 }
    }
}

struct World {
    rng: Rng, profile: Profile,
    nodes: BTreeMap<u64, MNode>, root: u64, status: MStatus, ctx: Vec<Ctx>,
    next_uid: u64, budget: i64, trace: Vec<String>, broken: bool, dropping: bool, tree_known: bool, recheck: bool,
    frame: Option<FrameRec>, prev_delta: Option<(Instant, Instant)>,   // The span in which the previous frame's clock was read.
    adds: u64, clock: u64, max_rid: RID,
    singles: BTreeMap<String, u64>, latest: BTreeMap<u64, String>, single_names: Vec<String>,
    posts: Vec<(String, String)>, post_no: u64, verbosity: u8, log_seen: String,
    stash: Vec<(NodeScene, SDesc)>, held: Vec<Held>, sig: u64, hooks_seen: u64, ops_done: u64, ops_in_hooks: u64
}

struct Held { uid: u64, dynp: TpDyn<'static>, a: Option<Tp<'static, NodeA>>, b: Option<Tp<'static, NodeB>>, c: Option<Tp<'static, NodeC>> }

thread_local! {
    static W:    RefCell<Option<World>>             = const { RefCell::new(None) };
    static TREE: Cell<Option<*mut dyn NodeTree>>    = const { Cell::new(None) };
}

fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|c| f(c.borrow_mut().as_mut().expect("no episode")))
}

fn tree() -> &'static mut dyn NodeTree { unsafe { &mut *TREE.with(|t| t.get()).expect("no tree") } }

fn real(uid: u64) -> Option<&'static mut dyn Node> {
    let rid = w(|w| w.nodes.get(&uid).and_then(|n| n.rid))?;
    tree().get_node_mut(rid)
}

impl World {
    fn log(&mut self, s: String) {
        self.sig = hash_str(&s) ^ self.sig.rotate_left(9);
        if self.trace.len() >= 400 { self.trace.drain(..100); }
        let indent = self.ctx.len();
        self.trace.push(format!("{}{}", "  ".repeat(indent), s));
    }

    fn fail(&mut self, tags: Tags, msg: String) {
        if self.broken { return; }
        self.broken = true;
        // A wrong sequence of hooks may come from a tree that is not what it should be; that is looked at once the operation is over.
        self.recheck = tags.iter().all(|t| matches!(*t, "C06" | "C08" | "C09"));
        let from = self.trace.len().saturating_sub(150);
        violation(tags, msg, self.trace[from..].join("\n"));
    }

    /// Whether the tree is to be compared now: always, but large trees only now and then unless there is something new.
    fn due(&self, n: u64, every: u64) -> bool {
        !self.profile.big || n % every == 0 || self.nodes.values().any(|n| n.place == Place::In && n.rid.is_none())
    }

    fn is_in(&self, uid: u64) -> bool { self.nodes.get(&uid).is_some_and(|n| n.place == Place::In) }

    fn ins(&self) -> Vec<u64> { self.nodes.iter().filter(|(_, n)| n.place == Place::In).map(|(&u, _)| u).collect() }

    fn preorder(&self) -> Vec<u64> {
        let mut out = Vec::new();
        if !self.is_in(self.root) { return out; }
        let mut stack = vec![self.root];
        while let Some(u) = stack.pop() {
            out.push(u);
            stack.extend(self.nodes[&u].children.iter().rev());
        }
        out
    }

    fn below(&self, uid: u64) -> Vec<u64> {
        let mut out = Vec::new();
        let mut stack = vec![uid];
        while let Some(u) = stack.pop() {
            out.push(u);
            stack.extend(self.nodes[&u].children.iter().rev());
        }
        out
    }

    fn bfs(&self, uid: u64) -> Vec<u64> {
        let mut out = vec![uid];
        let mut i = 0;
        while i < out.len() {
            out.extend(self.nodes[&out[i]].children.iter());
            i += 1;
        }
        out
    }

    fn chain(&self, uid: u64) -> Vec<u64> {
        let mut out = vec![uid];
        let mut at = uid;
        while let Some(p) = self.nodes[&at].parent { out.push(p); at = p; }
        out
    }

    fn name(&self, uid: u64) -> String { self.nodes.get(&uid).and_then(|n| n.name.clone()).unwrap_or_default() }

    fn effective(&self, uid: u64) -> ProcessMode {
        for u in self.chain(uid) {
            let m = self.nodes[&u].mode;
            if m != ProcessMode::Inherit { return m; }
        }
        ProcessMode::Pausable
    }

    /// Whether the node would be processed now; `None` if a mode that matters was changed during this frame.
    fn eligible(&self, uid: u64) -> Option<bool> {
        if let Some(f) = &self.frame {
            for u in self.chain(uid) {
                if f.mode_changed.contains(&u) { return None; }
                if self.nodes[&u].mode != ProcessMode::Inherit { break; }
            }
        }
        let m = self.effective(uid);
        match self.status {
            MStatus::Process(p) | MStatus::Queued(p) => Some(m == ProcessMode::Always || (m == if p { ProcessMode::Inverse } else { ProcessMode::Pausable })),
            _ => Some(false)
        }
    }

    fn insert_desc(&mut self, d: &SDesc, parent: Option<u64>, single: bool, batch: &mut Vec<u64>) {
        let owner = match parent {
            None                            => d.uid,
            Some(_) if d.is_owner && !single => d.uid,
            Some(p)                         => self.nodes[&p].owner.unwrap()
        };
        let depth = parent.map(|p| self.nodes[&p].depth + 1).unwrap_or(0);
        self.nodes.insert(d.uid, MNode {
            ty: d.ty, payload: d.payload.clone(), want: d.name.clone(), parent, owner: Some(owner), children: Vec::new(), depth,
            place: Place::In, name: None, rid: None, token: None, ready: 0, loaded: 0, terminal: 0,
            from_disk: d.from_disk, mode: ProcessMode::Inherit, active: 0, dropped: false, left_at: 0
        });
        if let Some(p) = parent { self.nodes.get_mut(&p).unwrap().children.push(d.uid); }
        batch.push(d.uid);
        self.adds += 1;
        let uid = d.uid;
        for c in &d.children { self.insert_desc(c, Some(uid), false, batch); }
    }

    /// Takes a branch out of the model.
    fn leave(&mut self, uid: u64) {
        let branch = self.below(uid);
        if let Some(p) = self.nodes[&uid].parent {
            self.nodes.get_mut(&p).unwrap().children.retain(|&c| c != uid);
        }
        self.clock += 1;
        for u in branch {
            let adds = self.adds;
            let n = self.nodes.get_mut(&u).unwrap();
            n.place   = Place::Left;
            n.left_at = adds;
            n.children.clear();
            n.parent = None;
            n.owner  = None;
            self.latest.remove(&u);
            self.singles.retain(|_, &mut v| v != u);
        }
        if uid == self.root { self.status = MStatus::Terminated; }
    }
}

// ------------------------------------------------------------------------------------- checks

fn stem(s: &str) -> &str { s.trim_end_matches(|c: char| c.is_ascii_digit()) }

/// Compares the whole real tree with the model.
fn check_tree(extra: Tags, when: &str) {
    if w(|w| w.broken || w.dropping || !w.tree_known) { return; }
    count("snapshots");
    if let Err((tags, msg)) = compare_tree(extra) {
        w(|w| {
            let mut all: Vec<&'static str> = tags.to_vec();
            for t in extra { if !all.contains(t) { all.push(t); } }
            let all: &'static [&'static str] = Box::leak(all.into_boxed_slice());
            w.fail(all, format!("{msg} ({when})"));
        });
    }
}

/// After an operation whose hooks went wrong: whether the tree is wrong, too.
fn recheck(extra: Tags) {
    if !w(|w| w.broken && !w.dropping && w.tree_known && std::mem::take(&mut w.recheck)) { return; }
    if let Err((mut tags, msg)) = compare_tree(&[]) {
        tags.extend(extra);
        w(|w| { let from = w.trace.len().saturating_sub(150); violation(&tags, format!("{msg} (looked at after hooks went wrong)"), w.trace[from..].join("\n")); });
    }
}

type CResult = Result<(), (Vec<&'static str>, String)>;

fn compare_tree(_extra: Tags) -> CResult {
    let c01 = |m: String| Err((vec!["C01"], m));
    let (root, root_in) = w(|w| (w.root, w.is_in(w.root)));
    let t = tree();
    let root_rid: RID = 0;
    if !root_in {
        if t.get_node(root_rid).is_some() { return c01("the freed root can still be looked up".into()); }
        return Ok(());
    }
    if t.get_node(root_rid).is_none() { return c01("the root of the tree cannot be looked up".into()); }
    match ident(t.root()) {
        Some(id) if id.uid == root => (),
        other => return c01(format!("the root of the tree is {other:?} and not #{root}"))
    }

    // (uid, expected parent rid)
    let mut stack: Vec<(u64, RID, Option<RID>)> = vec![(root, root_rid, None)];
    let mut seen_rids: HashMap<RID, u64> = HashMap::new();
    let mut owner_checks: Vec<(u64, RID)> = Vec::new();
    while let Some((uid, rid, parent_rid)) = stack.pop() {
        let node: &dyn Node = match t.get_node(rid) { Some(n) => n, None => return c01(format!("node #{uid} cannot be looked up by its identifier {rid}")) };
        let m = w(|w| w.nodes[&uid].clone());
        let id = match ident(node) { Some(i) => i, None => return Err((vec!["C01", "C12"], format!("node #{uid} is of an unknown type"))) };
        if id.uid != uid { return Err((vec!["C01", "C03"], format!("identifier {rid} leads to #{} and not to #{uid}", id.uid))); }
        if let Some(other) = seen_rids.insert(rid, uid) {
            return Err((vec!["C03", "C01"], format!("#{other} and #{uid} have the same identifier {rid}")));
        }
        if node.rid() != rid { return Err((vec!["C03"], format!("node #{uid} says that its identifier is {} and not {rid}", node.rid()))); }
        if let Some(known) = m.rid {
            if known != rid { return Err((vec!["C03"], format!("the identifier of node #{uid} has changed from {known} to {rid}"))); }
        }
        if let Some(tok) = m.token {
            if tok != id.token { return Err((vec!["C11", "C05", "C12"], format!("node #{uid} is not the instance that was added"))); }
        }
        if id.ty != m.ty { return Err((vec!["C05", "C01"], format!("node #{uid} is a {} and not a {}", CLASS_NAMES[id.ty as usize], CLASS_NAMES[m.ty as usize]))); }
        if payload_of(node).as_deref() != Some(&m.payload) { return Err((vec!["C05"], format!("the field of node #{uid} is {:?} and not {:?}", payload_of(node), m.payload))); }
        if !node.in_tree() || node.is_stray() { return c01(format!("node #{uid} is in the tree but says it is not")); }
        if node.is_root() != (uid == root) { return c01(format!("node #{uid}: is_root() is {}", node.is_root())); }
        if node.depth() != m.depth { return c01(format!("the depth of node #{uid} is {} and not {}", node.depth(), m.depth)); }
        match (node.parent_dyn().to_result(), parent_rid) {
            (Ok(p), Some(e)) => if p.rid() != e { return c01(format!("the parent of node #{uid} has the identifier {} and not {e}", p.rid())); },
            (Err(NodeError::NoParent), None) => (),
            (Ok(_), None)  => return c01(format!("the root #{uid} has a parent")),
            (Err(e), _)    => return c01(format!("the parent of node #{uid} cannot be had: {e:?}"))
        }
        let orid = node.owner_dyn().rid();
        owner_checks.push((uid, orid));
        if node.is_owner() != (m.owner == Some(uid)) { return Err((vec!["C05", "C01"], format!("node #{uid}: is_owner() is {}", node.is_owner()))); }

        // Children, in order.
        let kids: Vec<(RID, Option<u64>)> = node.children().iter().map(|c| (c.rid(), ident(c.get()).map(|i| i.uid))).collect();
        let have: Vec<u64> = kids.iter().map(|k| k.1.unwrap_or(u64::MAX)).collect();
        if have != m.children { return c01(format!("the children of node #{uid} are {have:?} and not {:?}", m.children)); }
        if node.num_children() != m.children.len() || node.childless() != m.children.is_empty() {
            return c01(format!("node #{uid} counts {} children and has {}", node.num_children(), m.children.len()));
        }
        for (i, k) in kids.iter().enumerate() {
            match node.get_child_dyn(i).to_result() {
                Ok(c) if c.rid() == k.0 => (),
                other => return c01(format!("child {i} of node #{uid} is {:?}", other.map(|c| c.rid())))
            }
        }
        match node.get_child_dyn(kids.len()).to_result() {
            Err(NodeError::IndexOutOfRange { index, children_count }) if index == kids.len() && children_count == kids.len() => (),
            other => return c01(format!("node #{uid} gives a child beyond its last one: {:?}", other.map(|c| c.rid())))
        }

        // Names.
        let names: Vec<String> = node.children().iter().map(|c| c.name().to_string()).collect();
        let mut set: HashSet<&str> = HashSet::new();
        for n in &names {
            if !set.insert(n) { return Err((vec!["C02"], format!("two children of node #{uid} are called {n:?}"))); }
        }
        for (i, (&k, n)) in m.children.iter().zip(&names).enumerate() {
            let (known, want) = w(|w| (w.nodes[&k].name.clone(), w.nodes[&k].want.clone()));
            match known {
                Some(known) => if known != *n { return Err((vec!["C02"], format!("the name of node #{k} has changed from {known:?} to {n:?}"))); },
                None => {
                    if !names[..i].contains(&want) {
                        if *n != want { return Err((vec!["C02", "C05"], format!("node #{k} was added as {want:?}, which no sibling had, but is now called {n:?} (siblings: {:?})", &names[..i]))); }
                        count("names_kept");
                    } else {
                        if !n.starts_with(stem(&want)) { return Err((vec!["C02"], format!("node #{k} was added as {want:?} and is called {n:?}, which is not derived from that"))); }
                        count("names_made_unique");
                    }
                    w(|w| w.nodes.get_mut(&k).unwrap().name = Some(n.clone()));
                }
            }
        }
        if uid == root {
            let n = node.name().to_string();
            match &m.name {
                Some(known) => if *known != n { return Err((vec!["C02"], format!("the name of the root has changed from {known:?} to {n:?}"))); },
                None => {
                    if n != m.want { return Err((vec!["C02", "C05"], format!("the root was added as {:?} and is called {n:?}", m.want))); }
                    w(|w| w.nodes.get_mut(&uid).unwrap().name = Some(n));
                }
            }
        }

        w(|w| {
            let x = w.nodes.get_mut(&uid).unwrap();
            x.rid   = Some(rid);
            x.token = Some(id.token);
            w.max_rid = w.max_rid.max(rid);
        });
        for (&k, &(krid, _)) in m.children.iter().zip(&kids).rev() { stack.push((k, krid, Some(rid))); }
    }
    for (uid, orid) in owner_checks {
        let want = w(|w| w.nodes[&uid].owner);
        let have = seen_rids.get(&orid).copied();
        if want != have { return Err((vec!["C05", "C01"], format!("the owner of node #{uid} is {have:?} and not {want:?}"))); }
    }
    Ok(())
}

/// Checks that are only made between outermost operations: lookups, pointers, names and paths.
fn check_deep() {
    if w(|w| w.broken) { return; }
    if let Err((tags, msg)) = deep() {
        w(|w| w.fail(Box::leak(tags.into_boxed_slice()), msg));
    }
}

/// Lookups of several identifiers at once give their nodes in the order asked for.
fn several(rids: &HashMap<RID, u64>, max: RID) -> CResult {
    let mut ask: Vec<RID> = (0..w(|w| w.rng.below(9))).map(|_| w(|w| w.rng.below(max as usize + 3) as RID)).collect();
    let doubled = (1..ask.len()).any(|i| ask[..i].contains(&ask[i]));
    let want: Vec<Option<u64>> = ask.iter().map(|rid| rids.get(rid).copied()).collect();
    let valid: Vec<u64> = want.iter().flatten().copied().collect();
    let uid = |n: &dyn Node| ident(n).map(|i| i.uid).unwrap_or(0);
    let t = tree();
    let got: Vec<Option<u64>> = t.get_nodes(&ask).into_iter().map(|n| n.map(uid)).collect();
    if got != want { return Err((vec!["C01", "C03"], format!("get_nodes({ask:?}) gives {got:?} and not {want:?}"))); }
    let got: Vec<u64> = t.get_all_valid_nodes(&ask).into_iter().map(uid).collect();
    if got != valid { return Err((vec!["C01", "C03"], format!("get_all_valid_nodes({ask:?}) gives {got:?} and not {valid:?}"))); }
    count("lookups_of_several");
    if doubled {
        // Two references to one node must not be given out.
        let live = want.iter().enumerate().any(|(i, u)| u.is_some() && want[..i].contains(u));
        for all in [false, true] {
            let given = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if all { t.get_all_valid_nodes_mut(&ask).len() } else { t.get_nodes_mut(&ask).len() }));
            if live && given.is_ok() { return Err((vec!["C12"], format!("{} gives out two references to one node for {ask:?}", if all { "get_all_valid_nodes_mut()" } else { "get_nodes_mut()" }))); }
            count("doubled_lookups");
        }
        ask.sort();
        ask.dedup();
        for i in (1..ask.len()).rev() { let j = w(|w| w.rng.below(i + 1)); ask.swap(i, j); }
    }
    let want: Vec<Option<u64>> = ask.iter().map(|rid| rids.get(rid).copied()).collect();
    let valid: Vec<u64> = want.iter().flatten().copied().collect();
    let got: Vec<Option<u64>> = t.get_nodes_mut(&ask).into_iter().map(|n| n.map(|n| uid(n))).collect();
    if got != want { return Err((vec!["C01", "C03"], format!("get_nodes_mut({ask:?}) gives {got:?} and not {want:?}"))); }
    let got: Vec<u64> = t.get_all_valid_nodes_mut(&ask).into_iter().map(|n| uid(n)).collect();
    if got != valid { return Err((vec!["C01", "C03"], format!("get_all_valid_nodes_mut({ask:?}) gives {got:?} and not {valid:?}"))); }
    Ok(())
}

fn deep() -> CResult {
    let t = tree();
    let (max, rids, root) = w(|w| (w.max_rid, w.nodes.iter().filter(|(_, n)| n.place == Place::In).map(|(&u, n)| (n.rid.unwrap_or(RID::MAX), u)).collect::<HashMap<_, _>>(), w.root));
    for rid in 0..max + 4 {
        match (t.get_node(rid), rids.get(&rid)) {
            (None, None) => (),
            (Some(n), Some(&u)) => if ident(n).map(|i| i.uid) != Some(u) { return Err((vec!["C01", "C03"], format!("identifier {rid} leads to {:?} and not to #{u}", ident(n)))); },
            (Some(n), None) => return Err((vec!["C01", "C03"], format!("identifier {rid} leads to {:?}, which has left the tree", ident(n)))),
            (None, Some(u)) => return Err((vec!["C01", "C03"], format!("identifier {rid} of node #{u} leads nowhere")))
        }
    }
    // The plural lookups agree with the single one.
    let all: Vec<RID> = (0..max + 4).collect();
    let some = t.get_nodes(&all);
    for (rid, n) in all.iter().zip(&some) {
        if n.map(|n| n.rid()) != t.get_node(*rid).map(|n| n.rid()) { return Err((vec!["C01"], format!("get_nodes() gives another node for {rid}"))); }
    }
    if t.get_all_valid_nodes(&all).len() != rids.len() { return Err((vec!["C01"], "get_all_valid_nodes() does not give exactly the valid nodes".into())); }
    several(&rids, max)?;

    // Top-down traversal, from some node.
    if w(|w| w.is_in(root)) {
        let (u, want) = w(|w| {
            let ins = w.ins();
            let u = *w.rng.pick(&ins);
            (u, w.bfs(u).iter().map(|b| w.nodes[b].rid.unwrap()).collect::<Vec<_>>())
        });
        let n = real(u).unwrap();
        if n.top_down(true) != want { return Err((vec!["C01"], format!("top_down(true) of #{u} is {:?} and not {want:?}", n.top_down(true)))); }
        if n.top_down(false) != want[1..] { return Err((vec!["C01"], format!("top_down(false) of #{u} is {:?} and not {:?}", n.top_down(false), &want[1..]))); }
    }
    check_held()?;
    check_singles()?;
    check_log()
}

fn check_held() -> CResult {
    let n = w(|w| w.held.len());
    for i in 0..n {
        let (uid, held) = w(|w| (w.held[i].uid, &w.held[i] as *const Held));
        let h: &Held = unsafe { &*held };   // Nothing is pushed while this is looked at.
        let (is_in, taken, ty) = w(|w| {
            let rid = w.nodes[&uid].rid;
            (w.is_in(uid), w.nodes.values().find(|n| n.place == Place::In && n.rid == rid).map(|n| (n.ty, n.rid)), w.nodes[&uid].ty)
        });
        macro_rules! check { ($p:expr, $what:expr) => {{
            let p = $p;
            if is_in {
                count("pointers_alive");
                if !p.is_valid() || p.is_null() { return Err((vec!["C03"], format!("a {} pointer to node #{uid}, which is in the tree, is null", $what))); }
                match p.try_get().to_result() {
                    Ok(n) => if ident_any(n).map(|i| i.uid) != Some(uid) { return Err((vec!["C03"], format!("a {} pointer to node #{uid} reaches {:?}", $what, ident_any(n)))); },
                    Err(e) => return Err((vec!["C03"], format!("a {} pointer to node #{uid} gives {e:?}", $what)))
                }
            } else if let Some((other, _)) = taken {
                // Its identifier has gone to another node: whether the pointer reaches that one is left open, but never as another type.
                if $what == "typed" && other != ty && other < 3 && ty < 3 {
                    count("pointers_to_others");
                    if p.is_valid() || !p.is_null() { return Err((vec!["C03"], format!("a typed pointer to node #{uid}, which has left and whose identifier is that of a node of another type, is valid"))); }
                    match p.try_get().to_result() {
                        Err(TPError::WrongType) => (),
                        other => return Err((vec!["C03"], format!("a typed pointer to node #{uid}, whose identifier is that of a node of another type, gives {:?}", other.is_ok())))
                    }
                }
            } else {
                count("pointers_null");
                if p.is_valid() || !p.is_null() { return Err((vec!["C03"], format!("a {} pointer to node #{uid}, which has left, is not null", $what))); }
                match p.try_get().to_result() {
                    Err(TPError::IsNull) => (),
                    other => return Err((vec!["C03"], format!("a {} pointer to node #{uid}, which has left, gives {:?}", $what, other.is_ok())))
                }
            }
        }} }
        check!(&h.dynp, "dynamic");
        match ty {
            0 => check!(h.a.as_ref().unwrap(), "typed"),
            1 => check!(h.b.as_ref().unwrap(), "typed"),
            _ => check!(h.c.as_ref().unwrap(), "typed")
        }
    }
    Ok(())
}

trait Idable { fn id(&self) -> Option<Ident>; }
impl Idable for NodeA     { fn id(&self) -> Option<Ident> { ident(self) } }
impl Idable for NodeB     { fn id(&self) -> Option<Ident> { ident(self) } }
impl Idable for NodeC     { fn id(&self) -> Option<Ident> { ident(self) } }
impl Idable for dyn Node  { fn id(&self) -> Option<Ident> { ident(self) } }
fn ident_any<T: Idable + ?Sized>(n: &T) -> Option<Ident> { n.id() }

fn check_singles() -> CResult {
    // What a node goes by.
    let all: Vec<(u64, RID, Option<String>)> = w(|w| w.ins().iter().filter_map(|&u| w.nodes[&u].rid.map(|r| (u, r, w.latest.get(&u).cloned()))).collect());
    for (u, rid, want) in all {
        use node_tree::structs::node_tree_base::NodeIdentity;
        let have = match tree().get_node_identity(rid) {
            Some(NodeIdentity::UniqueName(name)) => Some(name),
            Some(NodeIdentity::NodePath)         => None,
            None                                 => return Err((vec!["C21"], format!("node #{u} has no identity")))
        };
        if have != want { return Err((vec!["C21"], format!("node #{u} goes by the name {have:?} and not by {want:?}"))); }
    }
    let names = w(|w| w.single_names.clone());
    for name in names {
        let (want, wrid) = w(|w| { let u = w.singles.get(&name).copied(); (u, u.and_then(|u| w.nodes[&u].rid)) });
        let have = tree().get_node_rid(name.as_str(), None);
        count("singleton_lookups");
        if have != wrid { return Err((vec!["C21"], format!("the singleton name {name:?} leads to identifier {have:?} and not to {wrid:?} ({want:?})"))); }
        // Names that only look alike are other names.
        let like = match w(|w| w.rng.below(12)) {
            0 => other_case(&name), 1 => format!("{name} "), 2 => format!(" {name}"), 3 => name.trim().to_string(), 4 => format!("{name}1"), 5 => name.chars().rev().skip(1).collect(),
            6 => format!("/{name}"), 7 => format!("./{name}"), _ => name.clone()
        };
        if like != name {
            let wrid = w(|w| w.singles.get(&like).and_then(|u| w.nodes[u].rid));
            let have = tree().get_node_rid(like.as_str(), None);
            count("singleton_near_misses");
            if have != wrid { return Err((vec!["C21"], format!("the name {like:?} leads to identifier {have:?} and not to {wrid:?}, while {name:?} is a singleton name"))); }
        }
        let from = w(|w| { let ins = w.ins(); if ins.is_empty() { None } else { Some(*w.rng.pick(&ins)) } });
        if let Some(from) = from {
            let n = real(from).unwrap();
            let got = n.get_node_dyn(name.as_str()).to_result().ok().map(|p| p.rid());
            let got_string = n.get_node_dyn(name.clone()).to_result().ok().map(|p| p.rid());
            if got != wrid || got_string != wrid { return Err((vec!["C21"], format!("from #{from}, the singleton name {name:?} leads to {got:?}/{got_string:?} and not to {wrid:?}"))); }
        }
    }
    Ok(())
}

fn check_log() -> CResult {
    let log = tree().get_log();
    w(|w| {
        if w.log_seen.is_empty() && w.verbosity > 0 {
            // What the logger says of itself is held back like anything else.
            let held: &[&str] = [&[][..], &[" | DEBUG | "], &[" | DEBUG | ", " | INFO | "], &[" | DEBUG | ", " | INFO | ", " | WARN | "]][w.verbosity as usize];
            let first = log.lines().next().unwrap_or("");
            if w.posts.is_empty() && held.iter().any(|h| first.contains(h)) { return Err((vec!["C22"], format!("the log begins with {first:?}, which its verbosity does not let through"))); }
        }
        if !log.starts_with(&w.log_seen) { return Err((vec!["C22"], "the log has changed in a part that was already written".to_string())); }
        let mut at = 0;
        for (line, mark) in &w.posts {
            match log[at..].find(line.as_str()) {
                Some(p) => {
                    let from = at + p;
                    // What stands ahead of it is the time, on a line of its own.
                    let head = &log[log[..from].rfind('\n').map(|i| i + 1).unwrap_or(0)..from];
                    let head: String = head.chars().rev().take(25).collect::<Vec<_>>().into_iter().rev().collect();
                    if !is_time(&head) { return Err((vec!["C22"], format!("a message is preceded by {head:?} instead of the time"))); }
                    at = from + line.len();
                },
                None => {
                    let where_ = log.find(mark.as_str()).map(|i| { let s = log[..i].rfind('\n').map(|i| i + 1).unwrap_or(0); log[s..].lines().next().unwrap_or("").to_string() });
                    return Err((vec!["C22"], format!("the log lacks {line:?} after the messages posted before it (found instead: {where_:?})")));
                }
            }
            if mark.contains("msg#") && log.matches(mark.as_str()).count() != 1 { return Err((vec!["C22"], format!("the log holds the message {mark:?} {} times", log.matches(mark.as_str()).count()))); }
        }
        w.log_seen = log.to_string();
        Ok(())
    })
}

fn is_time(s: &str) -> bool {
    // <dd/mm/YYYY HH:MM:SS UTC>
    let pat = "<00/00/0000 00:00:00 UTC>";
    s.chars().count() == pat.len() && s.chars().zip(pat.chars()).all(|(a, b)| if b == '0' { a.is_ascii_digit() } else { a == b })
}

/// A node whose hook is running and that has left must know it.
fn check_strays() {
    let ptrs: Vec<(u64, *const dyn Node)> = w(|w| w.ctx.iter().filter_map(|c| if let Ctx::Hook { uid, ptr } = c { Some((*uid, *ptr)) } else { None }).collect());
    for (uid, p) in ptrs {
        let (left, broken, dropped) = w(|w| (!w.is_in(uid), w.broken, w.nodes[&uid].dropped));
        if broken { return; }
        if dropped {
            w(|w| w.fail(&["C11", "C12"], format!("node #{uid} was dropped while one of its hooks is running")));
            return;
        }
        if left {
            let n = unsafe { &*p };
            if n.in_tree() || !n.is_stray() || n.tree().is_some() || n.is_root() || n.is_owner() {
                w(|w| w.fail(&["C01"], format!("node #{uid} has left the tree and says: in_tree {} is_root {} is_owner {}", n.in_tree(), n.is_root(), n.is_owner())));
            }
            if format!("{:?}", n.base()).contains("Connected to Tree: true") {
                w(|w| w.fail(&["C01"], format!("node #{uid} has left the tree and still is connected to it")));
            }
            count("strays_checked");
        }
    }
}

// -------------------------------------------------------------------------------------- hooks

pub fn mode_of(uid: u64) -> ProcessMode {
    W.with(|c| c.try_borrow().ok().and_then(|b| b.as_ref().and_then(|w| w.nodes.get(&uid).map(|n| n.mode)))).unwrap_or(ProcessMode::Inherit)
}

pub fn on_drop(token: usize, _uid: Option<u64>) {
    W.with(|c| {
        let Ok(mut b) = c.try_borrow_mut() else { return };
        let Some(w) = b.as_mut() else { return };
        let Some(uid) = w.nodes.iter().find(|(_, n)| n.token == Some(token)).map(|(&u, _)| u) else { return };
        let (place, active, terminal) = { let n = &w.nodes[&uid]; (n.place, n.active, n.terminal) };
        w.nodes.get_mut(&uid).unwrap().dropped = true;
        if w.dropping || w.broken { return; }
        if active > 0 {
            w.fail(&["C11", "C12"], format!("node #{uid} is dropped while one of its hooks is running"));
        } else if place == Place::In {
            let removing = w.ctx.iter().any(|c| matches!(c, Ctx::Removal { target, .. } if w.chain(uid).contains(target)));
            if !(removing && terminal > 0) {
                w.fail(&["C11", "C12"], format!("node #{uid} is dropped while it is in the tree"));
            }
        }
        count("nodes_dropped_after_leaving");
    })
}

/// Called by every hook of every instrumented node.
pub fn hook(node: &mut dyn Node, uid: u64, token: Option<usize>, h: Hook) {
    let active = W.with(|c| c.try_borrow().map(|b| b.is_some()).unwrap_or(false));
    if !active { return; }
    if w(|w| w.broken) { return; }
    if w(|w| w.dropping) { count("hooks_during_tree_drop"); return; }

    // The tree is known from the first hook on.
    if !w(|w| w.tree_known) {
        if let Some(t) = node.tree_mut() {
            TREE.with(|c| c.set(Some(unsafe { std::mem::transmute::<*mut dyn NodeTree, *mut dyn NodeTree>(t as *mut dyn NodeTree) })));
            w(|w| w.tree_known = true);
        }
    }
    w(|w| { w.hooks_seen += 1; w.log(format!("{}:#{uid}", hook_name(&h))); });
    count(match h { Hook::Loaded => "hooks_loaded", Hook::Ready => "hooks_ready", Hook::Process(_) => "hooks_process", Hook::Terminal(_) => "hooks_terminal" });
    w(|w| on_hook(w, uid, token, h));
    if w(|w| w.broken) { return; }

    let (extra, when): (Tags, &str) = match h {
        Hook::Loaded      => (&["C08"], "at loaded()"),
        Hook::Ready       => (&["C08"], "at ready()"),
        Hook::Process(_)  => (&[],      "at process()"),
        Hook::Terminal(_) => (&["C09"], "at terminal()")
    };
    if w(|w| w.due(w.hooks_seen, 16)) { check_tree(extra, when); }
    if w(|w| w.broken) { return; }
    if w(|w| w.nodes[&uid].rid.is_some()) && real(uid).map(|n| n.rid()) != Some(node.rid()) {
        w(|w| w.fail(&["C01", "C09", "C06"], format!("a hook of #{uid} runs, but the node cannot be looked up")));
        return;
    }

    let ptr: *const dyn Node = node;
    let ptr: *const dyn Node = unsafe { std::mem::transmute(ptr) };
    w(|w| { w.nodes.get_mut(&uid).unwrap().active += 1; w.ctx.push(Ctx::Hook { uid, ptr }); });
    let depth = w(|w| w.ctx.iter().filter(|c| matches!(c, Ctx::Hook { .. })).count());
    let mut n = w(|w| {
        let p = w.profile.hook_ops / depth.min(4) as u32;
        if depth <= 4 && w.rng.chance(p) { w.rng.range(1, 3) } else { 0 }
    });
    while n > 0 && w(|w| w.budget > 0 && !w.broken) {
        n -= 1;
        let from = if w(|w| w.is_in(uid)) { Some(uid) } else { None };
        let op = w(|w| gen_op(w, from, true));
        if let Some(op) = op {
            w(|w| w.ops_in_hooks += 1);
            perform(op, Some(node));
        }
    }
    w(|w| {
        w.ctx.pop();
        if let Some(n) = w.nodes.get_mut(&uid) { n.active -= 1; }
    });
}

fn hook_name(h: &Hook) -> String {
    match h {
        Hook::Loaded => "loaded".into(), Hook::Ready => "ready".into(), Hook::Process(_) => "process".into(),
        Hook::Terminal(r) => format!("terminal({r:?})")
    }
}

fn on_hook(w: &mut World, uid: u64, token: Option<usize>, h: Hook) {
    let name = hook_name(&h);
    let Some(n) = w.nodes.get(&uid).cloned() else {
        return w.fail(&["C01", "C08", "C09", "C06", "C14", "C18"], format!("{name} is called on a node #{uid} that was never added"));
    };
    if n.token.is_some() && token != n.token {
        return w.fail(&["C11", "C18", "C05"], format!("{name} is called on another instance of node #{uid}"));
    }
    if n.place == Place::Left {
        let tags: Tags = match h { Hook::Process(_) => &["C09", "C06"], Hook::Ready | Hook::Loaded => &["C09", "C08"], _ => &["C09"] };
        return w.fail(tags, format!("{name} is called on node #{uid}, which has left the tree"));
    }
    if let Some(Ctx::Quiet { what, tags }) = w.ctx.last() {
        let (what, tags) = (*what, *tags);
        return w.fail(tags, format!("{name} is called on node #{uid} during {what}"));
    }
    match h {
        Hook::Loaded | Hook::Ready => {
            let is_ready = h == Hook::Ready;
            let Some(Ctx::Add { batch, cursor, just_loaded }) = w.ctx.last() else {
                return w.fail(&["C08"], format!("{name} is called on node #{uid} while nothing is being added"));
            };
            let Some(at) = batch.iter().position(|&b| b == uid) else {
                return w.fail(&["C08"], format!("{name} is called on node #{uid}, which is not being added"));
            };
            let (cursor, just_loaded, skipped) = (*cursor, *just_loaded, batch.get(at + 1..*cursor).map(|s| s.to_vec()));
            if let Some(jl) = just_loaded {
                if jl == uid && !is_ready { return w.fail(&["C08"], format!("loaded() is called twice on node #{uid}")); }
                if jl != uid && w.is_in(jl) { return w.fail(&["C08"], format!("{name} of node #{uid} comes between loaded() and ready() of node #{jl}")); }
            }
            if is_ready && n.ready > 0 { return w.fail(&["C08"], format!("ready() is called twice on node #{uid}")); }
            if !is_ready && n.loaded > 0 { return w.fail(&["C08"], format!("loaded() is called twice on node #{uid}")); }
            if !is_ready && !n.from_disk { return w.fail(&["C08"], format!("loaded() is called on node #{uid}, which was not loaded")); }
            if is_ready && n.from_disk && just_loaded != Some(uid) {
                return w.fail(&["C08"], format!("ready() is called on the loaded node #{uid} without loaded() directly before"));
            }
            if just_loaded != Some(uid) {
                if at >= cursor { return w.fail(&["C08"], format!("{name} of node #{uid} comes after that of a node added before it")); }
                if let Some(&missed) = skipped.unwrap_or_default().iter().rev().find(|&&s| w.is_in(s)) {
                    return w.fail(&["C08"], format!("{name} of node #{uid} comes before that of node #{missed}, which was added after it"));
                }
            }
            if let Some(Ctx::Add { cursor, just_loaded, .. }) = w.ctx.last_mut() {
                *cursor = at;
                *just_loaded = if is_ready { None } else { Some(uid) };
            }
            let n = w.nodes.get_mut(&uid).unwrap();
            if is_ready { n.ready += 1 } else { n.loaded += 1 }
        },
        Hook::Terminal(reason) => {
            if n.terminal > 0 { return w.fail(&["C09"], format!("terminal() is called twice on node #{uid}")); }
            w.nodes.get_mut(&uid).unwrap().terminal += 1;
            match w.ctx.last() {
                Some(Ctx::Removal { target, reason: want }) => {
                    let (target, want) = (*target, *want);
                    if !w.chain(uid).contains(&target) { return w.fail(&["C09"], format!("terminal() is called on node #{uid}, which is not below the removed #{target}")); }
                    if reason != want { return w.fail(&["C09"], format!("node #{uid} is told {reason:?} as the reason and not {want:?}")); }
                },
                Some(Ctx::Frame { .. }) => {
                    if w.status != MStatus::Terminating {
                        return w.fail(&["C10", "C09"], format!("terminal() is called on node #{uid} in a frame that starts with the tree in {:?}", w.status));
                    }
                    if reason != TerminationReason::TreeExit { return w.fail(&["C09", "C10"], format!("node #{uid} is told {reason:?} when the tree terminates")); }
                    visit(w, uid, h);
                },
                other => { let o = format!("{other:?}"); w.fail(&["C09"], format!("terminal() is called on node #{uid} without a reason ({o})")) }
            }
        },
        Hook::Process(delta) => {
            let Some(Ctx::Frame { active }) = w.ctx.last() else {
                return w.fail(&["C06"], format!("process() is called on node #{uid} outside of a frame"));
            };
            if !*active { return w.fail(&["C10", "C06"], format!("process() is called on node #{uid} after the tree has terminated")); }
            if !matches!(w.status, MStatus::Process(_) | MStatus::Queued(_)) {
                return w.fail(&["C10", "C06"], format!("process() is called on node #{uid} while the tree is in {:?}", w.status));
            }
            visit(w, uid, h);
            if w.broken { return; }
            let det = w.profile.deterministic;
            let prev = w.prev_delta;
            let f = w.frame.as_mut().unwrap();
            match f.delta {
                Some(d) => if d.to_bits() != delta.to_bits() { return w.fail(&["C06"], format!("node #{uid} is told {delta} s to have passed in a frame in which another was told {d} s")); },
                None    => {
                    f.delta = Some(delta);
                    if !det {
                        if let Some((lo, hi)) = prev {
                            let now = f.first.unwrap();
                            let min = f.enter.saturating_duration_since(hi).as_secs_f64();
                            let max = now.duration_since(lo).as_secs_f64();
                            let d = delta as f64;
                            if d < min - 1e-6 - min * 1e-6 || d > max + 1e-6 + max * 1e-6 {
                                return w.fail(&["C06"], format!("a frame is told that {d} s have passed since the previous one, which was between {min} s and {max} s ago"));
                            }
                            count("frame_times_checked");
                        }
                    }
                }
            }
        }
    }
}

/// A node is reached by the current frame.
fn visit(w: &mut World, uid: u64, h: Hook) {
    let name = hook_name(&h);
    let is_process = matches!(h, Hook::Process(_));
    let now = Instant::now();
    let (at, cursor, skipped) = {
        let f = w.frame.as_mut().unwrap();
        if f.first.is_none() { f.first = Some(now); }
        f.hooks += 1;
        if !f.seen.insert(uid) {
            return w.fail(&["C06", "C09"], format!("{name} is called twice on node #{uid} in one frame"));
        }
        let at = f.index.get(&uid).copied();
        let cursor = f.cursor;
        let skipped: Vec<u64> = at.and_then(|a| f.order.get(cursor..a)).map(|s| s.to_vec()).unwrap_or_default();
        (at, cursor, skipped)
    };
    if is_process && w.eligible(uid) == Some(false) {
        return w.fail(&["C07", "C06"], format!("node #{uid} is processed while the tree is in {:?} and its mode is {:?}", w.status, w.effective(uid)));
    }
    if is_process && w.eligible(uid).is_some() { count("modes_decided"); }
    match at {
        Some(at) => {
            if at < cursor { return w.fail(&["C06"], format!("{name} of node #{uid} comes after that of a node that follows it")); }
            for s in skipped { must_have_been_visited(w, s); }
            w.frame.as_mut().unwrap().cursor = at + 1;
        },
        None => {
            // A node that was added during this frame: its parent has to come first.
            count("added_nodes_processed");
            let now: Vec<u64> = w.preorder();
            let ahead: Vec<u64> = now.into_iter().take_while(|&u| u != uid).collect();
            for u in ahead {
                if is_process && w.eligible(u) == Some(false) && w.frame.as_ref().unwrap().index.get(&u).is_some_and(|&i| i >= cursor) {
                    w.frame.as_mut().unwrap().excused.insert(u);
                }
            }
        }
    }

    // No node may come before its parent does, whether it was there already or not.
    let parent = w.nodes[&uid].parent;
    let f = w.frame.as_mut().unwrap();
    if f.early_parents.contains(&uid) { return w.fail(&["C06"], format!("{name} of node #{uid} comes after that of one of its children")); }
    if let Some(p) = parent { if !f.seen.contains(&p) { f.early_parents.insert(p); } }
}

fn must_have_been_visited(w: &mut World, uid: u64) {
    if !w.is_in(uid) || w.frame.as_ref().is_some_and(|f| f.excused.contains(&uid)) { return; }
    match w.status {
        MStatus::Terminating => if w.nodes[&uid].terminal == 0 {
            w.fail(&["C09", "C10"], format!("terminal() is not called on node #{uid} when the tree terminates"));
        },
        MStatus::Process(_) | MStatus::Queued(_) => match w.eligible(uid) {
            Some(true) => w.fail(&["C06", "C07"], format!("node #{uid} is not processed while the tree is in {:?} and its mode is {:?}", w.status, w.effective(uid))),
            Some(false) => count("modes_decided"),
            None => ()
        },
        MStatus::Terminated => ()
    }
}

// --------------------------------------------------------------------------------- operations

#[derive(Debug, Clone)]
enum Op {
    Add { parent: u64, desc: SDesc, single: bool },
    AddCopy { parent: u64, of: u64, desc: SDesc },
    AddStash { parent: u64, at: usize, copy: bool },
    Remove { target: u64 },
    RemoveMissing { from: u64, name: String },
    Free { target: u64 },
    Rename { target: u64, name: String },
    Queue, Terminate, Pause, Unpause,
    SetMode { target: u64, mode: ProcessMode },
    Single { target: u64, name: String },
    Post { from: Option<u64>, level: u8, text: String },
    TakePtr { from: u64, target: u64 },
    SaveBranch { target: u64 },
    StashBuild { desc: SDesc },
    StashLoad { desc: SDesc },
    StashClone { at: usize },
    StashDrop { at: usize },
    Paths,
    Types,
    Aside,
    Sleep { us: u64 }
}

fn pick_target(w: &mut World, from: Option<u64>) -> Option<u64> {
    let ins = w.ins();
    if ins.is_empty() { return None; }
    if let Some(f) = from {
        match w.rng.below(10) {
            0 | 1 => return Some(f),
            2 => if let Some(p) = w.nodes[&f].parent { return Some(p); },
            3 => { let c = w.chain(f); return Some(*w.rng.pick(&c)); },
            4 => if let Some(p) = w.nodes[&f].parent { let c = w.nodes[&p].children.clone(); return Some(*w.rng.pick(&c)); },
            5 => { let c = w.nodes[&f].children.clone(); if !c.is_empty() { return Some(*w.rng.pick(&c)); } },
            _ => ()
        }
    }
    // Recent nodes are a little more likely, so that something is done to nodes that are being added.
    if w.rng.chance(25) { return ins.last().copied(); }
    Some(*w.rng.pick(&ins))
}

fn gen_op(w: &mut World, from: Option<u64>, in_hook: bool) -> Option<Op> {
    w.budget -= 1;
    let ins = w.ins().len();
    if ins == 0 { return None; }
    let names: Vec<&'static str> = w.profile.weights.keys().copied().collect();
    let weights: Vec<u32> = w.profile.weights.values().copied().collect();
    let kind = names[w.rng.weighted(&weights)];
    let full = ins >= w.profile.max_nodes;
    let odd  = w.profile.odd_names;
    let target = pick_target(w, from)?;
    let non_root = |w: &mut World| -> Option<u64> {
        for _ in 0..4 {
            let t = pick_target(w, from)?;
            if t != w.root { return Some(t); }
        }
        None
    };
    Some(match kind {
        "add_single" if !full => {
            let mut next = w.next_uid;
            let mut d = gen_desc(&mut w.rng, 1, 30, odd, &mut next);
            d.is_owner = false;
            w.next_uid = next;
            if w.rng.chance(15) {
                let of = pick_target(w, Some(target))?;
                (d.ty, d.payload, d.name) = (w.nodes[&of].ty, w.nodes[&of].payload.clone(), w.name(of));
                return Some(Op::AddCopy { parent: target, of, desc: d });
            }
            d.is_owner = w.rng.chance(15); // Only by way of a pointer.
            Op::Add { parent: target, desc: d, single: true }
        },
        "add_scene" if !full => {
            let mut next = w.next_uid;
            let size = w.rng.range(1, 7);
            let d = gen_desc(&mut w.rng, size, 30, odd, &mut next);
            w.next_uid = next;
            Op::Add { parent: target, desc: d, single: false }
        },
        "add_stash" if !full && !w.stash.is_empty() => {
            let at = w.rng.below(w.stash.len());
            let copy = w.rng.chance(40);
            Op::AddStash { parent: target, at, copy }
        },
        "remove" => Op::Remove { target: non_root(w)? },
        "remove_missing" => {
            let have: Vec<String> = w.nodes[&target].children.iter().map(|&c| w.name(c)).collect();
            let name = gen_name(&mut w.rng, odd);
            if have.contains(&name) { return None; }
            Op::RemoveMissing { from: target, name }
        },
        "free" => Op::Free { target: non_root(w)? },
        "free_root" => Op::Free { target: w.root },
        "rename" => {
            let name = if w.rng.chance(40) {
                let s = pick_target(w, Some(target))?;
                let s = if w.rng.chance(50) { w.nodes[&target].parent.map(|p| { let c = w.nodes[&p].children.clone(); *w.rng.pick(&c) }).unwrap_or(s) } else { s };
                let n = w.name(s);
                if w.rng.chance(12) { other_case(&n) } else { n }
            } else { gen_name(&mut w.rng, odd) };
            Op::Rename { target, name }
        },
        "queue" => Op::Queue, "terminate" => Op::Terminate, "pause" => Op::Pause, "unpause" => Op::Unpause,
        "set_mode" => Op::SetMode { target, mode: *w.rng.pick(&[ProcessMode::Inherit, ProcessMode::Inherit, ProcessMode::Always, ProcessMode::Pausable, ProcessMode::Inverse]) },
        "single" => {
            let name = match w.rng.below(20) {
                0..=12  => w.rng.pick(&["S1", "S2", "S3", "S4", "A", "./S5", ""]).to_string(),
                13..=16 => w.rng.pick(&["s1", "S1 ", " S2", "S01", "S", "S11", "s1\n", "S1/S2", "\u{17f}1", "Ｓ1", "a", "A ", ".", ".."]).to_string(),
                17      => { let n = w.rng.range(20, 200); "S".repeat(n) },
                _       => gen_name(&mut w.rng, 5)
            };
            Op::Single { target, name }
        },
        "post" | "post_panic" => {
            let level = if kind == "post_panic" { 3 } else { w.rng.below(3) as u8 };
            let r = &mut w.rng;
            let tail = match r.below(400) {
                0       => "long ".repeat(r.range(30, 4000)),
                1..=20  => "€".repeat(r.range(20, 300)),
                21..=60 => r.pick(&[" ", "  end  ", "\t", "\n", "\n\n", "a | b | c\n", "\r\n", "\u{1b}[31mred", "\u{0}", " | INFO | ", "]\n<", "trail \n "]).to_string(),
                _       => gen_payload(r)
            };
            let head = if r.chance(12) { *r.pick(&[" ", "   ", "\t", "\n", "\r\n", "| ", "<", "[", "\u{a0}", "\u{feff}"]) } else { "" };
            w.post_no += 1;
            let text = if r.chance(4) { r.pick(&["", " ", "\n", "0", "NodeTree", "None"]).to_string() } else { format!("{head}msg#{};{tail}", w.post_no) };
            Op::Post { from: Some(target), level, text }
        },
        "take_ptr" => { let from = pick_target(w, from)?; Op::TakePtr { from, target } },
        "save_branch" => Op::SaveBranch { target },
        "stash_build" | "stash_load" if w.stash.len() < 6 => {
            let mut next = w.next_uid;
            let size = w.rng.range(1, 6);
            let d = gen_desc(&mut w.rng, size, 30, odd, &mut next);
            w.next_uid = next;
            if kind == "stash_build" { Op::StashBuild { desc: d } } else { Op::StashLoad { desc: d } }
        },
        "stash_clone" if !w.stash.is_empty() && w.stash.len() < 6 => Op::StashClone { at: w.rng.below(w.stash.len()) },
        "stash_drop" if !w.stash.is_empty() => Op::StashDrop { at: w.rng.below(w.stash.len()) },
        "paths" => Op::Paths,
        "types" => Op::Types,
        "aside" => Op::Aside,
        "sleep" if !w.profile.deterministic && !in_hook => Op::Sleep { us: match w.rng.below(1500) {
            0      => w.rng.range(1_050_000, 2_100_000) as u64,
            1..=16 => w.rng.range(110_000, 300_000) as u64,
            17..=100 => w.rng.range(16_000, 40_000) as u64,
            _      => w.rng.range(300, 2500) as u64
        } },
        "sleep" if !w.profile.deterministic && w.rng.chance(20) => Op::Sleep { us: w.rng.range(300, 1500) as u64 },
        _ => return None
    })
}

/// What an operation is about; an operation that unexpectedly panics breaks these.
fn op_tags(op: &Op) -> Tags {
    match op {
        Op::Add { .. } | Op::AddStash { .. } | Op::AddCopy { .. } => &["C05", "C02"],
        Op::Remove { .. } | Op::RemoveMissing { .. } | Op::Free { .. } => &["C09", "C01"],
        Op::Rename { .. }                               => &["C02"],
        Op::Queue | Op::Terminate                       => &["C10"],
        Op::Pause | Op::Unpause | Op::SetMode { .. }    => &["C07"],
        Op::Single { .. }                               => &["C21"],
        Op::Post { .. }                                 => &["C22"],
        Op::TakePtr { .. } | Op::Types                  => &["C03"],
        Op::SaveBranch { .. }                           => &["C18"],
        Op::StashBuild { .. } | Op::StashDrop { .. }    => &["C05"],
        Op::StashLoad { .. }                            => &["C16"],
        Op::StashClone { .. }                           => &["C20"],
        Op::Paths                                       => &["C04"],
        Op::Aside                                       => &["C01", "C06", "C31"],
        Op::Sleep { .. }                                => &[]
    }
}

thread_local! { static DOING: RefCell<Vec<Tags>> = const { RefCell::new(Vec::new()) }; }

fn perform(op: Op, via: Option<&mut dyn Node>) {
    let shown = match &op {
        Op::Add { parent, desc, single } => format!("add{} to #{parent}: {}", if *single { " single" } else { "" }, desc.show()),
        Op::StashBuild { desc } => format!("build {}", desc.show()),
        Op::StashLoad { desc } => format!("build, save and load {}", desc.show()),
        Op::Sleep { .. } => "sleep".to_string(),
        other => format!("{other:?}")
    };
    w(|w| { w.ops_done += 1; w.log(shown); });
    count("operations");
    let depth = DOING.with(|d| { let mut d = d.borrow_mut(); d.push(op_tags(&op)); d.len() });
    perform_(op, via);
    DOING.with(|d| d.borrow_mut().truncate(depth - 1));
}

fn perform_(op: Op, via: Option<&mut dyn Node>) {
    let via_uid = via.as_ref().and_then(|n| ident(&**n)).map(|i| i.uid);
    // Uses the hook's own reference to its node where that is what is operated on.
    macro_rules! node { ($uid:expr) => {{
        let uid: u64 = $uid;
        match via {
            Some(n) if via_uid == Some(uid) => unsafe { &mut *(n as *mut dyn Node) },
            _ => match real(uid) { Some(n) => n, None => return w(|w| w.fail(&["C01"], format!("node #{uid} cannot be looked up"))) }
        }
    }} }
    let mut after: Tags = &[];
    match op {
        Op::Add { parent, desc, single } => {
            let mut batch = Vec::new();
            w(|w| {
                w.insert_desc(&desc, Some(parent), false, &mut batch);
                w.ctx.push(Ctx::Add { cursor: batch.len(), batch, just_loaded: None });
            });
            let n = node!(parent);
            if single && (desc.is_owner || w(|w| w.rng.chance(10))) {
                let child = desc.clone();
                let rid = with_class!(child.ty, T => {
                    let mut c = with_uid(child.uid, || T::new(child.uid, child.payload.clone()));
                    c.set_name(&child.name);
                    let c: Box<dyn Node> = Box::new(c);
                    unsafe { n.add_child_from_ptr(Box::into_raw(c), child.is_owner, false) }
                });
                count("added_by_pointer");
                if let Some(have) = real(child.uid).map(|n| n.rid()).filter(|&have| have != rid) {
                    w(|w| w.fail(&["C01", "C03"], format!("adding #{} gives the identifier {rid}, while it has {have}", child.uid)));
                }
            } else if single {
                let child = desc.clone();
                with_class!(child.ty, T => {
                    let mut c = with_uid(child.uid, || T::new(child.uid, child.payload.clone()));
                    c.set_name(&child.name);
                    n.add_child(c);
                });
            } else {
                n.add_child(build(&desc));
            }
            end_add();
            after = &["C05"];
        },
        Op::AddCopy { parent, of, desc } => {
            // A copy of a node as it is in the tree, which may be in the middle of anything.
            let Some(orig) = real(of) else { return w(|w| w.fail(&["C01"], format!("node #{of} cannot be looked up"))) };
            with_class!(desc.ty, T => {
                let Some(orig) = orig.as_any_ref().downcast_ref::<T>() else { return w(|w| w.fail(&["C03", "C27"], format!("node #{of} is not of its type"))) };
                let mut c: T = orig.clone();
                *c.uid = desc.uid;
                c.token.bind(desc.uid);
                if c.in_tree() || c.is_root() || c.is_owner() || c.has_just_loaded() || c.name() != desc.name { w(|w| w.fail(&["C32", "C20", "C08"], format!("a copy of #{of} is {c:?}"))); }
                if *c.payload != desc.payload { w(|w| w.fail(&["C26", "C20"], format!("a copy of #{of} holds {:?} and not {:?}", *c.payload, desc.payload))); }
                let mut batch = Vec::new();
                w(|w| {
                    w.insert_desc(&desc, Some(parent), true, &mut batch);
                    w.ctx.push(Ctx::Add { cursor: batch.len(), batch, just_loaded: None });
                });
                node!(parent).add_child(c);
            });
            count("copies_added");
            end_add();
            after = &["C05", "C20"];
        },
        Op::AddStash { parent, at, copy } => {
            let (scene, mut desc) = w(|w| { let i = at.min(w.stash.len() - 1); w.stash.swap_remove(i) });
            let scene = if copy {
                let c = scene.clone();
                w(|w| w.stash.push((scene, desc.clone())));
                c
            } else { scene };
            let mut next = w(|w| w.next_uid);
            retag(&scene, &mut desc, &mut next);
            let mut batch = Vec::new();
            w(|w| {
                w.next_uid = next;
                w.insert_desc(&desc, Some(parent), false, &mut batch);
                w.ctx.push(Ctx::Add { cursor: batch.len(), batch, just_loaded: None });
            });
            node!(parent).add_child(scene);
            end_add();
            after = &["C05", "C16", "C18", "C20"];
        },
        Op::Remove { target } => {
            let (parent, name) = w(|w| (w.nodes[&target].parent.unwrap(), w.name(target)));
            w(|w| w.ctx.push(Ctx::Removal { target, reason: TerminationReason::RemovedAsChild }));
            let ok = node!(parent).remove_child(&name);
            end_removal(target);
            if !ok { w(|w| w.fail(&["C01", "C09"], format!("removing the child {name:?} of #{parent} says that there is none"))); }
        },
        Op::RemoveMissing { from, name } => {
            w(|w| w.ctx.push(Ctx::Quiet { what: "the removal of a child that does not exist", tags: &["C09", "C01"] }));
            let ok = node!(from).remove_child(&name);
            w(|w| { w.ctx.pop(); if ok { w.fail(&["C01", "C09"], format!("removing a child {name:?} of #{from}, which has none of that name, says that it was removed")); } });
        },
        Op::Free { target } => {
            w(|w| w.ctx.push(Ctx::Removal { target, reason: TerminationReason::Freed }));
            node!(target).free();
            end_removal(target);
        },
        Op::Rename { target, name } => {
            w(|w| w.ctx.push(Ctx::Quiet { what: "a renaming", tags: &["C02", "C08", "C09"] }));
            let n = node!(target);
            n.set_name(&name);
            let got = n.name().to_string();
            w(|w| {
                w.ctx.pop();
                let siblings: Vec<String> = match w.nodes[&target].parent {
                    Some(p) => w.nodes[&p].children.iter().filter(|&&c| c != target).map(|&c| w.name(c)).collect(),
                    None    => Vec::new()
                };
                if !siblings.contains(&name) {
                    if got != name { return w.fail(&["C02"], format!("node #{target} was renamed to {name:?}, which no sibling has, and is now called {got:?}")); }
                    count("names_kept");
                } else {
                    if siblings.contains(&got) { return w.fail(&["C02"], format!("node #{target} was renamed to {name:?} and is now called {got:?} like a sibling")); }
                    if !got.starts_with(stem(&name)) { return w.fail(&["C02"], format!("node #{target} was renamed to {name:?} and is called {got:?}, which is not derived from that")); }
                    count("names_made_unique");
                }
                w.nodes.get_mut(&target).unwrap().name = Some(got);
            });
            after = &["C02"];
        },
        Op::Queue => {
            tree().queue_termination();
            w(|w| if let MStatus::Process(p) = w.status { w.status = MStatus::Queued(p) });
        },
        Op::Terminate => { tree().terminate(); w(|w| w.status = MStatus::Terminated); },
        Op::Pause | Op::Unpause => {
            let p = matches!(op, Op::Pause);
            if p { tree().pause(); } else { tree().unpause(); }
            w(|w| match w.status {
                MStatus::Process(_) => w.status = MStatus::Process(p),
                MStatus::Queued(_)  => w.status = MStatus::Queued(p),
                _ => ()
            });
        },
        Op::SetMode { target, mode } => w(|w| {
            w.nodes.get_mut(&target).unwrap().mode = mode;
            if let Some(f) = &mut w.frame { f.mode_changed.insert(target); }
        }),
        Op::Single { target, name } => {
            let (must_fail, other_alias) = w(|w| {
                if !w.single_names.contains(&name) { w.single_names.push(name.clone()); }
                (w.latest.values().any(|v| *v == name), w.singles.contains_key(&name) && !w.latest.values().any(|v| *v == name))
            });
            w(|w| w.ctx.push(Ctx::Quiet { what: "the registration of a singleton", tags: &["C21"] }));
            let ok = node!(target).register_as_singleton(name.clone());
            w(|w| {
                w.ctx.pop();
                if must_fail && ok { return w.fail(&["C21"], format!("node #{target} was registered as {name:?}, which is the name of a live node")); }
                if !must_fail && !other_alias && !ok { return w.fail(&["C21"], format!("node #{target} was refused the name {name:?}, which no live node has")); }
                if ok { w.singles.insert(name.clone(), target); w.latest.insert(target, name); count("singletons_registered"); } else { count("singletons_refused"); }
            });
        },
        Op::Post { from, level, text } => {
            let from = from.unwrap();
            let n = node!(from);
            w(|w| w.ctx.push(Ctx::Quiet { what: "the posting of a message", tags: &["C22", "C10"] }));
            let len = tree().get_log().len();
            match (level, w(|w| w.rng.below(4))) {
                (0, 0) => debug!(n, "{}", text), (0, 1) => debug!(n, "{text}"), (0, _) => n.post(Log::Debug(&text)),
                (1, 0) => info!(n, "{}", text),  (1, 1) => info!(n, "{text}"),  (1, _) => n.post(Log::Info(&text)),
                (2, 0) => warn!(n, "{}", text),  (2, 1) => warn!(n, "{text}"),  (2, _) => n.post(Log::Warn(&text)),
                (_, 0) => error!(n, "{}", text), (_, 1) => error!(n, "{text}"), (_, _) => n.post(Log::Panic(&text))
            }
            w(|w| {
                w.ctx.pop();
                let system = match w.latest.get(&from) {
                    Some(name) => name.clone(),
                    None => {
                        let path: Vec<String> = w.chain(from).iter().rev().map(|&u| w.name(u)).collect();
                        format!("[{}]", path.join("/").split('/').filter(|s| !s.is_empty()).collect::<Vec<_>>().join("/"))
                    }
                };
                let lv = ["DEBUG", "INFO", "WARN", "PANIC!"][level as usize];
                let through = match w.verbosity { 0 => true, 1 => level > 0, 2 => level > 1, _ => level > 2 };
                let mark = format!(" | {lv} | {text}");
                let new = tree().get_log().get(len..).unwrap_or("(shorter)");
                if !through && !new.is_empty() { return w.fail(&["C22"], format!("a {lv} message that its verbosity does not let through has added {new:?} to the log")); }
                if through {
                    // The line itself, behind the time, and nothing else.
                    let line = format!(" | {system}{mark}\n");
                    let rest = new.char_indices().nth(25).map(|(i, _)| new.split_at(i));
                    let good = rest.is_some_and(|(time, rest)| is_time(time) && if level == 3 { rest.starts_with(&line) } else { rest == line });
                    if !good {
                        let cut = |s: &str| s.chars().take(300).collect::<String>();
                        return w.fail(&["C22"], format!("the message {:?} has added {:?} to the log instead of {:?}", cut(&text), cut(new), cut(&line)));
                    }
                    w.posts.push((format!(" | {system}{mark}\n"), mark));
                    count("messages_let_through");
                } else {
                    count("messages_held_back");
                    let tag = text.find("msg#").map(|i| &text[i..text.find(';').unwrap() + 1]);
                    if tag.is_some_and(|tag| tree().get_log().contains(tag)) { w.fail(&["C22"], format!("the log holds a {lv} message that its verbosity does not let through")); }
                }
                if level == 3 { w.status = MStatus::Terminated; }
            });
            if w(|w| !w.broken) {
                if let Err((t, m)) = check_log() { w(|w| w.fail(Box::leak(t.into_boxed_slice()), m)); }
            }
        },
        Op::TakePtr { from, target } => take_ptr(from, target),
        Op::SaveBranch { target } => {
            let want = w(|w| branch_desc(w, target, true));
            w(|w| w.ctx.push(Ctx::Quiet { what: "the saving of a branch", tags: &["C18"] }));
            let scene = node!(target).save_as_branch();
            w(|w| w.ctx.pop());
            match flatten(&scene) {
                None => w(|w| w.fail(&["C18"], format!("the branch of #{target} was saved with a node of an unknown type"))),
                Some(have) => {
                    if let Some(diff) = want.differs(&have, true) { w(|w| w.fail(&["C18"], format!("the saved branch of #{target}: {diff}"))); }
                    count("branches_saved");
                    if w(|w| w.stash.len() < 6) { w(|w| w.stash.push((scene, want))); } else { drop(scene); }
                }
            }
            after = &["C18"];
        },
        Op::StashBuild { desc } => { let s = build(&desc); w(|w| w.stash.push((s, desc))); },
        Op::StashLoad { mut desc } => {
            let s = build(&desc);
            w(|w| w.ctx.push(Ctx::Quiet { what: "saving and loading", tags: &["C16"] }));
            let text = s.save_to_str();
            let loaded = text.clone().and_then(|t| NodeScene::load_from_str(&t));
            w(|w| w.ctx.pop());
            drop(s);
            match loaded {
                Err(e) => w(|w| w.fail(&["C16"], format!("a scene cannot be saved and loaded: {e}"))),
                Ok(l) => {
                    desc.set_from_disk(true);
                    match flatten(&l).map(|h| desc.differs(&h, true)) {
                        Some(None) => w(|w| w.stash.push((l, desc))),
                        other => w(|w| w.fail(&["C16"], format!("a scene was loaded differently: {other:?}")))
                    }
                }
            }
        },
        Op::StashClone { at } => {
            let (s, d) = w(|w| { let i = at.min(w.stash.len() - 1); w.stash.swap_remove(i) });
            let c = s.clone();
            match flatten(&c).map(|h| d.differs(&h, true)) {
                Some(None) => (),
                other => w(|w| w.fail(&["C20"], format!("a scene was cloned differently: {other:?}")))
            }
            w(|w| { w.stash.push((s, d.clone())); w.stash.push((c, d)); });
        },
        Op::StashDrop { at } => {
            let (s, d) = w(|w| { let i = at.min(w.stash.len() - 1); w.stash.swap_remove(i) });
            // What is taken apart must not have changed in the meantime.
            match flatten(&s).map(|h| d.differs(&h, true)) {
                Some(None) => (),
                other => w(|w| w.fail(&["C18", "C20"], format!("a scene has changed by itself: {other:?}")))
            }
            drop(s);
        },
        Op::Paths => if let Err((t, m)) = check_paths() { w(|w| w.fail(Box::leak(t.into_boxed_slice()), m)) },
        Op::Types => if let Err((t, m)) = check_types() { w(|w| w.fail(Box::leak(t.into_boxed_slice()), m)) },
        Op::Aside => {
            w(|w| w.ctx.push(Ctx::Quiet { what: "something done to another tree", tags: &["C01", "C06", "C08", "C09"] }));
            let mut r = w(|w| Rng::new(w.rng.u64()));
            let log = tree().get_log().len();
            let done = crate::aside::step(&mut r);
            w(|w| { w.ctx.pop(); });
            if let Err((t, m)) = done { w(|w| w.fail(Box::leak(t.into_boxed_slice()), m)); }
            else if tree().get_log().len() != log { w(|w| w.fail(&["C22"], "something done to another tree has changed the log of this one".into())); }
        },
        Op::Sleep { us } => std::thread::sleep(Duration::from_micros(us))
    }
    if w(|w| w.broken) { return; }
    if w(|w| w.due(w.ops_done, 8)) { check_tree(after, "after an operation"); }
    check_strays();
}

/// The description of a live branch.
fn branch_desc(w: &World, uid: u64, root: bool) -> SDesc {
    let n = &w.nodes[&uid];
    SDesc {
        ty: n.ty, uid, name: n.name.clone().unwrap_or_else(|| n.want.clone()), payload: n.payload.clone(),
        is_owner: root || n.owner == Some(uid), from_disk: false,
        children: n.children.iter().map(|&c| branch_desc(w, c, false)).collect()
    }
}

fn end_add() {
    w(|w| {
        let Some(Ctx::Add { batch, cursor, just_loaded }) = w.ctx.pop() else { return w.broken = true };
        if w.broken { return; }
        if let Some(jl) = just_loaded {
            if w.is_in(jl) { return w.fail(&["C08"], format!("ready() is not called on node #{jl} after loaded()")); }
        }
        if let Some(&missed) = batch[..cursor].iter().rev().find(|&&b| w.is_in(b)) {
            w.fail(&["C08"], format!("ready() is not called on node #{missed}"));
        }
    });
    recheck(&["C05"]);
}

fn end_removal(target: u64) {
    w(|w| {
        w.ctx.pop();
        if w.broken && !w.recheck { return; }
        if w.is_in(target) {
            let branch = w.below(target);
            if let Some(&m) = branch.iter().find(|u| w.nodes[u].terminal == 0) {
                w.fail(&["C09"], format!("terminal() is not called on node #{m} when #{target} is removed"));
            }
            count("branches_removed");
            add("nodes_removed", branch.len() as u64);
            w.leave(target);
        }
    });
    recheck(&[]);
}

fn take_ptr(from: u64, target: u64) {
    let from_node: &'static mut dyn Node = match real(from) { Some(n) => n, None => return };
    let (rid, ty, path) = w(|w| (w.nodes[&target].rid, w.nodes[&target].ty, abs_path(w, target)));
    let Some(rid) = rid else { return };
    let how = w(|w| w.rng.below(4));
    let t: *mut dyn NodeTree = tree();
    let dynp: TpDyn<'static> = match how {
        0 => match real(target) { Some(n) => n.this_dyn(), None => return },
        1 if path.is_some() => match from_node.get_node_dyn(NodePath::from_str(&path.unwrap())).to_result() { Ok(p) => p, Err(e) => return w(|w| w.fail(&["C04", "C03"], format!("#{target} cannot be reached by its path: {e:?}"))) },
        _ => match unsafe { TpDyn::new(t, from, rid) }.to_result() { Ok(p) => p, Err(e) => return w(|w| w.fail(&["C03"], format!("no pointer to the live #{target} can be made: {e:?}"))) }
    };
    let mut h = Held { uid: target, dynp, a: None, b: None, c: None };
    macro_rules! typed { ($t:ty, $f:ident) => {
        match h.dynp.to::<$t>().to_result() { Ok(p) => h.$f = Some(p), Err(e) => return w(|w| w.fail(&["C03"], format!("no typed pointer to #{target}: {e:?}"))) }
    } }
    match ty { 0 => typed!(NodeA, a), 1 => typed!(NodeB, b), _ => typed!(NodeC, c) }
    count("pointers_taken");
    w(|w| { if w.held.len() > 12 { w.held.remove(0); } w.held.push(h) });
}

fn addressable(name: &str) -> bool { !name.is_empty() && !name.contains('/') && name != "." && name != ".." }

/// The absolute path of a node, if all names on it can be written as a segment.
fn abs_path(w: &World, uid: u64) -> Option<String> {
    let names: Vec<String> = w.chain(uid).iter().rev().map(|&u| w.name(u)).collect();
    if names.iter().all(|n| addressable(n)) { Some(format!("/{}", names.join("/"))) } else { None }
}

fn check_paths() -> CResult {
    for _ in 0..4 {
        let (from, to, path) = w(|w| { let ins = w.ins(); let (f, t) = (*w.rng.pick(&ins), *w.rng.pick(&ins)); (f, t, abs_path(w, t)) });
        let (from_node, to_node) = (real(from).unwrap(), real(to).unwrap());
        let own = to_node.get_absolute_path();
        if let Some(path) = path {
            count("absolute_paths");
            if !own.is_absolute() { return Err((vec!["C04"], format!("the absolute path of #{to} is {own:?}, which is not absolute"))); }
            for p in [own.clone(), NodePath::from_str(&path), NodePath::from_str(&own.clone().to_string())] {
                match from_node.get_node_dyn(p.clone()).to_result() {
                    Ok(n) if ident(n.get()).map(|i| i.uid) == Some(to) => (),
                    other => return Err((vec!["C04"], format!("the path {p:?} of #{to} leads from #{from} to {:?}", other.map(|n| ident(n.get())))))
                }
                if tree().get_node_rid(p.clone(), None) != w(|w| w.nodes[&to].rid) { return Err((vec!["C04"], format!("the path {p:?} of #{to} does not lead to it without a caller"))); }
            }
        }

        // A path of random segments, followed by hand.
        let (text, want) = w(|w| {
            let abs = w.rng.chance(30);
            let n = w.rng.range(if abs { 1 } else { 0 }, 6);
            let mut at: Option<u64> = Some(from);
            let mut text = String::new();
            if abs { text.push('/'); }
            let mut first = abs;
            for i in 0..n {
                if i > 0 { text.push('/'); if w.rng.chance(10) { text.push('/'); } }
                let seg: String = if first {
                    if w.rng.chance(80) { w.name(w.root) } else if w.rng.chance(20) { other_case(&w.name(w.root)) } else { gen_name(&mut w.rng, 0) }
                } else {
                    match w.rng.below(10) {
                        0 | 1 => ".".into(), 2 | 3 => "..".into(),
                        4     => gen_name(&mut w.rng, 0),
                        _     => match at.map(|a| w.nodes[&a].children.clone()) {
                            Some(c) if !c.is_empty() => {
                                let k = *w.rng.pick(&c);
                                let n = w.name(k);
                                match w.rng.below(60) { 0 => other_case(&n), 1 => n.chars().take(8).collect(), 2 => format!("{n} "), 3 => stem(&n).to_string(), _ => n }
                            },
                            _ => "..".into()
                        }
                    }
                };
                if seg.is_empty() || seg.contains('/') || (first && !addressable(&seg)) { return (None, None); }
                text += &seg;
                at = if first {
                    first = false;
                    if seg == w.name(w.root) { Some(w.root) } else { None }
                } else {
                    match (at, seg.as_str()) {
                        (None, _)       => None,
                        (Some(a), ".")  => Some(a),
                        (Some(a), "..") => w.nodes[&a].parent,
                        (Some(a), s)    => w.nodes[&a].children.iter().copied().find(|&c| w.name(c) == s)
                    }
                };
            }
            if w.rng.chance(15) && !text.is_empty() { text.push('/'); }
            (Some(text), at)
        });
        let Some(text) = text else { continue };
        count(if want.is_some() { "paths_resolved" } else { "paths_without_target" });
        let p = NodePath::from_str(&text);
        let got = from_node.get_node_dyn(p.clone()).to_result().ok().map(|n| ident(n.get()).map(|i| i.uid).unwrap_or(u64::MAX));
        if got != want { return Err((vec!["C04"], format!("the path {text:?} leads from #{from} to {got:?} and not to {want:?}"))); }
        let again = NodePath::from_str(&p.clone().to_string());
        if again != p { return Err((vec!["C04"], format!("the path {text:?} is {p:?}, and {again:?} once turned into text and back"))); }
        // The same path put together one segment at a time, and taken apart again.
        let segs: Vec<&str> = text.split('/').collect();
        let at = w(|w| w.rng.below(segs.len() + 1));
        let mut built = match (at, text.starts_with('/')) { (0, true) => NodePath::new_abs(), (0, false) => NodePath::new(), _ => NodePath::from_str(&segs[..at].join("/")) };
        if at == 1 && text.starts_with('/') { built = nodepath!("/"); }
        for seg in &segs[at..] { built.add_node(seg); }
        if built != p || built.is_absolute() != text.starts_with('/') || nodepath!("{}", text) != p { return Err((vec!["C04"], format!("the path {text:?} is {p:?}, but {built:?} when {at} of its segments are given as text and the others are added"))); }
        let got = from_node.get_node_dyn(built.clone()).to_result().ok().map(|n| ident(n.get()).map(|i| i.uid).unwrap_or(u64::MAX));
        if got != want { return Err((vec!["C04"], format!("the path {text:?} leads to {got:?} and not to {want:?} when its segments are added one at a time"))); }
        let mut parts = Vec::new();
        while let Some(part) = built.pop_front_as_string() { parts.push(part); }
        if parts.iter().map(|p| p.as_str()).ne(segs.iter().copied().filter(|s| !s.is_empty())) { return Err((vec!["C04"], format!("the path {text:?} is taken apart into {parts:?}"))); }
        count("paths_put_together");
        if let Some(want) = want {
            let ty = w(|w| w.nodes[&want].ty);
            macro_rules! typed { ($n:expr, $t:ty) => {
                match from_node.get_node::<$t>(p.clone()).to_result() {
                    Ok(x) if $n == ty => if *x.get().uid != want { return Err((vec!["C04", "C03"], format!("the path {text:?} leads to another node when a type is given"))); },
                    Err(NodeError::TPError(TPError::WrongType)) if $n != ty => (),
                    other => return Err((vec!["C03"], format!("asking for node #{want} as a {} gives {:?}", CLASS_NAMES[$n as usize], other.map(|_| "access"))))
                }
            } }
            typed!(0, NodeA); typed!(1, NodeB); typed!(2, NodeC);
        } else if from_node.get_node::<NodeA>(p.clone()).to_result().is_ok() {
            return Err((vec!["C04"], format!("the path {text:?} leads nowhere, and to a node when a type is given")));
        }
    }
    Ok(())
}

fn check_types() -> CResult {
    let (u, ty, pty, oty, kids) = w(|w| {
        let ins = w.ins();
        let u = *w.rng.pick(&ins);
        let n = &w.nodes[&u];
        (u, n.ty, n.parent.map(|p| w.nodes[&p].ty), n.owner.map(|p| w.nodes[&p].ty), n.children.iter().map(|c| w.nodes[c].ty).collect::<Vec<_>>())
    });
    let n = real(u).unwrap();
    let p = n.this_dyn();
    macro_rules! each { ($k:expr, $t:ty) => {{
        count("type_questions");
        let bad = |what: &str| Err((vec!["C03"], format!("node #{u}: {what} as a {} is not decided by its type", CLASS_NAMES[$k as usize])));
        let yes = |r: Result<(), TPError>, is: bool| if is { r.is_ok() } else { r == Err(TPError::WrongType) };
        let ny = |r: Result<(), NodeError>, is: bool| if is { r.is_ok() } else { r == Err(NodeError::TPError(TPError::WrongType)) };
        if !yes(p.to::<$t>().to_result().map(|_| ()), $k == ty) || p.is::<$t>() != ($k == ty) { return bad("the node"); }
        match pty {
            Some(t) => if !ny(n.parent::<$t>().to_result().map(|_| ()), $k == t) { return bad("the parent"); },
            None    => if n.parent::<$t>().to_result().map(|_| ()) != Err(NodeError::NoParent) { return bad("the missing parent"); }
        }
        if let Some(t) = oty { if !ny(n.owner::<$t>().to_result().map(|_| ()), $k == t) { return bad("the owner"); } }
        for (i, t) in kids.iter().enumerate() {
            if !ny(n.get_child::<$t>(i).to_result().map(|_| ()), $k == *t) { return bad("a child"); }
        }
        if !matches!(n.get_child::<$t>(kids.len()).to_result().map(|_| ()), Err(NodeError::IndexOutOfRange { .. })) { return bad("a missing child"); }
    }} }
    each!(0, NodeA); each!(1, NodeB); each!(2, NodeC);
    Ok(())
}

// ------------------------------------------------------------------------------------- frames

fn run_frame() {
    let active = w(|w| {
        let active = w.status != MStatus::Terminated;
        let order = w.preorder();
        let index = order.iter().enumerate().map(|(i, &u)| (u, i)).collect();
        w.log(format!("FRAME in {:?}", w.status));
        w.frame = Some(FrameRec { order, index, cursor: 0, seen: HashSet::new(), delta: None, first: None, enter: Instant::now(), mode_changed: HashSet::new(), hooks: 0, excused: HashSet::new(), early_parents: HashSet::new() });
        w.ctx.push(Ctx::Frame { active });
        active
    });
    DOING.with(|d| d.borrow_mut().push(&["C06", "C10"]));
    let got = tree().process();
    let exit = Instant::now();
    DOING.with(|d| d.borrow_mut().clear());
    count(if active { "frames" } else { "frames_after_the_end" });
    w(|w| {
        w.ctx.pop();
        if w.broken { w.frame = None; return; }
        if active {
            let rest: Vec<u64> = { let f = w.frame.as_ref().unwrap(); f.order[f.cursor..].to_vec() };
            for s in rest { must_have_been_visited(w, s); }
        }
        let f = w.frame.take().unwrap();
        if w.broken { return; }
        if active { w.prev_delta = Some((f.enter, f.first.unwrap_or(exit))); }
        let before = w.status;
        w.status = match before {
            MStatus::Queued(_)   => MStatus::Terminating,
            MStatus::Terminating => MStatus::Terminated,
            s => s
        };
        if before != w.status { count(if w.status == MStatus::Terminated { "orderly_terminations" } else { "terminations_begun" }); }
        let want = match w.status {
            MStatus::Process(false) => TreeStatus::Process(TreeProcess::Running),
            MStatus::Process(true)  => TreeStatus::Process(TreeProcess::Paused),
            MStatus::Queued(false)  => TreeStatus::QueuedTermination(TreeProcess::Running),
            MStatus::Queued(true)   => TreeStatus::QueuedTermination(TreeProcess::Paused),
            MStatus::Terminating    => TreeStatus::Terminating,
            MStatus::Terminated     => TreeStatus::Terminated
        };
        if got != want { return w.fail(&["C10", "C07"], format!("a frame returns {got:?} and not {want:?}")); }
        if got.is_active() == (want == TreeStatus::Terminated) || got.has_terminated() != (want == TreeStatus::Terminated) {
            return w.fail(&["C10"], format!("{got:?}: is_active() is {}", got.is_active()));
        }
        if active {
            let late: Option<u64> = w.nodes.iter().find(|(_, n)| n.place == Place::Left && !n.dropped && n.token.is_some()).map(|(&u, _)| u);
            if let Some(u) = late { return w.fail(&["C11"], format!("node #{u} left the tree and is still not dropped at the end of the frame")); }
        }
    });
    check_tree(&[], "after a frame");
    check_deep();
    if let Err((t, m)) = crate::aside::undisturbed() { w(|w| w.fail(Box::leak(t.into_boxed_slice()), m)); }
}

/// Runs one episode. Returns a hash of everything that was observed, apart from times.
pub fn episode(rng: Rng, profile: &Profile) -> u64 {
    reset_tokens();
    crate::aside::reset();
    TREE.with(|t| t.set(None));
    DOING.with(|d| d.borrow_mut().clear());
    let mut rng = rng;
    // 0: of any form, 1: wide, 2: deep.
    let form = if profile.plain { 0 } else { match rng.below(400) { 0..=2 => 1, 3..=4 => 2, _ => 0 } };
    let big = profile.big || form > 0 || rng.chance(3);
    let mut profile = profile.clone();
    profile.big = big;
    if big { profile.max_nodes = 200; }
    if form > 0 { profile.max_nodes = 700; profile.frames = (2, 5); }
    let mut next = 1;
    let size = if big { rng.range(60, 150) } else { rng.range(1, 12) };
    let root_single = form == 0 && rng.chance(20);
    let desc = match form {
        1 => { let size = if rng.chance(50) { rng.range(34, 140) } else { rng.range(129, 420) }; count("wide_trees"); gen_wide(&mut rng, size, &mut next) },
        2 => { let size = rng.range(20, 90); count("deep_trees"); gen_deep(&mut rng, size, &mut next) },
        _ => gen_desc(&mut rng, if root_single { 1 } else { size }, 25, profile.odd_names, &mut next)
    };
    let from_disk = !root_single && rng.chance(25);
    let verbosity = if rng.chance(50) { 0 } else { rng.range(1, 3) as u8 };
    let frames = rng.range(profile.frames.0, profile.frames.1);
    let root = desc.uid;
    let mut world = World {
        rng, profile, nodes: BTreeMap::new(), root, status: MStatus::Process(false), ctx: Vec::new(),
        next_uid: next, budget: if form > 0 { 60 } else if big { 150 } else { 260 }, trace: Vec::new(), broken: false, dropping: false, tree_known: false, recheck: false,
        frame: None, prev_delta: None, adds: 0, clock: 0, max_rid: 0,
        singles: BTreeMap::new(), latest: BTreeMap::new(), single_names: Vec::new(),
        posts: Vec::new(), post_no: 0, verbosity, log_seen: String::new(),
        stash: Vec::new(), held: Vec::new(), sig: 0, hooks_seen: 0, ops_done: 0, ops_in_hooks: 0
    };
    let mut batch = Vec::new();
    let mut desc = desc;
    if from_disk { desc.set_from_disk(true); }
    world.insert_desc(&desc, None, false, &mut batch);
    world.log(format!("TREE {} verbosity {verbosity}{}", desc.show(), if from_disk { " loaded" } else { "" }));
    world.ctx.push(Ctx::Add { cursor: batch.len(), batch, just_loaded: None });
    W.with(|c| *c.borrow_mut() = Some(world));

    let v = match verbosity { 0 => LoggerVerbosity::All, 1 => LoggerVerbosity::NoDebug, 2 => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics };
    let mut the_tree: Option<Box<TreeSimple>> = None;
    let result = catch_unwind(AssertUnwindSafe(|| {
        DOING.with(|d| d.borrow_mut().push(&["C05", "C08"]));
        let begin = Instant::now();
        let mut t: Box<TreeSimple> = if root_single {
            with_class!(desc.ty, T => {
                let mut n = with_uid(desc.uid, || T::new(desc.uid, desc.payload.clone()));
                n.set_name(&desc.name);
                TreeSimple::new(n, v)
            })
        } else if from_disk {
            let built = build(&desc);
            let text = built.save_to_str().expect("a scene cannot be saved");
            drop(built);
            let loaded = NodeScene::load_from_str(&text).expect("a saved scene cannot be loaded");
            TreeSimple::new(loaded, v)
        } else {
            TreeSimple::new(build(&desc), v)
        };
        let end = Instant::now();
        let raw: *mut dyn NodeTree = &mut *t;
        the_tree = Some(t);
        TREE.with(|c| c.set(Some(raw)));
        DOING.with(|d| d.borrow_mut().clear());
        w(|w| { w.tree_known = true; w.prev_delta = Some((begin, end)); });
        end_add();
        check_tree(&["C05"], "after the tree was made");
        check_deep();

        let mut after_end = 0;
        for _ in 0..frames {
            if w(|w| w.broken) { break; }
            let n = w(|w| w.rng.range(0, 4));
            for _ in 0..n {
                if w(|w| w.broken || w.budget <= 0) { break; }
                if let Some(op) = w(|w| gen_op(w, None, false)) { perform(op, None); }
                if w(|w| w.due(w.ops_done, 8)) { check_deep(); }
            }
            if w(|w| w.broken) { break; }
            run_frame();
            if w(|w| w.status == MStatus::Terminated) {
                after_end += 1;
                if after_end > 2 { break; }
            }
        }
        // An episode ends with the orderly termination of the tree, or is just dropped.
        if w(|w| !w.broken && w.rng.chance(50) && w.status != MStatus::Terminated) {
            tree().queue_termination();
            w(|w| if let MStatus::Process(p) = w.status { w.status = MStatus::Queued(p) });
            for _ in 0..3 { if w(|w| !w.broken) { run_frame(); } }
        }
    }));

    let panicked = if let Err(e) = result {
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "without a message".into());
        let at = crate::last_panic();
        let mut tags: Vec<&'static str> = DOING.with(|d| d.borrow().last().copied().unwrap_or(&[]).to_vec());
        let prop = REPORT.with(|r| r.borrow().prop.clone());
        tags.push(crate::intern(&prop));
        W.with(|c| if let Ok(mut b) = c.try_borrow_mut() { if let Some(w) = b.as_mut() {
            w.broken = false;
            w.fail(Box::leak(tags.into_boxed_slice()), format!("the library panicked: {msg} ({at})"));
        } });
        true
    } else { false };

    // The end: everything has to be gone.
    let (broken, mut held, stash) = w(|w| { w.dropping = true; (w.broken, std::mem::take(&mut w.held), std::mem::take(&mut w.stash)) });
    held.clear();
    // The leak check does not depend on what the model thinks of the tree, but dropping may be all that is wrong with it.
    let leaks_matter = crate::report::prop() == "C11";
    if panicked || broken && !leaks_matter {
        std::mem::forget(the_tree);
        std::mem::forget(stash);
    } else if broken {
        drop(the_tree);
        let known: Vec<(u64, usize)> = w(|w| w.nodes.iter().filter_map(|(&u, n)| n.token.map(|t| (u, t))).collect());
        let left: Vec<u64> = known.into_iter().filter(|&(_, t)| is_live(t)).map(|(u, _)| u).collect();
        std::mem::forget(stash);
        count("broken_trees_dropped");
        if !left.is_empty() {
            let trace = w(|w| w.trace[w.trace.len().saturating_sub(150)..].join("\n"));
            violation(&["C11"], format!("{} of the nodes that were in the tree are never dropped: {:?}", left.len(), &left[..left.len().min(5)]), trace);
        }
    } else {
        // The other tree outlives this one now and then.
        let mut aside = Ok(());
        if w(|w| w.rng.chance(50)) { aside = crate::aside::finish(); }
        drop(the_tree);
        drop(stash);
        let aside = aside.and_then(|_| crate::aside::finish());
        if let Err((t, m)) = aside { w(|w| w.fail(Box::leak(t.into_boxed_slice()), m)); }
        let left = live_tokens();
        if !left.is_empty() {
            w(|w| w.fail(&["C11"], format!("{} of the nodes are never dropped: {:?}", left.len(), &left[..left.len().min(5)])));
        } else {
            count("trees_gone_without_rest");
        }
    }
    let (sig, hooks, ops) = w(|w| (w.sig, w.hooks_seen, w.ops_done));
    if wants_sample() && hooks > 10 { sample(w(|w| w.trace[w.trace.len().saturating_sub(40)..].join("\n"))); }
    add("operations_in_hooks", w(|w| w.ops_in_hooks));
    evaluated(hooks > 0 && ops > 0, sig);
    W.with(|c| *c.borrow_mut() = None);
    TREE.with(|t| t.set(None));
    sig
}
