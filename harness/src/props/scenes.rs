//! Scenes apart from any tree: C16 saved and loaded, C17 damaged, C19 hashed, C20 cloned.

use std::cell::RefCell;
use std::collections::{ BTreeMap, HashMap };
use std::fs;
use std::path::{ Path, PathBuf };

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;
use toml_edit::{ DocumentMut, Item, Value };

use crate::engine::{ gen_name, peek };
use crate::nodes::{ live_tokens, reset_tokens, Token };
use crate::report::{ add, count, evaluated, fail, sample, violation, wants_sample };
use crate::rng::{ hash_str, Rng };

thread_local! { static EVENTS: RefCell<Vec<(char, u64)>> = const { RefCell::new(Vec::new()) }; }

fn event(what: char, uid: u64) { EVENTS.with(|e| e.borrow_mut().push((what, uid))) }

class! {
    pub declare Rich;

    pub signal sig(v: u64);

    pub const LIMIT: u64 = 12;

    pub export  let uid:    u64;
    pub export  let flag:   bool;
    pub export  let small:  i8;
    pub export  let real:   f64;
    pub export  let text:   String;
    pub export  let list:   Vec<u32>;
    pub export  let maybe:  Option<i16>;
    pub export  let pair:   (u8, String);
    pub export  let map:    HashMap<String, i32>;
    pub export  let nested: Option<Vec<(i8, bool)>>;
    pub export  let fixed:  [u16; 3];
    pub         let plain:  u64;
    pub         let words:  Vec<String>;
    pub unique  let own:    u64;
    pub default let deft:   u32;
    pub default let token:  Token;

    hk _init(uid_: u64, r: &mut Rng) {
        let uid    = uid_;
        let flag   = r.chance(50);
        let small  = r.u64() as i8;
        let real   = gen_real(r);
        let text   = gen_text(r);
        let list   = (0..r.below(4)).map(|_| r.u64() as u32).collect::<Vec<u32>>();
        let maybe  = if r.chance(50) { Some(r.u64() as i16) } else { None };
        let pair   = (r.u64() as u8, gen_text(r));
        let map    = (0..r.below(4)).map(|_| (gen_text(r), r.u64() as i32)).collect::<HashMap<String, i32>>();
        let nested = if r.chance(60) { Some((0..r.below(3)).map(|_| (r.u64() as i8, r.chance(50))).collect::<Vec<(i8, bool)>>()) } else { None };
        let fixed  = [r.u64() as u16, 0, u16::MAX];
        let plain  = r.u64();
        let words  = vec![gen_text(r)];
        let own    = r.u64();
    }

    hk loaded(&mut self) { event('L', *self.uid) }
    hk ready(&mut self)  { event('R', *self.uid) }
}

class! {
    pub declare Lean;

    pub export  let uid:   u64;
    pub default let token: Token;

    hk _init(uid_: u64) { let uid = uid_; }

    hk loaded(&mut self) { event('L', *self.uid) }
    hk ready(&mut self)  { event('R', *self.uid) }
}

class! {
    pub declare Bare;
}

/// Another class of the same name.
pub mod twin {
    use node_tree::prelude::*;
    use crate::nodes::Token;
    use super::event;

    class! {
        pub declare Lean;

        pub export  let uid:   u64;
        pub default let token: Token;

        hk _init(uid_: u64) { let uid = uid_; }

        hk loaded(&mut self) { event('L', *self.uid) }
        hk ready(&mut self)  { event('R', *self.uid) }
    }
}

const TYPES: [&str; 4] = ["Rich", "Lean", "Bare", "twin::Lean"];

fn gen_real(r: &mut Rng) -> f64 {
    match r.below(7) {
        0 => 0.0, 1 => -0.0, 2 => f64::MAX, 3 => f64::MIN_POSITIVE / 3.0, 4 => 1e300, 5 => f64::NEG_INFINITY,
        _ => r.u64() as i64 as f64 / 1024.0
    }
}

const TEXTS: &[&str] = &[
    "", "plain", "a \"quoted\" = [text] # no comment", "line\nline\r\n\ttab \u{1F600} \\ \u{7f} \u{1}", "'''", "\"\"\"", "[Rich_3]", "metadata",
    "{ type_name = \"Rich\" }", " lead and trail ", "\u{0}", "\u{202e}", "12", "true", "a.b", "\\u0041"
];

fn gen_text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => format!("t{}", r.below(1000)),
        1 => "x".repeat(r.below(100)),
        _ => r.pick(TEXTS).to_string()
    }
}

// ------------------------------------------------------------------------------------ descriptions

/// What a scene looks like: `saved` are the exported fields, `rest` are the others.
#[derive(Clone, PartialEq, Debug)]
struct D { ty: u8, uid: u64, name: String, owner: bool, disk: bool, saved: String, rest: String, children: Vec<D> }

impl D {
    fn count(&self) -> usize { 1 + self.children.iter().map(|c| c.count()).sum::<usize>() }

    fn show(&self) -> String {
        format!("{}#{}{:?}{}{}", TYPES[self.ty as usize], self.uid, self.name, if self.owner { "!" } else { "" },
            if self.children.is_empty() { String::new() } else { format!("[{}]", self.children.iter().map(|c| c.show()).collect::<Vec<_>>().join(", ")) })
    }

    fn walk_mut(&mut self, f: &mut impl FnMut(&mut D)) { f(self); for c in &mut self.children { c.walk_mut(f); } }
    fn walk(&self, f: &mut impl FnMut(&D)) { f(self); for c in &self.children { c.walk(f); } }

    /// What tells scenes apart structurally.
    fn shape(&self) -> String {
        format!("{}{}({})", self.ty, if self.owner { '!' } else { '.' }, self.children.iter().map(|c| c.shape()).collect::<String>())
    }

    /// As it is once it was saved and loaded.
    fn once_loaded(&self) -> D {
        let mut d = self.clone();
        d.walk_mut(&mut |d| { d.disk = true; d.rest = loaded_rest(d.ty); });
        d
    }

    /// As its clone is.
    fn once_cloned(&self) -> D {
        let mut d = self.clone();
        d.walk_mut(&mut |d| if let Some(at) = d.rest.find(" own=") { let end = d.rest[at + 5..].find(' ').map(|e| at + 5 + e).unwrap_or(d.rest.len()); d.rest.replace_range(at + 5..end, "void"); });
        d
    }

    /// The first difference.
    fn differs(&self, real: &D) -> Option<String> {
        let at = |what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| Some(format!("{what} of node {:?} is {b:?} and should be {a:?}", self.name));
        if self.ty != real.ty       { return at("the type", &self.ty, &real.ty); }
        if self.name != real.name   { return at("the name", &self.name, &real.name); }
        if self.owner != real.owner { return at("the ownership mark", &self.owner, &real.owner); }
        if self.saved != real.saved { return at("what is exported", &self.saved, &real.saved); }
        if self.rest != real.rest   { return at("what is not exported", &self.rest, &real.rest); }
        if self.children.len() != real.children.len() { return at("the number of children", &self.children.len(), &real.children.len()); }
        self.children.iter().zip(&real.children).find_map(|(a, b)| a.differs(b))
    }
}

fn loaded_rest(ty: u8) -> String {
    if ty == 0 { "plain=void words=void own=void deft=0".to_string() } else { String::new() }
}

fn state(n: &dyn Node) -> Option<(u8, u64, String, String)> {
    let any = n.as_any_ref();
    if let Some(x) = any.downcast_ref::<Rich>() {
        if !x.token.is_sound() { fail("a node of a scene is not valid memory".to_string()); return None; }
        let map: BTreeMap<String, i32> = (*x.map).iter().map(|(k, v)| (k.clone(), *v)).collect();
        let saved = rich_state(*x.uid, *x.flag, *x.small, *x.real, &x.text, &x.list, &x.maybe, &x.pair, &map, &x.nested, &x.fixed);
        let plain = if x.plain.is_void() { "void".to_string() } else { format!("{}", *x.plain) };
        let words = if x.words.is_void() { "void".to_string() } else { format!("{}", hash_str(&(*x.words).join("/"))) };
        let own   = if x.own.is_void()   { "void".to_string() } else { format!("{}", *x.own) };
        return Some((0, *x.uid, saved, format!("plain={plain} words={words} own={own} deft={}", *x.deft)));
    }
    if let Some(x) = any.downcast_ref::<Lean>() {
        if !x.token.is_sound() { fail("a node of a scene is not valid memory".to_string()); return None; }
        return Some((1, *x.uid, format!("{}", *x.uid), String::new()));
    }
    if let Some(x) = any.downcast_ref::<twin::Lean>() {
        if !x.token.is_sound() { fail("a node of a scene is not valid memory".to_string()); return None; }
        return Some((3, *x.uid, format!("{}", *x.uid), String::new()));
    }
    any.downcast_ref::<Bare>().map(|_| (2, 0, String::new(), String::new()))
}

#[allow(clippy::too_many_arguments)]
fn rich_state(uid: u64, flag: bool, small: i8, real: f64, text: &String, list: &Vec<u32>, maybe: &Option<i16>, pair: &(u8, String), map: &BTreeMap<String, i32>, nested: &Option<Vec<(i8, bool)>>, fixed: &[u16; 3]) -> String {
    format!("{uid} {flag} {small} {:x} {text:?} {list:?} {maybe:?} {pair:?} {map:?} {nested:?} {fixed:?}", real.to_bits())
}

fn flatten(s: &NodeScene) -> Option<D> {
    let (id, name) = peek(s, |n| (state(n), n.name().to_string()));
    let Some((ty, uid, saved, rest)) = id else { fail("a node of a scene is of no type that was put into it".to_string()); return None; };
    let mut children = Vec::new();
    for c in s.children() { children.push(flatten(c)?); }
    Some(D { ty, uid, name, owner: s.is_owner, disk: false, saved, rest, children })
}

// --------------------------------------------------------------------------------------- building

fn gen_node(r: &mut Rng, uid: u64, odd: u32) -> (Box<dyn Node>, D) {
    let ty = match r.below(20) { 0..=9 => 0, 10..=14 => 1, 15 | 16 => 3, _ => 2 };
    let mut node: Box<dyn Node> = match ty {
        0 => { let mut n = Rich::new(uid, r); *n.deft = r.u64() as u32; n.to_dyn_box() },
        1 => Lean::new(uid).to_dyn_box(),
        3 => twin::Lean::new(uid).to_dyn_box(),
        _ => Bare::new().to_dyn_box()
    };
    let name = if r.chance(10) { node.name().to_string() } else { let n = gen_name(r, odd); node.set_name(&n); n };
    let (ty, uid, saved, rest) = state(&*node).expect("a node of ours");
    (node, D { ty, uid, name, owner: true, disk: false, saved, rest, children: Vec::new() })
}

/// A scene built by hand, and what it is to look like.
fn gen_scene(r: &mut Rng, size: usize, owners: u32, odd: u32, next: &mut u64) -> (NodeScene, D) {
    let mut parts: Vec<(NodeScene, D, usize)> = Vec::new();
    let how = r.below(5);
    for i in 0..size.max(1) {
        let parent = if i == 0 { 0 } else { match how { 0 => i - 1, 1 => 0, 2 => i.saturating_sub(r.range(1, 3)), _ => r.below(i) } };
        let (node, d) = gen_node(r, *next, odd);
        *next += 1;
        parts.push((NodeScene::new_dyn(node), d, parent));
    }
    // Every node is complete once everything behind it was added; siblings are added in their order.
    let mut kids: Vec<Vec<usize>> = vec![Vec::new(); parts.len()];
    for i in 1..parts.len() { kids[parts[i].2].push(i); }
    let mut done: Vec<Option<(NodeScene, D)>> = Vec::new();
    let mut raw: Vec<Option<(NodeScene, D)>> = parts.into_iter().map(|(s, d, _)| Some((s, d))).collect();
    done.resize_with(raw.len(), || None);
    for i in (0..raw.len()).rev() {
        let (mut s, mut d) = raw[i].take().expect("a part");
        for &k in &kids[i] {
            let (cs, mut cd) = done[k].take().expect("a child");
            cd.owner = r.chance(owners);
            if cd.owner { s.append_as_owner(cs); } else { s.append(cs); }
            d.children.push(cd);
        }
        done[i] = Some((s, d));
    }
    let (mut s, mut d) = done[0].take().expect("a root");
    if r.chance(20) { s.is_owner = false; d.owner = false; }
    (s, d)
}

fn gen_size(r: &mut Rng) -> usize {
    match r.below(20) { 0 => if r.chance(12) { r.range(255, 700) } else { r.range(60, 250) }, 1..=3 => 1, 4..=8 => r.range(2, 4), _ => r.range(2, 20) }
}

fn same(want: &D, s: &NodeScene, what: &str) -> bool {
    let Some(real) = flatten(s) else { return false };
    add("nodes_compared", real.count() as u64);
    match want.differs(&real) {
        None => true,
        Some(x) => { fail(format!("{what}: {x}; the scene is {}", clip(&want.show()))); false }
    }
}

fn clip(s: &str) -> String { s.chars().take(1500).collect() }

thread_local! { static OWN_FOLDER: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

/// Lets this thread's workloads use a folder of their own.
pub fn own_folder(name: String) { OWN_FOLDER.with(|f| *f.borrow_mut() = Some(name)); }

fn scratch() -> PathBuf {
    let base = std::env::var_os("HARNESS_SCRATCH").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/tmp"));
    OWN_FOLDER.with(|f| match &*f.borrow() { Some(n) => base.join(n), None => base })
}

fn all_gone() {
    let left = live_tokens();
    if !left.is_empty() { violation(&["C11", crate::intern(&crate::report::REPORT.with(|r| r.borrow().prop.clone()))], format!("{} of the nodes of dropped scenes are never dropped", left.len()), String::new()); }
}

/// A scene of any origin.
fn gen_any(r: &mut Rng, odd: u32, next: &mut u64) -> (NodeScene, D) {
    let size = gen_size(r);
    let (s, d) = gen_scene(r, size, 25, odd, next);
    match r.below(6) {
        0 => { let c = s.clone(); (c, d.once_cloned()) },
        1 => match s.save_to_str().and_then(|t| NodeScene::load_from_str(&t)) {
            Ok(l)  => { let d = d.once_loaded(); (l, d) },
            Err(e) => { violation(&["C16", "C17"], format!("a scene cannot be saved and loaded: {e}; {}", clip(&d.show())), String::new()); (s, d) }
        },
        2 => {
            // By way of a live tree; names of siblings may change there.
            let mut tree: Box<TreeSimple> = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
            let b = tree.root().save_as_branch();
            let _ = tree.process();
            drop(tree);
            match flatten(&b) { Some(d) => (b, d), None => (b, d) }
        },
        _ => (s, d)
    }
}

// -------------------------------------------------------------------------------------------- C16

pub fn round_trip(mut r: Rng) {
    reset_tokens();
    let mut next = 1;
    let (s, d) = gen_any(&mut r, 15, &mut next);
    let hash = s.structural_hash();
    let text = match s.save_to_str() { Ok(t) => t, Err(e) => { fail(format!("a scene cannot be saved: {e}; {}", clip(&d.show()))); return; } };
    same(&d, &s, "after a scene was saved, that scene");
    if s.structural_hash() != hash { fail("the structural hash of a scene is changed by saving it".to_string()); }
    count("scenes_saved");
    let want = d.once_loaded();
    for i in 0..r.range(1, 2) {
        match NodeScene::load_from_str(&text) {
            Ok(l) => {
                count("scenes_loaded");
                if !same(&want, &l, if i == 0 { "a loaded scene" } else { "a scene that is loaded again" }) { fail(format!("the text was\n{}", clip(&text))); }
                if l.structural_hash() != hash { fail("the structural hash of a loaded scene differs from that of the saved one".to_string()); }
                if r.chance(40) {
                    match l.save_to_str().and_then(|t| NodeScene::load_from_str(&t)) {
                        Ok(ll) => { count("scenes_loaded"); same(&want, &ll, "a scene that was loaded, saved and loaded"); },
                        Err(e) => fail(format!("a loaded scene cannot be saved and loaded: {e}"))
                    }
                    same(&want, &l, "after a loaded scene was saved, that scene");
                }
                if r.chance(20) { instanced(l, &want); }
            },
            Err(e) => { fail(format!("a saved scene cannot be loaded: {e}; {}\n{}", clip(&d.show()), clip(&text))); break; }
        }
    }
    if r.chance(40) { through_a_file(&mut r, &s, &d); }
    if wants_sample() && d.count() > 2 { sample(clip(&text)); }
    let key = hash_str(&format!("{d:?}"));
    let nodes = d.count();
    if r.chance(40) { grown(&mut r, s, d, &mut next); } else { drop(s); }
    evaluated(nodes > 1, key);
    all_gone();
}

/// A scene that was saved already becomes part of a larger one, or gets more nodes itself, and that one is saved.
fn grown(r: &mut Rng, s: NodeScene, d: D, next: &mut u64) {
    let (mut s, mut d) = (s, d);
    for _ in 0..r.range(1, 3) {
        let size = r.range(1, 6);
        let (mut other, mut od) = gen_scene(r, size, 25, 15, next);
        if r.chance(60) { if let Err(e) = other.save_to_str() { return fail(format!("a scene cannot be saved: {e}")); } }
        if r.chance(30) { std::mem::swap(&mut s, &mut other); std::mem::swap(&mut d, &mut od); }
        od.owner = r.chance(50);
        if od.owner { s.append_as_owner(other); } else { s.append(other); }
        d.children.push(od);
        if r.chance(20) { s = s.clone(); d = d.once_cloned(); }
        if r.chance(60) {
            let text = match s.save_to_str() { Ok(t) => t, Err(e) => return fail(format!("a scene that was saved and then grew cannot be saved: {e}; {}", clip(&d.show()))) };
            count("grown_scenes_saved");
            same(&d, &s, "after a scene that grew was saved, that scene");
            match NodeScene::load_from_str(&text) {
                Ok(l)  => { count("scenes_loaded"); if !same(&d.once_loaded(), &l, "a loaded scene that was saved before and after it grew") { return fail(format!("the text was\n{}", clip(&text))); } },
                Err(e) => return fail(format!("a scene that was saved before and after it grew cannot be loaded: {e}; {}\n{}", clip(&d.show()), clip(&text)))
            }
        }
    }
}

fn through_a_file(r: &mut Rng, s: &NodeScene, d: &D) {
    let dir = scratch().join(format!("scenes{}", r.below(3)));
    let _ = fs::create_dir_all(&dir);
    let name = *r.pick(&["scene", "level 1", "ünïcode 名", "a.b", ".hidden", "x.scn", "UPPER", "s"]);
    let file = dir.join(format!("{name}.scn"));
    if r.chance(30) { let _ = fs::write(&file, "# old\n".repeat(r.below(2000))); }
    match r.below(8) {
        // Where nothing can be written, saving has to say so.
        0 => {
            let gone = dir.join("not there");
            if s.save(&gone, name).is_ok() { fail("saving a scene into a directory that does not exist says that it succeeded".to_string()); }
            count("saves_refused");
        },
        1 => {
            let full = dir.join("full.scn");
            if fs::metadata("/dev/full").is_ok() && (full.is_symlink() || std::os::unix::fs::symlink("/dev/full", &full).is_ok()) {
                // Unless the file took the place of the device.
                if s.save(&dir, "full").is_ok() && !NodeScene::load(&full).is_ok_and(|l| same(&d.once_loaded(), &l, "a scene saved in place of a full device")) {
                    fail("saving a scene onto a full device says that it succeeded".to_string());
                }
                count("saves_refused");
            }
            let _ = fs::remove_file(&full);
        },
        _ => match s.save(&dir, name) {
            Err(e) => fail(format!("a scene cannot be saved as {file:?}: {e}")),
            Ok(()) => {
                same(d, s, "after a scene was saved to a file, that scene");
                for _ in 0..2 {
                    match NodeScene::load(&file) {
                        Err(e) => { fail(format!("a scene saved as {file:?} cannot be loaded: {e}")); break; },
                        Ok(l)  => { count("files_loaded"); same(&d.once_loaded(), &l, "a scene loaded from a file"); }
                    }
                }
            }
        }
    }
    let _ = fs::remove_file(&file);
}

/// Instances a scene as a tree and compares the two, names apart as siblings may clash.
fn instanced(s: NodeScene, d: &D) {
    EVENTS.with(|e| e.borrow_mut().clear());
    let mut tree: Box<TreeSimple> = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
    let events = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
    fn go(n: &dyn Node, d: &D, clash: bool) -> Option<String> {
        let (ty, uid, saved, rest) = state(n)?;
        if (ty, uid, &saved, &rest) != (d.ty, d.uid, &d.saved, &d.rest) { return Some(format!("node {:?} is {ty} {saved} {rest} and not {} {} {}", d.name, d.ty, d.saved, d.rest)); }
        if !clash && n.name() != d.name { return Some(format!("a node is called {:?} and not {:?}", n.name(), d.name)); }
        let kids = n.children();
        if kids.len() != d.children.len() { return Some(format!("node {:?} has {} children and not {}", d.name, kids.len(), d.children.len())); }
        let mut names: Vec<&str> = d.children.iter().map(|c| c.name.as_str()).collect();
        names.sort();
        let clash = names.windows(2).any(|w| w[0] == w[1]);
        kids.into_iter().zip(&d.children).find_map(|(k, c)| go(k.get(), c, clash))
    }
    if let Some(x) = go(tree.root(), d, false) { violation(&[crate::intern(&crate::report::REPORT.with(|r| r.borrow().prop.clone())), "C05"], format!("an instanced scene is not as described: {x}; {}", clip(&d.show())), String::new()); }
    let mut want: Vec<(char, u64)> = Vec::new();
    d.walk(&mut |d| if d.ty != 2 { want.push(('R', d.uid)); if d.disk { want.push(('L', d.uid)); } });
    let mut got = events.clone();
    got.sort();
    want.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).take(5).collect();
        let lost: Vec<_> = want.iter().filter(|g| !got.contains(g)).take(5).collect();
        fail(format!("the loaded (L) and ready (R) hooks of an instanced scene are not those due: {lost:?} are missing and {extra:?} not expected; {}", clip(&d.show())));
    }
    add("hooks_counted", events.len() as u64);
    count("scenes_instanced");
    let _ = tree.process();
}

// -------------------------------------------------------------------------------------------- C17

/// What a document has to lead to.
#[derive(Debug)]
enum Verdict { Scene(D), Refused(String), Open }

/// The names under which the types are saved.
fn full_names() -> [String; 4] {
    thread_local! { static NAMES: RefCell<Option<[String; 4]>> = const { RefCell::new(None) }; }
    NAMES.with(|n| n.borrow_mut().get_or_insert_with(|| {
        let mut r = Rng::new(1);
        [Rich::new(0, &mut r).name_as_type(), Lean::new(0).name_as_type(), Bare::new().name_as_type(), twin::Lean::new(0).name_as_type()]
    }).clone())
}

enum Doubt { Bad(String), Open }
use Doubt::Bad;

trait Read: Sized { fn read(v: &Value) -> Result<Self, Doubt>; }

macro_rules! read_int { ($($t:ty),*) => { $( impl Read for $t { fn read(v: &Value) -> Result<$t, Doubt> {
    let i = v.as_integer().ok_or_else(|| Bad(format!("no integer: {v}")))?;
    <$t>::try_from(i).map_err(|_| Bad(format!("out of range: {v}")))
} } )* } }
read_int!(u8, u16, u32, i8, i16, i32);

impl Read for u64    { fn read(v: &Value) -> Result<u64, Doubt>    { v.as_integer().map(|i| i as u64).ok_or_else(|| Bad(format!("no integer: {v}"))) } }
impl Read for bool   { fn read(v: &Value) -> Result<bool, Doubt>   { v.as_bool().ok_or_else(|| Bad(format!("no boolean: {v}"))) } }
impl Read for String { fn read(v: &Value) -> Result<String, Doubt> { v.as_str().map(|s| s.to_string()).ok_or_else(|| Bad(format!("no string: {v}"))) } }
impl Read for f64    { fn read(v: &Value) -> Result<f64, Doubt>    { match v { Value::Float(f) => Ok(*f.value()), Value::Integer(_) => Err(Doubt::Open), _ => Err(Bad(format!("no number: {v}"))) } } }

impl<T: Read> Read for Vec<T> {
    fn read(v: &Value) -> Result<Vec<T>, Doubt> { v.as_array().ok_or_else(|| Bad(format!("no array: {v}")))?.iter().map(T::read).collect() }
}
impl<T: Read> Read for Option<T> {
    fn read(v: &Value) -> Result<Option<T>, Doubt> {
        let t = v.as_inline_table().ok_or_else(|| Bad(format!("no option: {v}")))?;
        if t.is_empty() { return Ok(None); }
        if t.len() > 1 { return Err(Doubt::Open); }
        Ok(Some(T::read(t.get("value").ok_or(Doubt::Open)?)?))
    }
}
impl<A: Read, B: Read> Read for (A, B) {
    fn read(v: &Value) -> Result<(A, B), Doubt> {
        let a = v.as_array().ok_or_else(|| Bad(format!("no tuple: {v}")))?;
        if a.len() != 2 { return Err(Bad(format!("no pair: {v}"))); }
        Ok((A::read(a.get(0).expect("one"))?, B::read(a.get(1).expect("two"))?))
    }
}
impl<T: Read> Read for BTreeMap<String, T> {
    fn read(v: &Value) -> Result<BTreeMap<String, T>, Doubt> {
        v.as_inline_table().ok_or_else(|| Bad(format!("no map: {v}")))?.iter().map(|(k, v)| Ok((k.to_string(), T::read(v)?))).collect()
    }
}
impl Read for [u16; 3] {
    fn read(v: &Value) -> Result<[u16; 3], Doubt> { <[u16; 3]>::try_from(Vec::<u16>::read(v)?).map_err(|_| Bad(format!("no array of three: {v}"))) }
}

/// Decides what a text must lead to, without the library.
fn judge(text: &str) -> Verdict {
    let doc: DocumentMut = match text.parse() { Ok(d) => d, Err(_) => return Verdict::Refused("it is no valid text".to_string()) };
    let mut nodes: Vec<(D, u64)> = Vec::new();          // With the place of the parent.
    let mut places: HashMap<u64, usize> = HashMap::new();
    let (mut open, mut bad): (bool, Option<String>) = (false, None);
    for (key, item) in doc.iter() {
        match judge_node(key, item, nodes.is_empty() && bad.is_none(), &places, nodes.len()) {
            Ok((d, rid, parent)) => {
                if nodes.is_empty() { nodes.push((d, 0)); if rid != 0 { open = true; } continue; }
                if rid == 0 || places.insert(rid, nodes.len()).is_some() { open = true; }
                nodes.push((d, parent as u64));
            },
            Err(Doubt::Bad(why)) => { if bad.is_none() { bad = Some(format!("{key}: {why}")); } break; },
            Err(Doubt::Open)     => { open = true; break; }
        }
    }
    if open { return Verdict::Open; }
    if let Some(why) = bad { return Verdict::Refused(why); }
    if nodes.is_empty() { return Verdict::Refused("there is no root".to_string()); }
    while nodes.len() > 1 {
        let (d, p) = nodes.pop().expect("a node");
        nodes[p as usize].0.children.insert(0, d);
    }
    Verdict::Scene(nodes.pop().expect("the root").0)
}

fn judge_node(key: &str, item: &Item, root: bool, places: &HashMap<u64, usize>, _at: usize) -> Result<(D, u64, usize), Doubt> {
    let bad = |s: &str| Bad(s.to_string());
    let table = match item { Item::Table(t) => t, _ => return Err(Doubt::Open) };
    let meta = match table.get("metadata") {
        None                                 => return Err(bad("there is no metadata")),
        Some(Item::Value(Value::InlineTable(t))) => t,
        Some(Item::Value(_))                 => return Err(bad("the metadata is no table")),
        Some(_)                              => return Err(Doubt::Open)
    };
    let type_name = meta.get("type_name").and_then(|t| t.as_str()).ok_or_else(|| bad("there is no type name"))?;
    let owner     = meta.get("is_owner").and_then(|t| t.as_bool()).ok_or_else(|| bad("there is no ownership mark"))?;
    let ty = match full_names().iter().position(|t| t == type_name) {
        Some(t) => t as u8,
        // It may be one of the other classes of this program.
        None if type_name.starts_with("harness::") && !type_name.ends_with("Unknown") => return Err(Doubt::Open),
        None => return Err(bad("the type is unknown"))
    };
    if table.iter().any(|(_, i)| !i.is_value()) { return Err(Doubt::Open); }
    let saved = fields(ty, table)?;
    let (name, rid) = key.rsplit_once('_').ok_or_else(|| bad("the key has no number"))?;
    if rid.is_empty() || !rid.bytes().all(|b| b.is_ascii_digit()) { return Err(if rid.starts_with('+') { Doubt::Open } else { bad("the key has no number") }); }
    let rid: u64 = rid.parse().map_err(|_| bad("the number of the key is out of range"))?;
    let mut place = 0;
    if root {
        if meta.get("parent").is_some() { return Err(if meta.get("parent").is_some_and(|p| p.is_integer()) { bad("the first node is the child of another one") } else { Doubt::Open }); }
    } else {
        let parent = meta.get("parent").and_then(|p| p.as_integer()).ok_or_else(|| bad("there is no parent"))?;
        if parent != 0 { place = *places.get(&(parent as u64)).ok_or_else(|| bad("the parent is not there"))?; }
    }
    let uid = if ty == 2 { 0 } else { u64::read(table.get("uid").and_then(|i| i.as_value()).expect("checked"))? };
    Ok((D { ty, uid, name: name.to_string(), owner, disk: true, saved, rest: loaded_rest(ty), children: Vec::new() }, rid, place))
}

fn fields(ty: u8, table: &toml_edit::Table) -> Result<String, Doubt> {
    fn get<T: Read>(table: &toml_edit::Table, name: &str) -> Result<T, Doubt> {
        T::read(table.get(name).and_then(|i| i.as_value()).ok_or_else(|| Bad(format!("field {name} is missing")))?)
    }
    match ty {
        0 => Ok(rich_state(get(table, "uid")?, get(table, "flag")?, get(table, "small")?, get(table, "real")?, &get(table, "text")?, &get(table, "list")?,
            &get(table, "maybe")?, &get(table, "pair")?, &get(table, "map")?, &get(table, "nested")?, &get(table, "fixed")?)),
        1 | 3 => Ok(format!("{}", get::<u64>(table, "uid")?)),
        _ => Ok(String::new())
    }
}

/// Loads a text and compares what comes of it with the verdict.
fn try_load(what: &str, text: &str, load: impl FnOnce() -> Result<NodeScene, String>) {
    let verdict = judge(text);
    let out = load();
    match (&verdict, out) {
        (Verdict::Scene(d), Ok(s)) => {
            count("verdict_accepted");
            if !same(d, &s, what) { fail(format!("the text was\n{}", clip(text))); }
            usable(s, d);
        },
        (Verdict::Scene(_), Err(e)) => fail(format!("{what} is refused ({e}), but nothing is wrong with it:\n{}", clip(text))),
        (Verdict::Refused(_), Err(_)) => count("verdict_refused"),
        (Verdict::Refused(why), Ok(s)) => fail(format!("{what} is loaded, but {why}; it becomes {}, and the text was\n{}", flatten(&s).map(|d| clip(&d.show())).unwrap_or_default(), clip(text))),
        (Verdict::Open, Ok(s)) => { count("verdict_open"); if let Some(d) = flatten(&s) { let d = d.once_loaded(); usable(s, &d) } },
        (Verdict::Open, Err(_)) => count("verdict_open")
    }
}

/// Whether a loaded scene can be used like any other one.
fn usable(s: NodeScene, d: &D) {
    let copy = s.clone();
    if copy.structural_hash() != s.structural_hash() { fail("a copy of a loaded scene has another structural hash".to_string()); }
    match s.save_to_str().and_then(|t| NodeScene::load_from_str(&t)) {
        Ok(l)  => { same(d, &l, "a loaded scene that is saved and loaded"); },
        Err(e) => fail(format!("a loaded scene cannot be saved and loaded: {e}; {}", clip(&d.show())))
    }
    let tree: Box<TreeSimple> = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
    drop(copy);
    drop(tree);
    count("loaded_scenes_used");
}

fn wrong_value(r: &mut Rng) -> &'static str {
    r.pick(&["5", "-1", "300", "70000", "9999999999", "\"x\"", "true", "1.5", "nan", "[]", "[1]", "[1, 2, 3]", "[\"a\", 1]", "[1, \"a\", 2]", "{}", "{ value = \"x\" }", "{ value = 99999 }", "{ value = 3 }",
        "{ value = [[1]] }", "{ value = [[1, true]] }", "{ a = 1 }", "{ a = \"b\" }", "2020-01-01", "[[]]", "[4294967296]", "[-1]", "[1, 2, 65536]", "[0, \"\"]", "[256, \"\"]", "\"\""])
}

fn keys(doc: &DocumentMut) -> Vec<String> { doc.iter().map(|(k, _)| k.to_string()).collect() }

/// Damages one thing of a saved scene.
fn damage(r: &mut Rng, doc: &mut DocumentMut) -> &'static str {
    let all = keys(doc);
    let at = r.below(all.len());
    let key = all[at].clone();
    let rid: u64 = key.rsplit_once('_').and_then(|k| k.1.parse().ok()).unwrap_or(0);
    let ids: Vec<i64> = all.iter().filter_map(|k| k.rsplit_once('_').and_then(|k| k.1.parse().ok())).collect();
    macro_rules! meta { () => { doc[&key]["metadata"].as_inline_table_mut().expect("metadata") } }
    fn value(s: &str) -> Value { s.parse().expect("a value") }
    match r.below(19) {
        0 => { doc[&key].as_table_mut().expect("a table").remove("metadata"); "without its metadata" },
        1 => { let v = wrong_value(r); doc[&key]["metadata"] = Item::Value(value(v)); "with other metadata" },
        2 => { meta!().remove("type_name"); "without a type name" },
        3 => { let v = *r.pick(&["5", "true", "[]", "{}", "1.0", "[\"Rich\"]"]); meta!().insert("type_name", value(v)); "with a type name that is none" },
        4 => { let own = full_names()[r.below(4)].clone();
                let v = match r.below(8) { 6 => "elsewhere::Lean".to_string(), 7 => "elsewhere::props::scenes::Bare".to_string(), 0 => "Rich".to_string(), 1 => String::new(), 2 => format!("{own}Unknown"), 3 => format!(" {own}"), 4 => own.to_lowercase().replace("harness", "Harness"), _ => own.replace("::", ".") }; meta!().insert("type_name", v.into()); "with an unknown type" },
        5 => { meta!().remove("is_owner"); "without an ownership mark" },
        6 => { let v = *r.pick(&["5", "\"true\"", "[]", "{}", "1", "[true]"]); meta!().insert("is_owner", value(v)); "with an ownership mark that is none" },
        7 => { meta!().remove("parent"); "without a parent" },
        8 => { let v = *r.pick(&["\"0\"", "true", "0.0", "[0]", "{}"]); meta!().insert("parent", value(v)); "with a parent that is none" },
        9 => { let p = match r.below(5) { 0 => rid as i64, 1 => -1, 2 => i64::MAX, 3 => all.len() as i64 + r.below(5) as i64, _ => *r.pick(&ids) }; meta!().insert("parent", p.into()); "with another parent" },
        10 => { let names: Vec<String> = doc[&key].as_table().expect("a table").iter().map(|(k, _)| k.to_string()).filter(|k| k != "metadata").collect();
                if !names.is_empty() { let n = r.pick(&names).clone(); doc[&key].as_table_mut().expect("a table").remove(&n); } "without a field" },
        11 | 12 | 13 => { let names: Vec<String> = doc[&key].as_table().expect("a table").iter().map(|(k, _)| k.to_string()).filter(|k| k != "metadata").collect();
                if !names.is_empty() { let n = r.pick(&names).clone(); let v = wrong_value(r); doc[&key][n.as_str()] = Item::Value(value(v)); } "with another field value" },
        14 => { let new = match r.below(6) { 0 => "NoNumber".to_string(), 1 => "Name_".to_string(), 2 => "Name_x".to_string(), 3 => "Name_-1".to_string(), 4 => "Name_99999999999999999999".to_string(), _ => format!("Other_{}", r.below(60)) };
                let mut out = DocumentMut::new();
                for (k, i) in doc.iter() { if k == key { out[&new] = i.clone(); } else { out[k] = i.clone(); } }
                *doc = ordered(out); "with another key" },
        15 => { doc.as_table_mut().remove(&key); "with a node gone" },
        16 => { // Another order.
                let mut order = all.clone();
                let (a, b) = (r.below(order.len()), r.below(order.len()));
                if r.chance(50) { order.swap(a, b); } else { let k = order.remove(a); order.insert(b, k); }
                let mut out = DocumentMut::new();
                for k in &order { out[k.as_str()] = doc[k.as_str()].clone(); }
                *doc = ordered(out); "in another order" },
        17 => { let t = full_names()[r.below(4)].clone(); meta!().insert("type_name", t.into()); "with another known type" },
        _  => { let f = *r.pick(&["extra", "uid", "sig", "plain", "type_name", "base", "token"]); let v = wrong_value(r); doc[&key][f] = Item::Value(value(v)); "with an extra value" }
    }
}

/// Tables are written in the order of their positions and not in that of their keys.
fn ordered(mut doc: DocumentMut) -> DocumentMut {
    for (i, (_, item)) in doc.as_table_mut().iter_mut().enumerate() {
        if let Item::Table(t) = item { t.set_position(i + 1); }
    }
    doc
}

fn mutate(r: &mut Rng, text: &str, other: &str) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 4) {
        if chars.is_empty() { break; }
        let a = r.below(chars.len());
        match r.below(8) {
            0 => { chars.truncate(a); },
            1 => { chars.remove(a); },
            2 => { let c = *r.pick(&['[', ']', '{', '}', '"', '\'', '=', '.', ',', '\n', '#', '_', '0', '9', '-', 'a', '\u{0}', 'é', '\\', ' ']); chars.insert(a, c); },
            3 => { let c = *r.pick(&['[', ']', '"', '=', '\n', '_', '0', '1', '7', 'e', ' ', '\u{7f}']); chars[a] = c; },
            4 => { let b = (a + r.below(200)).min(chars.len()); let cut: Vec<char> = chars[a..b].to_vec(); let at = r.below(chars.len()); chars.splice(at..at, cut); },
            5 => { let b = (a + r.below(60)).min(chars.len()); chars.drain(a..b); },
            6 => { // A line moves or doubles.
                let mut lines: Vec<String> = chars.iter().collect::<String>().split('\n').map(|s| s.to_string()).collect();
                let i = r.below(lines.len());
                let l = if r.chance(50) { lines.remove(i) } else { lines[i].clone() };
                let j = r.below(lines.len() + 1);
                lines.insert(j, l);
                chars = lines.join("\n").chars().collect();
            },
            _ => { // A piece of another document.
                let o: Vec<char> = other.chars().collect();
                let x = r.below(o.len());
                let y = (x + r.below(300)).min(o.len());
                chars.splice(a..a, o[x..y].to_vec());
            }
        }
    }
    chars.into_iter().collect()
}

const PIECES: &[&str] = &[
    "[A_0]\n", "[B_1]\n", "[\"x y_2\"]\n", "[A_0.sub]\n", "[[A_0]]\n", "metadata = { type_name = \"harness::props::scenes::Lean\", is_owner = true }\n", "metadata = { type_name = \"harness::props::scenes::Bare\", is_owner = false, parent = 0 }\n",
    "metadata = { type_name = \"harness::props::scenes::Lean\", is_owner = true, parent = 1 }\n", "metadata.type_name = \"harness::props::scenes::Bare\"\nmetadata.is_owner = true\n", "uid = 5\n", "uid = \"x\"\n", "uid = -1\n", "x = 5\n", "= 5\n", "\n", "# c\n",
    "[A_0.metadata]\ntype_name = \"harness::props::scenes::Bare\"\nis_owner = true\n", "a.b.c = [1, {x = [[[]]]}]\n", "\u{feff}", "é = 1\n", "\"\" = 1\n", "[_3]\n", "[\"_4\"]\n", "[]\n", "[\"_\"]\n", "metadata = 3\n", "text = '''\n", "x = 1e9999\n", "y = 0x7f\n",
    "z = 2020-13-45\n", "t = 2020-01-01T00:00:00Z\n", "deep = [[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[]\n"
];

/// Loads a scene that is nested very deeply, and drops it again.
fn deep(r: &mut Rng) {
    let n = if r.chance(10) { r.range(20_000, 60_000) } else { r.range(500, 4_000) };
    let bare = &full_names()[2];
    let mut text = String::new();
    for i in 0..n {
        let parent = if i == 0 { String::new() } else { format!(", parent = {}", i - 1) };
        text += &format!("[A_{i}]\nmetadata = {{ type_name = \"{bare}\", is_owner = false{parent} }}\n");
    }
    if r.chance(20) { text += "[B_1000000]\n"; if NodeScene::load_from_str(&text).is_ok() { fail(format!("a scene of depth {n} with a damaged last node is loaded")); } count("verdict_refused"); return; }
    match NodeScene::load_from_str(&text) {
        Err(e) => fail(format!("a scene of depth {n} is refused: {e}")),
        Ok(s)  => {
            let (mut at, mut depth) = (&s, 1);
            while let [c] = at.children() { at = c; depth += 1; }
            if depth != n { fail(format!("a scene of depth {n} is loaded with depth {depth}")); }
        }
    }
    count("deep_scenes");
}

pub fn damaged(mut r: Rng, case: u64) {
    reset_tokens();
    if case % 512 == 511 { deep(&mut r); evaluated(true, case); return; }
    let mut next = 1;
    let size = match r.below(6) { 0 => 1, 1 => 2, _ => r.range(2, 12) };
    let (s, d) = gen_scene(&mut r, size, 25, 5, &mut next);
    let text = match s.save_to_str() { Ok(t) => t, Err(e) => { fail(format!("a scene cannot be saved: {e}; {}", clip(&d.show()))); return; } };
    drop(s);
    let key;
    match case % 8 {
        0..=3 => {
            let mut doc: DocumentMut = match text.parse() { Ok(d) => d, Err(e) => { fail(format!("a saved scene is no valid text: {e}\n{}", clip(&text))); return; } };
            let mut what = damage(&mut r, &mut doc);
            if r.chance(15) && !keys(&doc).is_empty() && doc.iter().all(|(_, i)| i.get("metadata").is_some_and(|m| m.is_inline_table())) { let _ = damage(&mut r, &mut doc); what = "with two things changed"; }
            let out = doc.to_string();
            count("documents_damaged");
            if wants_sample() { sample(clip(&format!("a saved scene {what}:\n{out}"))); }
            try_load(&format!("a saved scene {what}"), &out, || NodeScene::load_from_str(&out));
            key = hash_str(&out);
        },
        4 | 5 => {
            let (s2, _) = gen_scene(&mut r, 3, 25, 5, &mut next);
            let other = s2.save_to_str().unwrap_or_default();
            drop(s2);
            let out = mutate(&mut r, &text, &other);
            count("documents_mutated");
            try_load("a saved scene with random changes", &out, || NodeScene::load_from_str(&out));
            key = hash_str(&out);
        },
        6 => {
            let mut out = String::new();
            for _ in 0..r.below(9) { out += *r.pick(PIECES); }
            if r.chance(10) { out = (0..r.below(60)).map(|_| char::from_u32(r.below(0x300) as u32).unwrap_or('x')).collect(); }
            count("documents_made_up");
            try_load("a made-up document", &out, || NodeScene::load_from_str(&out));
            key = hash_str(&out);
        },
        _ => { file_cases(&mut r, &text, &d); key = hash_str(&text) ^ case; }
    }
    evaluated(true, key);
    all_gone();
}

fn file_cases(r: &mut Rng, text: &str, d: &D) {
    let dir = scratch().join(format!("damaged{}", r.below(3)));
    let _ = fs::create_dir_all(&dir);
    let refused = |what: &str, path: &Path| {
        count("files_refused");
        if let Ok(s) = NodeScene::load(path) { fail(format!("{what} ({path:?}) is loaded as {}", flatten(&s).map(|d| clip(&d.show())).unwrap_or_default())); }
    };
    match r.below(9) {
        0 => {
            let name = *r.pick(&["x.toml", "x.SCN", "x.scn.bak", "x.scnn", "x.sc", "x.txt", "scn", "x", ".scn", "x.", "xscn", "x.scn ", "x.Scn"]);
            let path = dir.join(name);
            let _ = fs::write(&path, text);
            refused("a file with another extension", &path);
            let _ = fs::remove_file(&path);
        },
        1 => refused("a file that does not exist", &dir.join("nothing.scn")),
        2 => { let p = dir.join("folder.scn"); let _ = fs::create_dir_all(&p); refused("a directory", &p); },
        3 => {
            // Not UTF-8, somewhere.
            let mut bytes = text.as_bytes().to_vec();
            let at = r.below(bytes.len());
            let bad: &[u8] = *r.pick(&[&[0xff][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xe2, 0x82]]);
            bytes.splice(at..at, bad.iter().copied());
            if std::str::from_utf8(&bytes).is_ok() { return; }
            let path = dir.join("bytes.scn");
            let _ = fs::write(&path, &bytes);
            refused("a file that is not UTF-8", &path);
            let _ = fs::remove_file(&path);
        },
        4 => { let path = dir.join("empty.scn"); let _ = fs::write(&path, ""); refused("an empty file", &path); let _ = fs::remove_file(&path); },
        5 => { let path = dir.join("file.scn"); let _ = fs::write(&path, text); refused("a path through a file", &path.join("x.scn")); let _ = fs::remove_file(&path); },
        6 => { for p in ["", "/", ".", "..", "\u{0}.scn", "scn", ".scn"] { refused("a path that is none", Path::new(p)); } },
        7 => {
            let path = dir.join("cut.scn");
            let at = r.below(text.len() + 1);
            let bytes = &text.as_bytes()[..at];
            let _ = fs::write(&path, bytes);
            match std::str::from_utf8(bytes) {
                Ok(t)  => try_load("a file that was cut off", t, || NodeScene::load(&path)),
                Err(_) => refused("a file cut off within a character", &path)
            }
            let _ = fs::remove_file(&path);
        },
        _ => {
            let path = dir.join("good.scn");
            let _ = fs::write(&path, text);
            match NodeScene::load(&path) {
                Ok(s)  => { count("files_loaded"); same(&d.once_loaded(), &s, "a scene loaded from a file"); },
                Err(e) => fail(format!("a file with a saved scene is refused: {e}\n{}", clip(text)))
            }
            let _ = fs::remove_file(&path);
        }
    }
}

// -------------------------------------------------------------------------------------------- C19

thread_local! { static POOL: RefCell<HashMap<u64, String>> = RefCell::new(HashMap::new()); }

/// A scene of plain nodes with the given shape: type numbers, ownership marks and children.
fn plain(d: &D, r: &mut Rng, next: &mut u64) -> NodeScene {
    *next += 1;
    let mut node: Box<dyn Node> = match d.ty { 0 => Rich::new(*next, r).to_dyn_box(), 1 => Lean::new(*next).to_dyn_box(), 3 => twin::Lean::new(*next).to_dyn_box(), _ => Bare::new().to_dyn_box() };
    if r.chance(50) { let n = gen_name(r, 10); node.set_name(&n); }
    let mut s = NodeScene::new_dyn(node);
    for c in &d.children {
        let cs = plain(c, r, next);
        if c.owner { s.append_as_owner(cs); } else { s.append(cs); }
    }
    s.is_owner = d.owner;
    s
}

fn gen_shape(r: &mut Rng, size: usize, types: usize, owners: u32) -> D {
    let make = |r: &mut Rng| D { ty: r.below(types) as u8, uid: 0, name: String::new(), owner: r.chance(owners), disk: false, saved: String::new(), rest: String::new(), children: Vec::new() };
    let mut flat: Vec<(D, usize)> = vec![(make(r), 0)];
    for i in 1..size { let p = r.below(i); flat.push((make(r), p)); }
    while flat.len() > 1 { let (d, p) = flat.pop().expect("a node"); flat[p].0.children.insert(0, d); }
    flat.pop().expect("the root").0
}

fn nth<'a>(d: &'a mut D, at: &mut usize) -> Option<&'a mut D> {
    if *at == 0 { return Some(d); }
    for c in &mut d.children { *at -= 1; if let Some(x) = nth(c, at) { return Some(x); } }
    None
}

fn node_at(d: &mut D, at: usize) -> &mut D { let mut at = at; nth(d, &mut at).expect("a node") }

/// Changes one thing of a shape.
fn change(r: &mut Rng, d: &mut D) {
    let n = d.count();
    let at = r.below(n);
    match r.below(7) {
        0 => { let x = node_at(d, at); x.ty = (x.ty + 1 + r.below(3) as u8) % 4; },
        1 => { let x = node_at(d, at); x.owner = !x.owner; },
        2 => { let x = node_at(d, at); let k = x.children.len(); if k > 1 { let (i, j) = (r.below(k), r.below(k)); x.children.swap(i, j); } else { x.owner = !x.owner; } },
        3 => { // The last child of a node becomes its sibling, or the other way round.
            let x = node_at(d, at);
            if let Some(k) = x.children.iter().position(|c| !c.children.is_empty()) {
                let inner = x.children[k].children.pop().expect("one");
                x.children.insert(k + 1, inner);
            } else if x.children.len() > 1 { let last = x.children.pop().expect("one"); x.children.last_mut().expect("one").children.push(last); }
            else { x.ty = (x.ty + 1 + r.below(3) as u8) % 4; }
        },
        4 => { let c = gen_shape(r, 1, 4, 30); node_at(d, at).children.push(c); },
        5 => { let x = node_at(d, at); if x.children.pop().is_none() { x.owner = !x.owner; } },
        _ => { // A subtree moves.
            let x = node_at(d, at);
            if let Some(c) = x.children.pop() { let to = r.below(d.count()); let y = node_at(d, to); let i = r.below(y.children.len() + 1); y.children.insert(i, c); }
        }
    }
}

fn hash_trait(s: &NodeScene) -> u64 {
    use std::hash::{ Hash, Hasher };
    let mut h = std::hash::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn hashes(mut r: Rng) {
    reset_tokens();
    let mut next = 0;
    let (size, types) = if r.chance(60) { (r.range(1, 5), r.range(1, 2)) } else { (gen_size(&mut r), 4) };
    let d = gen_shape(&mut r, size, types, 30);
    let s = plain(&d, &mut r, &mut next);
    let h = s.structural_hash();
    let pooled = |h: u64, d: &D| POOL.with(|p| {
        let mut p = p.borrow_mut();
        let shape = d.shape();
        if d.count() > 30 { return; }
        match p.get(&h) {
            Some(o) if *o != shape => fail(format!("scenes of the shapes {o} and {shape} have the same structural hash (type, ! for an owner, children)")),
            Some(_) => (),
            None => { p.insert(h, shape); count("shapes_known"); }
        }
    });
    pooled(h, &d);
    let alike = |what: &str, o: &NodeScene, want: u64| {
        count("hashes_equal");
        if o.structural_hash() != want { fail(format!("{what} has another structural hash than the scene; {}", clip(&d.shape()))); }
        if s.is_owner == o.is_owner && want == h && hash_trait(o) != hash_trait(&s) { fail(format!("{what} hashes otherwise than the scene; {}", clip(&d.shape()))); }
    };
    alike("the same scene again", &s, h);
    alike("a scene with other names and fields", &plain(&d, &mut r, &mut next), h);
    alike("a clone", &s.clone(), h);
    match s.save_to_str().and_then(|t| NodeScene::load_from_str(&t)) {
        Ok(l)  => { alike("a loaded scene", &l, h); alike("the clone of a loaded scene", &l.clone(), h); },
        Err(e) => fail(format!("a scene cannot be saved and loaded: {e}"))
    }
    {
        let mut owning = s.clone();
        owning.is_owner = true;
        let want = owning.structural_hash();
        let tree: Box<TreeSimple> = TreeSimple::new(s.clone(), LoggerVerbosity::OnlyPanics);
        alike("a scene saved from a live tree", &tree.root().save_as_branch(), want);
    }
    for _ in 0..4 {
        let mut o = d.clone();
        for _ in 0..r.range(1, 2) { change(&mut r, &mut o); }
        let os = plain(&o, &mut r, &mut next);
        let oh = os.structural_hash();
        pooled(oh, &o);
        let (same, what) = (o.shape() == d.shape(), format!("scenes of the shapes {} and {}", clip(&d.shape()), clip(&o.shape())));
        count(if same { "hashes_equal" } else { "hashes_different" });
        if same != (oh == h) { fail(format!("{what} have {} structural hashes", if same { "different" } else { "equal" })); }
        if same != (hash_trait(&os) == hash_trait(&s)) { fail(format!("{what} hash {}", if same { "differently" } else { "equally" })); }
    }
    if wants_sample() && d.count() > 3 { sample(format!("{} -> {h:x}", clip(&d.shape()))); }
    evaluated(true, hash_str(&d.shape()));
    drop(s);
    all_gone();
}

// -------------------------------------------------------------------------------------------- C20

pub fn clones(mut r: Rng) {
    reset_tokens();
    let mut next = 1;
    let mut trace = String::new();
    let mut pool: Vec<(NodeScene, D)> = Vec::new();
    let (s, d) = gen_any(&mut r, 10, &mut next);
    trace += &format!("scene {}\n", d.show());
    let loaded = |d: &D| d.disk;
    pool.push((s, d));
    let before = crate::report::violations_now();
    let mut cloned = 0;
    for _ in 0..r.range(4, 16) {
        if pool.is_empty() || crate::report::violations_now() > before { break; }
        let at = r.below(pool.len());
        match r.below(12) {
            0..=3 if pool.len() < 6 => {
                let (s, d) = &pool[at];
                let want = d.once_cloned();
                let c = s.clone();
                trace += &format!("clone {at}\n");
                same(&want, &c, "a clone");
                if c.structural_hash() != s.structural_hash() { fail("a clone has another structural hash".to_string()); }
                if loaded(d) { count("loaded_cloned"); }
                cloned += 1;
                pool.push((c, want));
            },
            4 => { trace += &format!("drop {at}\n"); pool.swap_remove(at); },
            5 => { trace += &format!("instance {at}\n"); let (s, d) = pool.swap_remove(at); instanced(s, &d); },
            6 => {
                trace += &format!("append to {at}\n");
                let size = r.range(1, 4);
                let (cs, mut cd) = gen_scene(&mut r, size, 25, 10, &mut next);
                let (s, d) = &mut pool[at];
                cd.owner = r.chance(50);
                if cd.owner { s.append_as_owner(cs); } else { s.append(cs); }
                d.children.push(cd);
            },
            7 if pool.len() > 1 => {
                // One scene goes below another.
                trace += &format!("append {at} to another\n");
                let (cs, mut cd) = pool.swap_remove(at);
                let to = r.below(pool.len());
                let (s, d) = &mut pool[to];
                if d.count() + cd.count() > 400 { continue; }
                cd.owner = r.chance(50);
                if cd.owner { s.append_as_owner(cs); } else { s.append(cs); }
                d.children.push(cd);
            },
            8 => { trace += &format!("change the mark of {at}\n"); let (s, d) = &mut pool[at]; s.is_owner = !s.is_owner; d.owner = s.is_owner; },
            9 => {
                // A node somewhere in the scene is changed.
                trace += &format!("change a node of {at}\n");
                let (s, d) = &mut pool[at];
                let k = r.below(d.count());
                let dn = node_at(d, k);
                fn scene_at<'a>(s: &'a NodeScene, at: &mut usize) -> Option<&'a NodeScene> {
                    if *at == 0 { return Some(s); }
                    for c in s.children() { *at -= 1; if let Some(x) = scene_at(c, at) { return Some(x); } }
                    None
                }
                let mut k = k;
                let sn = scene_at(s, &mut k).expect("a node");
                let name = gen_name(&mut r, 10);
                peek(sn, |n| {
                    n.set_name(&name);
                    if let Some(x) = n.as_any_mut().downcast_mut::<Rich>() {
                        (*x.list).push(r.u64() as u32);
                        *x.text = gen_text(&mut r);
                        (*x.map).insert(gen_text(&mut r), 5);
                        if !x.words.is_void() { (*x.words).push(gen_text(&mut r)); }
                        *x.deft = r.u64() as u32;
                        x.own = UniqueField::new(r.u64());
                    }
                });
                dn.name = name;
                if let Some((_, _, saved, rest)) = peek(sn, |n| state(n)) { dn.saved = saved; dn.rest = rest; }
            },
            10 => { trace += &format!("save {at}\n"); if let Err(e) = pool[at].0.save_to_str() { fail(format!("a scene cannot be saved: {e}")); } },
            _ => { trace += &format!("hash {at}\n"); let _ = pool[at].0.structural_hash(); }
        }
        for (i, (s, d)) in pool.iter().enumerate() { if !same(d, s, &format!("scene {i} of those in use")) { fail(clip(&trace)); break; } }
    }
    add("clones", cloned);
    while !pool.is_empty() {
        let at = r.below(pool.len());
        let (s, d) = pool.swap_remove(at);
        if r.chance(60) { instanced(s, &d); }
        for (s, d) in &pool { if !same(d, s, "a scene that is left after others were instanced or dropped") { break; } }
    }
    if wants_sample() && cloned > 2 { sample(clip(&trace)); }
    evaluated(cloned > 0, hash_str(&trace));
    all_gone();
}
