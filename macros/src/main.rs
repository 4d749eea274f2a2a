//! C28: what the class! and scene! macros make of random declarations and literals. The declarations, and what they have
//! to come to, are written by tools/gen_macros.py into the file that MACROS_FILE names when this is compiled.
#![allow(dead_code, unused, non_camel_case_types, non_snake_case, unused_parens)]
#![deny(unfulfilled_lint_expectations)]

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;

use node_tree::prelude::*;
use node_tree::structs::node_field::{ DefaultField, ExportableField, Field, UniqueField };
use node_tree::trees::tree_simple::TreeSimple;

#[derive(Debug, Clone, PartialEq, Default)]
pub enum Kind { #[default] One, Two(u8), Three { x: u8 } }

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Unique0(pub u8);
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Unique1(pub u8);
/// Its functions are called as some of the library's are.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Roll(pub u8);
impl Roll {
    pub fn wrap(self) -> u8 { self.0 }
    pub fn new(self) -> u8 { self.0 }
    pub fn append(&mut self, _: u8) {}
}

pub trait Alpha { fn who(&self) -> String; }
pub trait Beta  { fn who(&self) -> String; }
pub trait Gamma { fn who(&self) -> String; }

pub fn c_three() -> u8 { 3 }
pub fn helper(x: u64) -> u64 { x + 1 }

mod made { include!(env!("MACROS_FILE")); }

class! { declare Host; hk process_mode(&self) -> ProcessMode { ProcessMode::Pausable } }

thread_local! {
    static NOTES: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
    static FAILS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static COUNT: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}

pub fn note(what: &'static str) { count("hooks_noted"); NOTES.with(|n| n.borrow_mut().push(what)) }
pub fn notes() -> Vec<&'static str> { NOTES.with(|n| std::mem::take(&mut *n.borrow_mut())) }
pub fn count(what: &'static str) { COUNT.with(|c| *c.borrow_mut().entry(what).or_insert(0) += 1) }
fn fail(msg: String) { FAILS.with(|f| f.borrow_mut().push(msg)) }

pub fn same<T: PartialEq + Debug>(what: &str, is: T, should: T) {
    count("values_compared");
    if is != should { fail(format!("{what} is {is:?} instead of {should:?}")); }
}

pub fn expect(what: &str, is: Vec<&'static str>, should: &[&'static str]) {
    if is != should { fail(format!("{what}: {is:?} instead of {should:?}")); }
}

/// The node of a scene, which stays with the scene.
pub fn peek<T: Node>(s: &NodeScene) -> &T {
    let raw = Box::into_raw(unsafe { s.get_node() });
    let n: &dyn Node = unsafe { &*raw };
    match n.as_any_ref().downcast_ref::<T>() {
        Some(x) => x,
        None    => panic!("a node of type {} instead of {}", n.name_as_type(), std::any::type_name::<T>())
    }
}

pub fn parts(s: &NodeScene) -> Vec<&NodeScene> { s.children().into_iter().collect() }

pub fn same_ownership(a: &NodeScene, b: &NodeScene) {
    same("ownership", a.is_owner, b.is_owner);
    for (a, b) in parts(a).into_iter().zip(parts(b)) { same_ownership(a, b); }
}

/// Lets a node of a class live in a tree: exactly the hooks that are written run, and it is castable to what it extends.
pub fn lives(scene: NodeScene, from_disk: bool, hooks: [bool; 4], notes_freed: bool, mode: ProcessMode, extends: [bool; 3], name: &str) {
    let [loaded, ready, process, terminal] = hooks;
    let mut want: Vec<&'static str> = Vec::new();
    notes();
    let mut tree: Box<TreeSimple> = TreeSimple::new(Host::new(), LoggerVerbosity::OnlyPanics);
    tree.root_mut().add_child(scene);
    if loaded && from_disk { want.push("loaded"); }
    if ready { want.push("ready"); }
    expect("hooks when added", notes(), &want);
    let p: TpDyn = tree.root().get_child_dyn(0).unwrap();
    same("process mode", p.get().process_mode(), mode.clone());
    same("casts to Alpha", p.cast::<dyn Alpha>().to_option().map(|x| x.who()), extends[0].then(|| format!("Alpha {name}")));
    same("casts to Beta",  p.cast::<dyn Beta>().to_option().map(|x| x.who()),  extends[1].then(|| format!("Beta {name}")));
    same("casts to Gamma", p.cast::<dyn Gamma>().to_option().map(|x| x.who()), extends[2].then(|| format!("Gamma {name}")));
    drop(p);
    let _ = tree.process();
    let runs = |paused: bool| process && match mode { ProcessMode::Always => true, ProcessMode::Inverse => paused, _ => !paused };
    expect("hooks in a frame", notes(), if runs(false) { &["process"] } else { &[] });
    tree.base_mut().pause();
    let _ = tree.process();
    expect("hooks in a frame while paused", notes(), if runs(true) { &["process"] } else { &[] });
    let mut last: Vec<&'static str> = Vec::new();
    if terminal { last.push("terminal"); if notes_freed { last.push("freed"); } }
    let mut p: TpDyn = tree.root().get_child_dyn(0).unwrap();
    p.free();
    expect("hooks when freed", notes(), &last);
    drop(tree);
    expect("hooks when dropped", notes(), &[]);
    count("lives");
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c)
        }
    }
    o + "\""
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str, default: u64| get(name).map(|v| v.parse().expect(name)).unwrap_or(default);
    let (from, total, stride) = (num("--from", 0), num("--count", 1), num("--stride", 1));
    std::panic::set_hook(Box::new(|_| {}));
    let mut violations = Vec::new();
    let mut distinct = Vec::new();
    let mut samples = Vec::new();
    let mut done = 0;
    for i in 0..total {
        let case = (from + i * stride) as usize;
        let Some((name, f, source)) = made::CHECKS.get(case) else { break };
        if let Some(p) = get("--progress") { let _ = std::fs::write(p, format!("{case:020}")); }
        if let Err(e) = std::panic::catch_unwind(f) {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            fail(format!("panicked: {msg}"));
        }
        done += 1;
        count(if name.starts_with("class") { "classes" } else { "scenes" });
        let fails = FAILS.with(|f| std::mem::take(&mut *f.borrow_mut()));
        for f in fails.iter().take(5) {
            violations.push(format!("{{\"tags\": [\"C28\"], \"case\": {case}, \"msg\": {}, \"trace\": {}}}", esc(&format!("{name}: {f}")), esc(source)));
        }
        let mut h: u64 = 0xcbf29ce484222325;
        for b in source.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        distinct.push(format!("\"{h:x}\""));
        if samples.len() < 2 { samples.push(esc(source)); }
    }
    let counters: Vec<String> = COUNT.with(|c| c.borrow().iter().map(|(k, v)| format!("\"{k}\": {v}")).collect());
    let json = format!("{{\"evaluations\": {done}, \"counters\": {{{}}}, \"distinct\": [{}], \"samples\": [{}], \"violations\": [{}]}}", counters.join(", "), distinct.join(", "), samples.join(", "), violations.join(", "));
    match get("--out") { Some(f) => std::fs::write(f, json).expect("out"), None => println!("{json}") }
    std::process::exit(0);
}
