//! C23: crash reports, read back from the log. C24: failing accessors.

use std::cell::RefCell;
use std::collections::{ BTreeMap, HashMap, HashSet };
use std::panic::{ catch_unwind, AssertUnwindSafe };

use node_tree::prelude::*;
use node_tree::structs::tree_option::TreeOption;
use node_tree::structs::tree_result::TreeResult;
use node_tree::trees::tree_simple::TreeSimple;

use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::{ hash_str, Rng };

class! {
    pub declare Speaker extends Speaks;
    pub let id: usize;
    hk _init(id_: usize) { let id = id_; }
    hk ready(&mut self)                           { let id = *self.id; speak(self, id, 'R') }
    hk process(&mut self, _delta: f32)            { let id = *self.id; speak(self, id, 'P') }
    hk terminal(&mut self, _r: TerminationReason) { let id = *self.id; speak(self, id, 'T') }
}

class! {
    pub declare Mute extends Mutes;
    pub let id: usize;
    hk _init(id_: usize) { let id = id_; }
    hk ready(&mut self)                           { let id = *self.id; speak(self, id, 'R') }
    hk process(&mut self, _delta: f32)            { let id = *self.id; speak(self, id, 'P') }
    hk terminal(&mut self, _r: TerminationReason) { let id = *self.id; speak(self, id, 'T') }
}

pub trait Speaks { fn told(&self) -> usize; }
pub trait Mutes { fn told(&self) -> usize; }
impl Speaks for Speaker { fn told(&self) -> usize { *self.id } }
impl Mutes for Mute { fn told(&self) -> usize { *self.id } }

fn name_of(id: usize) -> String {
    match id % 7 { 3 => format!("node {id}"), 5 => format!("ñ{id}"), 6 => format!("n{id} "), _ => format!("n{id}") }
}

fn fresh(id: usize) -> Box<dyn Node> {
    let mut n: Box<dyn Node> = if id % 3 == 2 { Mute::new(id).to_dyn_box() } else { Speaker::new(id).to_dyn_box() };
    n.set_name(&if M.with(|c| c.borrow().as_ref().is_some_and(|m| m.twins)) { format!("n{}", id % 2) } else { name_of(id) });
    n
}

/// A scene with the nodes `from..from + parents.len()`; every node is below one in front of it.
fn scene(from: usize, parents: &[usize]) -> NodeScene {
    let mut parts: Vec<NodeScene> = (0..parents.len()).map(|i| NodeScene::new_dyn(fresh(from + i))).collect();
    let mut waiting: Vec<Vec<NodeScene>> = parts.iter().map(|_| Vec::new()).collect();
    while let Some(mut s) = parts.pop() {
        let at = parts.len();
        for c in std::mem::take(&mut waiting[at]).into_iter().rev() { s.append(c); }
        if at == 0 { return s; }
        waiting[parents[at]].push(s);
    }
    unreachable!()
}

fn gen_parents(r: &mut Rng) -> Vec<usize> {
    let n = match r.below(10) { 0 => 1, 1..=5 => r.range(2, 15), 6 => r.range(15, 60), _ => r.range(5, 25) };
    let how = r.below(4);
    (0..n).map(|i| if i == 0 { 0 } else { match how { 0 => i - 1, 1 => r.below(i), 2 => i - 1 - r.below(i.min(3)), _ => i / 2 } }).collect()
}

// -------------------------------------------------------------------------------------------- C23

#[derive(Clone, Debug)]
struct Issue { frame: u64, inside: bool, panic: bool, msg: String }

struct Model {
    rng: Rng, frame: u64, inside: bool, issues: HashMap<usize, Issue>, said: u64, header: Option<String>, footer: Option<String>,
    trace: Vec<String>, reports: u64, listed: u64, budget: i32, next: usize, broken: bool, panic_percent: u32, gone: HashSet<usize>, seen: u64, dead: bool,
    twins: bool    // Many nodes have the same name.
}

thread_local! { static M: RefCell<Option<Model>> = const { RefCell::new(None) }; }

fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R { M.with(|c| f(c.borrow_mut().as_mut().expect("a case"))) }
fn active() -> bool { M.with(|c| c.borrow().is_some()) }

fn wrong(what: String) {
    m(|m| if !m.broken { m.broken = true; fail(format!("{what}; after\n{}", m.trace[m.trace.len().saturating_sub(60)..].join("\n"))); })
}

/// What a node does when one of its hooks runs.
fn speak(node: &mut dyn Node, id: usize, hook: char) {
    if !active() { return; }
    if hook == 'P' && m(|m| m.dead) { wrong(format!("node {id} is processed although a panic was posted")); }
    let acts = m(|m| {
        m.seen += 1;
        if hook == 'T' { m.gone.insert(id); }
        m.trace.push(format!("{hook} {id}"));
        m.budget -= 1;
        if m.budget < 0 || m.broken { return 0; }
        let percent = if hook == 'P' { 35 } else { 20 };
        if m.rng.chance(percent) { m.rng.range(1, 3) } else { 0 }
    });
    for _ in 0..acts {
        match m(|m| m.rng.below(12)) {
            0 if hook != 'T' => {
                let (from, parents) = m(|m| { let mut p = gen_parents(&mut m.rng); p.truncate(4); let f = m.next; m.next += p.len(); m.trace.push(format!("  {id} adds {f}..{}", m.next)); (f, p) });
                node.add_child(scene(from, &parents));
            },
            1 if hook == 'P' => {
                // A child of the node is freed.
                let kids = node.num_children();
                if kids > 0 {
                    let k = m(|m| m.rng.below(kids));
                    let mut kid = node.get_child_dyn(k).unwrap();
                    m(|m| m.trace.push(format!("  {id} frees {}", kid.name())));
                    kid.free();
                }
            },
            _ => say(node, id)
        }
    }
}

fn say(node: &mut dyn Node, id: usize) {
    let (kind, msg) = m(|m| {
        m.said += 1;
        let k = if m.rng.chance(m.panic_percent) { 3 } else { *m.rng.pick(&[0, 1, 2, 2, 2]) };
        // Some nodes say the very same.
        (k, match m.rng.below(8) { 0 => "the same again".to_string(), 1 => format!("{} of {id}", m.rng.below(2)), 2 => format!("message {} ", m.said), 3 => format!("  {} of {id}\t ", m.said), _ => format!("message {} of {id}", m.said) })
    });
    let Some(tree) = node.tree() else { return };
    let before = tree.get_log().len();
    m(|m| m.trace.push(format!("  {id} posts {} {msg:?}", ["debug", "info", "warn", "panic"][kind])));
    match (kind, m(|m| m.rng.chance(30))) {
        (0, _)     => node.post(Log::Debug(&msg)),
        (1, _)     => node.post(Log::Info(&msg)),
        (2, true)  => warn!(node, "{}", msg),
        (2, false) => node.post(Log::Warn(&msg)),
        (_, true)  => error!(node, "{}", msg),
        _          => node.post(Log::Panic(&msg))
    }
    m(|m| if kind == 3 { m.dead = true; });
    m(|m| if kind > 1 { m.issues.insert(id, Issue { frame: m.frame, inside: m.inside, panic: kind == 3, msg: msg.clone() }); });
    let Some(tree) = node.tree() else { return };
    if kind == 3 {
        let log = tree.get_log()[before..].to_string();
        let root = tree.root();
        let mut real = BTreeMap::new();
        look(root, None, &mut real);
        check_report(&log, &msg, id, &real);
    }
}

/// The same with something at its ends that is easily lost.
fn edged(r: &mut Rng, s: String) -> String {
    let edge = |r: &mut Rng| if r.chance(60) { "" } else { *r.pick(&[" ", "\n", "  \n", "\t", "\r\n", "{}", "%s", "\\", "\u{1b}[0m", "\u{1b}[35m", "\u{feff}"]) };
    let (a, b) = (edge(r), edge(r));
    format!("{a}{s}{b}")
}

struct Real { name: String, parent: Option<usize>, children: Vec<usize> }

fn id_of(n: &dyn Node) -> usize {
    let any = n.as_any_ref();
    any.downcast_ref::<Speaker>().map(|s| *s.id).or_else(|| any.downcast_ref::<Mute>().map(|s| *s.id)).unwrap_or(usize::MAX)
}

fn look(n: &dyn Node, parent: Option<usize>, out: &mut BTreeMap<usize, Real>) {
    let (kids, id) = (n.children(), id_of(n));
    out.insert(id, Real { name: n.name().to_string(), parent, children: kids.iter().map(|k| id_of(k.get())).collect() });
    for k in &kids { look(k.get(), Some(id), out); }
}

fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' { for c in it.by_ref() { if c == 'm' { break; } } } else { out.push(c); }
    }
    out
}

/// Reads a report and compares it with the tree and with what was posted.
fn check_report(log: &str, msg: &str, id: usize, real: &BTreeMap<usize, Real>) {
    let (header, footer) = m(|m| (m.header.clone(), m.footer.clone()));
    m(|m| m.reports += 1);
    let Some(at) = log.find(&format!("{msg}\n")) else { return wrong(format!("the log does not have the panic {msg:?}, but ends with {log:?}")) };
    let report = &log[at + msg.len() + 1..];
    let (Some(a), Some(b), Some(c), Some(e)) = (report.find("[REPORT START]\n"), report.find("[Same-Frame Warnings]\n"), report.find("[Same-Frame Panics]\n"), report.find("[REPORT END]"))
        else { return wrong(format!("there is no complete report after the panic of node {id}: {report:?}")) };
    if !(a < b && b < c && c < e) { return wrong(format!("the parts of a report are in another order: {report:?}")); }
    if let Some(h) = header { if !report[..a].contains(&h) { return wrong(format!("the report does not begin with the header {h:?}: {:?}", &report[..a])); } }
    if let Some(f) = footer { if !report[e..].ends_with(&f) { return wrong(format!("the report does not end with the footer {f:?}: {:?}", &report[e..])); } }

    // The drawing.
    let mut drawn: Vec<(usize, String)> = Vec::new();
    let mut pipes: Vec<Vec<bool>> = Vec::new();   // For each column of a line, whether something of that level follows.
    for line in plain(&report[a + "[REPORT START]\n".len()..b]).split('\n').filter(|l| !l.is_empty()) {
        let (mut depth, mut rest) = (0, line);
        let mut columns = Vec::new();
        let cut = |rest: &'_ str, more: &str, none: &str| -> Option<(String, bool)> {
            rest.strip_prefix(more).map(|r| (r.to_string(), true)).or_else(|| rest.strip_prefix(none).map(|r| (r.to_string(), false)))
        };
        let mut rest_s;
        while let Some((r, more)) = cut(rest, "│   ", "    ") { rest_s = r; rest = &rest_s; columns.push(more); depth += 1; }
        match cut(rest, "├── ", "└── ") {
            Some((r, more)) => { rest_s = r; rest = &rest_s; columns.push(more); depth += 1; },
            None if depth > 0 => return wrong(format!("a line of the drawing cannot be read: {line:?}")),
            None => ()
        }
        drawn.push((depth, rest.to_string()));
        pipes.push(columns);
    }
    for (i, columns) in pipes.iter().enumerate() {
        for (level, &more) in columns.iter().enumerate() {
            let follows = drawn[i + 1..].iter().find(|d| d.0 <= level + 1).is_some_and(|d| d.0 == level + 1);
            if more != follows { return wrong(format!("the lines of the drawing do not meet at {:?}: {}", drawn[i].1, plain(&report[a..b]))); }
        }
    }
    if drawn.is_empty() || drawn[0].0 != 0 || drawn[1..].iter().any(|d| d.0 == 0) { return wrong(format!("the drawing has not one first node: {drawn:?}")); }
    // The first node is one of those above; several of them may have the same name.
    let mut line = vec![id];
    while let Some(p) = real.get(line.last().expect("one")).and_then(|r| r.parent) { line.push(p); }
    let mut first: Option<String> = None;
    let mut ways: Vec<HashSet<usize>> = Vec::new();
    for height in (0..line.len()).rev() {
        if real[&line[height]].name != drawn[0].1 { continue; }
        match find_drawn(&drawn, id, &line, height, real) {
            Ok(found) => ways.push(found),
            Err(what) => { first.get_or_insert(what); }
        }
    }
    if ways.is_empty() {
        return wrong(first.unwrap_or(format!("the drawing starts at {:?}, which is no node above {:?}", drawn[0].1, real[&id].name)));
    }
    // How each way of reading the drawing fails.
    let mut fails: Vec<Option<String>> = vec![None; ways.len()];

    // The lists.
    let list = |from: &str| -> Vec<String> { plain(from).split('\n').map(|l| l.to_string()).filter(|l| !l.is_empty() && l != "None").collect() };
    let lists = [list(&report[b + "[Same-Frame Warnings]\n".len()..c]), list(&report[c + "[Same-Frame Panics]\n".len()..e])];
    let (issues, frame, inside) = m(|m| (m.issues.clone(), m.frame, m.inside));
    let now = |i: &Issue| i.frame == frame;
    for (k, list) in lists.iter().enumerate() {
        let kind = ["warning", "panic"][k];
        let text = plain(if k == 0 { &report[b..c] } else { &report[c..e] });
        if list.is_empty() != text.split('\n').any(|l| l == "None") { return wrong(format!("the list of {kind}s neither says that it is empty nor has an entry, or both: {text:?}")); }
        let line_of = |id: usize, i: &Issue| plain(&format!("{} - {}", real[&id].name, i.msg));
        let is_now: Vec<(usize, &Issue)> = real.keys().filter_map(|id| issues.get(id).map(|i| (*id, i))).filter(|(_, i)| now(i) && i.panic == (k == 1)).collect();
        for entry in list {
            m(|m| m.listed += 1);
            let (times, most) = (list.iter().filter(|e| *e == entry).count(), is_now.iter().filter(|(n, i)| line_of(*n, i) == *entry).count());
            if most == 0 {
                let old = issues.values().find(|i| entry.ends_with(&i.msg));
                return wrong(format!("{entry:?} is listed as a {kind}, but no node posted that as its last issue in this frame ({frame}; {old:?})"));
            }
            if times > most { return wrong(format!("the {kind} {entry:?} is listed {times} times: {lists:?}")); }
        }
        for (n, i) in is_now {
            if i.inside == inside && !list.contains(&line_of(n, i)) {
                for (names, fail) in ways.iter().zip(&mut fails) {
                    if names.contains(&n) { fail.get_or_insert(format!("the last {kind} of the drawn node {n} ({:?}), {:?}, is not listed: {lists:?}", real[&n].name, i.msg)); }
                }
            }
        }
    }
    if fails.iter().all(|f| f.is_some()) { wrong(fails.swap_remove(0).expect("a failure")); }
}

/// Compares a drawing with the tree; its first line is the node `line[height]`. Returns the nodes that are drawn.
fn find_drawn(drawn: &[(usize, String)], id: usize, line: &[usize], height: usize, real: &BTreeMap<usize, Real>) -> Result<HashSet<usize>, String> {
    let mine = &real[&id].name;
    if height < 2 && height + 1 < line.len() { return Err(format!("the drawing starts at {:?} and leaves out what is above {mine:?}: {line:?}", drawn[0].1)); }
    let mut kids: Vec<Vec<usize>> = vec![Vec::new(); drawn.len()];
    let mut path: Vec<usize> = Vec::new();
    for (i, (depth, name)) in drawn.iter().enumerate() {
        if *depth > path.len() { return Err(format!("{name:?} is drawn below nothing: {drawn:?}")); }
        path.truncate(*depth);
        if let Some(&p) = path.last() { kids[p].push(i); }
        path.push(i);
    }
    let mut is: Vec<Option<usize>> = vec![None; drawn.len()];
    is[0] = Some(line[height]);
    for (i, (_, name)) in drawn.iter().enumerate() {
        if name == "..." { if !kids[i].is_empty() { return Err(format!("something is drawn below an ellipsis: {drawn:?}")); } continue; }
        let Some(me) = is[i] else { return Err(format!("{name:?} is drawn, but there is no such node in the tree: {drawn:?}")) };
        let r = &real[&me];
        let must = line[..height + 1].contains(&me);
        if kids[i].is_empty() && !must { continue; }
        let shown: Vec<&String> = kids[i].iter().map(|k| &drawn[*k].1).collect();
        if shown.len() != r.children.len() || shown.iter().zip(&r.children).any(|(k, c)| **k != real[c].name && *k != "...") {
            return Err(format!("{shown:?} are drawn below {name:?}, whose children are {:?}: {drawn:?}", r.children.iter().map(|c| &real[c].name).collect::<Vec<_>>()));
        }
        if must && me != id && shown.iter().any(|k| *k == "...") { return Err(format!("the nodes around {mine:?} are not drawn: {drawn:?}")); }
        for (k, c) in kids[i].iter().zip(&r.children) { is[*k] = Some(*c); }
    }
    let names: HashSet<usize> = is.iter().enumerate().filter(|(i, _)| drawn[*i].1 != "...").filter_map(|(_, n)| *n).collect();
    if !names.contains(&id) { return Err(format!("{mine:?} posted the panic and is not drawn: {drawn:?}")); }
    Ok(names)
}

pub fn reports(mut r: Rng) {
    let parents = gen_parents(&mut r);
    let verbosity = r.below(4);
    let v = match verbosity { 0 => LoggerVerbosity::All, 1 => LoggerVerbosity::NoDebug, 2 => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics };
    let frames = r.range(1, 5);
    let panic_percent = *r.pick(&[2, 5, 10, 30]);
    let twins = r.chance(40);
    if twins { count("trees_with_equal_names"); }
    M.with(|c| *c.borrow_mut() = Some(Model {
        rng: r, frame: 0, inside: false, issues: HashMap::new(), said: 0, header: None, footer: None, trace: vec![format!("tree {parents:?} verbosity {verbosity}")],
        reports: 0, listed: 0, budget: 400, next: parents.len(), broken: false, panic_percent: 0, gone: HashSet::new(), seen: 0, dead: false, twins
    }));
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene(0, &parents), v);
    m(|m| m.panic_percent = panic_percent);
    let mut ended = false;
    let outside = |tree: &mut Box<TreeSimple>, force: bool| {
        if m(|m| m.rng.chance(25)) {
            let h = m(|m| { m.said += 1; let h = edged(&mut m.rng, format!("header {}\nsecond line", m.said)); m.header = Some(h.clone()); m.trace.push("set the header".into()); h });
            tree.base_mut().set_default_header_on_panic(&h);
        }
        if m(|m| m.rng.chance(25)) {
            let f = m(|m| { m.said += 1; let f = edged(&mut m.rng, format!("footer\n{}", m.said)); m.footer = Some(f.clone()); m.trace.push("set the footer".into()); f });
            tree.base_mut().set_default_footer_on_panic(&f);
        }
        for _ in 0..m(|m| if force { 1 } else if m.rng.chance(40) { m.rng.range(1, 3) } else { 0 }) {
            // Some node posts outside of any frame.
            let rids = tree.root().top_down(true);
            let at = m(|m| m.rng.below(rids.len()));
            if let Some(n) = tree.get_node_mut(rids[at]) { let id = id_of(n); say(n, id); }
        }
    };
    for _ in 0..frames {
        if m(|m| m.broken) { break; }
        outside(&mut tree, false);
        let (dead, seen) = (m(|m| m.dead), m(|m| m.seen));
        if m(|m| m.rng.chance(10)) { tree.queue_termination(); }
        m(|m| { if !dead && !ended { m.frame += 1; } m.inside = true; m.trace.push(format!("frame {}", m.frame)); });
        let status = tree.process();
        m(|m| { m.inside = false; });
        ended |= !status.is_active();
        if dead && m(|m| m.seen) != seen { wrong("a node's hook runs in a frame of a tree that was terminated by a panic".to_string()); }
        if m(|m| m.dead) && status != TreeStatus::Terminated { wrong(format!("a frame with or after a panic leaves the tree {status:?}")); }
    }
    if m(|m| !m.broken && (m.reports == 0 || m.rng.chance(20))) { m(|m| m.panic_percent = 100); outside(&mut tree, true); }
    let (reports, listed, trace) = m(|m| (m.reports, m.listed, m.trace.join("\n")));
    crate::report::add("reports_read", reports);
    crate::report::add("issues_listed", listed);
    if wants_sample() && listed > 1 { sample(tree.get_log().chars().rev().take(1400).collect::<Vec<char>>().into_iter().rev().collect()); }
    M.with(|c| *c.borrow_mut() = None);
    drop(tree);
    evaluated(reports > 0, hash_str(&trace));
}

// -------------------------------------------------------------------------------------------- C24

/// The tree of a case, and what is known of it.
struct Stage { parents: Vec<Option<usize>>, alive: Vec<bool>, single: Vec<Option<String>>, trace: Vec<String>, failures: u64, quiet: u64, broken: bool, dead: bool }

impl Stage {
    fn path(&self, id: usize) -> String {
        let mut out = vec![name_of(id)];
        let mut at = id;
        while let Some(p) = self.parents[at] { out.push(name_of(p)); at = p; }
        out.reverse();
        out.join("/")
    }
    fn system(&self, id: usize) -> String {
        if !self.alive[id] { return "NodeTree".to_string(); }
        self.single[id].clone().unwrap_or_else(|| format!("[{}]", self.path(id)))
    }
    fn below(&self, id: usize, of: usize) -> bool { id == of || self.parents[id].is_some_and(|p| self.below(p, of)) }
    fn wrong(&mut self, what: String) {
        if self.broken { return; }
        self.broken = true;
        fail(format!("{what}; after\n{}", self.trace.join("\n")));
    }
}

type Raw = *mut TreeSimple;

fn get_log(t: Raw) -> String { unsafe { &*t }.get_log().to_string() }

/// An access that has to be logged as a panic of `owner`, end the tree and unwind.
fn must_fail(s: &mut Stage, t: Raw, what: &str, owner: usize, needle: Option<&str>, f: impl FnOnce() -> String) {
    if s.broken { return; }
    let before = get_log(t);
    s.trace.push(format!("{what}, obtained by {}", name_of(owner)));
    s.failures += 1;
    let out = catch_unwind(AssertUnwindSafe(f));
    if let Ok(x) = out { return s.wrong(format!("{what} returns {x:?}")); }
    let (log, status) = (get_log(t), unsafe { &mut *t }.process());
    s.dead = true;
    if status != TreeStatus::Terminated { return s.wrong(format!("{what} leaves the tree {status:?}")); }
    let Some(new) = log.strip_prefix(&before) else { return s.wrong(format!("{what} changes what was in the log")) };
    if new.matches(" | PANIC! | ").count() != 1 { return s.wrong(format!("{what} logs not one panic, but {new:?}")); }
    let first = new.split(" UTC> | ").nth(1).unwrap_or_default();
    let want = s.system(owner);
    if !first.starts_with(&format!("{want} | PANIC! | ")) { return s.wrong(format!("{what} is not logged as a panic of {want}, but {new:?}")); }
    if let Some(n) = needle { if !first.contains(n) { return s.wrong(format!("the panic of {what} does not have the message {n:?}, but is {new:?}")); } }
}

/// An access that leaves log and tree alone, and gives the text that it should.
fn must_not(s: &mut Stage, t: Raw, what: &str, want: &str, f: impl FnOnce() -> String) {
    if s.broken { return; }
    let before = get_log(t);
    s.quiet += 1;
    match catch_unwind(AssertUnwindSafe(f)) {
        Err(_) => return s.wrong(format!("{what} panics ({})", crate::last_panic())),
        Ok(x) => if x != want { return s.wrong(format!("{what} gives {x} instead of {want}")); }
    }
    if get_log(t) != before { s.wrong(format!("{what} writes to the log: {:?}", &get_log(t)[before.len()..])); }
}

enum Ptr { S(Tp<'static, Speaker>), M(Tp<'static, Mute>), D(TpDyn<'static>) }

fn long<A, B>(a: A) -> B { assert_eq!(size_of::<A>(), size_of::<B>()); let b = unsafe { std::mem::transmute_copy(&a) }; std::mem::forget(a); b }

/// A pointer to `target` that `owner` obtains.
fn obtain(r: &mut Rng, s: &Stage, t: Raw, rids: &[RID], owner: usize, target: usize) -> Option<Ptr> {
    let node: &dyn Node = unsafe { &*t }.get_node(rids[owner])?;
    let path = format!("/{}", s.path(target));
    let mute = target % 3 == 2;
    let d: TpDyn = match r.below(6) {
        0 if owner == target => node.this_dyn(),
        1 if s.parents[target] == Some(owner) => {
            let at = node.children().iter().position(|c| c.rid() == rids[target])?;
            if r.chance(50) { node.get_child_dyn(at).unwrap() } else { node.children()[at] }
        },
        2 if s.parents[owner] == Some(target) => node.parent_dyn().unwrap(),
        3 if target == 0 => if r.chance(50) { node.owner_dyn() } else { node.owner::<Speaker>().unwrap().to_dyn() },
        _ => node.get_node_dyn(NodePath::from_str(&path)).unwrap()
    };
    // A pointer that goes through others still belongs to the one who obtained it.
    let mut d = d;
    for _ in 0..r.below(3) {
        d = match (mute, r.chance(50)) {
            (true, true)   => d.to::<Mute>().unwrap().to_dyn(),
            (true, false)  => d.to::<Mute>().unwrap().try_to_dyn().unwrap(),
            (false, true)  => d.to::<Speaker>().unwrap().to_dyn(),
            (false, false) => d.to::<Speaker>().unwrap().try_to_dyn().unwrap()
        };
    }
    if r.chance(40) { return Some(Ptr::D(long(d))); }
    let typed = r.below(3);
    if mute {
        let p: Tp<Mute> = match typed { 0 => d.to::<Mute>().unwrap(), 1 => long(Tp::<Mute>::clone(&node.get_node::<Mute>(NodePath::from_str(&path)).unwrap())), _ => node.get_node::<Mute>(NodePath::from_str(&path)).unwrap() };
        Some(Ptr::M(long(p)))
    } else {
        let p: Tp<Speaker> = match typed { 0 => d.to::<Speaker>().unwrap(), 1 => long(Tp::<Speaker>::clone(&node.get_node::<Speaker>(NodePath::from_str(&path)).unwrap())), _ => node.get_node::<Speaker>(NodePath::from_str(&path)).unwrap() };
        Some(Ptr::S(long(p)))
    }
}

macro_rules! typed_ops { ($s:ident, $t:ident, $r:ident, $p:ident, $ty:ty, $owner:expr, $target:expr, $valid:expr) => { {
    let want = format!("{}", $target);
    let w = format!("a Tp to {}", name_of($target));
    let p = $p;
    let ops: [(&str, Box<dyn FnOnce() -> String>); 8] = [
        ("unwrapping try_get of ",     { let p = p.clone(); Box::new(move || format!("{}", *p.try_get().unwrap().id)) }),
        ("unwrapping try_get_mut of ", { let mut p = p.clone(); Box::new(move || format!("{}", *p.try_get_mut().unwrap().id)) }),
        ("unwrapping try_to_dyn of ",  { let p = p.clone(); Box::new(move || format!("{}", id_of(p.try_to_dyn().unwrap().get()))) }),
        ("get of ",          { let p = p.clone(); Box::new(move || format!("{}", *p.get().id)) }),
        ("get_mut of ",      { let mut p = p.clone(); Box::new(move || format!("{}", *p.get_mut().id)) }),
        ("reading through ", { let p = p.clone(); Box::new(move || format!("{}", *p.id)) }),
        ("writing through ", { let mut p = p.clone(); Box::new(move || { let d: &mut $ty = &mut p; format!("{}", *d.id) }) }),
        ("to_dyn of ",       { let p = p.clone(); Box::new(move || { let d = p.to_dyn(); format!("{}", id_of(d.get())) }) })
    ];
    let pick = $r.below(ops.len());
    for (i, (what, f)) in ops.into_iter().enumerate() {
        if i != pick { continue; }
        if $valid { must_not($s, $t, &format!("{what}{w}"), &want, f); } else { must_fail($s, $t, &format!("{what}{w}"), $owner, None, f); }
    }
    must_not($s, $t, &format!("is_null and is_valid of {w}"), &format!("{} {}", !$valid, $valid), || format!("{} {}", p.is_null(), p.is_valid()));
    must_not($s, $t, &format!("try_get of {w}"), if $valid { &want } else { "none" }, || p.try_get().map(|n| format!("{}", *n.id)).unwrap_or("none".to_string()));
    must_not($s, $t, &format!("try_get_mut of {w}"), if $valid { &want } else { "none" }, || { let mut p = p.clone(); p.try_get_mut().map(|n| format!("{}", *n.id)).unwrap_or_else(|_| "none".to_string()) });
    must_not($s, $t, &format!("try_to_dyn of {w}"), &format!("{}", $valid), || format!("{}", p.clone().try_to_dyn().to_option().is_some()));
} } }

fn use_pointer(s: &mut Stage, t: Raw, r: &mut Rng, p: &Ptr, owner: usize, target: usize) {
    let valid = s.alive[target];
    match p {
        Ptr::S(p) => { let p = p.clone(); typed_ops!(s, t, r, p, Speaker, owner, target, valid) },
        Ptr::M(p) => { let p = p.clone(); typed_ops!(s, t, r, p, Mute, owner, target, valid) },
        Ptr::D(p) => {
            let p = *p;
            let (want, w) = (format!("{target}"), format!("a TpDyn to {}", name_of(target)));
            let (what, f): (&str, Box<dyn FnOnce() -> String>) = match r.below(8) {
                4 => ("unwrapping try_get of ",     Box::new(move || format!("{}", id_of(p.try_get().unwrap())))),
                5 => ("unwrapping try_get_mut of ", Box::new(move || { let mut p = p; format!("{}", id_of(p.try_get_mut().unwrap())) })),
                6 => ("unwrapping cast of ",        Box::new(move || if target % 3 == 2 { format!("{}", p.cast::<dyn Mutes>().unwrap().told()) } else { let mut p = p; format!("{}", p.cast_mut::<dyn Speaks>().unwrap().told()) })),
                0 => ("get of ",           Box::new(move || format!("{}", id_of(p.get())))),
                1 => ("get_mut of ",       Box::new(move || { let mut p = p; format!("{}", id_of(p.get_mut())) })),
                2 => ("reading through ",  Box::new(move || { let n: &dyn Node = &*p; format!("{}", id_of(n)) })),
                3 => ("writing through ",  Box::new(move || { let mut p = p; let n: &mut dyn Node = &mut *p; format!("{}", id_of(n)) })),
                _ => ("unwrapping to() of ", Box::new(move || if target % 3 == 2 { format!("{}", *p.to::<Mute>().unwrap().id) } else { format!("{}", *p.to::<Speaker>().unwrap().id) }))
            };
            if valid { must_not(s, t, &format!("{what}{w}"), &want, f); } else { must_fail(s, t, &format!("{what}{w}"), owner, None, f); }
            if r.chance(15) {
                let f: Box<dyn FnOnce() -> String> = match (r.below(3), target % 3 == 2) {
                    (0, true)  => Box::new(move || format!("{}", *p.to::<Speaker>().unwrap().id)),
                    (0, false) => Box::new(move || format!("{}", *p.to::<Mute>().unwrap().id)),
                    (1, true)  => Box::new(move || format!("{}", p.cast::<dyn Speaks>().unwrap().told())),
                    (1, false) => Box::new(move || format!("{}", p.cast::<dyn Mutes>().unwrap().told())),
                    (_, true)  => Box::new(move || { let mut p = p; format!("{}", p.cast_mut::<dyn Speaks>().unwrap().told()) }),
                    (_, false) => Box::new(move || { let mut p = p; format!("{}", p.cast_mut::<dyn Mutes>().unwrap().told()) })
                };
                must_fail(s, t, &format!("another type for {w}"), owner, None, f);
            }
            must_not(s, t, &format!("is_null and is_valid of {w}"), &format!("{} {}", !valid, valid), || format!("{} {}", p.is_null(), p.is_valid()));
            must_not(s, t, &format!("try_get of {w}"), if valid { &want } else { "none" }, || p.try_get().map(|n| format!("{}", id_of(n))).unwrap_or("none".to_string()));
            must_not(s, t, &format!("try_get_mut of {w}"), if valid { &want } else { "none" }, || { let mut p = p; p.try_get_mut().map(|n| format!("{}", id_of(n))).unwrap_or_else(|_| "none".to_string()) });
            must_not(s, t, &format!("is and to of {w}"), &format!("{0} {0} {1} {1}", valid && target % 3 == 2, valid && target % 3 != 2),
                || format!("{} {} {} {}", p.is::<Mute>(), p.to::<Mute>().to_option().is_some(), p.is::<Speaker>(), p.to::<Speaker>().to_option().is_some()));
        }
    }
}

/// Results and options that a node obtains, and their ways to fail.
fn use_result(s: &mut Stage, t: Raw, r: &mut Rng, rids: &[RID], owner: usize) {
    let Some(node) = unsafe { &*t }.get_node(rids[owner]) else { return };
    let node: &'static dyn Node = unsafe { std::mem::transmute(node) };
    let kids = node.num_children();
    let msg = format!("expectation {}", r.below(1000));
    let mute = owner % 3 == 2;
    // Errors.
    let k = kids + r.below(3);
    let up = s.parents[owner];
    let (what, f): (String, Box<dyn Fn() -> TreeResult<'static, TpDyn<'static>, NodeError>>) = match r.below(12) {
        0 => (format!("child {k} of {kids}"), Box::new(move || node.get_child_dyn(k))),
        1 => ("a path that leads nowhere".to_string(), Box::new(move || node.get_node_dyn(NodePath::from_str("nothing/here")))),
        2 => ("an absolute path that leads nowhere".to_string(), Box::new(move || node.get_node_dyn(NodePath::from_str("/nothing/here")))),
        3 if s.parents[owner].is_none() => ("the parent of the root".to_string(), Box::new(move || node.parent_dyn())),
        4 => ("the node itself as another type".to_string(), if mute { Box::new(move || node.get_node::<Speaker>(NodePath::from_str(".")).map(|p| p.to_dyn())) } else { Box::new(move || node.get_node::<Mute>(NodePath::from_str(".")).map(|p| p.to_dyn())) }),
        5 => (format!("typed child {k} of {kids}"), Box::new(move || node.get_child::<Mute>(k).map(|p| p.to_dyn()))),
        6 if kids > 0 => {
            let k = r.below(kids);
            let mute = node.get_child_dyn(k).unwrap().is::<Mute>();
            (format!("child {k} as another type"), if mute { Box::new(move || node.get_child::<Speaker>(k).map(|p| p.to_dyn())) } else { Box::new(move || node.get_child::<Mute>(k).map(|p| p.to_dyn())) })
        },
        7 if up.is_some() => ("the parent as another type".to_string(), if up.unwrap() % 3 == 2 { Box::new(move || node.parent::<Speaker>().map(|p| p.to_dyn())) } else { Box::new(move || node.parent::<Mute>().map(|p| p.to_dyn())) }),
        7 => ("the typed parent of the root".to_string(), Box::new(move || node.parent::<Speaker>().map(|p| p.to_dyn()))),
        // The root, a Speaker, owns all of the nodes.
        8 => ("the owner as another type".to_string(), Box::new(move || node.owner::<Mute>().map(|p| p.to_dyn()))),
        9 => ("a typed path that leads nowhere".to_string(), Box::new(move || node.get_node::<Speaker>(NodePath::from_str("no/where")).map(|p| p.to_dyn()))),
        10 => ("a typed absolute path that leads nowhere".to_string(), Box::new(move || node.get_node::<Mute>(NodePath::from_str("/no/where")).map(|p| p.to_dyn()))),
        _ => ("a path out of the tree".to_string(), Box::new(move || node.get_node_dyn(NodePath::from_str(&"../".repeat(80)))))
    };
    let m1 = msg.clone();
    match r.below(8) {
        0 => must_fail(s, t, &format!("unwrap of {what}"), owner, None, || { f().unwrap(); "a pointer".to_string() }),
        1 => must_fail(s, t, &format!("expect of {what}"), owner, Some(&msg), || { f().expect(&m1); "a pointer".to_string() }),
        2 => must_fail(s, t, &format!("unwrap of ok() of {what}"), owner, None, || { f().ok().unwrap(); "a pointer".to_string() }),
        3 => must_fail(s, t, &format!("expect of ok() of {what}"), owner, Some(&msg), || { f().ok().expect(&m1); "a pointer".to_string() }),
        4 => must_fail(s, t, &format!("unwrap of map() of {what}"), owner, None, || format!("{}", f().map(|p| id_of(p.get())).unwrap())),
        5 => must_not(s, t, &format!("to_option of {what}"), "false", || format!("{}", f().to_option().is_some())),
        6 => must_not(s, t, &format!("unwrap_or_else of {what}"), "other", || f().map(|_| "node".to_string()).unwrap_or_else(|_| "other".to_string())),
        _ => must_not(s, t, &format!("unwrap_err of {what}"), "fine", || { let _ = f().unwrap_err(); "fine".to_string() })
    }
    // Successes.
    let g = move || node.get_node_dyn(NodePath::from_str("."));
    let m2 = msg.clone();
    match r.below(7) {
        0 => must_fail(s, t, "unwrap_err of the node itself", owner, None, || format!("{}", g().map(|p| p.rid()).unwrap_err())),
        1 => must_fail(s, t, "expect_err of the node itself", owner, Some(&msg), || format!("{}", g().map(|p| p.rid()).expect_err(&m2))),
        2 => must_fail(s, t, "unwrap of err() of the node itself", owner, None, || format!("{}", g().map(|p| p.rid()).err().unwrap())),
        3 => must_not(s, t, "expect of the node itself", &format!("{owner}"), || format!("{}", id_of(g().expect(&m2).get()))),
        4 => must_not(s, t, "unwrap of ok() of the node itself", &format!("{owner}"), || format!("{}", id_of(g().ok().unwrap().get()))),
        5 => {
            let none: TreeOption<u64> = g().ok().map(|_| 5).filter(|_| false);
            must_fail(s, t, "unwrap of an option that was emptied", owner, None, || format!("{}", none.unwrap()))
        },
        _ => must_not(s, t, "unwrap of the node itself", &format!("{owner}"), || format!("{}", id_of(g().unwrap().get())))
    }
}

enum Chain { R(TreeResult<'static, u64, NodeError>, Result<u64, ()>), O(TreeOption<'static, u64>, Option<u64>) }

/// Results and options that are put together with those of other nodes belong to the node whose result was the first one.
fn use_chain(s: &mut Stage, t: Raw, r: &mut Rng, rids: &[RID], owner: usize) {
    let alive: Vec<usize> = (0..rids.len()).filter(|i| s.alive[*i]).collect();
    let get = |r: &mut Rng, who: usize| -> (TreeResult<'static, u64, NodeError>, Result<u64, ()>) {
        let node: &'static dyn Node = unsafe { std::mem::transmute((*t).get_node(rids[who]).expect("a node")) };
        let x = r.below(100) as u64;
        if r.chance(50) { (node.get_node_dyn(NodePath::from_str(".")).map(|_| x), Ok(x)) }
        else if r.chance(50) { (node.get_child_dyn(node.num_children()).map(|_| x), Err(())) }
        else { (node.get_node_dyn(NodePath::from_str("nothing/here")).map(|_| x), Err(())) }
    };
    let (a, ma) = get(r, owner);
    let mut c = if r.chance(30) { Chain::O(a.ok(), ma.ok()) } else { Chain::R(a, ma) };
    let mut what = String::from("a chain");
    for _ in 0..r.range(1, 5) {
        let who = *r.pick(&alive);
        let (b, mb) = get(r, who);
        let k = r.below(17);
        what += &format!(" {k}({})", name_of(who));
        c = match c {
            Chain::R(a, ma) => match k {
                0 | 1 => Chain::R(a.and(b), ma.and(mb)),
                2 | 3 => Chain::R(a.and_then(|_| b), ma.and(mb)),
                4 | 5 => Chain::R(a.or(b), ma.or(mb)),
                6 | 7 => Chain::R(a.or_else::<(), _>(|_| b), ma.or(mb)),
                8     => Chain::R(a.map(|x| x + 1), ma.map(|x| x + 1)),
                9     => Chain::R(a.map_err(|e| e), ma),
                10    => Chain::R(a.inspect(|_| ()).inspect_err(|_| ()), ma),
                11    => Chain::O(a.ok(), ma.ok()),
                12    => Chain::O(a.err().map(|_| 7), ma.err().map(|_| 7)),
                13    => Chain::R(a.map(|_| b).flatten(), ma.and(mb)),
                14    => Chain::R(a.transfer_owner(b), mb),
                15    => Chain::R(a.map(Some).map(|x| x).and_then(|x| b.map(|y| x.unwrap().max(y))), match (ma, mb) { (Ok(x), Ok(y)) => Ok(x.max(y)), _ => Err(()) }),
                _     => Chain::R(a.clone(), ma)
            },
            Chain::O(mut a, ma) => { let (b, mb) = (b.ok(), mb.ok()); match k {
                0  => Chain::O(a.and(b), ma.and(mb)),
                1  => Chain::O(a.and_then(|_| b), ma.and(mb)),
                2  => Chain::O(a.or(b), ma.or(mb)),
                3  => Chain::O(a.or_else(|| b), ma.or(mb)),
                4  => Chain::O(a.xor(b), ma.xor(mb)),
                5  => Chain::O(a.zip(b).map(|(x, y)| x + y), ma.zip(mb).map(|(x, y)| x + y)),
                6  => Chain::O(a.filter(|x| x % 2 == 0), ma.filter(|x| x % 2 == 0)),
                7  => Chain::O(a.map(|x| x + 1), ma.map(|x| x + 1)),
                8  => Chain::R(a.ok_or(NodeError::NoParent), ma.ok_or(())),
                9  => Chain::R(a.ok_or_else(|| NodeError::NoParent), ma.ok_or(())),
                10 => Chain::O(a.map(|_| b).flatten(), ma.and(mb)),
                11 => { let kept = a.as_mut().map(|x| *x); let kept: TreeOption<'static, u64> = long(kept); Chain::O(kept, ma) },
                12 => { let taken: TreeOption<'static, u64> = long(a.take()); if r.chance(50) { Chain::O(a, None) } else { Chain::O(taken, ma) } },
                13 => { let _ = a.replace(3); Chain::O(a, Some(3)) },
                14 => { let (x, y) = a.zip(b).unzip(); if r.chance(50) { Chain::O(x, ma.zip(mb).map(|p| p.0)) } else { Chain::O(y, ma.zip(mb).map(|p| p.1)) } },
                15 => { let kept: TreeOption<'static, u64> = long(a.take_if(|x| *x % 2 == 0)); Chain::O(kept, ma.filter(|x| x % 2 == 0)) },
                _  => Chain::O(a.inspect(|_| ()), ma)
            } }
        };
    }
    count("chains");
    let msg = format!("expectation {}", r.below(1000));
    let m1 = msg.clone();
    let (how, want) = (r.below(4), |x: u64| format!("{x}"));
    match c {
        Chain::R(a, Ok(x))   => match how {
            0 => must_not(s, t, &format!("unwrap of {what}"), &want(x), || format!("{}", a.unwrap())),
            1 => must_not(s, t, &format!("expect of {what}"), &want(x), || format!("{}", a.expect(&m1))),
            2 => must_fail(s, t, &format!("unwrap_err of {what}"), owner, None, || format!("{:?}", a.unwrap_err())),
            _ => must_fail(s, t, &format!("expect_err of {what}"), owner, Some(&msg), || format!("{:?}", a.expect_err(&m1)))
        },
        Chain::R(a, Err(())) => match how {
            0 => must_not(s, t, &format!("unwrap_or of {what}"), "4", || format!("{}", a.unwrap_or(4))),
            1 => must_fail(s, t, &format!("expect of {what}"), owner, Some(&msg), || format!("{}", a.expect(&m1))),
            _ => must_fail(s, t, &format!("unwrap of {what}"), owner, None, || format!("{}", a.unwrap()))
        },
        Chain::O(a, Some(x)) => if how < 2 { must_not(s, t, &format!("unwrap of {what}"), &want(x), || format!("{}", a.unwrap())) } else { must_not(s, t, &format!("expect of {what}"), &want(x), || format!("{}", a.expect(&m1))) },
        Chain::O(a, None)    => if how < 2 { must_fail(s, t, &format!("unwrap of {what}"), owner, None, || format!("{}", a.unwrap())) } else { must_fail(s, t, &format!("expect of {what}"), owner, Some(&msg), || format!("{}", a.expect(&m1))) }
    }
}

pub fn failures(mut r: Rng) {
    let parents = gen_parents(&mut r);
    let n = parents.len();
    let v = match r.below(4) { 0 => LoggerVerbosity::All, 1 => LoggerVerbosity::NoDebug, 2 => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene(0, &parents), v);
    let t: Raw = &mut *tree;
    let mut rids = vec![0 as RID; n];
    for rid in tree.root().top_down(true) { let id = id_of(tree.get_node(rid).expect("a node")); rids[id] = rid; }
    let mut s = Stage { parents: (0..n).map(|i| if i == 0 { None } else { Some(parents[i]) }).collect(), alive: vec![true; n], single: vec![None; n], trace: vec![format!("tree {parents:?}")], failures: 0, quiet: 0, broken: false, dead: false };
    for _ in 0..r.below(3) {
        let id = r.below(n);
        let name = format!("single {}", r.below(5));
        if unsafe { &mut *t }.get_node_mut(rids[id]).is_some_and(|n| n.register_as_singleton(name.clone())) { s.trace.push(format!("{} is {name}", name_of(id))); s.single[id] = Some(name); }
    }
    // Pointers of all kinds.
    let mut held: Vec<(Ptr, usize, usize)> = Vec::new();
    for _ in 0..r.range(2, 8) {
        let (owner, target) = (r.below(n), r.below(n));
        if let Some(p) = obtain(&mut r, &s, t, &rids, owner, target) { held.push((p, owner, target)); }
    }
    // Some results are obtained ahead of their owner's leaving.
    let early: Vec<(TreeResult<'static, TpDyn<'static>, NodeError>, usize)> = (0..r.below(3)).map(|_| {
        let owner = r.below(n);
        let node: &'static dyn Node = unsafe { std::mem::transmute((*t).get_node(rids[owner]).expect("a node")) };
        (node.get_node_dyn(NodePath::from_str("no/such")), owner)
    }).collect();
    if r.chance(30) { for (p, o, ta) in &held { if r.chance(40) { use_pointer(&mut s, t, &mut r, p, *o, *ta); } } }
    // Nodes leave; nothing is added from now on.
    for _ in 0..r.below(4) {
        if n < 2 { break; }
        let gone = r.range(1, n - 1);
        if !s.alive[gone] { continue; }
        s.trace.push(format!("free {}", name_of(gone)));
        if let Some(node) = unsafe { &mut *t }.get_node_mut(rids[gone]) { node.free(); }
        for i in 0..n { if s.below(i, gone) { s.alive[i] = false; } }
        if r.chance(40) && s.failures == 0 { let _ = unsafe { &mut *t }.process(); }
    }
    let rounds = r.range(2, 10);
    let mut early = early;
    for _ in 0..rounds {
        if s.broken { break; }
        match r.below(8) {
            0..=3 => if !held.is_empty() { let k = r.below(held.len()); let (p, o, ta) = &held[k]; use_pointer(&mut s, t, &mut r, p, *o, *ta); },
            4 => if let Some((e, o)) = early.pop() {
                let quietly = r.chance(30);
                if quietly { must_not(&mut s, t, "err() of an early result", "true", || format!("{}", e.err().to_option().is_some())); }
                else { must_fail(&mut s, t, "unwrap of an early result", o, None, || { e.unwrap(); "a pointer".to_string() }); }
            },
            _ => { let owner = r.below(n); if s.alive[owner] { if r.chance(50) { use_result(&mut s, t, &mut r, &rids, owner) } else { use_chain(&mut s, t, &mut r, &rids, owner) } } }
        }
    }
    if !s.broken && r.chance(60) {
        let st = unsafe { &mut *t }.process();
        if s.dead == st.is_active() { s.wrong(format!("after {} failed accesses and {} that do not fail a frame leaves the tree {st:?}", s.failures, s.quiet)); }
    }
    crate::report::add("failed_accesses", s.failures);
    crate::report::add("quiet_accesses", s.quiet);
    count("trees");
    if wants_sample() && s.failures > 1 { sample(s.trace.join("\n")); }
    evaluated(s.failures > 0, hash_str(&s.trace.join("\n")));
    drop(tree);
}
