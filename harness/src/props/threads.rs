//! C31: trees, scenes and loading in several threads at once.

use std::sync::{ Arc, Barrier, Condvar, Mutex };
use std::time::{ Duration, Instant };

use node_tree::prelude::*;
use node_tree::services::node_registry::Value;
use node_tree::trees::tree_simple::TreeSimple;

use crate::engine::{ episode, Profile };
use crate::report::{ self, add, capture, count, evaluated, fail, sample, wants_sample, Report };
use crate::rng::Rng;

use super::{ crash, scenes, signals };

const KINDS: &[&str] = &["episode", "episode with loading", "saving and loading", "clones", "signals", "crash reports", "storm of loads"];

#[derive(Clone, Copy, Debug)]
struct Job { kind: usize, seed: u64 }

/// What a job comes to: everything that it observes, except for times.
fn perform(job: Job) -> u64 {
    let r = Rng::new(job.seed);
    match job.kind {
        0 => episode(r, &Profile { deterministic: true, ..Profile::new(&[("post", 100), ("single", 100)]) }),
        1 => episode(r, &Profile { deterministic: true, ..Profile::new(&[("stash_load", 700), ("add_stash", 500), ("stash_drop", 200), ("save_branch", 200)]) }),
        2 => { scenes::round_trip(r); 0 },
        3 => { scenes::clones(r); 0 },
        4 => { signals::run(r); 0 },
        5 => { crash::reports(r); 0 },
        _ => storm(r)
    }
}

fn attempt(job: Job) -> (u64, Report) {
    let mut sig = 0;
    let r = capture("C31", job.seed, || {
        let caught = std::panic::catch_unwind(|| perform(job));
        match caught {
            Ok(s)  => sig = s,
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                fail(format!("panicked: {msg} ({})", crate::last_panic()))
            }
        }
    });
    (sig, r)
}

/// The part of a report that depends neither on time nor on the order of listeners.
fn essence(kind: usize, sig: u64, r: &Report) -> String {
    if KINDS[kind] == "signals" { return format!("{}", r.evaluations); }
    let counters: Vec<String> = r.counters.iter().filter(|(k, _)| !k.contains("time")).map(|(k, v)| format!("{k} {v}")).collect();
    let mut keys: Vec<u64> = r.distinct.iter().copied().collect();
    keys.sort();
    format!("{sig:x} {} {keys:x?} {}", r.evaluations, counters.join(", "))
}

pub fn run(mut r: Rng, case: u64) {
    match case % 8 {
        0..=4 => workloads(&mut r),
        5..=6 => loaders(&mut r),
        _     => meetings(&mut r)
    }
}

fn workloads(r: &mut Rng) {
    let n = r.range(2, 6);
    let per = r.range(1, 3);
    let mut jobs: Vec<Vec<Job>> = (0..n).map(|_| (0..per).map(|_| Job { kind: r.below(KINDS.len()), seed: r.u64() }).collect()).collect();
    // Sometimes all do the very same thing.
    if r.chance(20) { let first = jobs[0].clone(); for j in &mut jobs { j.clone_from(&first); } }
    let before = r.chance(50);
    let alone = |jobs: &[Vec<Job>]| -> Vec<Vec<(u64, Report)>> { jobs.iter().map(|js| js.iter().map(|&j| attempt(j)).collect()).collect() };
    let mut reference = if before { Some(alone(&jobs)) } else { None };

    let barrier = Arc::new(Barrier::new(n));
    let begun = Instant::now();
    let handles: Vec<_> = jobs.iter().cloned().enumerate().map(|(i, js)| {
        let barrier = barrier.clone();
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            scenes::own_folder(format!("thread{i}"));
            barrier.wait();
            js.iter().map(|&j| { let from = begun.elapsed(); let out = attempt(j); (out, from, begun.elapsed()) }).collect::<Vec<_>>()
        }).expect("a thread")
    }).collect();
    let together: Vec<Vec<_>> = handles.into_iter().map(|h| h.join().expect("a thread's results")).collect();
    let reference = reference.take().unwrap_or_else(|| alone(&jobs));

    let mut overlaps = 0;
    for (i, js) in together.iter().enumerate() { for (_, from, to) in js {
        for (k, others) in together.iter().enumerate() { if k > i { for (_, f, t) in others { if f < to && from < t { overlaps += 1; } } } }
    } }
    add("jobs_that_overlap", overlaps);
    let mut key = 0u64;
    for (i, js) in jobs.iter().enumerate() { for (k, &job) in js.iter().enumerate() {
        let ((sig, with), (alone_sig, alone)) = (&together[i][k].0, &reference[i][k]);
        count("jobs_compared");
        for (what, n) in &with.counters { if ["frames", "hooks_ready", "scenes_loaded", "nodes_removed", "listener_calls", "reports_read", "scenes_instanced"].contains(what) { add(what, *n); } }
        key = key.rotate_left(7) ^ sig ^ job.seed;
        if let Some(v) = with.violations.first() {
            if alone.violations.is_empty() {
                report::violation(&["C31"], format!("{} in one of {n} threads, which alone is fine: {}", KINDS[job.kind], v.msg), v.trace.clone());
            }
        } else if alone.violations.is_empty() {
            let (a, b) = (essence(job.kind, *sig, with), essence(job.kind, *alone_sig, alone));
            if a != b { fail(format!("{} in one of {n} threads does something else than alone: {a} instead of {b}", KINDS[job.kind])); }
        } else {
            report::violation(&["C31"], format!("{} fails alone, but not in one of {n} threads: {}", KINDS[job.kind], alone.violations[0].msg), alone.violations[0].trace.clone());
        }
    } }
    if wants_sample() { sample(format!("{jobs:?}, {overlaps} overlapping pairs, each like alone")); }
    evaluated(overlaps > 0, key);
}

// -------------------------------------------------------------------------------- loading at once

class! { pub declare Crate1; pub export let a: u64 = 0; pub export let b: String = String::new(); }
class! { pub declare Crate2; pub export let a: u64 = 0; pub export let b: Vec<u64> = Vec::new(); }
class! { pub declare Crate3; pub export let b: (u64, u64) = (0, 0); }

fn shape(s: &NodeScene, out: &mut String) {
    let node = unsafe { s.get_node() };
    let raw = Box::into_raw(node);
    let n: &dyn Node = unsafe { &*raw };
    let any = n.as_any_ref();
    out.push_str(n.name());
    if let Some(x) = any.downcast_ref::<Crate1>()      { out.push_str(&format!("=1 {} {}", *x.a, *x.b)); }
    else if let Some(x) = any.downcast_ref::<Crate2>() { out.push_str(&format!("=2 {} {:?}", *x.a, *x.b)); }
    else if let Some(x) = any.downcast_ref::<Crate3>() { out.push_str(&format!("=3 {:?}", *x.b)); }
    else { out.push_str("=?"); }
    out.push('(');
    for c in s.children() { shape(c, out); out.push(' '); }
    out.push(')');
}

fn crates(r: &mut Rng, size: usize) -> NodeScene {
    let mut all: Vec<NodeScene> = (0..size).map(|i| {
        let v = r.u64() >> 2;
        match r.below(3) {
            0 => { let mut n = Crate1::new(); *n.a = v; *n.b = format!("text {v}"); n.set_name(&format!("N{i}")); NodeScene::new(n) },
            1 => { let mut n = Crate2::new(); *n.a = v; *n.b = vec![v, v + 1, v + 2]; n.set_name(&format!("N{i}")); NodeScene::new(n) },
            _ => { let mut n = Crate3::new(); *n.b = (v, v + 1); n.set_name(&format!("N{i}")); NodeScene::new(n) }
        }
    }).collect();
    for i in (1..size).rev() { let s = all.pop().expect("one"); all[r.below(i)].append(s); }
    all.pop().expect("the root")
}

fn load_again(text: &str, want: &str, times: usize, fails: &mut Vec<String>) -> usize {
    let mut loads = 0;
    for _ in 0..times {
        match NodeScene::load_from_str(text) {
            Ok(s) => {
                let mut is = String::new();
                shape(&s, &mut is);
                if is != want { fails.push(format!("a scene loaded while others are loaded is {is} instead of {want}")); }
                loads += 1;
            },
            Err(e) => fails.push(format!("a scene cannot be loaded while others are loaded: {e}"))
        }
        if fails.len() > 3 { break; }
    }
    loads
}

fn storm(mut r: Rng) -> u64 {
    let size = r.range(1, 10);
    let s = crates(&mut r, size);
    let mut want = String::new();
    shape(&s, &mut want);
    let text = s.save_to_str().expect("text");
    let mut fails = Vec::new();
    add("scenes_loaded", load_again(&text, &want, 20, &mut fails) as u64);
    for f in fails { fail(f); }
    let _tree: Box<TreeSimple> = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
    crate::rng::hash_str(&want)
}

fn loaders(r: &mut Rng) {
    let n = r.range(2, 8);
    let texts: Vec<(String, String)> = (0..n).map(|_| {
        let size = r.range(1, 12);
        let s = crates(r, size);
        let mut want = String::new();
        shape(&s, &mut want);
        (s.save_to_str().expect("text"), want)
    }).collect();
    let barrier = Barrier::new(n);
    let times = r.range(5, 60);
    let all: Vec<(usize, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = texts.iter().map(|(text, want)| s.spawn(|| {
            barrier.wait();
            let mut fails = Vec::new();
            let loads = load_again(text, want, times, &mut fails);
            // Types that are not known stay so.
            let unknown = text.replace("Crate", "Nothing");
            if NodeScene::load_from_str(&unknown).is_ok() { fails.push("a scene of unknown types is loaded".into()); }
            (loads, fails)
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (0, vec!["a thread that loads scenes panicked".into()]))).collect()
    });
    for (loads, fails) in all { add("scenes_loaded", loads as u64); for f in fails.into_iter().take(2) { fail(f); } }
    count("storms");
    let key = crate::rng::hash_str(&texts.iter().map(|t| t.1.as_str()).collect::<Vec<_>>().join("|"));
    evaluated(true, key);
}

// ----------------------------------------------------------- two loads that are under way at once

/// Where threads wait for each other; by number.
struct Meeting { here: usize, of: usize }

static MEETINGS: Mutex<Vec<(u64, Meeting)>> = Mutex::new(Vec::new());
static SOMEBODY: Condvar = Condvar::new();

/// A value that is loaded only while its counterparts in other threads are loaded as well.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Meet { id: u64, met: bool }

impl Voidable for Meet { fn void() -> Self { Self::default() } }

impl Exportable for Meet {
    unsafe fn is_ghost_export(&self) -> bool { false }
    fn to_value(&self) -> Value { self.id.to_value() }
    fn from_value(value: Value) -> Option<Self> {
        let id = u64::from_value(value)?;
        let mut all = MEETINGS.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(m) = all.iter_mut().find(|m| m.0 == id) { m.1.here += 1; SOMEBODY.notify_all(); }
        let until = Instant::now() + Duration::from_secs(30);
        loop {
            match all.iter().find(|m| m.0 == id) {
                Some((_, m)) if m.here < m.of => {
                    let left = until.saturating_duration_since(Instant::now());
                    if left.is_zero() { return Some(Meet { id, met: false }); }
                    all = SOMEBODY.wait_timeout(all, left).unwrap_or_else(|e| e.into_inner()).0;
                },
                _ => return Some(Meet { id, met: true })
            }
        }
    }
}

class! { pub declare Guest;  pub export let at: Meet = Meet::default(); pub export let me: u64 = 0; }
class! { pub declare Guest2; pub export let me: u64 = 0; pub export let at: Meet = Meet::default(); }

fn meetings(r: &mut Rng) {
    let n = r.range(2, 5);
    let id = r.u64() >> 2;
    let texts: Vec<String> = (0..n).map(|i| {
        let guest = |at: u64| if (id + i as u64) % 3 == 0 { let mut g = Guest2::new(); g.at.id = at; *g.me = i as u64; NodeScene::new(g) } else { let mut g = Guest::new(); g.at.id = at; *g.me = i as u64; NodeScene::new(g) };
        let mut s = guest(id);
        s.append(guest(id + 1));
        s.save_to_str().expect("text")
    }).collect();
    for k in 0..2 { MEETINGS.lock().expect("meetings").push((id + k, Meeting { here: 0, of: n })); }
    let all: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = texts.iter().enumerate().map(|(i, text)| s.spawn(move || {
            let mut fails = Vec::new();
            match NodeScene::load_from_str(text) {
                Ok(s) => for part in std::iter::once(&s).chain(s.children()) {
                    let raw = Box::into_raw(unsafe { part.get_node() });
                    let any = unsafe { &*raw }.as_any_ref();
                    let (met, me) = match (any.downcast_ref::<Guest>(), any.downcast_ref::<Guest2>()) {
                        (Some(g), _) => (g.at.met, *g.me),
                        (_, Some(g)) => (g.at.met, *g.me),
                        _            => { fails.push("a loaded node is of another class".into()); continue; }
                    };
                    if !met { fails.push("a scene is not loaded while another thread is loading one".into()); }
                    if me != i as u64 { fails.push(format!("a thread gets the node of thread {me} instead of {i}")); }
                },
                Err(e) => fails.push(format!("a scene cannot be loaded while others are: {e}"))
            }
            fails
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["a thread that loads scenes panicked".into()])).collect()
    });
    MEETINGS.lock().expect("meetings").retain(|m| m.0 != id && m.0 != id + 1);
    for f in all.into_iter().flatten().take(4) { fail(f); }
    add("loads_under_way_at_once", n as u64 * 2);
    evaluated(true, id);
}
