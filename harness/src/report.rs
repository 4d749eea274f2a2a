//! What a worker has observed: counters, distinct cases, samples and violations.

use std::cell::RefCell;
use std::collections::{ BTreeMap, HashSet };

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub counters:    BTreeMap<&'static str, u64>,
    pub distinct:    HashSet<u64>,
    pub samples:     Vec<String>,
    pub violations:  Vec<Violation>,
    pub known:       Vec<String>,
    pub case:        u64,
    pub prop:        String
}

#[derive(Clone)]
pub struct Violation { pub tags: Vec<&'static str>, pub case: u64, pub msg: String, pub trace: String }

thread_local! {
    pub static REPORT: RefCell<Report> = RefCell::new(Report::default());
}

/// Counts an observed event.
pub fn count(what: &'static str) { add(what, 1) }

pub fn add(what: &'static str, n: u64) {
    REPORT.with(|r| *r.borrow_mut().counters.entry(what).or_insert(0) += n)
}

pub fn counter(what: &'static str) -> u64 {
    REPORT.with(|r| r.borrow().counters.get(what).copied().unwrap_or(0))
}

/// Counts an evaluated case; `nontrivial` cases are told apart by `key`.
pub fn evaluated(nontrivial: bool, key: u64) {
    REPORT.with(|r| {
        let mut r = r.borrow_mut();
        r.evaluations += 1;
        if nontrivial { r.distinct.insert(key); }
    })
}

pub fn wants_sample() -> bool { REPORT.with(|r| r.borrow().samples.len() < 3) }

pub fn sample(s: String) {
    REPORT.with(|r| {
        let mut r = r.borrow_mut();
        if r.samples.len() < 3 { r.samples.push(s.chars().take(1500).collect()); }
    })
}

/// Reports that the properties in `tags` do not hold in the current case.
pub fn violation(tags: &[&'static str], msg: String, trace: String) {
    REPORT.with(|r| {
        let mut r = r.borrow_mut();
        let case = r.case;
        let here = r.violations.iter().filter(|v| v.case == case).count();
        let own = tags.contains(&r.prop.as_str());
        if here < 40 && r.violations.len() < if own { 400 } else { 300 } {
            r.violations.push(Violation { tags: tags.to_vec(), case, msg, trace });
        }
    })
}

/// Reports a violation of the property that is being checked.
pub fn fail(msg: String) {
    let p = REPORT.with(|r| r.borrow().prop.clone());
    violation(&[crate::intern(&p)], msg, String::new());
}

pub fn prop() -> String { REPORT.with(|r| r.borrow().prop.clone()) }

/// The number of violations of the property that is being checked, and of all violations.
pub fn violations_now() -> (usize, usize) {
    REPORT.with(|r| { let r = r.borrow(); (r.violations.iter().filter(|v| v.tags.contains(&r.prop.as_str())).count(), r.violations.len()) })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"'  => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
            c    => o.push(c)
        }
    }
    o + "\""
}

impl Report {
    pub fn json(&self) -> String {
        let counters: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        let distinct: Vec<String> = self.distinct.iter().map(|d| format!("\"{d:x}\"")).collect();
        let samples:  Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let viols:    Vec<String> = self.violations.iter().map(|v| format!(
            "{{\"tags\": [{}], \"case\": {}, \"msg\": {}, \"trace\": {}}}",
            v.tags.iter().map(|t| esc(t)).collect::<Vec<_>>().join(", "), v.case, esc(&v.msg), esc(&v.trace)
        )).collect();
        format!(
            "{{\"evaluations\": {}, \"counters\": {{{}}}, \"distinct\": [{}], \"samples\": [{}], \"violations\": [{}]}}",
            self.evaluations, counters.join(", "), distinct.join(", "), samples.join(", "), viols.join(", ")
        )
    }
}

/// Runs a workload with a report of its own and returns that report.
pub fn capture(prop: &str, case: u64, f: impl FnOnce()) -> Report {
    let fresh = Report { prop: prop.to_string(), case, ..Report::default() };
    let before = REPORT.with(|r| std::mem::replace(&mut *r.borrow_mut(), fresh));
    f();
    REPORT.with(|r| std::mem::replace(&mut *r.borrow_mut(), before))
}

/// Adds what another report observed to the current one.
pub fn merge(other: Report) {
    REPORT.with(|r| {
        let mut r = r.borrow_mut();
        r.evaluations += other.evaluations;
        for (k, n) in other.counters { *r.counters.entry(k).or_insert(0) += n; }
        r.distinct.extend(other.distinct);
        let room = 400usize.saturating_sub(r.violations.len());
        r.violations.extend(other.violations.into_iter().take(room));
    })
}
