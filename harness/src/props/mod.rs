//! One workload per property.

use crate::engine::{ episode, Profile };
use crate::report;
use crate::rng::Rng;

mod std_mirror;
mod fields;
mod rids;
mod exports;
mod signals;
mod scenes;
mod crash;
mod casts;
mod threads;
mod nested;
mod strays;
mod own;
mod faults;

/// The workloads whose memory accesses C12 watches over, by the property that they belong to. What else these workloads
/// find wrong is the owner's business.
const WATCHED: &[&str] = &["C12", "C15", "C12", "C16", "C12", "C13", "C20", "C12", "C17", "C14", "C12", "C24", "C23", "C12", "C27", "C26", "C30", "C12", "C05", "C18", "C12", "C10", "C29", "C25", "C21", "nested", "panics", "C32", "C33", "C34"];

fn memory(rng: Rng, case: u64) {
    let owner = WATCHED[case as usize % WATCHED.len()];
    if owner == "C12" {
        episode(rng, &Profile { hook_ops: 45, ..Profile::new(&[("free", 200), ("remove", 200), ("free_root", 200), ("save_branch", 150)]) });
        return;
    }
    if owner == "nested" { return nested::run(rng); }
    if owner == "panics" { return nested::run_panics(rng); }
    let mut own = rng;
    let report = report::capture(owner, case, || {
        let r = Rng::new(own.u64());
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(owner, r, case, false))).is_err() {
            report::fail(format!("the library panicked: {}", crate::last_panic()));
        }
    });
    report::merge(report);
    report::count("watched_workloads");
}

pub fn run(prop: &str, rng: Rng, case: u64, _thorough: bool) {
    match prop {
        "C06" | "C08" | "C09" | "C10" if case % 10 == 7 => if case % 20 == 7 { nested::run_panics(rng) } else { nested::run(rng) },
        "C01" => { episode(rng, &Profile::new(&[("add_scene", 150), ("remove", 150), ("free", 150)])); },
        "C02" => { episode(rng, &Profile { odd_names: 15, ..Profile::new(&[("rename", 400), ("add_single", 200), ("add_scene", 200)]) }); },
        "C03" => { episode(rng, &Profile::new(&[("take_ptr", 400), ("types", 300), ("add_single", 150), ("free", 150)])); },
        "C04" => { episode(rng, &Profile { odd_names: 3, ..Profile::new(&[("paths", 1200), ("rename", 200)]) }); },
        "C05" => { episode(rng, &Profile::new(&[("add_scene", 300), ("add_stash", 300), ("stash_build", 200), ("stash_load", 200)])); },
        "C06" => { episode(rng, &Profile { frames: (4, 24), ..Profile::new(&[("sleep", 300), ("paths", 0), ("types", 0), ("take_ptr", 30)]) }); },
        "C07" => { episode(rng, &Profile { frames: (6, 28), ..Profile::new(&[("pause", 300), ("unpause", 250), ("set_mode", 400), ("queue", 200), ("paths", 0), ("types", 0)]) }); },
        "C08" => { episode(rng, &Profile { hook_ops: 40, ..Profile::new(&[("add_scene", 300), ("add_stash", 300), ("stash_load", 300), ("paths", 0), ("types", 0)]) }); },
        "C09" => { episode(rng, &Profile { hook_ops: 40, ..Profile::new(&[("remove", 200), ("free", 250), ("queue", 300), ("add_scene", 150), ("free_root", 200), ("paths", 0), ("types", 0)]) }); },
        "C10" => { episode(rng, &Profile { frames: (4, 20), ..Profile::new(&[("queue", 600), ("terminate", 400), ("free_root", 400), ("post_panic", 400), ("pause", 200), ("paths", 0), ("types", 0)]) }); },
        "C11" if case % 6 == 5 => nested::run(rng),
        "C11" if case % 12 == 3 => nested::run_panics(rng),
        "C11" => { episode(rng, &Profile::new(&[("stash_clone", 300), ("stash_drop", 300), ("stash_load", 200), ("save_branch", 200), ("free", 150), ("free_root", 200)])); },
        "C12" => memory(rng, case),
        "C13" => signals::run(rng),
        "C14" => signals::run_copies(rng),
        "C15" => exports::run(rng, case),
        "C30" => exports::run_glam(rng, case),
        "C16" => scenes::round_trip(rng),
        "C17" => scenes::damaged(rng, case),
        "C19" => scenes::hashes(rng),
        "C20" => scenes::clones(rng),
        "C18" => { episode(rng, &Profile::new(&[("save_branch", 900), ("add_stash", 400), ("rename", 150), ("stash_drop", 200)])); },
        "C21" => { episode(rng, &Profile::new(&[("single", 900), ("free", 150), ("paths", 0), ("types", 0)])); },
        "C22" => { episode(rng, &Profile::new(&[("post", 900), ("post_panic", 200), ("single", 200), ("rename", 200), ("paths", 0), ("types", 0)])); },
        "C23" => crash::reports(rng),
        "C24" => crash::failures(rng),
        "C25" => std_mirror::run(rng),
        "C26" => fields::run(rng),
        "C27" => casts::run(rng),
        "C31" => threads::run(rng, case),
        "C29" => rids::run(rng),
        "C32" => strays::run(rng),
        "C33" => own::run(rng),
        "C34" => faults::run(rng),
        other => panic!("no workload for {other}")
    }
}
