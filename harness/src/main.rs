//! The monitored workloads. `harness PROP --seed S --from A --count N --stride K --out FILE --progress FILE [--secs T]`
//! runs the cases A, A+K, A+2K, ... of the property and writes what was observed.

mod rng;
mod report;
mod nodes;
mod engine;
mod aside;
mod props;

use std::cell::RefCell;
use std::io::{ Seek, SeekFrom, Write };
use std::time::{ Duration, Instant };

use report::REPORT;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34"
];

pub fn intern(s: &str) -> &'static str { PROPS.iter().copied().find(|p| *p == s).unwrap_or("C00") }

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Where the last panic of this thread came from.
pub fn last_panic() -> String { LAST_PANIC.with(|l| l.borrow().clone()) }

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if std::env::var_os("HARNESS_PANICS").is_some() { eprintln!("PANIC {at} {msg}\n{}", std::backtrace::Backtrace::force_capture()); }
        let _ = LAST_PANIC.try_with(|l| if let Ok(mut l) = l.try_borrow_mut() { *l = format!("{at} {msg}"); });
    }));

    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str, default: u64| get(name).map(|v| v.parse().expect(name)).unwrap_or(default);
    let prop = args.get(1).expect("a property").clone();
    let (seed, from, count, stride, secs) = (num("--seed", 1), num("--from", 0), num("--count", 1), num("--stride", 1), num("--secs", 3600));
    let thorough = get("--tier").as_deref() == Some("thorough");
    let mut progress = get("--progress").map(|p| std::fs::File::create(p).expect("progress"));
    let begin = Instant::now();

    REPORT.with(|r| r.borrow_mut().prop = prop.clone());
    let mut done = 0;
    for i in 0..count {
        let case = from + i * stride;
        if begin.elapsed() > Duration::from_secs(secs) { break; }
        if let Some(p) = &mut progress {
            let _ = p.seek(SeekFrom::Start(0));
            let _ = p.write_all(format!("{case:020}").as_bytes());
        }
        REPORT.with(|r| r.borrow_mut().case = case);
        let rng = rng::Rng::case(&prop, seed, case);
        let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&prop, rng, case, thorough)));
        if let Err(e) = caught {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            report::fail(format!("the library panicked: {msg} ({})", last_panic()));
        }
        done += 1;
        let (own, all) = report::violations_now();
        if own > 60 || all >= 300 { break; }
    }
    report::add("cases", done);
    let json = REPORT.with(|r| r.borrow().json());
    match get("--out") {
        Some(f) => std::fs::write(f, json).expect("out"),
        None    => eprintln!("{json}")
    }
    // Threads and leaked trees of broken episodes are of no interest any more.
    std::process::exit(0);
}
