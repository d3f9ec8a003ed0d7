//! Workloads for the unmodified library on real threads: run natively, under
//! ThreadSanitizer, AddressSanitizer and Miri.
mod api;
mod msg;
mod probes;
mod scale;
mod rng;
mod stress;

use rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Counting = Counting;

static COUNTS: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
static INDEX: AtomicU64 = AtomicU64::new(0);
static WHERE: Mutex<String> = Mutex::new(String::new());

pub fn count(what: &'static str, n: u64) {
    *COUNTS.lock().unwrap().entry(what).or_default() += n;
}
pub fn scene(s: String) {
    if SAMPLES.fetch_add(1, Relaxed) < 2 {
        println!("SAMPLE {{\"index\":{},\"scene\":{}}}", INDEX.load(Relaxed), esc(&s));
    }
    if VERBOSE.load(Relaxed) != 0 {
        eprintln!("[{}] {s}", INDEX.load(Relaxed));
    }
    *WHERE.lock().unwrap() = s;
}
static SAMPLES: AtomicU64 = AtomicU64::new(0);
static VERBOSE: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}

fn summary() {
    let c = match COUNTS.lock() {
        Ok(c) => c,
        Err(e) => e.into_inner(),
    };
    let v: Vec<String> = c.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    println!("SUMMARY {{{}}}", v.join(","));
}

/// Reports a violation and ends the process.
pub fn fail(kind: &str, msg: String) -> ! {
    summary();
    let at = WHERE.lock().map(|w| w.clone()).unwrap_or_default();
    println!(
        "FOUND {{\"kind\":{},\"msg\":{},\"index\":{}}}",
        esc(kind),
        esc(&format!("{msg} [{at}]")),
        INDEX.load(Relaxed)
    );
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

pub struct Injected;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str, default: u64| -> u64 {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .map(|v| v.parse().unwrap())
            .unwrap_or(default)
    };
    let what = args
        .iter()
        .position(|a| a == "--what")
        .map(|i| args[i + 1].clone())
        .unwrap_or("shapes".into());
    let (base, start, count_, stride) = (get("--seed", 1), get("--start", 0), get("--count", 10), get("--stride", 1));
    VERBOSE.store(get("--verbose", 0), Relaxed);
    let limit = get("--seconds", 0);

    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() || probes::EXPECT_PANIC.load(Relaxed) {
            return;
        }
        fail("panic", format!("an operation panicked: {info}"));
    }));

    if !cfg!(miri) {
        std::thread::spawn(|| {
            let (mut last, mut same) = (u64::MAX, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = INDEX.load(Relaxed);
                same = if now == last { same + 1 } else { 0 };
                last = now;
                if same > 90 {
                    fail("hang", "a run did not end within 90 s".into());
                }
            }
        });
    }

    let t0 = std::time::Instant::now();
    let scenes: Vec<String> = what.split(',').map(|s| s.to_string()).collect();
    for k in 0..count_ {
        let i = start + k * stride;
        if limit > 0 && t0.elapsed().as_secs() >= limit {
            break;
        }
        INDEX.store(i, Relaxed);
        let mut r = Rng::new(mix(mix(base) ^ i));
        let scene = &scenes[i as usize % scenes.len()];
        match scene.as_str() {
            "shapes" => stress::shapes(&mut r),
            "threads" => stress::threads(&mut r),
            "waiters" => stress::waiters(&mut r),
            "faults" => stress::faults(&mut r),
            "policies" => probes::policies(&mut r),
            "zero" => probes::zero(),
            "statics" => probes::statics(&mut r),
            "clock" => probes::clock(&mut r),
            "errors" => probes::errors(&mut r),
            "refs" => probes::refs(&mut r),
            "pool" => probes::pool(&mut r),
            "split" => probes::split(&mut r),
            "big" => probes::big(&mut r),
            "many" => scale::many(&mut r),
            other => panic!("unknown workload {other}"),
        }
        count("runs", 1);
    }
    summary();
}
