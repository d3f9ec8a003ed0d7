mod api;
mod elem;
mod rng;
mod sched;
mod seq;
mod work;
mod world;

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note_alloc(n);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
}
#[inline]
fn note_alloc(n: usize) {
    if sched::NOALLOC.load(Relaxed) && !std::thread::panicking() {
        sched::ALLOC_BAD.fetch_add(n.max(1) as u64, Relaxed);
    }
}
#[global_allocator]
static A: Counting = Counting;

pub static EXPECT_PANIC: AtomicBool = AtomicBool::new(false);
static INDEX: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Totals {
    runs: u64,
    steps: u64,
    seq: u64,
    hashes: Vec<u64>,
    stats: sched::Stats,
    ev: world::Counters,
    flavors: BTreeMap<String, u64>,
    nontrivial: u64,
    samples: u64,
    other: BTreeMap<&'static str, u64>,
}
static mut TOTALS: Option<Totals> = None;
#[allow(static_mut_refs)]
fn totals() -> &'static mut Totals {
    unsafe { TOTALS.get_or_insert_with(Totals::default) }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn print_summary() {
    let t = totals();
    let mut s = format!(
        "SUMMARY {{\"runs\":{},\"steps\":{},\"seq_runs\":{},\"nontrivial\":{}",
        t.runs, t.steps, t.seq, t.nontrivial
    );
    let st = &t.stats;
    for (k, v) in [
        ("switches", st.switches),
        ("points", st.points),
        ("stale_reads", st.stale),
        ("weak_cas_failures", st.weak_fail),
        ("spurious_wakes", st.spurious),
        ("parks", st.parks),
        ("unparks", st.unparks),
        ("clock_jumps", st.clock_jumps),
        ("quiescent_states", st.quiescent),
        ("race_checks", st.race_checks),
        ("objects_destroyed", st.destroyed),
        ("solo_ops", st.solo_ops),
        ("lock_waits", st.lock_waits),
        ("windows", st.windows),
        ("windows_hit", st.windows_hit),
    ] {
        s.push_str(&format!(",\"{k}\":{v}"));
    }
    for (k, v) in t.ev.list() {
        s.push_str(&format!(",\"{k}\":{v}"));
    }
    for (k, v) in &t.other {
        s.push_str(&format!(",\"other_{k}\":{v}"));
    }
    s.push_str(",\"flavors\":{");
    s.push_str(
        &t.flavors
            .iter()
            .map(|(k, v)| format!("{}:{v}", esc(k)))
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("}}\n");
    if let Some(path) = std::env::var_os("HASHES") {
        let raw: Vec<u8> = t.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
            let _ = f.write_all(&raw);
        }
    }
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

/// Reports a violation and ends the process.
pub fn report(v: sched::Violation) -> ! {
    print_summary();
    println!(
        "FOUND {{\"kind\":{},\"msg\":{},\"index\":{},\"seed\":{}}}",
        esc(v.kind),
        esc(&v.msg),
        INDEX.load(Relaxed),
        SEED.load(Relaxed)
    );
    let _ = std::io::stdout().flush();
    exit(1)
}

/// Counts a violation of another property.
pub fn count_other(kind: &'static str) {
    *totals().other.entry(kind).or_default() += 1;
}

pub fn inconclusive(msg: &str) -> ! {
    print_summary();
    println!(
        "INCONCLUSIVE {{\"msg\":{},\"index\":{},\"seed\":{}}}",
        esc(msg),
        INDEX.load(Relaxed),
        SEED.load(Relaxed)
    );
    let _ = std::io::stdout().flush();
    exit(4)
}

fn exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(code) }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "--merge") {
        let mut all: Vec<u64> = Vec::new();
        for f in &args[1..] {
            let raw = std::fs::read(f).unwrap_or_default();
            all.extend(raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        println!("DISTINCT {}", all.len());
        return;
    }
    let get = |name: &str, default: u64| -> u64 {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .map(|v| v.parse().unwrap())
            .unwrap_or(default)
    };
    let prop = args
        .iter()
        .position(|a| a == "--prop")
        .map(|i| args[i + 1].clone())
        .unwrap_or("C01".into());
    let (base, start, count) = (get("--seed", 1), get("--start", 0), get("--count", 1000));
    let stride = get("--stride", 1);
    if let Some(i) = args.iter().position(|a| a == "--hard") {
        let _ = sched::HARD.set(args[i + 1].split(',').map(String::from).collect());
    }
    let trace = args.iter().any(|a| a == "--trace");
    let limit = get("--seconds", 0);
    let t0 = std::time::Instant::now();

    std::panic::set_hook(Box::new(|info| {
        let was = sched::NOALLOC.swap(false, Relaxed);
        if info.payload().is::<elem::Injected>() || EXPECT_PANIC.load(Relaxed) {
            sched::NOALLOC.store(was, Relaxed);
            return;
        }
        let msg = format!("{info}");
        let ours = info
            .location()
            .is_some_and(|l| l.file().starts_with("src/") && !l.file().contains("thingbuf"));
        if ours {
            eprintln!("{msg}");
            inconclusive(&format!("the harness panicked: {msg}"));
        }
        report(sched::Violation {
            kind: "panic",
            msg: format!("an operation panicked: {msg}"),
        });
    }));

    // a run that is stuck outside of the hooks
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = INDEX.load(Relaxed);
            same = if now == last { same + 1 } else { 0 };
            last = now;
            if same >= 30 {
                println!(
                    "INCONCLUSIVE {{\"msg\":\"a run is stuck outside of the monitored operations\",\"index\":{},\"seed\":{}}}",
                    now,
                    SEED.load(Relaxed)
                );
                let _ = std::io::stdout().flush();
                exit(4);
            }
        }
    });

    let ph = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut i = start;
    let end = start + count * stride;
    while i < end {
        if limit > 0 && t0.elapsed().as_secs() >= limit {
            break;
        }
        let seed = rng::mix(rng::mix(base ^ ph << 32) ^ i);
        INDEX.store(i, Relaxed);
        SEED.store(seed, Relaxed);
        let r = work::run_one(&prop, seed, trace, totals().samples < 2);
        let t = totals();
        t.runs += 1;
        t.steps += r.steps;
        t.seq += r.seq as u64;
        if r.seq && r.ev.received > 0 || r.stats.switches > 4 && r.ev.ops > 3 {
            t.nontrivial += 1;
            t.hashes.push(r.hash);
            if t.samples < 2 {
                t.samples += 1;
                let ev: Vec<String> =
                    r.ev.list().iter().filter(|x| x.1 > 0).map(|x| format!("\"{}\":{}", x.0, x.1)).collect();
                println!(
                    "SAMPLE {{\"index\":{i},\"seed\":{seed},\"plan\":{},\"observed\":{{{}}},\"switches\":{},\"schedule\":\"{:016x}\"}}",
                    esc(&r.desc),
                    ev.join(","),
                    r.stats.switches,
                    r.hash
                );
            }
        }
        let (s, x) = (&mut t.stats, &r.stats);
        s.switches += x.switches;
        s.points += x.points;
        s.stale += x.stale;
        s.weak_fail += x.weak_fail;
        s.spurious += x.spurious;
        s.parks += x.parks;
        s.unparks += x.unparks;
        s.clock_jumps += x.clock_jumps;
        s.quiescent += x.quiescent;
        s.race_checks += x.race_checks;
        s.destroyed += x.destroyed;
        s.solo_ops += x.solo_ops;
        s.lock_waits += x.lock_waits;
        s.windows += x.windows;
        s.windows_hit += x.windows_hit;
        t.ev.add(&r.ev);
        *t.flavors.entry(format!("{:?}", r.flavor)).or_default() += 1;
        let _ = r.cap;
        i += stride;
    }
    print_summary();
}
