//! Replays a property against the real crate on generated inputs. Used (a) to look for a concrete
//! failing input when a proof obligation fails, (b) as a small cross-check of what the proofs assume.
mod deps;
mod gen;
mod misc;
mod rules;
mod wire;

use gen::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
#[macro_export]
macro_rules! ck { ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } } }

/// Any single request above this (inputs are a few kilobytes) is reported as over-allocation.
const LIMIT: usize = 256 << 20;
struct A;
thread_local! { static CUR: Cell<u64> = const { Cell::new(0) }; }
static GUARD: AtomicBool = AtomicBool::new(false);
fn too_big(size: usize) {
    if size > LIMIT && GUARD.load(Ordering::Relaxed) {
        let s = CUR.try_with(|c| c.get()).unwrap_or(0);
        let mut b = [0u8; 128];
        let n = { let mut c = &mut b[..]; let t = c.len(); let _ = writeln!(c, "FOUND seed={s} msg=a single allocation of {size} bytes was requested while decoding"); t - c.len() };
        let _ = std::io::stdout().lock().write_all(&b[..n]);
        let _ = std::io::stdout().lock().flush();
        std::process::exit(1);
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { too_big(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { too_big(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { too_big(n); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;

fn run_case(prop: &str, seed: u64) -> R {
    let mut r = Rng(seed);
    match prop {
        "C01" => wire::c01(&mut r), "C02" => wire::c02(&mut r), "C03" => wire::c03(&mut r), "C04" => wire::c04(&mut r), "C05" => wire::c05(&mut r),
        "C06" => rules::c06(&mut r), "C07" => rules::validation("C07", &mut r), "C08" => rules::validation("C08", &mut r), "C09" => rules::validation("C09", &mut r),
        "C10" => rules::validation("C10", &mut r), "C11" => rules::validation("C11", &mut r), "C12" => rules::c12(&mut r), "C13" => rules::c13(&mut r),
        "C14" => rules::c14(&mut r), "C15" => rules::c15(&mut r), "C16" => rules::c16(&mut r), "C17" => rules::c17(&mut r),
        "C18" => wire::c18(&mut r), "C19" => misc::c19(&mut r), "C20" => misc::c20(&mut r), "C21" => misc::c21(&mut r), "C22" => misc::c22(&mut r), "C23" => misc::c23(&mut r), "C24" => misc::c24(&mut r),
        "DEPS" => deps::deps(&mut r),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    }
}

fn guarded(prop: &str, seed: u64) -> R {
    CUR.with(|c| c.set(seed));
    match std::panic::catch_unwind(|| run_case(prop, seed)) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let loc = LOC.with(|l| l.take());
            // a panic raised in this harness' own files is a defect of the harness, not a finding
            if loc.starts_with("src/") { eprintln!("harness panic at {loc}: {m} (seed {seed})"); return Ok(()); }
            Err(format!("panicked at {loc}: {m}"))
        }
    }
}
thread_local! { static LOC: Cell<String> = const { Cell::new(String::new()) }; }

fn main() {
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); LOC.with(|c| c.set(l)); }));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    GUARD.store(prop == "C03", Ordering::Relaxed);
    if let Some(s) = get("--case") {
        let s: u64 = s.parse().expect("seed");
        match guarded(&prop, s) { Ok(()) => println!("OK seed={s}"), Err(m) => { println!("FOUND seed={s} msg={m}"); std::process::exit(1) } }
        return;
    }
    let secs: f64 = get("--seconds").map(|s| s.parse().unwrap()).unwrap_or(5.0);
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let max: u64 = get("--max").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let nt: u64 = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let beat: Vec<(AtomicU64, AtomicU64)> = (0..nt).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let start = Instant::now();
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (next, stop, found, beat, prop, done) = (&next, &stop, &found, &beat, &prop, &done);
            s.spawn(move || {
                loop {
                    if stop.load(Ordering::Relaxed) || Instant::now() >= end { break; }
                    let k = next.fetch_add(32, Ordering::Relaxed);
                    if k >= max { break; }
                    for j in k..k + 32 {
                        let cs = Rng(seed.wrapping_mul(0x1_0000_0001).wrapping_add(j)).next();
                        beat[t as usize].0.store(cs, Ordering::Relaxed);
                        beat[t as usize].1.store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
                        let r = guarded(prop, cs);
                        beat[t as usize].1.store(0, Ordering::Relaxed);
                        done.fetch_add(1, Ordering::Relaxed);
                        if let Err(m) = r {
                            let mut f = found.lock().unwrap();
                            if f.is_none() { *f = Some((cs, m)); }
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                }
                beat[t as usize].1.store(0, Ordering::Relaxed);
            });
        }
        let (stop, beat) = (&stop, &beat);
        s.spawn(move || {
            while Instant::now() < end + Duration::from_secs(200) && !stop.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_secs() + 1;
                let mut busy = false;
                for b in beat.iter() {
                    let t = b.1.load(Ordering::Relaxed);
                    if t != 0 { busy = true; if now.saturating_sub(t) > 120 { println!("FOUND seed={} msg=no answer within 120 s", b.0.load(Ordering::Relaxed)); std::process::exit(1); } }
                }
                if !busy && Instant::now() >= end { break; }
                if !busy && max != u64::MAX { break; }
            }
        });
    });
    println!("CASES {}", done.load(Ordering::Relaxed));
    if let Some((s, m)) = found.into_inner().unwrap() {
        println!("FOUND seed={s} msg={m}");
        std::process::exit(1);
    }
    println!("NONE");
}
