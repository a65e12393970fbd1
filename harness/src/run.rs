//! Case driver: budgets, verdicts, panics, watchdog, counters.
use crate::sys;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static OPS: AtomicU64 = AtomicU64::new(0);
pub static IN_OP: AtomicBool = AtomicBool::new(false);
static CUR: Mutex<String> = Mutex::new(String::new());
static PANIC: Mutex<Vec<(String, bool, u8)>> = Mutex::new(Vec::new()); // message, from harness, class
static OUT: Mutex<Option<OutInfo>> = Mutex::new(None);
/// ops whose scenario legitimately may wait for a long time set this
pub static WATCH_OFF: AtomicBool = AtomicBool::new(false);

struct OutInfo {
    path: PathBuf,
    replay: String,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}
pub type VR<T = ()> = Result<T, Violation>;
pub fn viol<T>(sig: &str, detail: impl Into<String>) -> VR<T> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}

pub struct Ctx {
    pub check: String,
    pub seed: u64,
    pub worker: u64,
    pub nworkers: u64,
    pub dir: PathBuf,
    pub out: PathBuf,
    pub thorough: bool,
    pub deadline: Instant,
    pub hard: Instant,
    pub min_cases: u64,
    pub only: Option<u64>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub arg: String,
}
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let x = s();
            self.samples.push(crate::model::trunc(x));
        }
    }
    pub fn expired(&self) -> bool {
        Instant::now() >= self.deadline
    }
    pub fn case_dir(&self) -> PathBuf {
        self.dir.join("db")
    }
    pub fn rng(&self, case: u64) -> Rng {
        Rng::from(self.seed, fnv(self.check.as_bytes()), case)
    }
}

pub fn tick(desc: impl FnOnce() -> String) {
    OPS.fetch_add(1, Relaxed);
    if let Ok(mut c) = CUR.try_lock() {
        *c = desc();
    }
}
pub fn tickn() {
    OPS.fetch_add(1, Relaxed);
}
/// mark a call into the store (lets the unblocker release a parked background thread it has to wait for)
pub fn in_op<T>(f: impl FnOnce() -> T) -> T {
    OPS.fetch_add(1, Relaxed);
    IN_OP.store(true, SeqCst);
    let r = f();
    IN_OP.store(false, SeqCst);
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let harness = loc.starts_with("src/");
        let class = sys::class();
        sys::quiet(|| {
            eprintln!("panic at {loc}: {msg} (thread class {class})");
            if let Ok(mut p) = PANIC.lock() {
                p.push((format!("panic at {loc}: {msg}"), harness, class));
            }
        });
    }));
}
/// Take panics recorded so far. A harness panic ends the process as inconclusive.
pub fn take_panics() -> Vec<String> {
    let v = std::mem::take(&mut *PANIC.lock().unwrap());
    for (m, h, _) in &v {
        if *h {
            eprintln!("harness error: {m}");
            std::process::exit(3);
        }
    }
    v.into_iter().map(|x| x.0).collect()
}
/// Call into the code under test; a panic of its code becomes Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = take_panics();
            Err(p.last().cloned().unwrap_or_else(|| "panic".into()))
        }
    }
}
/// stable signature of a panic message (numbers removed)
pub fn sig_of(msg: &str) -> String {
    let mut s = String::new();
    let mut last = ' ';
    for c in msg.chars().take(160) {
        let c = if c.is_ascii_digit() { '#' } else { c };
        if c == '#' && last == '#' {
            continue;
        }
        s.push(c);
        last = c;
    }
    s
}

pub fn write_out(ctx: &Ctx, v: &[(u64, Violation)], status: &str) {
    let mut s = String::from("{");
    s.push_str(&format!("\"status\":{},", json_str(status)));
    s.push_str(&format!("\"evaluations\":{},", ctx.evals));
    s.push_str("\"distinct\":[");
    let d: Vec<String> = ctx.distinct.iter().map(|x| format!("\"{x:x}\"")).collect();
    s.push_str(&d.join(","));
    s.push_str("],\"counters\":{");
    let mut c: Vec<String> = ctx.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    for (k, v) in sys::counts() {
        c.push(format!("{}:{}", json_str(&format!("events.{k}")), v));
    }
    let cn = sys::CHAOS_N.load(Relaxed);
    if cn > 0 {
        c.push(format!("\"injected_delays\":{cn}"));
    }
    let pn = sys::PREEMPT_N.load(Relaxed);
    if pn > 0 {
        c.push(format!("\"injected_preemptions\":{pn}"));
    }
    let fh = sys::FAULT_HITS.load(Relaxed);
    if fh > 0 {
        c.push(format!("\"injected_faults\":{fh}"));
    }
    s.push_str(&c.join(","));
    s.push_str("},\"samples\":[");
    let c: Vec<String> = ctx.samples.iter().map(|k| json_str(k)).collect();
    s.push_str(&c.join(","));
    s.push_str("],\"violations\":[");
    let c: Vec<String> = v
        .iter()
        .map(|(case, v)| {
            format!("{{\"case\":{case},\"sig\":{},\"detail\":{}}}", json_str(&v.sig), json_str(&v.detail))
        })
        .collect();
    s.push_str(&c.join(","));
    s.push_str("]}");
    let tmp = ctx.out.with_extension("tmp");
    std::fs::write(&tmp, s).expect("write out");
    std::fs::rename(&tmp, &ctx.out).expect("rename out");
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

fn emergency(sig: &str, detail: &str) -> ! {
    // called from the watchdog: other threads are stuck
    if let Some(o) = OUT.lock().unwrap().as_ref() {
        let s = format!(
            "{{\"status\":\"violation\",\"evaluations\":{},\"distinct\":[],\"counters\":{{}},\"samples\":[],\"violations\":[{{\"case\":{},\"sig\":{},\"detail\":{}}}]}}",
            1,
            CASE.load(SeqCst),
            json_str(sig),
            json_str(detail)
        );
        let _ = std::fs::write(&o.path, s);
        let _ = &o.replay;
    }
    unsafe { libc::_exit(1) }
}

fn all_threads() -> Vec<(u32, char, u64)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            if let Ok(t) = e.file_name().to_string_lossy().parse::<u32>() {
                if let Some((s, c)) = sys::thread_state(t) {
                    v.push((t, s, c));
                }
            }
        }
    }
    v
}
/// the harness thread that only waits for the client threads, if any
pub static CTL_TID: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
static HELPERS: Mutex<Vec<u32>> = Mutex::new(Vec::new());
pub fn register_helper() {
    sys::set_class(sys::HARNESS);
    HELPERS.lock().unwrap().push(unsafe { libc::gettid() } as u32);
}

/// lets no background thread advance beyond its next event (if the gate is on), and waits until all of them are parked
/// or asleep, so that the directory is not changing; true if one is parked
pub fn settle() -> bool {
    if sys::FLAGS.load(SeqCst) & sys::F_GATE != 0 {
        sys::gate_close();
    }
    let t0 = Instant::now();
    let me = unsafe { libc::gettid() } as u32;
    let mut last = None;
    while t0.elapsed().as_secs() < 20 {
        let helpers = HELPERS.lock().unwrap().clone();
        let others: Vec<_> = all_threads().into_iter().filter(|t| t.0 != me && !helpers.contains(&t.0)).collect();
        let now = Some((sys::total_events(), others.iter().map(|t| t.2).sum::<u64>()));
        if others.iter().any(|t| t.1 != 'S') {
            last = None;
        } else if last == now {
            break;
        } else {
            last = now;
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    sys::gate_parked() > 0
}

/// the unblocker: a client call may legitimately wait for the parked background thread; let it advance then
pub fn start_helpers() {
    std::thread::spawn(|| {
        register_helper();
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(Duration::from_micros(700));
            if sys::FLAGS.load(Relaxed) & sys::F_GATE == 0 || !IN_OP.load(SeqCst) {
                same = 0;
                continue;
            }
            let o = OPS.load(Relaxed) ^ (sys::total_events() << 32);
            if o == last {
                same += 1;
                if same >= 3 && sys::gate_parked() > 0 {
                    sys::gate_set(40);
                    same = 1;
                }
            } else {
                last = o;
                same = 0;
            }
        }
    });
    std::thread::spawn(|| {
        register_helper();
        watchdog();
    });
}

pub fn stuck_report() -> String {
    CUR.try_lock().map(|c| c.clone()).unwrap_or_default()
}

fn watchdog() {
    let mut last = (u64::MAX, u64::MAX);
    let mut since = Instant::now();
    let mut ev0 = 0u64;
    let mut cpu0 = 0u64;
    let tick_hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let case = CASE.load(SeqCst);
        let o = (OPS.load(Relaxed), case);
        let helpers = HELPERS.lock().unwrap().clone();
        let cpu: u64 = all_threads().iter().filter(|t| !helpers.contains(&t.0)).map(|t| t.2).sum();
        if o != last || case == u64::MAX || WATCH_OFF.load(SeqCst) {
            last = o;
            since = Instant::now();
            ev0 = sys::total_events();
            cpu0 = cpu;
            continue;
        }
        let el = since.elapsed().as_secs();
        let ev = sys::total_events() - ev0;
        let cpus = cpu.saturating_sub(cpu0) / tick_hz.max(1);
        if ev > 3_000_000 || (cpus >= 45 && ev > 100_000) {
            emergency(
                "does not terminate",
                &format!("a single step executed {ev} file-system effects and {cpus} s of CPU without finishing: {}", stuck_report()),
            );
        }
        if cpus >= 90 {
            emergency("does not terminate", &format!("a single step used {cpus} s of CPU without finishing: {}", stuck_report()));
        }
        if el >= 10 {
            // blocked? every thread asleep, no CPU consumed, no event, over several samples
            sys::PREEMPT_ON.store(false, SeqCst);
            sys::gate_open();
            let mut blocked = true;
            let ctl = CTL_TID.load(SeqCst);
            let pre = sys::PREEMPTER_TID.load(SeqCst);
            let mut prev: Option<Vec<(u32, u64)>> = None;
            let e0 = sys::total_events();
            for _ in 0..12 {
                std::thread::sleep(Duration::from_millis(400));
                let t: Vec<_> = all_threads().into_iter().filter(|t| !helpers.contains(&t.0) && t.0 != ctl && t.0 != pre).collect();
                if t.iter().any(|t| t.1 != 'S') || OPS.load(Relaxed) != o.0 || sys::total_events() != e0 {
                    blocked = false;
                    break;
                }
                let c: Vec<(u32, u64)> = t.iter().map(|t| (t.0, t.2)).collect();
                if let Some(p) = &prev {
                    if *p != c {
                        blocked = false;
                        break;
                    }
                }
                prev = Some(c);
            }
            if blocked {
                let n = prev.map(|p| p.len()).unwrap_or(0);
                emergency(
                    "deadlock",
                    &format!("all {n} threads are blocked for ever while executing: {}", stuck_report()),
                );
            }
        }
        if el > 400 {
            eprintln!("watchdog: no progress for {el} s, inconclusive: {}", stuck_report());
            unsafe { libc::_exit(4) }
        }
    }
}

pub type CaseFn = fn(&mut Ctx, u64) -> VR;

pub fn drive(ctx: &mut Ctx, f: CaseFn) -> i32 {
    install_panic_hook();
    *OUT.lock().unwrap() = Some(OutInfo { path: ctx.out.clone(), replay: String::new() });
    sys::set_class(sys::HARNESS);
    start_helpers();
    let mut viols = vec![];
    let mut case = ctx.worker;
    loop {
        let c = ctx.only.unwrap_or(case);
        CASE.store(c, SeqCst);
        tickn();
        let r = f(ctx, c);
        CASE.store(u64::MAX, SeqCst);
        reset_modes();
        sys::set_class(sys::HARNESS);
        let mut r = r;
        let p = take_panics();
        if r.is_ok() && !p.is_empty() {
            r = viol(&sig_of(&p[0]), format!("internal failure: {}", p.join("; ")));
        }
        ctx.evals += 1;
        if let Err(v) = r {
            viols.push((c, v));
            break;
        }
        if ctx.only.is_some() {
            break;
        }
        case += ctx.nworkers;
        let done = case / ctx.nworkers;
        if (ctx.expired() && done >= ctx.min_cases) || Instant::now() >= ctx.hard {
            break;
        }
    }
    wipe(&ctx.dir);
    let st = if viols.is_empty() { "ok" } else { "violation" };
    write_out(ctx, &viols, st);
    if viols.is_empty() {
        0
    } else {
        for (c, v) in &viols {
            eprintln!("case {c}: [{}] {}", v.sig, v.detail);
        }
        1
    }
}
pub fn reset_modes() {
    sys::gate_open();
    sys::FLAGS.store(0, SeqCst);
    sys::CHAOS_P.store(0, SeqCst);
    sys::PREEMPT_ON.store(false, SeqCst);
    sys::FAULT_KINDS.store(0, SeqCst);
    sys::FAULT_COUNT.store(0, SeqCst);
    sys::FAULT_CLASS.store(0, SeqCst);
    if sys::PROTECT.load(SeqCst) {
        sys::protect(false);
    }
    CTL_TID.store(0, SeqCst);
    sys::set_root(None);
}

/// command line, budgets, then the case loop
pub fn run_main(lookup: fn(&str) -> Option<CaseFn>) -> ! {
    let mut a = std::env::args().skip(1);
    let check = a.next().expect("check");
    let (mut seed, mut worker, mut nworkers, mut secs, mut min_cases) = (1u64, 0u64, 1u64, 5.0f64, 1u64);
    let (mut dir, mut out, mut only, mut thorough, mut arg) =
        (PathBuf::from("/dev/shm/cv"), PathBuf::from("/dev/shm/cv.json"), None, false, String::new());
    while let Some(k) = a.next() {
        if k == "--thorough" {
            thorough = true;
            continue;
        }
        let v = a.next().expect("value");
        match k.as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--worker" => {
                let (x, y) = v.split_once('/').unwrap();
                worker = x.parse().unwrap();
                nworkers = y.parse().unwrap();
            }
            "--secs" => secs = v.parse().unwrap(),
            "--min-cases" => min_cases = v.parse().unwrap(),
            "--dir" => dir = v.into(),
            "--out" => out = v.into(),
            "--case" => only = Some(v.parse().unwrap()),
            "--arg" => arg = v,
            _ => panic!("unknown argument {k}"),
        }
    }
    let now0 = Instant::now();
    let mut ctx = Ctx {
        check: check.clone(),
        seed,
        worker,
        nworkers,
        dir: dir.clone(),
        out,
        thorough,
        deadline: now0 + Duration::from_secs_f64(secs),
        hard: now0 + Duration::from_secs_f64(secs * 3.0 + 60.0),
        min_cases,
        only,
        evals: 0,
        distinct: Default::default(),
        counters: Default::default(),
        samples: vec![],
        arg,
    };
    fresh(&dir);
    let f = lookup(&check).unwrap_or_else(|| panic!("unknown check {check}"));
    std::process::exit(drive(&mut ctx, f));
}
