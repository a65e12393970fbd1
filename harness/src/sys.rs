//! Observation and control layer: overrides of libc symbols (linked before libc.so) plus page protection of the
//! memory-mapped shard headers. Every file-system effect and (when protection is on) every store into a mapped header of
//! the *tracked* directory is an event, at which we may delay, fail, stop or report.
#![allow(static_mut_refs)]
use libc::*;
use std::cell::Cell;
use std::ffi::CStr;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

pub const MAXFD: usize = 16384;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Open = 0,
    Pread,
    Pwrite,
    Ftruncate,
    Falloc,
    Mmap,
    Rename,
    Unlink,
    Sync,
    Read,
    Store,
    OpenDir,
    N,
}
pub const NK: usize = K::N as usize;
pub const KNAMES: [&str; NK] = [
    "open", "pread", "pwrite", "ftruncate", "fallocate", "mmap", "rename", "unlink", "sync", "read", "store", "opendir",
];

/// file kinds, by name
pub const FK_NONE: u8 = 0;
pub const FK_SHARD: u8 = 1;
pub const FK_COMPACT: u8 = 2;
pub const FK_SPLIT: u8 = 3;
pub const FK_MERGE: u8 = 4;
pub const FK_OTHER: u8 = 5;

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub k: K,
    pub fk: u8,
    pub ino: u64,
    pub class: u8,
    pub len: usize,
}
pub enum Act {
    Go,
    Fail(i32),
    Short,
}

pub const F_GATE: u32 = 1;
pub const F_CHAOS: u32 = 2;
pub const F_FAULT: u32 = 4;
pub const F_CRASH: u32 = 8;
pub const F_DIRTY: u32 = 16;
pub const F_HASH: u32 = 32;
pub const F_KILL: u32 = 64;
/// keep what every sync hands over (with F_DIRTY)
pub const F_POWER: u32 = 128;
pub static FLAGS: AtomicU32 = AtomicU32::new(0);

pub fn flags_on(f: u32) {
    FLAGS.fetch_or(f, SeqCst);
}
pub fn flags_off(f: u32) {
    FLAGS.fetch_and(!f, SeqCst);
}

// ------------------------------------------------------------------ thread classes
/// 0 = background (compaction) thread, 1..=200 = client threads, 255 = harness thread (not observed)
pub const HARNESS: u8 = 255;
thread_local! {
    static CLASS: Cell<u8> = const { Cell::new(0) };
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
    static TRNG: Cell<u64> = const { Cell::new(0) };
    static STEP: Cell<usize> = const { Cell::new(usize::MAX) };
    static BGREG: Cell<bool> = const { Cell::new(false) };
    /// writes (ino, seq) made by this thread since last `dirty_take`
    static MYW: Cell<[(u64, u64); 16]> = const { Cell::new([(0, 0); 16]) };
    static MYWN: Cell<usize> = const { Cell::new(0) };
    static MYP: Cell<u64> = const { Cell::new(0) };
    static MYSTRUCT: Cell<u32> = const { Cell::new(0) };
}
pub fn set_class(c: u8) -> u8 {
    if c >= 1 && c != HARNESS {
        TIDS[c as usize].store(unsafe { gettid() } as u32, SeqCst);
    }
    CLASS.with(|x| x.replace(c))
}
pub fn class() -> u8 {
    CLASS.with(|x| x.get())
}
/// run `f` unobserved
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let c = CLASS.with(|x| x.replace(HARNESS));
    let r = f();
    CLASS.with(|x| x.set(c));
    r
}
pub static TIDS: [AtomicU32; 256] = [const { AtomicU32::new(0) }; 256];
pub static BG_TIDS: [AtomicU32; 64] = [const { AtomicU32::new(0) }; 64];
static BG_N: AtomicUsize = AtomicUsize::new(0);

pub fn seed_thread(seed: u64) {
    TRNG.with(|x| x.set(seed | 1));
}
fn trng() -> u64 {
    TRNG.with(|x| {
        let mut s = x.get();
        if s == 0 {
            s = (unsafe { gettid() } as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ CHAOS_SEED.load(Relaxed) | 1;
        }
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        x.set(s);
        s.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 16
    })
}

// ------------------------------------------------------------------ tracked directory, fds
static mut ROOT: [u8; 512] = [0; 512];
static ROOT_LEN: AtomicUsize = AtomicUsize::new(0);
static FD_K: [AtomicU32; MAXFD] = [const { AtomicU32::new(0) }; MAXFD];
static FD_I: [AtomicU64; MAXFD] = [const { AtomicU64::new(0) }; MAXFD];

pub fn set_root(p: Option<&Path>) {
    ROOT_LEN.store(0, SeqCst);
    if let Some(p) = p {
        let b = p.as_os_str().as_encoded_bytes();
        assert!(b.len() < 500);
        unsafe { ROOT[..b.len()].copy_from_slice(b) };
        ROOT_LEN.store(b.len(), SeqCst);
    }
}
fn classify(path: &[u8]) -> u8 {
    let n = ROOT_LEN.load(Relaxed);
    if n == 0 || path.len() < n || unsafe { &ROOT[..n] } != &path[..n] {
        return FK_NONE;
    }
    if path.len() == n {
        return FK_OTHER;
    }
    if path[n] != b'/' {
        return FK_NONE;
    }
    let base = &path[n + 1..];
    if base.contains(&b'/') {
        return FK_NONE;
    }
    if base.starts_with(b"shard_") {
        FK_SHARD
    } else if base.starts_with(b"compact_") {
        FK_COMPACT
    } else if base.starts_with(b"bottom_") || base.starts_with(b"top_") {
        FK_SPLIT
    } else if base.starts_with(b"merge_") {
        FK_MERGE
    } else if base.starts_with(b".lock") {
        FK_NONE
    } else {
        FK_OTHER
    }
}

// ------------------------------------------------------------------ counters
pub static COUNTS: [AtomicU64; NK] = [const { AtomicU64::new(0) }; NK];
pub static BGCOUNTS: [AtomicU64; NK] = [const { AtomicU64::new(0) }; NK];
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static TRACE_HASH: AtomicU64 = AtomicU64::new(0);
pub static SEQ: AtomicU64 = AtomicU64::new(1);
/// renames of compaction and split results
pub static REORG: AtomicU64 = AtomicU64::new(0);

pub fn counts() -> Vec<(String, u64)> {
    let mut v = vec![];
    for i in 0..NK {
        let c = COUNTS[i].load(Relaxed);
        let b = BGCOUNTS[i].load(Relaxed);
        if c > 0 {
            v.push((format!("client_{}", KNAMES[i]), c));
        }
        if b > 0 {
            v.push((format!("background_{}", KNAMES[i]), b));
        }
    }
    v
}
pub fn total_events() -> u64 {
    EVENTS.load(Relaxed)
}

// ------------------------------------------------------------------ gate for background threads
struct Gate {
    budget: i64,
    parked: u32,
}
static GATE: Mutex<Gate> = Mutex::new(Gate { budget: i64::MAX, parked: 0 });
static GATE_CV: Condvar = Condvar::new();
static GATE_BACK: Condvar = Condvar::new();

pub fn gate_set(budget: i64) {
    let mut g = GATE.lock().unwrap();
    g.budget = budget;
    GATE_CV.notify_all();
}
pub fn gate_open() {
    gate_set(i64::MAX);
}
pub fn gate_close() {
    gate_set(0);
}
pub fn gate_parked() -> u32 {
    GATE.lock().unwrap().parked
}
/// let the background threads execute up to n events and wait until they are parked again or idle
pub fn gate_pump(n: i64) -> bool {
    let mut g = GATE.lock().unwrap();
    g.budget = n;
    GATE_CV.notify_all();
    let t0 = std::time::Instant::now();
    loop {
        if g.budget == 0 && g.parked > 0 {
            return true;
        }
        let (g2, _) = GATE_BACK.wait_timeout(g, std::time::Duration::from_micros(300)).unwrap();
        g = g2;
        if g.budget == 0 && g.parked > 0 {
            return true;
        }
        if g.parked == 0 {
            drop(g);
            let idle = bg_idle();
            g = GATE.lock().unwrap();
            if idle && g.parked == 0 || t0.elapsed().as_millis() > 2000 {
                g.budget = 0;
                return false;
            }
        }
        if t0.elapsed().as_millis() > 3000 {
            g.budget = 0;
            return false;
        }
    }
}
/// all known background threads are asleep (waiting for work)
pub fn bg_idle() -> bool {
    for i in 0..BG_N.load(SeqCst).min(64) {
        let t = BG_TIDS[i].load(SeqCst);
        if t == 0 {
            continue;
        }
        match thread_state(t) {
            None => BG_TIDS[i].store(0, SeqCst),
            Some(('S', _)) => {}
            Some(_) => return false,
        }
    }
    true
}
/// (state, utime+stime) of a thread of this process
pub fn thread_state(tid: u32) -> Option<(char, u64)> {
    let s = quiet(|| std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let st = f[0].chars().next()?;
    Some((st, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

// ------------------------------------------------------------------ chaos
pub static CHAOS_SEED: AtomicU64 = AtomicU64::new(1);
/// out of 1000: probability of a delay at an event
pub static CHAOS_P: AtomicU32 = AtomicU32::new(0);
pub static CHAOS_MAX_US: AtomicU32 = AtomicU32::new(200);
pub static CHAOS_N: AtomicU64 = AtomicU64::new(0);
pub static PREEMPT_N: AtomicU64 = AtomicU64::new(0);

fn sleep_us(us: u64) {
    let ts = timespec { tv_sec: 0, tv_nsec: (us * 1000) as i64 };
    unsafe { syscall(SYS_nanosleep, &ts, 0usize) };
}
fn chaos() {
    let r = trng();
    if (r % 1000) as u32 >= CHAOS_P.load(Relaxed) {
        return;
    }
    CHAOS_N.fetch_add(1, Relaxed);
    match (r >> 12) % 4 {
        0 => unsafe {
            syscall(SYS_sched_yield);
        },
        1 => {
            for _ in 0..(r >> 20) % 3000 {
                std::hint::spin_loop();
            }
        }
        _ => sleep_us((r >> 20) % CHAOS_MAX_US.load(Relaxed).max(1) as u64),
    }
}
extern "C" fn on_usr1(_s: c_int, _i: *mut siginfo_t, _c: *mut c_void) {
    let e = unsafe { *__errno_location() };
    let us = trng() % PREEMPT_US.load(Relaxed).max(1) as u64;
    sleep_us(us);
    PREEMPT_N.fetch_add(1, Relaxed);
    unsafe { *__errno_location() = e };
}
pub static PREEMPT_US: AtomicU32 = AtomicU32::new(150);
pub static PREEMPTER_TID: AtomicU32 = AtomicU32::new(0);
pub static PREEMPT_ON: AtomicBool = AtomicBool::new(false);
/// a thread that stops random client/background threads at arbitrary instructions
pub fn start_preempter() {
    static STARTED: AtomicBool = AtomicBool::new(false);
    if STARTED.swap(true, SeqCst) {
        return;
    }
    unsafe {
        let mut sa: sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_usr1 as *const () as usize;
        sa.sa_flags = SA_RESTART | SA_SIGINFO;
        libc::sigaction(SIGUSR1, &sa, std::ptr::null_mut());
    }
    std::thread::spawn(|| {
        set_class(HARNESS);
        PREEMPTER_TID.store(unsafe { gettid() } as u32, SeqCst);
        let pid = unsafe { getpid() };
        loop {
            if !PREEMPT_ON.load(Relaxed) {
                sleep_us(2000);
                continue;
            }
            let r = trng();
            let mut cand = [0u32; 320];
            let mut n = 0;
            for t in TIDS.iter().chain(BG_TIDS.iter()) {
                let t = t.load(Relaxed);
                if t != 0 {
                    cand[n] = t;
                    n += 1;
                }
            }
            if n > 0 {
                unsafe { syscall(SYS_tgkill, pid, cand[(r as usize >> 3) % n] as c_int, SIGUSR1) };
            }
            sleep_us(20 + (r >> 30) % 120);
        }
    });
}
pub fn client_done() {
    let c = class();
    TIDS[c as usize].store(0, SeqCst);
    set_class(HARNESS);
}

// ------------------------------------------------------------------ faults
pub static FAULT_KINDS: AtomicU32 = AtomicU32::new(0); // bit per K
pub static FAULT_FKS: AtomicU32 = AtomicU32::new(u32::MAX); // bit per file kind
pub static FAULT_SKIP: AtomicI64 = AtomicI64::new(0); // matching events to let pass
pub static FAULT_COUNT: AtomicI64 = AtomicI64::new(0); // how many to fail afterwards
pub static FAULT_ERRNO: AtomicU32 = AtomicU32::new(0);
/// 0 any thread, 1 background threads only, 2 client threads only
pub static FAULT_CLASS: AtomicU32 = AtomicU32::new(0);
pub static FAULT_SHORT: AtomicBool = AtomicBool::new(false);
pub static FAULT_SEEN: AtomicU64 = AtomicU64::new(0);
pub static FAULT_HITS: AtomicU64 = AtomicU64::new(0);
pub static FAULT_LAST: AtomicU32 = AtomicU32::new(0);

fn fault(ev: &Ev) -> Act {
    if FAULT_KINDS.load(Relaxed) & (1 << ev.k as u32) == 0 || FAULT_FKS.load(Relaxed) & (1 << ev.fk) == 0 {
        return Act::Go;
    }
    match FAULT_CLASS.load(Relaxed) {
        1 if ev.class != 0 => return Act::Go,
        2 if ev.class == 0 => return Act::Go,
        _ => {}
    }
    FAULT_SEEN.fetch_add(1, SeqCst);
    if FAULT_SKIP.fetch_sub(1, SeqCst) > 0 {
        return Act::Go;
    }
    if FAULT_COUNT.fetch_sub(1, SeqCst) > 0 {
        FAULT_HITS.fetch_add(1, SeqCst);
        FAULT_LAST.store(ev.k as u32 | (ev.fk as u32) << 8 | (ev.class as u32) << 16, SeqCst);
        if matches!(ev.k, K::Pwrite | K::Pread) && FAULT_SHORT.load(Relaxed) {
            return Act::Short;
        }
        let e = match FAULT_ERRNO.load(Relaxed) {
            0 => match ev.k {
                K::Pwrite | K::Ftruncate | K::Falloc | K::Rename => ENOSPC,
                K::Open => EMFILE,
                K::Mmap => ENOMEM,
                _ => EIO,
            },
            e => e as i32,
        };
        return Act::Fail(e);
    }
    Act::Go
}

// ------------------------------------------------------------------ crash points / kill points
pub static CRASH_CB: AtomicUsize = AtomicUsize::new(0); // fn(&Ev)
pub static KILL_AFTER: AtomicI64 = AtomicI64::new(i64::MAX);

/// in crash mode effects are executed one at a time, so that the callback sees a consistent directory
static EFF: AtomicBool = AtomicBool::new(false);
thread_local! {
    static EFF_HELD: Cell<bool> = const { Cell::new(false) };
}
fn eff_lock() {
    if EFF_HELD.with(|x| x.get()) {
        return;
    }
    let mut n = 0u32;
    while EFF.swap(true, SeqCst) {
        n += 1;
        if n > 50 {
            unsafe { syscall(SYS_sched_yield) };
        }
    }
    EFF_HELD.with(|x| x.set(true));
}
fn eff_unlock() {
    if EFF_HELD.with(|x| x.replace(false)) {
        EFF.store(false, SeqCst);
    }
}
/// ends an effect announced with `before`
#[cfg(not(feature = "plain"))]
struct After;
#[cfg(not(feature = "plain"))]
impl Drop for After {
    fn drop(&mut self) {
        // not when a callback, run in the middle of an effect, makes calls of its own
        if class() != HARNESS {
            eff_unlock();
        }
    }
}

// ------------------------------------------------------------------ dirty tracking
const ND: usize = 4096;
static D_INO: [AtomicU64; ND] = [const { AtomicU64::new(0) }; ND];
static D_WRITE: [AtomicU64; ND] = [const { AtomicU64::new(0) }; ND];
static D_CLIENT: [AtomicU64; ND] = [const { AtomicU64::new(0) }; ND];
static D_SYNC: [AtomicU64; ND] = [const { AtomicU64::new(0) }; ND];
fn dslot(ino: u64) -> Option<usize> {
    let mut i = (ino.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 50) as usize % ND;
    for _ in 0..ND {
        let v = D_INO[i].load(SeqCst);
        if v == ino {
            return Some(i);
        }
        if v == 0 && D_INO[i].compare_exchange(0, ino, SeqCst, SeqCst).is_ok() {
            return Some(i);
        }
        if v == 0 {
            continue;
        }
        i = (i + 1) % ND;
    }
    None
}
pub fn dirty_reset() {
    for i in 0..ND {
        D_INO[i].store(0, SeqCst);
        D_WRITE[i].store(0, SeqCst);
        D_CLIENT[i].store(0, SeqCst);
        D_SYNC[i].store(0, SeqCst);
    }
}
/// (last modification seq, start seq of the last successful sync) of an inode
pub fn dirty_of(ino: u64) -> (u64, u64) {
    match dslot(ino) {
        Some(i) => (D_WRITE[i].load(SeqCst), D_SYNC[i].load(SeqCst)),
        None => (0, 0),
    }
}
/// seq of the last modification by a client thread
pub fn dirty_client(ino: u64) -> u64 {
    dslot(ino).map(|i| D_CLIENT[i].load(SeqCst)).unwrap_or(0)
}
fn dirty_write(ino: u64) {
    let s = SEQ.fetch_add(1, SeqCst);
    if let Some(i) = dslot(ino) {
        D_WRITE[i].fetch_max(s, SeqCst);
        if class() != 0 {
            D_CLIENT[i].fetch_max(s, SeqCst);
        }
    }
    let n = MYWN.with(|x| x.get());
    MYW.with(|x| {
        let mut a = x.get();
        for e in a[..n].iter_mut() {
            if e.0 == ino {
                e.1 = s;
                x.set(a);
                return;
            }
        }
        if n < 16 {
            a[n] = (ino, s);
            x.set(a);
            MYWN.with(|y| y.set(n + 1));
        }
    });
}
/// contents of each inode at its last sync
static DURABLE: Mutex<Option<std::collections::HashMap<u64, Vec<u8>>>> = Mutex::new(None);
pub fn durable_reset() {
    *DURABLE.lock().unwrap() = None;
}
pub fn durable_of(ino: u64) -> Option<Vec<u8>> {
    DURABLE.lock().unwrap().as_ref().and_then(|m| m.get(&ino).cloned())
}
#[cfg(not(feature = "plain"))]
fn durable_keep(fd: c_int, ino: u64) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if fstat(fd, &mut st) != 0 {
            return;
        }
        let mut buf = vec![0u8; st.st_size as usize];
        let mut n = 0;
        while n < buf.len() {
            let r = syscall(SYS_pread64, fd, buf.as_mut_ptr().add(n), buf.len() - n, n as i64);
            if r <= 0 {
                break;
            }
            n += r as usize;
        }
        buf.truncate(n);
        DURABLE.lock().unwrap().get_or_insert_with(Default::default).insert(ino, buf);
    }
}
#[derive(Debug)]
pub struct MyWrites {
    /// (inode, seq of the last modification) by this thread
    pub all: Vec<(u64, u64)>,
    /// the inode this thread wrote data to last, 0 if none
    pub last_data: u64,
    /// files opened, created or renamed by this thread
    pub structural: u32,
}
/// what this thread modified since the last call
pub fn dirty_take() -> MyWrites {
    let n = MYWN.with(|x| x.replace(0));
    MyWrites {
        all: MYW.with(|x| x.get()[..n].to_vec()),
        last_data: MYP.with(|x| x.replace(0)),
        structural: MYSTRUCT.with(|x| x.replace(0)),
    }
}

// ------------------------------------------------------------------ event dispatch
fn before(ev: &Ev) -> Act {
    let f = FLAGS.load(Relaxed);
    EVENTS.fetch_add(1, Relaxed);
    if ev.class == 0 {
        BGCOUNTS[ev.k as usize].fetch_add(1, Relaxed);
        if !BGREG.with(|x| x.replace(true)) {
            let i = BG_N.fetch_add(1, SeqCst);
            BG_TIDS[i % 64].store(unsafe { gettid() } as u32, SeqCst);
        }
    } else {
        COUNTS[ev.k as usize].fetch_add(1, Relaxed);
    }
    if f == 0 {
        return Act::Go;
    }
    if IN_HOOK.with(|x| x.replace(true)) {
        return Act::Go;
    }
    if f & F_HASH != 0 {
        let x = (ev.class as u64) << 16 | (ev.k as u64) << 8 | ev.fk as u64;
        let mut h = TRACE_HASH.load(Relaxed);
        while let Err(c) = TRACE_HASH.compare_exchange(h, crate::util::mix(h, x), Relaxed, Relaxed) {
            h = c;
        }
    }
    if f & F_KILL != 0 && KILL_AFTER.fetch_sub(1, SeqCst) <= 0 {
        unsafe {
            syscall(SYS_kill, getpid(), SIGKILL);
            loop {
                sleep_us(1000);
            }
        }
    }
    if f & F_GATE != 0 && ev.class == 0 {
        let mut g = GATE.lock().unwrap();
        if g.budget <= 0 {
            g.parked += 1;
            GATE_BACK.notify_all();
            while g.budget <= 0 {
                g = GATE_CV.wait(g).unwrap();
            }
            g.parked -= 1;
        }
        if g.budget != i64::MAX {
            g.budget -= 1;
        }
    }
    if f & F_CHAOS != 0 {
        chaos();
    }
    if f & F_CRASH != 0 && !matches!(ev.k, K::Pread | K::Read | K::OpenDir) {
        eff_lock();
        let cb = CRASH_CB.load(Relaxed);
        if cb != 0 {
            let cb: fn(&Ev) = unsafe { std::mem::transmute(cb) };
            cb(ev);
        }
    }
    if f & F_DIRTY != 0 && matches!(ev.k, K::Open | K::Rename | K::Ftruncate) {
        MYSTRUCT.with(|x| x.set(x.get() + 1));
    }
    let mut a = Act::Go;
    if f & F_FAULT != 0 {
        a = fault(ev);
    }
    IN_HOOK.with(|x| x.set(false));
    a
}
fn seterr(e: i32) {
    unsafe { *__errno_location() = e };
}

// ------------------------------------------------------------------ mapped headers
const NR: usize = 8192;
static R_ADDR: [AtomicUsize; NR] = [const { AtomicUsize::new(0) }; NR];
static R_LEN: [AtomicUsize; NR] = [const { AtomicUsize::new(0) }; NR];
static R_FK: [AtomicU32; NR] = [const { AtomicU32::new(0) }; NR];
static R_INO: [AtomicU64; NR] = [const { AtomicU64::new(0) }; NR];
static R_HI: AtomicUsize = AtomicUsize::new(0);
pub static PROTECT: AtomicBool = AtomicBool::new(false);

fn region_add(addr: usize, len: usize, fk: u8, ino: u64) {
    for i in 0..NR {
        if R_ADDR[i].compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            R_LEN[i].store(len, SeqCst);
            R_FK[i].store(fk as u32, SeqCst);
            R_INO[i].store(ino, SeqCst);
            R_ADDR[i].store(addr, SeqCst);
            R_HI.fetch_max(i + 1, SeqCst);
            return;
        }
    }
}
fn region_find(addr: usize) -> Option<usize> {
    for i in 0..R_HI.load(SeqCst) {
        let a = R_ADDR[i].load(SeqCst);
        if a > 1 && addr >= a && addr < a + R_LEN[i].load(SeqCst) {
            return Some(i);
        }
    }
    None
}
/// Turn interception of stores into mapped headers on or off.
pub fn protect(on: bool) {
    install_segv();
    PROTECT.store(on, SeqCst);
    for i in 0..R_HI.load(SeqCst) {
        let a = R_ADDR[i].load(SeqCst);
        if a > 1 {
            let p = if on { PROT_READ } else { PROT_READ | PROT_WRITE };
            unsafe { syscall(SYS_mprotect, a, R_LEN[i].load(SeqCst), p) };
        }
    }
}
extern "C" fn on_segv(_s: c_int, info: *mut siginfo_t, ctx: *mut c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        match region_find(addr) {
            Some(r) => {
                let cl = class();
                if cl != HARNESS && PROTECT.load(SeqCst) {
                    let e = *__errno_location();
                    let ino = R_INO[r].load(SeqCst);
                    let ev = Ev { k: K::Store, fk: R_FK[r].load(SeqCst) as u8, ino, class: cl, len: 0 };
                    before(&ev);
                    if FLAGS.load(Relaxed) & F_DIRTY != 0 {
                        dirty_write(ino);
                    }
                    *__errno_location() = e;
                }
                syscall(SYS_mprotect, R_ADDR[r].load(SeqCst), R_LEN[r].load(SeqCst), PROT_READ | PROT_WRITE);
                if PROTECT.load(SeqCst) {
                    STEP.with(|x| x.set(r));
                    let uc = ctx as *mut ucontext_t;
                    (*uc).uc_mcontext.gregs[REG_EFL as usize] |= 0x100;
                } else {
                    eff_unlock();
                }
            }
            None => {
                // a genuine crash: restore the default action and let it happen again
                let mut sa: sigaction = std::mem::zeroed();
                sa.sa_sigaction = SIG_DFL;
                libc::sigaction(SIGSEGV, &sa, std::ptr::null_mut());
            }
        }
    }
}
extern "C" fn on_trap(_s: c_int, _info: *mut siginfo_t, ctx: *mut c_void) {
    unsafe {
        let r = STEP.with(|x| x.replace(usize::MAX));
        let uc = ctx as *mut ucontext_t;
        (*uc).uc_mcontext.gregs[REG_EFL as usize] &= !0x100;
        if r != usize::MAX && PROTECT.load(SeqCst) {
            let a = R_ADDR[r].load(SeqCst);
            if a > 1 {
                syscall(SYS_mprotect, a, R_LEN[r].load(SeqCst), PROT_READ);
            }
        }
        eff_unlock();
    }
}
fn install_segv() {
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, SeqCst) {
        return;
    }
    unsafe {
        let mut sa: sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        libc::sigaction(SIGSEGV, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_trap as *const () as usize;
        libc::sigaction(SIGTRAP, &sa, std::ptr::null_mut());
    }
}

// ------------------------------------------------------------------ the overrides
#[cfg(not(feature = "plain"))]
mod hooks {
    use super::*;
    fn fdk(fd: c_int) -> u8 {
        if fd < 0 || fd as usize >= MAXFD {
            return 0;
        }
        FD_K[fd as usize].load(Relaxed) as u8
    }
    fn fdi(fd: c_int) -> u64 {
        FD_I[fd as usize].load(Relaxed)
    }
    fn ev(k: K, fk: u8, fd: c_int, len: usize) -> Option<Ev> {
        let c = class();
        if fk == 0 || c == HARNESS {
            return None;
        }
        Some(Ev { k, fk, ino: if fd >= 0 { fdi(fd) } else { 0 }, class: c, len })
    }
    unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
        CStr::from_ptr(p).to_bytes()
    }
    unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        let fk = classify(cpath(p));
        let _after = After;
        if let Some(e) = ev(K::Open, fk, -1, 0) {
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return -1;
            }
        }
        let fd = syscall(SYS_openat, dirfd, p, flags, mode) as c_int;
        if fd >= 0 && (fd as usize) < MAXFD {
            let isdir = flags & O_DIRECTORY != 0;
            FD_K[fd as usize].store(if isdir { 0 } else { fk as u32 }, Relaxed);
            if fk != 0 {
                let mut st: libc::stat = std::mem::zeroed();
                if fstat(fd, &mut st) == 0 {
                    FD_I[fd as usize].store(st.st_ino, Relaxed);
                    if FLAGS.load(Relaxed) & F_DIRTY != 0 && flags & O_TRUNC != 0 && !isdir && class() != HARNESS {
                        dirty_write(st.st_ino);
                    }
                }
            }
        }
        fd
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        do_open(AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        if fd >= 0 && (fd as usize) < MAXFD {
            FD_K[fd as usize].store(0, Relaxed);
        }
        syscall(SYS_close, fd) as c_int
    }
    unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
        let _after = After;
        let mut n = n;
        if let Some(e) = ev(K::Pread, fdk(fd), fd, n) {
            match before(&e) {
                Act::Fail(x) => {
                    seterr(x);
                    return -1;
                }
                Act::Short if n > 1 => n /= 2,
                _ => {}
            }
        }
        syscall(SYS_pread64, fd, buf, n, off) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
        do_pread(fd, buf, n, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
        do_pread(fd, buf, n, off)
    }
    unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
        let _after = After;
        if let Some(e) = ev(K::Pwrite, fdk(fd), fd, n) {
            match before(&e) {
                Act::Fail(x) => {
                    seterr(x);
                    return -1;
                }
                Act::Short if n > 1 => {
                    return syscall(SYS_pwrite64, fd, buf, n / 2, off) as ssize_t;
                }
                _ => {}
            }
            let f = FLAGS.load(Relaxed);
            if f & (F_CRASH | F_KILL) != 0 && n > 1 {
                // torn write: first half reaches the file, then a crash point, then the rest
                let h = n / 2;
                let r = syscall(SYS_pwrite64, fd, buf, h, off) as ssize_t;
                if r == h as ssize_t {
                    before(&e);
                    let r2 = syscall(SYS_pwrite64, fd, (buf as *const u8).add(h), n - h, off + h as i64) as ssize_t;
                    return if r2 < 0 { r } else { r + r2 };
                }
                return r;
            }
            let r = syscall(SYS_pwrite64, fd, buf, n, off) as ssize_t;
            if f & F_DIRTY != 0 && r > 0 {
                dirty_write(e.ino);
                MYP.with(|x| x.set(e.ino));
            }
            return r;
        }
        syscall(SYS_pwrite64, fd, buf, n, off) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
        do_pwrite(fd, buf, n, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
        do_pwrite(fd, buf, n, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
        let _after = After;
        if let Some(e) = ev(K::Read, fdk(fd), fd, n) {
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return -1;
            }
        }
        syscall(SYS_read, fd, buf, n) as ssize_t
    }
    unsafe fn do_ftruncate(fd: c_int, len: i64) -> c_int {
        let _after = After;
        if let Some(e) = ev(K::Ftruncate, fdk(fd), fd, len as usize) {
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return -1;
            }
            if FLAGS.load(Relaxed) & F_DIRTY != 0 {
                dirty_write(e.ino);
            }
        }
        syscall(SYS_ftruncate, fd, len) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
        do_ftruncate(fd, len)
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
        do_ftruncate(fd, len)
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: i64, len: i64) -> c_int {
        let _after = After;
        if let Some(e) = ev(K::Falloc, fdk(fd), fd, len as usize) {
            if let Act::Fail(x) = before(&e) {
                return x;
            }
        }
        if syscall(SYS_fallocate, fd, 0, off, len) == 0 {
            0
        } else {
            *__errno_location()
        }
    }
    unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
        let _after = After;
        if let Some(e) = ev(K::Sync, fdk(fd), fd, 0) {
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return -1;
            }
            if FLAGS.load(Relaxed) & F_DIRTY != 0 {
                let s = SEQ.fetch_add(1, SeqCst);
                if FLAGS.load(Relaxed) & F_POWER != 0 {
                    durable_keep(fd, e.ino);
                }
                if let Some(i) = dslot(e.ino) {
                    D_SYNC[i].fetch_max(s, SeqCst);
                }
                // tmpfs: nothing to do physically
                return 0;
            }
        }
        syscall(nr, fd) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        do_sync(fd, SYS_fdatasync)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        do_sync(fd, SYS_fsync)
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
        let _after = After;
        if let Some(e) = ev(K::Rename, classify(cpath(a)), -1, 0) {
            if e.fk == FK_COMPACT || e.fk == FK_SPLIT {
                REORG.fetch_add(1, Relaxed);
            }
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return -1;
            }
        }
        syscall(SYS_rename, a, b) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
        let _after = After;
        if let Some(e) = ev(K::Unlink, classify(cpath(a)), -1, 0) {
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return -1;
            }
        }
        syscall(SYS_unlink, a) as c_int
    }
    unsafe fn do_mmap(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
        let fk = if fd >= 0 { fdk(fd) } else { 0 };
        let _after = After;
        if let Some(e) = ev(K::Mmap, fk, fd, len) {
            if let Act::Fail(x) = before(&e) {
                seterr(x);
                return MAP_FAILED;
            }
            let p = syscall(SYS_mmap, a, len, prot, fl, fd, off) as *mut c_void;
            if p != MAP_FAILED && fl & MAP_SHARED != 0 && prot & PROT_WRITE != 0 {
                region_add(p as usize, len, fk, e.ino);
                if PROTECT.load(SeqCst) {
                    syscall(SYS_mprotect, p, len, PROT_READ);
                }
            }
            return p;
        }
        syscall(SYS_mmap, a, len, prot, fl, fd, off) as *mut c_void
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
        do_mmap(a, l, p, f, fd, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
        do_mmap(a, l, p, f, fd, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn munmap(a: *mut c_void, l: size_t) -> c_int {
        for i in 0..R_HI.load(SeqCst) {
            if R_ADDR[i].load(SeqCst) == a as usize && a as usize > 1 {
                R_ADDR[i].store(0, SeqCst);
                break;
            }
        }
        syscall(SYS_munmap, a, l) as c_int
    }
}
