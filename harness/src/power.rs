//! Power failures under flush aggregation. For every file, what the last sync handed over is kept aside; at sampled
//! instants a directory is built that holds only that (a file may also have been written back by the kernel since, or
//! may have been extended with zeros), the real code opens it, and everything acknowledged by then has to be there.
use crate::conc::*;
use crate::crash::{adopt, point};
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys::{self, Ev, K};
use crate::util::*;
use candystore::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};
use std::sync::Mutex;

/// None = plain key, Some = item of that list
type Key = (Option<B>, B);
/// value, absent, or a call in progress
#[derive(Clone, PartialEq)]
enum St {
    Is(Option<B>),
    Busy,
}
static TABLE: Mutex<BTreeMap<Key, St>> = Mutex::new(BTreeMap::new());
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

struct Image {
    n: u64,
    ev: Ev,
    dir: PathBuf,
    want: Vec<(Key, Option<B>)>,
    how: String,
    opened: bool,
    unsynced: u32,
}
struct Plan {
    root: PathBuf,
    out: PathBuf,
    seen: u64,
    taken: usize,
    cap: usize,
    rare: usize,
    rare_cap: usize,
    every: u64,
    rng: Rng,
    images: Vec<Image>,
}
static OPENED: AtomicBool = AtomicBool::new(false);

fn on_event(ev: &Ev) {
    sys::quiet(|| {
        let mut g = PLAN.lock().unwrap();
        let Some(p) = g.as_mut() else { return };
        p.seen += 1;
        let rare = matches!(ev.k, K::Open | K::Rename | K::Unlink | K::Ftruncate | K::Falloc | K::Mmap);
        if rare {
            if p.rare >= p.rare_cap {
                return;
            }
            p.rare += 1;
        } else {
            if p.taken >= p.cap || p.rng.below(p.every) != 0 {
                return;
            }
            p.taken += 1;
        }
        let dir = p.out.join(format!("p{}", p.seen));
        let (how, unsynced) = image(&p.root, &dir, &mut p.rng);
        let want = TABLE
            .lock()
            .unwrap()
            .iter()
            .filter_map(|(k, v)| match v {
                St::Is(x) => Some((k.clone(), x.clone())),
                St::Busy => None,
            })
            .collect();
        p.images.push(Image { n: p.seen, ev: *ev, dir, want, how, opened: OPENED.load(SeqCst), unsynced });
    })
}

/// what is left of the directory after a power failure
fn image(root: &Path, dir: &Path, r: &mut Rng) -> (String, u32) {
    use std::os::unix::fs::MetadataExt;
    std::fs::create_dir_all(dir).expect("image dir");
    let style = r.below(3); // 0: all reverted, 1: reverted and extended with zeros, 2: each file its own way
    let mut how = vec![];
    let mut unsynced = 0;
    let mut es: Vec<_> = std::fs::read_dir(root).expect("read_dir").flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        let Ok(m) = p.metadata() else { continue };
        if !m.is_file() {
            continue;
        }
        let dst = dir.join(p.file_name().unwrap());
        let way = if style == 2 { r.below(3) } else { style };
        if way == 2 {
            std::fs::copy(&p, &dst).expect("image copy");
        } else {
            let mut d = sys::durable_of(m.ino()).unwrap_or_default();
            if m.len() > 0 && (sys::dirty_of(m.ino()).0 > sys::dirty_of(m.ino()).1 || d.is_empty()) {
                unsynced += 1;
            }
            if way == 1 && (d.len() as u64) < m.len() {
                d.resize(m.len() as usize, 0);
            }
            std::fs::write(&dst, &d).expect("image write");
        }
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if !name.starts_with('.') {
            how.push(format!("{name} {}", ["as synced", "as synced, zero-extended", "written back"][way as usize]));
        }
    }
    (how.join(", "), unsynced)
}

fn set_state(k: &Key, v: St) {
    TABLE.lock().unwrap().insert(k.clone(), v);
}

/// the keys that several threads set to the same value; it's always the same one, they are never removed
static SHARED: AtomicU32 = AtomicU32::new(0);
const SHARED_VALUE: &[u8] = b"the value that everyone sets";

fn set_shared(s: &CandyStore, threads: u32) -> Result<(), String> {
    let k = format!("shared{}", SHARED.fetch_add(1, SeqCst) / threads).into_bytes();
    let id: Key = (None, k.clone());
    let there = St::Is(Some(SHARED_VALUE.to_vec()));
    {
        // once a call has returned the key stays
        let mut g = TABLE.lock().unwrap();
        if g.get(&id) != Some(&there) {
            g.insert(id.clone(), St::Busy);
        }
    }
    s.set(&k, SHARED_VALUE).map_err(|e| failed("set", &k, e))?;
    set_state(&id, there);
    Ok(())
}

/// one client: its keys are its own
fn client(s: &CandyStore, seed: u64, ops: usize, keys: &[B], list: &B, vmax: usize, faulty: bool, shared: Option<u32>) -> Result<(), String> {
    let mut r = Rng::new(seed);
    sys::seed_thread(r.next());
    for i in 0..ops {
        tickn();
        if let Some(threads) = shared {
            if r.chance(1, 2) {
                match set_shared(s, threads) {
                    Err(_) if faulty => {}
                    x => x?,
                }
                continue;
            }
        }
        let n = r.usize(vmax + 1);
        let mut v = format!("{seed:x}.{i}.").into_bytes();
        v.resize(v.len() + n, b'a' + (i % 26) as u8);
        let k = r.pick(keys).clone();
        let inlist = r.chance(1, 8);
        let id: Key = (inlist.then(|| list.clone()), k.clone());
        // a call failed half way, only one that writes settles it
        let unknown = TABLE.lock().unwrap().insert(id.clone(), St::Busy) == Some(St::Busy);
        let res = if inlist {
            if unknown || r.chance(3, 4) {
                s.set_in_list(list, &k, &v).map(|_| Some(v)).map_err(|e| failed("set_in_list", &k, e))
            } else {
                s.remove_from_list(list, &k).map(|_| None).map_err(|e| failed("remove_from_list", &k, e))
            }
        } else {
            match if unknown { 0 } else { r.below(10) } {
                0..=5 => s.set(&k, &v).map(|_| Some(v)).map_err(|e| failed("set", &k, e)),
                6 => s.get_or_create(&k, &v).map(|x| Some(x.value())).map_err(|e| failed("get_or_create", &k, e)),
                7 => s.replace(&k, &v, None::<&B>).map(|x| x.was_replaced().then_some(v)).map_err(|e| failed("replace", &k, e)),
                _ => s.remove(&k).map(|_| None).map_err(|e| failed("remove", &k, e)),
            }
        };
        match res {
            Ok(new) => set_state(&id, St::Is(new)),
            // it stays unknown until it's set again
            Err(_) if faulty => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

fn failed(w: &str, k: &B, e: impl std::fmt::Display) -> String {
    format!("error from a valid call: {w}({}): {e:#}", show(k))
}

fn check_all(s: &CandyStore, want: &[(Key, Option<B>)]) -> Result<(), String> {
    for ((list, k), v) in want {
        let got = match list {
            None => s.get(k),
            Some(l) => s.get_from_list(l, k),
        }
        .map_err(|e| format!("get({}) returned an error: {e:#}", show(k)))?;
        if got != *v {
            return Err(format!(
                "{}{} is {} instead of {}",
                if list.is_some() { "list item " } else { "key " },
                show(k),
                show_opt(&got),
                show_opt(v)
            ));
        }
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, w: &World, im: Image, r: &mut Rng) -> VR {
    let at = format!("power failure at event {} ({}) [{}]", im.n, point(&im.ev), im.how);
    tick(|| format!("opening what is left by a {at}"));
    ctx.count("power_failures", 1);
    ctx.count("files_with_unsynced_changes", im.unsynced as u64);
    ctx.count("entries_expected", im.want.iter().filter(|x| x.1.is_some()).count() as u64);
    if !im.opened {
        ctx.count("power_failures_while_opening", 1);
    }
    let mut cfg = w.cfg.clone();
    cfg.agg_us = 1;
    let mut x = adopt(im.dir.clone(), cfg, Model::default());
    x.desc = format!("{} | {at}", w.desc);
    x.open()?;
    let s = x.s.clone().unwrap();
    let res = guard(|| in_op(|| check_all(&s, &im.want)));
    x.chk("acknowledged data lost in a power failure", res)?;
    if r.chance(1, 4) {
        // it goes on working
        let more: Vec<(Key, Option<B>)> = (0..20).map(|i| ((None, format!("after the failure {i}").into_bytes()), Some(vec![i as u8; 40]))).collect();
        let res = guard(|| {
            in_op(|| {
                for ((_, k), v) in &more {
                    s.set(k, v.as_ref().unwrap()).map_err(|e| format!("set({}) returned an error: {e:#}", show(k)))?;
                }
                check_all(&s, &more)?;
                check_all(&s, &im.want)
            })
        });
        x.chk("store unusable after a power failure", res)?;
    }
    drop(s);
    x.close()?;
    wipe(&im.dir);
    Ok(())
}

fn stop_faults() {
    sys::flags_off(sys::F_FAULT);
    sys::FAULT_KINDS.store(0, SeqCst);
    sys::FAULT_CLASS.store(0, SeqCst);
}

pub fn c24(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    cfg.agg_us = *r.pick(&[1u64, 1, 20, 200, u64::MAX]);
    let threads = 1 + r.usize(4);
    let nk = *r.pick(&[6usize, 24, 60]);
    let keys = Pool::new(&mut r, &cfg.seed, nk).keys;
    let keys: std::collections::BTreeSet<B> =
        keys.into_iter().filter(|k| k.len() < 200).chain((0..threads).map(|i| format!("k{i}").into_bytes())).collect();
    let mut parts: Vec<Vec<B>> = vec![vec![]; threads];
    for (i, k) in keys.into_iter().enumerate() {
        parts[i % threads].push(k);
    }
    let phases = 1 + r.usize(3);
    let ops = (120 / phases / threads).max(4) + r.usize(40);
    let vmax = *r.pick(&[8usize, 60, 300]);
    let mut w = World::new(ctx.case_dir(), cfg);
    let out = fresh(&ctx.dir.join("power"));
    TABLE.lock().unwrap().clear();
    OPENED.store(false, SeqCst);
    let (every, cap, rare_cap) = *r.pick(&[(20u64, 12usize, 40usize), (150, 10, 40), (4, 20, 12)]);
    let f = if ctx.thorough { 2 } else { 1 };
    *PLAN.lock().unwrap() = Some(Plan {
        root: w.dir.clone(),
        out,
        seen: 0,
        taken: 0,
        cap: cap * f,
        rare: 0,
        rare_cap: rare_cap * f,
        every,
        rng: Rng::new(r.next()),
        images: vec![],
    });
    sys::CRASH_CB.store(on_event as fn(&Ev) as usize, SeqCst);
    sys::dirty_reset();
    sys::durable_reset();
    sys::protect(true);
    sys::flags_on(sys::F_DIRTY | sys::F_POWER | sys::F_CRASH);
    w.open()?;
    OPENED.store(true, SeqCst);
    w.desc = format!("[threads={threads} ops={ops} phases={phases} aggregation delay {} us]", w.cfg.agg_us);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let faulty = r.chance(1, 3);
    let shared = (threads > 1 && r.chance(1, 3)).then_some(threads as u32);
    SHARED.store(0, SeqCst);
    let mut images = vec![];
    for phase in 0..phases {
        let chaos = Chaos::on(&mut r);
        if faulty {
            // compactions fail, and are taken up again later
            sys::FAULT_HITS.store(0, SeqCst);
            sys::FAULT_SKIP.store(r.below(120) as i64, SeqCst);
            sys::FAULT_COUNT.store(1 + r.below(5) as i64, SeqCst);
            sys::FAULT_FKS.store(u32::MAX, SeqCst);
            sys::FAULT_ERRNO.store(0, SeqCst);
            sys::FAULT_CLASS.store(1, SeqCst);
            sys::FAULT_KINDS.store(1 << K::Pwrite as u32 | 1 << K::Pread as u32 | 1 << K::Rename as u32, SeqCst);
            sys::flags_on(sys::F_FAULT);
        }
        w.note(chaos);
        let s = w.s.clone().unwrap();
        let left = AtomicU32::new(threads as u32);
        type F<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;
        let mut fs: Vec<F> = vec![];
        for t in 0..threads {
            let (s, left, seed, part) = (&s, &left, r.next(), &parts[t]);
            let list = format!("list{t}").into_bytes();
            fs.push(Box::new(move || {
                let x = client(s, seed, ops, part, &list, vmax, faulty, shared);
                left.fetch_sub(1, SeqCst);
                x
            }));
        }
        if r.chance(1, 3) {
            let (s, left, seed) = (&s, &left, r.next());
            fs.push(Box::new(move || {
                let mut r = Rng::new(seed);
                while left.load(SeqCst) > 0 {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(6000)));
                    match s.merge_small_shards(0.4) {
                        Err(e) if !faulty => return Err(format!("merge_small_shards: {e:#}")),
                        _ => {}
                    }
                }
                Ok(())
            }));
        }
        let mut cr = Rng::new(r.next());
        let res = parallel(fs, controller(&mut cr));
        Chaos::off();
        ctx.count("failed_background_calls", if faulty { sys::FAULT_HITS.load(SeqCst) } else { 0 });
        if r.chance(1, 2) {
            stop_faults();
        }
        w.nops += (threads * ops) as u64;
        for x in res {
            w.chk("call under flush aggregation", x)?;
        }
        if phase + 1 < phases {
            match r.below(5) {
                0 => {
                    w.note("clear".into());
                    for v in TABLE.lock().unwrap().values_mut() {
                        *v = St::Busy;
                    }
                    let x = guard(|| in_op(|| s.clear())).map(|x| x.map_err(|e| format!("clear returned an error: {e:#}")));
                    if !faulty || matches!(x, Ok(Ok(()))) {
                        w.chk("clear", x)?;
                        for v in TABLE.lock().unwrap().values_mut() {
                            *v = St::Is(None);
                        }
                    }
                    ctx.count("clears", 1);
                }
                1 => {
                    w.note("merge".into());
                    let x = guard(|| in_op(|| s.merge_small_shards(0.49)));
                    if !faulty {
                        w.chk("merge", x.map(|x| x.map_err(|e| format!("merge_small_shards returned an error: {e:#}"))))?;
                    }
                }
                2 | 3 => {
                    stop_faults();
                    drop(s);
                    w.reopen()?;
                    ctx.count("reopened", 1);
                    continue;
                }
                _ => {}
            }
        }
        drop(s);
        let fresh: Vec<Image> = PLAN.lock().unwrap().as_mut().map(|p| p.images.drain(..).collect()).unwrap_or_default();
        images.extend(fresh);
        if images.len() > 400 {
            break;
        }
    }
    stop_faults();
    sys::flags_off(sys::F_DIRTY | sys::F_POWER | sys::F_CRASH);
    sys::protect(false);
    let p = PLAN.lock().unwrap().take().unwrap();
    images.extend(p.images);
    ctx.count("instants", p.seen);
    ctx.count("shards_reorganised", sys::REORG.load(SeqCst) as u64);
    ctx.distinct.insert(sys::TRACE_HASH.load(SeqCst));
    // the store itself
    let s = w.s.clone().unwrap();
    let want: Vec<(Key, Option<B>)> = TABLE
        .lock()
        .unwrap()
        .iter()
        .filter_map(|(k, v)| if let St::Is(x) = v { Some((k.clone(), x.clone())) } else { None })
        .collect();
    let res = guard(|| in_op(|| check_all(&s, &want)));
    w.chk("contents", res)?;
    drop(s);
    w.close()?;
    sys::set_root(None);
    let old = sys::set_class(sys::HARNESS);
    let mut res = Ok(());
    for im in images {
        res = judge(ctx, &w, im, &mut r);
        if res.is_err() {
            break;
        }
    }
    sys::set_class(old);
    res
}
