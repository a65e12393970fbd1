//! Crash enumeration: at stores to mapped headers and at file-system calls of a tracked store, the directory is copied.
//! A copy is exactly what a process killed at that instant leaves behind. Each copy is opened by the real code and what
//! it contains is judged; some of the recoveries are themselves tracked (nested crashes).
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys::{self, Ev, K};
use crate::util::*;
use candystore::*;
use std::collections::{BTreeMap, VecDeque};
use std::path::{Path, PathBuf};
use std::result::Result;
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};

pub struct Snap {
    pub n: u64,
    pub ev: Ev,
    pub dir: PathBuf,
}
struct Plan {
    root: PathBuf,
    out: PathBuf,
    seen: u64,
    ordinary: usize,
    /// cap of ordinary (store/write) snapshots until something structural happens, and afterwards
    cap: usize,
    cap_struct: usize,
    structural: bool,
    rare: usize,
    rare_cap: usize,
    every: u64,
    rng: Rng,
    snaps: Vec<Snap>,
    first: u64,
}
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);
static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn copy_raw(src: &Path, dst: &Path) {
    std::fs::create_dir_all(dst).expect("snapshot dir");
    for e in std::fs::read_dir(src).expect("read_dir") {
        let e = e.expect("entry");
        if e.file_type().map(|t| t.is_file()).unwrap_or(false) {
            std::fs::copy(e.path(), dst.join(e.file_name())).expect("snapshot copy");
        }
    }
}

fn on_event(ev: &Ev) {
    sys::quiet(|| {
        let mut g = PLAN.lock().unwrap();
        let Some(p) = g.as_mut() else { return };
        p.seen += 1;
        let n = p.seen;
        let rare = !matches!(ev.k, K::Store | K::Pwrite | K::Sync);
        if rare && !p.structural {
            p.structural = true;
        }
        let take = if rare {
            p.rare += 1;
            p.rare <= p.rare_cap
        } else {
            let cap = if p.structural { p.cap_struct } else { p.cap };
            let t = n <= p.first || p.rng.below(p.every) == 0;
            if t && p.ordinary < cap {
                p.ordinary += 1;
                true
            } else {
                false
            }
        };
        if take {
            let dir = p.out.join(format!("s{}", SERIAL.fetch_add(1, Relaxed)));
            copy_raw(&p.root, &dir);
            p.snaps.push(Snap { n, ev: *ev, dir });
        }
    })
}

#[derive(Clone, Copy)]
pub struct Sampling {
    pub first: u64,
    pub every: u64,
    pub cap: usize,
    pub cap_struct: usize,
    pub rare_cap: usize,
}
impl Sampling {
    pub fn pick(r: &mut Rng, thorough: bool) -> Sampling {
        let f = if thorough { 3 } else { 1 };
        match r.below(4) {
            0 => Sampling { first: 30, every: 3, cap: 30 * f, cap_struct: 60 * f, rare_cap: 60 },
            1 => Sampling { first: 0, every: 4, cap: 4, cap_struct: 50 * f, rare_cap: 40 },
            2 => Sampling { first: 0, every: 30, cap: 3, cap_struct: 40 * f, rare_cap: 30 },
            _ => Sampling { first: 0, every: 200, cap: 6, cap_struct: 30 * f, rare_cap: 20 },
        }
    }
}

/// run `f` with crash snapshots being taken of `root`; returns them with the number of crash points that passed
pub fn tracked<T>(root: &Path, out: &Path, sm: Sampling, r: &mut Rng, f: impl FnOnce() -> T) -> (T, Vec<Snap>, u64) {
    *PLAN.lock().unwrap() = Some(Plan {
        root: root.to_path_buf(),
        out: out.to_path_buf(),
        seen: 0,
        ordinary: 0,
        cap: sm.cap,
        cap_struct: sm.cap_struct,
        structural: false,
        rare: 0,
        rare_cap: sm.rare_cap,
        every: sm.every,
        rng: Rng::new(r.next()),
        snaps: vec![],
        first: sm.first,
    });
    sys::CRASH_CB.store(on_event as fn(&Ev) as usize, SeqCst);
    sys::protect(true);
    sys::flags_on(sys::F_CRASH);
    let v = f();
    sys::flags_off(sys::F_CRASH);
    sys::protect(false);
    let p = PLAN.lock().unwrap().take().unwrap();
    (v, p.snaps, p.seen)
}

pub fn adopt(dir: PathBuf, cfg: Cfg, m: Model) -> World {
    World {
        dir,
        cfg,
        s: None,
        m,
        typed: BTreeMap::new(),
        log: VecDeque::new(),
        gated: false,
        desc: String::new(),
        nops: 0,
        names: Default::default(),
    }
}

pub fn point(ev: &Ev) -> String {
    format!(
        "{} {} of {} file",
        if ev.class == 0 { "background" } else { "client" },
        sys::KNAMES[ev.k as usize],
        ["?", "shard", "compaction", "split", "merge", "other"][ev.fk as usize]
    )
}

/// contents of the store restricted to what can be enumerated (plain keys) and to the known collection names
pub fn dump_kv(s: &CandyStore, limit: usize) -> R<BTreeMap<B, B>> {
    let mut m = BTreeMap::new();
    let mut n = 0;
    for x in s.iter() {
        let (k, v) = x.map_err(|e| format!("iter() returned an error: {e:#}"))?;
        n += 1;
        if n > limit * 2 + 100 {
            return Err(format!("iter() yields more than {n} entries"));
        }
        if let Some(o) = m.insert(k.clone(), v) {
            return Err(format!("iter() yields key {} twice (one value is {})", show(&k), show(&o)));
        }
    }
    Ok(m)
}
pub fn diff_kv(got: &BTreeMap<B, B>, want: &BTreeMap<B, B>) -> String {
    let mut d = vec![];
    for (k, v) in want {
        match got.get(k) {
            None => d.push(format!("{} is missing (value {})", show(k), show(v))),
            Some(g) if g != v => d.push(format!("{} has value {} instead of {}", show(k), show(g), show(v))),
            _ => {}
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            d.push(format!("{} exists (value {})", show(k), show(v)));
        }
    }
    let n = d.len();
    d.truncate(3);
    format!("{n} differences: {}", d.join("; "))
}

pub trait Judge {
    /// which model does the recovered store correspond to?
    fn judge(&self, s: &CandyStore) -> R<Model>;
}
/// the contents must be one of these
pub struct OneOf<'a>(pub Vec<&'a Model>);
impl<'a> Judge for OneOf<'a> {
    fn judge(&self, s: &CandyStore) -> R<Model> {
        let limit = self.0.iter().map(|m| m.kv.len()).max().unwrap_or(0);
        let got = dump_kv(s, limit)?;
        let mut err = String::new();
        for (i, m) in self.0.iter().enumerate() {
            if m.kv != got {
                if i == 0 || self.0.len() == 1 {
                    err = format!("compared with the contents before: {}", diff_kv(&got, &m.kv));
                } else {
                    err += &format!(" | compared with the contents after: {}", diff_kv(&got, &m.kv));
                }
                continue;
            }
            let mut m = (*m).clone();
            inexact(&mut m);
            match m.verify(s, &mut Rng::new(1)) {
                Ok(()) => return Ok(m),
                Err(e) => err += &format!(" | {e}"),
            }
        }
        Err(err)
    }
}
pub fn inexact(m: &mut Model) {
    for l in m.lists.values_mut() {
        l.len_inexact = true;
    }
    for q in m.queues.values_mut() {
        q.len_inexact = true;
    }
}

pub struct Recover<'a, 'b> {
    pub cfg: &'a Cfg,
    pub gen: &'a Gen<'b>,
    pub what: String,
    pub coll: bool,
}

/// Open a snapshot and judge it; then keep using it.
pub fn recover(ctx: &mut Ctx, rc: &Recover, snap: &Snap, j: &dyn Judge, r: &mut Rng, depth: u32) -> VR {
    let at = format!("crash at event {} ({}) of {}", snap.n, point(&snap.ev), rc.what);
    let mut w = adopt(snap.dir.clone(), rc.cfg.clone(), Model::default());
    w.desc = at.clone();
    tick(|| format!("recovery after {at}"));
    ctx.count("crash_points_recovered", 1);
    let nested = depth == 0 && r.chance(1, 10);
    let mut inner = vec![];
    if nested {
        sys::set_root(Some(&snap.dir));
        let old = sys::set_class(1);
        let out = snap.dir.with_extension("n");
        let sm = Sampling { first: 2, every: 12, cap: 6, cap_struct: 8, rare_cap: 8 };
        sys::gate_close();
        let was = sys::FLAGS.load(SeqCst) & sys::F_GATE;
        sys::flags_on(sys::F_GATE);
        let (x, sn, _) = tracked(&snap.dir, &out, sm, r, || w.open());
        inner = sn;
        x?;
        // the resumed compaction
        if r.chance(1, 2) {
            let n = 20 + r.below(400) as i64;
            let (_, sn, _) = tracked(&snap.dir, &out, sm, r, || sys::gate_pump(n));
            inner.extend(sn);
        }
        sys::gate_open();
        if was == 0 {
            sys::flags_off(sys::F_GATE);
        }
        sys::set_class(old);
        sys::set_root(None);
        ctx.count("nested_crash_points", inner.len() as u64);
    } else {
        w.open()?;
    }
    let s = w.s.clone().unwrap();
    let x = guard(|| in_op(|| j.judge(&s)));
    drop(s);
    let m = w.chk("contents after crash", x.map(|x| x.map_err(|e| format!("{at}: {e}"))))?;
    w.m = m;
    // a recovered store goes on working
    let long = r.chance(1, 5);
    let n = if long { 60 } else { 3 };
    let mut g = rc.gen.clone();
    g.uniq += 5_000_000;
    for _ in 0..n {
        let op = if rc.coll && r.chance(2, 3) { any_coll(&g, &w.m, r) } else { g.plain(&w.m, r) };
        w.step(&op, r)?;
    }
    if r.chance(1, 3) {
        w.quiesce()?;
        w.verify(r, "contents some time after a crash")?;
    }
    if r.chance(1, 3) {
        w.reopen()?;
        w.verify(r, "contents some time after a crash")?;
    }
    ctx.count("calls_compared_after_recovery", w.nops);
    w.close()?;
    wipe(&snap.dir);
    for sn in inner {
        let rc2 = Recover { what: format!("the recovery from a {at}"), cfg: rc.cfg, gen: rc.gen, coll: rc.coll };
        recover(ctx, &rc2, &sn, j, r, depth + 1)?;
    }
    Ok(())
}

pub fn crash_cfg(r: &mut Rng) -> Cfg {
    let mut cfg = Cfg::tiny(r);
    cfg.max_shard = *r.pick(&[3000u32, 5000, 9000, 20_000]);
    cfg.min_compact = *r.pick(&[200u32, 500, 1500]);
    cfg.expected = if r.chance(1, 6) { *r.pick(&[40_000usize, 60_000]) } else { 0 };
    cfg.threads = 1;
    cfg
}

/// judge a batch of snapshots
fn judge_all(
    ctx: &mut Ctx,
    w: &mut World,
    rc: &Recover,
    snaps: Vec<Snap>,
    seen: u64,
    j: &dyn Judge,
    r: &mut Rng,
) -> VR {
    ctx.count("crash_points_passed", seen);
    if snaps.is_empty() {
        return Ok(());
    }
    // the main store stays as it is, unobserved
    let root = w.dir.clone();
    let n = snaps.len();
    sys::set_root(None);
    let old = sys::set_class(sys::HARNESS);
    let mut res = Ok(());
    for sn in snaps {
        let ph = match sn.n {
            0..=12 => sn.n,
            x => 12 + 64 - x.leading_zeros() as u64,
        };
        let key = fnv(rc.what.split('(').next().unwrap_or("").as_bytes());
        ctx.distinct.insert(mix(mix(key, (sn.ev.k as u64) << 16 | (sn.ev.fk as u64) << 8 | sn.ev.class.min(1) as u64), ph));
        if res.is_ok() {
            res = recover(ctx, rc, &sn, j, r, 0);
        }
        wipe(&sn.dir);
    }
    wipe(&root.with_extension("snaps"));
    sys::set_class(old);
    sys::set_root(Some(&root));
    ctx.count("crash_points_judged", n as u64);
    res.map_err(|mut v| {
        v.detail = format!("{} | history: {} | last calls: {}", v.detail, w.desc, w.log.iter().cloned().collect::<Vec<_>>().join("; "));
        v
    })
}

fn final_snap(w: &World, out: &Path) -> Snap {
    let dir = out.join(format!("s{}", SERIAL.fetch_add(1, Relaxed)));
    sys::quiet(|| {
        settle();
        copy_raw(&w.dir, &dir)
    });
    Snap { n: 0, ev: Ev { k: K::OpenDir, fk: sys::FK_OTHER, ino: 0, class: 1, len: 0 }, dir }
}

pub fn c04(ctx: &mut Ctx, case: u64) -> VR {
    if case % 8 == 5 {
        return killed_child(ctx, case);
    }
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = crash_cfg(&mut r);
    // values of several pages
    let large = r.chance(1, 6);
    if large {
        cfg.max_shard = *r.pick(&[60_000u32, 100_000]);
        cfg.min_compact = *r.pick(&[5000u32, 15_000]);
        cfg.expected = 0;
    }
    let npool = if large { 6 } else { *r.pick(&[12usize, 40, 90]) };
    let style = *r.pick(&[0u64, 1, 3, 4, 5, 8]);
    let pool = Pool::with_style(&mut r, &cfg.seed, npool, style);
    let mut prof = Profile { grow: *r.pick(&[50, 70, 90]), ..Profile::default() };
    prof.vmax = if large { *r.pick(&[5000usize, 12_000]) } else { *r.pick(&[30usize, 150, 400]) };
    prof.w = [100, 0, 0, 0, 0, 0, 0, 0, 0];
    prof.nlists = 1;
    prof.nitems = 5;
    prof.promote = false;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut g = Gen::new(&pool, prof, &mut r);
    g.list_names.truncate(1);
    g.queue_names.truncate(1);
    let snaps = w.dir.with_extension("snaps");
    w.gate(true);
    // the first open
    if r.chance(1, 3) {
        let sm = Sampling { first: 6, every: 40, cap: 20, cap_struct: 20, rare_cap: 60 };
        let (x, sn, seen) = tracked(&w.dir.clone(), &snaps, sm, &mut r, || w.open());
        x?;
        let cfg = w.cfg.clone();
        let rc = Recover { cfg: &cfg, gen: &g, what: "the first open".into(), coll: false };
        judge_all(ctx, &mut w, &rc, sn, seen, &OneOf(vec![&Model::default()]), &mut r)?;
    } else {
        w.open()?;
    }
    // bystanders
    if r.chance(1, 2) {
        for _ in 0..8 {
            let op = g.list(&w.m, &mut r);
            w.step(&op, &mut r)?;
            let op = g.queue(&w.m, &mut r);
            w.step(&op, &mut r)?;
        }
    }
    let pre = *r.pick(&[0usize, 10, 40, 120]);
    for _ in 0..pre {
        let op = g.plain(&w.m, &mut r);
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    let steps = if ctx.thorough { 60 } else { 20 + r.usize(20) };
    let sm = Sampling::pick(&mut r, ctx.thorough);
    for _ in 0..steps {
        if ctx.expired() && ctx.evals > 0 {
            break;
        }
        let before = w.m.clone();
        let which = if sys::gate_parked() > 0 && r.chance(1, 2) { 1 } else { r.weighted(&[66, 6, 6, 3, 5]) };
        let dir = w.dir.clone();
        let cfg = w.cfg.clone();
        let (what, x, sn, seen) = match which {
            0 => {
                let op = g.plain(&w.m, &mut r);
                let mut r2 = r.clone();
                let (x, sn, seen) = tracked(&dir, &snaps, sm, &mut r, || w.step(&op, &mut r2));
                (op.brief(), x, sn, seen)
            }
            1 => {
                let n = *r.pick(&[1i64, 5, 30, 200, 600]);
                let (_, sn, seen) = tracked(&dir, &snaps, sm, &mut r, || sys::gate_pump(n));
                w.note(format!("background advances {n} events"));
                ("a background compaction".to_string(), Ok(()), sn, seen)
            }
            2 => {
                let op = Op::Merge(*r.pick(&[0.1f32, 0.3, 0.49]));
                let mut r2 = r.clone();
                let (x, sn, seen) = tracked(&dir, &snaps, sm, &mut r, || w.step(&op, &mut r2));
                (op.brief(), x, sn, seen)
            }
            3 => {
                let mut r2 = r.clone();
                let (x, sn, seen) = tracked(&dir, &snaps, sm, &mut r, || w.step(&Op::Clear, &mut r2));
                ("clear()".to_string(), x, sn, seen)
            }
            _ => {
                let (x, sn, seen) = tracked(&dir, &snaps, sm, &mut r, || w.close().and_then(|_| w.open()));
                ("close and open".to_string(), x, sn, seen)
            }
        };
        x?;
        let after = w.m.clone();
        let rc = Recover { cfg: &cfg, gen: &g, what, coll: false };
        judge_all(ctx, &mut w, &rc, sn, seen, &OneOf(vec![&before, &after]), &mut r)?;
        // everything that returned is present
        if r.chance(1, 3) {
            let f = final_snap(&w, &snaps);
            let rc = Recover { cfg: &cfg, gen: &g, what: format!("the time after {}", rc.what), coll: false };
            judge_all(ctx, &mut w, &rc, vec![f], 1, &OneOf(vec![&after]), &mut r)?;
        }
        tickn();
    }
    w.gate(false);
    w.finish(ctx)
}

// ------------------------------------------------------------------ collections

pub fn any_coll(g: &Gen, m: &Model, r: &mut Rng) -> Op {
    let mut g = g.clone();
    g.uniq += r.below(1 << 40);
    if r.chance(1, 2) {
        g.list(m, r)
    } else {
        g.queue(m, r)
    }
}

/// what is in a list, by iteration both ways and by lookup of every name that was ever used
pub fn dump_list(s: &CandyStore, l: &B, names: &[B], limit: usize) -> R<Vec<(B, B)>> {
    let mut f = vec![];
    for x in s.iter_list(l) {
        f.push(x.map_err(|e| format!("iter_list({}) returned an error: {e:#}", show(l)))?);
        if f.len() > limit + 10 {
            return Err(format!("iter_list({}) yields more than {} items", show(l), limit + 10));
        }
    }
    let mut b = vec![];
    for x in s.iter_list_backwards(l) {
        b.push(x.map_err(|e| format!("iter_list_backwards({}) returned an error: {e:#}", show(l)))?);
        if b.len() > limit + 10 {
            return Err(format!("iter_list_backwards({}) yields more than {} items", show(l), limit + 10));
        }
    }
    b.reverse();
    let sh = |v: &[(B, B)]| trunc(format!("{:?}", v.iter().map(|x| (show(&x.0), show(&x.1))).collect::<Vec<_>>()));
    if f != b {
        return Err(format!("forward iteration of list {} finds {}, backward iteration {}", show(l), sh(&f), sh(&b)));
    }
    for k in names {
        let g = s.get_from_list(l, k).map_err(|e| format!("get_from_list returned an error: {e:#}"))?;
        let i = f.iter().find(|x| &x.0 == k).map(|x| x.1.clone());
        if g != i {
            return Err(format!(
                "get_from_list({}, {}) returns {}, but iteration finds {}",
                show(l),
                show(k),
                show_opt(&g),
                show_opt(&i)
            ));
        }
    }
    Ok(f)
}
pub fn dump_queue(s: &CandyStore, q: &B, limit: usize) -> R<Vec<(u64, B)>> {
    let mut f = vec![];
    for x in s.iter_queue(q) {
        let x = x.map_err(|e| format!("iter_queue({}) returned an error: {e:#}", show(q)))?;
        f.push((x.0 as u64, x.1));
        if f.len() > limit + 20 {
            return Err(format!("iter_queue({}) yields more than {} items", show(q), limit + 20));
        }
    }
    let mut b = vec![];
    for x in s.iter_queue_backwards(q) {
        let x = x.map_err(|e| format!("iter_queue_backwards({}) returned an error: {e:#}", show(q)))?;
        b.push((x.0 as u64, x.1));
        if b.len() > limit + 20 {
            return Err(format!("iter_queue_backwards({}) yields more than {} items", show(q), limit + 20));
        }
    }
    b.reverse();
    if f != b {
        return Err(format!("forward iteration of queue {} finds {f:?}, backward iteration {b:?}", show(q)));
    }
    Ok(f)
}
pub fn subseq<T: PartialEq>(sub: &[T], of: &[T]) -> bool {
    let mut it = of.iter();
    sub.iter().all(|x| it.any(|y| y == x))
}

pub struct Coll<'a> {
    pub before: &'a Model,
    pub after: &'a Model,
    pub op: &'a Op,
    pub items: Vec<B>,
}
impl<'a> Judge for Coll<'a> {
    fn judge(&self, s: &CandyStore) -> R<Model> {
        let mut m = self.before.clone();
        let got = dump_kv(s, m.kv.len())?;
        if got != m.kv {
            return Err(format!("plain keys changed: {}", diff_kv(&got, &m.kv)));
        }
        let (mut lname, mut qname) = (None, None);
        match self.op {
            Op::LSet(l, ..) | Op::LPromote(l, ..) | Op::LRemove(l, ..) | Op::LReplace(l, ..) | Op::LGoc(l, ..) => lname = Some(l),
            Op::LPop(l, _) | Op::LDiscard(l) => lname = Some(l),
            Op::QPush(q, ..) | Op::QPop(q, ..) | Op::QRemove(q, ..) | Op::QDiscard(q) | Op::QExtend(q, ..) => qname = Some(q),
            _ => {}
        }
        let empty_l = LModel::default();
        let empty_q = QModel::default();
        let mut lnames: std::collections::BTreeSet<&B> = self.before.lists.keys().collect();
        lnames.extend(self.after.lists.keys());
        for l in lnames {
            let b = &self.before.lists.get(l).unwrap_or(&empty_l).items;
            let a = &self.after.lists.get(l).unwrap_or(&empty_l).items;
            let got = dump_list(s, l, &self.items, a.len().max(b.len()))?;
            let sh = |v: &[(B, B)]| trunc(format!("{:?}", v.iter().map(|x| (show(&x.0), show(&x.1))).collect::<Vec<_>>()));
            let ok = if Some(l) != lname {
                &got == b
            } else {
                match self.op {
                    Op::LDiscard(_) => subseq(&got, b),
                    Op::LPromote(_, k, _) => {
                        // only the items that are not touched
                        let f = |v: &[(B, B)]| v.iter().filter(|x| &x.0 != k).cloned().collect::<Vec<_>>();
                        f(&got) == f(b)
                            && got.iter().filter(|x| &x.0 == k).all(|x| a.contains(x) || b.contains(x))
                    }
                    _ => &got == b || &got == a,
                }
            };
            if !ok {
                return Err(format!(
                    "list {} contains {} after the crash; before the operation {}, after it {}",
                    show(l),
                    sh(&got),
                    sh(b),
                    sh(a)
                ));
            }
            m.lists.insert(l.clone(), LModel { items: got, len_inexact: true });
        }
        let mut qnames: std::collections::BTreeSet<&B> = self.before.queues.keys().collect();
        qnames.extend(self.after.queues.keys());
        for q in qnames {
            let b: Vec<_> = self.before.queues.get(q).unwrap_or(&empty_q).items.iter().cloned().collect();
            let a: Vec<_> = self.after.queues.get(q).unwrap_or(&empty_q).items.iter().cloned().collect();
            let got = dump_queue(s, q, a.len().max(b.len()))?;
            let ok = if Some(q) != qname {
                got == b
            } else {
                match self.op {
                    Op::QDiscard(_) => subseq(&got, &b),
                    Op::QExtend(..) => got.len() >= b.len() && got.len() <= a.len() && got[..] == a[..got.len()],
                    _ => got == b || got == a,
                }
            };
            if !ok {
                return Err(format!(
                    "queue {} contains {} after the crash; before the operation {}, after it {}",
                    show(q),
                    trunc(format!("{got:?}")),
                    trunc(format!("{b:?}")),
                    trunc(format!("{a:?}"))
                ));
            }
            m.queues.insert(q.clone(), QModel { items: got.into(), len_inexact: true });
        }
        Ok(m)
    }
}

pub fn c08(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = crash_cfg(&mut r);
    if r.chance(1, 2) {
        cfg.max_shard = 100_000;
        cfg.min_compact = 30_000;
    }
    let pool = Pool::new(&mut r, &cfg.seed, 6);
    let pool = Pool { keys: pool.keys.into_iter().filter(|k| k.len() < 100).chain([b"k".to_vec()]).collect(), style: pool.style };
    let mut prof = Profile::default();
    prof.vmax = *r.pick(&[12usize, 100]);
    prof.nlists = 1;
    prof.nitems = *r.pick(&[2usize, 5, 9]);
    prof.promote = r.chance(1, 3);
    prof.compact_lists = false;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("names: {}", pool.style);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut g = Gen::new(&pool, prof, &mut r);
    let snaps = w.dir.with_extension("snaps");
    w.gate(r.chance(2, 3));
    w.open()?;
    for _ in 0..r.usize(60) {
        let op = match r.below(8) {
            0 => g.plain(&w.m, &mut r),
            1..=3 => g.queue(&w.m, &mut r),
            _ => g.list(&w.m, &mut r),
        };
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    let steps = if ctx.thorough { 80 } else { 30 };
    let sm = match r.below(3) {
        0 => Sampling { first: 100, every: 1, cap: 100, cap_struct: 100, rare_cap: 40 },
        1 => Sampling { first: 0, every: 2, cap: 20, cap_struct: 40, rare_cap: 20 },
        _ => Sampling { first: 0, every: 5, cap: 10, cap_struct: 40, rare_cap: 20 },
    };
    for _ in 0..steps {
        if ctx.expired() && ctx.evals > 0 {
            break;
        }
        let op = loop {
            let op = if r.chance(1, 2) { g.list(&w.m, &mut r) } else { g.queue(&w.m, &mut r) };
            if !matches!(
                op,
                Op::LGet(..) | Op::LPeek(..) | Op::LLen(..) | Op::LIter(..) | Op::QPeek(..) | Op::QLen(..) | Op::QIter(..)
            ) {
                break op;
            }
        };
        let before = w.m.clone();
        let dir = w.dir.clone();
        let cfg = w.cfg.clone();
        let mut r2 = r.clone();
        let (x, sn, seen) = tracked(&dir, &snaps, sm, &mut r, || w.step(&op, &mut r2));
        x?;
        ctx.count(&format!("calls_interrupted.{}", op.kind()), (!sn.is_empty()) as u64);
        let after = w.m.clone();
        let rc = Recover { cfg: &cfg, gen: &g, what: op.brief(), coll: true };
        let mut items = g.item_names.clone();
        for m in [&before, &after] {
            for l in m.lists.values() {
                items.extend(l.items.iter().map(|x| x.0.clone()));
            }
        }
        items.sort();
        items.dedup();
        let j = Coll { before: &before, after: &after, op: &op, items };
        judge_all(ctx, &mut w, &rc, sn, seen, &j, &mut r)?;
        w.background(&mut r);
        tickn();
    }
    w.gate(false);
    w.finish(ctx)
}

// ------------------------------------------------------------------ killed processes

const SLOTS: usize = 16;
struct Ack {
    p: *mut u64,
}
unsafe impl Sync for Ack {}
unsafe impl Send for Ack {}
impl Ack {
    fn map(path: &Path) -> Ack {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("ack");
        f.set_len(4096).expect("ack len");
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Ack { p: p as *mut u64 }
    }
    fn slot(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.p.add(i * 8) as *const std::sync::atomic::AtomicU64) }
    }
}
impl Drop for Ack {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut _, 4096) };
    }
}

/// the operations of one thread of the child: only its own keys, results do not influence what comes next
struct Script {
    r: Rng,
    keys: Vec<B>,
    t: u64,
    n: u64,
    vmax: usize,
}
impl Script {
    fn new(seed: u64, t: u64, nkeys: usize, vmax: usize) -> Script {
        let keys = (0..nkeys).map(|i| format!("t{t}-{i}").into_bytes()).collect();
        Script { r: Rng::from(seed, t, 99), keys, t, n: 0, vmax }
    }
    fn next(&mut self) -> Op {
        self.n += 1;
        let k = self.r.pick(&self.keys).clone();
        let len = if self.r.chance(1, 2) { self.vmax / 2 } else { self.r.usize(self.vmax) };
        let mut v = format!("{}.{}.", self.t, self.n).into_bytes();
        v.resize(v.len() + len, b'a' + (self.n % 26) as u8);
        match self.r.below(10) {
            0 | 1 => Op::Remove(k),
            2 => Op::Replace(k, v, None),
            3 => Op::Goc(k, v),
            _ => Op::Set(k, v),
        }
    }
}

struct ChildArgs {
    cfg: Cfg,
    seed: u64,
    threads: u64,
    nkeys: usize,
    vmax: usize,
    kill_after: i64,
    merger: bool,
    ops: u64,
}
fn child_args(case_seed: u64, round: u64) -> ChildArgs {
    let mut r = Rng::from(case_seed, 4242, 0);
    let mut cfg = crash_cfg(&mut r);
    cfg.threads = 1 + r.usize(3);
    let threads = 1 + r.below(6);
    let nkeys = *r.pick(&[3usize, 10, 40]);
    let mut vmax = *r.pick(&[20usize, 200]);
    if r.chance(1, 5) {
        cfg.max_shard = 100_000;
        cfg.min_compact = 15_000;
        vmax = 10_000;
    }
    let mut r = Rng::from(case_seed, 777, round);
    ChildArgs {
        cfg,
        seed: r.next(),
        threads,
        nkeys,
        vmax,
        kill_after: 1 + r.below(*r.clone().pick(&[60u64, 2000, 20_000])) as i64,
        merger: r.chance(1, 2),
        ops: *r.pick(&[200u64, 3000]),
    }
}

/// child process: works until it kills itself at some event
pub fn child_c04(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[0]);
    let ack = Ack::map(Path::new(&a[1]));
    let ca = child_args(a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut r = Rng::new(ca.seed);
    sys::set_root(Some(&dir));
    sys::KILL_AFTER.store(ca.kill_after, SeqCst);
    sys::CHAOS_SEED.store(r.next(), SeqCst);
    if r.chance(1, 2) {
        sys::CHAOS_P.store(50, SeqCst);
        sys::CHAOS_MAX_US.store(200, SeqCst);
        sys::flags_on(sys::F_CHAOS);
    }
    sys::set_class(1);
    if r.chance(1, 2) {
        // also stores to the headers are kill points
        sys::protect(true);
    }
    sys::flags_on(sys::F_KILL);
    ack.slot(SLOTS).store(1, SeqCst);
    let s = match CandyStore::open(&dir, ca.cfg.cfg()) {
        Ok(s) => Arc::new(s),
        Err(e) => {
            eprintln!("child open: {e:#}");
            return 11;
        }
    };
    ack.slot(SLOTS).store(2, SeqCst);
    let failed = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..ca.threads {
            let (s, ack, ca, failed) = (&s, &ack, &ca, &failed);
            sc.spawn(move || {
                sys::set_class(1 + t as u8);
                let mut scr = Script::new(ca.seed, t, ca.nkeys, ca.vmax);
                for i in 0..ca.ops {
                    let r = match scr.next() {
                        Op::Set(k, v) => s.set(&k, &v).map(|_| ()),
                        Op::Remove(k) => s.remove(&k).map(|_| ()),
                        Op::Replace(k, v, _) => s.replace(&k, &v, None::<&Vec<u8>>).map(|_| ()),
                        Op::Goc(k, v) => s.get_or_create(&k, &v).map(|_| ()),
                        _ => unreachable!(),
                    };
                    if let Err(e) = r {
                        eprintln!("child: {e:#}");
                        failed.store(true, SeqCst);
                        return;
                    }
                    ack.slot(t as usize).store(i + 1, SeqCst);
                }
            });
        }
        if ca.merger {
            let (s, failed) = (&s, &failed);
            let mut r = Rng::new(ca.seed ^ 5);
            sc.spawn(move || {
                sys::set_class(100);
                for _ in 0..30 {
                    if let Err(e) = s.merge_small_shards(*r.pick(&[0.1f32, 0.3, 0.49])) {
                        eprintln!("child: {e:#}");
                        failed.store(true, SeqCst);
                        return;
                    }
                    std::thread::sleep(std::time::Duration::from_micros(r.below(2000)));
                }
            });
        }
    });
    if failed.load(SeqCst) {
        return 11;
    }
    drop(s);
    sys::flags_off(sys::F_KILL);
    ack.slot(SLOTS).store(3, SeqCst);
    0
}

fn killed_child(ctx: &mut Ctx, case: u64) -> VR {
    use std::os::unix::process::ExitStatusExt;
    let mut r = ctx.rng(case);
    let seed = r.next();
    let dir = ctx.case_dir();
    fresh(&dir);
    let mut model: BTreeMap<B, B> = BTreeMap::new();
    let rounds = 2 + r.below(4);
    for round in 0..rounds {
        let ca = child_args(seed, round);
        let ackp = dir.with_extension("ack");
        let _ = std::fs::remove_file(&ackp);
        let ack = Ack::map(&ackp);
        tick(|| "child process".into());
        let out = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["child-c04", dir.to_str().unwrap(), ackp.to_str().unwrap(), &seed.to_string(), &round.to_string()])
            .stdout(std::process::Stdio::null())
            .output()
            .expect("child");
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let desc = format!(
            "round {round}: {} threads, {} keys each, killed at event {} [{}]",
            ca.threads,
            ca.nkeys,
            ca.kill_after,
            ca.cfg.short()
        );
        match (out.status.code(), out.status.signal()) {
            (Some(0), _) => ctx.count("children_finished", 1),
            (_, Some(libc::SIGKILL)) => ctx.count("children_killed", 1),
            (c, s) => {
                if err.contains("memory allocation") || err.contains("panicked at src/") || err.contains("panic at src/") {
                    eprintln!("{err}");
                    std::process::exit(3);
                }
                return viol("child failed", format!("{desc}: a working process ended with {c:?}/{s:?}: {}", trunc(err)));
            }
        }
        // what the threads did, per thread: acknowledged, possibly one more
        let mut w = adopt(dir.clone(), ca.cfg.clone(), Model::default());
        w.desc = desc.clone();
        sys::set_class(sys::HARNESS);
        w.open()?;
        let s = w.s.clone().unwrap();
        let x = guard(|| in_op(|| dump_kv(&s, ca.threads as usize * ca.nkeys)));
        let got = w.chk("contents after kill", x)?;
        drop(s);
        let mut next: BTreeMap<B, B> = BTreeMap::new();
        for t in 0..ca.threads {
            let mut scr = Script::new(ca.seed, t, ca.nkeys, ca.vmax);
            let pre = format!("t{t}-").into_bytes();
            let mine = |m: &BTreeMap<B, B>| -> BTreeMap<B, B> {
                m.iter().filter(|x| x.0.starts_with(&pre)).map(|x| (x.0.clone(), x.1.clone())).collect()
            };
            let acked = ack.slot(t as usize).load(SeqCst);
            let mut m = Model { kv: mine(&model), ..Model::default() };
            for _ in 0..acked {
                m.pure(&scr.next());
            }
            let a = m.kv.clone();
            let mut cands = vec![a];
            let mut last = String::new();
            if acked < ca.ops {
                let op = scr.next();
                last = op.brief();
                m.pure(&op);
                cands.push(m.kv.clone());
            }
            let g = mine(&got);
            if !cands.contains(&g) {
                return w.viol(
                    "acknowledged operations lost in a kill",
                    format!(
                        "{desc}: thread {t} had {acked} acknowledged operations and possibly {last} in flight; {}",
                        diff_kv(&g, &cands[0])
                    ),
                );
            }
            ctx.count("acknowledged_calls_verified", acked);
            next.extend(g);
        }
        if next.len() != got.len() {
            return w.viol("unknown keys after a kill", format!("{desc}: {}", diff_kv(&got, &next)));
        }
        model = next;
        ctx.count("crash_points_judged", 1);
        ctx.distinct.insert(mix(seed, round));
        w.close()?;
    }
    Ok(())
}
