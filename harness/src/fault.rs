//! Injected failures of file operations (C15) and tracking of what reached stable storage (C19).
use crate::conc::*;
use crate::crash::*;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys::{self, K};
use crate::util::*;
use candystore::*;
use std::path::{Path, PathBuf};
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

#[derive(Clone, Debug)]
enum Step {
    Op(Op),
    Reopen,
    Pump(i64),
}
impl Step {
    fn brief(&self) -> String {
        match self {
            Step::Op(o) => o.brief(),
            Step::Reopen => "close and open".into(),
            Step::Pump(n) => format!("background advances {n} events"),
        }
    }
}

#[derive(Clone, Debug)]
struct Plan {
    name: &'static str,
    kinds: u32,
    fks: u32,
    errno: u32,
    short: bool,
    count: i64,
    class: u32,
    before_open: bool,
}
const fn b(k: K) -> u32 {
    1 << k as u32
}
impl Plan {
    fn pick(r: &mut Rng) -> Plan {
        let all = b(K::Open) | b(K::Pread) | b(K::Pwrite) | b(K::Ftruncate) | b(K::Falloc) | b(K::Mmap) | b(K::Rename) | b(K::Unlink) | b(K::Sync) | b(K::Read) | b(K::OpenDir);
        let (name, kinds, errnos): (&str, u32, &[i32]) = match r.below(10) {
            0..=2 => ("any call", all, &[0, libc::EIO]),
            3 | 4 => ("no space", b(K::Pwrite) | b(K::Ftruncate) | b(K::Falloc) | b(K::Rename) | b(K::Open), &[libc::ENOSPC, libc::EDQUOT]),
            5 => ("too many files", b(K::Open) | b(K::Mmap), &[0, libc::ENFILE, libc::ENOMEM]),
            6 => ("directory changes", b(K::Rename) | b(K::Unlink) | b(K::Open), &[libc::EIO, libc::EACCES, libc::ENOSPC]),
            7 => ("reads", b(K::Pread) | b(K::Read), &[libc::EIO]),
            8 => ("writes", b(K::Pwrite), &[libc::EIO, libc::ENOSPC, libc::EINTR]),
            _ => ("changes", b(K::Pwrite) | b(K::Ftruncate) | b(K::Falloc) | b(K::Rename) | b(K::Unlink) | b(K::Mmap), &[0, libc::EIO]),
        };
        Plan {
            name,
            kinds,
            fks: match r.below(6) {
                0 => 1 << sys::FK_COMPACT | 1 << sys::FK_SPLIT | 1 << sys::FK_MERGE,
                1 => 1 << sys::FK_SHARD,
                _ => u32::MAX,
            },
            errno: *r.pick(errnos) as u32,
            short: r.chance(1, 5),
            count: *r.pick(&[1i64, 1, 1, 2, 3, 1_000_000]),
            class: *r.pick(&[0u32, 0, 0, 1, 2]),
            before_open: r.chance(1, 6),
        }
    }
    fn arm(&self, skip: i64) {
        sys::FAULT_SEEN.store(0, SeqCst);
        sys::FAULT_HITS.store(0, SeqCst);
        sys::FAULT_SKIP.store(skip, SeqCst);
        sys::FAULT_COUNT.store(self.count, SeqCst);
        sys::FAULT_FKS.store(self.fks, SeqCst);
        sys::FAULT_ERRNO.store(self.errno, SeqCst);
        // an endless interruption is not a failure
        if self.errno == libc::EINTR as u32 && self.count > 100 {
            sys::FAULT_COUNT.store(50, SeqCst);
        }
        sys::FAULT_SHORT.store(self.short, SeqCst);
        sys::FAULT_CLASS.store(self.class, SeqCst);
        sys::flags_on(sys::F_FAULT);
        self.rearm();
    }
    fn rearm(&self) {
        sys::FAULT_KINDS.store(self.kinds, SeqCst);
    }
}
fn disarm() {
    sys::FAULT_KINDS.store(0, SeqCst);
}
fn hits() -> u64 {
    sys::FAULT_HITS.load(SeqCst)
}

struct Exp<'a, 'b> {
    base: PathBuf,
    cfg: Cfg,
    m: Model,
    gen: Gen<'b>,
    plan: &'a Plan,
    desc: String,
}

fn open_faulty(w: &mut World, p: &Plan, r: &mut Rng) -> VR {
    let (d, c) = (w.dir.clone(), w.cfg.cfg());
    tick(|| "open with failing file operations".into());
    let x = guard(|| in_op(|| CandyStore::open(&d, c)));
    match x {
        Err(pn) => return w.viol(&sig_of(&pn), pn),
        Ok(Ok(s)) => {
            w.s = Some(std::sync::Arc::new(s));
            return Ok(());
        }
        Ok(Err(e)) => {
            if hits() == 0 {
                return w.viol("open", format!("open returned an error although no file operation failed: {e:#}"));
            }
            w.note(format!("open failed: {e:#}"));
        }
    }
    disarm();
    w.open()?;
    w.verify(r, "contents after a failed open")?;
    p.rearm();
    Ok(())
}

/// which of the allowed outcomes did a failed call have?
fn judge_failed(w: &mut World, op: &Op, before: &Model, after: Model, err: &str) -> VR {
    let s = w.s.clone().unwrap();
    tick(|| format!("contents after a failed {}", op.brief()));
    let mut after = after;
    let res = guard(|| {
        in_op(|| -> R<Model> {
            use Op::*;
            match op {
                QPush(q, v, head) => {
                    let bq = before.queues.get(q).cloned().unwrap_or_default().items;
                    let got = dump_queue(&s, q, bq.len() + 1)?;
                    let rest: Vec<_> = if got.len() != bq.len() + 1 {
                        got.clone()
                    } else if *head {
                        got[1..].to_vec()
                    } else {
                        got[..got.len() - 1].to_vec()
                    };
                    let new = if *head { got.first() } else { got.last() };
                    after = before.clone();
                    if got.len() == bq.len() + 1 && rest.iter().eq(bq.iter()) && new.map(|x| &x.1) == Some(v) {
                        after.queues.entry(q.clone()).or_default().items = got.into();
                    }
                }
                QExtend(q, vs) => {
                    let bq = before.queues.get(q).cloned().unwrap_or_default().items;
                    let got = dump_queue(&s, q, bq.len() + vs.len())?;
                    after = before.clone();
                    if got.len() >= bq.len()
                        && got.len() <= bq.len() + vs.len()
                        && got[..bq.len()].iter().eq(bq.iter())
                        && got[bq.len()..].iter().map(|x| &x.1).eq(vs[..got.len() - bq.len()].iter())
                    {
                        after.queues.entry(q.clone()).or_default().items = got.into();
                    }
                }
                _ => {}
            }
            let (mut lname, mut qname) = (None, None);
            match op {
                LSet(l, ..) | LPromote(l, ..) | LRemove(l, ..) | LReplace(l, ..) | LGoc(l, ..) | LPop(l, _) | LDiscard(l) => lname = Some(l.clone()),
                QPush(q, ..) | QPop(q, ..) | QRemove(q, ..) | QDiscard(q) | QExtend(q, ..) => qname = Some(q.clone()),
                _ => {}
            }
            if lname.is_some() || qname.is_some() {
                let mut items: Vec<B> = vec![];
                for m in [before, &after] {
                    for l in m.lists.values() {
                        items.extend(l.items.iter().map(|x| x.0.clone()));
                    }
                }
                if let LSet(_, k, _) | LPromote(_, k, _) | LRemove(_, k) | LReplace(_, k, ..) | LGoc(_, k, _) = op {
                    items.push(k.clone());
                }
                items.sort();
                items.dedup();
                let mut m = Coll { before, after: &after, op, items }.judge(&s)?;
                for (l, x) in m.lists.iter_mut() {
                    if Some(l) != lname.as_ref() {
                        x.len_inexact = before.lists.get(l).map(|x| x.len_inexact).unwrap_or(false);
                    }
                }
                for (q, x) in m.queues.iter_mut() {
                    if Some(q) != qname.as_ref() {
                        x.len_inexact = before.queues.get(q).map(|x| x.len_inexact).unwrap_or(false);
                    }
                }
                return Ok(m);
            }
            let cands: Vec<&Model> = match op {
                Set(..) | Remove(..) | Replace(..) | Goc(..) | Clear => vec![before, &after],
                _ => vec![before],
            };
            let got = dump_kv(&s, before.kv.len() + 1)?;
            let mut e = String::new();
            for (i, m) in cands.iter().enumerate() {
                if m.kv == got {
                    let mut m = (*m).clone();
                    // for a clear the collections decide too
                    match m.verify(&s, &mut Rng::new(1)) {
                        Ok(()) => return Ok(m),
                        Err(x) => e += &format!("; {x}"),
                    }
                } else {
                    e += &format!("; compared with the contents {}: {}", ["before", "after"][i], diff_kv(&got, &m.kv));
                }
            }
            Err(format!("neither applied nor not applied{e}"))
        })
    });
    match res {
        Err(p) => w.viol(&sig_of(&p), format!("after {} had failed with {err}: {p}", op.brief())),
        Ok(Err(e)) => w.viol("contents after a failed call", format!("{} had failed with [{err}]: {e}", op.brief())),
        Ok(Ok(m)) => {
            w.m = m;
            Ok(())
        }
    }
}

fn do_step(ctx: &mut Ctx, w: &mut World, st: &Step, p: &Plan, r: &mut Rng) -> VR {
    match st {
        Step::Pump(n) => {
            sys::gate_pump(*n);
            w.note(st.brief());
            Ok(())
        }
        Step::Reopen => {
            w.close()?;
            open_faulty(w, p, r)
        }
        Step::Op(op) => {
            w.nops += 1;
            w.note(op.brief());
            tick(|| format!("{} with failing file operations", op.brief()));
            let before = w.m.clone();
            let s = w.s.clone().unwrap();
            let m = &mut w.m;
            let x = guard(|| in_op(|| m.apply(&s, op, r)));
            drop(s);
            match x {
                Err(pn) => w.viol(&sig_of(&pn), pn),
                Ok(Ok(())) => {
                    ctx.count("calls_succeeding_in_spite_of_failures", (hits() > 0) as u64);
                    Ok(())
                }
                Ok(Err(e)) if e.contains("returned an error") && hits() > 0 => {
                    disarm();
                    w.note(format!("-> {}", trunc(e.clone())));
                    ctx.count("failed_calls_judged", 1);
                    ctx.count(&format!("failed.{}", op.kind()), 1);
                    let after = std::mem::take(&mut w.m);
                    judge_failed(w, op, &before, after, &e)?;
                    p.rearm();
                    Ok(())
                }
                Ok(Err(e)) => w.viol(op.kind(), e),
            }
        }
    }
}

fn gen_step(g: &mut Gen, w: &World, r: &mut Rng) -> Step {
    if sys::gate_parked() > 0 && r.chance(1, 2) {
        return Step::Pump(*r.pick(&[3i64, 30, 300, 2000]));
    }
    match r.below(20) {
        0 => Step::Reopen,
        1 => Step::Op(Op::Merge(*r.pick(&[0.1f32, 0.3, 0.49]))),
        2 => Step::Op(Op::Merge(0.49)),
        3 => Step::Op(Op::Clear),
        4 => Step::Op(Op::Flush),
        5 => Step::Op(Op::IterAll),
        6 => Step::Op(Op::Stats),
        7..=14 => Step::Op(g.plain(&w.m, r)),
        _ => loop {
            let op = any_coll(g, &w.m, r);
            if !matches!(op, Op::LCompact(..)) {
                return Step::Op(op);
            }
        },
    }
}

/// run the steps with the `n`-th matching file operation failing
fn run_one(ctx: &mut Ctx, ex: &Exp, steps: &[Step], n: i64, r: &mut Rng) -> VR {
    let dir = ctx.case_dir();
    let old = sys::set_class(sys::HARNESS);
    copy_dir(&ex.base, &dir);
    sys::set_class(old);
    let mut w = adopt(dir, ex.cfg.clone(), ex.m.clone());
    w.desc = format!(
        "{} | failing: {} errno {} ({} in a row, short reads and writes {}, file kinds {:x}, threads {}) from the {n}th on, during: {}",
        ex.desc,
        ex.plan.name,
        ex.plan.errno,
        ex.plan.count,
        ex.plan.short,
        ex.plan.fks,
        ["all", "background", "clients"][ex.plan.class as usize],
        steps.iter().map(|s| s.brief()).collect::<Vec<_>>().join("; ")
    );
    if ex.plan.before_open {
        ex.plan.arm(n);
        open_faulty(&mut w, ex.plan, r)?;
    } else {
        w.open()?;
        ex.plan.arm(n);
    }
    w.gate(true);
    for st in steps {
        do_step(ctx, &mut w, st, ex.plan, r)?;
    }
    disarm();
    let h = hits();
    ctx.count("failures_injected", h);
    if h > 0 {
        let l = sys::FAULT_LAST.load(SeqCst);
        let kinds: Vec<String> = steps.iter().map(|s| s.brief().split('(').next().unwrap_or("").to_string()).collect();
        ctx.distinct.insert(mix(fnv(kinds.join(",").as_bytes()), mix(l as u64, mix(ex.plan.kinds as u64, n.min(60) as u64))));
    }
    // the failures have stopped
    sys::flags_off(sys::F_FAULT);
    let free = r.chance(1, 2);
    if free {
        w.gate(false);
    }
    w.verify(r, "contents after failures")?;
    let mut g = ex.gen.clone();
    g.uniq += 7_000_000;
    let more = if r.chance(1, 6) { 60 } else { 8 };
    for _ in 0..more {
        let op = if r.chance(2, 3) { g.plain(&w.m, r) } else { any_coll(&g, &w.m, r) };
        w.step(&op, r)?;
        w.background(r);
    }
    if r.chance(1, 3) {
        w.step(&Op::Merge(0.49), r)?;
    }
    if r.chance(1, 3) {
        w.step(&Op::Flush, r)?;
    }
    w.gate(false);
    if r.chance(2, 3) {
        w.quiesce()?;
        w.verify(r, "contents some time after failures")?;
    }
    w.reopen()?;
    w.verify(r, "contents after failures and reopening")?;
    for _ in 0..4 {
        let op = g.plain(&w.m, r);
        w.step(&op, r)?;
    }
    ctx.count("calls_compared_after_failures", w.nops);
    ctx.count("failure_points_run", (h > 0) as u64);
    w.close()
}

pub fn c15(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let cfg = crash_cfg(&mut r);
    let npool = *r.pick(&[12usize, 40, 90]);
    let style = *r.pick(&[0u64, 1, 3, 4, 5, 8]);
    let pool = Pool::with_style(&mut r, &cfg.seed, npool, style);
    let mut prof = Profile { grow: *r.pick(&[50, 70, 90]), ..Profile::default() };
    prof.vmax = *r.pick(&[30usize, 150, 400]);
    prof.nlists = 1;
    prof.nitems = 5;
    prof.w = [100, 15, 15, 0, 0, 2, 0, 0, 0];
    let mut w = World::new(ctx.case_dir(), cfg.clone());
    let mut g = Gen::new(&pool, prof, &mut r);
    w.gate(true);
    w.open()?;
    for _ in 0..*r.pick(&[0usize, 15, 50, 150]) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    // what a killed process leaves is a valid start too
    let base = w.dir.with_extension("base");
    if r.chance(1, 2) {
        let m = w.m.clone();
        settle();
        sys::quiet(|| {
            wipe(&base);
            copy_raw(&w.dir, &base)
        });
        w.gate(false);
        w.close()?;
        w.m = m;
    } else {
        w.gate(false);
        w.close()?;
        sys::quiet(|| {
            wipe(&base);
            copy_raw(&w.dir, &base)
        });
    }
    let m0 = w.m.clone();
    let desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    ctx.sample(|| format!("{} {desc}", w.cfg.short()));
    for _ in 0..3 {
        let plan = Plan::pick(&mut r);
        // dry run: which steps, how many places to fail
        let old = sys::set_class(sys::HARNESS);
        copy_dir(&base, &ctx.case_dir());
        sys::set_class(old);
        let mut w = adopt(ctx.case_dir(), cfg.clone(), m0.clone());
        let nsteps = 1 + r.usize(5);
        let mut steps: Vec<Step> = vec![];
        let mut dry = plan.clone();
        dry.count = 0;
        if plan.before_open {
            dry.arm(i64::MAX / 2);
        }
        w.open()?;
        w.verify(&mut Rng::new(1), "contents of the start")?;
        if !plan.before_open {
            dry.arm(i64::MAX / 2);
        }
        w.gate(true);
        for _ in 0..nsteps {
            let st = gen_step(&mut g, &w, &mut r);
            // bring a compaction about
            do_step(ctx, &mut w, &st, &dry, &mut r)?;
            steps.push(st);
        }
        disarm();
        sys::flags_off(sys::F_FAULT);
        let seen = sys::FAULT_SEEN.load(SeqCst) as i64;
        w.gate(false);
        w.close()?;
        ctx.count("failure_points_passed", seen as u64);
        let ex = Exp { base: base.clone(), cfg: cfg.clone(), m: m0.clone(), gen: g.clone(), plan: &plan, desc: desc.clone() };
        let lim = if ctx.thorough { 60 } else { 22 };
        let mut pos: Vec<i64> = (0..seen.min(lim / 2)).collect();
        if seen > lim / 2 {
            for _ in 0..lim / 2 {
                pos.push(lim / 2 + r.below((seen - lim / 2) as u64) as i64);
            }
        }
        pos.dedup();
        for n in pos {
            if ctx.expired() && ctx.evals > 0 {
                break;
            }
            run_one(ctx, &ex, &steps, n, &mut r)?;
            tickn();
        }
    }
    if std::env::var("KEEP").is_err() { sys::quiet(|| wipe(&base)); }
    Ok(())
}

// ------------------------------------------------------------------ stable storage

/// (name, inode) of the store's files
fn files(dir: &Path) -> Vec<(String, u64)> {
    use std::os::unix::fs::MetadataExt;
    sys::quiet(|| {
        let mut v = vec![];
        for e in std::fs::read_dir(dir).expect("read_dir").flatten() {
            if let Ok(m) = e.metadata() {
                v.push((e.file_name().to_string_lossy().to_string(), m.ino()));
            }
        }
        v.sort();
        v
    })
}
fn must_be_stable(name: &str, ino: u64) -> u64 {
    if name.starts_with("shard_") {
        sys::dirty_of(ino).0
    } else if name.starts_with("compact_") {
        // what the background thread copies is still in the source
        sys::dirty_client(ino)
    } else {
        0
    }
}
fn bg_events() -> u64 {
    sys::BGCOUNTS.iter().map(|x| x.load(SeqCst)).sum()
}
fn sync_faults(r: &mut Rng, on: bool) {
    sys::FAULT_HITS.store(0, SeqCst);
    if on {
        sys::FAULT_SKIP.store(r.below(6) as i64, SeqCst);
        sys::FAULT_COUNT.store(*r.pick(&[1i64, 2, 50]), SeqCst);
        sys::FAULT_FKS.store(u32::MAX, SeqCst);
        sys::FAULT_ERRNO.store(*r.pick(&[0u32, libc::ENOSPC as u32]), SeqCst);
        sys::FAULT_KINDS.store(b(K::Sync), SeqCst);
        sys::flags_on(sys::F_FAULT);
    } else {
        sys::FAULT_KINDS.store(0, SeqCst);
        sys::flags_off(sys::F_FAULT);
    }
}

fn stable_setup() {
    sys::dirty_reset();
    sys::flags_on(sys::F_DIRTY);
    sys::protect(true);
}

fn c19_seq(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = crash_cfg(&mut r);
    cfg.threads = *r.pick(&[1usize, 1, 2]);
    let style = *r.pick(&[0u64, 1, 3, 4, 5, 8]);
    let np = *r.pick(&[12usize, 40, 90]);
    let pool = Pool::with_style(&mut r, &cfg.seed, np, style);
    let mut prof = Profile { grow: *r.pick(&[50, 70, 90]), ..Profile::default() };
    prof.vmax = *r.pick(&[30usize, 150, 400]);
    prof.nlists = 1;
    prof.w = [100, 10, 10, 0, 0, 3, 0, 0, 0];
    if r.chance(1, 4) {
        prof.w[4] = 1;
    }
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut g = Gen::new(&pool, prof, &mut r);
    stable_setup();
    w.gate(true);
    w.open()?;
    let mut dirty_seen = 0;
    for _ in 0..150 + r.usize(200) {
        if !r.chance(1, 6) {
            let op = g.op(&w.m, &mut r);
            w.step(&op, &mut r)?;
            w.background(&mut r);
            if r.chance(1, 60) {
                w.reopen()?;
            }
            continue;
        }
        // a compaction in progress stays where it is
        let parked = settle();
        let before: Vec<(String, u64, u64, u64)> = files(&w.dir)
            .into_iter()
            .map(|(n, i)| {
                let d = must_be_stable(&n, i);
                (n, i, d, sys::dirty_of(i).1)
            })
            .collect();
        let nd = before.iter().filter(|x| x.2 > x.3).count() as u64;
        let faulty = r.chance(1, 4);
        sync_faults(&mut r, faulty);
        let e0 = bg_events();
        w.note("flush()".into());
        tick(|| "flush".into());
        let s = w.s.clone().unwrap();
        let x = guard(|| in_op(|| s.flush()));
        drop(s);
        let failed = sys::FAULT_HITS.load(SeqCst);
        sync_faults(&mut r, false);
        let x = match x {
            Err(p) => return w.viol(&sig_of(&p), p),
            Ok(x) => x,
        };
        if let Err(e) = x {
            if failed == 0 {
                return w.viol("flush", format!("flush returned an error although nothing failed: {e:#}"));
            }
            ctx.count("flushes_reporting_failed_syncs", 1);
            continue;
        }
        if bg_events() != e0 {
            ctx.count("flushes_with_moving_background", 1);
            continue;
        }
        ctx.count("flushes_checked", 1);
        ctx.count("flushes_checked_during_compaction", parked as u64);
        ctx.count("flushes_succeeding_after_failed_syncs", (failed > 0) as u64);
        dirty_seen += nd;
        let now = files(&w.dir);
        ctx.distinct.insert(mix(mix(nd, parked as u64), mix(now.len() as u64, sys::TRACE_HASH.load(SeqCst))));
        for (n, i) in now {
            let (d, sy) = (must_be_stable(&n, i), sys::dirty_of(i).1);
            if d > sy {
                return w.viol(
                    "flushed data not synced",
                    format!(
                        "flush succeeded ({failed} syncs had been made to fail), but {n} was modified (event {d}) after its last sync (event {sy}); files before: {}",
                        trunc(format!("{before:?}"))
                    ),
                );
            }
        }
    }
    ctx.count("modified_files_flushed", dirty_seen);
    sys::protect(false);
    sys::flags_off(sys::F_DIRTY);
    w.gate(false);
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

/// random modifying calls; f is told about every call that succeeded
fn churn_client(
    s: &CandyStore,
    seed: u64,
    ops: usize,
    keys: &[B],
    vmax: usize,
    faulty: bool,
    f: &mut dyn FnMut(&'static str, &B, bool) -> Result<(), String>,
) -> Result<(), String> {
    let mut r = Rng::new(seed);
    sys::seed_thread(r.next());
    for i in 0..ops {
        tickn();
        let k = r.pick(keys).clone();
        let n = r.usize(vmax + 1);
        let mut v = format!("{seed:x}.{i}.").into_bytes();
        v.resize(v.len() + n, b'a' + (i % 26) as u8);
        sys::dirty_take();
        let l = &keys[0];
        // true: a plain call that inserted (v is unique)
        let (what, x): (&'static str, Result<bool, _>) = match r.below(14) {
            0..=5 => ("set", s.set(&k, &v).map(|_| true)),
            6 => ("get_or_create", s.get_or_create(&k, &v).map(|x| x.was_created())),
            7 => ("replace", s.replace(&k, &v, None::<&B>).map(|x| x.was_replaced())),
            8 | 9 => ("remove", s.remove(&k).map(|_| false)),
            10 => ("set_in_list", s.set_in_list(l, &k, &v).map(|_| false)),
            11 => ("remove_from_list", s.remove_from_list(l, &k).map(|_| false)),
            12 => ("push_to_queue_tail", s.push_to_queue_tail(l, &v).map(|_| false)),
            _ => ("pop_queue_head", s.pop_queue_head(l).map(|_| false)),
        };
        match x {
            Ok(ins) => f(what, &k, ins)?,
            Err(e) if !faulty => return Err(format!("error from a valid call: {what}({}): {e:#}", show(&k))),
            Err(_) => {}
        }
    }
    Ok(())
}

fn c19_conc(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let cfg = conc_cfg(&mut r);
    let nk = 4 + r.usize(60);
    let keys = Pool::new(&mut r, &cfg.seed, nk).keys;
    let keys: Vec<B> = keys.into_iter().filter(|k| k.len() < 200).chain([b"k".to_vec()]).collect();
    let mut w = World::new(ctx.case_dir(), cfg);
    stable_setup();
    w.open()?;
    let s = w.s.clone().unwrap();
    let threads = 1 + r.usize(4);
    let ops = 60 + r.usize(150);
    w.desc = format!("{} [threads={threads} ops={ops}]", Chaos::on(&mut r));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    tick(|| "flush under concurrent modification".into());
    let stop = AtomicBool::new(false);
    let left = AtomicU32::new(threads as u32);
    let vmax = *r.pick(&[8usize, 60, 300]);
    let (checked, compared, unsynced) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    type F<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for _ in 0..threads {
        let (s, keys, stop, left, seed) = (&s, &keys, &stop, &left, r.next());
        fs.push(Box::new(move || {
            let x = churn_client(s, seed, ops, keys, vmax, false, &mut |_, _, _| Ok(()));
            if left.fetch_sub(1, SeqCst) == 1 || x.is_err() {
                stop.store(true, SeqCst);
            }
            x
        }));
    }
    let merges = r.chance(1, 3);
    let clears = r.chance(1, 6);
    if merges || clears {
        let (s, stop, seed) = (&s, &stop, r.next());
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            while !stop.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_micros(r.below(4000)));
                if clears && r.chance(1, 4) {
                    s.clear().map_err(|e| format!("clear: {e:#}"))?;
                } else {
                    s.merge_small_shards(0.4).map_err(|e| format!("merge_small_shards: {e:#}"))?;
                }
            }
            Ok(())
        }));
    }
    for _ in 0..1 + r.usize(2) {
        let (s, stop, seed, dir) = (&s, &stop, r.next(), w.dir.clone());
        let (checked, compared, unsynced) = (&checked, &compared, &unsynced);
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            while !stop.load(SeqCst) {
                let before: Vec<(String, u64, u64)> = files(&dir)
                    .into_iter()
                    .map(|(n, i)| {
                        let d = must_be_stable(&n, i);
                        (n, i, d)
                    })
                    .collect();
                unsynced.fetch_add(before.iter().filter(|x| x.2 > sys::dirty_of(x.1).1).count() as u64, Relaxed);
                s.flush().map_err(|e| format!("flush: {e:#}"))?;
                let now: std::collections::BTreeSet<u64> = files(&dir).into_iter().map(|x| x.1).collect();
                checked.fetch_add(1, Relaxed);
                for (n, i, d) in before {
                    let sy = sys::dirty_of(i).1;
                    if now.contains(&i) && d > 0 {
                        compared.fetch_add(1, Relaxed);
                        if sy < d {
                            return Err(format!(
                                "flush succeeded, but {n}, modified (event {d}) before it was called, was last synced at event {sy}"
                            ));
                        }
                    }
                }
                std::thread::sleep(std::time::Duration::from_micros(r.below(1500)));
            }
            Ok(())
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    for x in res {
        w.chk("flushed data not synced", x)?;
    }
    ctx.count("flushes_checked", checked.load(SeqCst));
    ctx.count("files_compared", compared.load(SeqCst));
    ctx.count("modified_files_flushed", unsynced.load(SeqCst));
    drop(s);
    sys::protect(false);
    sys::flags_off(sys::F_DIRTY);
    w.finish(ctx)
}

/// flush aggregation: a successful modifying call has synced what it wrote
fn c19_agg(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    if r.chance(1, 2) {
        cfg.max_shard = 100_000; // one shard, many waiters
        cfg.expected = 0;
    }
    cfg.agg_us = *r.pick(&[1u64, 20, 100, 400, 2000, u64::MAX]);
    let nk = *r.pick(&[3usize, 20, 60]);
    let keys = Pool::new(&mut r, &cfg.seed, nk).keys;
    let keys: Vec<B> = keys.into_iter().filter(|k| k.len() < 200).chain([b"k".to_vec()]).collect();
    let mut w = World::new(ctx.case_dir(), cfg);
    stable_setup();
    w.open()?;
    let s = w.s.clone().unwrap();
    let threads = 1 + r.usize(7);
    let ops = 20 + r.usize(60);
    let faulty = r.chance(1, 3);
    w.desc = format!(
        "{} [threads={threads} ops={ops} aggregation delay {} us, failing syncs {faulty}]",
        Chaos::on(&mut r),
        w.cfg.agg_us
    );
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    tick(|| "modifications with flush aggregation".into());
    let vmax = *r.pick(&[8usize, 60, 300]);
    let (checked, structural) = (AtomicU64::new(0), AtomicU64::new(0));
    let left = AtomicU32::new(threads as u32);
    type F<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for _ in 0..threads {
        let (s, keys, left, seed) = (&s, &keys, &left, r.next());
        let (checked, structural) = (&checked, &structural);
        fs.push(Box::new(move || {
            let x = churn_client(s, seed, ops, keys, vmax, faulty, &mut |what, k, inserted| {
                let m = sys::dirty_take();
                let own: Vec<(u64, u64)> = if m.structural == 0 {
                    m.all
                } else if !inserted {
                    // the call reorganised: there is no telling what's its own
                    vec![]
                } else {
                    // the call also reorganised; what it inserted was written last
                    structural.fetch_add(1, Relaxed);
                    m.all.into_iter().filter(|x| x.0 == m.last_data).collect()
                };
                for (ino, d) in own {
                    let sy = sys::dirty_of(ino).1;
                    checked.fetch_add(1, Relaxed);
                    if sy < d {
                        return Err(format!(
                            "{what}({}) succeeded, but its file was modified at event {d} and last synced at event {sy}",
                            show(k)
                        ));
                    }
                }
                Ok(())
            });
            left.fetch_sub(1, SeqCst);
            x
        }));
    }
    if faulty {
        let (left, seed) = (&left, r.next());
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            while left.load(SeqCst) > 0 {
                sync_faults(&mut r, true);
                std::thread::sleep(std::time::Duration::from_micros(r.below(3000)));
            }
            Ok(())
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    sync_faults(&mut r, false);
    Chaos::off();
    for x in res {
        w.chk("acknowledged data not synced", x)?;
    }
    ctx.count("files_compared", checked.load(SeqCst));
    ctx.count("calls_that_reorganised", structural.load(SeqCst));
    drop(s);
    sys::protect(false);
    sys::flags_off(sys::F_DIRTY);
    w.nops += (threads * ops) as u64;
    let st = w.quiesce()?;
    let _ = st;
    ctx.distinct.insert(sys::TRACE_HASH.load(SeqCst));
    w.finish(ctx)
}

pub fn c19(ctx: &mut Ctx, case: u64) -> VR {
    if ctx.arg == "agg" {
        return c19_agg(ctx, case);
    }
    if case % 2 == 0 {
        c19_seq(ctx, case)
    } else {
        c19_conc(ctx, case)
    }
}
