//! C20: clearing the store.
use crate::conc::*;
use crate::merge::shard_files;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use candystore::*;
use std::collections::BTreeSet;
use std::path::Path;
use std::result::Result;
use std::sync::Arc;

fn names(dir: &Path) -> BTreeSet<String> {
    std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()
}
/// statistics without the times
fn plain_stats(s: &Stats) -> String {
    let mut s = s.clone();
    for x in s.last_split_stats.iter_mut().chain(s.last_compaction_stats.iter_mut()) {
        x.0 = Default::default();
    }
    format!("{s:?}")
}
struct Empty {
    stats: String,
    files: BTreeSet<String>,
}
/// what a newly created store of this configuration looks like
fn reference(w: &mut World, dir: &Path) -> VR<Empty> {
    let d = fresh(dir);
    let c = w.cfg.cfg();
    let x = guard(|| -> R<Empty> {
        let s = CandyStore::open(&d, c).map_err(|e| format!("open returned an error: {e:#}"))?;
        let stats = plain_stats(&s.stats());
        drop(s);
        Ok(Empty { stats, files: names(&d) })
    });
    let e = w.chk("open", x)?;
    wipe(&d);
    Ok(e)
}
fn empty(ctx: &mut Ctx, w: &mut World, e: &Empty, when: &str, stats: bool) -> VR {
    let raw = w.raw()?;
    if !raw.is_empty() {
        return w.viol(
            "data after clear",
            format!("{when}: the cleared store contains {} entries, e.g. {}", raw.len(), show(&raw[0].0)),
        );
    }
    if stats {
        let st = w.quiesce()?;
        let st = plain_stats(&st);
        if st != e.stats {
            return w.viol("statistics after clear", format!("{when}: {st}, of a new store: {}", e.stats));
        }
    }
    let f = names(&w.dir);
    if f != e.files {
        return w.viol("files after clear", format!("{when}: {f:?}, of a new store: {:?}", e.files));
    }
    ctx.count("empty_stores_examined", 1);
    Ok(())
}

fn sequential(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = std_cfg(&mut r);
    let mut prof = full_profile(&mut r);
    let small = r.chance(2, 3);
    if small {
        prof.w[3] = 0;
    }
    let vmax = if small { prof.vmax + 700 } else { 66_000 };
    fit(&mut cfg, vmax);
    if !small && r.chance(1, 3) {
        cfg.max_shard = 220_000;
    }
    if r.chance(1, 3) {
        cfg.expected = *r.pick(&[30_000usize, 60_000, 120_000, 250_000]);
    }
    let n = *r.pick(&[10usize, 60, 200]);
    let pool = Pool::new(&mut r, &cfg.seed, n);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {}", pool.style);
    let refdir = ctx.case_dir().with_extension("ref");
    let mut e = reference(&mut w, &refdir)?;
    w.open()?;
    w.gate(r.chance(2, 3));
    let mut g = Gen::new(&pool, prof, &mut r);
    let rounds = 1 + r.usize(3);
    ctx.sample(|| format!("{} {} rounds={rounds}", w.cfg.short(), w.desc));
    for _ in 0..rounds {
        for _ in 0..*r.pick(&[0usize, 20, 200, 350]) {
            if r.chance(1, 15) {
                w.typed_step(&mut r)?;
            }
            if r.chance(1, 120) {
                w.step(&Op::Merge(0.3), &mut r)?;
            }
            let op = g.op(&w.m, &mut r);
            w.step(&op, &mut r)?;
            w.background(&mut r);
        }
        if w.gated && r.chance(1, 2) {
            // until a compaction is waiting
            for i in 0..80 {
                let op = g.plain(&w.m, &mut r);
                w.step(&op, &mut r)?;
                if sys::gate_parked() > 0 {
                    if r.chance(1, 2) {
                        sys::gate_pump(1 + r.below(1 + i) as i64);
                    }
                    break;
                }
            }
        }
        let parked = sys::gate_parked() > 0 || !sys::bg_idle();
        if r.chance(1, 6) {
            // reopened with another configuration, then cleared
            w.gate(false);
            w.close()?;
            let mut c = mutate_cfg(&w.cfg, &mut r);
            fit(&mut c, vmax);
            w.cfg = c;
            e = reference(&mut w, &refdir)?;
            w.open()?;
        } else if parked {
            ctx.count("clears_during_a_compaction", 1);
        }
        let had = shard_files(&w.dir).len() as u64;
        w.step(&Op::Clear, &mut r)?;
        ctx.max("max_shards_cleared", had);
        ctx.count("clears", 1);
        // reads are counted
        let st = w.s.clone().unwrap();
        let x = guard(|| in_op(|| plain_stats(&st.stats())));
        drop(st);
        let st = w.chk("stats", x.map(Ok))?;
        if st != e.stats {
            return w.viol("statistics after clear", format!("{st}, of a new store: {}", e.stats));
        }
        empty(ctx, &mut w, &e, "right after clear", false)?;
        if r.chance(1, 2) {
            // whatever was still running in the background
            let gated = w.gated;
            w.gate(false);
            std::thread::sleep(std::time::Duration::from_micros(r.below(2000)));
            empty(ctx, &mut w, &e, "some time after clear", false)?;
            w.gate(gated);
        }
        match r.below(4) {
            0 => {
                w.gate(false);
                w.reopen()?;
                empty(ctx, &mut w, &e, "reopened after clear", false)?;
            }
            1 => twin(ctx, &mut w, &refdir, &mut g, &mut r)?,
            2 => w.step(&Op::Clear, &mut r)?,
            _ => {}
        }
        w.verify(&mut r, "contents after clear")?;
        if !w.gated && r.chance(1, 2) {
            w.gate(true);
        }
    }
    for _ in 0..r.usize(150) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    w.verify(&mut r, "contents after clear and further use")?;
    w.gate(false);
    w.reopen()?;
    w.verify(&mut r, "contents after clear, further use and reopening")?;
    w.finish(ctx)
}

/// the cleared store and a new one do the same: results, statistics, files
fn twin(ctx: &mut Ctx, w: &mut World, refdir: &Path, g: &mut Gen, r: &mut Rng) -> VR {
    w.gate(false);
    let mut t = crate::crash::adopt(fresh(refdir), w.cfg.clone(), Model::default());
    t.desc = "twin".into();
    t.open()?;
    w.step(&Op::Clear, r)?;
    for i in 0..20 + r.usize(40) {
        let op = g.op(&w.m, r);
        if matches!(op, Op::Clear | Op::Stats) {
            continue;
        }
        let mut r2 = r.clone();
        w.step(&op, r)?;
        t.step(&op, &mut r2)?;
        let (a, b) = (w.quiesce()?, t.quiesce()?);
        // what background work amounts to depends on when it ran
        let worked = a.num_compactions + a.num_splits + b.num_compactions + b.num_splits > 0;
        let fig = |s: &Stats| {
            let x = (s.num_entries(), s.data_bytes(), s.num_updates, s.num_positive_lookups, s.num_negative_lookups, s.num_collisions);
            format!("{x:?} {}", if worked { String::new() } else { plain_stats(s) })
        };
        let (a, b) = (fig(&a), fig(&b));
        if a != b {
            let d = format!("after {i} calls the cleared store has {a}, a new store {b}");
            return w.viol("differs from a new store", d);
        }
        if !worked && names(&w.dir) != names(&t.dir) {
            let d = format!("after {i} calls the cleared store has {:?}, a new store {:?}", names(&w.dir), names(&t.dir));
            return w.viol("differs from a new store", d);
        }
        ctx.count("calls_compared_with_a_new_store", 1);
    }
    t.close()?;
    wipe(refdir);
    Ok(())
}

fn concurrent(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    if r.chance(1, 3) {
        cfg.expected = 60_000;
    }
    let n = 4 + r.usize(50);
    let keys = Pool::new(&mut r, &cfg.seed, n).keys;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let o = PlainOpts {
        threads: 2 + r.usize(6),
        ops: 60 + r.usize(160),
        keys: keys.len(),
        hot: 1 + r.usize(5),
        merger: if r.chance(1, 3) { 6 } else { 0 },
        clearer: 2 + r.usize(10) as u32,
        observers: r.chance(1, 4),
        vmax: *r.pick(&[8usize, 60, 300]),
    };
    plain_round(ctx, &mut w, &o, &mut r, &keys)?;
    w.open()?;
    w.verify(&mut r, "contents after reopening")?;
    let st = w.quiesce()?;
    let raw = w.raw()?;
    let bytes: usize = raw.iter().map(|x| x.0.len() + x.1.len()).sum();
    if (st.num_entries(), st.data_bytes()) != (raw.len(), bytes) {
        return w.viol(
            "statistics after clear",
            format!("{} entries of {} bytes reported, there are {} of {bytes}", st.num_entries(), st.data_bytes(), raw.len()),
        );
    }
    let f = names(&w.dir);
    if let Some(x) = f.iter().find(|x| !x.starts_with("shard_") && !x.starts_with('.') && !x.contains("lock")) {
        return w.viol("files after clear", format!("{x} remains at quiescence, among {f:?}"));
    }
    for i in 0..40 {
        let k = r.pick(&keys).clone();
        w.step(&if i % 3 == 0 { Op::Remove(k) } else { Op::Set(k, enc(1000 + i, o.vmax)) }, &mut r)?;
    }
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

/// several threads clear at once, alone or with closing right afterwards
fn many(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    if r.chance(1, 3) {
        cfg.expected = 120_000;
    }
    let n = 20 + r.usize(100);
    let pool = Pool::new(&mut r, &cfg.seed, n);
    let mut w = World::new(ctx.case_dir(), cfg);
    let refdir = ctx.case_dir().with_extension("ref");
    let e = reference(&mut w, &refdir)?;
    w.open()?;
    let p = Profile { w: [60, 15, 15, 0, 0, 0, 0, 0, 0], vmax: 200, ..full_profile(&mut r) };
    let mut g = Gen::new(&pool, p, &mut r);
    for _ in 0..r.usize(300) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
    }
    let s: Arc<CandyStore> = w.s.clone().unwrap();
    let n = 2 + r.usize(4);
    w.desc = format!("{} ({n} threads clear at once)", Chaos::on(&mut r));
    tick(|| "clearing from several threads".into());
    type F<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for i in 0..n {
        let (s, seed) = (&s, r.next());
        let reader = i == 0 && n > 2;
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            for _ in 0..1 + r.below(4) {
                if reader {
                    for x in s.iter() {
                        x.map_err(|e| format!("iter returned an error: {e:#}"))?;
                    }
                    let _ = s.stats();
                    s.flush().map_err(|e| format!("flush returned an error: {e:#}"))?;
                } else {
                    s.clear().map_err(|e| format!("clear returned an error: {e:#}"))?;
                }
            }
            Ok(())
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    drop(s);
    for x in res {
        w.chk("clear", x)?;
    }
    w.m = Model::default();
    ctx.count("concurrent_clears", n as u64);
    empty(ctx, &mut w, &e, "after several clears", false)?;
    if r.chance(1, 2) {
        w.reopen()?;
        empty(ctx, &mut w, &e, "reopened after several clears", false)?;
    }
    for _ in 0..60 {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
    }
    w.verify(&mut r, "contents after clear and further use")?;
    w.finish(ctx)
}

pub fn c20(ctx: &mut Ctx, case: u64) -> VR {
    let r = match case % 8 {
        0..=3 => sequential(ctx, case),
        4 | 5 => concurrent(ctx, case),
        6 => coll_round(ctx, case, true),
        _ => many(ctx, case),
    };
    sys::set_class(1);
    r
}
