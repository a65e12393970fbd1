//! C12: statistics against the actual contents and the calls made.
use crate::conc::*;
use crate::merge::shard_files;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::util::*;
use candystore::*;
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

#[derive(Clone, Debug, Default, PartialEq)]
struct Cnt {
    updates: usize,
    pos: usize,
    neg: usize,
    ins: usize,
    rem: usize,
    hist: [usize; 5],
    wops: usize,
    wbytes: usize,
}
impl Cnt {
    fn write(&mut self, k: &[u8], v: &[u8]) {
        let n = k.len() + 1 + v.len();
        self.wops += 1;
        self.wbytes += n;
        let b = [128, 1024, 8192, 32768].iter().position(|l| n < *l).unwrap_or(4);
        self.hist[b] += 1;
    }
    fn look(&mut self, hit: bool) {
        if hit {
            self.pos += 1
        } else {
            self.neg += 1
        }
    }
    fn insert(&mut self, k: &[u8], v: &[u8]) {
        self.ins += 1;
        self.write(k, v)
    }
    fn update(&mut self, k: &[u8], v: &[u8], prev: &[u8]) {
        if v != prev {
            self.updates += 1;
            self.write(k, v)
        }
    }
    /// what `op` on a store holding `m` counts
    fn op(&mut self, m: &Model, op: &Op) {
        match op {
            Op::Get(k) | Op::Contains(k) => self.look(m.kv.contains_key(k)),
            Op::Set(k, v) => match m.kv.get(k) {
                None => self.insert(k, v),
                Some(p) => self.update(k, v, p),
            },
            Op::Replace(k, v, e) => {
                if let Some(p) = m.kv.get(k) {
                    if e.as_ref().map_or(true, |e| e == p) {
                        self.update(k, v, p)
                    }
                }
            }
            Op::Goc(k, v) => match m.kv.get(k) {
                None => self.insert(k, v),
                Some(_) => self.pos += 1,
            },
            Op::Remove(k) => {
                if m.kv.contains_key(k) {
                    self.rem += 1
                }
            }
            Op::Clear => *self = Cnt::default(),
            _ => {}
        }
    }
    fn add(&mut self, o: &Cnt) {
        self.updates += o.updates;
        self.pos += o.pos;
        self.neg += o.neg;
        self.ins += o.ins;
        self.rem += o.rem;
        self.wops += o.wops;
        self.wbytes += o.wbytes;
        for i in 0..5 {
            self.hist[i] += o.hist[i];
        }
    }
}

/// statistics against the entries and files there are
fn contents(ctx: &mut Ctx, w: &mut World) -> VR<Stats> {
    let st = w.quiesce()?;
    let raw = w.raw()?;
    let bytes: usize = raw.iter().map(|x| x.0.len() + x.1.len()).sum();
    let files = shard_files(&w.dir).len();
    let x = guard(|| {
        (
            st.num_entries(),
            st.data_bytes(),
            st.total_occupied_bytes(),
            st.average_entry_size(),
            st.required_num_shards(),
            st.should_merge_small_shards(),
            format!("{st} {st:?}").len(),
        )
    });
    let (n, data, total, avg, needed, merge, _) = w.chk("stats", x.map(Ok))?;
    for (what, got, want) in [
        ("num_entries", n, raw.len()),
        ("data_bytes", data, bytes),
        ("num_shards", st.num_shards, files),
        ("total_occupied_bytes", total, files * Stats::FILE_HEADER_SIZE + st.occupied_bytes),
        ("average_entry_size", avg, if raw.is_empty() { 0 } else { bytes / raw.len() }),
        ("required_num_shards", needed, crate::merge::needed_shards(raw.len())),
        ("should_merge_small_shards", merge as usize, (files > 2 * crate::merge::needed_shards(raw.len())) as usize),
    ] {
        if got != want {
            return w.viol(
                what,
                format!("{what} is {got}, expected {want} ({} entries of {bytes} bytes in {files} shards; {st})", raw.len()),
            );
        }
    }
    ctx.count("statistics_compared_with_contents", 1);
    Ok(st)
}

fn totals(ctx: &mut Ctx, w: &World, st: &Stats, c: &Cnt, all: &Cnt, plain: bool, still: bool) -> VR {
    let h = [st.entries_under_128, st.entries_under_1k, st.entries_under_8k, st.entries_under_32k, st.entries_over_32k];
    let mut v: Vec<(&str, usize, usize)> = vec![];
    if plain {
        v.push(("num_updates", st.num_updates, c.updates));
        v.push(("num_positive_lookups", st.num_positive_lookups, c.pos));
        v.push(("num_negative_lookups", st.num_negative_lookups, c.neg));
        ctx.count("counter_totals_compared", 1);
        // reorganising writes entries too
        for i in 0..5 {
            if h[i] < c.hist[i] {
                return w.viol("histogram", format!("the size histogram is {h:?}, the calls alone wrote {:?}; {st}", c.hist));
            }
        }
    }
    if plain && still {
        v.push(("num_inserts", st.num_inserts, all.ins));
        v.push(("num_removals", st.num_removals, all.rem));
        v.push(("num_write_ops", st.num_write_ops, c.wops));
        v.push(("num_write_bytes", st.num_write_bytes, c.wbytes));
        for (i, n) in ["entries_under_128", "entries_under_1k", "entries_under_8k", "entries_under_32k", "entries_over_32k"]
            .into_iter()
            .enumerate()
        {
            v.push((n, h[i], c.hist[i]));
        }
        ctx.count("counter_totals_compared_without_reorganisation", 1);
    }
    if h.iter().sum::<usize>() != st.num_write_ops {
        return w.viol("histogram", format!("the size histogram {h:?} does not add up to {} writes", st.num_write_ops));
    }
    for (what, got, want) in v {
        if got != want {
            return w.viol(what, format!("{what} is {got}, the calls made amount to {want}; {st}"));
        }
    }
    Ok(())
}

/// compactions completed by the background threads
fn bg_renames() -> u64 {
    crate::sys::BGCOUNTS[crate::sys::K::Rename as usize].load(SeqCst)
}

fn sequential(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = std_cfg(&mut r);
    let plain = r.chance(1, 2);
    let still = plain && r.chance(1, 2);
    let mut prof = full_profile(&mut r);
    prof.vmax = *r.pick(&[20usize, 140, 1100]);
    if plain {
        prof.w = [100, 0, 0, 0, 1, 1, 0, 0, 0];
        if r.chance(1, 6) {
            prof.vmax = 40_000;
        }
    } else {
        prof.w = [60, 30, 30, 3, 1, 2, 1, 2, 1];
        fit(&mut cfg, 66_000);
    }
    fit(&mut cfg, prof.vmax);
    if still {
        // nothing is ever reorganised
        cfg.max_shard = 60_000_000;
        cfg.min_compact = 50_000_000;
        cfg.truncate_up = false;
        prof.w[4] = r.below(2) as u32;
        prof.w[5] = 0;
    }
    let n = *r.pick(&[6usize, 40, 150]);
    let pool = Pool::new(&mut r, &cfg.seed, n);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    w.open()?;
    w.gate(r.chance(3, 5));
    let mut g = Gen::new(&pool, prof, &mut r);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let (mut c, mut all) = (Cnt::default(), Cnt::default());
    let mut base = shard_files(&w.dir).len();
    let mut splits = true;
    let mut compactions = bg_renames();
    let nops = 100 + r.usize(700);
    for _ in 0..nops {
        let mut op = g.op(&w.m, &mut r);
        if still && r.chance(1, 6) {
            // sizes around the limits of the histogram
            if let Op::Set(k, v) | Op::Goc(k, v) | Op::Replace(k, v, _) = &mut op {
                let lim = *r.pick(&[128usize, 1024, 8192, 32768]) + r.usize(3) - 1;
                v.resize(lim.saturating_sub(k.len() + 1), b'h');
            }
        }
        c.op(&w.m, &op);
        all.op(&w.m, &op);
        w.step(&op, &mut r)?;
        w.background(&mut r);
        match op {
            Op::Clear => {
                base = shard_files(&w.dir).len();
                splits = true;
                compactions = bg_renames();
            }
            Op::Merge(_) => splits = false,
            _ => {}
        }
        if r.chance(1, 60) {
            let gated = w.gated;
            let st = contents(ctx, &mut w)?;
            totals(ctx, &w, &st, &c, &all, plain, still)?;
            if st.num_compactions as u64 != bg_renames() - compactions {
                return w.viol(
                    "num_compactions",
                    format!("num_compactions is {}, {} compactions were completed", st.num_compactions, bg_renames() - compactions),
                );
            }
            if splits && st.num_splits != st.num_shards - base {
                return w.viol("num_splits", format!("num_splits is {}, {base} shards have become {}", st.num_splits, st.num_shards));
            }
            if r.chance(1, 4) {
                w.gate(false);
                if r.chance(1, 2) && !still {
                    w.close()?;
                    w.cfg = mutate_cfg(&w.cfg, &mut r);
                    w.open()?;
                } else {
                    w.reopen()?;
                }
                c = Cnt::default();
                base = shard_files(&w.dir).len();
                splits = true;
                compactions = bg_renames();
                let st = contents(ctx, &mut w)?;
                totals(ctx, &w, &st, &c, &all, plain, still)?;
                ctx.count("reopens", 1);
            }
            w.gate(gated);
        }
    }
    let st = contents(ctx, &mut w)?;
    totals(ctx, &w, &st, &c, &all, plain, still)?;
    w.gate(false);
    w.verify(&mut r, "contents")?;
    if r.chance(1, 2) {
        w.emptied(ctx, &mut r)?;
    }
    w.finish(ctx)
}

fn concurrent(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    let still = r.chance(1, 3);
    let vmax = *r.pick(&[8usize, 150, 600]);
    if still {
        cfg.max_shard = 60_000_000;
        cfg.min_compact = 50_000_000;
        cfg.truncate_up = false;
    }
    fit(&mut cfg, vmax);
    let n = 3 + r.usize(40);
    let keys = Pool::new(&mut r, &cfg.seed, n).keys;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let s = w.s.clone().unwrap();
    let threads = 2 + r.usize(6);
    let ops = 40 + r.usize(200);
    let merger = r.chance(1, 3) && !still;
    w.desc = format!("{} [threads={threads} ops={ops} keys={n} merger={merger} vmax={vmax}]", Chaos::on(&mut r));
    tick(|| format!("concurrent operations and statistics, {} {}", w.cfg.short(), w.desc));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    type F<'a> = Box<dyn FnOnce() -> Result<Cnt, String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    let left = AtomicU64::new(threads as u64);
    let stop = AtomicBool::new(false);
    let asked = AtomicU64::new(0);
    for t in 0..threads {
        let (s, keys, left, stop, seed) = (&s, &keys, &left, &stop, r.next());
        fs.push(Box::new(move || {
            struct D<'a>(&'a AtomicU64, &'a AtomicBool);
            impl<'a> Drop for D<'a> {
                fn drop(&mut self) {
                    if self.0.fetch_sub(1, SeqCst) == 1 {
                        self.1.store(true, SeqCst);
                    }
                }
            }
            let _d = D(left, stop);
            let mut r = Rng::new(seed);
            crate::sys::seed_thread(r.next());
            let mut c = Cnt::default();
            let e = |e: ErrT| format!("error from a valid call: {e:#}");
            for i in 0..ops {
                tickn();
                let k = r.pick(keys);
                let v = format!("{t}.{i}.{}", "x".repeat(r.usize(vmax + 1))).into_bytes();
                match r.weighted(&[30, 12, 6, 18, 10, 14]) {
                    0 => match s.set(k, &v).map_err(e)? {
                        SetStatus::CreatedNew => c.insert(k, &v),
                        SetStatus::PrevValue(p) => c.update(k, &v, &p),
                    },
                    1 => c.look(s.get(k).map_err(e)?.is_some()),
                    2 => c.look(s.contains(k).map_err(e)?),
                    3 => c.rem += s.remove(k).map_err(e)?.is_some() as usize,
                    4 => {
                        if let ReplaceStatus::PrevValue(p) = s.replace(k, &v, None).map_err(e)? {
                            c.update(k, &v, &p)
                        }
                    }
                    _ => match s.get_or_create(k, &v).map_err(e)? {
                        GetOrCreateStatus::CreatedNew(_) => c.insert(k, &v),
                        GetOrCreateStatus::ExistingValue(_) => c.pos += 1,
                    },
                }
            }
            Ok(c)
        }));
    }
    for i in 0..1 + merger as usize {
        let (s, stop, asked, seed) = (&s, &stop, &asked, r.next());
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            while !stop.load(SeqCst) {
                if i == 1 {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(2000)));
                    s.merge_small_shards(0.3).map_err(|e| format!("merge_small_shards returned an error: {e:#}"))?;
                    continue;
                }
                let st = s.stats();
                let big = 1usize << 50;
                for (n, x) in [
                    ("num_entries", st.num_entries()),
                    ("data_bytes", st.data_bytes()),
                    ("average_entry_size", st.average_entry_size()),
                    ("total_occupied_bytes", st.total_occupied_bytes()),
                    ("required_num_shards", st.required_num_shards()),
                ] {
                    if x > big {
                        return Err(format!("statistics taken concurrently: {n} is {x}; {st}"));
                    }
                }
                asked.fetch_add(1, SeqCst);
                if r.chance(1, 3) {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(300)));
                }
            }
            Ok(Cnt::default())
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    drop(s);
    let mut c = Cnt::default();
    for x in res {
        c.add(&w.chk("concurrent call", x)?);
    }
    w.nops += (threads * ops) as u64;
    ctx.count("statistics_taken_concurrently", asked.load(SeqCst));
    let st = contents(ctx, &mut w)?;
    totals(ctx, &w, &st, &c, &c, true, still)?;
    if !merger && st.num_splits != st.num_shards.saturating_sub(if w.cfg.expected == 0 { 1 } else { crate::merge::needed_shards(w.cfg.expected) }) {
        return w.viol("num_splits", format!("num_splits is {}, there are {} shards", st.num_splits, st.num_shards));
    }
    w.reopen()?;
    contents(ctx, &mut w)?;
    w.finish(ctx)
}

pub fn c12(ctx: &mut Ctx, case: u64) -> VR {
    if case % 3 == 2 {
        concurrent(ctx, case)
    } else {
        sequential(ctx, case)
    }
}
