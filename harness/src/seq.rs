//! Sequential differential histories: the store against the specification model, call by call.
use crate::model::*;
use crate::run::*;
use crate::sys;
use crate::util::*;
use candystore::*;
use std::result::Result;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::PathBuf;
use std::sync::Arc;

pub struct World {
    pub dir: PathBuf,
    pub cfg: Cfg,
    pub s: Option<Arc<CandyStore>>,
    pub m: Model,
    pub typed: BTreeMap<u64, String>,
    pub log: VecDeque<String>,
    pub gated: bool,
    pub desc: String,
    pub nops: u64,
    /// lists and queues (or big values) that were ever there
    pub names: BTreeSet<(char, B)>,
}
impl World {
    pub fn new(dir: PathBuf, cfg: Cfg) -> World {
        fresh(&dir);
        World {
            dir,
            cfg,
            s: None,
            m: Model::default(),
            typed: BTreeMap::new(),
            log: VecDeque::new(),
            gated: false,
            desc: String::new(),
            nops: 0,
            names: BTreeSet::new(),
        }
    }
    pub fn st(&self) -> &CandyStore {
        self.s.as_ref().unwrap()
    }
    pub fn note(&mut self, s: String) {
        if std::env::var_os("CV_LOG").is_some() {
            eprintln!("{s}");
        }
        if self.log.len() >= 12 {
            self.log.pop_front();
        }
        self.log.push_back(s);
    }
    pub fn viol<T>(&self, sig: &str, detail: impl Into<String>) -> VR<T> {
        let d: String = detail.into();
        viol(
            sig,
            format!(
                "{d} | after {} calls on [{}] {} | last calls: {}",
                self.nops,
                self.cfg.short(),
                self.desc,
                self.log.iter().cloned().collect::<Vec<_>>().join("; ")
            ),
        )
    }
    pub fn chk<T>(&mut self, sig: &str, r: Result<R<T>, String>) -> VR<T> {
        match r {
            Err(p) => self.viol(&sig_of(&p), p),
            Ok(Err(e)) => self.viol(sig, e),
            Ok(Ok(v)) => Ok(v),
        }
    }
    pub fn open(&mut self) -> VR {
        self.note("open".into());
        tick(|| "open".into());
        let (d, c) = (self.dir.clone(), self.cfg.cfg());
        let r = guard(|| in_op(|| CandyStore::open(&d, c)));
        let r = r.map(|x| x.map_err(|e| format!("open returned an error: {e:#}")));
        self.s = Some(Arc::new(self.chk("open", r)?));
        Ok(())
    }
    pub fn close(&mut self) -> VR {
        self.note("close".into());
        tick(|| "close".into());
        let s = self.s.take();
        let r = guard(|| in_op(|| drop(s)));
        self.chk("close", r.map(Ok))
    }
    pub fn reopen(&mut self) -> VR {
        self.close()?;
        self.open()
    }
    pub fn step(&mut self, op: &Op, r: &mut Rng) -> VR {
        self.nops += 1;
        self.note(op.brief());
        tick(|| op.brief());
        let s = self.s.clone().unwrap();
        let m = &mut self.m;
        let x = guard(|| in_op(|| m.apply(&s, op, r)));
        match op {
            Op::Clear => {
                self.typed.clear();
                self.names.clear();
            }
            Op::LSet(n, ..) | Op::LPromote(n, ..) | Op::LGoc(n, ..) => {
                self.names.insert(('l', n.clone()));
            }
            Op::QPush(n, ..) | Op::QExtend(n, ..) => {
                self.names.insert(('q', n.clone()));
            }
            Op::BSet(n, ..) => {
                self.names.insert(('b', n.clone()));
            }
            _ => {}
        }
        self.chk(op.kind(), x)
    }
    /// removes and discards all there is: nothing may be left behind
    pub fn emptied(&mut self, ctx: &mut Ctx, r: &mut Rng) -> VR {
        let keys: Vec<B> = self.m.kv.keys().cloned().collect();
        let mut ops: Vec<Op> = keys.into_iter().map(Op::Remove).collect();
        for (kind, n) in std::mem::take(&mut self.names) {
            ops.push(match kind {
                'l' => Op::LDiscard(n),
                'q' => Op::QDiscard(n),
                _ => Op::BRemove(n),
            });
        }
        for op in ops {
            self.step(&op, r)?;
            self.background(r);
        }
        let st = self.quiesce()?;
        let raw = self.raw()?;
        let n = st.num_entries();
        ctx.count("emptied_stores", 1);
        if n != 0 || st.data_bytes() != 0 || !raw.is_empty() {
            return self.viol(
                "left behind",
                format!(
                    "everything was removed or discarded, {n} entries of {} bytes are reported and {} are there, such as {}",
                    st.data_bytes(),
                    raw.len(),
                    raw.first().map(|x| show(&x.0)).unwrap_or_default()
                ),
            );
        }
        Ok(())
    }
    pub fn verify(&mut self, r: &mut Rng, sig: &str) -> VR {
        tick(|| "verifying the whole contents".into());
        let s = self.s.clone().unwrap();
        let m = &mut self.m;
        let x = guard(|| in_op(|| m.verify(&s, r)));
        self.chk(sig, x)?;
        if !self.typed.is_empty() {
            let t = CandyTypedStore::<u64, String>::new(self.s.clone().unwrap());
            let typed = self.typed.clone();
            let x = guard(|| {
                in_op(|| -> R {
                    for (k, v) in &typed {
                        let g = t.get(k).map_err(|e| format!("typed get({k}) returned an error: {e:#}"))?;
                        if g.as_ref() != Some(v) {
                            return Err(format!("typed get({k}) returned {g:?}, expected {v:?}"));
                        }
                    }
                    Ok(())
                })
            });
            self.chk(sig, x)?;
        }
        Ok(())
    }
    pub fn typed_step(&mut self, r: &mut Rng) -> VR {
        self.nops += 1;
        let t = CandyTypedStore::<u64, String>::new(self.s.clone().unwrap());
        let k = r.below(20);
        let v = format!("t{}", r.next() >> r.below(60));
        let typed = &mut self.typed;
        let which = r.below(3);
        let x = guard(|| {
            in_op(|| -> R {
                let e = |e: anyhow_like::E| format!("typed operation returned an error: {e:#}");
                match which {
                    0 => {
                        let got = t.set(&k, &v).map_err(e)?;
                        let want = typed.insert(k, v.clone());
                        if got != want {
                            return Err(format!("typed set({k}) returned {got:?}, expected {want:?}"));
                        }
                    }
                    1 => {
                        let got = t.get(&k).map_err(e)?;
                        if got.as_ref() != typed.get(&k) {
                            return Err(format!("typed get({k}) returned {got:?}, expected {:?}", typed.get(&k)));
                        }
                    }
                    _ => {
                        let got = t.remove(&k).map_err(e)?;
                        let want = typed.remove(&k);
                        if got != want {
                            return Err(format!("typed remove({k}) returned {got:?}, expected {want:?}"));
                        }
                    }
                }
                Ok(())
            })
        });
        self.note(format!("typed op {which} on key {k}"));
        self.chk("typed", x)
    }
    /// background thread control between calls
    pub fn background(&mut self, r: &mut Rng) {
        if !self.gated {
            return;
        }
        match r.below(40) {
            0 => {
                sys::gate_pump(1 + r.below(30) as i64);
            }
            1 => {
                sys::gate_pump(200);
            }
            2 => {
                // finish it
                sys::gate_open();
                let t = std::time::Instant::now();
                while !sys::bg_idle() && t.elapsed().as_millis() < 100 {
                    std::thread::yield_now();
                }
                sys::gate_close();
            }
            _ => {}
        }
    }
    pub fn gate(&mut self, on: bool) {
        self.gated = on;
        if on {
            sys::flags_on(sys::F_GATE);
            sys::gate_close();
        } else {
            sys::gate_open();
            sys::flags_off(sys::F_GATE);
        }
    }
    pub fn quiesce(&mut self) -> VR<Stats> {
        sys::gate_open();
        let s = self.s.clone().unwrap();
        tick(|| "stats".into());
        let x = guard(|| in_op(|| s.stats()));
        self.chk("stats", x.map(Ok))
    }
    pub fn finish(&mut self, ctx: &mut Ctx) -> VR {
        let st = self.quiesce()?;
        ctx.count("calls_compared", self.nops);
        let reorg = sys::REORG.swap(0, std::sync::atomic::Ordering::SeqCst);
        ctx.count("renames_by_splits_and_compactions", reorg);
        ctx.max("max_shards", st.num_shards as u64);
        ctx.max("max_bytes_per_shard", (st.occupied_bytes / st.num_shards.max(1)) as u64);
        let h = sys::TRACE_HASH.swap(0, std::sync::atomic::Ordering::SeqCst);
        if reorg > 0 {
            ctx.distinct.insert(h);
        }
        self.close()
    }
    /// all raw (internal) entries
    pub fn raw(&mut self) -> VR<Vec<(B, B)>> {
        let s = self.s.clone().unwrap();
        let x = guard(|| {
            in_op(|| -> R<Vec<(B, B)>> {
                let mut v = vec![];
                for e in s.iter_raw() {
                    v.push(e.map_err(|e| format!("iter_raw returned an error: {e:#}"))?);
                    if v.len() > 3_000_000 {
                        return Err("iter_raw does not end".into());
                    }
                }
                Ok(v)
            })
        });
        self.chk("iter_raw", x)
    }
}
pub mod anyhow_like {
    pub type E = candystore_error::E;
    pub mod candystore_error {
        /// the error type of `candystore::Result`
        pub type E = <candystore::Result<()> as super::super::ErrOf>::E;
    }
}
pub trait ErrOf {
    type E;
}
impl<T, E> ErrOf for std::result::Result<T, E> {
    type E = E;
}

pub fn begin(ctx: &Ctx) {
    sys::set_root(Some(&ctx.case_dir()));
    sys::set_class(1);
    sys::flags_on(sys::F_HASH);
    sys::TRACE_HASH.store(0, std::sync::atomic::Ordering::SeqCst);
    sys::REORG.store(0, std::sync::atomic::Ordering::SeqCst);
}

pub fn std_cfg(r: &mut Rng) -> Cfg {
    match r.below(12) {
        0 => Cfg { threads: 2, truncate_up: r.chance(1, 2), ..Cfg::default() },
        _ => Cfg::tiny(r),
    }
}

/// the smallest sensible shards for entries up to `vmax`
pub fn fit(cfg: &mut Cfg, vmax: usize) {
    let need = (vmax as u32 + 700) * 3;
    if cfg.max_shard < need {
        cfg.max_shard = need;
        cfg.min_compact = cfg.min_compact.max(need / 8);
    }
}

pub fn c01(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = std_cfg(&mut r);
    let mut npool = *r.pick(&[6usize, 30, 30, 120, 300]);
    let mut nops = 300 + r.usize(900);
    let big = case % 16 == 7;
    let mut prof = Profile { grow: *r.pick(&[30, 50, 70, 90]), ..Profile::default() };
    prof.vmax = *r.pick(&[0usize, 30, 200, 600]);
    prof.w = [100, 0, 0, 0, 0, 1, 1, 1, 1];
    if big {
        // full rows: more than a row's width of keys in one row
        npool = 1100;
        nops = 2600;
        prof.grow = 93;
        prof.vmax = 12;
        cfg = Cfg { threads: 1, max_shard: 4 << 20, min_compact: 20_000, seed: cfg.seed, ..Cfg::default() };
    }
    // exactly full rows, which are compacted as such: updates only, until there's enough waste
    let exact = case % 32 == 23;
    if exact {
        npool = 512;
        cfg.min_compact = *r.pick(&[2_000u32, 8_000]);
    }
    // shards of many megabytes: offsets with many bits
    let wide = case % 16 == 11;
    if wide {
        let mb = *r.pick(&[20u32, 20, 36, 36, 70, 270]);
        let mb = if ctx.thorough && case % 256 == 11 { 2200 } else { mb };
        cfg = Cfg { threads: 2, max_shard: (mb + 2) << 20, min_compact: (mb << 20) / 10 * 9, truncate_up: r.chance(1, 2), seed: cfg.seed, ..Cfg::default() };
        npool = 60;
        nops = mb as usize * 35;
        prof.vmax = 65_000;
        prof.grow = 85;
        prof.w = [100, 0, 0, 0, 0, 0, 0, 0, 0];
    } else if r.chance(1, 10) {
        prof.vmax = 30_000;
        nops = 150;
    }
    fit(&mut cfg, prof.vmax);
    let pool = if big { Pool::with_style(&mut r, &cfg.seed, npool, 3) } else { Pool::new(&mut r, &cfg.seed, npool) };
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    w.open()?;
    w.gate(r.chance(3, 5));
    let mut g = Gen::new(&pool, prof, &mut r);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    for i in 0..nops {
        let op = if big && i < pool.keys.len() {
            let v = g.val(&mut r);
            Op::Set(pool.keys[i].clone(), v)
        } else if exact && i < 1500 {
            let v = g.val(&mut r);
            Op::Set(r.pick(&pool.keys).clone(), v)
        } else if wide && r.chance(2, 3) {
            let (k, n) = (r.pick(&pool.keys).clone(), 65_000 - r.usize(20_000));
            let mut v = g.val(&mut r);
            v.resize(n, i as u8);
            Op::Set(k, v)
        } else {
            g.op(&w.m, &mut r)
        };
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    w.verify(&mut r, "contents")?;
    w.quiesce()?;
    w.verify(&mut r, "contents after compaction")?;
    w.finish(ctx)
}

pub fn full_profile(r: &mut Rng) -> Profile {
    Profile {
        w: [60, 30, 30, 4, 0, 1, 1, 2, 1],
        vmax: *r.pick(&[20usize, 200, 600]),
        grow: *r.pick(&[40, 60, 80]),
        nlists: 1 + r.usize(4),
        nitems: 4 + r.usize(20),
        compact_lists: true,
        promote: true,
        discard: true,
    }
}

/// everything except the hash seed may change between opens
pub fn mutate_cfg(c: &Cfg, r: &mut Rng) -> Cfg {
    let mut n = Cfg::tiny(r);
    n.seed = c.seed;
    if r.chance(1, 3) {
        return c.clone();
    }
    // an entry accepted earlier must still fit
    n.max_shard = n.max_shard.max(c.max_shard.min(210_000));
    if r.chance(1, 4) {
        n.max_shard = c.max_shard.saturating_mul(3).min(1 << 20).max(n.max_shard);
    }
    n
}

pub fn c02(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = std_cfg(&mut r);
    let prof = full_profile(&mut r);
    fit(&mut cfg, 66_000);
    if r.chance(1, 2) {
        cfg.max_shard = 220_000;
    }
    let n = *r.pick(&[10usize, 60, 200]);
    let pool = Pool::new(&mut r, &cfg.seed, n);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {}", pool.style);
    let mut g = Gen::new(&pool, prof, &mut r);
    let cycles = 2 + r.usize(5);
    ctx.sample(|| format!("{} {} cycles={cycles}", w.cfg.short(), w.desc));
    for c in 0..cycles {
        w.open()?;
        if c > 0 {
            if r.chance(2, 3) {
                w.verify(&mut r, "contents after reopening")?;
            }
            ctx.count("reopens", 1);
        }
        w.gate(r.chance(1, 2));
        let n = *r.pick(&[1usize, 20, 150, 300]);
        for _ in 0..n {
            if r.chance(1, 12) {
                w.typed_step(&mut r)?;
            }
            let op = g.op(&w.m, &mut r);
            w.step(&op, &mut r)?;
            w.background(&mut r);
        }
        if r.chance(1, 3) {
            w.verify(&mut r, "contents before closing")?;
        }
        if c + 1 == cycles {
            break;
        }
        w.close()?;
        let mc = mutate_cfg(&w.cfg, &mut r);
        w.cfg = mc;
        // leave no mode on while closed
        w.gate(false);
    }
    w.gate(false);
    w.reopen()?;
    w.verify(&mut r, "contents after reopening")?;
    w.finish(ctx)
}

/// a few changes between the steps of an iteration
fn change(w: &mut World, g: &mut Gen, r: &mut Rng, lists: bool) -> VR<Option<Op>> {
    use Op::*;
    for _ in 0..20 {
        let op = g.op(&w.m, r);
        let fits = if lists {
            matches!(op, LSet(..) | LPromote(..) | LRemove(..) | LReplace(..) | LGoc(..) | LPop(..) | LDiscard(..) | LGet(..))
        } else {
            matches!(op, QPush(..) | QPop(..) | QRemove(..) | QDiscard(..) | QExtend(..) | QLen(..))
        };
        if fits {
            w.step(&op, r)?;
            w.background(r);
            return Ok(Some(op));
        }
    }
    Ok(None)
}
/// the queue iterator covers the indices the queue had when it was created, whatever happens afterwards
fn walk_queue(ctx: &mut Ctx, w: &mut World, g: &mut Gen, r: &mut Rng) -> VR {
    let q = r.pick(&g.queue_names).clone();
    let s = w.s.clone().unwrap();
    let fwd = r.chance(1, 2);
    let x = guard(|| in_op(|| s.queue_range(&q).map_err(|e| format!("queue_range: {e:#}"))));
    let mut left = w.chk("queue_range", x)?;
    let mut it = if fwd { s.iter_queue(&q) } else { s.iter_queue_backwards(&q) };
    let busy = r.below(4);
    ctx.count("walks_with_changes_between", 1);
    let mut log = vec![];
    loop {
        while r.below(5) < busy {
            if let Some(op) = change(w, g, r, false)? {
                log.push(op.brief());
            }
        }
        let want = {
            let items = w.m.queues.get(&q).map(|m| &m.items);
            let mut e: Box<dyn Iterator<Item = &(u64, B)>> = match items {
                None => Box::new(std::iter::empty()),
                Some(i) if fwd => Box::new(i.iter()),
                Some(i) => Box::new(i.iter().rev()),
            };
            e.find(|e| left.contains(&(e.0 as usize))).map(|e| (e.0 as usize, e.1.clone()))
        };
        let got = guard(|| in_op(|| it.next().transpose().map_err(|e| format!("iter_queue: {e:#}"))));
        let got = w.chk("iter_queue", got)?;
        if got != want {
            let sh = |x: &Option<(usize, B)>| x.as_ref().map(|x| (format!("{:x}", x.0), show(&x.1)));
            let n = log.len();
            return w.viol(
                "walk",
                format!(
                    "iter_queue{} of {} with changes between its steps returned {:x?}, expected {:x?} (indices {left:x?} of the range at its creation are left); changes: {}",
                    if fwd { "" } else { "_backwards" },
                    show(&q),
                    sh(&got),
                    sh(&want),
                    log[n.saturating_sub(8)..].join("; ")
                ),
            );
        }
        match got {
            None => return Ok(()),
            Some((i, _)) if fwd => left.start = i + 1,
            Some((i, _)) => left.end = i,
        }
        log.push(format!("[step to {:x?}]", left));
    }
}
/// a list iterator returns what stays in the list exactly once and in order, and nothing that isn't in it
fn walk_list(ctx: &mut Ctx, w: &mut World, g: &mut Gen, r: &mut Rng) -> VR {
    let l = r.pick(&g.list_names).clone();
    let s = w.s.clone().unwrap();
    let fwd = r.chance(1, 2);
    let mut it = if fwd { s.iter_list(&l) } else { s.iter_list_backwards(&l) };
    let busy = r.below(4);
    ctx.count("walks_with_changes_between", 1);
    let mut log: Vec<String> = vec![];
    let mut stable: Option<Vec<B>> = None;
    let mut got: Vec<B> = vec![];
    let bad = |w: &World, m: String, log: &[String]| {
        w.viol(
            "walk",
            format!(
                "iter_list{} of {} with changes between its steps: {m}; changes: {}",
                if fwd { "" } else { "_backwards" },
                show(&l),
                log[log.len().saturating_sub(12)..].join("; ")
            ),
        )
    };
    loop {
        while r.below(5) < busy {
            if let Some(op) = change(w, g, r, true)? {
                log.push(op.brief());
                let m = &w.m;
                if let Some(st) = stable.as_mut() {
                    st.retain(|k| {
                        m.lists.get(&l).map(|x| x.items.iter().any(|i| &i.0 == k)).unwrap_or(false)
                            && !matches!(&op, Op::LPromote(l2, k2, _) if *l2 == l && k2 == k)
                    });
                }
            }
        }
        if stable.is_none() {
            // it looks at the list when it is first used
            let mut v: Vec<B> = w.m.lists.get(&l).map(|x| x.items.iter().map(|i| i.0.clone()).collect()).unwrap_or_default();
            if !fwd {
                v.reverse();
            }
            stable = Some(v);
        }
        let x = guard(|| in_op(|| it.next().transpose().map_err(|e| format!("iter_list: {e:#}"))));
        let Some((k, v)) = w.chk("iter_list", x)? else { break };
        let cur = w.m.lists.get(&l).and_then(|x| x.items.iter().find(|i| i.0 == k)).map(|i| i.1.clone());
        if cur.as_ref() != Some(&v) {
            return bad(w, format!("it returned {}={}, which is {}", show(&k), show(&v), show_opt(&cur)), &log);
        }
        if stable.as_ref().unwrap().contains(&k) && got.contains(&k) {
            return bad(w, format!("it returned {} twice", show(&k)), &log);
        }
        log.push(format!("[{}]", show(&k)));
        got.push(k);
        if got.len() > 5000 {
            return bad(w, "it does not end".into(), &log);
        }
    }
    let stable = stable.unwrap();
    let seen: Vec<B> = got.iter().filter(|k| stable.contains(k)).cloned().collect();
    if seen != stable {
        let f = |v: &[B]| v.iter().map(|k| show(k)).collect::<Vec<_>>().join(",");
        return bad(w, format!("of the items {} that were in it throughout, it returned {}", f(&stable), f(&seen)), &log);
    }
    Ok(())
}
/// a long collection with long runs of holes in it
fn holes(ctx: &mut Ctx, w: &mut World, g: &mut Gen, r: &mut Rng, lists: bool) -> VR {
    let name = if lists { g.list_names[0].clone() } else { g.queue_names[0].clone() };
    let n = 60 + { let m = *r.pick(&[100, 200, 400, 800, 2500]); r.usize(m) };
    let mut i = 0;
    while i < n {
        let v = r.next().to_le_bytes()[..r.usize(9)].to_vec();
        if lists {
            w.step(&Op::LSet(name.clone(), format!("h{i}").into_bytes(), v), r)?;
            i += 1;
        } else if r.chance(1, 40) {
            let k = 1 + r.usize(80);
            w.step(&Op::QExtend(name.clone(), vec![v; k]), r)?;
            i += k;
        } else {
            let head = r.chance(1, 4);
            w.step(&Op::QPush(name.clone(), v, head), r)?;
            i += 1;
        }
        w.background(r);
    }
    for _ in 0..1 + r.usize(3) {
        let items: Vec<(u64, B)> = if lists {
            w.m.lists.get(&name).map(|l| l.items.iter().map(|i| (0, i.0.clone())).collect()).unwrap_or_default()
        } else {
            w.m.queues.get(&name).map(|q| q.items.iter().map(|i| (i.0, vec![])).collect()).unwrap_or_default()
        };
        if items.len() < 3 {
            break;
        }
        // mostly right behind the head, or right before the tail
        let len = 1 + r.usize(items.len() - 2);
        let lo = match r.below(3) {
            0 => 1,
            1 => items.len() - 1 - len,
            _ => r.usize(items.len() - len),
        };
        let mut run: Vec<usize> = (lo..lo + len).collect();
        match r.below(3) {
            0 => run.reverse(),
            1 => {
                for i in (1..run.len()).rev() {
                    run.swap(i, r.usize(i + 1));
                }
            }
            _ => {}
        }
        for i in run {
            let op = if lists { Op::LRemove(name.clone(), items[i].1.clone()) } else { Op::QRemove(name.clone(), items[i].0) };
            w.step(&op, r)?;
            w.background(r);
        }
        ctx.max("holes_in_a_row", len as u64);
        for _ in 0..6 {
            let fwd = r.chance(1, 2);
            let op = match (r.below(5), lists) {
                (0, true) => Op::LPeek(name.clone(), fwd),
                (0, false) => Op::QPeek(name.clone(), fwd),
                (1, true) => Op::LPop(name.clone(), fwd),
                (1, false) => Op::QPop(name.clone(), fwd),
                (2, true) => Op::LIter(name.clone(), fwd),
                (2, false) => Op::QIter(name.clone(), fwd),
                (3, true) => Op::LLen(name.clone()),
                (3, false) => Op::QLen(name.clone()),
                (_, true) if r.chance(1, 3) => Op::LCompact(name.clone(), r.below(200), r.below(100) as f64 / 100.0),
                (_, true) => Op::LSet(name.clone(), format!("h{}", r.usize(n)).into_bytes(), vec![9]),
                (_, false) => Op::QPush(name.clone(), vec![9], fwd),
            };
            w.step(&op, r)?;
        }
        if lists {
            walk_list(ctx, w, g, r)?;
        } else {
            walk_queue(ctx, w, g, r)?;
        }
    }
    Ok(())
}
fn collections(ctx: &mut Ctx, case: u64, lists: bool) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = std_cfg(&mut r);
    let mut prof = full_profile(&mut r);
    prof.w = if lists { [8, 100, 0, 0, 0, 1, 0, 1, 0] } else { [8, 0, 100, 2, 0, 1, 0, 1, 0] };
    prof.nlists = 1 + r.usize(3);
    prof.discard = r.chance(3, 4);
    let long = case % 8 == 3;
    if long {
        prof.nitems = 120;
        prof.nlists = 1;
        prof.discard = false;
    }
    fit(&mut cfg, if lists { prof.vmax + 600 } else { 66_000 });
    let with_holes = case % 8 == 6;
    if with_holes {
        cfg.max_shard = cfg.max_shard.max(60_000);
    }
    let pool = Pool::new(&mut r, &cfg.seed, 20);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("names: {}", pool.style);
    let mut g = Gen::new(&pool, prof, &mut r);
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let n = 200 + r.usize(700);
    if long && !lists {
        // a queue two of whose entries have coinciding hashes, kept long
        if w.cfg.seed == *DEFAULT_SEED {
            g.queue_names = vec![COLL_QUEUE[0].0.to_le_bytes().to_vec()];
        }
        for _ in 0..50 {
            let v = g.val(&mut r);
            w.step(&Op::QPush(g.queue_names[0].clone(), v, false), &mut r)?;
        }
    }
    if with_holes {
        holes(ctx, &mut w, &mut g, &mut r, lists)?;
        w.verify(&mut r, "contents")?;
        if r.chance(5, 6) {
            let op = if lists { Op::LDiscard(g.list_names[0].clone()) } else { Op::QDiscard(g.queue_names[0].clone()) };
            w.step(&op, &mut r)?;
        }
    }
    for i in 0..n {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
        w.background(&mut r);
        if r.chance(1, 30) {
            if lists {
                walk_list(ctx, &mut w, &mut g, &mut r)?;
            } else {
                walk_queue(ctx, &mut w, &mut g, &mut r)?;
            }
        }
        if i % 97 == 96 {
            w.verify(&mut r, "contents")?;
        }
    }
    w.verify(&mut r, "contents")?;
    if r.chance(1, 3) {
        w.reopen()?;
        w.verify(&mut r, "contents after reopening")?;
    }
    if r.chance(2, 3) {
        w.emptied(ctx, &mut r)?;
    }
    w.finish(ctx)
}
pub fn c05(ctx: &mut Ctx, case: u64) -> VR {
    collections(ctx, case, true)
}
pub fn c06(ctx: &mut Ctx, case: u64) -> VR {
    collections(ctx, case, false)
}

/// big values
pub fn c14(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    cfg.max_shard = *r.pick(&[210_000u32, 400_000, 1 << 20, 4 << 20]);
    cfg.min_compact = cfg.max_shard / *r.pick(&[2u32, 5, 10]);
    let pool = Pool::new(&mut r, &cfg.seed, 12);
    let mut prof = Profile::default();
    prof.w = [30, 0, 0, 60, 0, 1, 1, 1, 1];
    prof.nlists = 1 + r.usize(4);
    let mut w = World::new(ctx.case_dir(), cfg);
    let mut g = Gen::new(&pool, prof, &mut r);
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| w.cfg.short());
    let c = MAX_VALUE_SIZE;
    let edge = [0, 1, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 3 * c, 3 * c + 1, 10 * c];
    let n = 30 + r.usize(60);
    for i in 0..n {
        let op = if r.chance(1, 4) {
            let k = r.pick(&g.big_names).clone();
            let l = edge[(i + case as usize) % edge.len()];
            Op::BSet(k, r.bytes(l))
        } else {
            g.op(&w.m, &mut r)
        };
        let key = match &op {
            Op::BSet(k, _) | Op::BRemove(k) => Some(k.clone()),
            _ => None,
        };
        w.step(&op, &mut r)?;
        if let Some(k) = key {
            w.step(&Op::BGet(k), &mut r)?;
        }
        w.background(&mut r);
        if i % 20 == 19 {
            w.verify(&mut r, "contents")?;
        }
        if r.chance(1, 40) {
            w.reopen()?;
            w.verify(&mut r, "contents after reopening")?;
        }
    }
    // after removing everything no chunk may be left
    for k in w.m.big.keys().cloned().collect::<Vec<_>>() {
        w.step(&Op::BRemove(k.clone()), &mut r)?;
        w.step(&Op::BGet(k), &mut r)?;
    }
    let raw = w.raw()?;
    let total: usize = raw.iter().map(|e| e.0.len() + e.1.len()).sum();
    let live: usize = w.m.kv.iter().map(|e| e.0.len() + e.1.len() + 64).sum();
    if total > live {
        let d = format!("after removing every big value {total} bytes remain stored, {live} belong to live entries");
        return w.viol("big leftovers", d);
    }
    w.finish(ctx)
}

