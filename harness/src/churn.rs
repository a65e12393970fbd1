//! C23: space under endless overwriting and removing.
use crate::conc::*;
use crate::merge::shard_files;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use candystore::*;
use std::collections::BTreeMap;
use std::result::Result;
use std::sync::atomic::{AtomicU64, Ordering::*};

/// what every key may occupy: (shard position, row, bytes)
type Univ = Vec<(u32, usize, usize)>;

struct Mon {
    emax: usize,
    spans: Vec<(u32, u32)>,
    /// spans that were shards when the store was created: those above them were never split
    initial: Vec<(u32, u32)>,
    sentinels: Vec<B>,
    tok: u64,
}

fn univ(seed: &[u8; 16], raw: &[(B, B)]) -> Univ {
    raw.iter()
        .map(|(k, v)| {
            let p = place(seed, k);
            (p.shard, p.row, k.len() + v.len())
        })
        .collect()
}
/// bytes and fullest row of what lies in a span
fn load(u: &Univ, a: u32, b: u32) -> (usize, usize) {
    let mut rows = [0usize; 64];
    let mut bytes = 0;
    for (s, r, n) in u {
        if *s >= a && *s < b {
            bytes += n;
            rows[*r] += 1;
        }
    }
    (bytes, rows.into_iter().max().unwrap())
}
/// a split takes a shard whose live data leaves no room, or a full row
fn justified(w: &World, emax: usize, slack: usize, u: &Univ, a: u32, b: u32) -> Option<String> {
    let (bytes, row) = load(u, a, b);
    let m = (w.cfg.max_shard as i64) - (w.cfg.min_compact as i64) - (slack * emax) as i64;
    if (bytes as i64) < m && row + slack < 512 {
        return Some(format!(
            "shard {a:x}-{b:x} was split although there are only {bytes} bytes of live data in it (a shard holds {}, with up to {} wasted) and at most {row} keys in a row (of 512)",
            w.cfg.max_shard, w.cfg.min_compact
        ));
    }
    None
}
/// the spans between `top` and the leaves, without the leaves
fn inner(top: (u32, u32), leaves: &[(u32, u32)], out: &mut Vec<(u32, u32)>) {
    if leaves.contains(&top) || top.1 - top.0 < 2 {
        return;
    }
    out.push(top);
    let mid = (top.0 + top.1) / 2;
    inner((top.0, mid), leaves, out);
    inner((mid, top.1), leaves, out);
}

impl Mon {
    fn new(w: &World, emax: usize) -> Mon {
        let spans = shard_files(&w.dir);
        Mon { emax, initial: spans.clone(), spans, sentinels: vec![], tok: 0 }
    }
    /// after a call in a single-threaded history: every new split must have been needed at that time
    fn splits(&mut self, ctx: &mut Ctx, w: &mut World, slack: usize) -> VR {
        let now = shard_files(&w.dir);
        if now == self.spans {
            return Ok(());
        }
        let mut v = vec![];
        for s in &self.spans {
            if !now.contains(s) && now.iter().any(|n| n.0 >= s.0 && n.1 <= s.1) {
                inner(*s, &now, &mut v);
            }
        }
        if !v.is_empty() {
            let raw = w.raw()?;
            let u = univ(&w.cfg.seed, &raw);
            for (a, b) in v {
                ctx.count("splits_judged", 1);
                if let Some(t) = justified(w, self.emax, slack, &u, a, b) {
                    return w.viol("needless split", t);
                }
            }
        }
        self.spans = now;
        Ok(())
    }
    /// whatever happened, no span may have been split that could never have been full
    fn bounded(&mut self, ctx: &mut Ctx, w: &mut World, u: &Univ, slack: usize) -> VR {
        let now = shard_files(&w.dir);
        let mut v = vec![];
        for s in &self.initial {
            inner(*s, &now, &mut v);
        }
        for (a, b) in v {
            if let Some(t) = justified(w, self.emax, slack, u, a, b) {
                return w.viol("needless split", t + ", all keys at their largest");
            }
        }
        ctx.count("shard_bounds_judged", 1);
        self.spans = now;
        Ok(())
    }
    /// one insertion into every shard, then nothing may be wasted beyond the level or left behind
    fn checkpoint(&mut self, ctx: &mut Ctx, w: &mut World, r: &mut Rng, model: bool) -> VR {
        let gated = w.gated;
        w.quiesce()?;
        let spans = shard_files(&w.dir);
        for (a, b) in &spans {
            let have = self.sentinels.iter().find(|k| {
                let p = place_user(&w.cfg.seed, k).shard;
                p >= *a && p < *b
            });
            let k = match have {
                Some(k) => k.clone(),
                None => {
                    let mut k;
                    let mut i = 0u64;
                    loop {
                        k = format!("~sentinel{a:x}:{i}").into_bytes();
                        let p = place_user(&w.cfg.seed, &k).shard;
                        if p >= *a && p < *b {
                            break;
                        }
                        i += 1;
                        if i > 2_000_000 {
                            return Ok(()); // a very narrow shard
                        }
                    }
                    self.sentinels.push(k.clone());
                    k
                }
            };
            self.tok += 1;
            w.step(&Op::Set(k, self.tok.to_le_bytes().to_vec()), r)?;
        }
        let st = w.quiesce()?;
        self.splits(ctx, w, 4)?;
        let raw = w.raw()?;
        let u = univ(&w.cfg.seed, &raw);
        let live: usize = u.iter().map(|x| x.2).sum();
        let spans = shard_files(&w.dir);
        let per = w.cfg.min_compact as usize + 2 * self.emax;
        ctx.count("checkpoints_judged", 1);
        ctx.max("max_wasted_bytes_per_shard_at_checkpoints", (st.wasted_bytes / spans.len()) as u64);
        if st.wasted_bytes > spans.len() * per {
            return w.viol(
                "waste not reclaimed",
                format!(
                    "{} bytes remain wasted in {} shards after an insertion into each, the configured level being {}; {st}",
                    st.wasted_bytes,
                    spans.len(),
                    w.cfg.min_compact
                ),
            );
        }
        if st.occupied_bytes > live + spans.len() * per {
            return w.viol(
                "occupied space",
                format!("{} bytes are occupied by {live} bytes of live data in {} shards; {st}", st.occupied_bytes, spans.len()),
            );
        }
        let mut others = vec![];
        for e in std::fs::read_dir(&w.dir).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if ["compact_", "bottom_", "top_", "merge_"].iter().any(|p| n.starts_with(p)) {
                others.push(n);
                continue;
            }
            let Some((a, b)) = n.strip_prefix("shard_").and_then(|x| x.split_once('-')) else { continue };
            let (Ok(a), Ok(b)) = (u32::from_str_radix(a, 16), u32::from_str_radix(b, 16)) else { continue };
            let len = e.metadata().map(|m| m.len() as usize).unwrap_or(0);
            let cap = Stats::FILE_HEADER_SIZE + (w.cfg.max_shard as usize).max(load(&u, a, b).0 + per) + 2 * self.emax;
            if len > cap {
                return w.viol("file size", format!("file {n} has {len} bytes, at most {cap} are accounted for; {st}"));
            }
            ctx.count("file_sizes_judged", 1);
        }
        if !others.is_empty() {
            return w.viol("leftover file", format!("files {others:?} remain although nothing is running; {st}"));
        }
        // space of files that are deleted is not free as long as they're open or mapped
        let d = w.dir.to_string_lossy().to_string();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let held: Vec<&str> = maps.lines().filter(|l| l.contains(&d) && l.contains("(deleted)")).collect();
        if !held.is_empty() {
            return w.viol("deleted file still mapped", format!("{} deleted files are still mapped: {}", held.len(), held[0]));
        }
        let mapped = maps.lines().filter(|l| l.contains(&d) && l.contains("shard_")).count();
        if mapped < spans.len() {
            return w.viol("machinery", format!("{mapped} shard files are mapped, {} are there", spans.len()));
        }
        let mut open = 0;
        for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                let t = t.to_string_lossy().to_string();
                if t.starts_with(&d) {
                    if t.contains("(deleted)") {
                        return w.viol("deleted file still open", format!("{t} is still open"));
                    }
                    open += 1;
                }
            }
        }
        if open > spans.len() + 2 {
            return w.viol("open files", format!("{open} files are open, there are {} shards", spans.len()));
        }
        if model {
            // entries that nothing refers to are not live data
            let mut most = w.m.kv.len();
            most += w.m.lists.values().map(|l| 2 * l.items.len() + 1).sum::<usize>();
            most += w.m.queues.values().map(|q| q.items.len() + 1).sum::<usize>();
            most += w.m.big.values().map(|v| v.len() / 1000 + 3).sum::<usize>();
            if raw.len() > most {
                return w.viol(
                    "entries nothing refers to",
                    format!("there are {} internal entries, the live data needs at most {most}; {st}", raw.len()),
                );
            }
            ctx.count("entry_counts_judged", 1);
        }
        if gated {
            w.gate(true);
        }
        Ok(())
    }
}

/// a shard with room for a number of entries of up to `emax` bytes, and a level of waste that leaves most of it usable
fn churn_cfg(r: &mut Rng, vmax: usize) -> (Cfg, usize) {
    let mut cfg = Cfg::tiny(r);
    let emax = vmax + 80;
    cfg.max_shard = (emax as u32 * *r.pick(&[24u32, 40, 100, 300])).clamp(2000, 400_000);
    cfg.min_compact = match r.below(4) {
        0 => cfg.max_shard / 10,
        1 => cfg.max_shard / 3,
        2 => cfg.max_shard / 20,
        _ => cfg.max_shard / 5,
    }
    .max(64);
    cfg.clear_unsupported = false;
    if cfg.expected > 60_000 {
        cfg.expected = 60_000;
    }
    (cfg, emax)
}

fn reopen(w: &mut World, r: &mut Rng, m: &mut Mon, ctx: &mut Ctx) -> VR {
    let gated = w.gated;
    let a = w.quiesce()?;
    w.close()?;
    w.cfg.locks = *r.pick(&[0u32, 1, 7, 64]);
    w.cfg.truncate_up = r.chance(1, 2);
    w.cfg.threads = 1 + r.usize(3);
    w.open()?;
    let b = w.quiesce()?;
    if (a.occupied_bytes, a.wasted_bytes, a.num_shards) != (b.occupied_bytes, b.wasted_bytes, b.num_shards) {
        return w.viol(
            "space after reopening",
            format!(
                "occupied/wasted/shards were {}/{}/{} before closing, and are {}/{}/{} after opening again",
                a.occupied_bytes, a.wasted_bytes, a.num_shards, b.occupied_bytes, b.wasted_bytes, b.num_shards
            ),
        );
    }
    m.spans = shard_files(&w.dir);
    ctx.count("reopenings_in_between", 1);
    if gated {
        w.gate(true);
    }
    Ok(())
}

fn keyset(r: &mut Rng, n: usize, tag: u64) -> Vec<B> {
    let long = r.chance(1, 3);
    (0..n)
        .map(|i| if long { format!("key-{tag:x}-{:0>40}", i).into_bytes() } else { format!("{tag:x}.{i}").into_bytes() })
        .collect()
}

/// a fixed set of keys, or a window of ever new keys, overwritten and removed for long
fn plain_churn(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let vmax = *r.pick(&[0usize, 8, 60, 300, 1000]);
    let (cfg, emax) = churn_cfg(&mut r, vmax);
    let fill = *r.pick(&[10usize, 30, 60, 90, 150, 300]);
    let n = ((cfg.max_shard as usize * fill / 100) / emax).clamp(2, 1500);
    let window = r.chance(1, 3);
    let fixed = r.chance(1, 2);
    let exact = r.chance(1, 3);
    let keys = keyset(&mut r, n, case);
    let nops = (*r.pick(&[20usize, 60, 150]) * n).clamp(600, 6000) / if exact { 3 } else { 1 };
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("{n} live keys, values up to {vmax}, window={window} fixed={fixed} exact={exact}");
    w.open()?;
    w.gate(!exact && r.chance(2, 3));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut m = Mon::new(&w, emax);
    let mut st = if exact { Some(w.quiesce()?) } else { None };
    let mut next = 0u64;
    let every = 100 + r.usize(400);
    let rm = *r.pick(&[0u64, 10, 40]);
    let back = r.chance(1, 2); // the same few values again and again
    for i in 0..nops {
        let nv = if fixed { vmax } else { r.usize(vmax + 1) };
        let mut v = r.bytes(nv);
        if back && !v.is_empty() {
            let x = v[0] % 3;
            v.iter_mut().for_each(|b| *b = x);
        }
        let op = if window {
            next += 1;
            if w.m.kv.len() > n {
                let old = format!("w{}", next as i64 - n as i64).into_bytes();
                let old = if w.m.kv.contains_key(&old) { old } else { w.m.kv.keys().next().unwrap().clone() };
                Op::Remove(old)
            } else if r.chance(1, 3) {
                Op::Goc(format!("w{next}").into_bytes(), v)
            } else {
                Op::Set(format!("w{next}").into_bytes(), v)
            }
        } else {
            let k = r.pick(&keys).clone();
            if r.below(100) < rm {
                Op::Remove(k)
            } else if r.chance(1, 8) {
                Op::Replace(k.clone(), v, if r.chance(1, 2) { w.m.kv.get(&k).cloned() } else { None })
            } else if r.chance(1, 10) {
                Op::Goc(k, v)
            } else {
                Op::Set(k, v)
            }
        };
        w.step(&op, &mut r)?;
        m.splits(ctx, &mut w, 2)?;
        if let Some(a) = &st {
            let b = w.quiesce()?;
            let wrote = match &op {
                Op::Set(k, v) | Op::Goc(k, v) | Op::Replace(k, v, _) => k.len() + 1 + v.len(),
                _ => 0,
            };
            if b.occupied_bytes > a.occupied_bytes + wrote {
                return w.viol(
                    "occupied space grew",
                    format!(
                        "{} occupied {} bytes more than before, writing {wrote}; before: {a}; after: {b}",
                        op.brief(),
                        b.occupied_bytes - a.occupied_bytes
                    ),
                );
            }
            if b.num_compactions > a.num_compactions && b.num_shards == a.num_shards {
                ctx.count("compactions_compared_exactly", 1);
            }
            // one insertion into a shard with too much waste is enough; with a single shard that's exact
            if a.num_shards == 1
                && b.num_shards == 1
                && a.wasted_bytes >= w.cfg.min_compact as usize
                && matches!(op, Op::Set(..))
                && b.wasted_bytes > 2 * emax
            {
                return w.viol(
                    "waste not reclaimed",
                    format!("{} found {} bytes wasted and left {}; {b}", op.brief(), a.wasted_bytes, b.wasted_bytes),
                );
            }
            ctx.count("steps_compared_exactly", 1);
            st = Some(b);
        }
        w.background(&mut r);
        if i % every == every - 1 {
            m.checkpoint(ctx, &mut w, &mut r, true)?;
            if r.chance(1, 6) {
                reopen(&mut w, &mut r, &mut m, ctx)?;
            }
            if st.is_some() {
                st = Some(w.quiesce()?);
            }
        }
    }
    m.checkpoint(ctx, &mut w, &mut r, true)?;
    if fixed && !window {
        let all: Vec<(B, B)> =
            keys.iter().chain(&m.sentinels).map(|k| ([k.as_slice(), &[1]].concat(), vec![0; vmax.max(8)])).collect();
        let u = univ(&w.cfg.seed, &all);
        m.bounded(ctx, &mut w, &u, 4)?;
    }
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

/// lists, queues and big values of bounded size, used for long
fn coll_churn(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let vmax = *r.pick(&[0usize, 20, 200]);
    let (cfg, _) = churn_cfg(&mut r, vmax);
    let names: Vec<B> = (0..1 + r.usize(3)).map(|i| format!("n{i}").into_bytes()).collect();
    let items: Vec<B> = (0..3 + r.usize(20)).map(|i| format!("item{i}").into_bytes()).collect();
    let kind = r.below(4);
    let nops = 500 + r.usize(2500);
    let big = vmax.max(10) * 30;
    let emax = vmax.max(if kind == 2 { 1000 } else { 0 }) + 120;
    let mut cfg = cfg;
    fit(&mut cfg, emax);
    cfg.max_shard = cfg.max_shard.max(40 * emax as u32);
    cfg.min_compact = cfg.min_compact.min(cfg.max_shard / 3).max(64);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("kind {kind}, {} names, {} items, values up to {vmax}", names.len(), items.len());
    w.open()?;
    w.gate(r.chance(2, 3));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut m = Mon::new(&w, emax);
    let every = 100 + r.usize(300);
    let limit = 2 + r.usize(30);
    for i in 0..nops {
        let nm = r.pick(&names).clone();
        let nv = r.usize(vmax + 1);
        let v = r.bytes(nv);
        let k = if kind == 3 { r.below(3) } else { kind };
        let op = match k {
            0 => {
                let it = r.pick(&items).clone();
                match r.below(9) {
                    0..=2 => Op::LSet(nm, it, v),
                    3 => Op::LPromote(nm, it, v),
                    4 => Op::LGoc(nm, it, v),
                    5 => Op::LReplace(nm, it, v, None),
                    6 => Op::LRemove(nm, it),
                    7 => Op::LPop(nm, r.chance(1, 2)),
                    _ => {
                        if r.chance(1, 12) {
                            Op::LDiscard(nm)
                        } else {
                            Op::LCompact(nm, r.below(10), r.below(3) as f64 / 3.0)
                        }
                    }
                }
            }
            1 => {
                let nm = [b"q", nm.as_slice()].concat();
                let len = w.m.queues.get(&nm).map_or(0, |q| q.items.len());
                if len >= limit || (len > 0 && r.chance(1, 2)) {
                    match r.below(16) {
                        0 => Op::QDiscard(nm),
                        1..=3 => {
                            let q = &w.m.queues[&nm].items;
                            Op::QRemove(nm.clone(), q[r.usize(q.len())].0)
                        }
                        _ => Op::QPop(nm, r.chance(1, 2)),
                    }
                } else if r.chance(1, 6) {
                    Op::QExtend(nm, (0..1 + r.usize(4)).map(|_| v.clone()).collect())
                } else {
                    Op::QPush(nm, v, r.chance(1, 2))
                }
            }
            _ => {
                let nm = [b"b", nm.as_slice()].concat();
                let n = r.usize(big * 4);
                if r.chance(1, 6) {
                    Op::BRemove(nm)
                } else {
                    Op::BSet(nm, r.bytes(n.min(w.cfg.max_shard as usize / 4)))
                }
            }
        };
        w.step(&op, &mut r)?;
        // a call of this kind may write several entries
        m.splits(ctx, &mut w, 12)?;
        w.background(&mut r);
        if i % every == every - 1 {
            m.checkpoint(ctx, &mut w, &mut r, true)?;
            if r.chance(1, 6) {
                reopen(&mut w, &mut r, &mut m, ctx)?;
            }
        }
    }
    m.checkpoint(ctx, &mut w, &mut r, true)?;
    w.verify(&mut r, "contents")?;
    w.emptied(ctx, &mut r)?;
    w.finish(ctx)
}

/// growing, shrinking and merging again and again
fn breathe(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let vmax = *r.pick(&[8usize, 60, 200]);
    let (mut cfg, emax) = churn_cfg(&mut r, vmax);
    cfg.expected = 0;
    cfg.max_shard = cfg.max_shard.min(60 * emax as u32);
    cfg.min_compact = cfg.min_compact.min(cfg.max_shard / 3);
    let n = (cfg.max_shard as usize / emax) * (2 + r.usize(5));
    let keys = keyset(&mut r, n, case);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("{n} keys come and go, values of {vmax}");
    w.open()?;
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut m = Mon::new(&w, emax);
    let mut peak = 0;
    for round in 0..2 + r.usize(4) {
        for k in &keys {
            let v = r.bytes(vmax);
            w.step(&Op::Set(k.clone(), v), &mut r)?;
            m.splits(ctx, &mut w, 2)?;
        }
        m.checkpoint(ctx, &mut w, &mut r, true)?;
        let st = w.quiesce()?;
        // the same contents at the same places: it may not take more every time
        let all: Vec<(B, B)> =
            keys.iter().chain(&m.sentinels).map(|k| ([k.as_slice(), &[1]].concat(), vec![0; vmax.max(8)])).collect();
        let u = univ(&w.cfg.seed, &all);
        m.bounded(ctx, &mut w, &u, 4)?;
        peak = peak.max(st.num_shards);
        ctx.max("max_rounds", round as u64 + 1);
        let keep = r.usize(4);
        for (i, k) in keys.iter().enumerate() {
            if keep == 0 || i % (1 << (2 * keep)) != 0 {
                w.step(&Op::Remove(k.clone()), &mut r)?;
            }
        }
        let a = w.quiesce()?;
        for _ in 0..1 + r.usize(3) {
            w.step(&Op::Merge(*r.pick(&[0.1f32, 0.3, 0.45])), &mut r)?;
        }
        let b = w.quiesce()?;
        m.spans = shard_files(&w.dir);
        ctx.count("merges_judged", 1);
        if b.num_shards < a.num_shards {
            ctx.count("merges_that_changed_shards", 1);
        }
        if b.occupied_bytes > a.occupied_bytes || b.data_bytes() != a.data_bytes() || b.num_shards > a.num_shards {
            return w.viol("merge grew the store", format!("merging went from {a} to {b}"));
        }
        m.checkpoint(ctx, &mut w, &mut r, true)?;
        if r.chance(1, 3) {
            reopen(&mut w, &mut r, &mut m, ctx)?;
        }
    }
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

/// merging again and again what cannot be merged as a row would overflow
fn crowded_rows(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let vmax = 8;
    let (mut cfg, emax) = churn_cfg(&mut r, vmax);
    cfg.expected = 0;
    cfg.max_shard = 1 << 20;
    cfg.min_compact = 40_000;
    let n = 560 + r.usize(500);
    let pool = Pool::with_style(&mut r, &cfg.seed, n, 3);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("{n} keys in one row");
    w.open()?;
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut m = Mon::new(&w, emax);
    for k in &pool.keys {
        let v = r.bytes(vmax);
        w.step(&Op::Set(k.clone(), v), &mut r)?;
    }
    w.quiesce()?;
    m.spans = shard_files(&w.dir);
    for _ in 0..1 + r.usize(3) {
        let a = w.quiesce()?;
        for _ in 0..1 + r.usize(3) {
            w.step(&Op::Merge(*r.pick(&[0.1f32, 0.3, 0.45])), &mut r)?;
        }
        let b = w.quiesce()?;
        m.spans = shard_files(&w.dir);
        ctx.count("merges_judged", 1);
        ctx.count("merges_of_crowded_rows", 1);
        if b.occupied_bytes > a.occupied_bytes || b.data_bytes() != a.data_bytes() || b.num_shards > a.num_shards {
            return w.viol("merge grew the store", format!("merging went from {a} to {b}"));
        }
        m.checkpoint(ctx, &mut w, &mut r, true)?;
        for _ in 0..r.usize(200) {
            let (k, v) = (r.pick(&pool.keys).clone(), r.bytes(vmax));
            w.step(&if r.chance(1, 9) { Op::Remove(k) } else { Op::Set(k, v) }, &mut r)?;
            m.spans = shard_files(&w.dir);
        }
    }
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

/// several threads overwrite and remove the same bounded set
fn conc_churn(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let vmax = *r.pick(&[8usize, 60, 300]);
    let (mut cfg, emax) = churn_cfg(&mut r, vmax);
    let th = 2 + r.usize(6);
    cfg.max_shard = cfg.max_shard.max((th * 8 * emax) as u32);
    cfg.min_compact = (cfg.max_shard / *r.pick(&[4, 10, 20])).max(64);
    let fill = *r.pick(&[10usize, 30, 60, 120]);
    let n = ((cfg.max_shard as usize * fill / 100) / emax).clamp(2, 800);
    let keys = keyset(&mut r, n, case);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let mut m = Mon::new(&w, emax);
    for _ in 0..1 + r.usize(3) {
        w.desc = format!("{th} threads on {n} keys, values of {vmax}; {}", Chaos::on(&mut r));
        ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
        let ops = 150 + r.usize(500);
        let done = AtomicU64::new(0);
        let merging = r.chance(1, 4);
        let s = w.s.clone().unwrap();
        tick(|| format!("concurrent churn {}", w.desc));
        let mut fs: Vec<Box<dyn FnOnce() -> Result<(), String> + Send + '_>> = vec![];
        for t in 0..th {
            let (s, keys, done) = (&s, &keys, &done);
            let seed = r.next();
            fs.push(Box::new(move || {
                let mut r = Rng::new(seed);
                sys::seed_thread(seed);
                for _ in 0..ops {
                    let k = r.pick(keys);
                    let v = r.bytes(vmax);
                    tickn();
                    let e = |e: ErrT| format!("error from a valid call: {e:#}");
                    match r.below(8) {
                        0 => drop(s.remove(k).map_err(e)?),
                        1 => drop(s.replace(k, &v, None::<&Vec<u8>>).map_err(e)?),
                        2 if merging && t == 0 => drop(s.merge_small_shards(0.4).map_err(e)?),
                        3 if t == 1 => drop(s.stats()),
                        _ => drop(s.set(k, &v).map_err(e)?),
                    }
                    done.fetch_add(1, Relaxed);
                }
                Ok(())
            }));
        }
        let mut cr = Rng::new(r.next());
        let res = parallel(fs, controller(&mut cr));
        Chaos::off();
        sys::set_class(1);
        drop(s);
        for x in res {
            w.chk("concurrent churn", x)?;
        }
        w.nops += done.load(Relaxed);
        // the contents are as they are; only the space is judged here
        w.quiesce()?;
        let mut kv = BTreeMap::new();
        let st = w.s.clone().unwrap();
        for k in keys.iter().chain(&m.sentinels) {
            if let Ok(Some(v)) = st.get(k) {
                kv.insert(k.clone(), v);
            }
        }
        drop(st);
        w.m.kv = kv;
        m.spans = shard_files(&w.dir);
        let all: Vec<(B, B)> =
            keys.iter().chain(&m.sentinels).map(|k| ([k.as_slice(), &[1]].concat(), vec![0; vmax.max(8)])).collect();
        let u = univ(&w.cfg.seed, &all);
        m.bounded(ctx, &mut w, &u, 2 + th)?;
        m.checkpoint(ctx, &mut w, &mut r, true)?;
        ctx.count("concurrent_rounds", 1);
    }
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

pub fn c23(ctx: &mut Ctx, case: u64) -> VR {
    match case % 8 {
        0..=2 => plain_churn(ctx, case),
        3 | 4 => coll_churn(ctx, case),
        5 if case % 64 == 5 => crowded_rows(ctx, case),
        5 => breathe(ctx, case),
        _ => conc_churn(ctx, case),
    }
}
