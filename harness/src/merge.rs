//! C11: merging small shards.
use crate::conc::*;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::result::Result;

const EXPECTED_CAPACITY: usize = 64 * 512 * 9 / 10;

/// spans of the shard files, sorted
pub fn shard_files(dir: &Path) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if let Some((a, b)) = n.strip_prefix("shard_").and_then(|x| x.split_once('-')) {
            if let (Ok(a), Ok(b)) = (u32::from_str_radix(a, 16), u32::from_str_radix(b, 16)) {
                v.push((a, b));
            }
        }
    }
    v.sort();
    v
}
/// the number of shards needed for so many items, as documented for the configuration
pub fn needed_shards(n: usize) -> usize {
    let step = 65536f64 / (n as f64 / EXPECTED_CAPACITY as f64).max(1.0);
    (65536 >> (step as u32).ilog2()) as usize
}

fn merge_checked(ctx: &mut Ctx, w: &mut World, f: f32) -> VR<bool> {
    let before = shard_files(&w.dir);
    w.nops += 1;
    w.note(format!("merge_small_shards({f})"));
    tick(|| format!("merge_small_shards({f})"));
    let s = w.s.clone().unwrap();
    let x = guard(|| in_op(|| s.merge_small_shards(f).map_err(|e| format!("merge_small_shards({f}) returned an error: {e:#}"))));
    drop(s);
    let got = w.chk("merge", x)?;
    let after = shard_files(&w.dir);
    ctx.count("merge_calls", 1);
    let changed = before.len() != after.len();
    if got != changed {
        return w.viol(
            "merge result",
            format!("merge_small_shards({f}) returned {got}, the number of shards went from {} to {}", before.len(), after.len()),
        );
    }
    let floor = needed_shards(w.cfg.expected).min(before.len());
    if after.len() < floor {
        return w.viol(
            "merged too much",
            format!(
                "merge_small_shards({f}) left {} shards of {}, {floor} are needed for {} expected keys",
                after.len(),
                before.len(),
                w.cfg.expected
            ),
        );
    }
    let mut at = 0;
    for (a, b) in &after {
        if *a != at {
            return w.viol("shard layout", format!("after merge_small_shards({f}) the shards are {after:x?}"));
        }
        at = *b;
    }
    if at != 65536 {
        return w.viol("shard layout", format!("after merge_small_shards({f}) the shards are {after:x?}"));
    }
    if changed {
        ctx.count("merges_that_changed_shards", 1);
        ctx.count("shards_removed", (before.len() - after.len()) as u64);
        let h = before.iter().fold(after.len() as u64, |h, x| mix(h, (x.0 as u64) << 32 | x.1 as u64));
        ctx.distinct.insert(h);
    }
    let sizes: BTreeSet<u32> = before.iter().map(|x| x.1 - x.0).collect();
    if sizes.len() > 1 {
        ctx.count("merges_of_unbalanced_trees", 1);
    }
    Ok(got)
}

/// shards that should have been merged: two halves, both below the level, although there are more than needed
fn merge_complete(ctx: &mut Ctx, w: &mut World, f: f32) -> VR {
    let spans = shard_files(&w.dir);
    let raw = w.raw()?;
    let need = needed_shards(raw.len().max(w.cfg.expected));
    if spans.len() <= need {
        ctx.count("merges_down_to_the_needed_number", 1);
        return Ok(());
    }
    let max_fill = (EXPECTED_CAPACITY as f32 * f) as usize;
    let mut n: BTreeMap<(u32, u32), (usize, Vec<usize>)> = spans.iter().map(|x| (*x, (0, vec![0; 64]))).collect();
    for (k, _) in &raw {
        let p = place(&w.cfg.seed, k);
        let i = spans.partition_point(|x| x.1 <= p.shard);
        let e = n.get_mut(&spans[i]).unwrap();
        e.0 += 1;
        e.1[p.row] += 1;
    }
    for i in 0..spans.len() - 1 {
        let (a, b) = (spans[i], spans[i + 1]);
        let len = a.1 - a.0;
        if b.1 - b.0 != len || a.0 % (2 * len) != 0 {
            continue;
        }
        let (x, y) = (&n[&a], &n[&b]);
        if x.0 <= max_fill && y.0 <= max_fill && (0..64).all(|i| x.1[i] + y.1[i] <= 512) {
            return w.viol(
                "not merged",
                format!(
                    "after merge_small_shards({f}) shards {a:x?} and {b:x?} remain, with {} and {} entries (up to {max_fill} each should be merged) and {} shards of which {need} are needed",
                    x.0, y.0, spans.len()
                ),
            );
        }
        if x.0 <= max_fill && y.0 <= max_fill {
            ctx.count("pairs_whose_rows_have_no_room", 1);
        } else {
            ctx.count("pairs_with_too_many_entries", 1);
        }
    }
    Ok(())
}

fn sequential(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    let mut prof = Profile { vmax: *r.pick(&[0usize, 30, 200, 500]), grow: *r.pick(&[40, 70, 90]), ..full_profile(&mut r) };
    prof.w = if r.chance(1, 2) { [60, 15, 15, 0, 0, 0, 1, 1, 1] } else { [60, 0, 0, 0, 0, 0, 1, 1, 1] };
    let full_rows = case % 16 == 5;
    let mut npool = *r.pick(&[20usize, 60, 150, 300]);
    let mut style = r.below(9);
    let mut nops = 100 + r.usize(500);
    if r.chance(1, 2) {
        cfg.expected = *r.pick(&[30_000usize, 60_000, 120_000, 250_000, 500_000]);
    }
    if full_rows {
        npool = 1100;
        style = 3;
        nops = 1500;
        prof.grow = 95;
        prof.vmax = 4;
        prof.w = [100, 0, 0, 0, 0, 0, 0, 0, 0];
        cfg.max_shard = 1 << 20;
        cfg.min_compact = 20_000;
        cfg.expected = 0;
    } else if r.chance(1, 3) {
        style = 4;
    }
    fit(&mut cfg, prof.vmax + if prof.w[1] > 0 { 700 } else { 0 });
    let pool = Pool::with_style(&mut r, &cfg.seed, npool, style);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    let mut g = Gen::new(&pool, prof, &mut r);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let phases = 1 + r.usize(4);
    for ph in 0..phases {
        if ph > 0 && r.chance(2, 3) && !full_rows {
            if w.s.is_some() {
                w.close()?;
            }
            w.gate(false);
            let seed = w.cfg.seed;
            let mut n = mutate_cfg(&w.cfg, &mut r);
            n.seed = seed;
            n.expected = *r.pick(&[0usize, 0, 30_000, 60_000, 250_000]);
            n.max_shard = n.max_shard.max(w.cfg.max_shard);
            w.cfg = n;
        }
        if w.s.is_none() {
            w.open()?;
            w.gate(r.chance(2, 3));
        }
        for i in 0..nops / phases {
            let op = if full_rows && ph == 0 && i < pool.keys.len() {
                let v = g.val(&mut r);
                Op::Set(pool.keys[i].clone(), v)
            } else {
                g.op(&w.m, &mut r)
            };
            w.step(&op, &mut r)?;
            w.background(&mut r);
            if r.chance(1, 150) {
                let f = *r.pick(&[0.0005f32, 0.002, 0.01, 0.25, 0.49]);
                merge_checked(ctx, &mut w, f)?;
                if r.chance(1, 2) {
                    merge_complete(ctx, &mut w, f)?;
                }
                if r.chance(1, 2) {
                    w.verify(&mut r, "contents after merging")?;
                }
            }
        }
        // a level out of range is refused and changes nothing
        let f = *r.pick(&[0.0f32, -1.0, 0.5, 7.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        let before = shard_files(&w.dir);
        let s = w.s.clone().unwrap();
        let x = guard(|| in_op(|| s.merge_small_shards(f).is_err()));
        drop(s);
        if !w.chk("merge", x.map(Ok))? || before != shard_files(&w.dir) {
            return w.viol("level out of range", format!("merge_small_shards({f}) was not refused"));
        }
        ctx.count("levels_refused", 1);
        // merge until nothing is left to merge
        let f = *r.pick(&[0.0005f32, 0.002, 0.01, 0.1, 0.25, 0.4, 0.49]);
        let start = shard_files(&w.dir).len();
        let mut rounds = 0;
        while merge_checked(ctx, &mut w, f)? {
            rounds += 1;
            if rounds > start {
                return w.viol("merging never ends", format!("{rounds} merges of {start} shards all reported changes"));
            }
            if r.chance(1, 3) {
                w.verify(&mut r, "contents after merging")?;
            }
        }
        merge_complete(ctx, &mut w, f)?;
        w.verify(&mut r, "contents after merging")?;
        ctx.max("max_shards_before_merging", start as u64);
    }
    if r.chance(2, 3) {
        w.gate(false);
        w.reopen()?;
        w.verify(&mut r, "contents after merging and reopening")?;
    }
    w.quiesce()?;
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

fn concurrent(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    if r.chance(1, 2) {
        cfg.expected = *r.pick(&[60_000usize, 250_000]);
    }
    let style = *r.pick(&[0u64, 1, 4, 4, 5]);
    let n = 10 + r.usize(60);
    let keys = Pool::with_style(&mut r, &cfg.seed, n, style).keys;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    if w.cfg.expected > 0 && r.chance(1, 2) {
        // more shards than are now needed
        w.close()?;
        w.cfg.expected = 0;
        w.open()?;
    }
    let o = PlainOpts {
        threads: 2 + r.usize(5),
        ops: 60 + r.usize(200),
        keys: keys.len(),
        hot: 1 + r.usize(5),
        merger: 30,
        clearer: 0,
        observers: r.chance(1, 3),
        vmax: *r.pick(&[8usize, 60, 300]),
    };
    plain_round(ctx, &mut w, &o, &mut r, &keys)?;
    w.open()?;
    w.verify(&mut r, "contents after reopening")?;
    let mut rounds = 0;
    let start = shard_files(&w.dir).len();
    while merge_checked(ctx, &mut w, 0.49)? {
        rounds += 1;
        if rounds > start {
            return w.viol("merging never ends", format!("{rounds} merges of {start} shards all reported changes"));
        }
    }
    w.verify(&mut r, "contents after merging")?;
    w.finish(ctx)
}

pub fn c11(ctx: &mut Ctx, case: u64) -> VR {
    let r = match case % 4 {
        3 => concurrent(ctx, case),
        _ => sequential(ctx, case),
    };
    sys::set_class(1);
    r
}
