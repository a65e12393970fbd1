//! C18: hostile use of everything, for the sanitizers, debug assertions and overflow checks to watch. Results of calls are
//! not compared here (the other checks do that); panics in any thread and sanitizer reports are what counts.
use crate::conc::*;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use candystore::*;
use std::collections::BTreeMap;
use std::result::Result;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;

type Mine = BTreeMap<&'static str, u64>;

fn extra(s: &Arc<CandyStore>, pool: &Pool, r: &mut Rng, vmax: usize, cookies: &mut Vec<u64>, mine: &mut Mine) -> Result<(), ErrT> {
    let k = pool.keys[r.usize(pool.keys.len())].clone();
    let n = r.usize(vmax + 1);
    let v = r.bytes(n);
    let coll = [b"l".as_slice(), &[b'0' + r.below(3) as u8]].concat();
    let what = match r.below(16) {
        0 => {
            let t = CandyTypedStore::<u64, String>::new(s.clone());
            match r.below(5) {
                0 => drop(t.get(&r.below(9))?),
                1 => drop(t.remove(&r.below(9))?),
                2 => drop(t.get_or_create(&r.below(9), "x")?),
                3 => drop(t.contains(&r.below(9))?),
                _ => drop(t.set(&r.below(9), &format!("v{}", r.below(1 << 30)))?),
            }
            "typed_store"
        }
        1 => {
            let t = CandyTypedList::<u32, u16, Vec<u8>>::new(s.clone());
            let l = r.below(2) as u32;
            match r.below(6) {
                0 => drop(t.pop_head(&l)?),
                1 => drop(t.pop_tail(&l)?),
                2 => drop(t.remove(&l, &(r.below(6) as u16))?),
                3 => drop(t.iter(&l).count()),
                4 => drop(t.len(&l)?),
                _ => drop(t.set(&l, &(r.below(6) as u16), &v)?),
            }
            "typed_list"
        }
        2 => {
            let t = CandyTypedDeque::<u32, Vec<u8>>::new(s.clone());
            let q = 7 + r.below(2) as u32;
            match r.below(6) {
                0 => drop(t.pop_head(&q)?),
                1 => drop(t.pop_tail(&q)?),
                2 => t.push_head(&q, &v)?,
                3 => drop(t.iter(&q).count()),
                4 => drop(t.len(&q)?),
                _ => t.push_tail(&q, &v)?,
            }
            "typed_deque"
        }
        3 => {
            // an iteration with other calls in between
            let mut it = s.iter();
            let mut i = 0;
            while let Some(x) = it.next() {
                let (k, _) = x?;
                if r.chance(1, 12) {
                    drop(s.remove(&k)?);
                }
                if r.chance(1, 12) {
                    drop(s.set(&k, &v)?);
                }
                if r.chance(1, 8) {
                    cookies.push(it.cookie());
                }
                i += 1;
                if i > 40 && r.chance(1, 20) {
                    break;
                }
            }
            "iter_with_changes"
        }
        4 => {
            if !cookies.is_empty() {
                let c = cookies[r.usize(cookies.len())];
                let n = 1 + r.usize(50);
                for x in s.iter_from_cookie(c).take(n) {
                    x?;
                }
            }
            "iter_from_cookie"
        }
        5 => {
            for x in s.iter_raw().take(3000) {
                x?;
            }
            "iter_raw"
        }
        6 => {
            let st = s.stats();
            std::hint::black_box((
                format!("{st} {st:?}"),
                st.num_entries(),
                st.data_bytes(),
                st.total_occupied_bytes(),
                st.average_entry_size(),
                st.required_num_shards(),
                st.should_merge_small_shards(),
            ));
            "stats"
        }
        7 => {
            let back = r.chance(1, 2);
            let it = if back { s.iter_list_backwards(&coll) } else { s.iter_list(&coll) };
            for x in it.take(300) {
                let (k, _) = x?;
                if r.chance(1, 10) {
                    drop(s.remove_from_list(&coll, &k)?);
                }
                if r.chance(1, 10) {
                    drop(s.set_in_list_promoting(&coll, &k, &v)?);
                }
            }
            "iter_list_with_changes"
        }
        8 => {
            let it = if r.chance(1, 2) { s.iter_queue_backwards(&coll) } else { s.iter_queue(&coll) };
            for x in it.take(300) {
                let (i, _) = x?;
                if r.chance(1, 10) {
                    drop(s.remove_from_queue(&coll, i)?);
                }
                if r.chance(1, 10) {
                    drop(s.push_to_queue_tail(&coll, &v)?);
                }
            }
            "iter_queue_with_changes"
        }
        9 => {
            let items: Vec<Vec<u8>> = (0..r.usize(8)).map(|_| v.clone()).collect();
            drop(s.extend_queue(&coll, items.iter())?);
            "extend_queue"
        }
        10 => {
            drop(s.queue_range(&coll)?);
            drop(s.queue_len(&coll)?);
            drop(s.list_len(&coll)?);
            "lengths"
        }
        11 => {
            let b = r.bytes(vmax * 6);
            match r.below(4) {
                0 => drop(s.get_big(&k)?),
                1 => drop(s.remove_big(&k)?),
                _ => drop(s.set_big(&k, &b)?),
            }
            "big"
        }
        12 => {
            drop(s.compact_list_if_needed(
                &coll,
                ListCompactionParams { min_length: r.below(6), min_holes_ratio: r.below(3) as f64 / 3.0 },
            )?);
            "compact_list"
        }
        13 => {
            if r.chance(1, 3) {
                drop(s.merge_small_shards(*r.pick(&[0.05f32, 0.2, 0.49]))?);
            }
            "merge"
        }
        14 => {
            if r.chance(1, 30) {
                s.clear()?;
            }
            "clear"
        }
        _ => {
            s.flush()?;
            "flush"
        }
    };
    *mine.entry(what).or_default() += 1;
    Ok(())
}

fn storm(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    cfg.threads = *r.pick(&[0usize, 1, 2, 6]);
    cfg.locks = *r.pick(&[0u32, 1, 4, 64]);
    let vmax = *r.pick(&[8usize, 60, 250]);
    let npool = 6 + r.usize(60);
    let pool = Pool::new(&mut r, &cfg.seed, npool);
    let pool = Pool { keys: pool.keys.into_iter().filter(|k| k.len() < 60).chain([b"k".to_vec()]).collect(), style: pool.style };
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let s = w.s.clone().unwrap();
    let threads = 2 + r.usize(6);
    let ops = 80 + r.usize(200);
    let share = *r.pick(&[20u64, 50, 80]);
    let style = r.below(4);
    w.desc = format!("{} [threads={threads} ops={ops} share={share} style={style}]", Chaos::on(&mut r));
    tick(|| format!("hostile mix of everything, {} {}", w.cfg.short(), w.desc));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut prof = Profile::default();
    prof.vmax = vmax;
    prof.w = match style {
        0 => [100, 0, 0, 0, 0, 2, 2, 2, 2],
        1 => [5, 60, 30, 0, 0, 2, 2, 2, 0],
        2 => [60, 20, 20, 5, 0, 1, 4, 4, 2],
        _ => [50, 25, 25, 5, 1, 3, 4, 4, 2],
    };
    prof.nlists = 2;
    prof.nitems = 6;
    let total = std::sync::Mutex::new(Mine::new());
    let errs = AtomicU64::new(0);
    let mut fs: Vec<Box<dyn FnOnce() -> Result<(), String> + Send + '_>> = vec![];
    let gseed = r.next();
    for _ in 0..threads {
        let (s, pool, total, errs) = (s.clone(), &pool, &total, &errs);
        let seed = r.next();
        let prof = prof.clone();
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            let mut gr = Rng::new(gseed);
            let mut g = Gen::new(pool, prof, &mut gr);
            let mut mine = Mine::new();
            let mut cookies = vec![];
            for _ in 0..ops {
                tickn();
                if style > 0 && r.below(100) < share {
                    if extra(&s, pool, &mut r, vmax, &mut cookies, &mut mine).is_err() {
                        errs.fetch_add(1, Relaxed);
                    }
                } else {
                    let op = g.op(&Model::default(), &mut r);
                    *mine.entry(op.kind()).or_default() += 1;
                    _ = Model::default().apply(&s, &op, &mut r);
                }
            }
            drop(s);
            let mut k = total.lock().unwrap();
            for (a, b) in mine {
                *k.entry(a).or_default() += b;
            }
            Ok(())
        }));
    }
    // the last client that is done may be the one that closes the store
    drop(s);
    let early = r.chance(1, 2);
    if early {
        w.s = None;
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    sys::set_class(1);
    for x in res {
        w.chk("storm", x)?;
    }
    w.nops += (threads * ops) as u64;
    for (k, n) in total.lock().unwrap().iter() {
        ctx.count(&format!("calls.{k}"), *n);
    }
    ctx.count("calls_refused", errs.load(Relaxed));
    if early {
        w.open()?;
    } else if r.chance(1, 2) {
        w.reopen()?;
    }
    ctx.count("calls_watched", w.nops);
    finish(ctx, &mut w, case)
}

fn finish(ctx: &mut Ctx, w: &mut World, case: u64) -> VR {
    // without interposed calls there is no event trace to tell cases apart by: what the store went through will do
    let st = w.quiesce()?;
    let h = [st.num_splits, st.num_compactions, st.num_shards, st.occupied_bytes, st.num_updates, st.num_collisions]
        .iter()
        .fold(case, |h, x| mix(h, *x as u64));
    if st.num_splits + st.num_compactions > 0 {
        ctx.distinct.insert(h);
        ctx.count("splits_seen", st.num_splits as u64);
        ctx.count("compactions_seen", st.num_compactions as u64);
    }
    ctx.max("max_shards", st.num_shards as u64);
    w.close()
}

/// one thread, all kinds of data, compared with the model as well
fn sequence(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = std_cfg(&mut r);
    let mut prof = full_profile(&mut r);
    if r.chance(1, 12) {
        prof.vmax = 30_000;
    }
    if r.chance(1, 2) {
        fit(&mut cfg, 66_000);
    } else {
        prof.w[3] = 0;
        fit(&mut cfg, prof.vmax);
    }
    let npool = 20 + r.usize(200);
    let pool = Pool::new(&mut r, &cfg.seed, npool);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("one thread, keys: {} ({})", pool.style, pool.keys.len());
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut g = Gen::new(&pool, prof, &mut r);
    for _ in 0..200 + r.usize(400) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
        if r.chance(1, 10) {
            w.typed_step(&mut r)?;
        }
        if r.chance(1, 150) {
            let gated = w.gated;
            w.gate(false);
            w.close()?;
            w.cfg = mutate_cfg(&w.cfg, &mut r);
            fit(&mut w.cfg, if g.prof.w[3] > 0 { 66_000 } else { g.prof.vmax });
            w.open()?;
            w.gate(gated);
        }
        w.background(&mut r);
    }
    w.verify(&mut r, "contents")?;
    ctx.count("calls_watched", w.nops);
    finish(ctx, &mut w, case)
}

/// full rows, splits and merges at size
fn wide(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    cfg.clear_unsupported = false;
    cfg.max_shard = 4 << 20;
    cfg.min_compact = 30_000;
    cfg.expected = 0;
    let pool = Pool::with_style(&mut r, &cfg.seed, 1100, 3);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = "more keys in one row than it holds".into();
    w.open()?;
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    for (i, k) in pool.keys.iter().enumerate() {
        w.step(&Op::Set(k.clone(), vec![i as u8; i % 9]), &mut r)?;
    }
    for k in &pool.keys {
        if r.chance(3, 4) {
            w.step(&Op::Remove(k.clone()), &mut r)?;
        }
    }
    w.step(&Op::Merge(0.4), &mut r)?;
    w.verify(&mut r, "contents")?;
    ctx.count("calls_watched", w.nops);
    finish(ctx, &mut w, case)
}

pub fn c18(ctx: &mut Ctx, case: u64) -> VR {
    match case % 8 {
        0..=4 => storm(ctx, case),
        7 if case % 32 == 7 => wide(ctx, case),
        _ => sequence(ctx, case),
    }
}
