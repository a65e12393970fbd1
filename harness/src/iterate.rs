//! C10: iteration — idle stores exactly, with cookies; under modification at least once, truthful, terminating.
use crate::conc::*;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use candystore::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

type KV = (B, B);

fn profile(r: &mut Rng) -> Profile {
    let mut p = Profile { grow: *r.pick(&[50, 70, 90]), ..Profile::default() };
    p.vmax = *r.pick(&[0usize, 30, 150, 500]);
    p.w = [100, 10, 10, 0, 0, 1, 0, 1, 0];
    p
}

/// what the iteration returns from here on, with the cookie after each entry (the iterator's type is not public)
macro_rules! rest {
    ($it:expr, $limit:expr) => {{
        let mut it = $it;
        let limit: usize = $limit;
        let mut v: Vec<KV> = vec![];
        let mut cookies = vec![it.cookie()];
        while let Some(x) = it.next() {
            let x = x.map_err(|e| format!("iteration returned an error: {e:#}"))?;
            v.push(x);
            cookies.push(it.cookie());
            if v.len() > limit {
                return Err(format!("iteration of {limit} entries does not end"));
            }
        }
        // it stays finished
        if it.next().is_some() {
            return Err("the iterator returned an entry after having ended".into());
        }
        cookies.push(it.cookie());
        Ok((v, cookies))
    }};
}
fn same(got: &[KV], want: &[KV], what: &str) -> R {
    let (mut a, mut b): (Vec<&KV>, Vec<&KV>) = (got.iter().collect(), want.iter().collect());
    a.sort();
    b.sort();
    if a == b {
        return Ok(());
    }
    let (sa, sb): (BTreeSet<&KV>, BTreeSet<&KV>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let miss = b.iter().find(|x| !sa.contains(*x)).map(|x| show(&x.0));
    let extra = a.iter().find(|x| !sb.contains(*x)).map(|x| show(&x.0));
    let dup = a.windows(2).find(|w| w[0].0 == w[1].0).map(|w| show(&w[0].0));
    Err(format!(
        "{what}: {} entries instead of {}; missing {miss:?}, unexpected {extra:?}, twice {dup:?}",
        got.len(),
        want.len()
    ))
}

fn idle(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let prof = profile(&mut r);
    let mut cfg = std_cfg(&mut r);
    fit(&mut cfg, prof.vmax);
    let np = *r.pick(&[1usize, 6, 30, 120, 300]);
    let pool = Pool::new(&mut r, &cfg.seed, np);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({})", pool.style, pool.keys.len());
    w.open()?;
    let mut g = Gen::new(&pool, prof, &mut r);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    for _ in 0..4 {
        w.gate(r.chance(3, 5));
        for _ in 0..*r.pick(&[0usize, 1, 30, 200, 400]) {
            let op = g.op(&w.m, &mut r);
            w.step(&op, &mut r)?;
            w.background(&mut r);
        }
        let want: Vec<KV> = w.m.kv.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let limit = want.len() * 2 + 1000;
        // while the background completes a compaction
        if w.gated {
            let s = w.s.clone().unwrap();
            let every = 1 + r.usize(4);
            let (mut n, mut moved) = (0, 0u64);
            let rr = &mut r;
            tick(|| "iteration during a background compaction".into());
            let x = guard(|| -> R {
                let mut got = vec![];
                let mut it = s.iter();
                loop {
                    n += 1;
                    if n % every == 0 {
                        let before = sys::BGCOUNTS.iter().map(|x| x.load(SeqCst)).sum::<u64>();
                        sys::gate_pump(1 + rr.below(60) as i64);
                        moved += (sys::BGCOUNTS.iter().map(|x| x.load(SeqCst)).sum::<u64>() != before) as u64;
                    }
                    let Some(x) = in_op(|| it.next()) else { break };
                    got.push(x.map_err(|e| format!("iteration returned an error: {e:#}"))?);
                    if got.len() > limit {
                        return Err("iteration does not end".into());
                    }
                }
                same(&got, &want, "iteration during a background compaction")
            });
            w.chk("iteration", x)?;
            ctx.count("steps_with_moving_background", moved);
        }
        w.gate(false);
        w.quiesce()?;
        for raw in [false, true] {
            let s = w.s.clone().unwrap();
            tick(|| format!("idle iteration, raw {raw}"));
            let x = guard(|| {
                in_op(|| -> R<(Vec<KV>, Vec<u64>)> {
                    rest!(if raw { s.iter_raw() } else { s.iter() }, if raw { 1_000_000 } else { limit })
                })
            });
            drop(s);
            let (all, cookies) = w.chk("iteration", x)?;
            if raw {
                // every internal entry is there once
                let x = all.iter().map(|x| &x.0).collect::<HashSet<_>>().len();
                if x != all.len() {
                    return w.viol("iteration", format!("raw iteration yields {} entries, only {x} different", all.len()));
                }
            } else {
                w.chk("iteration", Ok(same(&all, &want, "iteration of an idle store")))?;
            }
            ctx.count("entries_iterated", all.len() as u64);
            if raw {
                continue; // no way to resume it
            }
            // resumed anywhere
            let mut at: Vec<usize> = (0..cookies.len()).collect();
            let lim = if ctx.thorough { 400 } else { 60 };
            if at.len() > lim {
                r.shuffle(&mut at);
                at.truncate(lim);
                at.extend([0, 1, all.len() - 1, all.len(), all.len() + 1]);
            }
            for i in at {
                let s = w.s.clone().unwrap();
                let ck = cookies[i];
                let x = guard(|| {
                    in_op(|| -> R<(Vec<KV>, Vec<u64>)> { rest!(s.iter_from_cookie(ck), 1_000_000) })
                });
                let (got, _) = w.chk("resumed iteration", x)?;
                let want = &all[i.min(all.len())..];
                let x = same(&got, want, &format!("iteration resumed after {i} of {} entries", all.len()));
                w.chk("resumed iteration", Ok(x))?;
                ctx.count("resumptions", 1);
                tickn();
            }
            // resumed again and again, also by a store opened later
            let hop = 1 + r.usize(9);
            let reopen = r.chance(1, 2);
            let mut got: Vec<KV> = vec![];
            let mut ck = None;
            loop {
                let s = w.s.clone().unwrap();
                let x = guard(|| {
                    in_op(|| -> R<(bool, u64, Vec<KV>)> {
                        let mut it = match ck {
                            None => s.iter(),
                            Some(c) => s.iter_from_cookie(c),
                        };
                        let mut v = vec![];
                        for _ in 0..hop {
                            match it.next() {
                                Some(x) => v.push(x.map_err(|e| format!("iteration returned an error: {e:#}"))?),
                                None => return Ok((true, it.cookie(), v)),
                            }
                        }
                        Ok((false, it.cookie(), v))
                    })
                });
                let (end, c, v) = w.chk("resumed iteration", x)?;
                got.extend(v);
                ck = Some(c);
                ctx.count("resumptions", 1);
                if end {
                    break;
                }
                if got.len() > all.len() + 5 {
                    return w.viol("resumed iteration", format!("does not end after {} of {} entries", got.len(), all.len()));
                }
                drop(s);
                if reopen && r.chance(1, 30) {
                    w.reopen()?;
                }
            }
            let x = same(&got, &all, &format!("iteration resumed every {hop} entries (reopened {reopen})"));
            w.chk("resumed iteration", Ok(x))?;
        }
        if r.chance(1, 4) {
            w.reopen()?;
        }
    }
    w.finish(ctx)
}

struct Open<I> {
    it: I,
    seen: BTreeMap<B, B>,
    start: usize,
    n: usize,
    /// resumed by cookie
    hops: u64,
    /// merges that took place meanwhile
    merges: u64,
}

/// one thread: other calls between the steps of several iterations
fn interleaved(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut prof = profile(&mut r);
    prof.w = [100, 5, 5, 0, 0, if r.chance(1, 2) { 12 } else { 1 }, 1, 2, 0];
    let mut cfg = Cfg::tiny(&mut r);
    fit(&mut cfg, prof.vmax);
    cfg.expected = 0;
    let np = *r.pick(&[6usize, 30, 120]);
    let style = *r.pick(&[0u64, 1, 3, 3, 4, 5, 8]);
    let pool = Pool::with_style(&mut r, &cfg.seed, np, style);
    let nstable = 1 + pool.keys.len() / 2;
    let mut keys = pool.keys.clone();
    r.shuffle(&mut keys);
    let stable: Vec<B> = keys.drain(..nstable.min(keys.len())).collect();
    let churn = Pool { keys: if keys.is_empty() { vec![b"some key".to_vec()] } else { keys }, style: pool.style };
    let stable: Vec<B> = stable.into_iter().filter(|k| !churn.keys.contains(k)).collect();
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {} ({} stable, {} changing)", pool.style, stable.len(), churn.keys.len());
    w.open()?;
    let mut g = Gen::new(&churn, prof, &mut r);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    w.gate(r.chance(2, 3));
    let mut i = 0;
    for _ in 0..*r.pick(&[stable.len(), stable.len() * 2, 300]) {
        let op = if i < stable.len() && r.chance(1, 2) {
            i += 1;
            Op::Set(stable[i - 1].clone(), g.val(&mut r))
        } else {
            g.op(&w.m, &mut r)
        };
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    while i < stable.len() {
        i += 1;
        let op = Op::Set(stable[i - 1].clone(), g.val(&mut r));
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    let fixed: Vec<KV> = stable.iter().map(|k| (k.clone(), w.m.kv[k].clone())).collect();
    // every value a key ever had
    let mut hist: HashMap<B, HashSet<B>> = HashMap::new();
    for (k, v) in &w.m.kv {
        hist.entry(k.clone()).or_default().insert(v.clone());
    }
    let s = w.s.clone().unwrap();
    let mut open = vec![];
    let mut mods = *r.pick(&[60usize, 300, 700]);
    let density = *r.pick(&[1u64, 3, 10, 40]);
    let mut finished = 0u64;
    let mut steps = 0u64;
    loop {
        if open.is_empty() || (open.len() < 3 && mods > 0 && r.chance(1, 20)) {
            if mods == 0 {
                break;
            }
            open.push(Open { it: s.iter(), seen: BTreeMap::new(), start: mods, n: 0, hops: 0, merges: 0 });
        }
        if mods > 0 && r.chance(density, density + 6) {
            mods -= 1;
            let op = match r.below(60) {
                0 | 1 => Op::Merge(*r.pick(&[0.1f32, 0.49])),
                2 => Op::Stats,
                _ => g.op(&w.m, &mut r),
            };
            let cand = match &op {
                Op::Set(k, v) | Op::Replace(k, v, _) | Op::Goc(k, v) => Some((k.clone(), v.clone())),
                _ => None,
            };
            w.step(&op, &mut r)?;
            w.background(&mut r);
            if matches!(op, Op::Merge(_)) {
                open.iter_mut().for_each(|o| o.merges += 1);
            }
            if let Some((k, v)) = cand {
                if w.m.kv.get(&k) == Some(&v) {
                    hist.entry(k).or_default().insert(v);
                }
            }
            continue;
        }
        let n = r.usize(open.len());
        let o = &mut open[n];
        steps += 1;
        if r.chance(1, 25) && r.chance(1, 2) {
            // (with merges as well, a resumed iteration is judged for truth and termination only)
            o.hops += 1;
            o.it = s.iter_from_cookie(o.it.cookie());
        }
        tickn();
        let x = guard(|| in_op(|| o.it.next()));
        let x = match x {
            Err(p) => return w.viol(&sig_of(&p), p),
            Ok(None) => None,
            Ok(Some(Err(e))) => return w.viol("iteration", format!("iteration returned an error: {e:#}")),
            Ok(Some(Ok(x))) => Some(x),
        };
        match x {
            Some((k, v)) => {
                o.n += 1;
                if !hist.get(&k).is_some_and(|h| h.contains(&v)) {
                    return w.viol("iteration", format!("returned {} -> {}, which was never stored", show(&k), show(&v)));
                }
                o.seen.insert(k, v);
                if mods == 0 && o.n > 200_000 {
                    return w.viol("iteration", "does not end after the last modification".to_string());
                }
            }
            None => {
                if o.hops == 0 || o.merges == 0 {
                    for (k, v) in &fixed {
                        match o.seen.get(k) {
                            Some(x) if x == v => {}
                            x => {
                                return w.viol(
                                    "iteration",
                                    format!(
                                        "an iteration of {} steps, resumed {} times, with {} calls in between, returned {} for key {}, which was there unmodified all the time (value {})",
                                        o.n,
                                        o.hops,
                                        o.start - mods,
                                        x.map_or("nothing".into(), |x| show(x)),
                                        show(k),
                                        show(v)
                                    ),
                                );
                            }
                        }
                    }
                }
                finished += 1;
                ctx.count("iterations_judged", (o.hops == 0 || o.merges == 0) as u64);
                ctx.count("resumed_iterations_judged", (o.hops > 0 && o.merges == 0) as u64);
                open.swap_remove(n);
                if mods == 0 && open.is_empty() {
                    break;
                }
            }
        }
    }
    drop(open);
    drop(s);
    ctx.count("interleaved_iterations", finished);
    ctx.count("interleaved_steps", steps);
    w.gate(false);
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

fn concurrent(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let cfg = conc_cfg(&mut r);
    let nk = 10 + r.usize(120);
    let style = *r.pick(&[0u64, 1, 3, 3, 4, 5, 8]);
    let keys = Pool::with_style(&mut r, &cfg.seed, nk, style).keys;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let vmax = *r.pick(&[8usize, 60, 300]);
    let nstable = 1 + keys.len() / 2;
    let n = keys.len() as u32;
    // the id of a value tells its key
    let ids = AtomicU32::new(1);
    let id_for = |ki: usize| ids.fetch_add(1, SeqCst) * n + ki as u32;
    let mut fixed: BTreeMap<B, u32> = BTreeMap::new();
    let mut order: Vec<usize> = (0..keys.len()).collect();
    r.shuffle(&mut order);
    let churn: Vec<usize> = order.split_off(nstable.min(order.len()));
    for ki in order.iter().chain(churn.iter().filter(|_| true)) {
        let id = id_for(*ki);
        let x = guard(|| w.st().set(&keys[*ki], &enc(id, vmax)).map_err(|e| format!("set: {e:#}")));
        w.chk("set", x)?;
        if order.contains(ki) {
            fixed.insert(keys[*ki].clone(), id);
        }
    }
    let index: HashMap<&B, usize> = keys.iter().enumerate().map(|(i, k)| (k, i)).collect();
    let s = w.s.clone().unwrap();
    let threads = 1 + r.usize(4);
    let ops = 60 + r.usize(250);
    let readers = 1 + r.usize(3);
    let merger = r.chance(1, 2);
    w.desc = format!(
        "{} [threads={threads} ops={ops} keys={} stable={} merger={merger}]",
        Chaos::on(&mut r),
        keys.len(),
        fixed.len()
    );
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    tick(|| "iteration with concurrent modification".into());
    let stop = AtomicBool::new(false);
    let left = AtomicU32::new(threads as u32);
    let (iters, entries, dups) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    type F<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for _ in 0..threads {
        let (s, keys, churn, stop, left, seed, id_for) = (&s, &keys, &churn, &stop, &left, r.next(), &id_for);
        fs.push(Box::new(move || {
            let mut go = || -> R {
                let mut r = Rng::new(seed);
                sys::seed_thread(r.next());
                for _ in 0..ops {
                    tickn();
                    if churn.is_empty() {
                        break;
                    }
                    let ki = *r.pick(churn);
                    let e = |e: ErrT| format!("error from a valid call: {e:#}");
                    if r.chance(1, 3) {
                        s.remove(&keys[ki]).map_err(e)?;
                    } else {
                        s.set(&keys[ki], &enc(id_for(ki), vmax)).map_err(e)?;
                    }
                }
                Ok(())
            };
            let x = go();
            if left.fetch_sub(1, SeqCst) == 1 || x.is_err() {
                stop.store(true, SeqCst);
            }
            x
        }));
    }
    if merger {
        let (s, stop, seed) = (&s, &stop, r.next());
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            for _ in 0..40 {
                if stop.load(SeqCst) {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(r.below(3000)));
                s.merge_small_shards(0.49).map_err(|e| format!("merge_small_shards: {e:#}"))?;
            }
            Ok(())
        }));
    }
    for _ in 0..readers {
        let (s, stop, seed, fixed, index) = (&s, &stop, r.next(), &fixed, &index);
        let (iters, entries, dups) = (&iters, &entries, &dups);
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            while !stop.load(SeqCst) {
                let resumed = r.chance(1, 4);
                let pause = r.chance(1, 3);
                let mut seen: BTreeMap<B, u32> = BTreeMap::new();
                let mut count = 0u64;
                let mut it = s.iter();
                while let Some(x) = it.next() {
                    tickn();
                    let (k, v) = x.map_err(|e| format!("iteration returned an error: {e:#}"))?;
                    let Some(ki) = index.get(&k) else {
                        return Err(format!("iteration returned a key that never existed: {}", show(&k)));
                    };
                    let id = dec(&v, vmax)?;
                    if id % n != *ki as u32 {
                        return Err(format!("iteration returned the value of another key for {}: {}", show(&k), show(&v)));
                    }
                    count += 1;
                    if seen.insert(k, id).is_some() {
                        dups.fetch_add(1, Relaxed);
                    }
                    if count > 2_000_000 {
                        return Err("iteration does not end".into());
                    }
                    if resumed && r.chance(1, 10) {
                        it = s.iter_from_cookie(it.cookie());
                    }
                    if pause && r.chance(1, 8) {
                        std::thread::sleep(std::time::Duration::from_micros(r.below(800)));
                    }
                }
                if !resumed {
                    for (k, id) in fixed {
                        if seen.get(k) != Some(id) {
                            return Err(format!(
                                "an iteration that returned {count} entries returned {:?} for key {}, whose value is #{id} all the time",
                                seen.get(k),
                                show(k)
                            ));
                        }
                    }
                    iters.fetch_add(1, Relaxed);
                }
                entries.fetch_add(count, Relaxed);
            }
            Ok(())
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    for x in res {
        w.chk("iteration", x)?;
    }
    drop(s);
    ctx.count("iterations_judged", iters.load(SeqCst));
    ctx.count("entries_iterated", entries.load(SeqCst));
    ctx.count("entries_returned_again", dups.load(SeqCst));
    w.nops += (threads * ops) as u64;
    w.finish(ctx)
}

pub fn c10(ctx: &mut Ctx, case: u64) -> VR {
    match case % 3 {
        0 => idle(ctx, case),
        1 => interleaved(ctx, case),
        _ => concurrent(ctx, case),
    }
}
