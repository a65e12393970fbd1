//! C13: size limits. Plain calls are judged exactly; others are accepted up to the documented sizes, and whenever a call
//! is rejected nothing may have changed.
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::util::*;
use candystore::*;
use std::collections::BTreeMap;
use std::result::Result;
use std::sync::Arc;

fn sized(r: &mut Rng, n: usize, tag: &[u8]) -> B {
    let mut v = r.bytes(n.min(64));
    v.resize(n, r.next() as u8);
    let m = tag.len().min(n);
    v[..m].copy_from_slice(&tag[..m]);
    v
}

fn want_err(cfg: &Cfg, k: &[u8], v: &[u8]) -> Vec<CandyError> {
    let mut e = vec![];
    if k.len() > MAX_KEY_SIZE {
        e.push(CandyError::KeyTooLong(k.len()));
    }
    if v.len() > MAX_VALUE_SIZE {
        e.push(CandyError::ValueTooLong(v.len()));
    }
    let n = k.len() + 1 + v.len();
    if e.is_empty() && n > cfg.max_shard as usize {
        e.push(CandyError::EntryCannotFitInShard(n, cfg.max_shard as usize));
    }
    e
}

/// a plain call that has to be rejected
fn rejected(ctx: &mut Ctx, w: &mut World, op: &Op, want: Vec<CandyError>, r: &mut Rng) -> VR {
    w.nops += 1;
    w.note(op.brief());
    tick(|| op.brief());
    let s = w.s.clone().unwrap();
    let owned = r.chance(1, 2);
    let x: Result<Result<(), _>, String> = guard(|| {
        in_op(|| match op {
            Op::Set(k, v) => if owned { s.owned_set(k.clone(), v) } else { s.set(k, v) }.map(|_| ()),
            Op::Replace(k, v, e) => if owned { s.owned_replace(k.clone(), v, e.as_deref()) } else { s.replace(k, v, e.as_ref()) }.map(|_| ()),
            Op::Goc(k, v) => if owned { s.owned_get_or_create(k.clone(), v.clone()) } else { s.get_or_create(k, v) }.map(|_| ()),
            _ => unreachable!(),
        })
    });
    let sz = if let Op::Set(k, v) | Op::Replace(k, v, _) | Op::Goc(k, v) = op { (k.len(), v.len()) } else { (0, 0) };
    match w.chk(op.kind(), x.map(Ok))? {
        Ok(()) => w.viol(
            "accepted beyond a limit",
            format!("{} with a key of {} and a value of {} bytes was accepted, expected {want:?}", op.kind(), sz.0, sz.1),
        ),
        Err(e) => match e.downcast_ref::<CandyError>() {
            Some(c) if want.contains(c) => {
                ctx.count("plain_calls_rejected", 1);
                ctx.distinct.insert(mix(mix(fnv(op.kind().as_bytes()), sz.0 as u64), sz.1 as u64));
                Ok(())
            }
            _ => w.viol(
                "wrong error",
                format!("{} with a key of {} and a value of {} bytes failed with {e:?}, expected {want:?}", op.kind(), sz.0, sz.1),
            ),
        },
    }
}

fn plain_op(w: &World, k: &B, v: B, r: &mut Rng) -> Op {
    match r.below(3) {
        0 => Op::Replace(k.clone(), v, if r.chance(1, 2) { w.m.kv.get(k).cloned() } else { None }),
        1 => Op::Goc(k.clone(), v),
        _ => Op::Set(k.clone(), v),
    }
}

fn plain_large(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    cfg.max_shard = *r.pick(&[220_000u32, 300_000, 1 << 20]);
    if r.chance(1, 2) {
        cfg.min_compact = *r.pick(&[60_000, 150_000]);
    }
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| w.cfg.short());
    let klens = [0usize, 1, 100, MAX_KEY_SIZE - 1, MAX_KEY_SIZE, MAX_KEY_SIZE + 1, MAX_KEY_SIZE + 2, 0x3ffe, 0x3fff, 0x4000, 0xffff, 0x10000, 0x14001];
    let vlens = [0usize, 1, 100, MAX_VALUE_SIZE - 1, MAX_VALUE_SIZE, MAX_VALUE_SIZE + 1, MAX_VALUE_SIZE + 2, 0xfffe, 0xffff, 0x10000, 0x10001, 0x20003, 1 << 20];
    for i in 0..60 {
        let kl = if r.chance(1, 3) { *r.pick(&klens) } else { *r.pick(&klens[..5]) };
        let vl = if r.chance(1, 3) { *r.pick(&vlens) } else { *r.pick(&vlens[..5]) };
        let tag = [b'k', r.below(3) as u8];
        let k = {
            // one of a few keys of each length
            let mut k = vec![tag[1]; kl];
            k.iter_mut().take(2).zip(tag).for_each(|(a, b)| *a = b);
            k
        };
        let v = sized(&mut r, vl, format!("v{i}").as_bytes());
        let op = plain_op(&w, &k, v.clone(), &mut r);
        let want = want_err(&w.cfg, &k, &v);
        if want.is_empty() {
            w.step(&op, &mut r)?;
            w.step(&Op::Get(k.clone()), &mut r)?;
            if kl >= MAX_KEY_SIZE - 1 || vl >= MAX_VALUE_SIZE - 1 {
                ctx.count("largest_sizes_accepted", 1);
            }
        } else {
            rejected(ctx, &mut w, &op, want, &mut r)?;
            if k.len() <= MAX_KEY_SIZE {
                w.step(&Op::Get(k.clone()), &mut r)?;
            } else {
                // nothing can be there
                let s = w.s.clone().unwrap();
                let x = guard(|| {
                    in_op(|| {
                        let g = s.get(&k).ok().flatten().is_some();
                        let c = s.contains(&k).unwrap_or(false);
                        let d = s.remove(&k).ok().flatten().is_some();
                        g || c || d
                    })
                });
                drop(s);
                if w.chk("get", x.map(Ok))? {
                    return w.viol("found a rejected key", format!("a key of {} bytes is reported to exist", k.len()));
                }
            }
            if r.chance(1, 4) {
                w.verify(&mut r, "contents after a rejected call")?;
            }
        }
        if r.chance(1, 6) && k.len() <= MAX_KEY_SIZE {
            w.step(&Op::Remove(k), &mut r)?;
        }
        w.background(&mut r);
    }
    w.verify(&mut r, "contents")?;
    w.gate(false);
    w.reopen()?;
    w.verify(&mut r, "contents after reopening")?;
    w.finish(ctx)
}

fn plain_small(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    let max = match r.below(3) {
        0 => 30 + r.usize(300),
        1 => 300 + r.usize(5000),
        _ => 5000 + r.usize(90_000),
    };
    cfg.max_shard = max as u32;
    cfg.min_compact = match r.below(4) {
        0 => 16,
        1 => max as u32 / 4 + 16,
        2 => max as u32 + 10,
        _ => max as u32 * 3,
    };
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| w.cfg.short());
    // keys that live in different places, of several lengths
    let mut keys: Vec<B> = vec![];
    let mut at = vec![];
    let nk = 2 + r.usize(5);
    while keys.len() < nk {
        let kl = *r.pick(&[1usize, 4, max / 3, max / 2, max.saturating_sub(1), max.saturating_sub(2)]);
        let kl = kl.clamp(4, MAX_KEY_SIZE).min(max - 1);
        let k = r.bytes(kl);
        let p = place_user(&w.cfg.seed, &k).shard;
        if !at.contains(&p) {
            at.push(p);
            keys.push(k);
        }
    }
    for i in 0..40 {
        let k = r.pick(&keys).clone();
        let room = max - 1 - k.len();
        let vl = match r.below(8) {
            0 => room,
            1 => room.saturating_sub(1),
            2 => room + 1,
            3 => room + 2 + r.usize(100),
            4 => room / 2,
            5 => 0,
            6 => room + 40_000,
            _ => r.usize(room + 1),
        };
        let v = sized(&mut r, vl, format!("v{i}").as_bytes());
        let want = want_err(&w.cfg, &k, &v);
        let op = plain_op(&w, &k, v.clone(), &mut r);
        if want.is_empty() {
            // replacing needs room for both
            if let Some(p) = w.m.kv.get(&k) {
                if (k.len() + 1) * 2 + p.len() + v.len() > max {
                    w.step(&Op::Remove(k.clone()), &mut r)?;
                }
            }
            w.step(&op, &mut r)?;
            ctx.count("small_shard_calls_accepted", 1);
            if vl == room {
                ctx.count("entries_of_exactly_the_shard_size", 1);
            }
        } else {
            rejected(ctx, &mut w, &op, want, &mut r)?;
        }
        w.step(&Op::Get(k), &mut r)?;
        if r.chance(1, 5) {
            w.verify(&mut r, "contents after a rejected call")?;
        }
        w.background(&mut r);
    }
    w.verify(&mut r, "contents")?;
    w.gate(false);
    w.reopen()?;
    w.verify(&mut r, "contents after reopening")?;
    w.finish(ctx)
}

/// lists, queues and big values: accepted and correct, or rejected without a trace
fn try_op(ctx: &mut Ctx, w: &mut World, op: &Op, r: &mut Rng) -> VR<bool> {
    let before = w.m.clone();
    w.nops += 1;
    w.note(op.brief());
    tick(|| op.brief());
    let s = w.s.clone().unwrap();
    let m = &mut w.m;
    let x = guard(|| in_op(|| m.apply(&s, op, r)));
    drop(s);
    match x {
        Ok(Err(e)) if e.contains("returned an error") => {
            w.m = before;
            let large: bool = {
                use Op::*;
                let ok = |k: &B, v: usize| k.len() <= MAX_KEY_SIZE && v <= MAX_VALUE_SIZE;
                match op {
                    LSet(l, k, v) | LPromote(l, k, v) | LReplace(l, k, v, _) | LGoc(l, k, v) => ok(l, 0) && ok(k, v.len()),
                    QPush(q, v, _) => ok(q, v.len()),
                    QExtend(q, v) => v.iter().all(|v| ok(q, v.len())),
                    BSet(k, _) => ok(k, 0),
                    _ => true,
                }
            };
            if large && w.cfg.max_shard >= 200_000 {
                return w.viol("rejected within the limits", e);
            }
            ctx.count("collection_calls_rejected", 1);
            ctx.distinct.insert(mix(fnv(op.kind().as_bytes()), fnv(e.as_bytes())));
            Ok(false)
        }
        x => {
            w.chk(op.kind(), x)?;
            ctx.count("collection_calls_accepted", 1);
            Ok(true)
        }
    }
}

fn collections(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    let small = r.chance(1, 2);
    cfg.max_shard = if small { 5000 + r.below(60_000) as u32 } else { *r.pick(&[220_000u32, 1 << 20]) };
    cfg.min_compact = cfg.max_shard / 4;
    let max = cfg.max_shard as usize;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| format!("{} (collections)", w.cfg.short()));
    let klen = |r: &mut Rng| -> usize {
        if small {
            return *r.pick(&[1usize, 3, 3, 3, 3, max / 3, max - 8, max - 9, max - 10, max - 17, max - 18, max - 25, max - 26, max - 1, max, max + 7]);
        }
        *r.pick(&[
            0usize, 1, 2, 2, 2, 2, 2, 2, MAX_KEY_SIZE - 1, MAX_KEY_SIZE, MAX_KEY_SIZE + 1, 0x3fff - 17, 0x3fff - 9, 0x3fff - 1, 0x3fff, 0x4000, 0x10001,
        ])
    };
    let vlen = |r: &mut Rng| -> usize {
        if small {
            return *r.pick(&[0usize, 5, 5, 5, 5, 200, max / 12, max - 30, max - 26, max - 18, max - 12, max, max + 1, max + 40_000]);
        }
        *r.pick(&[0usize, 1, 5, 5, 5, 5, MAX_VALUE_SIZE - 1, MAX_VALUE_SIZE, MAX_VALUE_SIZE + 1, 0xffff - 8, 0xffff - 7, 0xffff, 0x10000, 0x10001, 0x20005])
    };
    // a few names of each length
    let name = |r: &mut Rng, n: usize| -> B {
        let mut k = vec![b'n'; n];
        if n > 0 {
            k[0] = b'a' + r.below(2) as u8;
        }
        k
    };
    let (ln, qn): (Vec<B>, Vec<B>) = {
        let mut a = vec![b"L".to_vec()];
        let mut b = vec![b"Q".to_vec()];
        for _ in 0..2 {
            let n = klen(&mut r);
            a.push(name(&mut r, n));
            let n = klen(&mut r);
            b.push(name(&mut r, n));
        }
        (a, b)
    };
    // a small shard cannot hold two versions of items close to its size
    let fits_twice = |a: usize, b: usize| !small || a + b + 100 < max / 2;
    for i in 0..70 {
        let l = r.pick(&ln).clone();
        let q = r.pick(&qn).clone();
        let (kl, vl) = (klen(&mut r), vlen(&mut r));
        let k = name(&mut r, kl);
        let v = sized(&mut r, vl, format!("v{i}").as_bytes());
        let op = match r.weighted(&[14, 10, 6, 6, 12, 6, 6, 3, 2, 4, 3, 3]) {
            0 => Op::LSet(l, k, v),
            1 => Op::LPromote(l, k, v),
            2 => {
                let e = w.m.lists.get(&l).and_then(|m| m.items.iter().find(|x| x.0 == k).map(|x| x.1.clone()));
                Op::LReplace(l, k, v, if r.chance(1, 2) { e } else { None })
            }
            3 => Op::LGoc(l, k, v),
            4 => Op::QPush(q, v, r.chance(1, 2)),
            5 => {
                let mut vs: Vec<B> = (0..r.usize(4)).map(|j| format!("e{i}.{j}").into_bytes()).collect();
                let at = r.usize(vs.len() + 1);
                vs.insert(at, v);
                Op::QExtend(q, vs)
            }
            6 => {
                let n = *r.pick(&[0usize, 10, MAX_VALUE_SIZE, MAX_VALUE_SIZE + 1, MAX_VALUE_SIZE * 2, 3000]);
                let n = if small && r.chance(1, 2) { vl.min(MAX_VALUE_SIZE) } else { n };
                let n = klen(&mut r).min(3) + n;
                let kb = if r.chance(1, 2) { b"B".to_vec() } else { let n = klen(&mut r); let mut b = name(&mut r, n); b.push(b'B'); b };
                Op::BSet(kb, sized(&mut r, n, format!("b{i}").as_bytes()))
            }
            7 => Op::LRemove(l, k),
            8 => Op::LPop(l, r.chance(1, 2)),
            9 => Op::QPop(q, r.chance(1, 2)),
            10 => Op::LGet(l, k),
            _ => Op::BGet(b"B".to_vec()),
        };
        if small {
            // keep what a shard has to hold at once within its size: the point here are entries that do not fit at all
            let (n, m) = match &op {
                Op::LSet(_, k, v) | Op::LPromote(_, k, v) | Op::LReplace(_, k, v, _) | Op::LGoc(_, k, v) => (k.len(), v.len()),
                Op::QPush(q, v, _) => (q.len(), v.len()),
                Op::QExtend(q, v) => (q.len(), v.iter().map(|x| x.len()).max().unwrap_or(0)),
                Op::BSet(k, v) => (k.len(), v.len().min(MAX_VALUE_SIZE)),
                _ => (0, 0),
            };
            if !fits_twice(n, m) && n + m + 8 <= max {
                continue;
            }
        }
        let ok = try_op(ctx, &mut w, &op, &mut r)?;
        if !ok || r.chance(1, 10) {
            w.verify(&mut r, if ok { "contents" } else { "contents after a rejected call" })?;
        }
        w.background(&mut r);
    }
    w.verify(&mut r, "contents")?;
    w.gate(false);
    w.reopen()?;
    w.verify(&mut r, "contents after reopening")?;
    w.finish(ctx)
}

fn typed(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    cfg.max_shard = 300_000;
    cfg.min_compact = 70_000;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    w.gate(r.chance(1, 2));
    ctx.sample(|| format!("{} (typed)", w.cfg.short()));
    let mut kv: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut li: Vec<(String, Vec<u8>)> = vec![];
    let mut dq: std::collections::VecDeque<Vec<u8>> = Default::default();
    for i in 0..50 {
        let kl = *r.pick(&[0usize, 3, 3, 3, 300, MAX_KEY_SIZE - 100, MAX_KEY_SIZE, MAX_KEY_SIZE + 240, 0x3fff, 0x4000, 0x10001]);
        let vl = *r.pick(&[0usize, 3, 3, 3, 300, MAX_VALUE_SIZE - 100, MAX_VALUE_SIZE, MAX_VALUE_SIZE + 240, 0xffff, 0x10000, 0x20001]);
        let k: String = (if r.chance(1, 2) { "k" } else { "m" }).repeat(kl);
        let v = sized(&mut r, vl, format!("v{i}").as_bytes());
        let fits = kl + 100 <= MAX_KEY_SIZE && vl + 100 <= MAX_VALUE_SIZE;
        let s = w.s.clone().unwrap();
        let op = r.below(9);
        let what = format!("typed call {op} with a key of {kl} and a value of {vl} bytes");
        w.note(what.clone());
        tick(|| what.clone());
        w.nops += 1;
        let (kv_, li_, dq_) = (&mut kv, &mut li, &mut dq);
        let x = guard(|| {
            in_op(|| -> R<bool> {
                let t = CandyTypedStore::<String, Vec<u8>>::new(s.clone());
                let l = CandyTypedList::<String, String, Vec<u8>>::new(s.clone());
                let q = CandyTypedDeque::<String, Vec<u8>>::new(s.clone());
                let pos = li_.iter().position(|x| x.0 == k);
                macro_rules! cmp {
                    ($g:expr, $w:expr) => {
                        if $g != $w {
                            return Err(format!("{what} returned another value than expected"));
                        }
                    };
                }
                // Ok(false): rejected
                macro_rules! go {
                    ($e:expr) => {
                        match $e {
                            Ok(x) => x,
                            Err(_) if !fits => return Ok(false),
                            Err(e) => return Err(format!("{what} returned an error: {e:#}")),
                        }
                    };
                }
                match op {
                    0 | 1 => {
                        let g = go!(t.set(&k, &v));
                        cmp!(g, kv_.insert(k.clone(), v.clone()));
                    }
                    2 => {
                        let g = go!(t.replace(&k, &v, None));
                        cmp!(g, kv_.get(&k).cloned());
                        if let Some(x) = kv_.get_mut(&k) {
                            *x = v.clone();
                        }
                    }
                    3 => {
                        let g = go!(t.get_or_create(&k, &v));
                        cmp!(&g, kv_.entry(k.clone()).or_insert(v.clone()));
                    }
                    4 | 5 => {
                        go!(l.set("list", &k, &v));
                        match pos {
                            Some(i) => li_[i].1 = v.clone(),
                            None => li_.push((k.clone(), v.clone())),
                        }
                    }
                    6 => {
                        go!(l.set_promoting("list", &k, &v));
                        if let Some(i) = pos {
                            li_.remove(i);
                        }
                        li_.push((k.clone(), v.clone()));
                    }
                    7 => {
                        go!(q.push_head("deque", &v));
                        dq_.push_front(v.clone());
                    }
                    _ => {
                        go!(q.push_tail("deque", &v));
                        dq_.push_back(v.clone());
                    }
                }
                Ok(true)
            })
        });
        let ok = w.chk("typed call", x)?;
        ctx.count(if ok { "typed_calls_accepted" } else { "typed_calls_rejected" }, 1);
        if !ok {
            ctx.distinct.insert(mix(mix(op, kl as u64), vl as u64));
        }
        if !ok || r.chance(1, 8) || i == 49 {
            let full = i == 49;
            if full {
                w.gate(false);
                drop(s);
                w.reopen()?;
            }
            let s: Arc<CandyStore> = w.s.clone().unwrap();
            let x = guard(|| {
                in_op(|| -> R {
                    let t = CandyTypedStore::<String, Vec<u8>>::new(s.clone());
                    let l = CandyTypedList::<String, String, Vec<u8>>::new(s.clone());
                    let q = CandyTypedDeque::<String, Vec<u8>>::new(s.clone());
                    let e = |e: anyhow_like::E| format!("reading back returned an error: {e:#}");
                    for (k, v) in &kv {
                        if t.get(k).map_err(e)?.as_ref() != Some(v) {
                            return Err(format!("after {what}: typed get of a key of {} bytes is wrong", k.len()));
                        }
                    }
                    if !kv.contains_key(&k) && t.contains(&k).map_err(e)? {
                        return Err(format!("after {what}: the typed key exists"));
                    }
                    let mut g = vec![];
                    for x in l.iter("list") {
                        g.push(x.map_err(e)?);
                    }
                    if g != li || l.len("list").map_err(e)? != li.len() {
                        return Err(format!("after {what}: the typed list has {} items, expected {}, or other ones", g.len(), li.len()));
                    }
                    let mut g = vec![];
                    for x in q.iter("deque") {
                        g.push(x.map_err(e)?.1);
                    }
                    if g != Vec::from(dq.clone()) || q.len("deque").map_err(e)? != dq.len() {
                        return Err(format!("after {what}: the typed deque has {} items, expected {}, or other ones", g.len(), dq.len()));
                    }
                    Ok(())
                })
            });
            w.chk("typed contents after a rejected call", x)?;
        }
        w.background(&mut r);
    }
    w.finish(ctx)
}

pub fn c13(ctx: &mut Ctx, case: u64) -> VR {
    match case % 5 {
        0 => plain_large(ctx, case),
        1 | 2 => plain_small(ctx, case),
        3 => collections(ctx, case),
        _ => typed(ctx, case),
    }
}
