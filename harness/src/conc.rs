//! Concurrent histories: many client threads, injected delays and preemptions, parked background threads; recorded
//! with call/return stamps and judged offline by the linearizability checker.
use crate::lin::*;
use crate::model::*;
use crate::run::*;
use crate::seq::{begin, World};
use crate::sys;
use crate::util::*;
use candystore::*;
use std::result::Result;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub static CLOCK: AtomicU64 = AtomicU64::new(1);
pub fn now() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

/// values: 4-byte id + padding derived from the id
pub fn enc(id: u32, max: usize) -> B {
    let n = if max < 5 { 0 } else { (mix(id as u64, 77) % (max as u64 - 4)) as usize };
    let mut v = id.to_le_bytes().to_vec();
    v.extend((0..n).map(|i| (id as usize + i * 7) as u8));
    v
}
pub fn dec(v: &[u8], max: usize) -> Result<u32, String> {
    if v.len() < 4 {
        return Err(format!("a value that was never written: {}", show(v)));
    }
    let id = u32::from_le_bytes(v[..4].try_into().unwrap());
    if enc(id, max) != v || id == 0 {
        return Err(format!("a value that was never written: {}", show(v)));
    }
    Ok(id)
}

pub struct Chaos;
impl Chaos {
    pub fn on(r: &mut Rng) -> String {
        let (p, us) = *r.pick(&[(0u32, 1u32), (40, 300), (300, 60), (150, 400), (15, 2500), (500, 30)]);
        sys::CHAOS_SEED.store(r.next(), SeqCst);
        sys::CHAOS_P.store(p, SeqCst);
        sys::CHAOS_MAX_US.store(us, SeqCst);
        if p > 0 {
            sys::flags_on(sys::F_CHAOS);
        }
        let pre = r.chance(1, 2);
        if pre {
            sys::PREEMPT_US.store(*r.pick(&[60, 200, 900]), SeqCst);
            sys::start_preempter();
        }
        sys::PREEMPT_ON.store(pre, SeqCst);
        let gate = r.chance(1, 2);
        if gate {
            sys::flags_on(sys::F_GATE);
            sys::gate_close();
        }
        format!("delays {p}/1000 up to {us} us, preemption {pre}, background parked {gate}")
    }
    pub fn off() {
        sys::PREEMPT_ON.store(false, SeqCst);
        sys::flags_off(sys::F_CHAOS | sys::F_GATE);
        sys::gate_open();
        sys::CHAOS_P.store(0, SeqCst);
    }
}

/// run client closures in parallel; `ctl` runs in this thread until all are done
pub fn parallel<T: Send>(fs: Vec<Box<dyn FnOnce() -> T + Send + '_>>, mut ctl: impl FnMut()) -> Vec<Result<T, String>> {
    let left = AtomicU32::new(fs.len() as u32);
    let start = std::sync::Barrier::new(fs.len());
    CTL_TID.store(unsafe { libc::gettid() } as u32, SeqCst);
    let res = std::thread::scope(|sc| {
        let hs: Vec<_> = fs
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                let (left, start) = (&left, &start);
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(sc, move || {
                        sys::set_class(1 + i as u8);
                        start.wait();
                        let r = guard(f);
                        sys::client_done();
                        left.fetch_sub(1, SeqCst);
                        r
                    })
                    .expect("spawn")
            })
            .collect();
        while left.load(SeqCst) > 0 {
            ctl();
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    CTL_TID.store(0, SeqCst);
    res
}
/// background threads advance in random bursts while clients run
pub fn controller(r: &mut Rng) -> impl FnMut() + '_ {
    move || {
        std::thread::sleep(std::time::Duration::from_micros(50 + r.below(600)));
        if sys::FLAGS.load(Relaxed) & sys::F_GATE != 0 {
            match r.below(6) {
                0 => sys::gate_set(2000),
                1..=3 => sys::gate_set(1 + r.below(40) as i64),
                _ => {}
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct PlainOpts {
    pub threads: usize,
    pub ops: usize,
    pub keys: usize,
    pub hot: usize,
    pub merger: u32,
    pub clearer: u32,
    pub observers: bool,
    pub vmax: usize,
}

pub struct PlainOut {
    pub merges_done: u64,
}

type PRec = (usize, Rec<RegOp>);

fn plain_client(
    s: &CandyStore,
    keys: &[B],
    o: &PlainOpts,
    t: usize,
    seed: u64,
    ids: &AtomicU32,
) -> Result<Vec<PRec>, String> {
    let mut r = Rng::new(seed);
    sys::seed_thread(r.next());
    let mut out = Vec::with_capacity(o.ops);
    let mut last = vec![0u32; keys.len()];
    let style = r.below(3);
    for _ in 0..o.ops {
        let ki = if r.chance(2, 3) { r.usize(o.hot.min(keys.len())) } else { r.usize(keys.len()) };
        let k = &keys[ki];
        let id = ids.fetch_add(1, SeqCst);
        let v = enc(id, o.vmax);
        let e = |e: ErrT| format!("error from a valid call: {e:#}");
        let d = |v: &[u8]| dec(v, o.vmax);
        tickn();
        let w: &[u32] = match style {
            0 => &[30, 20, 5, 15, 10, 20],
            1 => &[60, 10, 2, 20, 5, 5],
            _ => &[15, 10, 5, 25, 25, 20],
        };
        let which = r.weighted(w);
        let owned = r.chance(1, 3);
        let exp = if r.chance(1, 2) { last[ki] } else { 0 };
        let call = now();
        let op = match which {
            0 => {
                let x = if owned { s.owned_set(k.clone(), &v) } else { s.set(k, &v) }.map_err(e)?;
                let p = match x {
                    SetStatus::CreatedNew => 0,
                    SetStatus::PrevValue(p) => d(&p)?,
                };
                last[ki] = id;
                RegOp::Set(id, p)
            }
            1 => {
                let x = s.get(k).map_err(e)?;
                let p = x.map(|x| d(&x)).transpose()?.unwrap_or(0);
                last[ki] = p;
                RegOp::Get(p)
            }
            2 => RegOp::Contains(s.contains(k).map_err(e)?),
            3 => {
                let x = s.remove(k).map_err(e)?;
                RegOp::Remove(x.map(|x| d(&x)).transpose()?.unwrap_or(0))
            }
            4 => {
                let ev = (exp != 0).then(|| enc(exp, o.vmax));
                let x = s.replace(k, &v, ev.as_ref()).map_err(e)?;
                let (done, seen) = match x {
                    ReplaceStatus::DoesNotExist => (false, 0),
                    ReplaceStatus::PrevValue(p) => (true, d(&p)?),
                    ReplaceStatus::WrongValue(p) => (false, d(&p)?),
                };
                last[ki] = if done { id } else { seen };
                RegOp::Replace(id, (exp != 0).then_some(exp), done, seen)
            }
            _ => {
                let x = s.get_or_create(k, &v).map_err(e)?;
                match x {
                    GetOrCreateStatus::CreatedNew(n) => {
                        if d(&n)? != id {
                            return Err("get_or_create reports creating another value".into());
                        }
                        RegOp::Goc(id, true, id)
                    }
                    GetOrCreateStatus::ExistingValue(p) => RegOp::Goc(id, false, d(&p)?),
                }
            }
        };
        let ret = now();
        out.push((ki, Rec { call, ret, thread: t as u8, op }));
    }
    Ok(out)
}
pub type ErrT = crate::seq::anyhow_like::E;

/// one concurrent round over plain keys; everything is verified
pub fn plain_round(ctx: &mut Ctx, w: &mut World, o: &PlainOpts, r: &mut Rng, keys: &[B]) -> VR<PlainOut> {
    let s = w.s.clone().unwrap();
    let ids = AtomicU32::new(1);
    let stop = AtomicBool::new(false);
    let clients_left = AtomicU32::new(o.threads as u32);
    // initial state
    let mut recs: Vec<PRec> = vec![];
    for (i, k) in keys.iter().enumerate() {
        if r.chance(1, 2) {
            let id = ids.fetch_add(1, SeqCst);
            let call = now();
            let x = guard(|| s.set(k, &enc(id, o.vmax)).map_err(|e| format!("set failed: {e:#}")));
            w.chk("set", x)?;
            recs.push((i, Rec { call, ret: now(), thread: 0, op: RegOp::Set(id, 0) }));
        }
    }
    w.desc = format!("{} [{o:?}]", Chaos::on(r));
    tick(|| format!("concurrent plain operations, {} {}", w.cfg.short(), w.desc));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let seeds: Vec<u64> = (0..o.threads + 8).map(|_| r.next()).collect();
    let merges = AtomicU64::new(0);
    let obs = AtomicU64::new(0);
    let clears = std::sync::Mutex::new(Vec::<(u64, u64)>::new());
    type F<'a> = Box<dyn FnOnce() -> Result<Vec<PRec>, String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for t in 0..o.threads {
        let (s, o, ids, seed, left, stop) = (&s, o, &ids, seeds[t], &clients_left, &stop);
        fs.push(Box::new(move || {
            struct D<'a>(&'a AtomicU32, &'a AtomicBool);
            impl<'a> Drop for D<'a> {
                fn drop(&mut self) {
                    if self.0.fetch_sub(1, SeqCst) == 1 {
                        self.1.store(true, SeqCst);
                    }
                }
            }
            let _d = D(left, stop);
            plain_client(s, keys, o, t, seed, ids)
        }));
    }
    if o.merger > 0 {
        let (s, stop, merges, seed) = (&s, &stop, &merges, seeds[o.threads]);
        let n = o.merger;
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            for _ in 0..n {
                if stop.load(SeqCst) {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(r.below(3000)));
                let x = s
                    .merge_small_shards(*r.pick(&[0.1f32, 0.3, 0.49]))
                    .map_err(|e| format!("merge_small_shards returned an error: {e:#}"))?;
                merges.fetch_add(x as u64, SeqCst);
            }
            Ok(vec![])
        }));
    }
    if o.clearer > 0 {
        let (s, stop, clears, seed) = (&s, &stop, &clears, seeds[o.threads + 1]);
        let n = o.clearer;
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            for _ in 0..n {
                if stop.load(SeqCst) {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(r.below(3000)));
                let call = now();
                s.clear().map_err(|e| format!("clear returned an error: {e:#}"))?;
                clears.lock().unwrap().push((call, now()));
            }
            Ok(vec![])
        }));
    }
    if o.observers {
        let (s, stop, seed, obs) = (&s, &stop, seeds[o.threads + 2], &obs);
        let vmax = o.vmax;
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            while !stop.load(SeqCst) {
                obs.fetch_add(1, SeqCst);
                match r.below(4) {
                    0 => {
                        let st = s.stats();
                        let _ = (st.num_entries(), st.data_bytes());
                    }
                    1 => {
                        for x in s.iter() {
                            let (_, v) = x.map_err(|e| format!("iter returned an error: {e:#}"))?;
                            dec(&v, vmax)?;
                        }
                    }
                    2 => {
                        s.flush().map_err(|e| format!("flush returned an error: {e:#}"))?;
                    }
                    _ => std::thread::sleep(std::time::Duration::from_micros(r.below(500))),
                }
            }
            Ok(vec![])
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    for x in res {
        let v = w.chk("concurrent call", x.map(|x| x))?;
        w.nops += v.len() as u64;
        recs.extend(v);
    }
    for (a, b) in clears.lock().unwrap().iter() {
        for i in 0..keys.len() {
            recs.push((i, Rec { call: *a, ret: *b, thread: 99, op: RegOp::Clear }));
        }
    }
    ctx.count("merges_that_changed_shards", merges.load(SeqCst));
    ctx.count("observer_calls", obs.load(SeqCst));
    ctx.count("concurrent_clears", clears.lock().unwrap().len() as u64);
    // final state, before and after closing
    for phase in 0..2 {
        if phase == 1 {
            drop(w.s.take());
            break;
        }
        tick(|| "final reads".into());
        let mut m: BTreeMap<B, B> = BTreeMap::new();
        for (i, k) in keys.iter().enumerate() {
            let call = now();
            let x = guard(|| s.get(k).map_err(|e| format!("get failed: {e:#}")));
            let x = w.chk("get", x)?;
            if let Some(v) = &x {
                m.insert(k.clone(), v.clone());
            }
            let id = match x.map(|x| dec(&x, o.vmax)).transpose() {
                Ok(x) => x.unwrap_or(0),
                Err(e) => return w.viol("garbage", e),
            };
            recs.push((i, Rec { call, ret: now(), thread: 0, op: RegOp::Get(id) }));
        }
        w.m = Model { kv: m, ..Model::default() };
    }
    drop(s);
    // judge
    let mut per: Vec<Vec<Rec<RegOp>>> = vec![vec![]; keys.len()];
    for (i, x) in recs {
        per[i].push(x);
    }
    sys::set_class(sys::HARNESS);
    for (i, p) in per.iter().enumerate() {
        match check(Reg(0), p) {
            Verdict::Ok { configs, overlaps } => {
                ctx.count("calls_checked", p.len() as u64);
                ctx.count("overlapping_calls", overlaps as u64);
                ctx.max("max_configurations", configs as u64);
            }
            Verdict::TooBig => ctx.count("keys_skipped_too_large", 1),
            Verdict::Bad(b) => {
                let bad = p[b].clone();
                let mut near: Vec<&Rec<RegOp>> =
                    p.iter().filter(|x| x.call < bad.ret && x.ret + 400 > bad.call).collect();
                near.sort_by_key(|x| x.call);
                let n = near.len();
                let txt: Vec<String> = near[n.saturating_sub(14)..]
                    .iter()
                    .map(|x| format!("[{}..{}] t{} {:?}", x.call, x.ret, x.thread, x.op))
                    .collect();
                return w.viol(
                    "not linearizable",
                    format!(
                        "no order of effects explains the results on key {}: {:?} by thread {} cannot be explained; calls on the key: {}",
                        show(&keys[i]),
                        bad.op,
                        bad.thread,
                        txt.join(" ")
                    ),
                );
            }
        }
    }
    sys::set_class(1);
    Ok(PlainOut { merges_done: merges.load(SeqCst) })
}

pub fn finish_round(ctx: &mut Ctx, w: &mut World, r: &mut Rng) -> VR {
    // the store as it is after closing
    w.open()?;
    w.verify(r, "contents after reopening")?;
    w.finish(ctx)
}

pub fn conc_cfg(r: &mut Rng) -> Cfg {
    let mut cfg = Cfg::tiny(r);
    cfg.max_shard = *r.pick(&[3000u32, 5000, 9000, 20_000]);
    cfg.min_compact = *r.pick(&[200u32, 500, 1500]);
    if r.chance(1, 3) {
        cfg.min_compact = cfg.max_shard; // splits instead of compactions
    }
    cfg.expected = if r.chance(1, 6) { 60_000 } else { 0 };
    cfg
}
pub fn c03(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let cfg = conc_cfg(&mut r);
    let nk = 4 + r.usize(60);
    let keys = Pool::new(&mut r, &cfg.seed, nk).keys;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let o = PlainOpts {
        threads: 2 + r.usize(6),
        ops: 40 + r.usize(160),
        keys: keys.len(),
        hot: 1 + r.usize(5),
        merger: if r.chance(1, 3) { 6 } else { 0 },
        clearer: 0,
        observers: r.chance(1, 4),
        vmax: *r.pick(&[8usize, 60, 300]),
    };
    plain_round(ctx, &mut w, &o, &mut r, &keys)?;
    finish_round(ctx, &mut w, &mut r)
}

// ------------------------------------------------------------------ lists and queues

enum CRec {
    L(usize, Rec<LOp>),
    Q(usize, Rec<QOp>),
}

pub fn c07(ctx: &mut Ctx, case: u64) -> VR {
    coll_round(ctx, case, false)
}
pub fn coll_round(ctx: &mut Ctx, case: u64, clearer: bool) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    cfg.locks = *r.pick(&[0, 4, 64]);
    let nl = r.usize(3);
    let nq = if nl == 0 { 1 + r.usize(2) } else { r.usize(3) };
    let threads = 2 + r.usize(5);
    let ops = 30 + r.usize(90);
    let nitems = 2 + r.usize(5);
    let vmax = *r.pick(&[8usize, 60, 300]);
    let discard = r.chance(1, 2);
    let compacting = r.chance(1, 3);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let s = w.s.clone().unwrap();
    let lists: Vec<B> = (0..nl).map(|i| format!("list{i}").into_bytes()).collect();
    let queues: Vec<B> = (0..nq).map(|i| format!("list{i}").into_bytes()).collect();
    w.desc = format!(
        "{} [threads={threads} ops={ops} lists={nl} queues={nq} items={nitems} discard={discard} vmax={vmax}]",
        Chaos::on(&mut r)
    );
    tick(|| format!("concurrent list/queue operations, {} {}", w.cfg.short(), w.desc));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let clears = std::sync::Mutex::new(Vec::<(u64, u64)>::new());
    let ids = AtomicU32::new(1);
    let mode = r.below(3); // 0 mixed, 1 producers/consumers, 2 pops heavy
    type F<'a> = Box<dyn FnOnce() -> Result<Vec<CRec>, String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for t in 0..threads {
        let (s, ids, lists, queues) = (&s, &ids, &lists, &queues);
        let seed = r.next();
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            let mut out = vec![];
            let e = |e: ErrT| format!("error from a valid call: {e:#}");
            let d = |v: &[u8]| dec(v, vmax);
            let mut lastidx = vec![0x8000_0000_0000_0000u64; queues.len()];
            let mut lastval = vec![0u32; 256];
            for _ in 0..ops {
                tickn();
                let id = ids.fetch_add(1, SeqCst);
                let v = enc(id, vmax);
                let which = r.usize(lists.len() + queues.len());
                if which < lists.len() {
                    let l = &lists[which];
                    if compacting && r.chance(1, 8) {
                        // changes nothing, so it isn't recorded
                        let p = ListCompactionParams { min_length: r.below(5), min_holes_ratio: r.below(3) as f64 / 4.0 };
                        s.compact_list_if_needed(l, p).map_err(e)?;
                    }
                    let i = r.usize(nitems) as u8;
                    let ik = [b'i', i];
                    let wts: [u32; 8] = match mode {
                        1 if t % 2 == 0 => [60, 5, 10, if discard { 0 } else { 5 }, 2, 2, 2, 0],
                        1 => [2, 2, 2, if discard { 0 } else { 4 }, 20, 40, 30, discard as u32],
                        2 => [30, 3, 5, if discard { 0 } else { 4 }, 8, 25, 25, discard as u32],
                        _ => [26, 10, 12, if discard { 0 } else { 10 }, 14, 10, 10, discard as u32 * 2],
                    };
                    let exp = lastval[i as usize];
                    let k = if r.chance(1, 10) { 8 } else { r.weighted(&wts) };
                    let cond = r.chance(1, 2) && exp != 0;
                    let call = now();
                    let op = match k {
                        0 => match s.set_in_list(l, &ik, &v).map_err(e)? {
                            SetStatus::CreatedNew => LOp::Set(i, id, 0),
                            SetStatus::PrevValue(p) => LOp::Set(i, id, d(&p)?),
                        },
                        1 => {
                            let ev = cond.then(|| enc(exp, vmax));
                            match s.replace_in_list(l, &ik, &v, ev.as_ref()).map_err(e)? {
                                ReplaceStatus::DoesNotExist => LOp::Replace(i, id, cond.then_some(exp), false, 0),
                                ReplaceStatus::PrevValue(p) => LOp::Replace(i, id, cond.then_some(exp), true, d(&p)?),
                                ReplaceStatus::WrongValue(p) => {
                                    LOp::Replace(i, id, cond.then_some(exp), false, d(&p)?)
                                }
                            }
                        }
                        2 => match s.get_or_create_in_list(l, &ik, &v).map_err(e)? {
                            GetOrCreateStatus::CreatedNew(x) => {
                                if d(&x)? != id {
                                    return Err("get_or_create_in_list reports creating another value".into());
                                }
                                LOp::Goc(i, id, true, id)
                            }
                            GetOrCreateStatus::ExistingValue(p) => LOp::Goc(i, id, false, d(&p)?),
                        },
                        3 => {
                            let x = s.get_from_list(l, &ik).map_err(e)?;
                            let p = x.map(|x| d(&x)).transpose()?.unwrap_or(0);
                            LOp::Get(i, p)
                        }
                        4 => {
                            let x = s.remove_from_list(l, &ik).map_err(e)?;
                            LOp::Remove(i, x.map(|x| d(&x)).transpose()?.unwrap_or(0))
                        }
                        5 | 6 => {
                            let x = if k == 5 { s.pop_list_head(l) } else { s.pop_list_tail(l) }.map_err(e)?;
                            let x = match x {
                                None => None,
                                Some((k, v)) => {
                                    if k.len() != 2 || k[0] != b'i' {
                                        return Err(format!("pop_list returned an unknown item {}", show(&k)));
                                    }
                                    Some((k[1], d(&v)?))
                                }
                            };
                            LOp::Pop(k == 5, x)
                        }
                        8 => {
                            let head = r.chance(1, 2);
                            let x = if head { s.peek_list_head(l) } else { s.peek_list_tail(l) }.map_err(e)?;
                            let x = match x {
                                None => None,
                                Some((k, v)) => {
                                    if k.len() != 2 || k[0] != b'i' {
                                        return Err(format!("peek_list returned an unknown item {}", show(&k)));
                                    }
                                    Some((k[1], d(&v)?))
                                }
                            };
                            LOp::Peek(head, x)
                        }
                        _ => LOp::Discard(s.discard_list(l).map_err(e)?),
                    };
                    let ret = now();
                    match &op {
                        LOp::Set(_, v, _) | LOp::Get(_, v) | LOp::Replace(_, v, _, true, _) | LOp::Goc(_, _, _, v) => {
                            lastval[i as usize] = *v
                        }
                        LOp::Replace(_, _, _, false, v) => lastval[i as usize] = *v,
                        _ => {}
                    }
                    out.push(CRec::L(which, Rec { call, ret, thread: t as u8, op }));
                } else {
                    let qi = which - lists.len();
                    let q = &queues[qi];
                    let wts: [u32; 8] = match mode {
                        1 if t % 2 == 0 => [20, 40, 8, 1, 1, 3, 0, 3],
                        1 => [1, 1, 1, 40, 30, 6, discard as u32, 3],
                        2 => [15, 20, 5, 25, 25, 8, discard as u32, 4],
                        _ => [14, 16, 8, 14, 12, 12, discard as u32 * 2, 8],
                    };
                    let k = if r.chance(1, 10) { 8 } else { r.weighted(&wts) };
                    let ridx = lastidx[qi].wrapping_add(r.below(5)).wrapping_sub(2);
                    let n = 1 + r.usize(3);
                    let extra: Vec<u32> = if k == 2 {
                        (0..n).map(|_| ids.fetch_add(1, SeqCst)).collect()
                    } else {
                        vec![]
                    };
                    let call = now();
                    let op = match k {
                        0 => QOp::Push(true, id, s.push_to_queue_head(q, &v).map_err(e)? as u64),
                        1 => QOp::Push(false, id, s.push_to_queue_tail(q, &v).map_err(e)? as u64),
                        2 => {
                            let vs: Vec<B> = extra.iter().map(|i| enc(*i, vmax)).collect();
                            let rg = s.extend_queue(q, vs.iter()).map_err(e)?;
                            if rg.len() != extra.len() {
                                return Err(format!("extend_queue of {} items returned {rg:x?}", extra.len()));
                            }
                            QOp::Extend(extra, rg.start as u64)
                        }
                        3 | 4 => {
                            let x = if k == 3 { s.pop_queue_head_with_idx(q) } else { s.pop_queue_tail_with_idx(q) }
                                .map_err(e)?;
                            let x = match x {
                                None => None,
                                Some((i, v)) => Some((i as u64, d(&v)?)),
                            };
                            QOp::Pop(k == 3, x)
                        }
                        5 => {
                            let x = s.remove_from_queue(q, ridx as usize).map_err(e)?;
                            QOp::Remove(ridx, x.map(|x| d(&x)).transpose()?.unwrap_or(0))
                        }
                        6 => QOp::Discard(s.discard_queue(q).map_err(e)?),
                        8 => {
                            let head = r.chance(1, 2);
                            let x = if head { s.peek_queue_head_with_idx(q) } else { s.peek_queue_tail_with_idx(q) }
                                .map_err(e)?;
                            QOp::Peek(head, x.map(|(i, v)| Ok::<_, String>((i as u64, d(&v)?))).transpose()?)
                        }
                        _ => QOp::Len(s.queue_len(q).map_err(e)? as u64),
                    };
                    let ret = now();
                    if let QOp::Push(_, _, i) | QOp::Extend(_, i) | QOp::Pop(_, Some((i, _))) = &op {
                        lastidx[qi] = *i;
                    }
                    out.push(CRec::Q(qi, Rec { call, ret, thread: t as u8, op }));
                }
            }
            Ok(out)
        }));
    }
    if clearer {
        let (s, clears, seed) = (&s, &clears, r.next());
        let n = 1 + r.usize(5);
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            for _ in 0..n {
                std::thread::sleep(std::time::Duration::from_micros(r.below(4000)));
                let call = now();
                s.clear().map_err(|e| format!("clear returned an error: {e:#}"))?;
                clears.lock().unwrap().push((call, now()));
            }
            Ok(vec![])
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    let mut lh: Vec<Vec<Rec<LOp>>> = vec![vec![]; nl];
    let mut qh: Vec<Vec<Rec<QOp>>> = vec![vec![]; nq];
    for x in res {
        let v = w.chk("concurrent call", x)?;
        w.nops += v.len() as u64;
        for x in v {
            match x {
                CRec::L(i, x) => lh[i].push(x),
                CRec::Q(i, x) => qh[i].push(x),
            }
        }
    }
    for &(call, ret) in clears.lock().unwrap().iter() {
        ctx.count("concurrent_clears", 1);
        lh.iter_mut().for_each(|h| h.push(Rec { call, ret, thread: 99, op: LOp::Clear }));
        qh.iter_mut().for_each(|h| h.push(Rec { call, ret, thread: 99, op: QOp::Clear }));
    }
    // contents as iteration sees them, and draining
    let reopen = r.chance(1, 3);
    drop(s);
    if reopen {
        w.reopen()?;
    }
    let s = w.s.clone().unwrap();
    tick(|| "draining".into());
    for i in 0..nl {
        let l = &lists[i];
        let mut seen: Vec<(B, B)> = vec![];
        let x = guard(|| -> R {
            for x in s.iter_list(l) {
                seen.push(x.map_err(|e| format!("iter_list: {e:#}"))?);
            }
            Ok(())
        });
        w.chk("iter_list", x)?;
        let x = guard(|| -> R<usize> { s.list_len(l).map_err(|e| format!("{e:#}")) });
        let n = w.chk("list_len", x)?;
        if n != seen.len() {
            return w.viol("list_len", format!("list_len = {n} at quiescence, iteration finds {}", seen.len()));
        }
        let head = r.chance(1, 2);
        if !head {
            seen.reverse();
        }
        let mut j = 0;
        loop {
            let call = now();
            let x = guard(|| -> R<_> {
                if head { s.pop_list_head(l) } else { s.pop_list_tail(l) }.map_err(|e| format!("pop_list: {e:#}"))
            });
            let x = w.chk("pop_list", x)?;
            if x.as_ref() != seen.get(j) {
                return w.viol(
                    "pop_list",
                    format!(
                        "draining {}: pop {j} returned {:?}, iteration before had {:?}",
                        show(l),
                        x.map(|x| (show(&x.0), show(&x.1))),
                        seen.get(j).map(|x| (show(&x.0), show(&x.1)))
                    ),
                );
            }
            let done = x.is_none();
            let x = match x {
                None => None,
                Some((k, v)) => match dec(&v, vmax) {
                    Ok(d) => Some((k[1], d)),
                    Err(e) => return w.viol("garbage", e),
                },
            };
            lh[i].push(Rec { call, ret: now(), thread: 0, op: LOp::Pop(head, x) });
            j += 1;
            if done {
                break;
            }
        }
    }
    for i in 0..nq {
        let q = &queues[i];
        let head = r.chance(1, 2);
        loop {
            let call = now();
            let x = guard(|| -> R<_> {
                if head { s.pop_queue_head_with_idx(q) } else { s.pop_queue_tail_with_idx(q) }
                    .map_err(|e| format!("pop_queue: {e:#}"))
            });
            let x = w.chk("pop_queue", x)?;
            let done = x.is_none();
            let x = match x {
                None => None,
                Some((k, v)) => match dec(&v, vmax) {
                    Ok(d) => Some((k as u64, d)),
                    Err(e) => return w.viol("garbage", e),
                },
            };
            qh[i].push(Rec { call, ret: now(), thread: 0, op: QOp::Pop(head, x) });
            if done {
                break;
            }
        }
    }
    drop(s);
    sys::set_class(sys::HARNESS);
    for (i, h) in lh.iter().enumerate() {
        judge(ctx, &w, LSt(vec![]), h, &format!("list {}", show(&lists[i])))?;
    }
    for (i, h) in qh.iter().enumerate() {
        judge(ctx, &w, QSt(vec![]), h, &format!("queue {}", show(&queues[i])))?;
    }
    sys::set_class(1);
    w.finish(ctx)
}

pub fn judge<S: Spec>(ctx: &mut Ctx, w: &World, init: S, h: &[Rec<S::Op>], what: &str) -> VR
where
    S::Op: std::fmt::Debug + Clone,
{
    match check(init, h) {
        Verdict::Ok { configs, overlaps } => {
            ctx.count("calls_checked", h.len() as u64);
            ctx.count("overlapping_calls", overlaps as u64);
            ctx.max("max_configurations", configs as u64);
            Ok(())
        }
        Verdict::TooBig => {
            ctx.count("histories_skipped_too_large", 1);
            Ok(())
        }
        Verdict::Bad(b) => {
            let bad = h[b].clone();
            let mut near: Vec<&Rec<S::Op>> = h.iter().filter(|x| x.call < bad.ret && x.ret + 60 > bad.call).collect();
            near.sort_by_key(|x| x.call);
            let n = near.len();
            let txt: Vec<String> = near[n.saturating_sub(16)..]
                .iter()
                .map(|x| format!("[{}..{}] t{} {:?}", x.call, x.ret, x.thread, x.op))
                .collect();
            w.viol(
                "not linearizable",
                format!(
                    "no order of effects explains the results on {what}: {:?} by thread {} cannot be explained; recent calls: {}",
                    bad.op,
                    bad.thread,
                    txt.join(" ")
                ),
            )
        }
    }
}

// ------------------------------------------------------------------ progress

pub fn c17(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    cfg.threads = *r.pick(&[0usize, 1, 2, 8]);
    if r.chance(1, 3) {
        cfg.max_shard = *r.pick(&[700u32, 1500]);
        cfg.min_compact = *r.pick(&[0u32, 64, 600]);
    }
    let vmax = if cfg.max_shard < 2000 { 40 } else { 250 };
    let npool = 10 + r.usize(60);
    let pool = Pool::new(&mut r, &cfg.seed, npool);
    let pool = Pool { keys: pool.keys.into_iter().filter(|k| k.len() < 60).chain([b"k".to_vec()]).collect(), style: pool.style };
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let s = w.s.clone().unwrap();
    let threads = 2 + r.usize(6);
    let ops = 60 + r.usize(150);
    w.desc = format!("{} [threads={threads} ops={ops}]", Chaos::on(&mut r));
    tick(|| format!("hostile mix of all operations, {} {}", w.cfg.short(), w.desc));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let mut prof = Profile::default();
    prof.vmax = vmax;
    prof.w = [60, 20, 20, 0, 1, 3, 4, 4, 2];
    prof.nlists = 2;
    prof.nitems = 6;
    let kinds = std::sync::Mutex::new(BTreeMap::<&'static str, u64>::new());
    let errs = AtomicU64::new(0);
    type F<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    let gseed = r.next();
    for _ in 0..threads {
        let (s, pool, kinds, errs) = (&s, &pool, &kinds, &errs);
        let seed = r.next();
        let prof = prof.clone();
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            let mut gr = Rng::new(gseed);
            let mut g = Gen::new(pool, prof, &mut gr);
            let mut mine = BTreeMap::new();
            for _ in 0..ops {
                tickn();
                let m = Model::default();
                let mut op = g.op(&m, &mut r);
                if let Op::LIter(..) = op {
                    if r.chance(1, 4) {
                        op = Op::IterAll;
                    }
                }
                // the body of a loop over the store, a list or a queue may use what it iterates over
                let looping = matches!(op, Op::LIter(..) | Op::QIter(..) | Op::IterAll) && r.chance(1, 2);
                if looping {
                    *mine.entry("loop with calls").or_insert(0u64) += 1;
                    let e = |e: ErrT| errs.fetch_add(e.to_string().len().min(1) as u64, SeqCst);
                    let mut n = 0;
                    match &op {
                        Op::LIter(l, f) => {
                            let mut it: Box<dyn Iterator<Item = _>> = if *f { Box::new(s.iter_list(l)) } else { Box::new(s.iter_list_backwards(l)) };
                            while let Some(x) = it.next() {
                                if let Ok((k, v)) = x {
                                    let _ = match r.below(4) {
                                        0 => s.remove_from_list(l, &k).map(|_| ()).map_err(e),
                                        1 => s.set_in_list(l, &k, &v[..v.len() / 2]).map(|_| ()).map_err(e),
                                        2 => s.pop_list_head(l).map(|_| ()).map_err(e),
                                        _ => s.list_len(l).map(|_| ()).map_err(e),
                                    };
                                }
                                n += 1;
                                if n > 40 {
                                    break;
                                }
                            }
                        }
                        Op::QIter(q, f) => {
                            let mut it: Box<dyn Iterator<Item = _>> = if *f { Box::new(s.iter_queue(q)) } else { Box::new(s.iter_queue_backwards(q)) };
                            while let Some(x) = it.next() {
                                if let Ok((i, v)) = x {
                                    let _ = match r.below(4) {
                                        0 => s.remove_from_queue(q, i).map(|_| ()).map_err(e),
                                        1 => s.push_to_queue_tail(q, &v).map(|_| ()).map_err(e),
                                        2 => s.pop_queue_tail(q).map(|_| ()).map_err(e),
                                        _ => s.queue_len(q).map(|_| ()).map_err(e),
                                    };
                                }
                                n += 1;
                                if n > 40 {
                                    break;
                                }
                            }
                        }
                        _ => {
                            let mut it = s.iter();
                            while let Some(x) = it.next() {
                                if let Ok((k, v)) = x {
                                    let _ = match r.below(3) {
                                        0 => s.remove(&k).map(|_| ()).map_err(e),
                                        1 => s.set(&k, &v[..v.len() / 2]).map(|_| ()).map_err(e),
                                        _ => s.get(&k).map(|_| ()).map_err(e),
                                    };
                                }
                                n += 1;
                                if n > 60 {
                                    break;
                                }
                            }
                        }
                    }
                    continue;
                }
                *mine.entry(op.kind()).or_insert(0u64) += 1;
                // results are not compared here (other checks do): only that the call finishes
                let mut scratch = Model::default();
                if let Err(e) = scratch.apply(s, &op, &mut r) {
                    if e.contains("returned an error") {
                        errs.fetch_add(1, SeqCst);
                        if !e.contains("too big") && !e.contains("fit") {
                            return Err(e);
                        }
                    }
                }
            }
            let mut k = kinds.lock().unwrap();
            for (a, b) in mine {
                *k.entry(a).or_default() += b;
            }
            Ok(())
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    for x in res {
        w.chk("error", x)?;
    }
    w.nops += (threads * ops) as u64;
    for (k, n) in kinds.lock().unwrap().iter() {
        ctx.count(&format!("calls.{k}"), *n);
    }
    drop(s);
    // closing while work is pending, and opening again
    if r.chance(1, 2) {
        w.reopen()?;
    }
    w.finish(ctx)
}
