//! C25: walking over a list or a queue while other threads change it. Every change is recorded with call/return
//! stamps and the value it replaced or removed, every step of a walk likewise; an offline checker rebuilds the
//! lifetime of each element and judges the walks against them.
use crate::conc::*;
use crate::model::*;
use crate::run::*;
use crate::seq::{begin, World};
use crate::sys;
use crate::util::*;
use candystore::*;
use std::collections::HashMap;
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

#[derive(Clone, Debug)]
enum Ev {
    /// value written: the element it belongs to (item number or index), the value it replaced (0: created)
    Birth { v: u32, at: u64, prev: u32, call: u64, ret: u64 },
    Death { v: u32, call: u64, ret: u64 },
    Discard { call: u64, ret: u64 },
    Walk(Walk),
    Len { n: u64, call: u64, ret: u64 },
    Range { lo: u64, hi: u64, call: u64, ret: u64 },
}
#[derive(Clone, Debug)]
struct Walk {
    what: &'static str,
    fwd: bool,
    start: u64,
    end: u64,
    complete: bool,
    got: Vec<Step>,
}
#[derive(Clone, Debug)]
struct Step {
    call: u64,
    ret: u64,
    at: u64,
    v: u32,
}

/// one element from its creation to its removal
#[derive(Clone, Debug)]
struct Inst {
    at: u64,
    born: (u64, u64),
    died: (u64, u64),
}
const NEVER: (u64, u64) = (u64::MAX, u64::MAX);

fn e(e: ErrT) -> String {
    format!("error from a valid call: {e:#}")
}

/// what a walk returned, cut off after `limit` steps
fn walk<T>(
    what: &'static str,
    fwd: bool,
    limit: usize,
    pause: &mut dyn FnMut(),
    mk: impl FnOnce() -> T,
    conv: impl Fn(T::Item) -> Result<(u64, u32), String>,
) -> Result<Walk, String>
where
    T: Iterator,
{
    let start = now();
    let mut it = mk();
    pause();
    let mut w = Walk { what, fwd, start, end: 0, complete: false, got: vec![] };
    while w.got.len() < limit {
        tickn();
        let call = now();
        let Some(x) = it.next() else {
            w.complete = true;
            break;
        };
        let ret = now();
        let (at, v) = conv(x)?;
        w.got.push(Step { call, ret, at, v });
        if w.got.len() > 20_000 {
            return Err(format!("{what} does not end"));
        }
        pause();
    }
    // (an iterator over a collection that does not exist may look again)
    if w.complete && !w.got.is_empty() && it.next().is_some() {
        return Err(format!("{what} returned an element after having ended"));
    }
    w.end = now();
    Ok(w)
}
fn peeked(what: &'static str, fwd: bool, f: impl FnOnce() -> Result<Option<(u64, u32)>, String>) -> Result<Walk, String> {
    let start = now();
    let x = f()?;
    let end = now();
    Ok(Walk {
        what,
        fwd,
        start,
        end,
        complete: x.is_none(),
        got: x.map(|(at, v)| Step { call: start, ret: end, at, v }).into_iter().collect(),
    })
}

fn item_key(i: u64) -> Vec<u8> {
    format!("it{i}").into_bytes()
}
fn item_no(k: &[u8]) -> Result<u64, String> {
    std::str::from_utf8(k)
        .ok()
        .and_then(|s| s.strip_prefix("it"))
        .and_then(|s| s.parse().ok())
        .ok_or_else(|| format!("an item that was never inserted: {}", show(k)))
}

struct Plan {
    nitems: u64,
    vmax: usize,
    discard: bool,
    grow: u32,
}

fn change_list(s: &CandyStore, l: &[u8], p: &Plan, ids: &AtomicU32, r: &mut Rng, out: &mut Vec<Ev>) -> Result<(), String> {
    let d = |v: &[u8]| dec(v, p.vmax);
    let at = r.below(p.nitems);
    let k = item_key(at);
    let v = ids.fetch_add(1, SeqCst);
    let b = enc(v, p.vmax);
    let call = now();
    let wts = [p.grow, 12, p.grow / 2, 18, 8, 8, p.discard as u32];
    let prev = match r.weighted(&wts) {
        0 => match s.set_in_list(l, &k, &b).map_err(e)? {
            SetStatus::CreatedNew => Some(0),
            SetStatus::PrevValue(p) => Some(d(&p)?),
        },
        1 => match s.replace_in_list(l, &k, &b, None).map_err(e)? {
            ReplaceStatus::PrevValue(p) => Some(d(&p)?),
            _ => None,
        },
        2 => match s.get_or_create_in_list(l, &k, &b).map_err(e)? {
            GetOrCreateStatus::CreatedNew(_) => Some(0),
            _ => None,
        },
        3 => {
            if let Some(x) = s.remove_from_list(l, &k).map_err(e)? {
                out.push(Ev::Death { v: d(&x)?, call, ret: now() });
            }
            None
        }
        n @ (4 | 5) => {
            if let Some((_, x)) = if n == 4 { s.pop_list_head(l) } else { s.pop_list_tail(l) }.map_err(e)? {
                out.push(Ev::Death { v: d(&x)?, call, ret: now() });
            }
            None
        }
        _ => {
            if s.discard_list(l).map_err(e)? {
                out.push(Ev::Discard { call, ret: now() });
            }
            None
        }
    };
    if let Some(prev) = prev {
        out.push(Ev::Birth { v, at, prev, call, ret: now() });
    }
    Ok(())
}
fn change_queue(
    s: &CandyStore,
    q: &[u8],
    p: &Plan,
    ids: &AtomicU32,
    last: &mut u64,
    r: &mut Rng,
    out: &mut Vec<Ev>,
) -> Result<(), String> {
    let d = |v: &[u8]| dec(v, p.vmax);
    let wts = [p.grow / 2, p.grow / 2, p.grow / 6, 10, 10, 16, p.discard as u32];
    let k = r.weighted(&wts);
    match k {
        0 | 1 => {
            let v = ids.fetch_add(1, SeqCst);
            let b = enc(v, p.vmax);
            let call = now();
            let at = if k == 0 { s.push_to_queue_head(q, &b) } else { s.push_to_queue_tail(q, &b) }.map_err(e)? as u64;
            *last = at;
            out.push(Ev::Birth { v, at, prev: 0, call, ret: now() });
        }
        2 => {
            let vs: Vec<u32> = (0..1 + r.below(4)).map(|_| ids.fetch_add(1, SeqCst)).collect();
            let call = now();
            let rg = s.extend_queue(q, vs.iter().map(|v| enc(*v, p.vmax))).map_err(e)?;
            let ret = now();
            for (i, v) in vs.into_iter().enumerate() {
                out.push(Ev::Birth { v, at: (rg.start + i) as u64, prev: 0, call, ret });
            }
        }
        3 | 4 => {
            let call = now();
            let x = if k == 3 { s.pop_queue_head_with_idx(q) } else { s.pop_queue_tail_with_idx(q) }.map_err(e)?;
            if let Some((i, x)) = x {
                *last = i as u64;
                out.push(Ev::Death { v: d(&x)?, call, ret: now() });
            }
        }
        5 => {
            let i = last.wrapping_add(r.below(9)).wrapping_sub(4);
            let call = now();
            if let Some(x) = s.remove_from_queue(q, i as usize).map_err(e)? {
                out.push(Ev::Death { v: d(&x)?, call, ret: now() });
            }
        }
        _ => {
            let call = now();
            if s.discard_queue(q).map_err(e)? {
                out.push(Ev::Discard { call, ret: now() });
            }
        }
    }
    Ok(())
}

fn look_list(s: &CandyStore, l: &[u8], vmax: usize, r: &mut Rng) -> Result<Ev, String> {
    let kv = |(k, v): (Vec<u8>, Vec<u8>)| -> Result<(u64, u32), String> { Ok((item_no(&k)?, dec(&v, vmax)?)) };
    let conv = |x: Result<(Vec<u8>, Vec<u8>), ErrT>| kv(x.map_err(e)?);
    let (pp, us) = *r.pick(&[(0u64, 0u64), (10, 60), (50, 20), (4, 800)]);
    let limit = if r.chance(1, 5) { r.usize(6) } else { usize::MAX };
    let mut pr = Rng::new(r.next());
    let mut pause = move || {
        if pr.below(100) < pp {
            std::thread::sleep(std::time::Duration::from_micros(pr.below(us)));
        }
    };
    Ok(match r.below(14) {
        0..=4 => Ev::Walk(walk("iter_list", true, limit, &mut pause, || s.iter_list(l), conv)?),
        5..=8 => Ev::Walk(walk("iter_list_backwards", false, limit, &mut pause, || s.iter_list_backwards(l), conv)?),
        9 | 10 => Ev::Walk(peeked("peek_list_head", true, || s.peek_list_head(l).map_err(e)?.map(kv).transpose())?),
        11 | 12 => Ev::Walk(peeked("peek_list_tail", false, || s.peek_list_tail(l).map_err(e)?.map(kv).transpose())?),
        _ => {
            let call = now();
            let n = s.list_len(l).map_err(e)? as u64;
            Ev::Len { n, call, ret: now() }
        }
    })
}
fn look_queue(s: &CandyStore, q: &[u8], vmax: usize, r: &mut Rng) -> Result<Ev, String> {
    let iv = |(i, v): (usize, Vec<u8>)| -> Result<(u64, u32), String> { Ok((i as u64, dec(&v, vmax)?)) };
    let conv = |x: Result<(usize, Vec<u8>), ErrT>| iv(x.map_err(e)?);
    let (pp, us) = *r.pick(&[(0u64, 0u64), (10, 60), (50, 20), (4, 800)]);
    let limit = if r.chance(1, 5) { r.usize(6) } else { usize::MAX };
    let mut pr = Rng::new(r.next());
    let mut pause = move || {
        if pr.below(100) < pp {
            std::thread::sleep(std::time::Duration::from_micros(pr.below(us)));
        }
    };
    Ok(match r.below(16) {
        0..=4 => Ev::Walk(walk("iter_queue", true, limit, &mut pause, || s.iter_queue(q), conv)?),
        5..=8 => Ev::Walk(walk("iter_queue_backwards", false, limit, &mut pause, || s.iter_queue_backwards(q), conv)?),
        9 | 10 => Ev::Walk(peeked("peek_queue_head", true, || {
            s.peek_queue_head_with_idx(q).map_err(e)?.map(iv).transpose()
        })?),
        11 | 12 => Ev::Walk(peeked("peek_queue_tail", false, || {
            s.peek_queue_tail_with_idx(q).map_err(e)?.map(iv).transpose()
        })?),
        13 | 14 => {
            let call = now();
            let n = s.queue_len(q).map_err(e)? as u64;
            Ev::Len { n, call, ret: now() }
        }
        _ => {
            let call = now();
            let rg = s.queue_range(q).map_err(e)?;
            Ev::Range { lo: rg.start as u64, hi: rg.end as u64, call, ret: now() }
        }
    })
}

pub fn c25(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = conc_cfg(&mut r);
    cfg.locks = *r.pick(&[0, 4, 64]);
    if r.chance(2, 3) {
        cfg.max_shard = *r.pick(&[1500u32, 2500, 4000]);
        cfg.min_compact = *r.pick(&[100u32, 500, 1500]);
    }
    let nl = r.usize(3);
    let nq = if nl == 0 { 1 + r.usize(2) } else { r.usize(2) };
    let n = nl + nq;
    let (changers, walkers) = (1 + r.usize(3), 1 + r.usize(3));
    let ops = 20 + r.usize(100);
    let plan = Plan {
        nitems: *r.pick(&[3u64, 8, 25, 70]),
        vmax: *r.pick(&[8usize, 60, 300, 300]),
        discard: r.chance(1, 3),
        grow: *r.pick(&[30u32, 45, 80]),
    };
    let first = *r.pick(&[0usize, 3, 12, 50]);
    let (filler, merger) = (r.chance(1, 2), r.chance(1, 4));
    let names: Vec<B> = (0..n).map(|i| format!("walked{}", if r.chance(1, 2) { i } else { i % nl.max(1) }).into_bytes()).collect();
    // lists and queues may share a name, but no two lists or two queues do
    let names: Vec<B> = names
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let dup = names[..i].iter().enumerate().any(|(j, y)| y == x && (j < nl) == (i < nl));
            if dup { format!("walked-{i}").into_bytes() } else { x.clone() }
        })
        .collect();
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    let s = w.s.clone().unwrap();
    w.desc = format!(
        "[changers={changers} walkers={walkers} ops={ops} lists={nl} queues={nq} items={} discard={} vmax={} filler={filler} merger={merger}]",
        plan.nitems,
        plan.discard,
        plan.vmax
    );
    tick(|| format!("walks during changes, {} {}", w.cfg.short(), w.desc));
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let ids = AtomicU32::new(1);
    let stop = AtomicBool::new(false);
    let left = AtomicU32::new(changers as u32);
    let mut evs: Vec<Vec<Ev>> = vec![vec![]; n];
    // something to walk over from the start
    let mut lasts = vec![0x8000_0000_0000_0000u64; n];
    {
        let p0 = Plan { discard: false, grow: 300, ..Plan { ..plan } };
        let mut r2 = Rng::new(r.next());
        let x = guard(|| -> R {
            for i in 0..n {
                for _ in 0..first {
                    if i < nl {
                        change_list(&s, &names[i], &p0, &ids, &mut r2, &mut evs[i])?;
                    } else {
                        change_queue(&s, &names[i], &p0, &ids, &mut lasts[i], &mut r2, &mut evs[i])?;
                    }
                }
            }
            Ok(())
        });
        w.chk("preparation", x)?;
    }
    w.desc = format!("{} {}", Chaos::on(&mut r), w.desc);
    type F<'a> = Box<dyn FnOnce() -> Result<Vec<(usize, Ev)>, String> + Send + 'a>;
    let mut fs: Vec<F> = vec![];
    for t in 0..changers + walkers {
        let (s, ids, names, plan, stop, left) = (&s, &ids, &names, &plan, &stop, &left);
        let seed = r.next();
        let mut lasts = lasts.clone();
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            let mut out = vec![];
            let mut tmp = vec![];
            let changer = t < changers;
            let mut f = || -> Result<(), String> {
                for k in 0.. {
                    if if changer { k >= ops } else { k >= 4 && (stop.load(SeqCst) || k >= ops * 4) } {
                        break;
                    }
                    tickn();
                    let i = r.usize(n);
                    if changer {
                        if i < nl {
                            change_list(s, &names[i], plan, ids, &mut r, &mut tmp)?;
                        } else {
                            change_queue(s, &names[i], plan, ids, &mut lasts[i], &mut r, &mut tmp)?;
                        }
                        out.extend(tmp.drain(..).map(|x| (i, x)));
                    } else {
                        let x = if i < nl { look_list(s, &names[i], plan.vmax, &mut r) } else { look_queue(s, &names[i], plan.vmax, &mut r) };
                        out.push((i, x?));
                    }
                }
                Ok(())
            };
            let res = f();
            if changer && left.fetch_sub(1, SeqCst) == 1 {
                stop.store(true, SeqCst);
            }
            res?;
            Ok(out)
        }));
    }
    if filler {
        let (s, stop, seed) = (&s, &stop, r.next());
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            for _ in 0..2000 {
                if stop.load(SeqCst) {
                    break;
                }
                tickn();
                let k = format!("plain{}", r.below(60));
                if r.chance(2, 3) {
                    let n = r.usize(150);
                    s.set(&k, &vec![7u8; n]).map_err(e)?;
                } else {
                    s.remove(&k).map_err(e)?;
                }
            }
            Ok(vec![])
        }));
    }
    if merger {
        let (s, stop, seed) = (&s, &stop, r.next());
        fs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            sys::seed_thread(r.next());
            for _ in 0..6 {
                if stop.load(SeqCst) {
                    break;
                }
                tickn();
                s.merge_small_shards(*r.pick(&[0.2, 0.45])).map_err(e)?;
                std::thread::sleep(std::time::Duration::from_micros(r.below(3000)));
            }
            Ok(vec![])
        }));
    }
    let mut cr = Rng::new(r.next());
    let res = parallel(fs, controller(&mut cr));
    Chaos::off();
    for x in res {
        let v = w.chk("concurrent call", x)?;
        w.nops += v.len() as u64;
        for (i, x) in v {
            evs[i].push(x);
        }
    }
    // and the walks of a store at rest, over everything that is left
    for i in 0..n {
        for fwd in [true, false] {
            let x = guard(|| -> R<Walk> {
                if i < nl {
                    let conv = |x: Result<(Vec<u8>, Vec<u8>), ErrT>| {
                        let (k, v) = x.map_err(e)?;
                        Ok((item_no(&k)?, dec(&v, plan.vmax)?))
                    };
                    let l = &names[i];
                    walk("final walk", fwd, usize::MAX, &mut || {}, || if fwd { s.iter_list(l) } else { s.iter_list_backwards(l) }, conv)
                } else {
                    let conv = |x: Result<(usize, Vec<u8>), ErrT>| {
                        let (k, v) = x.map_err(e)?;
                        Ok((k as u64, dec(&v, plan.vmax)?))
                    };
                    let q = &names[i];
                    walk("final walk", fwd, usize::MAX, &mut || {}, || if fwd { s.iter_queue(q) } else { s.iter_queue_backwards(q) }, conv)
                }
            });
            let x = w.chk("final walk", x)?;
            evs[i].push(Ev::Walk(x));
        }
    }
    drop(s);
    sys::set_class(sys::HARNESS);
    for i in 0..n {
        judge_walks(ctx, &w, &evs[i], i < nl, &names[i])?;
    }
    sys::set_class(1);
    w.finish(ctx)
}

/// what is known about the lifetimes of the values and of the elements they belong to
struct Lives {
    val: HashMap<u32, (u64, u32, (u64, u64), (u64, u64))>, // value -> (at, root, birth, death)
    inst: HashMap<u32, Inst>,                              // first value of the element -> element
}
fn lives(evs: &[Ev]) -> Result<Lives, String> {
    let mut born: HashMap<u32, (u64, u32, u64, u64)> = HashMap::new();
    let mut dead: HashMap<u32, (u64, u64)> = HashMap::new();
    let mut disc: Vec<(u64, u64)> = vec![];
    for x in evs {
        match *x {
            Ev::Birth { v, at, prev, call, ret } => {
                born.insert(v, (at, prev, call, ret));
                if prev != 0 && dead.insert(prev, (call, ret)).is_some() {
                    return Err(format!("value {prev} was replaced or removed twice"));
                }
            }
            Ev::Death { v, call, ret } => {
                if dead.insert(v, (call, ret)).is_some() {
                    return Err(format!("value {v} was replaced or removed twice"));
                }
            }
            Ev::Discard { call, ret } => disc.push((call, ret)),
            _ => {}
        }
    }
    if let Some(v) = dead.keys().find(|v| !born.contains_key(v)) {
        return Err(format!("value {v} was replaced or removed, but never written here"));
    }
    let mut l = Lives { val: HashMap::new(), inst: HashMap::new() };
    for (&v, &(at, _, call, ret)) in &born {
        let died = dead.get(&v).copied().unwrap_or_else(|| {
            // discarded, if at all: at the latest by the first discard after its birth
            let c = disc.iter().filter(|d| d.1 > call).map(|d| d.0).min().unwrap_or(u64::MAX);
            let r = disc.iter().filter(|d| d.0 > ret).map(|d| d.1).min().unwrap_or(u64::MAX);
            (c, r)
        });
        let mut root = v;
        let mut n = 0;
        while born[&root].1 != 0 {
            root = born[&root].1;
            n += 1;
            if n > born.len() {
                return Err("values replace each other in a circle".into());
            }
        }
        if born[&root].0 != at {
            return Err(format!("value {v} of item {at} replaced a value of item {}", born[&root].0));
        }
        l.val.insert(v, (at, root, (call, ret), died));
        let b = &born[&root];
        let x = l.inst.entry(root).or_insert(Inst { at, born: (b.2, b.3), died: (0, 0) });
        // the element goes with its last value: the one no other value replaced
        let replaced = dead.contains_key(&v) && born.values().any(|b| b.1 == v);
        if !replaced {
            x.died = died;
        }
    }
    Ok(l)
}

fn judge_walks(ctx: &mut Ctx, w: &World, evs: &[Ev], list: bool, name: &[u8]) -> VR {
    let what = format!("{} {}", if list { "list" } else { "queue" }, show(name));
    let l = match lives(evs) {
        Ok(l) => l,
        Err(x) => return w.viol("inconsistent history", format!("{what}: {x}")),
    };
    ctx.count("elements", l.inst.len() as u64);
    // calls that changed something, for the account of what was observed
    let changes: Vec<(u64, u64)> = evs
        .iter()
        .filter_map(|x| match *x {
            Ev::Birth { call, ret, .. } | Ev::Death { call, ret, .. } | Ev::Discard { call, ret } => Some((call, ret)),
            _ => None,
        })
        .collect();
    for x in evs {
        match x {
            Ev::Walk(k) => {
                ctx.count(if k.what.starts_with("peek") { "peeks" } else { "walks" }, 1);
                let n = changes.iter().filter(|c| c.0 < k.end && c.1 > k.start).count() as u64;
                ctx.count("walks_with_changes", (n > 0) as u64);
                ctx.max("max_changes_during_a_walk", n);
                judge_walk(ctx, w, k, &l, list, &what)?;
            }
            &Ev::Len { n, call, ret } => {
                ctx.count("lengths_checked", 1);
                let lo = l.inst.values().filter(|i| i.born.1 < call && i.died.0 > ret).count() as u64;
                let hi = l.inst.values().filter(|i| i.born.0 < ret && i.died.1 > call).count() as u64;
                if n < lo || n > hi {
                    return w.viol(
                        "length",
                        format!("{what}: the length is {n}, but {lo} elements were in it throughout the call and {hi} at any time during it"),
                    );
                }
            }
            &Ev::Range { lo, hi, call, ret } => {
                ctx.count("ranges_checked", 1);
                if let Some(i) = l.inst.values().find(|i| i.born.1 < call && i.died.0 > ret && !(lo..hi).contains(&i.at)) {
                    return w.viol("range", format!("{what}: the range {lo:x}..{hi:x} lacks the element at {:x}, in it throughout", i.at));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn judge_walk(ctx: &mut Ctx, w: &World, k: &Walk, l: &Lives, list: bool, what: &str) -> VR {
    let desc = |v: u32| match l.val.get(&v) {
        None => format!("value {v}"),
        Some(x) => format!("value {v} of element {:x} (alive from [{}..{}] to [{}..{}])", x.0, x.2 .0, x.2 .1, x.3 .0, x.3 .1),
    };
    let tell = |m: String| {
        let g: Vec<String> = k.got.iter().map(|s| format!("{:x}={} [{}..{}]", s.at, s.v, s.call, s.ret)).collect();
        format!(
            "{} of {what} during [{}..{}]{}: {m}; it returned {}",
            k.what,
            k.start,
            k.end,
            if k.complete { "" } else { " (not finished)" },
            g.join(", ")
        )
    };
    let mut pos: HashMap<u32, usize> = HashMap::new();
    for (j, s) in k.got.iter().enumerate() {
        let Some(x) = l.val.get(&s.v) else {
            return w.viol("unknown value", tell(format!("value {} was never written", s.v)));
        };
        if x.0 != s.at {
            return w.viol("wrong element", tell(format!("{} returned as element {:x}", desc(s.v), s.at)));
        }
        if x.2 .0 > s.ret || x.3 .1 < s.call {
            return w.viol("stale value", tell(format!("{} was not there when it was returned", desc(s.v))));
        }
        if pos.insert(x.1, j).is_some() {
            return w.viol("returned twice", tell(format!("{} was returned before", desc(s.v))));
        }
        if !list && j > 0 {
            let p = k.got[j - 1].at;
            if if k.fwd { p >= s.at } else { p <= s.at } {
                return w.viol("order", tell(format!("index {:x} after {p:x}", s.at)));
            }
        }
    }
    ctx.count("elements_returned", k.got.len() as u64);
    // elements in it from before the beginning to after the end
    for (root, x) in l.inst.iter().filter(|(_, i)| i.born.1 < k.start && i.died.0 > k.end) {
        ctx.count("present_throughout", 1);
        let p = pos.get(root).copied();
        if p.is_none() && k.complete {
            return w.viol("missed", tell(format!("{}, in it throughout, was not returned", desc(*root))));
        }
        let p = p.unwrap_or(usize::MAX);
        for (&r2, &p2) in &pos {
            let y = &l.inst[&r2];
            // before: x comes before y
            let before = if list {
                if x.born.1 < y.born.0 {
                    true
                } else if y.born.1 < x.born.0 {
                    false
                } else {
                    continue;
                }
            } else if x.at != y.at {
                x.at < y.at
            } else {
                continue;
            };
            ctx.count("pairs_ordered", 1);
            if (before == k.fwd) != (p < p2) {
                return w.viol(
                    "order",
                    tell(format!("{} and {} are in the wrong order, or the former was skipped", desc(*root), desc(r2))),
                );
            }
        }
    }
    Ok(())
}
