//! Independence of names across all kinds of data.
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::tables::*;
use crate::typedc::Typed;
use crate::util::*;

/// related names over all kinds of data
pub fn c09(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    fit(&mut cfg, 66_000);
    let mut pool = Pool::with_style(&mut r, &cfg.seed, 12, 2);
    let mut prof = full_profile(&mut r);
    prof.w = [40, 40, 40, 2, 0, 1, 0, 1, 3];
    prof.vmax = 40;
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = "related names".into();
    w.open()?;
    ctx.sample(|| w.cfg.short());
    let mut typ = Typed::new();
    // collections whose hashes partly coincide, and little else
    let coin = r.chance(1, 4);
    let (pl, pq) = (*r.pick(PART_LIST), *r.pick(PART_QUEUE));
    for round in 0..4 {
        if round > 0 {
            // names derived from the internal representation of what is stored right now
            let raw = w.raw()?;
            for _ in 0..8 {
                if raw.is_empty() {
                    break;
                }
                let mut k = raw[r.usize(raw.len())].0.clone();
                match r.below(5) {
                    0 => {}
                    1 => {
                        k.pop();
                    }
                    2 => k.push(1),
                    3 => {
                        let n = r.usize(k.len() + 1);
                        k.truncate(n);
                    }
                    _ => {
                        let n = k.len().min(9);
                        k.truncate(k.len() - n);
                    }
                }
                if k.len() < 2000 && !pool.keys.contains(&k) {
                    pool.keys.push(k);
                }
            }
        }
        let mut g = Gen::new(&pool, prof.clone(), &mut r);
        g.uniq = round * 1_000_000;
        // the same byte strings as names of everything
        let mut names = vec![];
        for _ in 0..4 {
            names.push(r.pick(&pool.keys).clone());
        }
        for (i, l) in [&mut g.list_names, &mut g.queue_names, &mut g.item_names].into_iter().enumerate() {
            l.extend(names.iter().cloned().skip(i % 2));
            l.sort();
            l.dedup();
        }
        if coin {
            let (a, b) = pl;
            g.list_names = vec![a.to_le_bytes().to_vec(), b.to_le_bytes().to_vec()];
            let (a, b) = pq;
            g.queue_names = vec![a.to_le_bytes().to_vec(), b.to_le_bytes().to_vec()];
        }
        let (qn, ln) = (g.queue_names.clone(), w.m.queues.keys().cloned().collect::<Vec<_>>());
        g.big_names.retain(|b| !qn.contains(b) && !ln.contains(b));
        if g.big_names.is_empty() {
            g.big_names.push(b"a big one".to_vec());
        }
        let bigs: Vec<B> = w.m.big.keys().cloned().collect();
        g.queue_names.retain(|q| !bigs.contains(q));
        if g.queue_names.is_empty() {
            g.queue_names.push(b"a queue".to_vec());
        }
        for i in 0..120 {
            let op = g.op(&w.m, &mut r);
            w.step(&op, &mut r)?;
            if r.chance(1, 6) {
                w.typed_step(&mut r)?;
            }
            if r.chance(1, 3) {
                let s = w.s.clone().unwrap();
                let x = guard(|| in_op(|| typ.step(&s, &mut r)));
                w.nops += 1;
                w.chk("typed", x)?;
            }
            if i % 40 == 39 {
                w.verify(&mut r, "contents")?;
                let s = w.s.clone().unwrap();
                let x = guard(|| in_op(|| typ.verify(&s)));
                w.chk("typed contents", x)?;
            }
        }
        // removing everything of one kind leaves the others alone
        match r.below(4) {
            0 => {
                for k in w.m.lists.keys().cloned().collect::<Vec<_>>() {
                    w.step(&Op::LDiscard(k), &mut r)?;
                }
            }
            1 => {
                for k in w.m.queues.keys().cloned().collect::<Vec<_>>() {
                    w.step(&Op::QDiscard(k), &mut r)?;
                }
            }
            2 => {
                for k in w.m.kv.keys().cloned().collect::<Vec<_>>() {
                    w.step(&Op::Remove(k), &mut r)?;
                }
            }
            _ => {
                for k in w.m.big.keys().cloned().collect::<Vec<_>>() {
                    w.step(&Op::BRemove(k), &mut r)?;
                }
            }
        }
        w.verify(&mut r, "contents")?;
        let s = w.s.clone().unwrap();
        let x = guard(|| in_op(|| typ.verify(&s)));
        w.chk("typed contents", x)?;
    }
    ctx.count("distinct_names", pool.keys.len() as u64);
    w.finish(ctx)
}
