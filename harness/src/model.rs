//! Specification oracles: map, insertion-ordered map, indexed deque; operations, and their comparison with the store.
use crate::util::*;
use candystore::*;
use std::collections::{BTreeMap, VecDeque};

pub type B = Vec<u8>;
pub const DEFAULT_SEED: &[u8; 16] = b"kOYLu0xvq2WtzcKJ";

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub max_shard: u32,
    pub min_compact: u32,
    pub seed: [u8; 16],
    pub expected: usize,
    pub locks: u32,
    pub truncate_up: bool,
    pub clear_unsupported: bool,
    pub threads: usize,
    pub mlock: bool,
    pub agg_us: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_shard: 64 * 1024 * 1024,
            min_compact: 8 * 1024 * 1024,
            seed: *DEFAULT_SEED,
            expected: 0,
            locks: 64,
            truncate_up: true,
            clear_unsupported: false,
            threads: 1,
            mlock: false,
            agg_us: 0,
        }
    }
}
impl Cfg {
    pub fn cfg(&self) -> Config {
        Config {
            max_shard_size: self.max_shard,
            min_compaction_threashold: self.min_compact,
            hash_seed: self.seed,
            expected_number_of_keys: self.expected,
            max_concurrent_list_ops: self.locks,
            truncate_up: self.truncate_up,
            clear_on_unsupported_version: self.clear_unsupported,
            mlock_headers: self.mlock,
            num_compaction_threads: self.threads,
            #[cfg(feature = "agg")]
            flush_aggregation_delay: if self.agg_us > 0 {
                // the greatest value stands for no delay at all
                Some(std::time::Duration::from_micros(if self.agg_us == u64::MAX { 0 } else { self.agg_us }))
            } else {
                None
            },
        }
    }
    /// small shards, everything reorganises quickly
    pub fn tiny(r: &mut Rng) -> Cfg {
        let max_shard = *r.pick(&[3000u32, 4096, 8192, 16384, 40000, 100_000]);
        let min_compact = match r.below(5) {
            0 => max_shard / 10,
            1 => max_shard / 4,
            2 => max_shard / 2,
            3 => 300,
            _ => max_shard / 3,
        };
        Cfg {
            max_shard,
            min_compact: min_compact.max(64),
            seed: if r.chance(1, 2) { *DEFAULT_SEED } else { r.bytes(16).try_into().unwrap() },
            expected: if r.chance(1, 4) { *r.pick(&[100usize, 30_000, 60_000, 120_000, 250_000]) } else { 0 },
            locks: *r.pick(&[0u32, 1, 4, 5, 7, 64, 100]),
            truncate_up: r.chance(1, 2),
            clear_unsupported: r.chance(1, 8),
            threads: *r.pick(&[1usize, 1, 2, 4]),
            mlock: r.chance(1, 10),
            agg_us: if cfg!(feature = "agg") { *r.pick(&[0, 1, 1, 30, u64::MAX]) } else { 0 },
        }
    }
    pub fn short(&self) -> String {
        format!(
            "max_shard={} min_compact={} expected={} locks={} truncate_up={} threads={}",
            self.max_shard, self.min_compact, self.expected, self.locks, self.truncate_up, self.threads
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Set(B, B),
    Get(B),
    Contains(B),
    Remove(B),
    Replace(B, B, Option<B>),
    Goc(B, B),

    LSet(B, B, B),
    LPromote(B, B, B),
    LGet(B, B),
    LRemove(B, B),
    LReplace(B, B, B, Option<B>),
    LGoc(B, B, B),
    LPop(B, bool),
    LPeek(B, bool),
    LLen(B),
    LIter(B, bool),
    LDiscard(B),
    LCompact(B, u64, f64),

    QPush(B, B, bool),
    QPop(B, bool),
    QPeek(B, bool),
    QRemove(B, u64),
    QLen(B),
    QIter(B, bool),
    QDiscard(B),
    QExtend(B, Vec<B>),

    BSet(B, B),
    BGet(B),
    BRemove(B),

    Clear,
    Merge(f32),
    Flush,
    Stats,
    IterAll,
}
impl Op {
    pub fn brief(&self) -> String {
        use Op::*;
        match self {
            Set(k, v) => format!("set({}, {})", show(k), show(v)),
            Get(k) => format!("get({})", show(k)),
            Contains(k) => format!("contains({})", show(k)),
            Remove(k) => format!("remove({})", show(k)),
            Replace(k, v, e) => format!("replace({}, {}, expected={})", show(k), show(v), show_opt(e)),
            Goc(k, v) => format!("get_or_create({}, {})", show(k), show(v)),
            LSet(l, k, v) => format!("set_in_list({}, {}, {})", show(l), show(k), show(v)),
            LPromote(l, k, v) => format!("set_in_list_promoting({}, {}, {})", show(l), show(k), show(v)),
            LGet(l, k) => format!("get_from_list({}, {})", show(l), show(k)),
            LRemove(l, k) => format!("remove_from_list({}, {})", show(l), show(k)),
            LReplace(l, k, v, e) => {
                format!("replace_in_list({}, {}, {}, expected={})", show(l), show(k), show(v), show_opt(e))
            }
            LGoc(l, k, v) => format!("get_or_create_in_list({}, {}, {})", show(l), show(k), show(v)),
            LPop(l, h) => format!("pop_list_{}({})", if *h { "head" } else { "tail" }, show(l)),
            LPeek(l, h) => format!("peek_list_{}({})", if *h { "head" } else { "tail" }, show(l)),
            LLen(l) => format!("list_len({})", show(l)),
            LIter(l, f) => format!("iter_list{}({})", if *f { "" } else { "_backwards" }, show(l)),
            LDiscard(l) => format!("discard_list({})", show(l)),
            LCompact(l, n, f) => format!("compact_list_if_needed({}, min_length={n}, holes={f})", show(l)),
            QPush(q, v, h) => format!("push_to_queue_{}({}, {})", if *h { "head" } else { "tail" }, show(q), show(v)),
            QPop(q, h) => format!("pop_queue_{}({})", if *h { "head" } else { "tail" }, show(q)),
            QPeek(q, h) => format!("peek_queue_{}({})", if *h { "head" } else { "tail" }, show(q)),
            QRemove(q, i) => format!("remove_from_queue({}, {i:#x})", show(q)),
            QLen(q) => format!("queue_len({})", show(q)),
            QIter(q, f) => format!("iter_queue{}({})", if *f { "" } else { "_backwards" }, show(q)),
            QDiscard(q) => format!("discard_queue({})", show(q)),
            QExtend(q, v) => format!("extend_queue({}, {} items)", show(q), v.len()),
            BSet(k, v) => format!("set_big({}, {} bytes)", show(k), v.len()),
            BGet(k) => format!("get_big({})", show(k)),
            BRemove(k) => format!("remove_big({})", show(k)),
            Clear => "clear()".into(),
            Merge(f) => format!("merge_small_shards({f})"),
            Flush => "flush()".into(),
            Stats => "stats()".into(),
            IterAll => "iter() over everything".into(),
        }
    }
    pub fn kind(&self) -> &'static str {
        use Op::*;
        match self {
            Set(..) => "set",
            Get(..) => "get",
            Contains(..) => "contains",
            Remove(..) => "remove",
            Replace(..) => "replace",
            Goc(..) => "get_or_create",
            LSet(..) => "set_in_list",
            LPromote(..) => "set_in_list_promoting",
            LGet(..) => "get_from_list",
            LRemove(..) => "remove_from_list",
            LReplace(..) => "replace_in_list",
            LGoc(..) => "get_or_create_in_list",
            LPop(..) => "pop_list",
            LPeek(..) => "peek_list",
            LLen(..) => "list_len",
            LIter(..) => "iter_list",
            LDiscard(..) => "discard_list",
            LCompact(..) => "compact_list",
            QPush(..) => "push_queue",
            QPop(..) => "pop_queue",
            QPeek(..) => "peek_queue",
            QRemove(..) => "remove_from_queue",
            QLen(..) => "queue_len",
            QIter(..) => "iter_queue",
            QDiscard(..) => "discard_queue",
            QExtend(..) => "extend_queue",
            BSet(..) => "set_big",
            BGet(..) => "get_big",
            BRemove(..) => "remove_big",
            Clear => "clear",
            Merge(..) => "merge",
            Flush => "flush",
            Stats => "stats",
            IterAll => "iter",
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct LModel {
    pub items: Vec<(B, B)>,
    /// after a crash the documented "estimated" length may be off
    pub len_inexact: bool,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct QModel {
    pub items: VecDeque<(u64, B)>,
    pub len_inexact: bool,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub kv: BTreeMap<B, B>,
    pub lists: BTreeMap<B, LModel>,
    pub queues: BTreeMap<B, QModel>,
    pub big: BTreeMap<B, B>,
}

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
pub type R<T = ()> = std::result::Result<T, String>;

fn ok<T>(r: candystore::Result<T>, op: &Op) -> R<T> {
    r.map_err(|e| format!("{} returned an error: {e:#}", op.brief()))
}
/// what an iterator says about the number of elements still to come, after each of them
fn hints_hold(op: &Op, hints: &[(usize, Option<usize>)], n: usize) -> R {
    for (i, h) in hints.iter().enumerate() {
        let left = n - i;
        if h.0 > left || h.1.map(|h| h < left).unwrap_or(false) {
            fail!("{} said {h:?} elements were left after {i}, it was {left}", op.brief());
        }
    }
    Ok(())
}
/// what the methods of a result say has to match what the result is
fn tells(x: &dyn std::any::Any) -> bool {
    if let Some(x) = x.downcast_ref::<SetStatus>() {
        let new = *x == SetStatus::CreatedNew;
        x.was_created() == new && x.was_replaced() != new
    } else if let Some(x) = x.downcast_ref::<ReplaceStatus>() {
        let (miss, wrong) = match x {
            ReplaceStatus::DoesNotExist => (true, false),
            ReplaceStatus::WrongValue(_) => (false, true),
            ReplaceStatus::PrevValue(_) => (false, false),
        };
        x.is_key_missing() == miss
            && x.is_wrong_value() == wrong
            && x.failed() == (miss || wrong)
            && x.was_replaced() != (miss || wrong)
    } else if let Some(x) = x.downcast_ref::<GetOrCreateStatus>() {
        let (new, v) = match x {
            GetOrCreateStatus::CreatedNew(v) => (true, v),
            GetOrCreateStatus::ExistingValue(v) => (false, v),
        };
        x.was_created() == new && x.already_exists() != new && x.clone().value() == *v
    } else {
        true
    }
}
fn eq<T: PartialEq + std::fmt::Debug + 'static>(op: &Op, got: T, want: T) -> R {
    if !tells(&got) {
        fail!("the methods of what {} returned ({}) do not agree with it", op.brief(), trunc(format!("{got:?}")));
    }
    if got != want {
        let g = trunc(format!("{got:?}"));
        let w = trunc(format!("{want:?}"));
        fail!("{} returned {g}, expected {w}", op.brief());
    }
    Ok(())
}
pub fn trunc(s: String) -> String {
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

impl Model {
    /// Effect of `op` on the model only (used for the "after" state at crash points).
    /// Queue indices are taken as the implementation would report them: callers fix them up.
    pub fn pure(&mut self, op: &Op) {
        use Op::*;
        match op {
            Set(k, v) => {
                self.kv.insert(k.clone(), v.clone());
            }
            Remove(k) => {
                self.kv.remove(k);
            }
            Replace(k, v, e) => {
                if let Some(cur) = self.kv.get_mut(k) {
                    if e.as_ref().map(|e| e == cur).unwrap_or(true) {
                        *cur = v.clone();
                    }
                }
            }
            Goc(k, v) => {
                self.kv.entry(k.clone()).or_insert_with(|| v.clone());
            }
            Clear => *self = Model::default(),
            _ => {}
        }
    }

    /// Execute `op` on the store and compare with the model, updating it.
    pub fn apply(&mut self, s: &CandyStore, op: &Op, r: &mut Rng) -> R {
        use Op::*;
        let owned = r.chance(1, 2);
        match op {
            Set(k, v) => {
                let want = match self.kv.insert(k.clone(), v.clone()) {
                    Some(p) => SetStatus::PrevValue(p),
                    None => SetStatus::CreatedNew,
                };
                let got = ok(if owned { s.owned_set(k.clone(), v) } else { s.set(k, v) }, op)?;
                eq(op, got, want)
            }
            Get(k) => {
                let got = ok(if owned { s.owned_get(k.clone()) } else { s.get(k) }, op)?;
                eq(op, got, self.kv.get(k).cloned())
            }
            Contains(k) => {
                let got = ok(if owned { s.owned_contains(k.clone()) } else { s.contains(k) }, op)?;
                eq(op, got, self.kv.contains_key(k))
            }
            Remove(k) => {
                let got = ok(if owned { s.owned_remove(k.clone()) } else { s.remove(k) }, op)?;
                eq(op, got, self.kv.remove(k))
            }
            Replace(k, v, e) => {
                let want = match self.kv.get(k) {
                    None => ReplaceStatus::DoesNotExist,
                    Some(c) => match e {
                        Some(e) if e != c => ReplaceStatus::WrongValue(c.clone()),
                        _ => ReplaceStatus::PrevValue(c.clone()),
                    },
                };
                if matches!(want, ReplaceStatus::PrevValue(_)) {
                    self.kv.insert(k.clone(), v.clone());
                }
                let got = ok(
                    if owned {
                        s.owned_replace(k.clone(), v, e.as_deref())
                    } else {
                        s.replace(k, v, e.as_ref())
                    },
                    op,
                )?;
                eq(op, got, want)
            }
            Goc(k, v) => {
                let want = match self.kv.get(k) {
                    Some(c) => GetOrCreateStatus::ExistingValue(c.clone()),
                    None => GetOrCreateStatus::CreatedNew(v.clone()),
                };
                self.kv.entry(k.clone()).or_insert_with(|| v.clone());
                let got = ok(
                    if owned { s.owned_get_or_create(k.clone(), v.clone()) } else { s.get_or_create(k, v) },
                    op,
                )?;
                eq(op, got, want)
            }

            LSet(l, k, v) | LPromote(l, k, v) => {
                let promote = matches!(op, LPromote(..));
                let m = self.lists.entry(l.clone()).or_default();
                let pos = m.items.iter().position(|x| &x.0 == k);
                let prev = pos.map(|i| m.items[i].1.clone());
                match pos {
                    Some(i) if !promote => m.items[i].1 = v.clone(),
                    Some(i) => {
                        m.items.remove(i);
                        m.items.push((k.clone(), v.clone()));
                    }
                    None => m.items.push((k.clone(), v.clone())),
                }
                let got = ok(
                    if owned {
                        s.owned_set_in_list(l.clone(), k.clone(), v.clone(), promote)
                    } else if promote {
                        s.set_in_list_promoting(l, k, v)
                    } else {
                        s.set_in_list(l, k, v)
                    },
                    op,
                )?;
                if promote {
                    // the documented "remove + insert" may report either form; a previous value must be the right one
                    match got {
                        SetStatus::CreatedNew => Ok(()),
                        SetStatus::PrevValue(p) => eq(op, Some(p), prev),
                    }
                } else {
                    eq(op, got, prev.map(SetStatus::PrevValue).unwrap_or(SetStatus::CreatedNew))
                }
            }
            LGet(l, k) => {
                let got = ok(
                    if owned { s.owned_get_from_list(l.clone(), k.clone()) } else { s.get_from_list(l, k) },
                    op,
                )?;
                let want = self.lists.get(l).and_then(|m| m.items.iter().find(|x| &x.0 == k).map(|x| x.1.clone()));
                eq(op, got, want)
            }
            LRemove(l, k) => {
                let m = self.lists.entry(l.clone()).or_default();
                let want = m.items.iter().position(|x| &x.0 == k).map(|i| m.items.remove(i).1);
                let got = ok(
                    if owned { s.owned_remove_from_list(l.clone(), k.clone()) } else { s.remove_from_list(l, k) },
                    op,
                )?;
                eq(op, got, want)
            }
            LReplace(l, k, v, e) => {
                let m = self.lists.entry(l.clone()).or_default();
                let want = match m.items.iter_mut().find(|x| &x.0 == k) {
                    None => ReplaceStatus::DoesNotExist,
                    Some(x) => match e {
                        Some(e) if e != &x.1 => ReplaceStatus::WrongValue(x.1.clone()),
                        _ => ReplaceStatus::PrevValue(std::mem::replace(&mut x.1, v.clone())),
                    },
                };
                let got = ok(
                    if owned {
                        s.owned_replace_in_list(l.clone(), k.clone(), v.clone(), e.as_deref())
                    } else {
                        s.replace_in_list(l, k, v, e.as_ref())
                    },
                    op,
                )?;
                eq(op, got, want)
            }
            LGoc(l, k, v) => {
                let m = self.lists.entry(l.clone()).or_default();
                let want = match m.items.iter().find(|x| &x.0 == k) {
                    Some(x) => GetOrCreateStatus::ExistingValue(x.1.clone()),
                    None => {
                        m.items.push((k.clone(), v.clone()));
                        GetOrCreateStatus::CreatedNew(v.clone())
                    }
                };
                let got = ok(
                    if owned {
                        s.owned_get_or_create_in_list(l.clone(), k.clone(), v.clone())
                    } else {
                        s.get_or_create_in_list(l, k, v)
                    },
                    op,
                )?;
                eq(op, got, want)
            }
            LPop(l, head) => {
                let m = self.lists.entry(l.clone()).or_default();
                let want = if m.items.is_empty() {
                    None
                } else if *head {
                    Some(m.items.remove(0))
                } else {
                    m.items.pop()
                };
                let got = ok(
                    match (*head, owned) {
                        (true, true) => s.owned_pop_list_head(l.clone()),
                        (true, false) => s.pop_list_head(l),
                        (false, true) => s.owned_pop_list_tail(l.clone()),
                        (false, false) => s.pop_list_tail(l),
                    },
                    op,
                )?;
                eq(op, got, want)
            }
            LPeek(l, head) => {
                let m = self.lists.entry(l.clone()).or_default();
                let want = if *head { m.items.first().cloned() } else { m.items.last().cloned() };
                let got = ok(
                    match (*head, owned) {
                        (true, true) => s.owned_peek_list_head(l.clone()),
                        (true, false) => s.peek_list_head(l),
                        (false, true) => s.owned_peek_list_tail(l.clone()),
                        (false, false) => s.peek_list_tail(l),
                    },
                    op,
                )?;
                eq(op, got, want)
            }
            LLen(l) => {
                let m = self.lists.entry(l.clone()).or_default();
                let got = ok(if owned { s.owned_list_len(l.clone()) } else { s.list_len(l) }, op)?;
                if m.len_inexact {
                    return Ok(());
                }
                eq(op, got, m.items.len())
            }
            LIter(l, fwd) => {
                let m = self.lists.entry(l.clone()).or_default();
                let mut want = m.items.clone();
                if !*fwd {
                    want.reverse();
                }
                let it = match (*fwd, owned) {
                    (true, true) => s.owned_iter_list(l.clone()),
                    (true, false) => s.iter_list(l),
                    (false, true) => s.owned_iter_list_backwards(l.clone()),
                    (false, false) => s.iter_list_backwards(l),
                };
                let mut it = it;
                let mut got = vec![];
                let mut hints = vec![it.size_hint()];
                while let Some(x) = it.next() {
                    got.push(ok(x, op)?);
                    hints.push(it.size_hint());
                    if got.len() > want.len() + 10 {
                        break;
                    }
                }
                hints_hold(op, &hints, got.len())?;
                eq(op, got, want)
            }
            LDiscard(l) => {
                let m = self.lists.entry(l.clone()).or_default();
                let nonempty = !m.items.is_empty();
                *m = LModel::default();
                let got = ok(if owned { s.owned_discard_list(l.clone()) } else { s.discard_list(l) }, op)?;
                if nonempty {
                    eq(op, got, true)?;
                }
                Ok(())
            }
            LCompact(l, n, f) => {
                ok(s.compact_list_if_needed(l, ListCompactionParams { min_length: *n, min_holes_ratio: *f }), op)?;
                Ok(())
            }

            QPush(q, v, head) => {
                let m = self.queues.entry(q.clone()).or_default();
                let got = ok(if *head { s.push_to_queue_head(q, v) } else { s.push_to_queue_tail(q, v) }, op)? as u64;
                if *head {
                    if let Some(f) = m.items.front() {
                        if got >= f.0 {
                            fail!("{} returned index {got:#x}, not before the head index {:#x}", op.brief(), f.0);
                        }
                    }
                    m.items.push_front((got, v.clone()));
                } else {
                    if let Some(f) = m.items.back() {
                        if got <= f.0 {
                            fail!("{} returned index {got:#x}, not after the tail index {:#x}", op.brief(), f.0);
                        }
                    }
                    m.items.push_back((got, v.clone()));
                }
                Ok(())
            }
            QPop(q, head) => {
                let m = self.queues.entry(q.clone()).or_default();
                let want = if *head { m.items.pop_front() } else { m.items.pop_back() };
                if owned {
                    let got = ok(
                        if *head { s.pop_queue_head_with_idx(q) } else { s.pop_queue_tail_with_idx(q) },
                        op,
                    )?;
                    eq(op, got.map(|x| (x.0 as u64, x.1)), want)
                } else {
                    let got = ok(if *head { s.pop_queue_head(q) } else { s.pop_queue_tail(q) }, op)?;
                    eq(op, got, want.map(|x| x.1))
                }
            }
            QPeek(q, head) => {
                let m = self.queues.entry(q.clone()).or_default();
                let want = if *head { m.items.front().cloned() } else { m.items.back().cloned() };
                if owned {
                    let got = ok(
                        if *head { s.peek_queue_head_with_idx(q) } else { s.peek_queue_tail_with_idx(q) },
                        op,
                    )?;
                    eq(op, got.map(|x| (x.0 as u64, x.1)), want)
                } else {
                    let got = ok(if *head { s.peek_queue_head(q) } else { s.peek_queue_tail(q) }, op)?;
                    eq(op, got, want.map(|x| x.1))
                }
            }
            QRemove(q, idx) => {
                let m = self.queues.entry(q.clone()).or_default();
                let want = m.items.iter().position(|x| x.0 == *idx).and_then(|i| m.items.remove(i)).map(|x| x.1);
                let got = ok(s.remove_from_queue(q, *idx as usize), op)?;
                eq(op, got, want)
            }
            QLen(q) => {
                let m = self.queues.entry(q.clone()).or_default();
                let got = ok(s.queue_len(q), op)?;
                let rng = ok(s.queue_range(q), op)?;
                for (i, _) in m.items.iter() {
                    if !rng.contains(&(*i as usize)) {
                        fail!("queue_range({}) = {rng:x?} does not contain the live index {i:#x}", show(q));
                    }
                }
                if m.len_inexact {
                    return Ok(());
                }
                eq(op, got, m.items.len())
            }
            QIter(q, fwd) => {
                let m = self.queues.entry(q.clone()).or_default();
                let mut want: Vec<(u64, B)> = m.items.iter().cloned().collect();
                if !*fwd {
                    want.reverse();
                }
                let it = if *fwd { s.iter_queue(q) } else { s.iter_queue_backwards(q) };
                let mut it = it;
                let mut got = vec![];
                let mut hints = vec![it.size_hint()];
                while let Some(x) = it.next() {
                    let x = ok(x, op)?;
                    got.push((x.0 as u64, x.1));
                    hints.push(it.size_hint());
                    if got.len() > want.len() + 10 {
                        break;
                    }
                }
                hints_hold(op, &hints, got.len())?;
                eq(op, got, want)
            }
            QDiscard(q) => {
                let m = self.queues.entry(q.clone()).or_default();
                let nonempty = !m.items.is_empty();
                *m = QModel::default();
                let got = ok(s.discard_queue(q), op)?;
                if nonempty {
                    eq(op, got, true)?;
                }
                Ok(())
            }
            QExtend(q, vs) => {
                let m = self.queues.entry(q.clone()).or_default();
                let rng = ok(s.extend_queue(q, vs.iter()), op)?;
                if rng.len() != vs.len() {
                    fail!("{} returned the range {rng:x?} ({} indices)", op.brief(), rng.len());
                }
                if let (Some(b), true) = (m.items.back(), !vs.is_empty()) {
                    if (rng.start as u64) <= b.0 {
                        fail!("{} returned {rng:x?}, not after the tail index {:#x}", op.brief(), b.0);
                    }
                }
                for (i, v) in rng.zip(vs.iter()) {
                    m.items.push_back((i as u64, v.clone()));
                }
                Ok(())
            }

            BSet(k, v) => {
                let want = self.big.insert(k.clone(), v.clone()).is_some();
                let got = ok(s.set_big(k, v), op)?;
                eq(op, got, want)
            }
            BGet(k) => {
                let got = ok(s.get_big(k), op)?;
                let want = self.big.get(k);
                if got.as_ref() != want {
                    fail!(
                        "get_big({}) returned {}, expected {}",
                        show(k),
                        got.map(|g| format!("{} bytes (hash {:x})", g.len(), fnv_fast(&g))).unwrap_or("None".into()),
                        want.map(|g| format!("{} bytes (hash {:x})", g.len(), fnv_fast(g))).unwrap_or("None".into())
                    );
                }
                Ok(())
            }
            BRemove(k) => {
                let want = self.big.remove(k).is_some();
                let got = ok(s.remove_big(k), op)?;
                eq(op, got, want)
            }

            Clear => {
                *self = Model::default();
                ok(s.clear(), op)
            }
            Merge(f) => {
                ok(s.merge_small_shards(*f), op)?;
                Ok(())
            }
            Flush => ok(s.flush(), op),
            Stats => {
                let _ = s.stats().num_entries();
                Ok(())
            }
            IterAll => self.verify_kv(s),
        }
    }

    /// full iteration over plain keys == map
    pub fn verify_kv(&self, s: &CandyStore) -> R {
        let mut got: BTreeMap<B, B> = BTreeMap::new();
        let mut n = 0;
        for x in s.iter() {
            let (k, v) = x.map_err(|e| format!("iter() returned an error: {e:#}"))?;
            n += 1;
            if n > self.kv.len() * 2 + 1000 {
                fail!("iter() yields more than {n} entries, {} exist", self.kv.len());
            }
            if let Some(o) = got.insert(k.clone(), v.clone()) {
                fail!("iter() yields key {} twice ({} and {})", show(&k), show(&o), show(&v));
            }
        }
        if got != self.kv {
            for (k, v) in &self.kv {
                match got.get(k) {
                    None => fail!("iter() misses key {} (value {})", show(k), show(v)),
                    Some(g) if g != v => fail!("iter() yields {} -> {}, expected {}", show(k), show(g), show(v)),
                    _ => {}
                }
            }
            for (k, v) in &got {
                if !self.kv.contains_key(k) {
                    fail!("iter() yields {} -> {} which does not exist", show(k), show(v));
                }
            }
        }
        Ok(())
    }
    /// everything, through the public API
    pub fn verify(&mut self, s: &CandyStore, r: &mut Rng) -> R {
        self.verify_kv(s)?;
        for (k, v) in &self.kv {
            let g = s.get(k).map_err(|e| format!("get({}) returned an error: {e:#}", show(k)))?;
            if g.as_ref() != Some(v) {
                fail!("get({}) returned {}, expected {}", show(k), show_opt(&g), show(v));
            }
        }
        for l in self.lists.keys().cloned().collect::<Vec<_>>() {
            self.apply(s, &Op::LIter(l.clone(), true), r)?;
            self.apply(s, &Op::LIter(l.clone(), false), r)?;
            self.apply(s, &Op::LLen(l.clone()), r)?;
            for (k, _) in self.lists[&l].items.clone() {
                self.apply(s, &Op::LGet(l.clone(), k), r)?;
            }
        }
        for q in self.queues.keys().cloned().collect::<Vec<_>>() {
            self.apply(s, &Op::QIter(q.clone(), true), r)?;
            self.apply(s, &Op::QIter(q.clone(), false), r)?;
            self.apply(s, &Op::QLen(q.clone()), r)?;
        }
        for k in self.big.keys().cloned().collect::<Vec<_>>() {
            self.apply(s, &Op::BGet(k), r)?;
        }
        Ok(())
    }
    /// raw (key size + value size) total is computed by the caller through iter_raw
    pub fn digest(&self) -> u64 {
        fnv(format!("{:?}", self).as_bytes())
    }
}

// ------------------------------------------------------------------ generation

/// keys with useful structure
pub struct Pool {
    pub keys: Vec<B>,
    pub style: &'static str,
}
impl Pool {
    pub fn new(r: &mut Rng, seed: &[u8; 16], n: usize) -> Pool {
        let style = r.below(9);
        Self::with_style(r, seed, n, style)
    }
    pub fn with_style(r: &mut Rng, seed: &[u8; 16], n: usize, style: u64) -> Pool {
        let mut keys: Vec<B> = vec![];
        let name;
        match style {
            0 => {
                name = "short";
                for i in 0..n {
                    keys.push(format!("k{i}").into_bytes());
                }
            }
            1 => {
                name = "binary";
                for _ in 0..n {
                    let l = r.usize(40);
                    keys.push(r.bytes(l));
                }
            }
            2 => {
                // affixes made of the internal separators
                name = "separators";
                keys.push(vec![]);
                for i in 0..n {
                    let mut k = if i % 3 == 0 { vec![] } else { format!("n{}", i / 6).into_bytes() };
                    for _ in 0..1 + r.usize(4) {
                        k.push(r.below(9) as u8);
                    }
                    keys.push(k);
                }
            }
            3 => {
                name = "same row";
                let row = r.usize(64);
                let mut i = r.next() % 1_000_000;
                while keys.len() < n {
                    let k = format!("r{i}").into_bytes();
                    if place_user(seed, &k).row == row {
                        keys.push(k);
                    }
                    i += 1;
                }
            }
            4 => {
                name = "same shard range";
                let lo = r.below(65536 - 512) as u32;
                let mut i = r.next() % 1_000_000;
                let mut tries = 0;
                while keys.len() < n && tries < 400_000 {
                    let k = format!("s{i}").into_bytes();
                    let p = place_user(seed, &k);
                    if p.shard >= lo && p.shard < lo + 512 {
                        keys.push(k);
                    }
                    i += 1;
                    tries += 1;
                }
            }
            5 => {
                name = "colliding";
                if seed == DEFAULT_SEED {
                    let mut g: Vec<&[u64]> = COLL_USER.iter().chain(COLL_USER_SHARD.iter()).copied().collect();
                    r.shuffle(&mut g);
                    for x in g.into_iter().flatten().take(n / 2 + 3) {
                        keys.push(x.to_le_bytes().to_vec());
                    }
                }
                for i in 0..n / 2 {
                    keys.push(format!("c{i}").into_bytes());
                }
            }
            6 => {
                name = "long";
                for i in 0..n {
                    let mut k = format!("long{i}-").into_bytes();
                    let l = r.usize(600);
                    k.extend_from_slice(&r.bytes(l));
                    keys.push(k);
                }
            }
            7 => {
                name = "zero signature";
                if seed == DEFAULT_SEED {
                    for z in ZERO_SIG {
                        keys.push(z.to_le_bytes().to_vec());
                    }
                }
                for i in 0..n {
                    keys.push(format!("z{i}").into_bytes());
                }
            }
            _ => {
                name = "numbers";
                for i in 0..n {
                    keys.push((i as u32).to_le_bytes().to_vec());
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        keys.retain(|k| seen.insert(k.clone()));
        if keys.is_empty() {
            keys.push(b"only".to_vec());
        }
        Pool { keys, style: name }
    }
}
pub use crate::tables::*;

#[derive(Clone, Debug)]
pub struct Profile {
    /// weights: plain, list, queue, big, clear, merge, flush, stats, iterall
    pub w: [u32; 9],
    pub vmax: usize,
    pub grow: u32,
    pub nlists: usize,
    pub nitems: usize,
    pub compact_lists: bool,
    pub promote: bool,
    pub discard: bool,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            w: [100, 0, 0, 0, 0, 0, 1, 2, 1],
            vmax: 300,
            grow: 50,
            nlists: 3,
            nitems: 12,
            compact_lists: true,
            promote: true,
            discard: true,
        }
    }
}

/// the same, or slightly different: one byte changed, cut, continued
pub fn near(c: &B, max: usize, r: &mut Rng) -> B {
    let mut v = c.clone();
    match r.below(7) {
        0 | 1 => {}
        6 => {
            // as long, but different throughout
            let x = 1 + r.below(255) as u8;
            v.iter_mut().for_each(|b| *b ^= x);
        }
        2 if !v.is_empty() => {
            let i = r.usize(v.len());
            v[i] ^= 1 << r.below(8);
        }
        3 if !v.is_empty() => {
            let i = v.len() - 1;
            v[i] ^= 1 << r.below(8);
        }
        4 => {
            v.pop();
        }
        _ if v.len() < max => v.push(*r.pick(&[0u8, 0x80, 1, 4])),
        _ => {}
    }
    v
}

#[derive(Clone)]
pub struct Gen<'a> {
    pub pool: &'a Pool,
    pub prof: Profile,
    pub uniq: u64,
    pub list_names: Vec<B>,
    pub item_names: Vec<B>,
    pub queue_names: Vec<B>,
    pub big_names: Vec<B>,
}
impl<'a> Gen<'a> {
    pub fn new(pool: &'a Pool, prof: Profile, r: &mut Rng) -> Self {
        let mut mk = |n: usize, tag: &str, r: &mut Rng| -> Vec<B> {
            (0..n)
                .map(|i| match r.below(3) {
                    0 => r.pick(&pool.keys).clone(),
                    1 => format!("{tag}{i}").into_bytes(),
                    _ => {
                        let l = r.usize(6);
                        r.bytes(l)
                    }
                })
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .collect()
        };
        let nl = prof.nlists.max(1);
        let list_names = mk(nl, "L", r);
        let queue_names = mk(nl, "Q", r);
        let mut big_names = mk(nl, "B", r);
        big_names.retain(|b| !queue_names.contains(b));
        if big_names.is_empty() {
            big_names.push(b"a big one".to_vec());
        }
        let mut item_names = mk(prof.nitems.max(1), "i", r);
        let mut list_names = list_names;
        let mut queue_names = queue_names;
        if r.chance(1, 4) {
            list_names.push(b"cl".to_vec());
            for _ in 0..2 {
                for x in *r.pick(COLL_LIST) {
                    item_names.push(x.to_le_bytes().to_vec());
                }
            }
        }
        if r.chance(1, 6) {
            queue_names.push(r.pick(COLL_QUEUE).0.to_le_bytes().to_vec());
        }
        if r.chance(1, 6) {
            // two collections whose hashes partly coincide
            let (a, b) = *r.pick(PART_LIST);
            list_names.extend([a.to_le_bytes().to_vec(), b.to_le_bytes().to_vec()]);
            let (a, b) = *r.pick(PART_QUEUE);
            queue_names.extend([a.to_le_bytes().to_vec(), b.to_le_bytes().to_vec()]);
        }
        Gen { pool, prof, uniq: 0, list_names, item_names, queue_names, big_names }
    }
    pub fn val(&mut self, r: &mut Rng) -> B {
        self.uniq += 1;
        let n = match r.below(10) {
            0 => 0,
            1..=4 => r.usize(20),
            5..=7 => r.usize(self.prof.vmax / 2 + 1),
            _ => r.usize(self.prof.vmax + 1),
        };
        let mut v = format!("{:x}.", self.uniq).into_bytes();
        if n < v.len() {
            v.truncate(n);
            return v;
        }
        let pad = n - v.len();
        match r.below(6) {
            0 => {
                // what makes it unique comes last
                let c = *r.pick(&[0u8, 0xff, b'#']);
                let mut w = vec![c; pad];
                w.extend(v);
                w
            }
            1 => {
                v.extend(std::iter::repeat(0).take(pad));
                v
            }
            2 => {
                v.extend(r.bytes(pad));
                v
            }
            _ => {
                v.extend(std::iter::repeat(b'a' + (self.uniq % 26) as u8).take(pad));
                v
            }
        }
    }
    /// a value for something whose value is `cur`: now and then the same, or almost the same
    pub fn val_near(&mut self, cur: Option<&B>, r: &mut Rng) -> B {
        match cur {
            Some(c) if r.chance(1, 4) => near(c, self.prof.vmax, r),
            _ => self.val(r),
        }
    }
    pub fn plain(&mut self, m: &Model, r: &mut Rng) -> Op {
        let k = r.pick(&self.pool.keys).clone();
        let g = self.prof.grow;
        match r.weighted(&[g, 12, 5, 100u32.saturating_sub(g).max(10) / 3, 12, 10]) {
            0 => {
                let v = self.val_near(m.kv.get(&k), r);
                Op::Set(k, v)
            }
            1 => Op::Get(k),
            2 => Op::Contains(k),
            3 => Op::Remove(k),
            4 => {
                let e = match r.below(5) {
                    0 => None,
                    1 => Some(self.val(r)),
                    2 => m.kv.get(&k).map(|c| near(c, self.prof.vmax, r)),
                    _ => Some(m.kv.get(&k).cloned().unwrap_or_else(|| b"?".to_vec())),
                };
                let v = self.val_near(if r.chance(1, 3) { e.as_ref() } else { m.kv.get(&k) }, r);
                Op::Replace(k, v, e)
            }
            _ => {
                let v = self.val_near(m.kv.get(&k), r);
                Op::Goc(k, v)
            }
        }
    }
    pub fn list(&mut self, m: &Model, r: &mut Rng) -> Op {
        let l = r.pick(&self.list_names).clone();
        let k = r.pick(&self.item_names).clone();
        let cur = m.lists.get(&l).and_then(|m| m.items.iter().find(|x| x.0 == k).map(|x| x.1.clone()));
        let p = &self.prof;
        let w = [
            26,
            if p.promote { 6 } else { 0 },
            6,
            16,
            8,
            6,
            4,
            4,
            2,
            2,
            3,
            3,
            if p.discard { 1 } else { 0 },
            if p.compact_lists { 3 } else { 0 },
        ];
        match r.weighted(&w) {
            0 => {
                let v = self.val_near(cur.as_ref(), r);
                Op::LSet(l, k, v)
            }
            1 => {
                let v = self.val_near(cur.as_ref(), r);
                Op::LPromote(l, k, v)
            }
            2 => Op::LGet(l, k),
            3 => Op::LRemove(l, k),
            4 => {
                let e = match r.below(5) {
                    0 => None,
                    1 => Some(self.val(r)),
                    2 => {
                        // the value followed by something / a truncated one
                        Some(near(&cur.clone().unwrap_or_default(), self.prof.vmax, r))
                    }
                    _ => Some(cur.clone().unwrap_or_else(|| b"?".to_vec())),
                };
                let v = self.val_near(if r.chance(1, 3) { e.as_ref() } else { cur.as_ref() }, r);
                Op::LReplace(l, k, v, e)
            }
            5 => {
                let v = self.val_near(cur.as_ref(), r);
                Op::LGoc(l, k, v)
            }
            6 => Op::LPop(l, true),
            7 => Op::LPop(l, false),
            8 => Op::LPeek(l, r.chance(1, 2)),
            9 => Op::LLen(l),
            10 => Op::LIter(l, true),
            11 => Op::LIter(l, false),
            12 => Op::LDiscard(l),
            _ => Op::LCompact(l, *r.pick(&[0, 1, 3, 10]), *r.pick(&[0.0, 0.1, 0.3, 0.6])),
        }
    }
    pub fn queue(&mut self, m: &Model, r: &mut Rng) -> Op {
        let q = r.pick(&self.queue_names).clone();
        let w = [10, 14, 7, 7, 2, 2, 10, 3, 3, 3, if self.prof.discard { 1 } else { 0 }, 4];
        match r.weighted(&w) {
            0 => Op::QPush(q, self.val(r), true),
            1 => Op::QPush(q, self.val(r), false),
            2 => Op::QPop(q, true),
            3 => Op::QPop(q, false),
            4 => Op::QPeek(q, true),
            5 => Op::QPeek(q, false),
            6 => {
                let items = m.queues.get(&q).map(|m| &m.items);
                let idx = match items {
                    Some(it) if !it.is_empty() => match r.below(8) {
                        0 => it.front().unwrap().0,
                        1 => it.back().unwrap().0,
                        2 => it.back().unwrap().0.wrapping_add(1),
                        3 => it.front().unwrap().0.wrapping_sub(1),
                        _ => it[r.usize(it.len())].0,
                    },
                    _ => 0x8000_0000_0000_0000u64.wrapping_add(r.below(3)).wrapping_sub(1),
                };
                Op::QRemove(q, idx)
            }
            7 => Op::QLen(q),
            8 => Op::QIter(q, true),
            9 => Op::QIter(q, false),
            10 => Op::QDiscard(q),
            _ => {
                let n = *r.pick(&[0usize, 1, 2, 5]);
                let v = (0..n).map(|_| self.val(r)).collect();
                Op::QExtend(q, v)
            }
        }
    }
    pub fn big(&mut self, _m: &Model, r: &mut Rng, maxlen: usize) -> Op {
        let k = r.pick(&self.big_names).clone();
        match r.weighted(&[4, 4, 2]) {
            0 => {
                let n = match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => MAX_VALUE_SIZE,
                    3 => MAX_VALUE_SIZE + 1,
                    4 => MAX_VALUE_SIZE * 2,
                    5 => MAX_VALUE_SIZE * 2 - 1,
                    _ => r.usize(maxlen + 1),
                }
                .min(maxlen);
                Op::BSet(k, r.bytes(n))
            }
            1 => Op::BGet(k),
            _ => Op::BRemove(k),
        }
    }
    pub fn op(&mut self, m: &Model, r: &mut Rng) -> Op {
        let w = self.prof.w;
        match r.weighted(&w) {
            0 => self.plain(m, r),
            1 => self.list(m, r),
            2 => self.queue(m, r),
            3 => self.big(m, r, 200_000),
            4 => Op::Clear,
            5 => Op::Merge(*r.pick(&[0.05f32, 0.25, 0.4, 0.49])),
            6 => Op::Flush,
            7 => Op::Stats,
            _ => Op::IterAll,
        }
    }
}
