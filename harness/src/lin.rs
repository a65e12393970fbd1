//! Linearizability of recorded histories against a sequential specification: the set of all specification states
//! reachable by some order of effects consistent with real time is carried along the history (configurations = state +
//! the pending calls that already took effect).
use std::collections::HashSet;
use std::hash::Hash;

pub trait Spec: Clone + Eq + Hash {
    type Op;
    /// state after `op` with the result it reported, or None if that result is impossible in this state
    fn apply(&self, op: &Self::Op) -> Option<Self>;
}
#[derive(Clone, Debug)]
pub struct Rec<O> {
    pub call: u64,
    pub ret: u64,
    pub thread: u8,
    pub op: O,
}
pub enum Verdict {
    Ok { configs: usize, overlaps: usize },
    /// index (into the input) of the call whose return cannot be explained
    Bad(usize),
    TooBig,
}
pub fn check<S: Spec>(init: S, recs: &[Rec<S::Op>]) -> Verdict {
    let mut ev: Vec<(u64, bool, usize)> = Vec::with_capacity(recs.len() * 2);
    for (i, r) in recs.iter().enumerate() {
        ev.push((r.call, false, i));
        ev.push((r.ret, true, i));
    }
    ev.sort_unstable();
    let mut slot = vec![usize::MAX; recs.len()];
    let mut pend: Vec<Option<usize>> = vec![None; 64];
    let mut configs: HashSet<(S, u64)> = HashSet::new();
    configs.insert((init, 0));
    let mut maxc = 1;
    let mut overlaps = 0;
    for (_, is_ret, i) in ev {
        if !is_ret {
            let s = pend.iter().position(|x| x.is_none()).expect("too many pending calls");
            if pend.iter().any(|x| x.is_some()) {
                overlaps += 1;
            }
            pend[s] = Some(i);
            slot[i] = s;
            continue;
        }
        let b = slot[i];
        let mut seen: HashSet<(S, u64)> = HashSet::new();
        let mut out: HashSet<(S, u64)> = HashSet::new();
        let mut work: Vec<(S, u64)> = configs.drain().collect();
        while let Some((s, mask)) = work.pop() {
            if mask & (1 << b) != 0 {
                out.insert((s, mask & !(1 << b)));
                continue;
            }
            for (p, x) in pend.iter().enumerate() {
                let Some(x) = x else { continue };
                if mask & (1 << p) != 0 {
                    continue;
                }
                if let Some(n) = s.apply(&recs[*x].op) {
                    let c = (n, mask | 1 << p);
                    if seen.insert(c.clone()) {
                        work.push(c);
                    }
                }
            }
            if seen.len() > 400_000 {
                return Verdict::TooBig;
            }
        }
        if out.is_empty() {
            return Verdict::Bad(i);
        }
        pend[b] = None;
        maxc = maxc.max(out.len());
        configs = out;
    }
    Verdict::Ok { configs: maxc, overlaps }
}

// ------------------------------------------------------------------ register (plain key)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Reg(pub u32); // 0 = absent
#[derive(Clone, Debug, PartialEq)]
pub enum RegOp {
    /// v -> previous
    Set(u32, u32),
    Get(u32),
    Contains(bool),
    /// removed value
    Remove(u32),
    /// new, expected (None: unconditional), outcome: (was replaced, value seen; 0 = missing)
    Replace(u32, Option<u32>, bool, u32),
    /// default, created?, value
    Goc(u32, bool, u32),
    Clear,
}
impl Spec for Reg {
    type Op = RegOp;
    fn apply(&self, op: &RegOp) -> Option<Reg> {
        match *op {
            RegOp::Set(v, prev) => (self.0 == prev).then_some(Reg(v)),
            RegOp::Get(v) => (self.0 == v).then_some(Reg(self.0)),
            RegOp::Contains(c) => ((self.0 != 0) == c).then_some(Reg(self.0)),
            RegOp::Remove(v) => (self.0 == v).then_some(Reg(0)),
            RegOp::Replace(v, exp, replaced, seen) => {
                if self.0 != seen {
                    return None;
                }
                let should = self.0 != 0 && exp.map(|e| e == self.0).unwrap_or(true);
                if should != replaced {
                    return None;
                }
                Some(Reg(if should { v } else { self.0 }))
            }
            RegOp::Goc(v, created, seen) => {
                if created {
                    (self.0 == 0).then_some(Reg(v))
                } else {
                    (self.0 != 0 && self.0 == seen).then_some(Reg(self.0))
                }
            }
            RegOp::Clear => Some(Reg(0)),
        }
    }
}

// ------------------------------------------------------------------ list
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct LSt(pub Vec<(u8, u32)>);
#[derive(Clone, Debug, PartialEq)]
pub enum LOp {
    Set(u8, u32, u32),
    Replace(u8, u32, Option<u32>, bool, u32),
    Goc(u8, u32, bool, u32),
    Get(u8, u32),
    Remove(u8, u32),
    /// head?, popped
    Pop(bool, Option<(u8, u32)>),
    Peek(bool, Option<(u8, u32)>),
    Discard(bool),
    /// the whole store was cleared
    Clear,
}
impl Spec for LSt {
    type Op = LOp;
    fn apply(&self, op: &LOp) -> Option<LSt> {
        let get = |i: u8| self.0.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
        let put = |i: u8, v: u32| {
            let mut n = self.0.clone();
            match n.iter_mut().find(|x| x.0 == i) {
                Some(x) => x.1 = v,
                None => n.push((i, v)),
            }
            LSt(n)
        };
        match *op {
            LOp::Set(i, v, prev) => (get(i) == prev).then(|| put(i, v)),
            LOp::Replace(i, v, e, replaced, seen) => {
                let c = get(i);
                let should = c != 0 && e.map(|e| e == c).unwrap_or(true);
                if c != seen || should != replaced {
                    return None;
                }
                Some(if should { put(i, v) } else { self.clone() })
            }
            LOp::Goc(i, v, created, seen) => {
                let c = get(i);
                if created {
                    (c == 0).then(|| put(i, v))
                } else {
                    (c != 0 && c == seen).then(|| self.clone())
                }
            }
            LOp::Get(i, v) => (get(i) == v).then(|| self.clone()),
            LOp::Remove(i, v) => (get(i) == v).then(|| LSt(self.0.iter().filter(|x| x.0 != i).cloned().collect())),
            LOp::Pop(head, got) => {
                let want = if head { self.0.first() } else { self.0.last() };
                if want.cloned() != got {
                    return None;
                }
                let mut n = self.0.clone();
                if !n.is_empty() {
                    if head {
                        n.remove(0);
                    } else {
                        n.pop();
                    }
                }
                Some(LSt(n))
            }
            LOp::Peek(head, got) => {
                let want = if head { self.0.first() } else { self.0.last() };
                (want.cloned() == got).then(|| self.clone())
            }
            LOp::Clear => Some(LSt(vec![])),
            LOp::Discard(b) => (b || self.0.is_empty()).then(|| LSt(vec![])),
        }
    }
}

// ------------------------------------------------------------------ queue
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct QSt(pub Vec<(u64, u32)>);
#[derive(Clone, Debug, PartialEq)]
pub enum QOp {
    /// head?, value, index
    Push(bool, u32, u64),
    Extend(Vec<u32>, u64),
    Pop(bool, Option<(u64, u32)>),
    Peek(bool, Option<(u64, u32)>),
    Remove(u64, u32),
    Discard(bool),
    Len(u64),
    Clear,
}
impl Spec for QSt {
    type Op = QOp;
    fn apply(&self, op: &QOp) -> Option<QSt> {
        match op {
            QOp::Push(head, v, idx) => {
                let mut n = self.0.clone();
                if *head {
                    if n.first().map(|f| f.0 <= *idx).unwrap_or(false) {
                        return None;
                    }
                    n.insert(0, (*idx, *v));
                } else {
                    if n.last().map(|f| f.0 >= *idx).unwrap_or(false) {
                        return None;
                    }
                    n.push((*idx, *v));
                }
                Some(QSt(n))
            }
            QOp::Extend(vs, idx) => {
                let mut n = self.0.clone();
                if n.last().map(|f| f.0 >= *idx).unwrap_or(false) {
                    return None;
                }
                for (i, v) in vs.iter().enumerate() {
                    n.push((*idx + i as u64, *v));
                }
                Some(QSt(n))
            }
            QOp::Pop(head, got) => {
                let want = if *head { self.0.first() } else { self.0.last() };
                if want != got.as_ref() {
                    return None;
                }
                let mut n = self.0.clone();
                if !n.is_empty() {
                    if *head {
                        n.remove(0);
                    } else {
                        n.pop();
                    }
                }
                Some(QSt(n))
            }
            QOp::Remove(i, v) => {
                let c = self.0.iter().find(|x| x.0 == *i).map(|x| x.1).unwrap_or(0);
                (c == *v).then(|| QSt(self.0.iter().filter(|x| x.0 != *i).cloned().collect()))
            }
            QOp::Peek(head, got) => {
                let want = if *head { self.0.first() } else { self.0.last() };
                (want == got.as_ref()).then(|| self.clone())
            }
            QOp::Clear => Some(QSt(vec![])),
            QOp::Discard(b) => (*b || self.0.is_empty()).then(|| QSt(vec![])),
            QOp::Len(n) => (self.0.len() as u64 == *n).then(|| self.clone()),
        }
    }
}
