//! The typed wrappers against typed models.
use crate::model::R;
use crate::run::*;
use crate::seq::{begin, World};
use crate::model::*;
use crate::util::*;
use candystore::*;
use std::result::Result;
use databuf::{config::num::LE, Decode, DecodeOwned, Encode};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use std::sync::Arc;

type Er = crate::seq::anyhow_like::E;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
pub struct PairA(u32, u32);
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
pub struct PairB(u32, u32);
impl CandyTypedKey for PairA {
    const TYPE_ID: u32 = 0x1234_5678;
}
impl CandyTypedKey for PairB {
    const TYPE_ID: u32 = 0x1234_5679;
}
/// types that encode alike and whose ids differ in few bits
macro_rules! alike {
    ($($t:ident $id:expr),*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
        pub struct $t(u32, u32);
        impl CandyTypedKey for $t {
            const TYPE_ID: u32 = $id;
        }
        impl G for $t {
            fn g(r: &mut Rng) -> Self {
                $t(r.below(3) as u32, u32::g(r))
            }
        }
    )* };
}
alike!(PairC 0x9234_5678, PairD 0x1234_d678, PairE 0x0000_5678, PairF 0x1235_5678, PairG 0x5678_1234);
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub enum Shape {
    Dot,
    Named(String),
    Poly { pts: Vec<(i32, i32)>, tag: Option<u8> },
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Rec3 {
    a: u64,
    b: String,
    c: Vec<Option<i16>>,
}

pub trait G: Sized {
    fn g(r: &mut Rng) -> Self;
}
macro_rules! gint {
    ($($t:ty),*) => { $(impl G for $t {
        fn g(r: &mut Rng) -> Self {
            match r.below(6) {
                0 => <$t>::MIN,
                1 => <$t>::MAX,
                2 => 0 as $t,
                3 => (r.below(300)) as $t,
                4 => (1 as $t).wrapping_shl(r.below(128) as u32),
                _ => ((r.next() as u128) << 64 | r.next() as u128) as $t,
            }
        }
    })* };
}
gint!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);
impl G for bool {
    fn g(r: &mut Rng) -> Self {
        r.chance(1, 2)
    }
}
impl G for char {
    fn g(r: &mut Rng) -> Self {
        *r.pick(&['\0', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'])
    }
}
impl G for String {
    fn g(r: &mut Rng) -> Self {
        let n = *r.pick(&[0usize, 1, 2, 5, 30, 127, 128, 129, 300]);
        (0..n).map(|_| if r.chance(1, 5) { char::g(r) } else { (b'a' + r.below(26) as u8) as char }).collect()
    }
}
impl G for Vec<u8> {
    fn g(r: &mut Rng) -> Self {
        let n = *r.pick(&[0usize, 1, 2, 3, 4, 8, 16, 127, 128, 256, 257]);
        let mut v = r.bytes(n);
        if r.chance(1, 3) {
            for b in v.iter_mut() {
                *b &= 7;
            }
        }
        v
    }
}
impl G for [u8; 16] {
    fn g(r: &mut Rng) -> Self {
        if r.chance(1, 4) {
            [r.below(3) as u8; 16]
        } else {
            r.bytes(16).try_into().unwrap()
        }
    }
}
impl G for PairA {
    fn g(r: &mut Rng) -> Self {
        PairA(r.below(3) as u32, u32::g(r))
    }
}
impl G for PairB {
    fn g(r: &mut Rng) -> Self {
        PairB(r.below(3) as u32, u32::g(r))
    }
}
impl G for () {
    fn g(_: &mut Rng) -> Self {}
}
impl G for f64 {
    fn g(r: &mut Rng) -> Self {
        *r.pick(&[0.0, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, 1e-300])
    }
}
impl G for Shape {
    fn g(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Shape::Dot,
            1 => Shape::Named(String::g(r)),
            _ => {
                let n = r.usize(20);
                Shape::Poly {
                    pts: (0..n).map(|_| (i32::g(r), i32::g(r))).collect(),
                    tag: if r.chance(1, 2) { Some(u8::g(r)) } else { None },
                }
            }
        }
    }
}
impl G for Rec3 {
    fn g(r: &mut Rng) -> Self {
        let n = r.usize(6);
        Rec3 { a: u64::g(r), b: String::g(r), c: (0..n).map(|_| if r.chance(1, 2) { Some(i16::g(r)) } else { None }).collect() }
    }
}
impl<A: G, B2: G> G for (A, B2) {
    fn g(r: &mut Rng) -> Self {
        (A::g(r), B2::g(r))
    }
}
impl<T: G> G for Option<T> {
    fn g(r: &mut Rng) -> Self {
        if r.chance(1, 3) { None } else { Some(T::g(r)) }
    }
}

pub trait Val: Encode + DecodeOwned + Clone + PartialEq + Debug + G + 'static {}
impl<T: Encode + DecodeOwned + Clone + PartialEq + Debug + G + 'static> Val for T {}

/// keys; some have a borrowed form
pub trait Key: CandyTypedKey + Clone + Ord + Debug + G + 'static {
    fn bget<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self) -> candystore::Result<Option<V>> {
        t.get(k)
    }
    fn bset<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self, v: &V) -> candystore::Result<Option<V>> {
        t.set(k, v)
    }
    fn bcontains<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self) -> candystore::Result<bool> {
        t.contains(k)
    }
    fn bremove<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self) -> candystore::Result<Option<V>> {
        t.remove(k)
    }
    fn blget<K: Key, V: Val>(t: &CandyTypedList<Self, K, V>, l: &Self, k: &K) -> candystore::Result<Option<V>> {
        t.get(l, k)
    }
    fn bpush<V: Val>(t: &CandyTypedDeque<Self, V>, l: &Self, v: &V) -> candystore::Result<()> {
        t.push_tail(l, v)
    }
}
macro_rules! key {
    ($($t:ty),*) => { $(impl Key for $t {})* };
}
key!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, usize, isize, char, [u8; 16], PairA, PairB, PairC, PairD, PairE, PairF, PairG);
macro_rules! bkey {
    ($t:ty, $b:ty) => {
        impl Key for $t {
            fn bget<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self) -> candystore::Result<Option<V>> {
                let k: &$b = k;
                t.get(k)
            }
            fn bset<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self, v: &V) -> candystore::Result<Option<V>> {
                let k: &$b = k;
                t.set(k, v)
            }
            fn bcontains<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self) -> candystore::Result<bool> {
                let k: &$b = k;
                t.contains(k)
            }
            fn bremove<V: Val>(t: &CandyTypedStore<Self, V>, k: &Self) -> candystore::Result<Option<V>> {
                let k: &$b = k;
                t.remove(k)
            }
            fn blget<K: Key, V: Val>(t: &CandyTypedList<Self, K, V>, l: &Self, k: &K) -> candystore::Result<Option<V>> {
                let l: &$b = l;
                t.get(l, k)
            }
            fn bpush<V: Val>(t: &CandyTypedDeque<Self, V>, l: &Self, v: &V) -> candystore::Result<()> {
                let l: &$b = l;
                t.push_tail(l, v)
            }
        }
    };
}
bkey!(String, str);
bkey!(Vec<u8>, [u8]);

fn e(op: &str) -> impl Fn(Er) -> String + '_ {
    move |x| format!("typed {op} returned an error: {x:#}")
}
fn same<T: PartialEq + Debug>(op: &str, what: &dyn Debug, got: T, want: T) -> R {
    if got != want {
        return Err(format!(
            "typed {op} on {} returned {}, expected {}",
            trunc(format!("{what:?}")),
            trunc(format!("{got:?}")),
            trunc(format!("{want:?}"))
        ));
    }
    Ok(())
}

pub trait TObj {
    fn step(&mut self, s: &Arc<CandyStore>, r: &mut Rng) -> R;
    fn verify(&mut self, s: &Arc<CandyStore>) -> R;
}

fn pool<K: Key>(r: &mut Rng, n: usize) -> Vec<K> {
    let mut v: Vec<K> = (0..n).map(|_| K::g(r)).collect();
    v.sort();
    v.dedup();
    v
}

struct TS<K: Key, V: Val> {
    keys: Vec<K>,
    m: BTreeMap<K, V>,
    big: BTreeMap<K, V>,
    use_big: bool,
}
impl<K: Key, V: Val> TS<K, V> {
    fn boxed(r: &mut Rng, use_big: bool) -> Box<dyn TObj> {
        Box::new(TS::<K, V> { keys: pool(r, 12), m: BTreeMap::new(), big: BTreeMap::new(), use_big })
    }
}
impl<K: Key, V: Val> TObj for TS<K, V> {
    fn step(&mut self, s: &Arc<CandyStore>, r: &mut Rng) -> R {
        let t0 = CandyTypedStore::<K, V>::new(s.clone());
        let t = if r.chance(1, 2) { t0.clone() } else { t0 };
        let k = r.pick(&self.keys).clone();
        let v = V::g(r);
        let b = r.chance(1, 2);
        match r.below(if self.use_big { 13 } else { 10 }) {
            0..=2 => {
                let got = if b { K::bset(&t, &k, &v) } else { t.set(&k, &v) }.map_err(e("set"))?;
                same("set", &k, got, self.m.insert(k.clone(), v))
            }
            3 | 4 => {
                let got = if b { K::bget(&t, &k) } else { t.get(&k) }.map_err(e("get"))?;
                same("get", &k, got, self.m.get(&k).cloned())
            }
            5 => {
                let got = if b { K::bcontains(&t, &k) } else { t.contains(&k) }.map_err(e("contains"))?;
                same("contains", &k, got, self.m.contains_key(&k))
            }
            6 => {
                let got = if b { K::bremove(&t, &k) } else { t.remove(&k) }.map_err(e("remove"))?;
                same("remove", &k, got, self.m.remove(&k))
            }
            7 => {
                let got = t.get_or_create(&k, &v).map_err(e("get_or_create"))?;
                let want = self.m.entry(k.clone()).or_insert(v).clone();
                same("get_or_create", &k, got, want)
            }
            _ => {
                let cur = self.m.get(&k).cloned();
                let exp = match r.below(3) {
                    0 => None,
                    1 => cur.clone(),
                    _ => Some(V::g(r)),
                };
                let hit = cur.is_some() && (exp.is_none() || exp.as_ref().map(|x| x.to_bytes::<LE>()) == cur.as_ref().map(|x| x.to_bytes::<LE>()));
                let got = t.replace(&k, &v, exp.as_ref()).map_err(e("replace"))?;
                let want = if hit { self.m.insert(k.clone(), v) } else { None };
                same("replace", &k, got, want)
            }
            10 => {
                let got = t.set_big(&k, &v).map_err(e("set_big"))?;
                same("set_big", &k, got, self.big.insert(k.clone(), v).is_some())
            }
            11 => {
                let got = t.get_big(&k).map_err(e("get_big"))?;
                same("get_big", &k, got, self.big.get(&k).cloned())
            }
            12 => {
                let got = t.remove_big(&k).map_err(e("remove_big"))?;
                same("remove_big", &k, got, self.big.remove(&k).is_some())
            }
        }
    }
    fn verify(&mut self, s: &Arc<CandyStore>) -> R {
        let t = CandyTypedStore::<K, V>::new(s.clone());
        for k in &self.keys {
            same("get", k, t.get(k).map_err(e("get"))?, self.m.get(k).cloned())?;
            if self.use_big {
                same("get_big", k, t.get_big(k).map_err(e("get_big"))?, self.big.get(k).cloned())?;
            }
        }
        Ok(())
    }
}

struct TL<L: Key, K: Key, V: Val> {
    names: Vec<L>,
    keys: Vec<K>,
    m: BTreeMap<L, Vec<(K, V)>>,
}
impl<L: Key, K: Key, V: Val> TL<L, K, V> {
    fn boxed(r: &mut Rng) -> Box<dyn TObj> {
        Box::new(TL::<L, K, V> { names: pool(r, 3), keys: pool(r, 8), m: BTreeMap::new() })
    }
}
impl<L: Key, K: Key, V: Val> TObj for TL<L, K, V> {
    fn step(&mut self, s: &Arc<CandyStore>, r: &mut Rng) -> R {
        let t0 = CandyTypedList::<L, K, V>::new(s.clone());
        let t = if r.chance(1, 2) { t0.clone() } else { t0 };
        let l = r.pick(&self.names).clone();
        let k = r.pick(&self.keys).clone();
        let v = V::g(r);
        let b = r.chance(1, 2);
        let m = self.m.entry(l.clone()).or_default();
        let pos = m.iter().position(|x| x.0 == k);
        let cur = pos.map(|i| m[i].1.clone());
        let w = (&l, &k);
        match r.below(18) {
            0..=3 => {
                let got = t.set(&l, &k, &v).map_err(e("list set"))?;
                match pos {
                    Some(i) => m[i].1 = v,
                    None => m.push((k.clone(), v)),
                }
                same("list set", &w, got, cur)
            }
            4 => {
                let got = t.set_promoting(&l, &k, &v).map_err(e("list set_promoting"))?;
                if let Some(i) = pos {
                    m.remove(i);
                }
                m.push((k.clone(), v));
                if got.is_some() {
                    same("list set_promoting", &w, got, cur)?;
                }
                Ok(())
            }
            5 | 6 => {
                let got = if b { L::blget(&t, &l, &k) } else { t.get(&l, &k) }.map_err(e("list get"))?;
                same("list get", &w, got, cur)
            }
            7 => same("list contains", &w, t.contains(&l, &k).map_err(e("list contains"))?, cur.is_some()),
            8 => {
                let got = t.remove(&l, &k).map_err(e("list remove"))?;
                if let Some(i) = pos {
                    m.remove(i);
                }
                same("list remove", &w, got, cur)
            }
            9 => {
                let got = t.get_or_create(&l, &k, &v).map_err(e("list get_or_create"))?;
                let want = cur.clone().unwrap_or(v.clone());
                if cur.is_none() {
                    m.push((k.clone(), v));
                }
                same("list get_or_create", &w, got, want)
            }
            10 | 11 => {
                let exp = match r.below(3) {
                    0 => None,
                    1 => cur.clone(),
                    _ => Some(V::g(r)),
                };
                let hit = cur.is_some() && (exp.is_none() || exp.as_ref().map(|x| x.to_bytes::<LE>()) == cur.as_ref().map(|x| x.to_bytes::<LE>()));
                let got = t.replace(&l, &k, &v, exp.as_ref()).map_err(e("list replace"))?;
                let want = if hit {
                    m[pos.unwrap()].1 = v;
                    cur
                } else {
                    None
                };
                same("list replace", &w, got, want)
            }
            12 => {
                let head = b;
                let got = if head { t.pop_head(&l) } else { t.pop_tail(&l) }.map_err(e("list pop"))?;
                let want = if m.is_empty() { None } else { Some(m.remove(if head { 0 } else { m.len() - 1 })) };
                same("list pop", &w, got, want)
            }
            13 => {
                let got = if b { t.peek_head(&l) } else { t.peek_tail(&l) }.map_err(e("list peek"))?;
                same("list peek", &w, got, if b { m.first() } else { m.last() }.cloned())
            }
            14 => {
                if r.chance(1, 4) {
                    let got = t.discard(&l).map_err(e("list discard"))?;
                    let want = !m.is_empty();
                    m.clear();
                    if want {
                        return same("list discard", &w, got, want);
                    }
                }
                Ok(())
            }
            15 => {
                t.compact_if_needed(&l, ListCompactionParams { min_length: r.below(4), min_holes_ratio: 0.0 })
                    .map_err(e("list compact"))?;
                Ok(())
            }
            16 => same("list len", &w, t.len(&l).map_err(e("list len"))?, m.len()),
            _ => {
                let mut got = vec![];
                if b {
                    for x in t.iter(&l) {
                        got.push(x.map_err(e("list iter"))?);
                    }
                } else {
                    for x in t.iter_backwards(&l) {
                        got.push(x.map_err(e("list iter"))?);
                    }
                    got.reverse();
                }
                same("list iter", &w, got, m.clone())
            }
        }
    }
    fn verify(&mut self, s: &Arc<CandyStore>) -> R {
        let t = CandyTypedList::<L, K, V>::new(s.clone());
        for l in &self.names {
            let want = self.m.get(l).cloned().unwrap_or_default();
            let mut got = vec![];
            for x in t.iter(l) {
                got.push(x.map_err(e("list iter"))?);
            }
            same("list iter", l, got, want.clone())?;
            for k in &self.keys {
                same(
                    "list get",
                    &(l, k),
                    t.get(l, k).map_err(e("list get"))?,
                    want.iter().find(|x| &x.0 == k).map(|x| x.1.clone()),
                )?;
            }
        }
        Ok(())
    }
}

struct TD<L: Key, V: Val> {
    names: Vec<L>,
    m: BTreeMap<L, VecDeque<(usize, V)>>,
}
impl<L: Key, V: Val> TD<L, V> {
    fn boxed(r: &mut Rng) -> Box<dyn TObj> {
        Box::new(TD::<L, V> { names: pool(r, 3), m: BTreeMap::new() })
    }
}
impl<L: Key, V: Val> TObj for TD<L, V> {
    fn step(&mut self, s: &Arc<CandyStore>, r: &mut Rng) -> R {
        let t0 = CandyTypedDeque::<L, V>::new(s.clone());
        let t = if r.chance(1, 2) { t0.clone() } else { t0 };
        let l = r.pick(&self.names).clone();
        let v = V::g(r);
        let b = r.chance(1, 2);
        let m = self.m.entry(l.clone()).or_default();
        match r.below(12) {
            0..=3 => {
                let head = r.chance(1, 2);
                if head {
                    t.push_head(&l, &v).map_err(e("push_head"))?;
                    let i = t.range(&l).map_err(e("range"))?.start;
                    m.push_front((i, v));
                } else {
                    if b { L::bpush(&t, &l, &v) } else { t.push_tail(&l, &v) }.map_err(e("push_tail"))?;
                    let i = t.range(&l).map_err(e("range"))?.end - 1;
                    m.push_back((i, v));
                }
                let idx: Vec<usize> = m.iter().map(|x| x.0).collect();
                if !idx.windows(2).all(|w| w[0] < w[1]) {
                    return Err(format!("deque indices are not increasing: {idx:x?}"));
                }
                Ok(())
            }
            4 => {
                let got = if b { t.pop_head(&l) } else { t.pop_tail(&l) }.map_err(e("pop"))?;
                let want = if b { m.pop_front() } else { m.pop_back() }.map(|x| x.1);
                same("deque pop", &l, got, want)
            }
            5 => {
                let got = if b { t.pop_head_with_idx(&l) } else { t.pop_tail_with_idx(&l) }.map_err(e("pop"))?;
                let want = if b { m.pop_front() } else { m.pop_back() };
                same("deque pop_with_idx", &l, got, want)
            }
            6 => {
                let got = if b { t.peek_head(&l) } else { t.peek_tail(&l) }.map_err(e("peek"))?;
                let want = if b { m.front() } else { m.back() }.map(|x| x.1.clone());
                same("deque peek", &l, got, want)
            }
            7 => {
                let got = if b { t.peek_head_with_idx(&l) } else { t.peek_tail_with_idx(&l) }.map_err(e("peek"))?;
                let want = if b { m.front() } else { m.back() }.cloned();
                same("deque peek_with_idx", &l, got, want)
            }
            8 => same("deque len", &l, t.len(&l).map_err(e("len"))?, m.len()),
            _ => {
                let mut got = VecDeque::new();
                if b {
                    for x in t.iter(&l) {
                        got.push_back(x.map_err(e("iter"))?);
                    }
                } else {
                    for x in t.iter_backwards(&l) {
                        got.push_front(x.map_err(e("iter"))?);
                    }
                }
                same("deque iter", &l, got, m.clone())
            }
        }
    }
    fn verify(&mut self, s: &Arc<CandyStore>) -> R {
        let t = CandyTypedDeque::<L, V>::new(s.clone());
        for l in &self.names {
            let mut got = VecDeque::new();
            for x in t.iter(l) {
                got.push_back(x.map_err(e("iter"))?);
            }
            same("deque iter", l, got, self.m.get(l).cloned().unwrap_or_default())?;
        }
        Ok(())
    }
}

pub struct Typed {
    objs: Vec<Box<dyn TObj>>,
}
impl Typed {
    /// typed stores only (names of typed lists and queues live in the untyped name space by design)
    pub fn new() -> Typed {
        let mut r = Rng::new(99);
        let r = &mut r;
        Typed {
            objs: vec![
                TS::<String, Vec<u8>>::boxed(r, false),
                TS::<Vec<u8>, String>::boxed(r, false),
                TS::<u32, u64>::boxed(r, false),
                TS::<i32, u64>::boxed(r, false),
                TS::<bool, ()>::boxed(r, false),
                TS::<PairA, Rec3>::boxed(r, false),
                TS::<PairB, Rec3>::boxed(r, false),
            ],
        }
    }
    pub fn full(r: &mut Rng) -> Typed {
        let mut o: Vec<Box<dyn TObj>> = vec![];
        macro_rules! stores {
            ($($k:ty),*) => { $(
                if r.chance(3, 4) {
                    // two wrappers of the same type over the same keys would need one model: one wrapper per key type
                    match r.below(6) {
                        0 => o.push(TS::<$k, String>::boxed(r, true)),
                        1 => o.push(TS::<$k, Vec<u8>>::boxed(r, true)),
                        2 => o.push(TS::<$k, Rec3>::boxed(r, true)),
                        3 => o.push(TS::<$k, Shape>::boxed(r, true)),
                        4 => o.push(TS::<$k, Option<(u8, i128)>>::boxed(r, true)),
                        _ => o.push(TS::<$k, $k>::boxed(r, true)),
                    }
                }
                if r.chance(1, 3) {
                    match r.below(4) {
                        0 => o.push(TL::<$k, String, Rec3>::boxed(r)),
                        1 => o.push(TL::<$k, $k, f64>::boxed(r)),
                        2 => o.push(TL::<$k, Vec<u8>, ()>::boxed(r)),
                        _ => o.push(TL::<$k, PairB, Shape>::boxed(r)),
                    }
                }
                if r.chance(1, 3) {
                    match r.below(4) {
                        0 => o.push(TD::<$k, String>::boxed(r)),
                        1 => o.push(TD::<$k, Shape>::boxed(r)),
                        2 => o.push(TD::<$k, ()>::boxed(r)),
                        _ => o.push(TD::<$k, $k>::boxed(r)),
                    }
                }
            )* };
        }
        stores!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, usize, isize, char, String, Vec<u8>, [u8; 16], PairA, PairB, PairC, PairD, PairE, PairF, PairG);
        if o.is_empty() {
            o.push(TS::<String, String>::boxed(r, true));
        }
        Typed { objs: o }
    }
    pub fn step(&mut self, s: &Arc<CandyStore>, r: &mut Rng) -> R {
        let i = r.usize(self.objs.len());
        self.objs[i].step(s, r)
    }
    pub fn verify(&mut self, s: &Arc<CandyStore>) -> R {
        for o in self.objs.iter_mut() {
            o.verify(s)?;
        }
        Ok(())
    }
}

pub fn c22(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    crate::seq::fit(&mut cfg, 20_000);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    w.gate(r.chance(1, 2));
    let mut t = Typed::full(&mut r);
    w.desc = format!("{} typed wrappers", t.objs.len());
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    ctx.count("wrappers", t.objs.len() as u64);
    // plain data next to it must be left alone and must not show up
    let pool = Pool::new(&mut r, &w.cfg.seed, 10);
    let n = 400 + r.usize(800);
    for i in 0..n {
        if r.chance(1, 20) {
            let k = r.pick(&pool.keys).clone();
            let v = r.bytes(10);
            w.step(&Op::Set(k, v), &mut r)?;
        }
        let s = w.s.clone().unwrap();
        tick(|| "typed call".into());
        let x = guard(|| in_op(|| t.step(&s, &mut r)));
        drop(s);
        w.nops += 1;
        w.chk("typed", x)?;
        w.background(&mut r);
        if i % 200 == 199 {
            if r.chance(1, 2) {
                w.reopen()?;
            }
            w.verify(&mut r, "plain contents")?;
            let s = w.s.clone().unwrap();
            let x = guard(|| in_op(|| t.verify(&s)));
            w.chk("typed contents", x)?;
        }
    }
    w.finish(ctx)
}
