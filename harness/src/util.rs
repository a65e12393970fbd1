//! PRNG, JSON output, scratch directories, hashing of keys (used only to *generate hostile inputs*).
use siphasher::sip128::{Hasher128, SipHasher24};
use std::hash::Hasher;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct Rng(pub u64, pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn from(seed: u64, a: u64, b: u64) -> Self {
        let mut r = Rng::new(seed);
        let x = r.next() ^ a.wrapping_mul(0xA24B_AED4_963E_E407);
        let mut r = Rng::new(x);
        let y = r.next() ^ b.wrapping_mul(0x9FB2_1C65_1E98_DF25);
        Rng::new(y)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
    /// weighted choice: returns index
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let sum: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(sum);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi as u64 {
                return i;
            }
            x -= *wi as u64;
        }
        unreachable!()
    }
}

/// The placement of a full (namespaced) key, as the code under test currently computes it. Only used to steer inputs
/// towards collisions; no oracle depends on it.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Place {
    pub shard: u32,
    pub row: usize,
    pub sig: u32,
}
pub fn place(seed: &[u8; 16], full_key: &[u8]) -> Place {
    let mut h = SipHasher24::new_with_key(seed);
    h.write(full_key);
    let h = h.finish128();
    Place {
        shard: ((h.h1 >> 48) & 0xffff) as u32,
        row: (((h.h1 >> 32) as u16) as usize) % 64,
        sig: h.h1 as u32,
    }
}
pub fn place_user(seed: &[u8; 16], key: &[u8]) -> Place {
    let mut k = key.to_vec();
    k.push(1);
    place(seed, &k)
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    let n = b.len().min(24);
    for c in &b[..n] {
        if (0x20..0x7f).contains(c) && *c != b'\\' {
            s.push(*c as char);
        } else {
            s.push_str(&format!("\\x{:02x}", c));
        }
    }
    if b.len() > n {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    format!("\"{s}\"")
}
pub fn show_opt(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "None".into(),
        Some(b) => format!("Some({})", show(b)),
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn wipe(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
}
pub fn fresh(dir: &Path) -> PathBuf {
    wipe(dir);
    std::fs::create_dir_all(dir).expect("scratch dir");
    dir.to_path_buf()
}
pub fn copy_dir(src: &Path, dst: &Path) {
    fresh(dst);
    for e in std::fs::read_dir(src).expect("read_dir") {
        let e = e.expect("entry");
        if e.file_type().map(|t| t.is_file()).unwrap_or(false) {
            // a file may vanish while copying (background rename); callers that need exactness quiesce first
            let _ = std::fs::copy(e.path(), dst.join(e.file_name()));
        }
    }
}
/// name -> (len, content hash) of all regular files
pub fn dir_digest(dir: &Path) -> std::collections::BTreeMap<String, (u64, u64)> {
    let mut m = std::collections::BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            if let Ok(ft) = e.file_type() {
                if ft.is_file() {
                    let c = std::fs::read(e.path()).unwrap_or_default();
                    m.insert(name, (c.len() as u64, fnv_fast(&c)));
                } else {
                    m.insert(name, (u64::MAX, 0));
                }
            }
        }
    }
    m
}
pub fn fnv_fast(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut ch = b.chunks_exact(8);
    for c in &mut ch {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    for x in ch.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
