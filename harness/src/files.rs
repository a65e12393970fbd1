//! C21: leftovers, foreign files, unknown formats.
use crate::crash::*;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::result::Result;

const HEADER_SIZE: u64 = candystore::Stats::FILE_HEADER_SIZE as u64;

/// everything there is to see about a path, recursively
fn look(p: &Path, out: &mut BTreeMap<PathBuf, String>) {
    let Ok(m) = std::fs::symlink_metadata(p) else {
        out.insert(p.into(), "missing".into());
        return;
    };
    let what = if m.is_dir() {
        let mut n: Vec<PathBuf> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
        n.sort();
        n.iter().for_each(|x| look(x, out));
        format!("directory of {}", n.len())
    } else if m.is_symlink() {
        format!("link to {:?}", std::fs::read_link(p).ok())
    } else if m.is_file() {
        let c = std::fs::read(p).unwrap_or_default();
        format!("{} bytes, hash {:x}", c.len(), fnv_fast(&c))
    } else {
        "special".into()
    };
    out.insert(p.into(), format!("{what}, inode {}, mode {:o}, links {}", m.ino(), m.mode(), m.nlink()));
}
fn look_all(ps: &BTreeSet<PathBuf>) -> BTreeMap<PathBuf, String> {
    let mut o = BTreeMap::new();
    ps.iter().for_each(|p| look(p, &mut o));
    o
}
fn changed(a: &BTreeMap<PathBuf, String>, b: &BTreeMap<PathBuf, String>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return Some(format!("{k:?} was {:?}, is {:?}", a.get(k), b.get(k)));
        }
    }
    None
}

fn foreign_name(r: &mut Rng) -> OsString {
    let kind = *r.pick(&["shard", "bottom", "top", "merge", "compact"]);
    let span = *r.pick(&["0000-10000", "0000-8000", "8000-10000", "0000-4000", "4000-8000", "c000-10000"]);
    let (a, b) = span.split_once('-').unwrap();
    let s: String = match r.below(30) {
        0 => format!("{kind}_{span}.bak"),
        1 => format!("{kind}_{span}~"),
        2 => format!("x{kind}_{span}"),
        3 => format!("{}_{span}", kind.to_uppercase()),
        4 => format!("{kind}-{span}"),
        5 => format!("{kind}_{a}_{b}"),
        6 => format!("{kind}_{a}"),
        7 => format!("{kind}_"),
        8 => kind.into(),
        9 => format!("{kind}_{a}-"),
        10 => format!("{kind}_-{b}"),
        11 => format!("{kind}_0{a}-0{b}"),
        12 => format!("{kind}_+{}-{b}", &a[1..]),
        13 => format!("{kind}_{a}-{b}-{b}"),
        14 => format!("{kind}_{a}-{b}_{a}"),
        15 => format!("{kind}_C000-F000"),
        16 => format!("{kind}_zzzz-0001"),
        17 => format!("{kind}_0-8"),
        18 => format!("{kind}_{a} -{b}"),
        19 => format!(" {kind}_{span}"),
        20 => format!("{kind}_{span} "),
        21 => format!("{kind}__{span}"),
        22 => format!("{kind}_{a}-ffffffffffff"),
        23 => format!("{kind}_0x{a}-0x{b}"),
        24 => format!("other_{span}"),
        25 => format!(".{kind}_{span}"),
        26 => format!("{kind}_{span}\n"),
        27 => (*r.pick(&["bottom_line.txt", "top_secret.txt", "merge_request", "shard_of-glass", "compact_disc", "README"])).into(),
        28 => {
            let mut v = format!("{kind}_{span}").into_bytes();
            v.push(0xff);
            return OsString::from_vec(v);
        }
        _ => return OsString::from_vec([&b"\xfe\xff_"[..], span.as_bytes()].concat()),
    };
    s.into()
}
fn content(dir: &Path, r: &mut Rng) -> B {
    match r.below(4) {
        0 => vec![],
        1 => {
            let n = r.usize(5000);
            r.bytes(n)
        }
        2 => {
            // like one of the store's own
            let mut v = b"CandyStr".to_vec();
            v.extend(11u64.to_le_bytes());
            v.resize(HEADER_SIZE as usize, 0);
            v
        }
        _ => {
            let n: Vec<_> = std::fs::read_dir(dir)
                .into_iter()
                .flatten()
                .flatten()
                .filter(|e| e.file_type().map_or(false, |t| t.is_file()))
                .map(|e| e.path())
                .collect();
            if n.is_empty() { vec![7; 100] } else { std::fs::read(&n[r.usize(n.len())]).unwrap_or_default() }
        }
    }
}
/// puts foreign files into the directory
fn plant(dir: &Path, outside: &Path, n: usize, have: &mut BTreeSet<PathBuf>, r: &mut Rng) {
    for _ in 0..n {
        let p = dir.join(foreign_name(r));
        if std::fs::symlink_metadata(&p).is_ok() {
            continue;
        }
        match r.below(10) {
            0 => {
                std::fs::create_dir(&p).expect("mkdir");
                let c = content(dir, r);
                std::fs::write(p.join("shard_0000-10000"), c).expect("write");
                std::fs::write(p.join("bottom_0000-8000"), b"inner").expect("write");
            }
            1 => std::os::unix::fs::symlink(outside, &p).expect("symlink"),
            2 => std::os::unix::fs::symlink("nowhere", &p).expect("symlink"),
            3 => {
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
            }
            4 => {
                // a directory whose name a temporary file could have
                let p = dir.join(format!("{}_0001-0003", r.pick(&["bottom", "top", "merge", "shard", "compact"])));
                if std::fs::create_dir(&p).is_ok() {
                    std::fs::write(p.join("data"), b"inner").expect("write");
                    have.insert(p);
                }
                continue;
            }
            _ => {
                let c = content(dir, r);
                std::fs::write(&p, c).expect("write");
            }
        }
        have.insert(p);
    }
}
fn is_own(n: &str) -> bool {
    for k in ["shard", "bottom", "top", "merge", "compact"] {
        if let Some((a, b)) = n.strip_prefix(k).and_then(|x| x.strip_prefix('_')).and_then(|x| x.split_once('-')) {
            let h = |x: &str| (4..=5).contains(&x.len()) && x.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c));
            return h(a) && h(b) && (a.len() == 4) && (b.len() == 4 || b == "10000");
        }
    }
    n == ".lock"
}
/// own temporary files present in an idle store
fn temps(dir: &Path, foreign: &BTreeSet<PathBuf>) -> Vec<String> {
    std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| !foreign.contains(&e.path()))
        .map(|e| e.file_name().to_string_lossy().into_owned())
        .filter(|n| !(is_own(n) && (n.starts_with("shard_") || n == ".lock")))
        .collect()
}

fn setup(ctx: &mut Ctx, r: &mut Rng) -> (World, Pool, Profile) {
    let mut cfg = Cfg::tiny(r);
    let mut prof = full_profile(r);
    prof.w = [60, 10, 10, 0, 0, 0, 0, 1, 0];
    fit(&mut cfg, prof.vmax + 300);
    if r.chance(1, 4) {
        cfg.expected = 60_000;
    }
    let n = *r.pick(&[10usize, 60, 150]);
    let style = *r.pick(&[0u64, 1, 2, 4, 4, 5]);
    let pool = Pool::with_style(r, &cfg.seed, n, style);
    let mut w = World::new(ctx.case_dir(), cfg);
    w.desc = format!("keys: {}", pool.style);
    (w, pool, prof)
}

/// foreign files are left alone by everything
fn foreign(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let (mut w, pool, prof) = setup(ctx, &mut r);
    let outside = ctx.case_dir().with_extension("outside");
    std::fs::write(&outside, b"outside the directory").expect("write");
    let mut g = Gen::new(&pool, prof, &mut r);
    let mut have = BTreeSet::from([outside.clone()]);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    let rounds = 2 + r.usize(3);
    for round in 0..rounds {
        plant(&w.dir, &outside, r.usize(12), &mut have, &mut r);
        let before = look_all(&have);
        w.open()?;
        if let Some(d) = changed(&before, &look_all(&have)) {
            return w.viol("foreign file", format!("opening: {d}"));
        }
        if round > 0 {
            w.verify(&mut r, "contents beside foreign files")?;
        }
        for _ in 0..30 + r.usize(300) {
            let op = match r.below(150) {
                0 => Op::Merge(0.3),
                1 => Op::Clear,
                _ => g.op(&w.m, &mut r),
            };
            let check = matches!(op, Op::Merge(_) | Op::Clear);
            w.step(&op, &mut r)?;
            if check {
                if let Some(d) = changed(&before, &look_all(&have)) {
                    return w.viol("foreign file", format!("{}: {d}", op.brief()));
                }
                w.verify(&mut r, "contents beside foreign files")?;
            }
        }
        w.close()?;
        if let Some(d) = changed(&before, &look_all(&have)) {
            return w.viol("foreign file", format!("after use and closing: {d}"));
        }
        let t = temps(&w.dir, &have);
        if !t.is_empty() {
            return w.viol("temporary file left", format!("{t:?} after closing"));
        }
        ctx.count("foreign_files_compared", have.len() as u64);
    }
    w.open()?;
    w.verify(&mut r, "contents beside foreign files")?;
    let _ = std::fs::remove_file(&outside);
    w.finish(ctx)
}

/// drives the store until a compaction is parked in mid-file; false if none began
fn park(w: &mut World, g: &mut Gen, r: &mut Rng) -> VR<bool> {
    w.gate(true);
    for _ in 0..250 {
        let op = g.plain(&w.m, r);
        w.step(&op, r)?;
        if sys::gate_parked() > 0 {
            let n = r.below(60) as i64;
            sys::gate_pump(n);
            return Ok(sys::gate_parked() > 0);
        }
    }
    Ok(false)
}
/// a copy of the directory as it is now, as left by a killed process
fn killed_copy(w: &World, to: &Path) -> World {
    wipe(to);
    settle();
    copy_raw(&w.dir, to);
    let mut n = adopt(to.into(), w.cfg.clone(), w.m.clone());
    n.desc = format!("{} (copy of a directory whose process was killed)", w.desc);
    n
}

/// own temporary files are removed or completed
fn leftovers(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let (mut w, pool, prof) = setup(ctx, &mut r);
    let mut g = Gen::new(&pool, prof, &mut r);
    ctx.sample(|| format!("{} {}", w.cfg.short(), w.desc));
    w.open()?;
    for _ in 0..r.usize(300) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
    }
    // an older state of the files
    let old = ctx.case_dir().with_extension("old");
    wipe(&old);
    settle();
    copy_raw(&w.dir, &old);
    for _ in 0..r.usize(300) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
    }
    let parked = r.chance(1, 2) && park(&mut w, &mut g, &mut r)?;
    let dir2 = ctx.case_dir().with_extension("k");
    let mut k = killed_copy(&w, &dir2);
    w.gate(false);
    w.finish(ctx)?;
    if parked {
        ctx.count("unfinished_compactions", 1);
    }
    let stale: Vec<PathBuf> = std::fs::read_dir(&old)
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("shard_"))
        .collect();
    let mut what = vec![];
    for _ in 0..1 + r.usize(5) {
        let kind = *r.pick(&["bottom", "top", "merge", "half", "half", "compact", "orphan", "orphan"]);
        let spans = crate::merge::shard_files(&k.dir);
        let (a, b) = *r.pick(&spans);
        let c = match r.below(3) {
            0 => std::fs::read(r.pick(&stale)).unwrap_or_default(),
            1 => content(&k.dir, &mut r),
            _ => {
                let n = r.usize(3000);
                r.bytes(n)
            }
        };
        let name = match kind {
            "half" => {
                // as left by a split (before the original was removed) or a merge (after its result appeared)
                let (mut a, mut b) = (a, b);
                for _ in 0..1 + r.below(2) {
                    if b - a > 1 {
                        let m = (a + b) / 2;
                        if r.chance(1, 2) {
                            a = m
                        } else {
                            b = m
                        }
                    }
                }
                if spans.contains(&(a, b)) {
                    continue;
                }
                format!("shard_{a:04x}-{b:04x}")
            }
            "compact" => {
                // created, nothing written yet
                let n = format!("compact_{a:04x}-{b:04x}");
                if k.dir.join(&n).exists() {
                    continue;
                }
                let f = std::fs::File::create(k.dir.join(&n)).expect("create");
                if r.chance(1, 2) {
                    f.set_len(HEADER_SIZE + if r.chance(1, 2) { k.cfg.max_shard as u64 } else { 0 }).expect("len");
                }
                what.push(n);
                continue;
            }
            "orphan" => {
                // of a shard that isn't there: it was split or merged since
                let up = {
                    let l = b - a;
                    if l >= 65536 {
                        continue;
                    }
                    let a = a / (2 * l) * (2 * l);
                    (a, a + 2 * l)
                };
                let down = if b - a > 1 { (a, (a + b) / 2) } else { up };
                let (a, b) = *r.pick(&[up, down]);
                let n = format!("compact_{a:04x}-{b:04x}");
                if spans.contains(&(a, b)) || k.dir.join(&n).exists() {
                    continue;
                }
                let mut c = std::fs::read(r.pick(&stale)).unwrap_or_default();
                if c.len() as u64 >= HEADER_SIZE {
                    // how far it had come
                    let up_to = r.below(65).to_le_bytes();
                    c[48..56].copy_from_slice(&up_to);
                }
                std::fs::write(k.dir.join(&n), c).expect("write");
                what.push(n);
                continue;
            }
            k => {
                let name = format!("{k}_{a:04x}-{b:04x}");
                // never written to before it's replaced, so it may be of any size
                name
            }
        };
        std::fs::write(k.dir.join(&name), c).expect("write");
        what.push(name);
    }
    k.desc = format!("{} with {what:?}", k.desc);
    ctx.count("leftover_files", what.len() as u64);
    sys::set_root(Some(&k.dir));
    k.open()?;
    k.verify(&mut r, "contents beside leftover files")?;
    k.quiesce()?;
    let t = temps(&k.dir, &BTreeSet::new());
    if !t.is_empty() {
        return k.viol("temporary file left", format!("{t:?} after opening; there were {what:?}"));
    }
    // spans of the past come back
    for _ in 0..2 {
        for _ in 0..r.usize(200) {
            let op = g.op(&k.m, &mut r);
            k.step(&op, &mut r)?;
        }
        if r.chance(2, 3) {
            for key in k.m.kv.keys().cloned().collect::<Vec<_>>() {
                if r.chance(1, 3) {
                    k.step(&Op::Remove(key), &mut r)?;
                }
            }
            for _ in 0..4 {
                k.step(&Op::Merge(0.49), &mut r)?;
            }
        }
        k.verify(&mut r, "contents some time after leftover files")?;
        k.reopen()?;
        k.verify(&mut r, "contents some time after leftover files")?;
    }
    k.finish(ctx)?;
    wipe(&dir2);
    wipe(&old);
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Bad {
    Magic,
    Version(u64),
    Both,
    Short(u64),
}
fn damage(p: &Path, b: Bad, r: &mut Rng) {
    let mut c = std::fs::read(p).expect("read");
    if c.len() < 16 {
        c.resize(16, 0);
    }
    match b {
        Bad::Magic => {
            let i = r.usize(8);
            c[i] ^= 1 << r.below(8);
        }
        Bad::Version(v) => c[8..16].copy_from_slice(&v.to_le_bytes()),
        Bad::Both => {
            for x in &mut c[..16] {
                *x = b'#'
            }
        }
        Bad::Short(n) => c.truncate(n as usize),
    }
    std::fs::write(p, c).expect("write");
}

/// unknown formats are refused, or cleared if so configured
fn unknown(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let (mut w, pool, prof) = setup(ctx, &mut r);
    let mut g = Gen::new(&pool, prof, &mut r);
    w.open()?;
    for _ in 0..20 + r.usize(400) {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
    }
    let parked = r.chance(2, 3) && park(&mut w, &mut g, &mut r)?;
    let dir2 = ctx.case_dir().with_extension("k");
    let mut k = killed_copy(&w, &dir2);
    w.gate(false);
    w.finish(ctx)?;
    sys::set_root(Some(&dir2));
    let own = |kind: &str| -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = std::fs::read_dir(&dir2)
            .into_iter()
            .flatten()
            .flatten()
            .map(|e| e.path())
            .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with(kind))
            .collect();
        v.sort();
        v
    };
    let pristine = ctx.case_dir().with_extension("p");
    wipe(&pristine);
    copy_raw(&dir2, &pristine);
    let (shards, compacts) = (own("shard_"), own("compact_"));
    let bad = match r.below(6) {
        0 => Bad::Magic,
        1 => Bad::Version(10),
        2 => Bad::Version(r.next()),
        3 => Bad::Version(0),
        4 => Bad::Both,
        _ => Bad::Short(*r.pick(&[1u64, 7, 8, 15, 16, 100, 4096, HEADER_SIZE - 1])),
    };
    // which files: one, all of one kind, all, some
    let all: Vec<PathBuf> = shards.iter().chain(&compacts).cloned().collect();
    let how = r.below(5);
    let hit: Vec<PathBuf> = match how {
        0 => vec![r.pick(&shards).clone()],
        1 => all.clone(),
        2 if !compacts.is_empty() => compacts.clone(),
        3 => all.iter().filter(|_| r.chance(1, 2)).cloned().collect(),
        _ => shards.clone(),
    };
    if hit.is_empty() {
        return Ok(());
    }
    let (hs, hc) = (hit.iter().filter(|p| shards.contains(p)).count(), hit.iter().filter(|p| compacts.contains(p)).count());
    for p in &hit {
        // a compaction that had only begun looks like nothing was written
        if compacts.contains(p) && bad == Bad::Version(0) {
            damage(p, Bad::Version(12), &mut r);
        } else {
            damage(p, bad, &mut r);
        }
    }
    k.desc = format!("{} {bad:?} of {hs}/{} shards, {hc}/{} compactions", k.desc, shards.len(), compacts.len());
    ctx.sample(|| format!("{} {}", k.cfg.short(), k.desc));
    ctx.distinct.insert(mix(mix(fnv(format!("{bad:?}").as_bytes()), (hs * 8 + hc) as u64), (shards.len() * 8 + compacts.len()) as u64));
    ctx.count("damaged_files", hit.len() as u64);
    if parked {
        ctx.count("unfinished_compactions", 1);
    }
    k.cfg.clear_unsupported = false;
    // refused, however often it's tried
    let set: BTreeSet<PathBuf> = hit.iter().cloned().collect();
    let before = look_all(&set);
    for _ in 0..1 + r.below(2) {
        tick(|| "opening a directory with files of an unknown format".into());
        let (d, c) = (dir2.clone(), k.cfg.cfg());
        match guard(|| in_op(|| candystore::CandyStore::open(&d, c).map(|_| ()))) {
            Err(p) => return k.viol(&sig_of(&p), p),
            Ok(Ok(())) => return k.viol("not refused", format!("opened although {hit:?} is of an unknown format")),
            Ok(Err(_)) => {}
        }
        if let Some(d) = changed(&before, &look_all(&set)) {
            return k.viol("refused file changed", d);
        }
        ctx.count("opens_refused", 1);
    }
    if r.chance(1, 2) {
        // what was refused is as good as ever
        for p in &hit {
            std::fs::copy(pristine.join(p.file_name().unwrap()), p).expect("restore");
        }
        k.open()?;
        k.verify(&mut r, "contents after a refused open")?;
        ctx.count("contents_restored", 1);
    } else {
        k.cfg.clear_unsupported = true;
        k.open()?;
        let s = k.s.clone().unwrap();
        let x = guard(|| in_op(|| dump_kv(&s, 100_000)));
        drop(s);
        let got = k.chk("iter", x)?;
        for (key, v) in &got {
            if k.m.kv.get(key) != Some(v) {
                return k.viol(
                    "contents after clearing",
                    format!("{} = {}, it was {}", show(key), show(v), show_opt(&k.m.kv.get(key).cloned())),
                );
            }
        }
        if hs == shards.len() && hc == compacts.len() {
            let raw = k.raw()?;
            if !raw.is_empty() {
                return k.viol("not cleared", format!("{} entries after clearing, e.g. {}", raw.len(), show(&raw[0].0)));
            }
            ctx.count("cleared_completely", 1);
        } else {
            // the shards that weren't hit
            let spans: Vec<(u32, u32)> = crate::merge::shard_files(&pristine);
            let ok: Vec<bool> = spans
                .iter()
                .map(|(a, b)| {
                    let n = format!("_{a:04x}-{b:04x}");
                    !hit.iter().any(|p| p.file_name().unwrap().to_string_lossy().ends_with(&n))
                })
                .collect();
            for (key, v) in &k.m.kv {
                let p = place_user(&k.cfg.seed, key);
                let i = spans.partition_point(|x| x.1 <= p.shard);
                if ok[i] && got.get(key) != Some(v) {
                    return k.viol(
                        "cleared too much",
                        format!("{} is gone although its shard {:x?} was of a known format", show(key), spans[i]),
                    );
                }
            }
            ctx.count("cleared_partially", 1);
        }
        // collections may have lost parts
        k.m = Model { kv: got, ..Model::default() };
        let t = temps(&k.dir, &BTreeSet::new());
        if !t.is_empty() {
            return k.viol("temporary file left", format!("{t:?} after clearing"));
        }
        let p = Profile { w: [60, 0, 0, 0, 0, 0, 0, 0, 1], vmax: 200, ..full_profile(&mut r) };
        g = Gen::new(&pool, p, &mut r);
        g.uniq += 5_000_000;
    }
    for _ in 0..r.usize(200) {
        let op = g.plain(&k.m, &mut r);
        k.step(&op, &mut r)?;
    }
    k.reopen()?;
    let s = k.s.clone().unwrap();
    let x = guard(|| in_op(|| k.m.verify_kv(&s)));
    drop(s);
    k.chk("contents after reopening", x)?;
    k.finish(ctx)?;
    wipe(&dir2);
    wipe(&pristine);
    Ok(())
}

pub fn c21(ctx: &mut Ctx, case: u64) -> VR {
    let r = match case % 3 {
        0 => foreign(ctx, case),
        1 => leftovers(ctx, case),
        _ => unknown(ctx, case),
    };
    sys::set_class(1);
    r
}
