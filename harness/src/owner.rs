//! C16: a store directory is owned by one store at a time.
use crate::conc::*;
use crate::model::*;
use crate::run::*;
use crate::seq::*;
use crate::sys;
use crate::util::*;
use candystore::*;
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

fn child_cfg(n: u64) -> Cfg {
    Cfg { max_shard: 4000, min_compact: if n % 2 == 0 { 400 } else { 4000 }, ..Cfg::default() }
}
fn exclusive(p: &Path) -> bool {
    std::fs::OpenOptions::new().write(true).create_new(true).open(p).is_ok()
}
/// one term as the owner: nobody else may be the owner meanwhile; counts the terms inside the store
fn term(s: &CandyStore, excl: &Path, r: &mut Rng) -> Result<(), String> {
    let e = |e: ErrT| format!("error from a valid call: {e:#}");
    if !exclusive(excl) {
        return Err("the store was opened while another open store owns the directory".into());
    }
    let n: u64 = match s.get("terms").map_err(e)? {
        Some(v) => String::from_utf8_lossy(&v).parse().map_err(|_| "garbage".to_string())?,
        None => 0,
    };
    for i in 0..r.below(30) {
        let k = format!("k{}", i % 7);
        let v = s.get(&k).map_err(e)?;
        // the keys already written in this term carry this term's number
        if i < 7 {
            if let Some(v) = v {
                let v = String::from_utf8_lossy(&v).to_string();
                let at: u64 = v.split('.').next().unwrap_or("").parse().map_err(|_| format!("garbage value {v} of {k}"))?;
                if at > n || at == 0 {
                    return Err(format!("{k} was written in term {at}, {n} have passed"));
                }
            }
        }
        s.set(&k, &format!("{}.{}", n + 1, "x".repeat(r.usize(200)))).map_err(e)?;
    }
    s.set("terms", &(n + 1).to_string()).map_err(e)?;
    let x = s.get("terms").map_err(e)?;
    if x != Some((n + 1).to_string().into_bytes()) {
        return Err(format!("the owner wrote {} and read back {x:?}", n + 1));
    }
    let _ = std::fs::remove_file(excl);
    Ok(())
}
fn terms(dir: &Path, excl: &Path, rounds: u64, cfg: &Cfg, r: &mut Rng) -> Result<u64, String> {
    let mut won = 0;
    for _ in 0..rounds {
        tickn();
        match CandyStore::open(dir, cfg.cfg()) {
            Ok(s) => {
                won += 1;
                term(&s, excl, r)?;
                drop(s);
            }
            Err(_) => {
                if r.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(r.below(300)))
                }
            }
        }
    }
    Ok(won)
}

/// child processes
pub fn child(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[1]);
    let n: u64 = a[2].parse().unwrap();
    let cfg = child_cfg(n);
    sys::set_class(1);
    let eof = || {
        let mut b = vec![];
        let _ = std::io::stdin().read_to_end(&mut b);
    };
    match a[0].as_str() {
        "try" => match CandyStore::open(&dir, cfg.cfg()) {
            Ok(_) => 0,
            Err(e) => {
                println!("{e:#}");
                10
            }
        },
        "own" => {
            let s = match CandyStore::open(&dir, cfg.cfg()) {
                Ok(s) => Arc::new(s),
                Err(e) => {
                    println!("{e:#}");
                    return 10;
                }
            };
            let mut o = std::io::stdout();
            let s2 = s.clone();
            let stop = Arc::new(AtomicBool::new(false));
            let st2 = stop.clone();
            let t = std::thread::spawn(move || {
                for i in 0..100_000u64 {
                    if st2.load(SeqCst) {
                        break;
                    }
                    let v = format!("{i}.{}", "v".repeat((i * 37 % 300) as usize));
                    if let Err(e) = s2.set(&format!("own{}", i % 50), &v) {
                        eprintln!("{e:#}");
                        std::process::exit(11);
                    }
                    let _ = writeln!(o, "{i}");
                    if i > 300 {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            });
            eof();
            stop.store(true, SeqCst);
            let _ = t.join();
            drop(s);
            0
        }
        "race" => {
            let mut l = String::new();
            println!("ready");
            let _ = std::io::stdin().read_line(&mut l);
            let s = CandyStore::open(&dir, cfg.cfg());
            println!("{}", if s.is_ok() { "won" } else { "lost" });
            eof();
            0
        }
        "loop" => {
            let mut r = Rng::new(n ^ 77);
            let seed = r.next();
            sys::seed_thread(seed);
            match terms(&dir, Path::new(&a[3]), 60, &cfg, &mut r) {
                Ok(n) => {
                    println!("{n}");
                    0
                }
                Err(e) => {
                    println!("{e}");
                    12
                }
            }
        }
        _ => 9,
    }
}
struct Kid(Child);
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn spawn(mode: &str, dir: &Path, n: u64, extra: &[&str], cwd: Option<&Path>) -> Kid {
    sys::quiet(|| {
        let mut c = Command::new(std::env::current_exe().expect("exe"));
        c.args(["child-c16", mode, dir.to_str().unwrap(), &n.to_string()]).args(extra);
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit());
        if let Some(d) = cwd {
            c.current_dir(d);
        }
        Kid(c.spawn().expect("child"))
    })
}
fn finish(mut k: Kid) -> (Option<i32>, String) {
    drop(k.0.stdin.take());
    let mut out = String::new();
    if let Some(mut o) = k.0.stdout.take() {
        let _ = o.read_to_string(&mut out);
    }
    let st = k.0.wait().expect("wait");
    tickn();
    (st.code(), out)
}

fn second_open(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let mut cfg = Cfg::tiny(&mut r);
    let prof = full_profile(&mut r);
    fit(&mut cfg, prof.vmax + 700);
    let pool = Pool::new(&mut r, &cfg.seed, 30);
    let mut w = World::new(ctx.case_dir(), cfg);
    let mut g = Gen::new(&pool, Profile { w: [60, 30, 30, 0, 0, 1, 1, 1, 1], ..prof }, &mut r);
    w.open()?;
    w.gate(r.chance(2, 3));
    let n = 20 + r.usize(300);
    for _ in 0..n {
        let op = g.op(&w.m, &mut r);
        w.step(&op, &mut r)?;
        w.background(&mut r);
    }
    ctx.sample(|| format!("{} (further opens)", w.cfg.short()));
    let link = ctx.dir.join("link");
    let _ = std::fs::remove_file(&link);
    std::os::unix::fs::symlink(&w.dir, &link).expect("symlink");
    for _ in 0..3 {
        // in the middle of a compaction, or settled
        if w.gated {
            settle();
        } else {
            w.quiesce()?;
        }
        let mid = sys::gate_parked() > 0;
        let before = dir_digest(&w.dir);
        let how = r.below(7);
        let mut c = if r.chance(1, 2) { mutate_cfg(&w.cfg, &mut r) } else { w.cfg.clone() };
        c.clear_unsupported = r.chance(1, 2);
        let d = w.dir.clone();
        let name = d.file_name().unwrap().to_str().unwrap().to_string();
        let what = ["the same path", "a path through a symlink", "a path with dots", "another process", "another process, relative path",
            "another process, through a symlink", "another thread"][how as usize];
        w.note(format!("open again by {what}"));
        tick(|| format!("open again by {what}"));
        let opened = match how {
            0 | 1 | 2 | 6 => {
                let p = match how {
                    0 | 6 => d.clone(),
                    1 => link.clone(),
                    _ => d.join("..").join(&name).join("."),
                };
                let x = if how == 6 {
                    guard(|| std::thread::scope(|s| s.spawn(|| {
                        sys::set_class(2);
                        CandyStore::open(&p, c.cfg()).is_ok()
                    }).join().unwrap_or(false)))
                } else {
                    guard(|| CandyStore::open(&p, c.cfg()).is_ok())
                };
                w.chk("second open", x.map(Ok))?
            }
            _ => {
                let k = match how {
                    3 => spawn("try", &d, r.below(2), &[], None),
                    4 => spawn("try", Path::new(&name), 0, &[], d.parent()),
                    _ => spawn("try", &link, 1, &[], None),
                };
                match finish(k).0 {
                    Some(0) => true,
                    Some(10) => false,
                    x => return w.viol("second open", format!("open by {what} ended with {x:?}")),
                }
            }
        };
        ctx.count("further_opens_refused", !opened as u64);
        ctx.count("further_opens_during_a_compaction", mid as u64);
        ctx.distinct.insert(mix(mix(how, mid as u64), mix(before.len() as u64, n as u64)));
        if opened {
            return w.viol("opened twice", format!("the directory was opened by {what} although it is open"));
        }
        let after = dir_digest(&w.dir);
        if before != after {
            let d: Vec<String> = before
                .iter()
                .filter(|x| after.get(x.0) != Some(x.1))
                .map(|x| x.0.clone())
                .chain(after.keys().filter(|x| !before.contains_key(*x)).cloned())
                .collect();
            return w.viol("refused open changed files", format!("the refused open by {what} changed {d:?}"));
        }
        for _ in 0..r.usize(40) {
            let op = g.op(&w.m, &mut r);
            w.step(&op, &mut r)?;
            w.background(&mut r);
        }
    }
    w.verify(&mut r, "contents")?;
    w.gate(false);
    w.close()?;
    // an open that fails for another reason does not keep the directory
    if r.chance(1, 2) {
        let f = crate::merge::shard_files(&w.dir)[0];
        let p = w.dir.join(format!("shard_{:04x}-{:04x}", f.0, f.1));
        let head = sys::quiet(|| {
            let b = std::fs::read(&p).expect("read");
            let mut x = b[..16].to_vec();
            x[0] ^= 1;
            patch(&p, &x);
            b[..16].to_vec()
        });
        let (d, c) = (w.dir.clone(), Cfg { clear_unsupported: false, ..w.cfg.clone() });
        let x = guard(|| in_op(|| CandyStore::open(&d, c.cfg()).is_ok()));
        if w.chk("open", x.map(Ok))? {
            return w.viol("opened a foreign file", "a shard file with a wrong magic was accepted");
        }
        sys::quiet(|| patch(&p, &head));
        ctx.count("opens_failed_for_another_reason", 1);
    }
    // free again, also for others
    if r.chance(1, 2) {
        let k = spawn("try", &w.dir, 0, &[], None);
        let seed_ok = w.cfg.seed == *DEFAULT_SEED;
        let c = finish(k);
        if c.0 != Some(0) && seed_ok {
            return w.viol("open after close", format!("another process could not open the closed directory: {:?} {}", c.0, c.1));
        }
    }
    w.open()?;
    w.verify(&mut r, "contents after reopening")?;
    let _ = std::fs::remove_file(&link);
    w.finish(ctx)
}
fn patch(p: &Path, b: &[u8]) {
    use std::os::unix::fs::FileExt;
    std::fs::OpenOptions::new().write(true).open(p).expect("open").write_all_at(b, 0).expect("write");
}

/// closing while a compaction runs: nothing of the old store may be at work once somebody else owns the directory
fn closing(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let cfg = Cfg { threads: 1 + r.usize(3), max_shard: 30_000, min_compact: 600, ..Cfg::default() };
    let mut w = World::new(ctx.case_dir(), cfg);
    w.open()?;
    w.gate(true);
    ctx.sample(|| format!("{} (close during a compaction)", w.cfg.short()));
    let mut i = 0;
    let want = 3 + r.below(30) as i64;
    // until a compaction is parked in the middle
    let mut parked = false;
    while i < 500 && !parked {
        let k = format!("k{}", r.below(40)).into_bytes();
        w.step(&Op::Set(k, format!("{i}.{}", "y".repeat(r.usize(60))).into_bytes()), &mut r)?;
        i += 1;
        if i > 30 && i % 10 == 0 {
            parked = sys::gate_pump(want);
        }
    }
    if !parked {
        w.gate(false);
        return w.finish(ctx);
    }
    let s = w.s.take().unwrap();
    w.note("close, while a compaction is parked".into());
    let done = AtomicBool::new(false);
    let n0 = bg_events();
    let (mut bad, mut tries) = (None, 0);
    let (d, c) = (w.dir.clone(), w.cfg.cfg());
    let kid = r.chance(1, 4);
    let res = std::thread::scope(|sc| {
        let h = sc.spawn(|| {
            sys::set_class(2);
            let x = guard(|| drop(s));
            done.store(true, SeqCst);
            x
        });
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(4) || tries < 3 {
            tickn();
            tries += 1;
            let got = if kid && tries == 2 {
                finish(spawn("try", &d, 0, &[], None)).0 == Some(0)
            } else {
                let x = guard(|| CandyStore::open(&d, c.clone()));
                matches!(x, Ok(Ok(_)))
            };
            // the old store's compaction cannot have ended: it is parked
            if got && sys::gate_parked() > 0 && bg_events() == n0 {
                bad = Some(done.load(SeqCst));
                break;
            }
            std::thread::sleep(Duration::from_micros(r.below(500)));
        }
        sys::gate_open();
        h.join().unwrap()
    });
    w.chk("close", res.map(Ok))?;
    w.gate(false);
    if let Some(closed) = bad {
        return w.viol(
            "opened too early",
            format!("the directory could be opened while the compaction of the {} store was still unfinished", if closed { "closed" } else { "closing" }),
        );
    }
    ctx.count("closes_during_a_compaction", 1);
    ctx.count("opens_refused_while_closing", tries);
    // closed: its background activity is over
    let n1 = bg_events();
    let before = dir_digest(&w.dir);
    std::thread::sleep(Duration::from_millis(2));
    if bg_events() != n1 || dir_digest(&w.dir) != before {
        return w.viol("background activity after closing", "files were still worked on after the store was closed");
    }
    ctx.distinct.insert(mix(want as u64, i));
    w.open()?;
    w.verify(&mut r, "contents after reopening")?;
    w.finish(ctx)
}
fn bg_events() -> u64 {
    sys::BGCOUNTS.iter().map(|x| x.load(SeqCst)).sum()
}

/// several threads and processes at once, from a closed state: exactly one wins
fn racing(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let dir = fresh(&ctx.case_dir());
    let excl = ctx.dir.join("excl");
    let _ = std::fs::remove_file(&excl);
    let cfg = child_cfg(r.below(2));
    let nt = 2 + r.usize(5);
    let nk = r.usize(3);
    let desc = format!("{nt} threads and {nk} processes; {}", Chaos::on(&mut r));
    ctx.sample(|| desc.clone());
    if r.chance(1, 2) {
        std::fs::remove_dir_all(&dir).expect("rmdir"); // created by whoever comes first
    }
    // one open each
    tick(|| format!("racing opens, {desc}"));
    let mut kids: Vec<Kid> = (0..nk).map(|i| spawn("race", &dir, i as u64, &[], None)).collect();
    let mut outs = vec![];
    for k in kids.iter_mut() {
        let mut o = std::io::BufReader::new(k.0.stdout.take().unwrap());
        let mut l = String::new();
        let _ = o.read_line(&mut l);
        outs.push(o);
    }
    let bar = Barrier::new(nt + 1);
    let end = Barrier::new(nt + 1);
    let wins = AtomicU32::new(0);
    let mut kwins = 0;
    let panics: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|i| {
                let (bar, end, wins, dir, cfg, seed) = (&bar, &end, &wins, &dir, &cfg, r.next());
                sc.spawn(move || {
                    sys::set_class(1 + i as u8);
                    sys::seed_thread(seed);
                    bar.wait();
                    let s = guard(|| CandyStore::open(dir, cfg.cfg()));
                    let p = match &s {
                        Ok(Ok(_)) => {
                            wins.fetch_add(1, SeqCst);
                            None
                        }
                        Ok(Err(_)) => None,
                        Err(p) => Some(p.clone()),
                    };
                    end.wait();
                    p
                })
            })
            .collect();
        bar.wait();
        for k in kids.iter_mut() {
            let _ = k.0.stdin.as_mut().unwrap().write_all(b"go\n");
        }
        for o in outs.iter_mut() {
            let mut l = String::new();
            let _ = o.read_line(&mut l);
            kwins += (l.trim() == "won") as u32;
        }
        end.wait();
        hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
    });
    tickn();
    for k in kids {
        finish(k);
    }
    let n = wins.load(SeqCst) + kwins;
    if let Some(p) = panics.first() {
        return viol(&sig_of(p), p.clone());
    }
    if n != 1 {
        return viol("racing opens", format!("{n} of {} racing opens succeeded; {desc}", nt + nk));
    }
    ctx.count("racing_opens", (nt + nk) as u64);
    // and many terms in turn
    let rounds = 10 + r.below(60);
    tick(|| format!("owners in turn, {desc}"));
    let kids: Vec<Kid> = (0..nk).map(|i| spawn("loop", &dir, i as u64, &[excl.to_str().unwrap()], None)).collect();
    let won = AtomicU64::new(0);
    let errs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|i| {
                let (won, dir, excl, cfg, seed) = (&won, &dir, &excl, &cfg, r.next());
                sc.spawn(move || {
                    sys::set_class(1 + i as u8);
                    let mut r = Rng::new(seed);
                    sys::seed_thread(r.next());
                    match guard(|| terms(dir, excl, rounds, cfg, &mut r)) {
                        Ok(Ok(n)) => {
                            won.fetch_add(n, SeqCst);
                            None
                        }
                        Ok(Err(e)) | Err(e) => Some(e),
                    }
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
    });
    let mut errs = errs;
    let mut n = won.load(SeqCst);
    for k in kids {
        match finish(k) {
            (Some(0), o) => n += o.trim().parse::<u64>().unwrap_or(0),
            (c, o) => errs.push(format!("process ended with {c:?}: {o}")),
        }
    }
    Chaos::off();
    if let Some(e) = errs.first() {
        return viol(&sig_of(e), format!("{e}; {desc}"));
    }
    let mut w = crate::crash::adopt(dir.clone(), cfg, Model::default());
    w.open()?;
    let x = w.st().get("terms").map_err(|e| format!("get failed: {e:#}"));
    let x = w.chk("get", Ok(x))?.map(|v| String::from_utf8_lossy(&v).to_string());
    let x: u64 = x.and_then(|x| x.parse().ok()).unwrap_or(0);
    if x != n {
        return w.viol("lost term", format!("{n} owners in turn counted themselves, the store says {x}; {desc}"));
    }
    ctx.count("terms_of_ownership", n);
    ctx.distinct.insert(mix(sys::TRACE_HASH.load(SeqCst), n));
    w.finish(ctx)
}

/// the owner is killed: the directory is free at once, and holds what was acknowledged
fn killed(ctx: &mut Ctx, case: u64) -> VR {
    let mut r = ctx.rng(case);
    begin(ctx);
    let dir = fresh(&ctx.case_dir());
    let cn = r.below(2);
    ctx.sample(|| format!("owner killed, configuration {cn}"));
    let mut k = spawn("own", &dir, cn, &[], None);
    tick(|| "child process owns the directory".into());
    let mut o = std::io::BufReader::new(k.0.stdout.take().unwrap());
    let mut l = String::new();
    let until = r.below(*r.clone().pick(&[5u64, 300, 500]));
    let mut last: i64 = -1;
    let read = |l: &mut String, o: &mut std::io::BufReader<_>| -> bool {
        l.clear();
        BufRead::read_line(o, l).unwrap_or(0) > 0 && l.ends_with('\n')
    };
    while last < until as i64 && read(&mut l, &mut o) {
        last = match l.trim().parse() {
            Ok(n) => n,
            Err(_) => return viol("open", format!("a process could not open a fresh directory: {l}")),
        };
        tickn();
    }
    // while it's alive
    let x = guard(|| CandyStore::open(&dir, child_cfg(cn).cfg()).is_ok());
    match x {
        Ok(false) => {}
        Ok(true) => return viol("opened twice", "the directory was opened although another process owns it"),
        Err(p) => return viol(&sig_of(&p), p),
    }
    let soft = r.chance(1, 4);
    if soft {
        drop(k.0.stdin.take());
    } else {
        k.0.kill().expect("kill");
    }
    while read(&mut l, &mut o) {
        if let Ok(n) = l.trim().parse() {
            last = n;
        }
    }
    let st = k.0.wait().expect("wait");
    if soft && st.code() != Some(0) {
        return viol("close", format!("the owning process ended with {st:?}"));
    }
    let mut w = crate::crash::adopt(dir, child_cfg(cn), Model::default());
    w.desc = format!("owner {} after {last}", if soft { "closed" } else { "killed" });
    w.open()?;
    // writes are sequential: everything up to `last`, possibly one more
    let s = w.s.clone().unwrap();
    let x = guard(|| in_op(|| crate::crash::dump_kv(&s, 1000)));
    drop(s);
    let got = w.chk("iter", x)?;
    let mk = |n: i64| -> std::collections::BTreeMap<B, B> {
        (0..=n)
            .map(|i| (format!("own{}", i % 50).into_bytes(), format!("{i}.{}", "v".repeat((i * 37 % 300) as usize)).into_bytes()))
            .collect()
    };
    let now = if got == mk(last) {
        last
    } else if !soft && got == mk(last + 1) {
        last + 1
    } else if soft && got.len() >= mk(last).len() {
        -2
    } else {
        return w.viol("contents after the owner's death", crate::crash::diff_kv(&got, &mk(last)));
    };
    ctx.count(if soft { "owners_closed" } else { "owners_killed" }, 1);
    ctx.distinct.insert(mix(now as u64, until));
    w.m.kv = got;
    for i in 0..30 {
        w.step(&Op::Set(format!("own{}", r.below(50)).into_bytes(), format!("n{i}").into_bytes()), &mut r)?;
    }
    w.verify(&mut r, "contents")?;
    w.finish(ctx)
}

pub fn c16(ctx: &mut Ctx, case: u64) -> VR {
    let r = match case % 4 {
        0 => second_open(ctx, case),
        1 => closing(ctx, case),
        2 => racing(ctx, case),
        _ => killed(ctx, case),
    };
    sys::set_class(1);
    r
}
