#!/usr/bin/env python3
"""Runner of the runtime-monitoring checks.

  check.py <ID>                 quick tier (or VERIF_TIER=thorough)
  check.py <ID> --thorough
  check.py <ID> --replay FILE   run the recorded failing case again
  check.py --build              build every variant

Exit 0: the property held on everything observed.  Exit 1 + "VIOLATION property=<id> replay=<path>".
Exit 2: inconclusive (nothing observed), 3: the machinery failed (build error, harness error).
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from table import CHECKS, VARIANTS, BIN  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
LIMIT = 860  # seconds for a quick check as a whole


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target") and not d.startswith("target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                try:
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
                except OSError:
                    pass
    return h.hexdigest()


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "LD_PRELOAD"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            e.pop(k)
    home = e.get("HOME", "/root")
    e["PATH"] = f"{home}/.cargo/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "1"
    return e


def build(binary, variant):
    """build `binary` in `variant` from /repo's working tree, return the path of the executable"""
    feats, san = VARIANTS[variant]
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        sh = source_hash()
        key = f"{binary}-{variant}"
        stamp = os.path.join(TARGET, f".src-{key}")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != sh:
            # do not rely on modification times
            if old:
                subprocess.run(["cargo", "clean", "--offline", "-p", "candystore"], cwd=HARNESS, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                for f in os.listdir(TARGET):
                    if f.startswith(".src-"):
                        os.unlink(os.path.join(TARGET, f))
        cmd = ["cargo", "build", "--offline", "--bin", binary]
        if feats:
            cmd += ["--features", ",".join(feats)]
        out = os.path.join(TARGET, "debug", binary)
        if san:
            e["RUSTFLAGS"] = f"-Zsanitizer={san} -Cforce-frame-pointers=yes"
            e["CARGO_TARGET_DIR"] = os.path.join(TARGET, san)
            cmd += ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]
            out = os.path.join(TARGET, san, "x86_64-unknown-linux-gnu", "debug", binary)
            if old != sh and old:
                subprocess.run(["cargo", "clean", "--offline", "-p", "candystore"], cwd=HARNESS, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        t0 = time.time()
        p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-6000:])
            log("the harness does not build against /repo")
            sys.exit(3)
        bindir = os.path.join(TARGET, "bin")
        os.makedirs(bindir, exist_ok=True)
        dst = os.path.join(bindir, key)
        shutil.copy2(out, dst + ".tmp")
        os.replace(dst + ".tmp", dst)
        open(stamp, "w").write(sh)
        log(f"built {key} in {time.time() - t0:.1f} s")
        return dst


def scratch(name):
    for base in ("/dev/shm", "/tmp", VERIF):
        try:
            s = os.statvfs(base)
            if os.access(base, os.W_OK) and s.f_bavail * s.f_frsize > 2 << 30:
                d = os.path.join(base, f"cv-{name}-{os.getpid()}")
                os.makedirs(d)
                return d
        except OSError:
            pass
    d = os.path.join("/tmp", f"cv-{name}-{os.getpid()}")
    os.makedirs(d)
    return d


def space_left(d):
    s = os.statvfs(d)
    return s.f_bavail * s.f_frsize


def known_findings():
    v = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                v.append((m[1], m[2], m[3]))
    return v


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for k, c in sorted(CHECKS.items()):
            for run in c["runs"]:
                build(c.get("bin", BIN), run["variant"])
        return 0
    cid = a[0]
    c = CHECKS[cid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = json.load(open(a[a.index("--replay") + 1])) if "--replay" in a else None
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    t0 = time.time()
    binary = c.get("bin", BIN)
    runs = c["runs"]
    exes = {}
    for run in runs:
        v = run["variant"]
        if replay and replay["variant"] != v:
            continue
        if v not in exes:
            exes[v] = build(binary, v)
    base = scratch(cid)
    procs = []

    def cleanup(*_):
        for p, *_r in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (OSError, ProcessLookupError):
                pass
        shutil.rmtree(base, ignore_errors=True)

    def on_term(s, f):
        cleanup()
        sys.exit(3)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        return go(cid, c, tier, seed, replay, t0, runs, exes, base, procs)
    finally:
        cleanup()


def classify(rc, err, base):
    """None (held), 'violation' text, or ('inconclusive', why), ('error', why)"""
    if rc == 4:
        return ("inconclusive", "no progress, no proof of a deadlock")
    if rc == -9:
        return ("inconclusive", "killed")
    if rc == 77:
        m = re.search(r"SUMMARY: (.*)", err) or re.search(r"WARNING: (ThreadSanitizer.*)", err)
        return ("violation", "sanitizer report", (m[1] if m else "sanitizer report") + " | " + excerpt(err))
    if rc in (-11, -6, -4, -8, -7, -5):
        if "memory allocation of" in err or (rc == -7 and space_left(base) < (200 << 20)):
            return ("inconclusive", "out of memory or space")
        name = signal.Signals(-rc).name
        return ("violation", f"process died of {name}", f"the process was killed by {name} | " + excerpt(err))
    return ("error", f"worker ended with {rc}: {err[-1500:]}")


def excerpt(err):
    i = max(err.find("ERROR: AddressSanitizer"), err.find("WARNING: ThreadSanitizer"), err.find("panicked"), 0)
    return re.sub(r"\s+", " ", err[i:i + 1800])


def go(cid, c, tier, seed, replay, t0, runs, exes, base, procs):
    out_bad, outs, incon, errors = [], [], [], []
    pending = []
    for ri, run in enumerate(runs):
        v = run["variant"]
        if v not in exes:
            continue
        n = run.get("workers", 8)
        secs = run["thorough"] if tier == "thorough" else run["quick"]
        for w in range(n):
            if replay and (w != 0 or replay["run"] != ri):
                continue
            pending.append((ri, run, v, n, w, secs))
    # runs of one check execute one after the other unless marked parallel
    groups = {}
    for p in pending:
        groups.setdefault(p[1].get("group", p[0]), []).append(p)
    for g in sorted(groups, key=str):
        procs.clear()
        for ri, run, v, n, w, secs in groups[g]:
            d = os.path.join(base, f"w{ri}.{w}")
            os.makedirs(d)
            out, errf = os.path.join(d, "out.json"), os.path.join(d, "err")
            cmd = [exes[v], run.get("check", cid), "--seed", str(replay["seed"] if replay else seed),
                   "--worker", f"{w}/{n}", "--secs", str(secs), "--dir", os.path.join(d, "s"), "--out", out,
                   "--min-cases", str(run.get("min_cases", 1))]
            if run.get("arg"):
                cmd += ["--arg", run["arg"]]
            if tier == "thorough":
                cmd += ["--thorough"]
            if replay:
                cmd += ["--case", str(replay["case"])]
            e = env()
            e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:abort_on_error=0:handle_abort=0"
            e["TSAN_OPTIONS"] = ("exitcode=77:halt_on_error=1:second_deadlock_stack=1:history_size=4:suppressions="
                                 + os.path.join(VERIF, "tools", "tsan.supp"))
            e["CV_SCRATCH"] = os.path.join(d, "x")
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(errf, "w"), env=e, start_new_session=True,
                                 cwd=d)
            procs.append((p, ri, run, v, w, out, errf, cmd))
        left = list(procs)
        limit = (t0 + LIMIT) if tier == "quick" else time.time() + 4 * groups[g][0][5] + 900
        bad = False
        while left:
            for x in list(left):
                rc = x[0].poll()
                if rc is None:
                    continue
                left.remove(x)
                p, ri, run, v, w, out, errf, cmd = x
                err = open(errf, errors="replace").read()
                res = None
                if os.path.exists(out):
                    try:
                        res = json.load(open(out))
                    except ValueError:
                        res = None
                if rc in (0, 1) and res is not None:
                    outs.append((ri, v, w, res))
                    for b in res["violations"]:
                        out_bad.append((ri, v, w, b["case"], b["sig"], b["detail"], err[-3000:]))
                        bad = True
                else:
                    k = classify(rc, err, base)
                    if k[0] == "violation":
                        m = re.findall(r"case (\d+)$", err, re.M)
                        case = int(m[-1]) if m else w
                        out_bad.append((ri, v, w, case, k[1], k[2], err[-6000:]))
                        bad = True
                    elif k[0] == "inconclusive":
                        incon.append(k[1])
                    else:
                        errors.append(k[1])
                shutil.rmtree(os.path.join(os.path.dirname(out), "s"), ignore_errors=True)
            if bad and left:
                # enough: a violation was observed
                for x in left:
                    try:
                        os.killpg(x[0].pid, signal.SIGKILL)
                    except (OSError, ProcessLookupError):
                        pass
                    x[0].wait()
                left = []
            if time.time() > limit:
                for x in left:
                    os.killpg(x[0].pid, signal.SIGKILL)
                    x[0].wait()
                    incon.append("time limit")
                left = []
            time.sleep(0.05)
        if bad:
            break
    # ---- verdict
    known = [k for k in known_findings() if k[0] == cid]
    hit, real = set(), []
    for b in out_bad:
        for k in known:
            if re.search(k[1], b[4] + " " + b[5]):
                hit.add(k)
                break
        else:
            real.append(b)
    for k in known:
        print(f"KNOWN-FINDING: property={cid} {k[2]}")
    ev = evidence(cid, c, tier, seed, outs, real, t0, incon)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{cid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{cid}.json"))
    if real:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for ri, v, w, case, sig, detail, err in real[:3]:
            h = hashlib.sha256(f"{cid}{ri}{case}{sig}{seed}".encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{cid}-{h}.json")
            json.dump({"property": cid, "run": ri, "variant": v, "seed": replay["seed"] if replay else seed, "case": case,
                       "signature": sig, "detail": detail, "stderr": err,
                       "command": f"/verif/check.py {cid} --replay {path}"}, open(path, "w"), indent=1)
            print(f"[{sig}] {detail[:1500]}")
            print(f"VIOLATION property={cid} replay={path}", flush=True)
        return 1
    if errors:
        log("harness error:", errors[0])
        return 3
    if not outs or ev["coverage"]["evaluations"] == 0:
        log("inconclusive:", incon)
        return 2
    cov = ev["coverage"]
    print(f"{cid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), "
          f"{time.time() - t0:.0f} s" + (f", {len(incon)} inconclusive workers" if incon else ""))
    return 0


def evidence(cid, c, tier, seed, outs, real, t0, incon):
    ev, distinct, counters, samples = 0, set(), {}, []
    for ri, v, w, res in outs:
        ev += res["evaluations"]
        distinct.update((ri, x) for x in res["distinct"])
        for k, n in res["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), n)
            else:
                counters[k] = counters.get(k, 0) + n
        if len(samples) < 6:
            samples += res["samples"][:2]
    # a case can contribute several distinct observations (e.g. crash points): the schema asks for distinct evaluations
    if "eval_counter" in c:
        ev = counters.pop(c["eval_counter"], 0)
    cov = {"evaluations": ev, "distinct_nontrivial": min(len(distinct), ev), "rule": c["rule"],
           "samples": samples[:6], "observed": counters, "workers": len(outs), "inconclusive_workers": len(incon)}
    return {"property": cid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
            "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(real)}


if __name__ == "__main__":
    sys.exit(main())
