#!/usr/bin/env python3
"""Instrumented legs of C21 and C25: the same monitors under Miri, ThreadSanitizer or AddressSanitizer.

usage: sanitize.py <ID> <tier> <seed> <evidence file>
Exit 0: nothing found (what each leg observed is added to the evidence); 1: VIOLATION printed.
A leg that cannot be built or that the tool cannot execute gives no verdict of its own and says so
in the evidence; the plain run of the same property has its verdict already.
"""
import json, os, re, subprocess, sys, time

sys.dont_write_bytecode = True
import fresh

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
PROP, TIER, SEED, EVIDENCE = sys.argv[1:5]
QUICK = TIER == "quick"

def env(**more):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(more)
    return e

def target(leg):
    return os.path.join(VERIF, "target", leg)

BIN = PROP.lower()
MANIFEST = os.path.join(HARNESS, "Cargo.toml")
COMMON = ["--tier", TIER, "--seed", SEED, "--known", os.path.join(VERIF, "known-findings.txt"), "--replay-dir", REPLAYS]
report = {}

def violation(leg, what, log):
    path = os.path.join(REPLAYS, "%s-%s.json" % (PROP, leg))
    json.dump({"property": PROP, "leg": leg, "tier": TIER, "seed": int(SEED), "message": what, "log": log[-200:]}, open(path, "w"))
    print("%s leg: %s" % (leg, what))
    print("VIOLATION property=%s replay=%s" % (PROP, path))
    sys.exit(1)

def held(out):
    """Cases and counters of a completed run."""
    m = re.search(r"HELD property=\S+ cases=(\d+).*?(\{.*\})", out)
    if not m:
        return None
    counts = {k: int(v) for k, v in re.findall(r'"(\w+)": (\d+)', m.group(2))}
    return int(m.group(1)), counts

def collect(leg, runs, fault):
    """Waits for the runs of a leg and turns what the tool reported into a verdict."""
    cases, counts, bad = 0, {}, []
    for p, outf, errf, deadline in runs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        out = open(outf, errors="replace").read()
        err = open(errf, errors="replace").read()
        os.remove(outf)
        os.remove(errf)
        m = re.search(fault, err)
        if m:
            at = err[m.start():].splitlines()
            bad.append((at[0][:300], at))
            continue
        v = re.search(r"^(.*)\nVIOLATION property=", out, re.M)
        if v:
            bad.append((v.group(1)[:300], out.splitlines()))
            continue
        h = held(out)
        if h:
            cases += h[0]
            for k, n in h[1].items():
                counts[k] = counts.get(k, 0) + n
        else:
            report.setdefault(leg + "_inconclusive_runs", 0)
            report[leg + "_inconclusive_runs"] += 1
    report[leg + "_cases"] = cases
    for k, n in counts.items():
        report["%s_%s" % (leg, k)] = n
    if bad:
        violation(leg, bad[0][0], bad[0][1])

def start(cmd, e, name, limit):
    outf, errf = (os.path.join(target("logs"), name + x) for x in (".out", ".err"))
    os.makedirs(target("logs"), exist_ok=True)
    p = subprocess.Popen(cmd, env=e, stdout=open(outf, "w"), stderr=open(errf, "w"), cwd=VERIF)
    return p, outf, errf, time.time() + limit

def build(leg, cmd, e):
    fresh.check(target(leg))
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
    if r.returncode != 0:
        report[leg + "_unavailable"] = 1
        print("NOTE property=%s the %s leg could not be built: %s" % (PROP, leg, r.stdout[-400:].replace("\n", " ")))
        return False
    return True

def miri(only):
    e = env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--bin", BIN, "--manifest-path", MANIFEST,
            "--target-dir", target("miri"), "--"]
    if not build("miri", base + COMMON + ["--limit", "0"], e):
        return
    budget = 45 if QUICK else 1200
    share = 30 if QUICK else 600
    runs = []
    for i in range(8):
        cmd = base + COMMON + ["--limit", str(share), "--offset", str(i * share), "--threads", "1", "--budget", str(budget)] + only
        runs.append(start(cmd, e, "%s-miri%d" % (PROP, i), budget + 150))
    collect("miri", runs, r"(?m)^error: (Undefined Behavior|memory leaked|deadlock|.*[Dd]ata race).*")

def native(leg, flag, extra_build, options, fault, only):
    e = env(RUSTFLAGS="-Zsanitizer=" + flag, **options)
    cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--quiet", "--release", "--target", "x86_64-unknown-linux-gnu",
           "--bin", BIN, "--manifest-path", MANIFEST, "--target-dir", target(leg)] + extra_build
    if not build(leg, cmd, e):
        return
    exe = os.path.join(target(leg), "x86_64-unknown-linux-gnu", "release", BIN)
    run = [exe] + COMMON + ["--budget", "60" if QUICK else "900"] + only
    collect(leg, [start(run, e, PROP + "-" + leg, 300 if QUICK else 1800)], fault)

def platform():
    """C27: the cases of `emit` under Miri as foreign machines, judged against the native results."""
    exe = os.path.join(VERIF, "target", "plain", "release", BIN)
    logs = target("logs")
    os.makedirs(logs, exist_ok=True)
    share, parts = (60, 4) if QUICK else (1500, 4)
    budget = 50 if QUICK else 1500
    def native(args, out):
        with open(out, "w") as f:
            return subprocess.run([exe] + args, stdout=f, cwd=VERIF).returncode
    work = []
    for i in range(parts):
        cases, here = (os.path.join(logs, "C27-%s%d" % (n, i)) for n in ("cases", "here"))
        if native(["emit", str(int(SEED) * 101 + i), str(share)], cases) or native(["exec", cases, "600"], here):
            report["platform_unavailable"] = 1
            return
        work.append((cases, here))
    runs = []
    for t in ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"):
        leg = t.split("-")[0]
        e = env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats", MIRI_SYSROOT=target("sysroot-" + leg))
        base = ["cargo", "+nightly", "miri", "run", "--target", t, "--offline", "--locked", "--quiet", "--bin", BIN,
                "--manifest-path", MANIFEST, "--target-dir", target("miri-" + leg), "--"]
        if not build(leg, ["cargo", "+nightly", "miri", "setup", "--target", t], e):
            continue
        if not build(leg, base + ["exec", "/dev/null", "0"], e):
            continue
        for i, (cases, here) in enumerate(work):
            runs.append((leg, cases, here, start(base + ["exec", cases, str(budget)], e, "C27-%s%d" % (leg, i), budget + 240)))
    bad = None
    for leg, cases, here, (p, outf, errf, deadline) in runs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err = open(errf, errors="replace").read()
        m = re.search(r"(?m)^error: (Undefined Behavior|memory leaked|deadlock|.*[Dd]ata race).*", err)
        r = subprocess.run([exe, "compare", cases, here, outf, leg], stdout=subprocess.PIPE, text=True)
        if m and not bad:
            bad = (leg, m.group(0)[:300], err[m.start():].splitlines())
        elif r.returncode == 1 and not bad:
            bad = (leg, r.stdout.strip()[:2000], r.stdout.splitlines())
        elif r.returncode == 0:
            for k, n in re.findall(r'"(\w+)": (\d+)', r.stdout):
                report["%s_%s" % (leg, k)] = report.get("%s_%s" % (leg, k), 0) + int(n)
        else:
            report[leg + "_inconclusive_runs"] = report.get(leg + "_inconclusive_runs", 0) + 1
        for f in (outf, errf):
            os.remove(f)
    if bad:
        violation(*bad)

if PROP == "C27":
    platform()
if PROP == "C21":
    miri(["--only", "readers"])
    native("tsan", "thread", ["-Zbuild-std"], {"TSAN_OPTIONS": "halt_on_error=1"}, r"WARNING: ThreadSanitizer: .*", ["--only", "readers"])
elif PROP == "C25":
    miri([])
    native("asan", "address", [], {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}, r"ERROR: AddressSanitizer: .*", [])

try:
    ev = json.load(open(EVIDENCE))
    ev["coverage"]["observed"].update(report)
    json.dump(ev, open(EVIDENCE, "w"))
except (OSError, ValueError, KeyError) as x:
    print("NOTE the evidence could not be extended: %s" % x)
print("LEGS property=%s %s" % (PROP, json.dumps(report)))
