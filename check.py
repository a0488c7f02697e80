#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's current working tree.

usage: check.py <ID> [--replay FILE] [--threads N]
Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
Exit 0: held on everything observed; 1: VIOLATION line printed; anything else: no verdict.
"""
import json, os, signal, subprocess, sys, tempfile, time, re

sys.dont_write_bytecode = True
import fresh

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
HOOKED = {"C24"}          # built with --cfg verif_hooks

def env_for(prop):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    if prop in HOOKED:
        e["RUSTFLAGS"] = "--cfg verif_hooks"
    return e

def target_dir(prop):
    return os.path.join(VERIF, "target", "hooks" if prop in HOOKED else "plain")

def build(prop):
    b = prop.lower()
    fresh.check(target_dir(prop))
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--quiet", "--bin", b,
           "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", target_dir(prop)]
    r = subprocess.run(cmd, env=env_for(prop), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD-FAILED property=%s" % prop)
        sys.exit(4)
    return os.path.join(target_dir(prop), "release", b)

FATAL = {signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}

def run(cmd, prop, timeout):
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, env=env_for(prop), stdout=subprocess.PIPE, stderr=err, cwd=VERIF)
        try:
            out, _ = p.communicate(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            to = True
        err.seek(0)
        e = err.read()[-20000:].decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace"), e, to

def why(code, err):
    """A deterministic reason for an abnormal end that the program under test is responsible for."""
    if code is None or code >= 0:
        return None
    sig = -code
    if "VERIF-ALLOC-CAP" in err:
        m = re.search(r"VERIF-ALLOC-CAP refused bytes=(\d+)", err)
        return "absurd memory request of %s bytes" % (m.group(1) if m else "?")
    if "unsafe precondition" in err:
        return "undefined behaviour caught by a precondition check: " + err.strip().splitlines()[-1][:300]
    if "overflowed its stack" in err:
        return "stack overflow (unbounded recursion)"
    if "memory allocation of" in err:
        return None                      # out of memory on this machine: no verdict
    if sig in FATAL:
        return "the process died from signal %d: %s" % (sig, " ".join(err.strip().splitlines()[-3:])[:300])
    return None

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    try:
        seed_n = int(seed)
    except ValueError:
        seed_n = sum((i + 1) * ord(c) for i, c in enumerate(seed))
    seed_n = abs(seed_n) % (1 << 63)
    os.makedirs(REPLAYS, exist_ok=True)
    binary = build(prop)
    common = ["--known", os.path.join(VERIF, "known-findings.txt"), "--replay-dir", REPLAYS]
    if "--replay" in args:
        rp = json.load(open(args[args.index("--replay") + 1]))
        if "leg" in rp:                  # found by an instrumented leg: run the legs again
            os.makedirs(os.path.join(VERIF, "target"), exist_ok=True)
            r = subprocess.run([sys.executable, os.path.join(VERIF, "sanitize.py"), prop, rp["tier"], str(rp["seed"]), os.devnull], cwd=VERIF)
            sys.exit(r.returncode)
        cmd = [binary, "--tier", rp["tier"], "--one", rp["kind"], str(rp["seed"]), str(rp["index"])] + common
        code, out, err, to = run(cmd, prop, 1800)
        sys.stdout.write(out); sys.stderr.write(err)
        r = why(code, err)
        if r:
            print(r); print("VIOLATION property=%s replay=%s" % (prop, args[args.index("--replay") + 1]))
            sys.exit(1)
        sys.exit(code if code is not None and code >= 0 else 2)
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    inflight = os.path.join(REPLAYS, prop + ".inflight")
    cmd = [binary, "--tier", tier, "--seed", str(seed_n), "--evidence", evidence, "--inflight", inflight] + common
    if "--threads" in args:
        cmd += ["--threads", args[args.index("--threads") + 1]]
    if "--only" in args:
        cmd += ["--only", args[args.index("--only") + 1]]
    code, out, err, to = run(cmd, prop, 780 if tier == "quick" else 7200)
    sys.stdout.write(out)
    if to:
        print("INCONCLUSIVE property=%s the wall-clock watchdog ended the run" % prop)
        sys.exit(2)
    if code == 0:
        extra(prop, tier, seed_n, evidence)
        sys.exit(0)
    if code == 1 and "VIOLATION property=" in out:
        sys.exit(1)
    if code is not None and code < 0:
        sys.stderr.write(err)
        # The process died: find the case among those in flight and confirm it alone, twice.
        for line in open(inflight, errors="replace").read().replace("\0", " ").splitlines():
            parts = line.split()
            if len(parts) != 3:
                continue
            one = [binary, "--tier", tier, "--one"] + parts + common
            c1, o1, e1, t1 = run(one, prop, 300)
            if c1 == 1 and "VIOLATION property=" in o1:
                sys.stdout.write(o1)
                sys.exit(1)
            r1 = why(c1, e1)
            if r1:
                path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, parts[0], parts[1]))
                json.dump({"property": prop, "kind": parts[0], "seed": int(parts[1]), "index": int(parts[2]),
                           "tier": tier, "message": r1, "log": e1.splitlines()[-40:]}, open(path, "w"))
                print("%s/%s: %s" % (parts[0], parts[2], r1))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                sys.exit(1)
        print("INCONCLUSIVE property=%s the run died (%s) and no single case reproduces it" % (prop, code))
        sys.exit(2)
    sys.stderr.write(err)
    print("NO-VERDICT property=%s exit=%s" % (prop, code))
    sys.exit(code if code and code > 1 else 2)

def extra(prop, tier, seed, evidence):
    """Sanitizer legs that run the same binaries under Miri or other instrumentation."""
    path = os.path.join(VERIF, "sanitize.py")
    if prop not in ("C21", "C25", "C27") or not os.path.exists(path):
        return
    r = subprocess.run([sys.executable, path, prop, tier, str(seed), evidence], cwd=VERIF)
    if r.returncode != 0:
        sys.exit(r.returncode)

main()
