#!/usr/bin/env python3
"""Builds the harness once (plain and hooked), and the instrumented standard library of the sanitizer legs."""
import os, subprocess, sys

sys.dont_write_bytecode = True
import fresh
V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness", "Cargo.toml")
e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
e.setdefault("HOME", "/root")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
    e.pop(k, None)
def cargo(toolchain, args, target, flags=None, **more):
    env = dict(e, **more)
    if flags:
        env["RUSTFLAGS"] = flags
    fresh.check(os.path.join(V, "target", target))
    r = subprocess.run(["cargo", "+" + toolchain] + args + ["--offline", "--locked", "--quiet", "--manifest-path", H,
                           "--target-dir", os.path.join(V, "target", target)], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(target, r.stdout[-4000:])
    return r.returncode
STABLE = "stable-x86_64-unknown-linux-gnu"
ok = cargo(STABLE, ["build", "--release", "--bins"], "plain") == 0
ok &= cargo(STABLE, ["build", "--release", "--bin", "c24"], "hooks", "--cfg verif_hooks") == 0
# The instrumented legs build themselves when needed; doing it here only saves time later.
X = ["--target", "x86_64-unknown-linux-gnu"]
cargo("nightly", ["build", "--release", "--bin", "c21", "-Zbuild-std"] + X, "tsan", "-Zsanitizer=thread")
cargo("nightly", ["build", "--release", "--bin", "c25"] + X, "asan", "-Zsanitizer=address")
sys.exit(0 if ok else 1)
