#!/usr/bin/env python3
"""Asks the compiler which of the program pairs of scenario S10 (sim/probe/pairs) it accepts against /repo's tree.

accept.py OUT [-v]: writes the names of the accepted programs, one per line, to OUT if they differ from what is there."""
import os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROBE = os.path.join(ROOT, "sim/probe")
TARGET = os.path.join(ROOT, "sim/target/probe")
env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "CARGO_BUILD_TARGET")}
env.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def main():
    out, verbose = sys.argv[1], "-v" in sys.argv
    fp = os.path.join(TARGET, "debug/.fingerprint")
    if os.path.isdir(fp):
        # cargo decides by mtime; a file put back with an old mtime must not leave a stale answer
        for d in os.listdir(fp):
            if d.startswith(("goggles-", "cxlib-")):
                for f in os.listdir(os.path.join(fp, d)):
                    os.unlink(os.path.join(fp, d, f))
    deps = os.path.join(TARGET, "debug/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(("libcxlib-", "libgoggles-")):
                os.unlink(os.path.join(deps, f))
    r = subprocess.run(["cargo", "check", "--offline", "--locked"], cwd=PROBE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    libs = [f for f in os.listdir(deps) if f.startswith("libcxlib-") and f.endswith(".rmeta")] if os.path.isdir(deps) else []
    if r.returncode or len(libs) != 1:
        # the common part of the programs does not compile: the compiler accepts none of them
        print(r.stdout[-3000:], file=sys.stderr)
        names = []
    else:
        rmeta = os.path.join(deps, libs[0])
        names = sorted(f[:-3] for f in os.listdir(os.path.join(PROBE, "pairs")) if f.endswith(".rs"))
        rustc = subprocess.run(["rustup", "which", "rustc"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip() or "rustc"
        with tempfile.TemporaryDirectory(prefix="gsim-accept-") as d:
            def ask(n):
                src = '#![forbid(unsafe_code)]\npub mod cx { pub use cxlib::*; }\n#[path = "%s/pairs/%s.rs"]\npub mod p;\n' % (PROBE, n)
                p = subprocess.run([rustc, "--edition", "2021", "--crate-type", "lib", "--crate-name", n, "--emit=metadata",
                                    "--out-dir", d, "--cap-lints", "allow", "-L", "dependency=" + deps, "--extern", "cxlib=" + rmeta, "-"],
                                   input=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return n, p.returncode, p.stdout
            with ThreadPoolExecutor(os.cpu_count() or 1) as ex:
                res = list(ex.map(ask, names))
        if verbose:
            for n, c, t in res:
                print(n, "accepted" if c == 0 else " ".join(sorted(set(re.findall(r"error\[(E\d+)\]", t)))) or "error")
                if c and n.endswith("_ok"):
                    print(t)
        names = [n for n, c, _ in res if c == 0]
    text = "".join(n + "\n" for n in names)
    if not os.path.exists(out) or open(out).read() != text:
        with open(out, "w") as f:
            f.write(text)


main()
