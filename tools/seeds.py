#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in seeds_def.py, and confirms each in a scratch copy of /repo:
it builds, existing tests pass, and the demonstration passes without and fails with the change.

    seeds.py [id ...]
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/seed-scratch'
from seeds_def import SEEDS

DEMO_SH = '''#!/bin/bash
# Builds the program beside this file against the crate in the current directory, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export RUSTC=/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu/bin/rustc
work="$(mktemp -d)" || exit 1
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/" || exit 1
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ser_raw = { path = "$repo/ser_raw", features = ["default", "num_bigint"] }
num-bigint = "0.4.3"
[profile.dev]
debug-assertions = %s
overflow-checks = true
[workspace]
TOML
cd "$work" || exit 1
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet || exit 2
"$work/target/debug/demo"
'''

# For what has to be rejected at compile time. control.rs is accepted, so that a failure is not something else.
REJECT_SH = DEMO_SH.split('CARGO_TARGET_DIR=')[0] + '''cp "$here/control.rs" src/main.rs
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet || exit 2
cp "$here/demo.rs" src/main.rs; touch src/main.rs
out="$(CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2>&1)" && { echo "accepted by the compiler"; exit 1; }
case "$out" in *E0080*) exit 0;; *) echo "$out"; exit 3;; esac
'''

def env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             RUSTUP_TOOLCHAIN='1.70.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0',
             RUSTC='/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu/bin/rustc',
             RUSTDOC='/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu/bin/rustdoc')
    return e

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=k.get('cwd', SCRATCH), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    if not os.path.isdir(SCRATCH):
        subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    for sid in sys.argv[1:] or SEEDS:
        s = SEEDS[sid]
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
        for f, old, new in s['edits']:
            p = os.path.join(SCRATCH, f)
            t = open(p).read()
            if t.count(old) != s.get('count', 1):
                print(sid, 'BAD: old text found', t.count(old), 'times in', f); break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = os.path.join(VERIF, 'seeded', sid)
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
            open(d + '/demo.rs', 'w').write(s['demo'].lstrip('\n'))
            if 'control' in s:
                open(d + '/control.rs', 'w').write(s['control'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write((REJECT_SH if 'control' in s else DEMO_SH) % ('true' if s.get('debug') else 'false'))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            t = sh('cargo test --workspace --all-features --offline')
            bad = sh(d + '/demo.sh')
            sh('git checkout -q -- .')
            good = sh(d + '/demo.sh')
            ok = t.returncode == 0 and bad.returncode not in ((0,) if s.get('rejected') else (0, 2)) and good.returncode == 0
            print(sid, 'ok' if ok else 'BAD', 'tests', t.returncode, 'with', bad.returncode, 'without', good.returncode, flush=True)
            if not ok:
                print(t.stdout[-1500:] if t.returncode else '', bad.stdout[-800:], good.stdout[-800:])

main()
