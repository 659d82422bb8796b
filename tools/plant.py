#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from definitions in tools/plants/*.py and confirms each one in a
scratch copy of /repo: applies, builds, passes the stable tests, demo 0 before and nonzero after.
    python3 tools/plant.py plants/a.py [id...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plantw'
DEMO = '''#!/bin/bash
# run with cwd = repository root after the build; exit 0: property holds here, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/p/src" "$d/run"; cp "$here/demo.rs" "$d/p/src/main.rs"; cp "$repo/Cargo.lock" "$d/p/"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
[workspace]
[dependencies]
sc = { path = "$repo" }
T
CARGO_TARGET_DIR="$d/t" cargo build --offline --quiet --manifest-path "$d/p/Cargo.toml" >"$d/log" 2>&1 || { tail -5 "$d/log"; exit 3; }
cd "$d/run" && timeout 120 "$d/t/debug/demo"
'''
# the same for private items: the demo is appended as a module to a copy of one source file
DEMO2 = """#!/bin/bash
# run with cwd = repository root after the build; exit 0: property holds here, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/p" "$d/run"; cp -r "$repo/src" "$d/p/src"; cp "$repo/Cargo.lock" "$d/p/"
sed '/^\\[\\[bench/,$d; s/^edition = .*/edition = "2021"/' "$repo/Cargo.toml" > "$d/p/Cargo.toml"; printf '[workspace]\\n' >> "$d/p/Cargo.toml"
sed -i 's/^build = .*//' "$d/p/Cargo.toml"; [ -f "$repo/build.rs" ] && cp "$repo/build.rs" "$d/p/"
cat "$here/demo.rs" >> "$d/p/src/@FILE@"
printf 'fn main() { sc::@MOD@::demo__::main() }\\n' > "$d/p/src/main.rs"
CARGO_TARGET_DIR="$d/t" cargo build --offline --quiet --manifest-path "$d/p/Cargo.toml" >"$d/log" 2>&1 || { tail -5 "$d/log"; exit 3; }
cd "$d/run" && timeout 120 "$d/t/debug/sc"
"""
# the same for the commands of the binary: the demo becomes its main; the lengths of the Monte
# Carlo runs are cut down (they take minutes otherwise)
DEMO3 = """#!/bin/bash
# run with cwd = repository root after the build; exit 0: property holds here, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/p" "$d/run"; cp -r "$repo/src" "$d/p/src"; cp "$repo/Cargo.lock" "$d/p/"
sed '/^\\[\\[bench/,$d' "$repo/Cargo.toml" > "$d/p/Cargo.toml"; printf '[workspace]\\n' >> "$d/p/Cargo.toml"
[ -f "$repo/build.rs" ] && cp "$repo/build.rs" "$d/p/"
sed -i -E 's/2e7 as usize/2e2 as usize/; s/1e6 as usize/1e2 as usize/; s/1e4 as usize/1e2 as usize/; s/0\\.\\.10000 /0..100 /' "$d/p/src/obs.rs"
cat "$here/demo.rs" >> "$d/p/src/obs.rs"
sed -i 's/^fn main() /fn main_() /' "$d/p/src/main.rs"; printf 'fn main() { obs::demo__::main() }\\n' >> "$d/p/src/main.rs"
CARGO_TARGET_DIR="$d/t" cargo build --offline --quiet --manifest-path "$d/p/Cargo.toml" >"$d/log" 2>&1 || { tail -5 "$d/log"; exit 3; }
cd "$d/run" && timeout 200 "$d/t/debug/sc" > "$d/out" 2>&1; r=$?; tail -1 "$d/out"; exit $r
"""
PRE = '''#![allow(unused)]
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
fn conf(l: i32, s: i32) -> Config {
    let mut c = Config::default();
    c.hsize = l; c.ssize = s; c.log = false; c.beta = 1.3; c.tau = 7.0; c.dt = 0.02; c.trel = 0.0; c.lambda = 0.7;
    c.jvar = 0.3; c.hvar = 0.3; c.hfield = vec![0.1, -0.2, 0.3]; c.hs = vec![0.0, 0.0, 0.0]; c.drive = DriveType::none; c.e = 0.6;
    c
}
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn close(a: f64, b: f64, what: &str) { if !((a - b).abs() < 1e-7 * (1.0 + a.abs())) { println!("{}: {} != {}", what, a, b); std::process::exit(1); } }
'''


def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def plant(id, prop, edits, demo, needs, breaks, script=None, files=None, inside=None):
    d = '%s/seeded/%s' % (V, id)
    sh('git -C /repo worktree prune')
    if not os.path.isdir(W):
        sh('cp -a /repo %s' % W)
    sh('git checkout -q -f $(git -C /repo rev-parse HEAD) 2>/dev/null || (git fetch -q /repo && git checkout -q -f FETCH_HEAD); git checkout -q -- .', W)
    assert sh('git rev-parse HEAD', W).stdout == sh('git rev-parse HEAD', '/repo').stdout, 'scratch copy is behind'
    for f, old, new in edits:
        p = '%s/%s' % (W, f)
        s = open(p).read()
        k = 0
        if isinstance(old, tuple):
            old, k = old
            n = s.count(old)
            assert n > k, (id, f, 'occurrences', n)
            at = -1
            for _ in range(k + 1):
                at = s.index(old, at + 1)
            s = s[:at] + new + s[at + len(old):]
        else:
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git diff', W).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    if inside == 'obs':
        script = DEMO3
    elif inside:
        script = DEMO2.replace('@FILE@', inside + '.rs').replace('@MOD@', inside)
    open(d + '/demo.sh', 'w').write(script or DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    if demo:
        open(d + '/demo.rs', 'w').write(PRE + demo if not inside else '\n#[cfg(not(test))]\npub mod demo__ {\nuse super::*;\n' + (PRE if inside == 'obs' else PRE.replace('use sc::', 'use crate::')).replace('#![allow(unused)]\n', '') + demo.replace('fn main', 'pub fn main') + '\n}\n')
    for k, v in (files or {}).items():
        open(d + '/' + k, 'w').write(v)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    b = sh('cargo build --offline 2>&1 | tail -3; cargo test --offline -- --skip initialise_energy 2>&1 | grep -E "test result|FAILED|error" ', W)
    bad = 'FAILED' in b.stdout or 'error' in b.stdout
    if bad:   # the energy test is random
        b = sh('cargo test --offline -- --skip initialise_energy 2>&1 | grep -E "test result|FAILED|error"', W)
        bad = 'FAILED' in b.stdout or 'error' in b.stdout
    r1 = sh('bash %s/demo.sh' % d, W)
    sh('git checkout -q -- .', W)
    sh('cargo build --offline', W)
    r0 = sh('bash %s/demo.sh' % d, W)
    ok = not bad and r0.returncode == 0 and r1.returncode not in (0, 3)
    print('%-28s %s tests %s  clean %d  bug %d %s' % (id, 'OK ' if ok else 'BAD', 'fail' if bad else 'ok', r0.returncode, r1.returncode, (r1.stdout if r0.returncode == 0 else r0.stdout).strip()[-160:]))
    if bad:
        print(b.stdout[-600:])


if __name__ == '__main__':
    only = sys.argv[2:]
    def p(id, *a, **k):
        if not only or id in only:
            plant(id, *a, **k)
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'plant': p})
