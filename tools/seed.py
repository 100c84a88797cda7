#!/usr/bin/env python3
"""Writes and confirms one planted bug.  usage: seed.py SPEC.py [...]   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS, MAIN, [KIND='db'|'c'|'d'])
The patch is made and confirmed in a scratch copy, never in /repo."""
import sys, os, subprocess, json, shutil, re
W = '/tmp/seedwt'
DEMO_DB = '''#!/bin/bash
# cwd: the repository. 0: the property holds for this demonstration
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$HERE/main.rs" "$T/src/main.rs" && cp "$HERE/Cargo.lock.demo" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sourisdb = { path = "$PWD/crates/sourisdb", features = ["std", "serde"] }
[profile.dev]
debug = false
[workspace]
END
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/err" || { cat "$T/err"; exit 3; }
( ulimit -v 4000000; timeout 120 "$T/target/debug/demo" )
'''
DEMO_C = DEMO_DB.replace('"serde"]', '"serde", "sync_client", "async_client"]').replace('[profile.dev]', 'tokio = { version = "1", features = ["rt", "net", "time"] }\n[profile.dev]')
DEMO_D = '''#!/bin/bash
# cwd: the repository. 0: the property holds for this demonstration.  The daemon's own sources are built beside a main of ours.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -r "$R/crates/sourisd/src" "$T/src" && cp "$R/Cargo.lock" "$T/Cargo.lock"
sed -e "s#path *= *\\"../sourisdb\\"#path = \\"$R/crates/sourisdb\\"#" "$R/crates/sourisd/Cargo.toml" > "$T/Cargo.toml"
printf '\\n[workspace]\\n[profile.dev]\\ndebug = false\\n' >> "$T/Cargo.toml"
cp "$HERE/main.rs" "$T/src/demo.rs"
python3 - "$T/src/main.rs" <<'END'
import sys, re
p = sys.argv[1]
s = open(p).read()
s = re.sub(r'#\\[tokio::main\\]\\s*async fn main\\b', '#[allow(dead_code)] async fn real_main', s, count=1)
s += '\\nmod demo;\\nfn main() { std::process::exit(tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap().block_on(demo::demo())); }\\n'
open(p, 'w').write(s)
END
mkdir -p "$T/base"
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/err" || { cat "$T/err"; exit 3; }
BASE_LOCATION="$T/base" timeout 120 "$T/target/debug/sourisd"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def main(spec):
    g = {}; exec(open(spec).read(), g)
    d = f'/verif/seeded/{g["ID"]}'
    if not os.path.isdir(W): sh(f'cp -a /repo {W}')
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=W)
    orig = sh('git log --format=%H | tail -1', cwd=W).stdout.strip()
    for f, a, b in g['EDITS']:
        p = f'{W}/{f}'; s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    patch = sh('git diff', cwd=W).stdout
    o = sh(f'git show {orig}:{g["EDITS"][0][0]}', cwd=W).stdout.split('\n')
    for l in patch.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:] not in o: print('  note: not an original line:', l)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/main.rs', 'w').write(g['MAIN'])
    kind = g.get('KIND', 'db')
    open(d + '/demo.sh', 'w').write({'db': DEMO_DB, 'c': DEMO_C, 'd': DEMO_D}[kind]); os.chmod(d + '/demo.sh', 0o755)
    if kind != 'd': shutil.copy('/verif/search/%s/Cargo.lock' % kind, d + '/Cargo.lock.demo')
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('. /opt/vp/env.sh; cd %s; timeout 780 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1' % W)
    passed = set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok', r.stdout, re.M)); bad = re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M)
    rb = sh(f'bash {d}/demo.sh', cwd=W)
    sh('git checkout -q -- . && git clean -fdq', cwd=W)
    rg = sh(f'bash {d}/demo.sh', cwd=W)
    print(g['ID'], 'tests ok:', len(passed), 'failed:', bad, 'rc', r.returncode, '| demo patched rc', rb.returncode, (rb.stdout + rb.stderr)[-200:].strip(), '| clean rc', rg.returncode, (rg.stdout + rg.stderr)[-200:].strip())
    if r.returncode and not bad: print(r.stdout[-1500:])
for s in sys.argv[1:]: main(s)
