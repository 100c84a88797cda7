#!/usr/bin/env python3
"""Makes the crate which searches the daemon: the daemon's own sources, copied as they are, with another main."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'target', 'search_d_crate')
SRC = '/repo/crates/sourisd'

def put(p, s):
    if os.path.exists(p) and open(p).read() == s: return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(s)

want = set()
for d, _, fs in os.walk(os.path.join(SRC, 'src')):
    for f in fs:
        p = os.path.join(d, f)
        r = os.path.relpath(p, SRC)
        s = open(p).read()
        if r == 'src/main.rs':
            s, n = re.subn(r'#\[tokio::main\]\s*async fn main\(\)', '#[allow(dead_code)]\n#[tokio::main]\nasync fn real_main()', s)
            if n != 1:
                print('the daemon has no `#[tokio::main] async fn main()`'); sys.exit(1)
            s += '\nmod harness;\nfn main() { harness::main() }\n'
        put(os.path.join(OUT, r), s); want.add(os.path.join(OUT, r))
put(os.path.join(OUT, 'src/harness.rs'), open(os.path.join(HERE, 'harness.rs')).read()); want.add(os.path.join(OUT, 'src/harness.rs'))
for d, _, fs in os.walk(os.path.join(OUT, 'src')):
    for f in fs:
        if os.path.join(d, f) not in want: os.remove(os.path.join(d, f))
c = open(os.path.join(SRC, 'Cargo.toml')).read()
c = c.replace('path = "../sourisdb"', 'path = "/repo/crates/sourisdb"')
c = re.sub(r'name = "sourisd"', 'name = "search_d"', c, count=1)
c = c.replace('[dependencies]', '[dependencies]\ntower = { version = "0.5", features = ["util"] }', 1)
c += '\n[profile.dev]\nopt-level = 0\ndebug = false\noverflow-checks = true\n\n[profile.dev.package.sourisdb]\nopt-level = 1\n\n[workspace]\n'
put(os.path.join(OUT, 'Cargo.toml'), c)
lock = os.path.join(OUT, 'Cargo.lock')
if not os.path.exists(lock): shutil.copy('/repo/Cargo.lock', lock)
