#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs the check of its property and undoes it.  usage: runseeds.py [id-prefix ...]"""
import sys, os, subprocess, json, time
D = '/verif/seeded'
for s in sorted(os.listdir(D)):
    if sys.argv[1:] and not any(s.startswith(a) for a in sys.argv[1:]): continue
    p = json.load(open(f'{D}/{s}/meta.json'))['property']
    a = subprocess.run(['git', '-C', '/repo', 'apply', f'{D}/{s}/patch.diff'])
    if a.returncode: print(s, 'DOES NOT APPLY'); continue
    t = time.time()
    try: r = subprocess.run(['python3', '/verif/check.py', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(s, p, 'rc', r.returncode, f'{time.time()-t:.0f}s', v or r.stdout[-300:], flush=True)
    try: print('    ', open(v[0].split('replay=')[1].split()[0]).read()[:300].replace('\n', '\n     '))
    except Exception: pass
