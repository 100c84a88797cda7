"""Runs Kani harnesses of /verif/kani on /repo's current tree."""
import os, re, shutil, subprocess, time, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def kill_tree(pid):
    """The process and all which came from it (cargo kani puts its solvers in groups of their own)."""
    kids = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try: kids.setdefault(int(open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError, ValueError): pass
    todo, all_ = [pid], []
    while todo:
        x = todo.pop(); all_.append(x); todo += kids.get(x, [])
    for x in all_:
        try: os.kill(x, signal.SIGKILL)
        except OSError: pass


def cmd_run(cmd, cwd, timeout, env, stop=None):
    """rc (None if it was stopped: out of time, or stop() said so) and output"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    end = time.time() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=1); return p.returncode, out
        except subprocess.TimeoutExpired:
            if time.time() < end and not (stop and stop()): continue
            kill_tree(p.pid)
            out, _ = p.communicate(); return None, out


def parse(out):
    cur, res, th = {}, {}, '0'
    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            th = m[1] or '0'; cur[th] = m[2]; res.setdefault(m[2], {'status': None, 'checks': 0, 'secs': 0.0, 'text': [], 'cover': None}); continue
        m = re.match(r'Thread (\d+): *$', l)
        if m: th = m[1]; continue
        r = res.get(cur.get(th))
        if r is None: continue
        r['text'].append(l)
        m = re.match(r' \*\* (\d+) of (\d+) failed', l)
        if m: r['checks'] = int(m[2]); continue
        m = re.match(r' \*\* (\d+) of (\d+) cover properties satisfied', l)
        if m: r['cover'] = (int(m[1]), int(m[2])); continue
        m = re.match(r'VERIFICATION:- (\w+)', l)
        if m: r['status'] = m[1]
        m = re.match(r'Verification Time: ([\d.]+)', l)
        if m: r['secs'] = float(m[1])
    return res


def playback(name, env, work):
    """The counterexample as a test on the real code; the text of the failing run, or None."""
    d = os.path.join(work, 'playback')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'kani'), d, ignore=shutil.ignore_patterns('target'))
    e = dict(env)
    rc, out = cmd_run(['cargo', 'kani', '--target-dir', env['KANI_TGT'], '--harness', name, '--exact', '-Z', 'concrete-playback', '--concrete-playback=inplace'], d, 200, e)
    if rc is None: return None
    rc, out2 = cmd_run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', '--nocapture', 'kani_concrete_playback'], d, 200, e)
    if rc not in (None, 0) and re.search(r'test result: FAILED', out2):
        tests = ''
        for root, _, fs in os.walk(os.path.join(d, 'src')):
            for f in fs:
                t = open(os.path.join(root, f)).read()
                for m in re.finditer(r'#\[test\]\s*fn kani_concrete_playback.*?\n\s*}\n', t, re.S): tests += m[0]
        return (tests + '\n' + out2)[-6000:]
    return None


def run(pats, work, target, timeout, stop=None):
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ); env['RUSTFLAGS'] = '-Awarnings'; env['KANI_TGT'] = target
    cmd = ['cargo', 'kani', '--target-dir', target, '-Z', 'unstable-options', '-j', '8', '--output-format', 'terse']
    for p in pats: cmd += ['--harness', p]
    t = time.time()
    rc, out = cmd_run(cmd, os.path.join(HERE, 'kani'), timeout, env, stop)
    res = parse(out)
    obs = []
    for name, r in sorted(res.items()):
        o = {'name': 'kani ' + name, 'by': 'kani (CBMC, CaDiCaL)', 'checks': max(1, r['checks']), 'secs': r['secs'], 'detail': '\n'.join(r['text'])[-3000:]}
        fails = re.findall(r'Failed Checks: (.*)', '\n'.join(r['text']))
        if r['status'] == 'SUCCESSFUL':
            if r['cover'] and r['cover'][0] < r['cover'][1]:
                o['status'] = 'undecided'; o['detail'] = 'vacuous: a state which should be reachable is not'
            else: o['status'] = 'proved'
        elif r['status'] == 'FAILED':
            real = [f for f in fails if 'unwinding assertion' not in f and 'not currently supported by Kani' not in f and 'unsupported' not in f.lower()]
            unw = len(real) < len(fails)
            if not real or unw: o['status'] = 'undecided'
            else: o['status'] = 'failed'
        else:
            o['status'] = 'undecided'; o['detail'] = 'stopped: the search has a failing input' if stop and stop() else 'no result within the time limit'
        obs.append(o)
    if not obs:
        obs.append({'name': 'kani', 'by': 'kani (CBMC, CaDiCaL)', 'status': 'undecided', 'detail': 'no harness ran: ' + out[-1500:], 'checks': 1})
    k = 0
    for o in obs:
        if o['status'] == 'failed' and k < 2 and time.time() - t < timeout and not (stop and stop()):
            k += 1
            r = playback(o['name'].split(' ', 1)[1], env, work)
            if r: o['replay'] = r; break
    return {'obligations': obs, 'cmds': [' '.join(cmd[:9]) + ' --harness …'], 'wall': time.time() - t}
