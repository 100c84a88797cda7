#!/usr/bin/env python3
"""One check: check.py <property>.  Exit 0: held; 1: VIOLATION line printed; 2: the check could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import mine, plan, kani_run, verus_run

HERE = os.path.dirname(os.path.abspath(__file__))
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2: TIER = sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def sh(cmd, timeout=None, **kw):
    """Runs a command; returns (rc or None on timeout, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out


class Search:
    """The bounded concrete search on the real code."""
    def __init__(self, pid, work):
        self.pid, self.work = pid, work
        self.crate = plan.PLAN[pid]['search']
        self.result = None; self.cases = 0; self.failure = None; self.error = None

    def env(self):
        e = dict(os.environ)
        e.update(RUSTFLAGS='-Awarnings', CARGO_TARGET_DIR=os.path.join(HERE, 'target', 'search_' + self.crate),
                 VERIF_SEED=str(SEED), SEARCH_LITS=self.lits, SEARCH_SCALE='6' if TIER == 'thorough' else '1',
                 SEARCH_DIR=os.path.join(self.work, 'scratch'))
        e.pop('SEARCH_TRACE', None)
        return e

    def run(self):
        try: self._run()
        except Exception as ex: self.error = 'search: %r' % ex

    def _run(self):
        self.lits = os.path.join(self.work, 'lits')
        with open(self.lits, 'w') as f: f.write('\n'.join(mine.fresh()) + '\n')
        os.makedirs(os.path.join(self.work, 'scratch'), exist_ok=True)
        d = os.path.join(HERE, 'search', self.crate)
        if self.crate == 'd':
            d = os.path.join(HERE, 'target', 'search_d_crate'); gen = os.path.join(HERE, 'search', 'd')
            rc, out = sh([sys.executable, os.path.join(gen, 'gen.py')], 60)
            if rc != 0: self.error = 'search crate could not be generated: ' + out[-2000:]; return
        rc, out = sh(['cargo', 'build', '--offline', '--quiet'], 400, cwd=d, env=self.env())
        if rc != 0:
            self.error = 'the search does not build: ' + out[-3000:]; return
        exe = os.path.join(self.env()['CARGO_TARGET_DIR'], 'debug', 'search_' + self.crate)
        pre = None; box = None
        if self.crate == 'd':
            # what the daemon does to files is contained: an unprivileged user with files of its own only
            box = tempfile.mkdtemp(prefix='souris-%s-' % self.pid)
            os.chmod(box, 0o755)
            for src, name in ((exe, 'search_d'), (self.lits, 'lits')):
                shutil.copy(src, os.path.join(box, name)); os.chmod(os.path.join(box, name), 0o755)
            exe = os.path.join(box, 'search_d'); os.makedirs(os.path.join(box, 'scratch'))
            def pre():
                try: os.setgroups([]); os.setgid(65534); os.setuid(65534)
                except OSError: pass
            os.chown(os.path.join(box, 'scratch'), 65534, 65534)
        try: self._go(exe, pre, box)
        finally:
            if box: shutil.rmtree(box, ignore_errors=True)

    def _go(self, exe, pre, box):
        kw = {'preexec_fn': pre} if pre else {}
        cwd = os.path.join(box, 'scratch') if box else self.work
        env0 = self.env()
        if box: env0.update(SEARCH_DIR=cwd, SEARCH_LITS=os.path.join(box, 'lits'), HOME=cwd, TMPDIR=cwd)
        lim = 'ulimit -v %d; exec ' % (2000000 if self.crate == 'db' else 8000000)
        base = 240 if TIER == 'quick' else 800
        cmd = ['bash', '-c', lim + '"$0" "$1"', exe, self.pid]
        rc, out = sh(cmd, base, cwd=cwd, env=env0, **kw)
        m = re.search(r'^DONE \w+ cases=(\d+)', out, re.M)
        if rc == 0 and m: self.cases = int(m[1]); self.samples = re.findall(r'^SAMPLE (.*)', out, re.M)[:5]; return
        m = re.search(r'^FAIL .*', out, re.M | re.S)
        if rc == 1 and m: self.failure = m[0]; return
        if rc == 3 or rc == 1: self.error = 'search: ' + out[-2000:]; return
        # it crashed, hung or ran out of memory: find the case
        trace = os.path.join(self.work, 'trace')
        if os.path.exists(trace): os.remove(trace)
        e = dict(env0); e['SEARCH_TRACE'] = trace
        rc2, out2 = sh(cmd, base, cwd=cwd, env=e, **kw)
        m = re.search(r'^FAIL .*', out2, re.M | re.S)
        if m: self.failure = m[0]; return
        if rc2 == 0: self.error = 'search ended with %s and then passed: %s' % (rc, out[-800:]); return
        what = open(trace, errors='replace').read()[:8000] if os.path.exists(trace) else ''
        if not what: self.error = 'search ended with %s: %s' % (rc, out[-800:]); return
        how = {4: 'it did not end within 60 s', None: 'it did not end'}.get(rc2, 'the process ended with status %s (%s)' % (rc2, 'stack overflow, abort or out of memory' if rc2 and rc2 < 0 or rc2 in (134, 139, 132, 137) else out2[-300:]))
        self.failure = 'FAIL %s / crash\ninput: %s\nresult: %s\n%s' % (self.pid, what, how, out2[-600:])


def main():
    pid = sys.argv[1]
    t0 = time.time()
    conf = plan.PLAN[pid]
    work = os.path.join(HERE, 'work', pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'replay', pid + '.txt')
    s = Search(pid, work)
    th = threading.Thread(target=s.run); th.start()

    obligations = []   # dict(name, by, status: proved|failed|undecided, detail, checks)
    trusted = list(conf.get('trusted', [])); functions = []; cmds = []
    if conf.get('verus'):
        r = verus_run.run(conf['verus'], os.path.join(work, 'verus'), TIER)
        obligations += r['obligations']; trusted += r['trusted']; functions += r['functions']; cmds += r['cmds']
    if conf.get('kani'):
        pats = conf['kani'] if TIER == 'quick' else conf.get('kani_thorough', conf['kani'])
        r = kani_run.run(pats, os.path.join(work, 'kani'), os.path.join(HERE, 'target', 'kani'), 400 if TIER == 'quick' else 7200, lambda: bool(s.failure))
        obligations += r['obligations']; functions += conf.get('kani_functions', []); cmds += r['cmds']
    th.join()

    # where a proof over the whole domain settles the property, a contract which is refused tells only that its proof has to be redone
    if conf.get('kani_settles') is not None:
        ks = [o for o in obligations if o['by'].startswith('kani')]
        if ks and all(o['status'] == 'proved' for o in ks):
            for o in obligations:
                if o['status'] == 'failed' and o['name'].startswith('verus ') and re.search(conf['kani_settles'], o['name']):
                    o['status'] = 'undecided'; o['detail'] = 'refused, while the proof over the whole domain holds: ' + o['detail']
    failed = [o for o in obligations if o['status'] == 'failed']
    undec = [o for o in obligations if o['status'] == 'undecided']
    proved = [o for o in obligations if o['status'] == 'proved']
    lines = []
    known = plan.known(pid)
    for k in known: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k))
    rc = 0
    if s.failure:
        with open(replay, 'w') as f:
            f.write('property %s is broken on the real code by this input (bounded search, seed %d).\n' % (pid, SEED))
            f.write('re-run: cd /verif && VERIF_SEED=%d python3 check.py %s\n\n%s\n' % (SEED, pid, s.failure))
            for o in failed: f.write('\nfailed obligation: %s (%s)\n%s\n' % (o['name'], o['by'], o['detail']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay)); rc = 1
    elif failed:
        conc = None
        for o in failed:
            if o.get('replay'):
                conc = o; break
        with open(replay, 'w') as f:
            if conc: f.write('the counterexample of %s fails on the real code:\n%s\n\n' % (conc['name'], conc['replay']))
            else: f.write('no failing input was found; these obligations, generated from /repo\'s current source, are refused by the prover:\n')
            for o in failed: f.write('\nfailed obligation: %s (%s)\n%s\n' % (o['name'], o['by'], o['detail']))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if conc else ' no-failing-input-found')); rc = 1
    elif s.error:
        # nothing ran on the real code: no answer, unless everything was proved without it
        print(s.error, file=sys.stderr)
        if undec or not proved: rc = 2

    n_ob = len(obligations)
    nchecks = sum(o.get('checks', 1) for o in obligations)
    npchecks = sum(o.get('checks', 1) for o in proved)
    level = conf['level']
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'wall_s': round(time.time() - t0, 1), 'violations': 1 if rc == 1 else 0,
          'assumptions': sorted(set(trusted)) + conf.get('assumptions', [])}
    cov = {'search': {'what': 'bounded: concrete inputs run on the real code, beside the proof and never counted as proved', 'evaluations': s.cases, 'error': s.error or ''}}
    if obligations:
        cov.update(obligations=nchecks, discharged=npchecks, checker_cmd=' ; '.join(cmds) or 'none', trusted_base=sorted(set(trusted)) or ['the verifier, its solver, rustc'],
                   contracts=n_ob, contracts_proved=len(proved), functions_under_contract=sorted(set(functions)),
                   solver_seconds=round(sum(o.get('secs', 0) for o in obligations), 1),
                   by_back_end={b: {'proved': sum(1 for o in proved if o['by'] == b), 'of': sum(1 for o in obligations if o['by'] == b)} for b in sorted({o['by'] for o in obligations})},
                   undecided=[{'name': o['name'], 'why': o['detail'][:400]} for o in undec], failed=[o['name'] for o in failed])
    if level == 'exploration':
        cov.update(evaluations=s.cases, distinct_nontrivial=s.cases, rule=conf.get('rule', 'every case is a different generated input'), samples=getattr(s, 'samples', None) or ['seed %d, %d cases' % (SEED, s.cases)])
    if conf.get('bounded'): cov['bounded'] = conf['bounded']
    ev['coverage'] = cov
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d of %d contracts proved (%d checks), %d undecided, %d failed; search %d cases; %.0f s' % (pid, TIER, len(proved), n_ob, npchecks, len(undec), len(failed), s.cases, time.time() - t0))
    for o in undec: print('undecided: %s: %s' % (o['name'], o['detail'][:200].replace('\n', ' ')))
    if s.failure: print(s.failure[:600])
    for l in lines: print(l)
    sys.stdout.flush()
    sys.exit(rc)


main()
