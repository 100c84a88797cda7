"""Extracts the functions under contract from /repo's current source and runs Verus over them."""
import json, os, re, subprocess, sys, time, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERUS_REPO', '/repo')
CON = os.path.join(HERE, 'contracts')
BY = 'Verus (Z3)'


class Unit:
    """One contract file turned into one module of the Verus crate."""
    def __init__(self, name, scope=None):
        self.name = name
        self.parts = extract.parse(os.path.join(CON, name + '.vrs'))
        if scope:
            # what the property is about, narrower than everything
            n = 0
            for i, q in enumerate(self.parts):
                if q[0] == 'text':
                    new, k = re.subn(r'(spec fn asked\([^\n]*\) -> bool) \{ true \}', lambda m: '%s { %s }' % (m[1], scope), q[1])
                    if k: self.parts[i] = ('text', new); n += k
            assert n == 1, 'no scope to narrow in ' + name
        self.srcs = {}

    def src(self, p):
        if p not in self.srcs: self.srcs[p] = extract.Src(os.path.join(REPO, p))
        return self.srcs[p]

    def fns(self):
        return [d for k, *r in self.parts if k == 'fn' for d in r]


def fid(unit, d):
    if not d['id'] and d['path'] != '-':
        c = d['path'].split(' :: ')[-1]
        m = re.match(r"impl\s*(<.*?>)?\s+(?=[A-Za-z])(.*)$", c)
        t = m[2] if m else c
        if ' for ' in t: t = '<%s as %s>' % tuple(reversed(t.split(' for ', 1)))
        return '%s::%s::%s' % (unit.name, t, d['as'] or d['name'])
    return d['id'] or '%s::%s' % (unit.name, (d['path'].split(' for ')[-1].strip() + '::' if d['path'] != '-' else '') + (d['as'] or d['name']))


def build(units, outside, info):
    """The text of the crate and a line map.  outside: ids of functions whose body is left out."""
    out = []
    spans = []   # (first line, last line, kind, id)
    def add(t):
        out.extend(l for l in t.split('\n') if not l.startswith('//!'))
    add('#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, unused_must_use, unused_doc_comments, non_camel_case_types)]')
    add('#![verifier::allow(undeclared_external_trait)]')
    add('#![feature(allocator_api)]') if False else None
    add('extern crate alloc;')
    add('use vstd::prelude::*;')
    for u in units:
        add('pub mod %s {' % u.name)
        add('use vstd::prelude::*;')
        add('verus! {')
        for part in u.parts:
            if part[0] == 'text':
                a = len(out) + 1; add(part[1]); spans.append((a, len(out), 'text', u.name))
            elif part[0] == 'item':
                a = len(out) + 1
                try: add(extract.item(u.src(part[1]), part[2], part[3]))
                except (extract.Lost, FileNotFoundError) as e:
                    info['items_lost'].append('%s: %s' % (part[3], e))
                spans.append((a, len(out), 'item', '%s::%s' % (u.name, part[3])))
            else:
                d = part[1]; i = fid(u, d)
                a = len(out) + 1
                try:
                    if d['lost']: raise extract.Lost(d['lost'])
                    f = extract.Fn(u.src(d['src']), d['path'], d['name'])
                    sig, body = extract.apply(f, d)
                    info['sigs'][i] = sig
                    if d['misfit']: info['misfit'][i] = '; '.join(d['misfit'])
                except (extract.Lost, FileNotFoundError) as e:
                    info['lost'][i] = str(e)
                    sig = info['basesigs'].get(i)
                    if sig is None:
                        spans.append((a, a, 'fn', i)); continue
                    body = None
                if i in outside: body = None
                if d['attrs']: add(d['attrs'].rstrip('\n'))
                if body is None: add('#[verifier::external_body]')
                add(('' if d['nopub'] else 'pub ') + sig)
                if d['contract'].strip(): add(d['contract'].rstrip('\n'))
                b0 = len(out) + 1
                add(body if body is not None else '{ unimplemented!() }')
                spans.append((a, len(out), 'fn', i))
        add('} // verus!')
        add('}')
    add('fn main() {}')
    return '\n'.join(out) + '\n', spans


FAILS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic underflow/overflow',
         'possible division by zero', 'decreases not satisfied', 'could not prove termination', 'possible bit shift underflow/overflow', 'requirement not met', 'assertion not satisfied',
         'loop invariant not satisfied', 'unreachable', 'cannot show', 'failed this postcondition', 'recommendation not met', 'may overflow', 'assert_by', 'possible')
LIMIT = ('Resource limit (rlimit) exceeded', 'timed out', 'canceled', 'incomplete')


def verus(text, path, args, timeout):
    with open(path, 'w') as f: f.write(text)
    cmd = ['verus', path, '--error-format=json', '--output-json', '--time-expanded', '--num-threads', '8', '--multiple-errors', '4'] + args
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, cwd=os.path.dirname(path))
    try: so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate(); return None, None, cmd
    try: js = json.loads(so)
    except ValueError: js = {}
    ds = []
    for l in se.split('\n'):
        l = l.strip()
        if not l.startswith('{'):
            if l: ds.append({'level': 'note', 'message': l, 'spans': [], 'children': []})
            continue
        try: ds.append(json.loads(l))
        except ValueError: pass
    return js, ds, cmd


def all_spans(d):
    out = [(s['line_start'], s['is_primary'], s.get('label') or '') for s in d.get('spans', [])]
    for c in d.get('children', []): out += all_spans(c)
    return out


def safety(msg):
    """whether a refused obligation is about a panic, an overflow or termination"""
    first = msg.split('\n')[0]
    if 'precondition not satisfied' in first: return not re.search(r'lemma_|axiom_', msg)
    return bool(re.search(r'overflow|division by zero|decreases|termination', first))


def deps_of(units):
    """the units a list of units needs (//@needs lines)"""
    names = []
    def go(n):
        if n in names: return
        t = open(os.path.join(CON, n + '.vrs')).read()
        for m in re.findall(r'^//! needs (.*)$', t, re.M):
            for x in m.split(): go(x)
        names.append(n)
    for u in units: go(u)
    return names


def run(want, work, tier='quick', timeout=None, vacuity=None):
    # want: units, or a unit and a pattern for the functions which matter to the property, and 'safety' when only
    # panics, overflows, indices out of range and endless loops matter
    want = [(w, '', '', '') if isinstance(w, str) else (tuple(w) + ('', ''))[:4] for w in want]
    # ('support': what a property rests on, without every failure there breaking it), and a narrower scope.
    # The first entry of a unit which a function fits decides.
    scopes = {}; rules = {}
    for n, pat, kind, scope in want:
        rules.setdefault(n, []).append((pat, kind))
        if scope: scopes[n] = scope
    units = list(rules)
    def kind_of(u, i):
        for pat, kind in rules[u]:
            if re.search(pat, i): return kind
        return None
    os.makedirs(work, exist_ok=True)
    base = os.path.join(CON, 'signatures.json')
    info = {'lost': {}, 'misfit': {}, 'items_lost': [], 'sigs': {}, 'basesigs': json.load(open(base)) if os.path.exists(base) else {}}
    names = deps_of(units)
    us = [Unit(n, scopes.get(n)) for n in names]
    for u in us:
        for d in u.fns():
            d['lost'] = ''
            if vacuity and u.name in units: d[vacuity] = [d[vacuity][0] + 'proof { assert(false); }' if d[vacuity] else 'proof { assert(false); }']
    outside = {}     # id -> why
    path = os.path.join(work, 'all.rs')
    args = []
    if set(names) != set(units):
        for n in units: args += ['--verify-module', n]
    t0 = time.time()
    res = None
    budget = timeout or (420 if tier == 'quick' else 3000)
    hard = ''
    for attempt in range(25):
        info['lost'] = {}; info['misfit'] = {}; info['items_lost'] = []
        text, spans = build(us, outside, info)
        a = list(args) + (['--rlimit', '60'] if tier == 'thorough' else ['--rlimit', '30'])
        js, ds, cmd = verus(text, path, a, max(30, budget - (time.time() - t0)))
        if js is None: hard = 'Verus did not end within %d s' % budget; ds = []; js = {}; break
        errs = [d for d in ds if d.get('level') == 'error' and d.get('spans')]
        compile_bad = {}
        nolines = [d for d in ds if d.get('level') == 'error' and not d.get('spans') and 'aborting due to' not in d['message']]
        vr = js.get('verification-results', {})
        encountered = vr.get('encountered-vir-error', False) or not vr or 'verified' not in vr
        other = [d for d in errs if not any(m in d['message'] for m in FAILS + LIMIT)]
        if not encountered and not other: res = (js, ds); break
        for d in errs:
            if d not in other: continue
            for ln, prim, _ in all_spans(d):
                for lo, hi, k, i in spans:
                    if lo <= ln <= hi and k == 'fn' and i not in outside: compile_bad.setdefault(i, (d['message'][:300] + '\n' + (d.get('rendered') or '')[:1200]))
        if not compile_bad:
            hard = 'the extracted crate is refused: ' + ' | '.join(d['message'][:200] + ' @' + str([s[0] for s in all_spans(d)][:2]) for d in (errs + nolines)[:3]); break
        for i, m in compile_bad.items(): outside[i] = 'outside of what Verus takes in: ' + m
    obs = []; functions = []
    fails = {}
    limits = {}
    secs = {}
    accepted = {}     # (module, function name) -> how many functions of that name the verifier itself lists as accepted
    if res:
        js, ds = res
        for d in ds:
            if d.get('level') != 'error' or not d.get('spans'): continue
            sp = all_spans(d)
            hit = None
            order = [s for s in sp if s[1]] + [s for s in sp if not s[1]]
            own = []
            for ln, prim, lab in order:
                for lo, hi, k, i in spans:
                    if lo <= ln <= hi: own.append((k, i, ln, prim))
            cand = [o for o in own if o[3]] or own
            # the failing function is where the primary span lies; a postcondition's primary span can be its clause
            tgt = cand[0] if cand else None
            if 'precondition not satisfied' in d['message']:
                tgt = (cand or [None])[0]
            if tgt is None: hard = hard or d['message']; continue
            key = tgt[1]
            msg = d['message'] + '\n' + (d.get('rendered') or '')[:1500]
            if any(x in d['message'] for x in LIMIT): limits.setdefault(key, msg)
            else: fails.setdefault(key, []).append(msg)
        for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                secs[f['function'].split('::', 1)[-1]] = f.get('time', 0) / 1000.0
                if f.get('success'): k = (m['module'], f['function'].replace('r#', '').split('::')[-1]); accepted[k] = accepted.get(k, 0) + 1
        crash = [d['message'] for d in ds if 'panicked' in d.get('message', '') or 'internal error' in d.get('message', '')]
        if crash: res = None; hard = 'Verus broke off: ' + crash[0]
    verified = js.get('verification-results', {}).get('verified', 0) if js else 0
    trusted = []
    for u in us:
        if u.name not in units: continue
        for d in u.fns():
            i = fid(u, d)
            kind = kind_of(u.name, i)
            if kind is None: continue
            functions.append('%s (%s)' % (i, d['src']))
            o = {'name': 'verus ' + i, 'by': BY, 'checks': 1, 'secs': 0, 'detail': ''}
            if i in info['lost']: o['status'] = 'undecided'; o['detail'] = 'the contract no longer fits the source: ' + info['lost'][i]
            elif i in outside: o['status'] = 'undecided'; o['detail'] = outside[i]
            elif i in info['misfit'] and (i in fails or i in limits): o['status'] = 'undecided'; o['detail'] = 'the contract no longer fits the source: ' + info['misfit'][i]
            elif hard and not res: o['status'] = 'undecided'; o['detail'] = hard
            elif i in fails and (kind == '' or kind == 'safety' and any(safety(m) for m in fails[i])): o['status'] = 'failed'; o['detail'] = '\n'.join(fails[i])
            elif i in fails: o['status'] = 'undecided'; o['detail'] = ('refused, though not for a panic, an overflow or an endless loop: ' if kind == 'safety' else 'a function this rests on is refused: ') + fails[i][0]
            elif i in limits: o['status'] = 'undecided'; o['detail'] = limits[i]
            elif accepted.get((u.name, d['as'] or d['name']), 0) <= 0: o['status'] = 'undecided'; o['detail'] = 'the verifier does not list it as accepted'
            else: o['status'] = 'proved'; accepted[(u.name, d['as'] or d['name'])] -= 1
            obs.append(o)
        # the lemmas written in the contract file itself
        o = {'name': 'verus lemmas of %s' % u.name, 'by': BY, 'checks': 1, 'secs': 0, 'detail': ''}
        if hard and not res: o['status'] = 'undecided'; o['detail'] = hard
        elif u.name in fails or u.name in limits: o['status'] = 'undecided'; o['detail'] = '\n'.join(fails.get(u.name, [])) or limits.get(u.name)
        else: o['status'] = 'proved'
        obs.append(o)
    for u in us:
        for k, *r in u.parts:
            if k == 'text':
                for m in re.finditer(r'^[^/\n]*(?:assume_specification|external_body|external_type_specification|external_trait_specification|uninterp|axiom fn|\badmit\(|\bassume\()[^\n]*', r[0], re.M):
                    l = m[0].strip()
                    more = [x.strip() for x in r[0][m.end():m.end() + 800].split('\n') if x.strip()]
                    if re.fullmatch(r'(#\[[^\]]*\]\s*)+', l):
                        while more and re.fullmatch(r'(#\[[^\]]*\]\s*)+', more[0]): more.pop(0)
                        l = ' '.join([l] + more[:1])
                    trusted.append('%s: %s' % (u.name, l[:160]))
        if u.name in units or True:
            seen = set()
            for d in u.fns():
                for st in d['always'] + ([('mutself',)] if d['mutself'] else []):
                    if st in seen: continue
                    seen.add(st)
                    trusted.append('rewrite throughout %s: ' % u.name + {'rw': lambda: '`%s` => `%s` -- %s' % st[1:], 'guard': lambda: 'the guard of `%s` is held to the end of its block (ghost variable set and cleared there)' % st[1],
                        'format': lambda: 'format! is written out as concatenation', 'pattern': lambda: 'patterns of parameters become let statements', 'collect': lambda: 'iterators which are mapped and collected become loops (in which what comes after the first None or Err is made too, and dropped)', 'mutself': lambda: '&self becomes &mut self (what is inside of the mutex, the cache and the disk is made part of it)'}[st[0]]())
                for a, b, why in d['reasons']:
                    trusted.append('rewrite in %s: `%s` => `%s`%s' % (fid(u, d), a, b, (' -- ' + why) if why else ''))
    if info['items_lost']:
        obs.append({'name': 'verus items', 'by': BY, 'checks': 1, 'secs': 0, 'status': 'undecided', 'detail': '; '.join(info['items_lost'])})
    tot = js.get('times-ms', {}).get('total', 0) / 1000.0 if js else 0
    if obs: obs[0]['secs'] = (js.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000.0) if js else 0
    if obs and verified and not any(p for r in rules.values() for p, _ in r): obs[0]['checks'] = max(1, verified - len(obs) + 1)
    return {'obligations': obs, 'trusted': trusted, 'functions': functions, 'cmds': ['verus work/…/all.rs ' + ' '.join(args)], 'verified': verified, 'info': info, 'secs': time.time() - t0}


if __name__ == '__main__':
    us = [a for a in sys.argv[1:] if not a.startswith('-')]
    us = [tuple(a.split('=')[0:1]) + ('', '', a.split('=', 1)[1]) if '=' in a else a for a in us]
    if '--vacuity' in sys.argv:
        # dev: `assert(false)` at the start and at the end of each function must fail
        for where in ('entry', 'exit'):
            r = run(us, '/tmp/verus_work_vac', 'quick', vacuity=where)
            print(where, 'vacuous:', [o['name'] for o in r['obligations'] if o['status'] == 'proved' and 'lemmas of' not in o['name']], 'undecided:', [o['name'] for o in r['obligations'] if o['status'] == 'undecided'])
        sys.exit()
    r = run(us, '/tmp/verus_work_%s' % (us[0] if isinstance(us[0], str) else us[0][0]), 'quick')
    if '--sigs' in sys.argv:
        base = os.path.join(CON, 'signatures.json')
        s = json.load(open(base)) if os.path.exists(base) else {}
        s.update(r['info']['sigs']); json.dump(s, open(base, 'w'), indent=0, sort_keys=True)
    seen = set()
    for o in r['obligations']:
        d = o['detail'][:1800]
        if d in seen: d = '"'
        seen.add(d)
        if o['status'] != 'proved' or '-v' in sys.argv: print(o['status'], o['name'], d)
    print('%d of %d proved, verified %s, %.1f s' % (sum(o['status'] == 'proved' for o in r['obligations']), len(r['obligations']), r['verified'], r['secs']))
