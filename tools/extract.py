"""Mechanical extraction of functions from /repo into Verus text.

A contract file (contracts/*.vrs) is Verus text with directives:

  //@src PATH                              the source file (below /repo) for what follows
  //@item  CONTAINER | struct NAME [nobounds] [A=>B]    the item, with attributes and comments dropped and everything made pub (and the name A written B)
  //@fn    CONTAINER | NAME [as NEW] [ret R] [sig `TEXT`]
      CONTRACT                             (requires / ensures / decreases), inserted after the signature
  //@loop K                                clauses for the K-th loop of the body (in source order)
      CLAUSES
  //@into K | //@endof K                   ghost text at the start / end of the K-th loop's body
  //@entry | //@exit                       ghost text at the start of the body / before the last expression
  //@tail                                ghost text after the last expression, which is given the name out_
  //@before `TEXT` | //@after `TEXT`       ghost text at the statement which contains / after the tokens TEXT
  //@rw `A` => `B`  -- reason              replaces every occurrence of the tokens A in the body (and signature); $x in A stands for any balanced tokens
  //@always `A` => `B` -- reason           (outside of functions) the same for every function which follows, where A occurs
  //@guard `A` => `B` after `T` end `T` brief `C`    (outside) the lock A: see guards()
  //@collects                            (outside) iterators which are mapped and collected become loops: see collects()
  //@formats, //@patterns                  (outside) format!s and patterns of parameters are written out
  //@mutself                               &self becomes &mut self (interior mutability made explicit)
  //@lift KW NAME                        the nested item (fn, enum, const …) is left out here: it is extracted on its own
  //@end

CONTAINER: `-` (the file itself), an impl header such as `impl Bits`, `impl Trait for X`, `trait T`, `fn f` for nested
functions, `macro NAME($t=u8,$f=add)` for the body of a macro_rules arm with the given metavariables replaced; several are joined by ` :: `.

Everything executable in the emitted function is the token sequence of the source, apart from the listed rewrites."""
import os, re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?)?\w*)
 |(?P<id>\$?[A-Za-z_]\w*)
 |(?P<p>::|<==>|==>|=~=|->|=>|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|<<|.)
''', re.X | re.S)


class Lost(Exception):
    pass


class Tok:
    __slots__ = ('s', 'a', 'b', 'k')
    def __init__(self, s, a, b, k): self.s, self.a, self.b, self.k = s, a, b, k
    def __repr__(self): return self.s


def lex(t):
    out, i = [], 0
    while i < len(t):
        m = TOK.match(t, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'raw'
        if k == 'bc':
            d, j = 1, i + 2
            while d and j < len(t):
                if t.startswith('/*', j): d += 1; j += 2
                elif t.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        if k not in ('ws', 'lc'): out.append(Tok(m.group(), m.start(), m.end(), k))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


def match(ts, i):
    """index of the bracket closing ts[i]"""
    d = 0
    for j in range(i, len(ts)):
        if ts[j].s in OPEN: d += 1
        elif ts[j].s in CLOSE:
            d -= 1
            if d == 0: return j
    raise Lost('unbalanced brackets')


def norm(s): return ' '.join(x.s for x in lex(s))


def find_seq(ts, seq, lo=0, hi=None):
    n = len(seq); hi = len(ts) if hi is None else hi
    return [i for i in range(lo, hi - n + 1) if all(ts[i + j].s == seq[j].s for j in range(n))]


class Src:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.toks = lex(self.text)


def drop_test_mods(ts):
    """token ranges of #[cfg(test)] items"""
    out = []
    i = 0
    while i < len(ts):
        if ts[i].s == '#' and i + 1 < len(ts) and ts[i + 1].s == '[':
            e = match(ts, i + 1)
            if norm_toks(ts[i + 2:e]) == 'cfg ( test )':
                j = e + 1
                while j < len(ts) and ts[j].s not in ('{', ';'): j = match(ts, j) + 1 if ts[j].s in OPEN else j + 1
                j = match(ts, j) if j < len(ts) and ts[j].s == '{' else j
                out.append((i, j)); i = j
        i += 1
    return out


def norm_toks(ts): return ' '.join(x.s for x in ts)


def containers(ts, lo, hi, want):
    """the (lo, hi) token ranges inside of ts[lo:hi] of the blocks described by want"""
    res = []
    want = want.strip()
    if want == '-': return [(lo, hi)]
    m = re.match(r'macro (\w+)\((.*)\)$', want)
    if m: raise Lost('macro containers are expanded elsewhere')
    if want.startswith('fn '):
        name = want[3:].strip()
        for i in range(lo, hi - 1):
            if ts[i].s == 'fn' and ts[i + 1].s == name:
                j = i
                while ts[j].s != '{': j = match(ts, j) + 1 if ts[j].s in '([' else j + 1
                res.append((j + 1, match(ts, j)))
        return res
    w = norm(want)
    kw = w.split()[0]
    depth_ok = kw
    i = lo
    while i < hi:
        if ts[i].s == depth_ok:
            j = i
            while j < hi and ts[j].s not in ('{', ';'): j = match(ts, j) + 1 if ts[j].s in '([' else j + 1
            if j < hi and ts[j].s == '{':
                h = norm_toks(ts[i:j])
                h2 = h.split(' where ')[0]
                if h == w or h2 == w: res.append((j + 1, match(ts, j)))
                i = match(ts, j) + 1; continue
            i = j
        i += 1
    return res


def expand_macro(ts, lo, hi, want):
    m = re.match(r'macro (\w+)\((.*)\)$', want.strip())
    name, args = m[1], dict(a.strip().split('=', 1) for a in m[2].split(',') if a.strip())
    for i in range(lo, hi - 3):
        if ts[i].s == 'macro_rules' and ts[i + 1].s == '!' and ts[i + 2].s == name:
            b = i + 3; e = match(ts, b)
            k = b + 1
            e1 = match(ts, k)            # the pattern
            assert ts[e1 + 1].s == '=>'
            body = ts[e1 + 3:match(ts, e1 + 2)]
            # one level of $( ... ) sep rep is opened
            out, q = [], 0
            while q < len(body):
                t = body[q]
                if t.s == '$' and q + 1 < len(body) and body[q + 1].s == '(':
                    e2 = match(body, q + 1)
                    inner = body[q + 2:e2]
                    q = e2 + 1
                    while q < len(body) and body[q].s not in ('+', '*'): q += 1
                    q += 1
                    out += inner; continue
                out.append(t); q += 1
            txt = ' '.join(args.get(t.s, t.s) for t in out)
            txt = txt.replace(': :', '::')
            return lex(txt), txt
    raise Lost('no macro %s' % name)


def locate(src, path):
    """token list, text, and candidate ranges for a container path"""
    ts, text = src.toks, src.text
    skip = drop_test_mods(ts)
    keep = []
    last = 0
    for a, b in skip: keep += ts[last:a]; last = b + 1
    ts = keep + ts[last:]
    rs = [(0, len(ts))]
    for part in path.split(' :: '):
        part = part.strip()
        if part.startswith('macro '):
            ts, text = expand_macro(ts, rs[0][0], rs[0][1], part); rs = [(0, len(ts))]; continue
        was = rs
        rs = [r for (lo, hi) in rs for r in containers(ts, lo, hi, part)]
        if not rs and re.match(r'impl (PartialEq|Hash) for \w+$', part):
            text = derived(ts, was, part); ts = lex(text); rs = [(0, len(ts))]
        if not rs: raise Lost('not found: %s' % part)
    return ts, text, rs


def derived(ts, rs, part):
    """what #[derive] writes for this impl, when the type asks for it"""
    _, trait, _, name = part.split()
    for lo, hi in rs:
        for i in range(lo, hi - 1):
            if ts[i].s not in ('enum', 'struct') or ts[i + 1].s != name: continue
            k, attrs = i, []
            if ts[k - 1].s == 'pub': k -= 1
            while k > lo and ts[k - 1].s == ']':
                a = rmatch(ts, k - 1)
                if ts[a - 1].s != '#': break
                attrs.append(ts[a + 1:k - 1]); k = a - 1
            if not any(a and a[0].s == 'derive' and trait in [t.s for t in a] for a in attrs): continue
            j = i + 2
            if ts[j].s not in ('{', '('): raise Lost('a derive for a generic %s' % name)
            def split(a, b):
                out, cur, d = [], [], 0
                while a < b:
                    if ts[a].s == '#' and ts[a + 1].s == '[': a = match(ts, a + 1) + 1; continue
                    if ts[a].s == '<': d += 1
                    if ts[a].s == '>': d -= 1
                    if ts[a].s in OPEN:
                        e = match(ts, a); cur += ts[a:e + 1]; a = e + 1; continue
                    if ts[a].s == ',' and d == 0: out.append(cur); cur = []
                    else: cur.append(ts[a])
                    a += 1
                return out + ([cur] if cur else [])
            def names(kind, parts):
                if kind == '(': return [str(n) for n in range(len(parts))]
                r = []
                for q in parts:
                    r.append([t.s for n, t in enumerate(q) if t.k == 'id' and t.s not in ('pub', 'crate') and n + 1 < len(q) and q[n + 1].s == ':'][0])
                return r
            eq = trait == 'PartialEq'
            if ts[i].s == 'struct':
                fs = names(ts[j].s, split(j + 1, match(ts, j)))
                b = ' && '.join('self.%s.eq(&other.%s)' % (f, f) for f in fs) or 'true' if eq else ' '.join('self.%s.hash(state);' % f for f in fs)
            else:
                arms = []
                bare = True
                for v in split(j + 1, match(ts, j)):
                    vn = v[0].s
                    at = next((n for n, t in enumerate(ts) if t is v[0]), None)
                    if len(v) > 1 and v[1].s in ('{', '('):
                        bare = False
                        fs = names(v[1].s, split(at + 2, match(ts, at + 1)))
                        if v[1].s == '(': pat = lambda p: '%s::%s(%s)' % (name, vn, ', '.join(p + f for f in fs))
                        else: pat = lambda p: '%s::%s { %s }' % (name, vn, ', '.join('%s: %s%s' % (f, p, f) for f in fs))
                        if eq: arms.append('(%s, %s) => %s,' % (pat('a_'), pat('b_'), ' && '.join('a_%s.eq(b_%s)' % (f, f) for f in fs) or 'true'))
                        else: arms.append('%s => { %s }' % (pat('a_'), ' '.join('a_%s.hash(state);' % f for f in fs)))
                    elif eq: arms.append('(%s::%s, %s::%s) => true,' % (name, vn, name, vn))
                    else: arms.append('%s::%s => {}' % (name, vn))
                if eq: b = 'match (self, other) { %s _ => false }' % ' '.join(arms)
                else: b = 'core::mem::discriminant(self).hash(state);' + ('' if bare else ' match self { %s }' % ' '.join(arms))
            return 'fn eq(&self, other: &Self) -> bool { %s }' % b if eq else 'fn hash<H: Hasher>(&self, state: &mut H) { %s }' % b
    raise Lost('%s is neither written nor derived' % part)


class Fn:
    """One function of the source: sig tokens, body tokens."""
    def __init__(self, src, path, name):
        ts, text, rs = locate(src, path)
        self.text = text
        found = []
        for lo, hi in rs:
            i = lo
            while i < hi - 1:
                if ts[i].s == 'fn' and ts[i + 1].s == name:
                    j = i
                    while ts[j].s not in ('{', ';'): j = match(ts, j) + 1 if ts[j].s in '([' else j + 1
                    if ts[j].s == '{': found.append((i, j, match(ts, j)))
                    i = j
                if ts[i].s == '{': i = match(ts, i)
                i += 1
        if not found: raise Lost('no function %s in %s' % (name, path))
        if len(found) > 1: raise Lost('several functions %s in %s' % (name, path))
        i, j, e = found[0]
        self.const = i > 0 and ts[i - 1].s == 'const'
        self.isasync = i > 0 and ts[i - 1].s == 'async'
        self.sig = ts[i:j]
        self.body = ts[j:e + 1]


def emit(ts, base=None):
    """tokens as text, keeping the source's line structure"""
    out = []
    prev = None
    for t in ts:
        if prev is not None:
            if t.a < 0 or t.a != prev.b: out.append(' ')
        out.append(t.s); prev = t
    return ''.join(out)


# ---- applying a contract to a function ---------------------------------------------------------

def split_sig(sig):
    """(before params, params tokens, return tokens, where tokens)"""
    k = 2
    if sig[k].s == '<':
        d = 0
        while True:
            if sig[k].s == '<': d += 1
            elif sig[k].s == '>':
                d -= 1
                if d == 0: k += 1; break
            elif sig[k].s == '->': pass
            elif sig[k].s == '>>': d -= 2
            k += 1
            if d == 0: break
    assert sig[k].s == '(', norm_toks(sig)
    e = match(sig, k)
    rest = sig[e + 1:]
    ret, wh = [], []
    if rest and rest[0].s == '->':
        d = 0
        for q, t in enumerate(rest[1:], 1):
            if t.s == 'where' : wh = rest[q:]; break
            ret.append(t)
    elif rest and rest[0].s == 'where': wh = rest
    return sig[:k], sig[k:e + 1], ret, wh


def loops(body):
    """indices (keyword, open brace, close brace) of the loops of a body, in source order"""
    out = []
    for i, t in enumerate(body):
        if t.s in ('while', 'loop', 'for') and t.k == 'id':
            if t.s == 'for' and i + 1 < len(body) and body[i + 1].s == '<': continue
            j = i + 1
            while body[j].s != '{': j = match(body, j) + 1 if body[j].s in '([' else j + 1
            out.append((i, j, match(body, j)))
    return out


class G:
    """a piece of ghost text as a token"""
    def __init__(self, s): self.s = s; self.a = self.b = -1; self.k = 'ghost'


def stmt_start(body, i):
    """index of the first token of the statement containing token i"""
    j = i
    while j > 0:
        p = body[j - 1]
        if p.k == 'ghost': return j
        if p.s in CLOSE and p.s != '}': j = rmatch(body, j - 1); continue
        if p.s in (';', '{', '}') or p.s in OPEN: return j
        if p.s == '=>': return j
        j -= 1
    return j


def rmatch(ts, i):
    d = 0
    for j in range(i, -1, -1):
        if ts[j].s in CLOSE: d += 1
        elif ts[j].s in OPEN:
            d -= 1
            if d == 0: return j
    raise Lost('unbalanced')


def stmt_end(body, i):
    """index after the statement containing token i"""
    j = i
    while j < len(body):
        if body[j].s in OPEN: j = match(body, j) + 1; continue
        if body[j].s == ';': return j + 1
        if body[j].s in CLOSE: return j
        j += 1
    return j


def last_stmt(body):
    """index of the first token of the last statement or expression of a body { ... }"""
    i = 1
    while True:
        blocky = body[i].s in ('if', 'match', 'while', 'loop', 'for', 'unsafe', '{')
        j = i; e = None
        while j < len(body) - 1:
            t = body[j]
            if t.s in OPEN and t.k != 'ghost':
                c = match(body, j)
                if blocky and t.s == '{' and body[c + 1].s not in ('else', '.', '?', '==', '&&', '||'): e = c + 1; break
                j = c + 1; continue
            if t.s == ';': e = j + 1; break
            j += 1
        if e is None or e >= len(body) - 1: return i
        i = e


def capture(ts, i, sa, k, env):
    """matches the pattern tokens sa[k:] at ts[i:]; $x stands for balanced tokens without a ; outside of brackets"""
    while k < len(sa):
        if sa[k].s[0] == '$' and len(sa[k].s) > 1:
            name, j = sa[k].s, i
            if name in env:
                v = env[name]
                if [t.s for t in ts[i:i + len(v)]] != [t.s for t in v]: return None
                i += len(v); k += 1; continue
            while True:
                e2 = dict(env); e2[name] = ts[i:j]
                if j > i or name.endswith('_'):
                    r = capture(ts, j, sa, k + 1, e2)
                    if r is not None: return r
                if j >= len(ts) or ts[j].s in CLOSE or ts[j].s == ';' or ts[j].k == 'ghost': return None
                j = match(ts, j) + 1 if ts[j].s in OPEN else j + 1
        if i >= len(ts) or ts[i].s != sa[k].s: return None
        i += 1; k += 1
    return i, env


def replace_seq(ts, a, b):
    sa = lex(a)
    sb = lex(b) if b.strip() else []
    out, i, n = [], 0, 0
    while i < len(ts):
        r = capture(ts, i, sa, 0, {}) if ts[i].s == sa[0].s else None
        if r is not None:
            e, env = r
            rep = []
            for x in sb:
                if x.s in env: rep += replace_seq(env[x.s], a, b)[0]
                else: rep.append(G2(x.s))
            out += rep; i = e; n += 1
        else: out.append(ts[i]); i += 1
    return out, n


def formats(ts):
    """format!("..{x}..{}..", y) becomes what it stands for: texts put together"""
    out, i, n = [], 0, 0
    while i < len(ts):
        if ts[i].s == 'format' and i + 4 < len(ts) and ts[i + 1].s == '!' and ts[i + 2].s == '(' and ts[i + 3].k == 'str' and ts[i + 4].s in (')', ','):
            end = match(ts, i + 2); args = []; j = i + 4; cur = []
            while j < end:
                if ts[j].s == ',': args.append(cur); cur = []; j += 1; continue
                e = match(ts, j) + 1 if ts[j].s in OPEN else j + 1
                cur += ts[j:e]; j = e
            args = [emit(a) for a in args + [cur] if a]
            parts = re.split(r'(\{\w*\})', ts[i + 3].s[1:-1])
            if all(re.match(r'\{([A-Za-z_]\w*)?\}$', x) or not re.search(r'[{}\\]', x) for x in parts) and parts.count('{}') == len(args):
                e = None; args = iter(args)
                for x in parts:
                    if not x: continue
                    t = '(%s).as_text()' % next(args) if x == '{}' else '%s.as_text()' % x[1:-1] if x[0] == '{' else '"%s".as_text()' % x
                    e = t if e is None else 'text_cat(%s, %s)' % (e, t)
                out += [G2(x.s) for x in lex(e or '"".as_text()')]; i = end + 1; n += 1; continue
        out.append(ts[i]); i += 1
    return out, n


def collects(ts):
    """X.into_iter().map(|p| E).collect() becomes a for loop over X.into_list() (X.iter(): X.ref_list()) which puts the results together:
    into a vector, or a map when the results are pairs; into an Option or a Result of one when it is collected as that (the results
    after the first None or Err are then made too, and dropped)."""
    while True:
        h = None
        for i in find_seq(ts, lex('. collect')):
            if ts[i - 1].s != ')': continue
            m = rmatch(ts, i - 1)
            if ts[m - 1].s == 'map' and ts[m - 2].s == '.' and ts[m - 3].s == ')' and ts[m - 4].s == '(' and ts[m - 5].s in ('iter', 'into_iter') and ts[m - 6].s == '.': h = (i, m); break
        if h is None: return ts
        i, m = h
        e = i + 2; typ = []
        if ts[e].s == '::':
            d = 0; q = e + 1
            while True:
                if ts[q].s == '<': d += 1
                elif ts[q].s == '>': d -= 1
                elif ts[q].s == '>>': d -= 2
                typ.append(ts[q].s); q += 1
                if d <= 0: break
            e = q
        if ts[e].s != '(' or ts[e + 1].s != ')': raise Lost('a collect with arguments')
        e += 2
        refs = ts[m - 5].s == 'iter'
        r = m - 6; a = r
        while a > 0:
            t = ts[a - 1]
            if t.s in (')', ']'): a = rmatch(ts, a - 1); continue
            if t.k in ('id', 'num') and t.s not in ('return', 'in', 'match', 'if', 'else') or t.s in ('.', '::'): a -= 1; continue
            break
        recv = ts[a:r]
        clo = ts[m + 1:i - 1]
        if clo[0].s == '|':
            q = 1
            while clo[q].s != '|': q = match(clo, q) + 1 if clo[q].s in OPEN else q + 1
            pat, body = clo[1:q], clo[q + 1:]
        else: pat, body = [G2('x_')], clo + [G2('('), G2('x_'), G2(')')]
        if body[0].s == '{': raise Lost('a collected block')
        kind = 'opt' if 'Option' in typ[:2] else 'res' if 'Result' in typ[:2] else 'plain'
        y, put = [G2('y_')], [G2('y_')]
        if kind != 'plain' and body[-1].s == ')':
            q = rmatch(body, len(body) - 1)
            if body[q - 1].s == 'map' and body[q - 2].s == '.' and body[q + 1].s == '|':
                w = q + 2
                while body[w].s != '|': w = match(body, w) + 1 if body[w].s in OPEN else w + 1
                y, put, body = body[q + 2:w], body[w + 1:-1], body[:q - 2]
        ctx = ts[a - 2].s if a > 1 and ts[a - 1].s == '(' else ''
        tx = ' '.join(typ)
        pairs = put[0].s == '(' and match(put, 0) == len(put) - 1 and any(t.s == ',' for t in put)
        def lx(x): return [G2(t.s) for t in lex(x)]
        if pairs or 'Map' in tx:
            new = 'SJMap::new()' if 'SJMap' in tx or ctx == 'Object' else 'HashMap::new()'
            add = lx('{ let pair_ = ') + put + lx('; got_.insert(pair_.0, pair_.1); }')
        else:
            new = 'Vec::new()'
            add = lx('{ got_.push(') + put + lx('); }')
        out = lx('{ let mut got_ = %s; ' % new)
        if kind == 'opt': out += lx('let mut all_ = true;')
        if kind == 'res': out += lx('let mut bad_ = None;')
        out += [G2('for')] + pat + [G2('in')] + recv + lx('.ref_list()' if refs else '.into_list()') + [G2('{')]
        if kind == 'plain': out += lx('let y_ = ') + body + [G2(';')] + add
        elif kind == 'opt': out += [G2('match')] + body + lx('{ Some(') + y + lx(') =>') + add + lx('None => { all_ = false; } }')
        else: out += [G2('match')] + body + lx('{ Ok(') + y + lx(') =>') + add + lx('Err(e_) => { if bad_.is_none() { bad_ = Some(e_); } } }')
        out += lx('}') + lx({'plain': 'got_ }', 'opt': 'if all_ { Some(got_) } else { None } }', 'res': 'match bad_ { None => Ok(got_), Some(e_) => Err(e_) } }'}[kind])
        ts = ts[:a] + out + ts[e:]


def guards(body, pat, repl, after, end, brief):
    """A lock's guard, bound by a let, is held to the end of the block it is in (or until it is dropped); any other is held to the end of its statement.
    pat becomes repl for the former, with the ghost text `after` after the let and `end` where it is released; it becomes `brief` for the latter."""
    sq = lex(pat)
    while True:
        hits = find_seq(body, sq)
        if not hits: return body
        h = hits[0]; e = h + len(sq)
        k = h - 1; name = None
        if body[e].s == ';' and body[k].s == '=':
            j = k - 1
            while j > 0 and body[j].s not in (';', '{', '}', 'let'): j -= 1
            if body[j].s == 'let':
                nm = [t.s for t in body[j + 1:k] if t.s != 'mut']
                if nm and (len(nm) == 1 or nm[1] == ':') and re.match(r'[a-z]\w*$', nm[0]): name = nm[0]
        if name is None or name == '_':
            body = body[:h] + [G2(x.s) for x in lex(brief)] + body[e:]; continue
        rep = [G2(x.s) for x in lex(repl)]
        tail = [G2(x.s) for x in lex(after.replace('$g', name))]
        body = body[:h] + rep + [body[e]] + tail + body[e + 1:]
        at = h + len(rep) + 1 + len(tail)
        drops = find_seq(body, lex('drop(%s);' % name), at)
        for d in reversed(drops): body = body[:d] + [G2(x.s) for x in lex('let gone_ = %s; %s' % (name, end))] + body[d + 5:]
        # the enclosing block
        d, o = 0, h
        while True:
            o -= 1
            if body[o].s in CLOSE: d += 1
            elif body[o].s in OPEN:
                if d == 0: break
                d -= 1
        if o > 0 and body[o].s == '{':
            c = match(body, o)
            blocky = body[o - 1].s in (';', '{', '}')
            q = c + 1 if blocky and body[c + 1].s not in ('.', '?') else stmt_end(body, c + 1) if body[c].s != ';' else c + 1
            if body[q - 1].s == ';' or (blocky and q == c + 1): body = body[:q] + [G2(x.s) for x in lex(end)] + body[q:]


def param_patterns(params, body):
    """patterns of parameters become let statements"""
    out, cur, d, lets, n = [], [], 0, [], 0
    def close():
        nonlocal n
        k = 0; dd = 0
        while k < len(cur) and not (cur[k].s == ':' and dd == 0):
            if cur[k].s in OPEN: dd += 1
            elif cur[k].s in CLOSE: dd -= 1
            k += 1
        pt = cur[:k]
        if k < len(cur) and any(t.s in OPEN for t in pt):
            nm = G2('arg%d' % n)
            lets.extend([G2('let')] + pt + [G2('='), nm, G2(';')])
            out.extend([nm] + cur[k:])
        else: out.extend(cur)
        n += 1
    ang = 0
    for t in params[1:-1]:
        if t.s in OPEN: d += 1
        elif t.s in CLOSE: d -= 1
        elif t.s == '<' and d == 0: ang += 1
        elif t.s == '>' and d == 0: ang -= 1
        if t.s == ',' and d == 0 and ang == 0: close(); out.append(t); cur = []; continue
        cur.append(t)
    if cur: close()
    if not lets: return params, body
    return [params[0]] + out + [params[-1]], [body[0]] + lets + body[1:]


class G2(Tok):
    def __init__(self, s):
        Tok.__init__(self, s, -1, -1, 'id' if re.match(r'[A-Za-z_]', s) else 'p')


def render(ts, indent=''):
    """one statement per line, so that messages point at one place"""
    out, line, depth = [], '', 0
    prev = None
    tight_after = {'(', '[', '.', '!', '&', '::', '#', '..', '?'}
    for t in ts:
        if t.k == 'ghost':
            if line.strip(): out.append(line); line = ''
            out.append(t.s.rstrip('\n')); prev = None; continue
        if prev is not None:
            adj = (t.a == prev.b and t.a >= 0)
            if not adj: line += ' '
        line += t.s
        prev = t
        if t.s in ('{', ';', '}', ','):
            if len(line) > 60 or t.s in ('{', ';'):
                out.append(line); line = ''; prev = None
    if line.strip(): out.append(line)
    return '\n'.join(out)


def lift(body, kw, name):
    """the body without a nested item (which is extracted on its own)"""
    for i in range(1, len(body) - 1):
        if body[i].s == kw and body[i + 1].s == name:
            j = i
            while body[j].s not in ('{', ';'): j = match(body, j) + 1 if body[j].s in '([' else j + 1
            e = match(body, j) if body[j].s == '{' else j
            while i >= 1 and body[i - 1].s in ('const', 'pub', 'async', 'unsafe'): i -= 1
            while body[i - 1].s == ']':
                b = rmatch(body, i - 1)
                if body[b - 1].s != '#': break
                i = b - 1
            return body[:i] + body[e + 1:]
    raise Lost('no nested %s %s' % (kw, name))


def statements(ts):
    """the statements of the tokens of a block"""
    out, i = [], 0
    while i < len(ts):
        blocky = ts[i].s in ('if', 'match', 'while', 'loop', 'for', 'unsafe', '{')
        j = i
        while j < len(ts):
            if ts[j].s in OPEN:
                c = match(ts, j); b = ts[j].s == '{'; j = c + 1
                if blocky and b and (j >= len(ts) or ts[j].s not in ('else', '.', '?', '==', '&&', '||', ';')) and not (ts[i].s == 'match' and c == i): break
                continue
            j += 1
            if ts[j - 1].s == ';': break
        out.append(ts[i:j]); i = j
    return out


def block_at(ts, i):
    """the index of the { which opens the block of an if, while or match at i (struct literals are not allowed there)"""
    while i < len(ts) and ts[i].s != '{': i = match(ts, i) + 1 if ts[i].s in OPEN else i + 1
    return i


def has_continue(ts):
    """a continue which is about the loop whose body ts is part of"""
    i = 0
    while i < len(ts):
        if ts[i].s in ('while', 'loop', 'for') and ts[i].k == 'id':
            b = block_at(ts, i)
            if b < len(ts): i = match(ts, b) + 1; continue
        if ts[i].s == 'continue': return True
        i += 1
    return False


def ends_with_continue(ts):
    st = statements(ts)
    return bool(st) and [t.s for t in st[-1]] in (['continue'], ['continue', ';'])


def brace(ts): return [G2('{')] + ts + [G2('}')]


def no_continue(ts):
    """the tokens of a loop's body, or of a part at its end, without continue: what follows is put into the branches which go on"""
    st = statements(ts)
    for k, s in enumerate(st):
        if not has_continue(s): continue
        done = [t for x in st[:k] for t in x]; rest = [t for x in st[k + 1:] for t in x]
        if s[0].s == 'continue': return done
        if s[0].s == 'if':
            b = block_at(s, 0); c = match(s, b); then = s[b + 1:c]; tail = s[c + 1:]
            if tail and tail[-1].s == ';': tail = tail[:-1]
            if not tail: other = []
            elif tail[0].s == 'else' and tail[1].s == '{' and match(tail, 1) == len(tail) - 1: other = tail[2:-1]
            elif tail[0].s == 'else' and tail[1].s == 'if': other = tail[1:]
            else: raise Lost('a continue in a for loop')
            def go(x):
                if not has_continue(x): return x + ([G2(';')] if x and rest and x[-1].s not in (';', '}') else []) + no_continue(rest)
                return no_continue(x + ([G2(';')] if rest and x and x[-1].s not in (';', '}') else []) + rest)
            return done + s[:b] + brace(go(then)) + [G2('else')] + brace(go(other))
        if s[0].s == 'let':
            for e in range(len(s)):
                if s[e].s == 'else' and s[e + 1].s == '{' and match(s, e + 1) == len(s) - 2 and s[-1].s == ';' and ends_with_continue(s[e + 2:-2]) and s[e - 1].s != '}':
                    return done + [G2('if')] + s[:e] + brace(no_continue(rest)) + [G2('else')] + brace(no_continue(s[e + 2:-2]))
        if s[0].s == 'match' and not rest:
            b = block_at(s, 0); c = match(s, b); arms = s[b + 1:c]; out = []; i = 0
            if s[c + 1:] and [t.s for t in s[c + 1:]] != [';']: raise Lost('a continue in a for loop')
            while i < len(arms):
                j = i
                while arms[j].s != '=>': j = match(arms, j) + 1 if arms[j].s in OPEN else j + 1
                if arms[j + 1].s == '{': e = match(arms, j + 1); bd = arms[j + 2:e]; e += 1
                else:
                    e = j + 1
                    while e < len(arms) and arms[e].s != ',': e = match(arms, e) + 1 if arms[e].s in OPEN else e + 1
                    bd = arms[j + 1:e]
                if e < len(arms) and arms[e].s == ',': e += 1
                out += arms[i:j + 1] + brace(no_continue(bd) if has_continue(bd) else bd); i = e
            return done + s[:b] + brace(out)
        if s[0].s == '{' and not rest: return done + brace(no_continue(s[1:-1]))
        raise Lost('a continue in a for loop')
    return ts


def continues(body):
    """for loops without continue (which Verus does not take in)"""
    for i, o, c in reversed(loops(body)):
        if body[i].s == 'for' and has_continue(body[o + 1:c]):
            body = body[:o + 1] + no_continue(body[o + 1:c]) + body[c:]
    return body


def apply(fn, d):
    """the Verus text of a function under the contract d (a dict made by parse)"""
    sig, body = list(fn.sig), list(fn.body)
    for kw, name in d['lift']: body = lift(body, kw, name)
    for step in d['always']:
        if step[0] == 'guard': body = guards(body, *step[1:])
        elif step[0] == 'format': body, _ = formats(body)
        elif step[0] == 'collect': body = collects(body)
        elif step[0] == 'pattern':
            h0, p0, _, _ = split_sig(sig)
            p1, body = param_patterns(p0, body)
            sig = h0 + p1 + sig[len(h0) + len(p0):]
        else: body, _ = replace_seq(body, step[1], step[2]); sig = sig[:2] + replace_seq(sig[2:], step[1], step[2])[0]
    if d['mutself']: 
        q = find_seq(sig, lex('&self'))
        if not q: raise Lost('no &self')
        sig = sig[:q[0] + 1] + [G2('mut')] + sig[q[0] + 1:]
    d['misfit'] = []   # rewrites and ghost text which find no place: what can be proved without them is proved, but a failure then says nothing
    for a, b, opt in d['rw_pre']:
        body, n = replace_seq(body, a, b)
        sig, n2 = replace_seq(sig, a, b)
        if n + n2 == 0 and not opt: d['misfit'].append('the text to rewrite is gone: %s' % a)
    body = continues(body)
    head, params, ret, wh = split_sig(sig)
    if d['sig']:
        sigtext = d['sig']
    else:
        head = [G2(x.s) if x.k == 'ghost' else x for x in head]
        if d['as']: head[1] = G2(d['as'])
        sigtext = emit(head) + emit(params) + (' -> (%s: %s)' % (d['ret'], emit(ret)) if ret else '') + ((' ' + emit(wh)) if wh else '')
    if d['tail']:
        # the last expression, if there is one, is given a name
        if body[-2].s == ';' or not ret: body = body[:-1] + [G(d['tail'][0]), body[-1]]
        else:
            j = last_stmt(body)
            body = body[:j] + [G2('let'), G2('out_'), G2('=')] + body[j:-1] + [G2(';'), G(d['tail'][0]), G2('out_'), body[-1]]
    # anchors are found in the rewritten body, ghost text goes in afterwards (from the back)
    ins = []   # (index, order, text)
    ls = loops(body)
    if d['nloops'] is not None and len(ls) != d['nloops']: d['misfit'].append('%d loops instead of %d' % (len(ls), d['nloops']))
    for k, txt in d['loop'].items():
        if k >= len(ls): d['misfit'].append('loop %d is gone' % k); continue
        ins.append((ls[k][1], 0, txt))
    for k, name in d['iter']:
        if k >= len(ls): d['misfit'].append('loop %d is gone' % k); continue
        a, b, _ = ls[k]
        j = a + 1
        while body[j].s != 'in' and j < b: j = match(body, j) + 1 if body[j].s in OPEN else j + 1
        if body[a].s != 'for' or j >= b: d['misfit'].append('loop %d is not a for loop' % k); continue
        ins.append((j + 1, 0, ' ' + name + ': '))
    for k, txt in d['into']:
        if k >= len(ls): d['misfit'].append('loop %d is gone' % k); continue
        ins.append((ls[k][1] + 1, 0, txt))
    for k, txt in d['endof']:
        if k >= len(ls): d['misfit'].append('loop %d is gone' % k); continue
        ins.append((ls[k][2], 0, txt))
    for txt in d['entry']: ins.append((1, 0, txt))
    for txt in d['exit']:
        j = len(body) - 1
        ins.append((len(body) - 1 if body[-2].s == ';' else last_stmt(body), 1, txt))
    for where, anchor, nth, txt in d['at']:
        sq = lex(anchor)
        hits = find_seq(body, sq)
        if not hits or (nth is None and len(hits) > 1) or (nth is not None and nth >= len(hits)):
            d['misfit'].append('anchor %s: `%s`' % ('gone' if not hits else 'ambiguous', anchor)); continue
        h = hits[nth or 0]
        if where == 'before': ins.append((stmt_start(body, h), 1, txt))
        elif where == 'here': ins.append((h + len(sq), 1, txt))
        else: ins.append((stmt_end(body, h if sq[-1].s in CLOSE else h + len(sq) - 1), 1, txt))
    for i, o, txt in sorted(ins, key=lambda x: (-x[0],)):
        body = body[:i] + [G(txt)] + body[i:]
    return sigtext, render(body)


def item(src, path, what):
    ts, text, rs = locate(src, path)
    kw, name, *opts = what.split()
    for lo, hi in rs:
        i = lo
        while i < hi - 1:
            if ts[i].s == kw and ts[i + 1].s == name:
                j = i
                while ts[j].s not in ('{', ';'): j = match(ts, j) + 1 if ts[j].s in '([' else j + 1
                e = match(ts, j) if ts[j].s == '{' else j
                out = []
                k = i
                fields = kw == 'struct'
                d = 0
                body = []
                while k <= e:
                    t = ts[k]
                    if t.s == '#' and ts[k + 1].s == '[': k = match(ts, k + 1) + 1; continue
                    if t.s == 'pub':
                        k += 1
                        if ts[k].s == '(' and ts[k+1].s in ('crate', 'super'): k = match(ts, k) + 1
                        continue
                    body.append(t)
                    if fields and t.s in ('{', ',', '(') and (k < e):
                        q = k + 1
                        while ts[q].s == '#' : q = match(ts, q + 1) + 1
                        top = sum(1 for x in body if x.s in '{(') - sum(1 for x in body if x.s in '})') == 1
                        ang = sum(1 for x in body if x.s == '<') - sum(1 for x in body if x.s == '>')
                        if top and ang == 0 and ts[q].s not in ('}', ')') and not (t.s == '(' and ts[k-1].k != 'id'): body.append(G2('pub'))
                    k += 1
                if 'nobounds' in opts and body[2].s == '<':
                    # the bounds of the type's parameters are dropped
                    g = 3
                    while body[g].s != '>':
                        if body[g].s == ':':
                            while body[g].s not in (',', '>'): del body[g]
                        else: g += 1
                if kw in ('const', 'static'): body, _ = replace_seq(body, '&str', "&'static str")
                for o in opts:
                    m = re.match(r'(\w+)=>(\w+)$', o)
                    if m: body = [G2(m[2]) if t.s == m[1] else t for t in body]
                return 'pub ' + emit(body)
            if ts[i].s == '{': i = match(ts, i)
            i += 1
    raise Lost('no %s in %s' % (what, path))


# ---- contract files -----------------------------------------------------------------------------

BT = r'`([^`]*)`'

def enumerate_each(lines):
    """numbered lines, with //@each a=1,b=2 | a=3,b=4 … //@endeach blocks repeated (${a} is replaced)"""
    rows = None; block = []
    for n, l in enumerate(lines, 1):
        s = l.strip()
        if s.startswith('//@each '):
            rows = [dict((a, b or c) for a, b, c in re.findall(r'(\w+)=(?:\{(.*?)\}(?= |$)|([^\s,]+))', r)) for r in s[8:].split('|')]; block = []; continue
        if s == '//@endeach':
            for r in rows:
                for k, b in block: yield k, re.sub(r'\$\{(\w+)\}', lambda m: r[m[1]], b)
            rows = None; continue
        if rows is None: yield n, l
        else: block.append((n, l))


def parse(path):
    """a contract file as a list of ('text', str) | ('item', ...) | ('fn', dict)"""
    out, cur, tgt, srcp = [], None, None, None
    always = []
    buf = []
    def flush():
        nonlocal buf
        if buf: out.append(('text', '\n'.join(buf)))
        buf = []
    for n, l in enumerate_each(open(path).read().split('\n')):
        s = l.strip()
        if not s.startswith('//@'):
            if cur is None: buf.append(l)
            elif tgt is not None: tgt[0] += l + '\n'
            elif s: raise SystemExit('%s:%d: stray text' % (path, n))
            continue
        m = re.match(r'//@src (\S+)$', s)
        if m: flush(); srcp = m[1]; continue
        m = re.match(r'//@item (.*?) \| (.*)$', s)
        if m: flush(); out.append(('item', srcp, m[1], m[2])); continue
        m = re.match(r'//@fn (.*?) \| (\w+)(.*)$', s)
        if m:
            flush()
            opts = m[3]
            cur = dict(lift=[], src=srcp, path=m[1].strip(), name=m[2], rw_pre=[], loop={}, iter=[], into=[], endof=[], entry=[], exit=[], tail=[], at=[], contract=[''], attrs='', nloops=None, always=list(always), mutself=False,
                       ret=(re.search(r' ret (\w+)', opts) or [0, 'r'])[1], sig=(re.search(r' sig ' + BT, opts) or [0, None])[1],
                       line=n, file=path, props=(re.search(r' props (\S+)', opts) or [0, ''])[1], reasons=[])
            cur['as'] = (re.search(r' as (\w+)', opts) or [0, None])[1]
            cur['nopub'] = ' nopub' in opts
            cur['id'] = (re.search(r' id (\S+)', opts) or [0, None])[1]
            tgt = cur['contract']; continue
        if cur is None:
            m = re.match(r'//@always ' + BT + r' => ' + BT + r'\s*(?:--\s*(.*))?$', s)
            if m: always.append(('rw', m[1], m[2], m[3] or '')); continue
            m = re.match(r'//@guard ' + BT + r' => ' + BT + r' after ' + BT + r' end ' + BT + r' brief ' + BT + '$', s)
            if m: always.append(('guard', m[1], m[2], m[3], m[4], m[5])); continue
            if s in ('//@formats', '//@patterns', '//@collects'): always.append((s[3:-1],)); continue
            raise SystemExit('%s:%d: %s' % (path, n, s))
        if s == '//@mutself': cur['mutself'] = True; tgt = None; continue
        if s == '//@end':
            for k in list(cur['loop']): cur['loop'][k] = cur['loop'][k][0]
            for key in ('into', 'endof'): cur[key] = [(k, b[0]) for k, b in cur[key]]
            for key in ('entry', 'exit', 'tail'): cur[key] = [b[0] for b in cur[key]]
            cur['at'] = [(w, a, nth, b[0]) for w, a, nth, b in cur['at']]
            cur['contract'] = cur['contract'][0]
            out.append(('fn', cur)); cur = None; tgt = None; continue
        m = re.match(r'//@loop (\d+)$', s)
        if m: tgt = ['']; cur['loop'][int(m[1])] = tgt; continue
        m = re.match(r'//@iter (\d+) (\w+)$', s)
        if m: cur['iter'].append((int(m[1]), m[2])); tgt = None; continue
        m = re.match(r'//@loops (\d+)$', s)
        if m: cur['nloops'] = int(m[1]); tgt = None; continue
        m = re.match(r'//@(into|endof) (\d+)$', s)
        if m: tgt = ['']; cur[m[1]].append((int(m[2]), tgt)); continue
        m = re.match(r'//@(entry|exit|tail)$', s)
        if m: tgt = ['']; cur[m[1]].append(tgt); continue
        m = re.match(r'//@(before|after|here) ' + BT + r'(?: #(\d+))?$', s)
        if m: tgt = ['']; cur['at'].append((m[1], m[2], int(m[3]) if m[3] else None, tgt)); continue
        m = re.match(r'//@rw(\??) ' + BT + r' => ' + BT + r'\s*(?:--\s*(.*))?$', s)
        if m: cur['rw_pre'].append((m[2], m[3], m[1] == '?')); cur['reasons'].append((m[2], m[3], m[4] or '')); tgt = None; continue
        m = re.match(r'//@lift (\w+) (\w+)$', s)
        if m: cur['lift'].append((m[1], m[2])); tgt = None; continue
        m = re.match(r'//@attr (.*)$', s)
        if m: cur['attrs'] += m[1] + '\n'; tgt = None; continue
        raise SystemExit('%s:%d: %s' % (path, n, s))
    flush()
    return out
