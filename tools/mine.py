"""Literals of /repo's sources which are not in the committed baseline: the search tries them first."""
import json, os, re, sys, collections
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|r(#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'((?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\]))'|(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:[eE][+-]?\d+)?)(?:_?(?:[ui](?:8|16|32|64|128|size)|f32|f64))?''', re.S)

def strip_tests(s):
    k = s.find('#[cfg(test)]')
    return s if k < 0 else s[:k]

OPS = re.compile(r'(?<![\w.])((?:0x[0-9a-fA-F_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?:\s*(?:<<|\*|\+|-|\.pow\()\s*(?:0x[0-9a-fA-F_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?\)?)+)')
BOUND = re.compile(r'\b([ui])(8|16|32|64|128|size)::(MAX|MIN)\b')

def folded(s):
    """the values of arithmetic between literals, and of type bounds"""
    for m in OPS.finditer(s):
        e = re.sub(r'(?<=[0-9a-fA-F])_?[ui](?:8|16|32|64|128|size)\b', '', m[1]).replace('_', '').replace('.pow(', '**(')
        e = e.replace(')', '') if '(' not in e else e
        try:
            if len(e) < 60 and not re.search(r'\*\*\(\d{3,}|<<\s*\d{4,}', e): yield int(eval(re.sub(r'\b0+(?=\d)', '', e), {'__builtins__': {}}))
        except Exception: pass
    for m in BOUND.finditer(s):
        b = 64 if m[2] == 'size' else int(m[2])
        yield {'uMAX': 2 ** b - 1, 'uMIN': 0, 'iMAX': 2 ** (b - 1) - 1, 'iMIN': -2 ** (b - 1)}[m[1] + m[3]]

def lits(root):
    out = collections.Counter()
    for d, _, fs in sorted(os.walk(root)):
        if '/target' in d or '/src' not in d: continue
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            text = strip_tests(open(os.path.join(d, f), errors='replace').read())
            for v in folded(re.sub(r'//[^\n]*', '', text)): out['i%d' % v] += 1
            for m in TOK.finditer(text):
                t = m.group(0)
                if t.startswith('//') or t.startswith('/*'): continue
                if m.group(5):
                    n = m.group(5).replace('_', '')
                    try:
                        if n[:2] in ('0x', '0b', '0o'): out['i%d' % int(n, 0)] += 1
                        elif '.' in n or 'e' in n or 'E' in n: out['f' + n] += 1
                        else: out['i%d' % int(n)] += 1
                    except ValueError: pass
                    continue
                s = m.group(2) if m.group(2) is not None else (m.group(3) if m.group(3) is not None else m.group(4))
                if s is None: continue
                if m.group(2) is None:
                    s = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda x: chr(int(x[1].replace('_', ''), 16) % 0x110000), s)
                    s = re.sub(r'\\x([0-9a-fA-F]{2})', lambda x: chr(int(x[1], 16)), s)
                    s = re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(x[1], x[1]), s, flags=re.S)
                try: out['s' + json.dumps(s.encode('utf-8', 'replace').decode())] += 1
                except Exception: pass
                if m.group(4) and len(s) == 1: out['i%d' % ord(s)] += 1
    return out

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline_lits.json')
def fresh(root='/repo/crates'):
    base = collections.Counter(json.load(open(BASE)))
    return sorted((lits(root) - base).keys())

if __name__ == '__main__':
    if sys.argv[1:] == ['--baseline']:
        json.dump(dict(sorted(lits('/repo/crates').items())), open(BASE, 'w'), indent=0, ensure_ascii=True)
    else:
        print('\n'.join(fresh()))
