"""Literals of the crate's source: those that the tree has more often than the tree the contracts were
written against steer the concrete search (sizes, counts, numbers, texts near them are tried more often).
They decide nothing by themselves."""
import glob, json, os, re
from collections import Counter
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = HERE + '/contracts/literals.json'
RX = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)".*?"\1|(?P<s>b?"(?:[^"\\]|\\.)*")|(?P<c>b?'(?:[^'\\\n]|\\(?:x..|u\{[0-9a-fA-F_]+\}|.))')|(?P<m>\b[iu](?:8|16|32|64|128|size)::(?:MAX|MIN|BITS)\b)|(?P<n>(?<![\w.])\d[\w]*(?:\.\d\w*)?)''', re.S)

def collect(root):
    c = Counter()
    for p in sorted(glob.glob(root + '/src/**/*.rs', recursive=True)):
        t = open(p, encoding='utf-8', errors='replace').read()
        t = re.split(r'^#\[cfg\(test\)\]', t, flags=re.M)[0]
        for m in RX.finditer(t):
            for k in 'scmn':
                if m.group(k): c[k + m.group(k)] += 1
    return c

def unescape(s):
    s = re.sub(r'\\\n\s*', '', s)
    f = lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1)) or (chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == 'x' else chr(int(m.group(1)[2:-1].replace('_', ''), 16)) if m.group(1)[0] == 'u' else m.group(1))
    return re.sub(r'\\(x..|u\{[^}]*\}|.)', f, s)

def hints(root):
    """new literals as numbers and texts"""
    try: base = Counter(json.load(open(BASE)))
    except Exception: return [], []
    new = [k for k, v in collect(root).items() if v > base.get(k, 0)]
    ns, ss = set(), set()
    for k in new:
        k, v = k[0], k[1:]
        try:
            if k == 'n':
                v = re.sub(r'(?<=[0-9a-fA-F_])(?:[iu](?:8|16|32|64|128|size)|f32|f64)$', '', v).replace('_', '')
                ns.add(int(float(v)) if '.' in v else int(v, 0) if v[:2] in ('0x', '0b', '0o') else int(v))
            elif k == 'm':
                t, w = v.split('::'); b = 64 if t[1:] == 'size' else int(t[1:])
                ns.add(b if w == 'BITS' else 0 if w == 'MIN' else 2 ** (b - (t[0] == 'i')) - 1)
            elif k == 's':
                t = unescape(v[v.index('"') + 1:-1]); 
                if t and len(t) < 200: ss.add(t)
            else:
                t = unescape(v[v.index("'") + 1:-1]); ss.add(t); ns.add(ord(t[0]))
        except Exception: pass
    ns = sorted(n for n in ns if 0 <= n < 1 << 64)[:40]
    more = set(ns)
    for a in ns:
        if a < 32: more.add(1 << a)
        for b in ns:
            if b < 30 and a << b < 1 << 26: more.add(a << b)
            if a * b < 1 << 26: more.add(a * b)
    return sorted(more)[:200], sorted(ss)[:60]

if __name__ == '__main__':
    json.dump(dict(sorted(collect('/repo').items())), open(BASE, 'w'), indent=0, ensure_ascii=False)
