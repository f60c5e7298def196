"""JavaScript regular expressions as minimal automata over UTF-16 code units (the language of strings on which test() is true)."""
from ir import AnalysisError

MAXC = 0xFFFF
D = [(48, 57)]; W = [(48, 57), (65, 90), (95, 95), (97, 122)]
S = [(9, 13), (32, 32), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000), (0xfeff, 0xfeff)]
NL = [(10, 10), (13, 13), (0x2028, 0x2029)]

def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return out
def inv(iv):
    out = []; p = 0
    for a, b in norm(iv):
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= MAXC: out.append((p, MAXC))
    return out
def fold(iv):
    out = list(iv)
    for a, b in iv:
        if b - a > 4000: continue
        for c in range(a, b + 1):
            ch = chr(c) if not 0xd800 <= c <= 0xdfff else 'x'
            for x in (ch.lower(), ch.upper()):
                if len(x) == 1 and ord(x) <= MAXC: out.append((ord(x), ord(x)))
    return norm(out)

class P:
    """pattern -> syntax: ('set', ranges) ('cat', ..) ('alt', ..) ('rep', x, lo, hi) ('bol',) ('eol',) ('grp', x)"""
    def __init__(self, src, flags):
        self.s = src; self.i = 0; self.ic = 'i' in flags; self.dot = inv([]) if 's' in flags else inv(NL)
        if 'm' in flags and ('^' in src or '$' in src): raise AnalysisError('regular expression with m flag: /%s/' % src)
        if 'u' in flags or 'v' in flags:
            if any(ord(c) > 0xd7ff for c in src) or '\\p' in src: raise AnalysisError('regular expression with u flag')
    def peek(self): return self.s[self.i] if self.i < len(self.s) else ''
    def alt(self):
        xs = [self.cat()]
        while self.peek() == '|': self.i += 1; xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt',) + tuple(xs)
    def cat(self):
        xs = []
        while self.peek() not in ('', '|', ')'): xs.append(self.rep())
        return ('cat',) + tuple(xs)
    def rep(self):
        a = self.atom()
        while True:
            c = self.peek()
            if c == '*': lo, hi = 0, None; self.i += 1
            elif c == '+': lo, hi = 1, None; self.i += 1
            elif c == '?': lo, hi = 0, 1; self.i += 1
            elif c == '{':
                j = self.s.index('}', self.i); t = self.s[self.i + 1:j]; self.i = j + 1
                if ',' in t:
                    x, y = t.split(','); lo = int(x); hi = int(y) if y else None
                else: lo = hi = int(t)
            else: return a
            if self.peek() == '?': self.i += 1      # lazy: the language is the same
            a = ('rep', a, lo, hi)
    def st(self, iv): return ('set', tuple(fold(iv) if self.ic else norm(iv)))
    def esc(self, cls):
        c = self.s[self.i]; self.i += 1
        if c in 'dDwWsS':
            b = {'d': D, 'w': W, 's': S}[c.lower()]; return b if c.islower() else inv(b)
        m = {'r': 13, 'n': 10, 't': 9, 'f': 12, 'v': 11}
        if c in m: return [(m[c],) * 2]
        if c == '0' and not self.peek().isdigit(): return [(0, 0)]
        if c == 'x': v = int(self.s[self.i:self.i + 2], 16); self.i += 2; return [(v, v)]
        if c == 'u' and self.peek() != '{': v = int(self.s[self.i:self.i + 4], 16); self.i += 4; return [(v, v)]
        if c == 'c': v = ord(self.s[self.i]) & 31; self.i += 1; return [(v, v)]
        if c == 'b' and cls: return [(8, 8)]
        if c.isalnum(): raise AnalysisError('regular expression escape \\%s not modelled' % c)
        return [(ord(c), ord(c))]
    def atom(self):
        c = self.s[self.i]; self.i += 1
        if c == '^': return ('bol',)
        if c == '$': return ('eol',)
        if c == '.': return self.st(self.dot)
        if c == '(':
            cap = True
            if self.s.startswith('?:', self.i): self.i += 2; cap = False
            elif self.s.startswith('?<', self.i) and self.s[self.i + 2] not in '=!': self.i = self.s.index('>', self.i) + 1
            elif self.peek() == '?': raise AnalysisError('regular expression group not modelled in /%s/' % self.s)
            x = self.alt(); self.i += 1
            return ('grp', x) if cap else x
        if c == '\\': return self.st(self.esc(False))
        if c == '[':
            neg = self.peek() == '^'
            if neg: self.i += 1
            iv = []
            while self.peek() != ']':
                a = self.one()
                if self.peek() == '-' and self.s[self.i + 1] != ']' and len(a) == 1 and a[0][0] == a[0][1]:
                    self.i += 1; b = self.one(); a = [(a[0][0], b[0][1])]
                iv += a
            self.i += 1
            if self.ic: iv = fold(norm(iv))
            return ('set', tuple(inv(iv) if neg else norm(iv)))
        return self.st([(ord(c), ord(c))])
    def one(self):
        c = self.s[self.i]; self.i += 1
        return self.esc(True) if c == '\\' else [(ord(c), ord(c))]

_pc = {}
def parse(src, flags=''):
    k = (src, flags)
    if k not in _pc:
        p = P(src, flags); t = p.alt()
        if p.i != len(src): raise AnalysisError('cannot parse /%s/' % src)
        _pc[k] = t
    return _pc[k]
def charset(src, flags=''):
    """ranges when the expression matches exactly one character out of a set (or runs of such characters)"""
    t = parse(src, flags)
    def one(t):
        if t[0] == 'set': return list(t[1])
        if t[0] in ('cat', 'grp') and len(t) == 2: return one(t[1])
        if t[0] == 'alt':
            xs = [one(x) for x in t[1:]]
            return None if None in xs else [r for x in xs for r in x]
        if t[0] == 'rep' and t[2] == 1: return one(t[1])
        return None
    r = one(t)
    return None if r is None else tuple(norm(r))
def groups(t):
    if t[0] == 'grp': return 1 + groups(t[1])
    if t[0] in ('cat', 'alt'): return sum(groups(x) for x in t[1:])
    return groups(t[1]) if t[0] == 'rep' else 0
def nullable(t):
    if t[0] in ('bol', 'eol'): return True
    if t[0] == 'set': return False
    if t[0] == 'grp': return nullable(t[1])
    if t[0] == 'cat': return all(nullable(x) for x in t[1:])
    if t[0] == 'alt': return any(nullable(x) for x in t[1:])
    return t[2] == 0 or nullable(t[1])

_dc = {}
def dfa(src, flags=''):
    """canonical (accepting states, transitions, interval starts) of the strings in which the expression is found"""
    flags = ''.join(f for f in flags if f in 'isumv')
    k = (src, flags)
    if k in _dc: return _dc[k]
    t = parse(src, flags)
    eps = []; tr = []; bol = []; eol = []
    def new(): eps.append([]); tr.append([]); return len(eps) - 1
    def build(t, a):
        """adds t after state a, returns its end state"""
        if t[0] == 'set':
            b = new(); tr[a].append((t[1], b)); return b
        if t[0] == 'bol': b = new(); bol.append((a, b)); return b
        if t[0] == 'eol': b = new(); eol.append((a, b)); return b
        if t[0] == 'grp': return build(t[1], a)
        if t[0] == 'cat':
            for x in t[1:]: a = build(x, a)
            return a
        if t[0] == 'alt':
            e = new()
            for x in t[1:]:
                s = new(); eps[a].append(s); eps[build(x, s)].append(e)
            return e
        _, x, lo, hi = t
        for _ in range(lo): a = build(x, a)
        if hi is None:
            s = new(); eps[a].append(s); b = build(x, s); eps[b].append(s); return s
        e = new(); eps[a].append(e)
        for _ in range(hi - lo):
            a = build(x, a); eps[a].append(e)
        return e
    start = new(); end = build(t, start)
    pts = sorted({0} | {p for l in tr for iv, _ in l for a, b in iv for p in (a, b + 1)} - {MAXC + 1})
    B = {}; E = {}
    for a, b in bol: B.setdefault(a, []).append(b)
    for a, b in eol: E.setdefault(a, []).append(b)
    def clos(ss, first, last):
        seen = set(ss); todo = list(ss)
        while todo:
            s = todo.pop()
            for n in eps[s] + (B.get(s, []) if first else []) + (E.get(s, []) if last else []):
                if n not in seen: seen.add(n); todo.append(n)
        return frozenset(seen)
    init = (clos([start], True, False), True)
    states = {init: 0}; todo = [init]; trans = []; acc = []
    while todo:
        cur, first = todo.pop(0)
        if end in cur: acc.append(True); trans.append(None); continue
        acc.append(end in clos(cur, first, True))
        row = []
        for p in pts:
            nx = {d for s in cur for iv, d in tr[s] if any(a <= p <= b for a, b in iv)} | {start}
            n = (clos(nx, False, False), False)
            if n not in states: states[n] = len(states); todo.append(n)
            row.append(states[n])
        trans.append(row)
    # rows were appended in order of discovery
    N = len(trans)
    for i in range(N):
        if trans[i] is None: trans[i] = [i] * len(pts)
    cls = [int(a) for a in acc]
    while True:
        sig = {}; nc = []
        for i in range(N):
            s = (cls[i], tuple(cls[j] for j in trans[i])); nc.append(sig.setdefault(s, len(sig)))
        if len(set(nc)) == len(set(cls)): break
        cls = nc
    rep = {}
    for i in range(N): rep.setdefault(cls[i], i)
    # drop interval boundaries that separate nothing
    keep = [0] + [k for k in range(1, len(pts)) if any(cls[trans[i][k]] != cls[trans[i][k - 1]] for i in rep.values())]
    order = {cls[0]: 0}; q = [cls[0]]; out = []
    while q:
        c = q.pop(0); row = []
        for k in keep:
            d = cls[trans[rep[c]][k]]
            if d not in order: order[d] = len(order); q.append(d)
            row.append(order[d])
        out.append((acc[rep[c]], tuple(row)))
    _dc[k] = (tuple(pts[k] for k in keep), tuple(out))
    return _dc[k]
def run(d, s):
    import bisect
    pts, st = d; q = 0
    u = s.encode('utf-16-le', 'surrogatepass')
    for i in range(0, len(u), 2):
        q = st[q][1][bisect.bisect_right(pts, u[i] | u[i + 1] << 8) - 1]
    return st[q][0]
