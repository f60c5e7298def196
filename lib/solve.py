"""Deciding obligations over terms: a linear/floor normal form proves, an arithmetic witness that
satisfies the facts of the path refutes.  Neither executes anything of the repository."""
from terms import *
from terms import _byte_view
import itertools

def ev(t, env):
    """numeric value of a term (unsigned, modulo its width), or None"""
    h = t[0]
    if h == 'k': return t[2]
    if h == 's': return env.get(t)
    if h == 'undef': return None
    w = t[1] if len(t) > 1 and isinstance(t[1], int) else 64
    if h == 'lin':
        r = t[2]
        for a, k in t[3]:
            v = ev(a, env)
            if v is None: return None
            r += v * k
        return r & M(w)
    if h == 'zext': return ev(t[2], env)
    if h == 'sext':
        v = ev(t[2], env)
        return None if v is None else sgn(width(t[2]), v) & M(w)
    if h == 'trunc':
        v = ev(t[2], env)
        return None if v is None else v & M(w)
    if h == 'byte':
        v = ev(t[2], env)
        return None if v is None else (v >> (8 * t[3])) & 255
    if h == 'cat':
        r = 0
        for i, b in enumerate(t[2]):
            v = ev(b, env)
            if v is None: return None
            r |= v << (8 * i)
        return r
    if h == 'select':
        c = ev(t[2], env)
        return None if c is None else ev(t[3] if c else t[4], env)
    if h == 'cmp':
        if t[3][0] in ('ptr', 'h', 'fn') or t[4][0] in ('ptr', 'h', 'fn'): return None
        a, b = ev(t[3], env), ev(t[4], env)
        if a is None or b is None: return None
        x = width(t[3])
        p = t[2]
        if p == 'eq': return int(a == b)
        if p == 'ne': return int(a != b)
        if p == 'ult': return int(a < b)
        if p == 'slt': return int(sgn(x, a) < sgn(x, b))
        return None
    if h in ('and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'mul'):
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None: return None
        if h == 'mul': return a * b & M(w)
        r = binop(h, K(w, a), K(w, b))
        return r[2] if r[0] == 'k' else None
    if h == 'abs':
        a = ev(t[2], env)
        return None if a is None else abs(sgn(w, a)) & M(w)
    return None

def atoms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and t:
        if t[0] == 's': out.add(t); return out
        if t[0] in ('h', 'ptr', 'fn', 'f'): return out
        for y in t:
            if isinstance(y, tuple):
                if y and isinstance(y[0], tuple):
                    for z in y: atoms(z, out)
                else: atoms(y, out)
    return out

def numeric_facts(st):
    return [(c, v) for c, v in st.facts.items() if c[0] != 'undef' and c[0] != 'fp']

def lin_int(it, st, t):
    """(const, {atom: coef}) over the integers, assuming unsigned reading; coefs signed"""
    return lin_coefs_signed(t)

def _norm_atom(a):
    """floor(k*x / k*d) -> floor(x/d) for constants"""
    if a[0] == 'udiv' and isk(a[3]) and a[3][2]:
        from math import gcd
        c, d = lin_parts(a[2]); g = a[3][2]
        for k in d.values(): g = gcd(g, k)
        g = gcd(g, c) if c else g
        if g > 1:
            w = a[1]
            num = mk_lin(w, c // g, {x: k // g for x, k in d.items()})
            if a[3][2] // g == 1: return num
            return ('udiv', w, num, K(w, a[3][2] // g))
    return a

def norm(t):
    w = width(t)
    c, d = lin_parts(t)
    r = K(w, c)
    for a, k in d.items(): r = add(r, mulk(_norm_atom(a), k))
    return r

def nonneg(it, st, t, depth=0):
    """t >= 0 over the integers (terms small enough not to wrap)"""
    t = norm(t)
    c, d = lin_coefs_signed(t)
    lo = c
    for a, k in d.items():
        x, y = it.urange(st, a)
        lo += k * (x if k > 0 else y)
    if lo >= 0: return True
    d = dict(d)
    # floor(a/m) - floor(b/m) >= 0 when a >= b ; also -k*floor(b/m) + k*b' ...
    if depth < 4:
        for a in [x for x in d if d[x] < 0 and x[0] == 'udiv']:
            for b in [x for x in d if d.get(x, 0) > 0 and x[0] == 'udiv' and x[3] == a[3]]:
                if nonneg(it, st, sub(b[2], a[2]), depth + 1):
                    k = min(-d[a], d[b])
                    d[a] += k; d[b] -= k
            if d[a] < 0:
                # floor(b/m) <= b  (m >= 1)
                e = add(mk_lin(width(t), c, {x: k for x, k in d.items() if x != a}), mulk(a[2], d[a]))
                if nonneg(it, st, e, depth + 1): return True
        lo = c
        for a, k in d.items():
            x, y = it.urange(st, a)
            lo += k * (x if k > 0 else y)
        if lo >= 0: return True
    return False

LENS = [1, 0, 2, 3, 5, 63, 64, 65, 127, 128, 129, 1000, 4096, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, (1 << 32), (1 << 32) + 5, (1 << 33) + 7]
INTS = [128, 1, 2, 64, 3, 7, 100, 127, 129, 256, 1000, 997, 0, -1, -5, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) + 3, (1 << 32), -(1 << 31), -(1 << 31) - 1, -(1 << 32) - 3, (1 << 33), 1 << 40]

def witness(it, st, goal, extra=(), limit=60000, prefer=()):
    """an assignment of the numeric symbols satisfying the path's facts, the known ranges and goal(env)"""
    facts = numeric_facts(st)
    syms = set()
    for c, v in facts: syms |= {a for a in atoms(c)}
    for t in extra: syms |= atoms(t)
    syms = [s for s in syms if s[2] not in ('is',)]
    num = [s for s in syms if s[1] in (1, 8, 16, 32, 64)]
    def key(s):
        return (0 if s[2] == 'blen' and s[3] == ('h', 'arg', 0) else 1 if s[2] in ('int', 'argc') else 2 if s[2] != 'blen' else 3, repr(s))
    num.sort(key=key)
    cnt = [0]
    def inrange(s, v):
        w = s[1]
        x = sgn(w, v)
        lo, hi = it.srange(st, s)
        if not (lo <= x <= hi): return False
        lo, hi = it.urange(st, s)
        return lo <= v <= hi
    def cands(s, env):
        w = s[1]
        base = list(LENS) if s[2] in ('blen', 'enclen', 'read', 'written', 'outcol') else list(INTS)
        if s[2] == 'argc': base = list(range(0, 8))
        if w == 1: base = [0, 1]
        lo, hi = it.srange(st, s); base += [lo, hi, lo + 1, hi - 1]
        for c, v in facts:
            if c[0] == 'cmp':
                for a, b in ((c[3], c[4]), (c[4], c[3])):
                    if s in atoms(a) and not (atoms(b) - set(env)):
                        x = ev(b, env)
                        if x is not None:
                            cc, d = lin_coefs_signed(a)
                            k = d.get(s, 1) or 1
                            x = sgn(width(b), x) if c[2] != 'ult' else x
                            base = [(x - cc) // k, (x - cc) // k + 1, (x - cc) // k - 1] + base
        seen = []
        for v in base:
            v &= M(w)
            if v not in seen and inrange(s, v): seen.append(v)
        return seen
    def ok(env):
        for c, v in facts:
            r = ev(c, env)
            if r is not None and bool(r) != v: return False
        return True
    def rec(i, env):
        cnt[0] += 1
        if cnt[0] > limit: return None
        if not ok(env): return None
        if i == len(num):
            return dict(env) if goal(env) else None
        for v in cands(num[i], env):
            env[num[i]] = v
            r = rec(i + 1, env)
            if r is not None: return r
            del env[num[i]]
        return None
    return rec(0, {})

def show(env):
    out = []
    for s, v in sorted(env.items(), key=repr):
        n = s[2]
        if n in ('blen', 'int'): n = '%s(arg %s)' % ({'blen': 'length', 'int': 'value'}[n], s[3][2])
        elif n == 'argc': n = 'argument count'
        out.append('%s=%d' % (n, sgn(s[1], v)))
    return ', '.join(out)

def same(it, st, a, b):
    """are the two terms equal on this path: True, (False with witness), None"""
    if a == b: return True, None
    if width(a) == width(b):
        fix = {}
        for s in atoms(a) | atoms(b):
            lo, hi = it.srange(st, s)
            if lo == hi: fix[s] = K(width(s), lo)
        if fix: a, b = subst(a, fix), subst(b, fix)
        x, y = it.wide(st, a), it.wide(st, b)
        if x == y or norm(sub(x, y)) == K(64, 0): return True, None
        w = witness(it, st, lambda env: (lambda p, q: p is not None and q is not None and p != q)(ev(a, env), ev(b, env)), (a, b))
        if w is not None: return False, w
    else:
        return False, None
    return None, None

# ---------------------------------------------------------------- residues modulo 2^32-1
P32 = (1 << 32) - 1
def residue(it, st, t, comp=False):
    """linear form {atom or 1: coef} of an unsigned term modulo 2^32-1, or None"""
    def addr(a, b, k=1):
        if a is None or b is None: return None
        r = dict(a)
        for x, c in b.items(): r[x] = (r.get(x, 0) + k * c) % P32
        return {x: c for x, c in r.items() if c}
    w = width(t); h = t[0]
    if h == 'k': return {1: t[2] % P32} if t[2] % P32 else {}
    if h == 'zext': return residue(it, st, t[2])
    busy = it.__dict__.setdefault('_residue_busy', set())
    if t in busy: return None
    busy.add(t)
    try:
        r = _residue(it, st, t, addr)
        if r is None and w == 32 and not comp:
            r = residue(it, st, sub(K(32, M(32)), t), True)      # ~t = 2^32-1 - t
            if r is not None: r = addr({}, r, -1)
        return r
    finally: busy.discard(t)
def _residue(it, st, t, addr):
    w = width(t); h = t[0]
    if h == 's':
        lo, hi = it.srange(st, t)
        if lo >= 0 or w <= 32 and False: return {t: 1}
        return None
    # rotations
    if h == 'or' and w == 32:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0] == 'udiv' and isk(b[3]) and b[3][2] > 1 and b[3][2] & (b[3][2] - 1) == 0: x, s = b[2], 33 - b[3][2].bit_length()
            elif b[0] == 'lshr' and isk(b[3]): x, s = b[2], 32 - b[3][2]
            else: continue
            if a == mulk(x, 1 << s):
                r = residue(it, st, x)
                return None if r is None else {y: c * (1 << s) % P32 for y, c in r.items()}
    if h == 'op' and t[2] in ('fshl', 'fshr') and w == 32 and t[3] == t[4] and isk(t[5]):
        s = t[5][2] % 32
        if t[2] == 'fshr': s = (32 - s) % 32
        r = residue(it, st, t[3])
        return None if r is None else {y: c * (1 << s) % P32 for y, c in r.items()}
    # end-around carry  trunc(hi+lo) + carry
    if w == 32:
        r = _eac(it, st, t)
        if r is not None: return r
    if h == 'urem' and isk(t[3]) and t[3][2] == P32: return residue(it, st, t[2])
    if h == 'lin':
        # ~x
        c, d = lin_parts(t)
        if c == M(w) and len(d) == 1 and w == 32:
            (x, k), = d.items()
            if k == M(32): return addr({}, residue(it, st, x), -1)
        # exact (non-wrapping) sums
        cs, ds = lin_coefs_signed(t)
        lo = hi = cs
        for a, k in ds.items():
            x, y = it.srange(st, a)
            if x < 0 and a[0] != 's': x, y = it.urange(st, a)
            if k < 0: x, y = y, x
            lo += k * x; hi += k * y
        if lo >= 0 and hi <= M(w):
            r = {1: cs % P32} if cs % P32 else {}
            # x = 2^32*(x>>32) + (x & mask):  (x>>32) + (x&mask) == x
            for a, k in ds.items():
                ra = _half(it, st, a, ds, k)
                if ra is None:
                    ra = {a: 1} if a[0] == 's' else residue(it, st, a)
                r = addr(r, ra, k)
                if r is None: return None
            return _fold(it, st, r)
    if h == 'udiv' and t[3] == K(w, 1 << 32): return {('hi', t[2]): 1}
    if h == 'and' and t[3] == K(w, P32): return {('lo', t[2]): 1}
    if h == 'trunc' and w == 32 and width(t[2]) == 64: return {('lo', t[2]): 1}
    return None
def _half(it, st, a, ds, k):
    if a[0] == 'udiv' and a[3] == K(a[1], 1 << 32): return {('hi', a[2]): 1}
    if a[0] == 'zext' and a[2][0] == 'trunc' and width(a[2]) == 32: return {('lo', a[2][2]): 1}
    if a[0] == 'zext' and a[2][0] == 'lin' and width(a[2]) == 32: return None
    if a[0] == 'and' and a[3] == K(a[1], P32): return {('lo', a[2]): 1}
    return None
def _fold(it, st, r):
    """lo(x)+hi(x) -> residue(x) as 64-bit unsigned"""
    if r is None: return None
    r = dict(r)
    for a in list(r):
        if isinstance(a, tuple) and a[0] == 'hi' and a in r:
            lo = ('lo', a[1])
            if r.get(lo) == r[a]:
                k = r.pop(a); r.pop(lo)
                x = residue64(it, st, a[1])
                if x is None: return None
                for y, c in x.items(): r[y] = (r.get(y, 0) + k * c) % P32
    return {x: c for x, c in r.items() if c}
def residue64(it, st, t):
    if t[0] == 's':
        lo, hi = it.srange(st, t)
        if lo >= 0: return {t: 1}
        return {('unsigned', t): 1}
    return residue(it, st, t)
def _halves(x):
    """(hi, lo) 32-bit terms of a 64-bit term as they appear after truncation"""
    return trunc(binop('lshr', x, K(64, 32)), 32), trunc(x, 32)
def _eac(it, st, t):
    # t == a + b + carry(a+b)   with a, b 32-bit
    if t[0] == 'lin':
        c, d = lin_parts(t)
        if c == 0:
            for q in [x for x in d if d[x] == 1]:
                cc = q[2] if q[0] == 'zext' and width(q[2]) == 1 else None
                if cc is None: continue
                rest = mk_lin(32, 0, {x: k for x, k in d.items() if x != q})
                if cc[0] == 'cmp' and cc[2] == 'ult' and cc[3] == rest:
                    a = cc[4]; b = sub(rest, a)
                    return _sum2(it, st, a, b)
    # trunc32( x + (x>>32) ) with x < 2^33 - 1
    if t[0] == 'trunc' and width(t[2]) == 64 and t[2][0] == 'lin':
        pass
    if t[0] in ('lin',):
        # trunc distributes: trunc(x) + trunc(x>>32); x itself a sum of halves
        c, d = lin_parts(t)
        if c == 0:
            for q in d:
                if q[0] == 'trunc' and q[2][0] == 'udiv' and q[2][3] == K(64, 1 << 32) and d[q] == 1:
                    x = q[2][2]
                    if add(trunc(x, 32), q) == t and it.urange(st, x)[1] <= 2 * P32:
                        return residue(it, st, x)
    return None
def _sum2(it, st, a, b):
    def one(x):
        if x[0] == 'trunc' and x[2][0] == 'udiv' and x[2][3] == K(64, 1 << 32): return {('hi', x[2][2]): 1}
        if x[0] == 'trunc' and width(x[2]) == 64: return {('lo', x[2]): 1}
        # truncated linear form of a 64-bit linear form
        return None
    ra, rb = one(a), one(b)
    # lo of a 64-bit linear term shows up as the truncated linear form
    for x, y in ((a, b), (b, a)):
        r = one(x)
        if r and list(r)[0][0] == 'hi':
            X = list(r)[0][1]
            if y == trunc(X, 32): return residue64(it, st, X)
    if ra is None or rb is None: return None
    r = dict(ra)
    for k, v in rb.items(): r[k] = r.get(k, 0) + v
    return _fold(it, st, r)
