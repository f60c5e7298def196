"""Value-number terms for the IR analyses (hash-consed tuples with a linear normal form, no solver)."""
M = lambda w: (1 << w) - 1

def K(w, v): return ('k', w, v & M(w))
def isk(t): return t[0] == 'k'
def sgn(w, v):
    v &= M(w)
    return v - (1 << w) if v >> (w - 1) else v
def sval(t): return sgn(t[1], t[2])
def width(t):
    return t[1] if t[0] not in ('ptr', 'h', 'undef', 'agg', 'fn', 'f') else 64

def sym(w, *name): return ('s', w) + name

def lin_parts(t):
    """constant, {atom: coef} modulo 2^w"""
    if t[0] == 'k': return t[2], {}
    if t[0] == 'lin': return t[2], dict(t[3])
    return 0, {t: 1}
def mk_lin(w, c, d):
    c &= M(w)
    items = [(a, k & M(w)) for a, k in d.items() if k & M(w)]
    if not items: return ('k', w, c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda x: repr(x[0]))
    return ('lin', w, c, tuple(items))
def add(a, b, kb=1):
    w = width(a)
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) + kb * k
    return mk_lin(w, c1 + kb * c2, d)
def sub(a, b): return add(a, b, -1)
def mulk(a, k):
    w = width(a)
    c, d = lin_parts(a)
    return mk_lin(w, c * k, {t: x * k for t, x in d.items()})
def mul(a, b):
    if isk(a): return mulk(b, a[2])
    if isk(b): return mulk(a, b[2])
    if repr(b) < repr(a): a, b = b, a
    return ('mul', width(a), a, b)
def lin_coefs_signed(t):
    """(const, {atom: coef}) with signed representatives"""
    w = width(t)
    c, d = lin_parts(t)
    return sgn(w, c), {a: sgn(w, k) for a, k in d.items()}

def known_zero_low(t):
    """number of low bits known to be zero"""
    w = width(t)
    if t[0] == 'k': return w if t[2] == 0 else (t[2] & -t[2]).bit_length() - 1
    if t[0] == 'lin':
        m = w if t[2] == 0 else (t[2] & -t[2]).bit_length() - 1
        for a, k in t[3]:
            m = min(m, known_zero_low(a) + (k & -k).bit_length() - 1)
        return min(m, w)
    if t[0] == 'shl' and isk(t[3]): return min(w, known_zero_low(t[2]) + t[3][2])
    if t[0] == 'zext': return known_zero_low(t[2]) if known_zero_low(t[2]) < width(t[2]) else w
    return 0

def umax(t):
    """upper bound of the unsigned value"""
    w = width(t)
    if t[0] == 'k': return t[2]
    if t[0] == 'zext': return umax(t[2])
    if t[0] == 'and': return min(umax(t[2]), umax(t[3]))
    if t[0] == 'lshr' and isk(t[3]): return umax(t[2]) >> t[3][2]
    if t[0] == 'lin':
        s = t[2]
        for a, k in t[3]: s += umax(a) * k
        return min(s, M(w))
    if t[0] in ('or', 'xor'):
        m = max(umax(t[2]), umax(t[3]))
        return min(M(w), (1 << m.bit_length()) - 1)
    if t[0] == 'select': return max(umax(t[3]), umax(t[4]))
    if t[0] == 'cmp' or w == 1: return 1
    return M(w)

def zext(t, w):
    if width(t) == w: return t
    if t[0] == 'k': return K(w, t[2])
    if t[0] == 'undef': return t
    if t[0] == 'zext': return zext(t[2], w)
    if t[0] == 'select' and isk(t[3]) and isk(t[4]): return ('select', w, t[2], zext(t[3], w), zext(t[4], w))
    return ('zext', w, t)
def sext(t, w):
    if width(t) == w: return t
    if t[0] == 'k': return K(w, sval(t))
    if t[0] == 'undef': return t
    if t[0] == 'sext': return sext(t[2], w)
    if t[0] == 'zext' and width(t[2]) < width(t): return zext(t[2], w)
    return ('sext', w, t)
def trunc(t, w):
    if width(t) == w: return t
    if t[0] == 'k': return K(w, t[2])
    if t[0] == 'undef': return t
    if t[0] in ('zext', 'sext'):
        iw = width(t[2])
        if iw == w: return t[2]
        if iw > w: return trunc(t[2], w)
        return (zext if t[0] == 'zext' else sext)(t[2], w)
    if t[0] == 'trunc': return trunc(t[2], w)
    if t[0] == 'lin':
        r = K(w, t[2])
        for a, k in t[3]: r = add(r, mulk(trunc(a, w), k))
        return r
    if t[0] in ('and', 'or', 'xor'):
        return binop(t[0], trunc(t[2], w), trunc(t[3], w))
    if t[0] == 'shl' and isk(t[3]):
        if t[3][2] >= w: return K(w, 0)
        return binop('shl', trunc(t[2], w), K(w, t[3][2]))
    if t[0] == 'select': return mk_select(t[2], trunc(t[3], w), trunc(t[4], w))
    if t[0] == 'lshr' and isk(t[3]) and t[2][0] in ('shl', 'or', 'cat', 'zext', 'lshr', 'lin'):
        r = _byte_view(t, w)
        if r is not None: return r
    if t[0] == 'cat' and w % 8 == 0:
        return mk_cat(t[2][:w // 8])
    if w == 8 and _div8(t) is not None: return byte_of(t, 0)
    return ('trunc', w, t)

def _div8(t):
    """(x, k) when t is x >> 8k"""
    if t[0] == 'udiv' and isk(t[3]) and t[3][2] and t[3][2] & (t[3][2] - 1) == 0 and (t[3][2].bit_length() - 1) % 8 == 0:
        return t[2], (t[3][2].bit_length() - 1) // 8
    if t[0] == 'lshr' and isk(t[3]) and t[3][2] % 8 == 0: return t[2], t[3][2] // 8
    return None

def _byte_view(t, w):
    if w % 8: return None
    bs = bytes_of(t, width(t) // 8)
    if bs is None: return None
    return mk_cat(bs[:w // 8])

def mk_cat(bs):
    """little-endian concatenation of byte terms"""
    n = len(bs)
    if n == 1: return bs[0]
    if all(isk(b) for b in bs):
        v = 0
        for i, b in enumerate(bs): v |= b[2] << (8 * i)
        return K(8 * n, v)
    # bytes of one term back together
    b0 = bs[0]
    if b0[0] == 'byte' and b0[3] == 0 and width(b0[2]) == 8 * n and all(b[0] == 'byte' and b[2] == b0[2] and b[3] == i for i, b in enumerate(bs)):
        return b0[2]
    if b0[0] == 'trunc' and width(b0[2]) == 8 * n and all(b == (byte_of(b0[2], i)) for i, b in enumerate(bs)):
        return b0[2]
    k = n
    while k > 1 and isk(bs[k - 1]) and bs[k - 1][2] == 0: k -= 1
    if k < n and k in (1, 2, 4): return zext(mk_cat(bs[:k]), 8 * n)
    return ('cat', 8 * n, tuple(bs))

def byte_of(t, i):
    """the i-th (little-endian) byte of an integer term"""
    w = width(t)
    if t[0] == 'k': return K(8, t[2] >> (8 * i))
    if t[0] == 'undef': return t
    if w == 8 and i == 0: return t
    if t[0] == 'cat': return t[2][i]
    if t[0] == 'zext':
        iw = width(t[2])
        if 8 * i >= iw: return K(8, 0)
        if iw % 8 == 0: return byte_of(t[2], i)
        if iw < 8: return zext(t[2], 8)
    if t[0] == 'trunc': return byte_of(t[2], i)
    if t[0] in ('or', 'and', 'xor'):
        return binop(t[0], byte_of(t[2], i), byte_of(t[3], i))
    if t[0] == 'shl' and isk(t[3]) and t[3][2] % 8 == 0:
        j = i - t[3][2] // 8
        return K(8, 0) if j < 0 else byte_of(t[2], j)
    if t[0] == 'lin' and t[2] == 0 and len(t[3]) == 1:
        a, k = t[3][0]
        if k & (k - 1) == 0 and (k.bit_length() - 1) % 8 == 0:
            j = i - (k.bit_length() - 1) // 8
            return K(8, 0) if j < 0 else byte_of(a, j)
    if t[0] == 'lin' and i == 0:
        return trunc(t, 8)
    if _div8(t) is not None:
        x, j = _div8(t); j += i
        return K(8, 0) if j >= w // 8 else byte_of(x, j)
    if t[0] == 'lin' and w % 8 == 0 and t[2] == M(w) and len(t[3]) == 1 and t[3][0][1] == M(w):
        return sub(K(8, 255), byte_of(t[3][0][0], i))       # bytes of ~x
    if i == 0: return ('trunc', 8, t) if w != 8 else t
    if 8 * i >= w: return K(8, 0)
    if t[0] == 'select': return mk_select(t[2], byte_of(t[3], i), byte_of(t[4], i))
    if umax(t) >> (8 * i) == 0: return K(8, 0)
    return ('byte', 8, t, i)
def bytes_of(t, n):
    if t[0] in ('ptr', 'h', 'fn', 'agg', 'f'): return None
    if t[0] == 'undef': return [t] * n
    return [byte_of(t, i) for i in range(n)]

def mk_select(c, a, b):
    if isk(c): return a if c[2] else b
    if a == b: return a
    return ('select', width(a), c, a, b)

def _shifty(t):
    """a term made of whole bytes: shifted or extended pieces"""
    if t[0] == 'zext': return width(t[2]) in (8, 16, 32)
    if t[0] == 'cat': return True
    if t[0] == 'lin': return t[2] == 0 and len(t[3]) == 1 and _shifty(t[3][0][0])
    return False
COMM = {'and', 'or', 'xor'}
def binop(op, a, b):
    if a[0] == 'undef' or b[0] == 'undef': return ('undef',)
    w = width(a)
    if op == 'add': return add(a, b)
    if op == 'sub': return sub(a, b)
    if op == 'mul': return mul(a, b)
    if op == 'shl' and isk(b):
        if b[2] >= w: return ('undef',)
        return mulk(a, 1 << b[2])
    if isk(a) and isk(b):
        x, y = a[2], b[2]
        if op == 'and': return K(w, x & y)
        if op == 'or': return K(w, x | y)
        if op == 'xor': return K(w, x ^ y)
        if op == 'shl': return K(w, x << y) if y < w else ('undef',)
        if op == 'lshr': return K(w, x >> y) if y < w else ('undef',)
        if op == 'ashr': return K(w, sgn(w, x) >> y) if y < w else ('undef',)
        if y:
            if op == 'udiv': return K(w, x // y)
            if op == 'urem': return K(w, x % y)
            sx, sy = sgn(w, x), sgn(w, y)
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            if op == 'sdiv': return K(w, q)
            if op == 'srem': return K(w, sx - q * sy)
    if op in COMM:
        if isk(a) or (not isk(b) and repr(b) < repr(a)): a, b = b, a
        if a == b: return a if op != 'xor' else K(w, 0)
        if isk(b):
            m = b[2]
            if op == 'and':
                if m == 0: return K(w, 0)
                if m == M(w): return a
                if umax(a) & ~m == 0 and (m + 1) & m == 0 and umax(a) <= m: return a
                if (m + 1) & m == 0 and m.bit_length() in (8, 16, 32) and m.bit_length() < w:
                    return zext(trunc(a, m.bit_length()), w)
                if a[0] == 'and' and isk(a[3]): return binop('and', a[2], K(w, m & a[3][2]))
            if op == 'or':
                if m == 0: return a
                if m == M(w): return b
            if op == 'xor':
                if m == 0: return a
                if a[0] == 'xor' and isk(a[3]): return binop('xor', a[2], K(w, a[3][2] ^ m))
                if m == M(w) and w > 1: return sub(K(w, m), a)   # ~a == -1 - a
                if w == 1 and a[0] == 'cmp': return neg(a)
        if op == 'or' and w in (16, 32, 64) and _shifty(a) and _shifty(b):
            bs = []
            for i in range(w // 8):
                x, y = byte_of(a, i), byte_of(b, i)
                if isk(x) and x[2] == 0: x, y = y, x
                if not (isk(y) and y[2] == 0): break
                bs.append(x)
            else:
                if all(isk(x) or x[0] in ('s', 'byte', 'trunc') for x in bs): return mk_cat(bs)
        return (op, w, a, b)
    if op in ('lshr', 'ashr') and isk(b):
        s = b[2]
        if s == 0: return a
        if s >= w: return ('undef',)
        if op == 'lshr':
            if umax(a) >> s == 0: return K(w, 0)
            if a[0] == 'lshr' and isk(a[3]): return binop('lshr', a[2], K(w, s + a[3][2]))
            # floor((2^k * x + c) / 2^s): keep as udiv so that shifts and divisions share a form
            return ('udiv', w, a, K(w, 1 << s)) if a[0] in ('s', 'lin', 'zext', 'sext', 'udiv') and not _bytey(a) else ('lshr', w, a, b)
        return (op, w, a, b)
    if op == 'udiv' and isk(b) and b[2] == 1: return a
    if op == 'urem' and isk(b) and b[2] and b[2] & (b[2] - 1) == 0:
        return binop('and', a, K(w, b[2] - 1))
    if op == 'udiv' and isk(b) and b[2] & (b[2] - 1) == 0 and b[2]:
        return binop('lshr', a, K(w, b[2].bit_length() - 1))
    return (op, w, a, b)

def _bytey(a):
    return False

def neg(c):
    if isk(c): return K(1, 1 - c[2])
    if c[0] == 'cmp':
        p = c[2]
        if p == 'eq': return ('cmp', 1, 'ne', c[3], c[4])
        if p == 'ne': return ('cmp', 1, 'eq', c[3], c[4])
    if c[0] == 'xor' and isk(c[3]) and c[3][2] == 1: return c[2]
    return ('xor', 1, c, K(1, 1))

def contains(t, x):
    if t == x: return True
    if isinstance(t, tuple): return any(contains(y, x) for y in t if isinstance(y, tuple))
    return False
def subterms(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple): yield from subterms(y)
def subst(t, m):
    """rebuild t with atoms replaced (m: atom -> term)"""
    if t in m: return m[t]
    if not isinstance(t, tuple) or not t: return t
    h = t[0]
    if h in ('k', 's', 'undef', 'h', 'fn', 'f'): return t
    if h == 'lin':
        r = K(t[1], t[2])
        for a, k in t[3]: r = add(r, mulk(subst(a, m), k))
        return r
    if h in ('zext', 'sext', 'trunc'):
        return {'zext': zext, 'sext': sext, 'trunc': trunc}[h](subst(t[2], m), t[1])
    if h in ('and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'mul'):
        return binop(h, subst(t[2], m), subst(t[3], m))
    if h == 'select': return mk_select(subst(t[2], m), subst(t[3], m), subst(t[4], m))
    if h == 'cmp': return cmp_(t[2], subst(t[3], m), subst(t[4], m))
    if h == 'cat': return mk_cat([subst(x, m) for x in t[2]])
    if h == 'byte': return byte_of(subst(t[2], m), t[3])
    if h == 'ptr': return ('ptr', t[1], subst(t[2], m))
    return t

def cmp_(pred, a, b):
    """canonical comparisons: eq, ne, slt, ult and their negations via swap"""
    if a[0] == 'undef' or b[0] == 'undef': return ('undef',)
    if pred in ('sgt', 'ugt'): return cmp_(pred[0] + 'lt', b, a)
    if pred in ('sge', 'uge'): return neg(cmp_(pred[0] + 'lt', a, b))
    if pred in ('sle', 'ule'): return neg(cmp_(pred[0] + 'lt', b, a))
    w = width(a)
    if a == b: return K(1, 1 if pred == 'eq' else 0)
    if isk(a) and isk(b):
        x, y = a[2], b[2]
        if pred == 'eq': return K(1, x == y)
        if pred == 'ne': return K(1, x != y)
        if pred == 'slt': return K(1, sgn(w, x) < sgn(w, y))
        if pred == 'ult': return K(1, x < y)
    if pred in ('eq', 'ne'):
        # strip extensions against constants
        if isk(a): a, b = b, a
        if isk(b):
            if a[0] == 'zext':
                if b[2] > M(width(a[2])): return K(1, pred == 'ne')
                return cmp_(pred, a[2], K(width(a[2]), b[2]))
            if a[0] == 'sext':
                n = K(width(a[2]), b[2])
                if sval(n) != sval(b): return K(1, pred == 'ne')
                return cmp_(pred, a[2], n)
            if a[0] == 'lin':
                # move the constant over:  sum == b - c ; unit odd single coefficient
                c, d = lin_parts(a)
                if c:
                    return cmp_(pred, mk_lin(w, 0, d), K(w, b[2] - c))
                if len(d) == 1:
                    (at, k), = d.items()
                    if k == M(w):
                        return cmp_(pred, at, K(w, -b[2]))
            if a[0] == 'cmp' and w == 1:
                return a if (b[2] == 1) == (pred == 'eq') else neg(a)
            if w == 1:
                return a if (b[2] == 1) == (pred == 'eq') else neg(a)
            if a[0] == 'select' and isk(a[3]) and isk(a[4]):
                e3, e4 = a[3] == b, a[4] == b
                if e3 == e4: return K(1, e3 == (pred == 'eq'))
                r = a[2] if e3 else neg(a[2])
                return r if pred == 'eq' else neg(r)
        elif a[0] == 'zext' and b[0] == 'zext' and width(a[2]) == width(b[2]):
            return cmp_(pred, a[2], b[2])
        elif a[0] in ('ptr',) or b[0] in ('ptr',):
            pass
        else:
            d = sub(a, b)
            if isk(d): return K(1, (d[2] == 0) == (pred == 'eq'))
            if repr(b) < repr(a): a, b = b, a
    if pred == 'slt' and a[0] == 'zext' and b[0] == 'zext':
        pred = 'ult'
    if pred in ('ult', 'slt'):
        if a[0] == 'zext' and isk(b) and (pred == 'ult' or sval(b) >= 0):
            iw = width(a[2])
            if b[2] > M(iw): return K(1, 1)
            return cmp_('ult', a[2], K(iw, b[2]))
        if b[0] == 'zext' and isk(a) and (pred == 'ult' or sval(a) >= 0):
            iw = width(b[2])
            if a[2] >= M(iw): return K(1, 0)
            return cmp_('ult', K(iw, a[2]), b[2])
        if pred == 'slt' and a[0] == 'zext' and isk(b) and sval(b) < 0: return K(1, 0)
        if pred == 'slt' and b[0] == 'zext' and isk(a) and sval(a) < 0: return K(1, 1)
        if pred == 'ult' and isk(b) and b[2] == 0: return K(1, 0)
        if pred == 'ult' and isk(b) and b[2] == 1: return cmp_('eq', a, K(w, 0))
        if pred == 'ult' and isk(a) and a[2] == 0: return cmp_('ne', b, K(w, 0))
        if pred == 'slt' and a[0] == 'sext' and b[0] == 'sext' and width(a[2]) == width(b[2]):
            return cmp_('slt', a[2], b[2])
        if pred == 'slt' and a[0] == 'sext' and isk(b):
            iw = width(a[2]); v = sval(b)
            if v > M(iw - 1): return K(1, 1)
            if v <= -(1 << (iw - 1)): return K(1, 0)
            return cmp_('slt', a[2], K(iw, v))
        if pred == 'slt' and b[0] == 'sext' and isk(a):
            iw = width(b[2]); v = sval(a)
            if v >= M(iw - 1): return K(1, 0)
            if v < -(1 << (iw - 1)): return K(1, 1)
            return cmp_('slt', K(iw, v), b[2])
    return ('cmp', 1, pred, a, b)
