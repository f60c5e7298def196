"""Checks of the JavaScript part (index.js) on top of lib/jsabs.py."""
import itertools, json, math, os, re, subprocess
from ir import AnalysisError, REPO, VERIF
import jsabs
from jsabs import JS, UNDEF, NULL, TRUE, FALSE, Abrupt, atom, num, S, sconc, conc, cval, ladd, lscale, INF

ENC = ('s', (('sym', 'encoding'),))
N = lambda k: ('n', k)

class Mod:
    """index.js interpreted up to its exports; native calls are recorded with the state they are made in"""
    def __init__(self, sym_encoding=True):
        self.js = js = JS()
        self.st0, self.ex = js.load()
        if self.ex[0] != 'r': raise AnalysisError('index.js exports no object')
        self.F = dict(self.st0.heap[self.ex[1]]['props'])
        self.st = self.st0.copy()
        if sym_encoding:
            o = dict(self.st.heap[self.ex[1]]); o['props'] = dict(o['props'], encoding=ENC); self.st.heap[self.ex[1]] = o
        self.snaps = []; self.und = []
        for name in ('encode', 'decode', 'encodeTo', 'decodeTo', 'decodeIncr', 'encodeIncr', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift'):
            js.nspec[name] = self.snap(name)
    def snap(self, name):
        def f(js, st, vs, key, n):
            self.snaps.append((name, key, js.at(n), st.copy())); return None
        return f
    def call(self, f, this, args, st=None):
        """[(value | Abrupt, state)]"""
        self.snaps = []; self.js.throws = []
        return self.js.call((st or self.st).copy(), f, this, args, {'loc': 0})
    def export(self, name, args, st=None):
        if name not in self.F: raise AnalysisError('index.js does not export ' + name)
        return self.call(self.F[name], self.ex, args, st)
    def where(self, f):
        """source position of a function value"""
        if f[0] == 'r':
            o = self.st.heap[f[1]]
            if o['kind'] == 'function' and isinstance(o.get('node'), dict): return self.js.at(o['node'])
        return self.js.file
    def err(self, v, st):
        o = st.heap[v.val[1]] if v.kind == 'throw' and v.val and v.val[0] == 'r' else {}
        m = o.get('props', {}).get('message')
        return '%s %s at %s' % (o.get('cls', v.kind), sconc(m) if m and m[0] == 's' else '', o.get('where', '?'))

def guarded(rep, rule, where, f):
    """an unmodelled construct makes the obligations of this function undecided, not the whole check"""
    try: return f()
    except (AnalysisError, RecursionError) as e:
        rep.check(rule, where, None, 'not decided: %s' % e); return None

# ------------------------------------------------------------ numbers: evaluation and small models
def ev(lin, env):
    t = lin[0]
    for a, c in lin[1]:
        x = evatom(a, env)
        if x is None: return None
        t += c * x
    return t
def _half():
    from fractions import Fraction
    return Fraction(1, 2)
def evatom(a, env):
    if a in env: return env[a]
    if a[0] == 'math' and len(a) == 3 and a[1] in ('round', 'abs'):
        x = ev(a[2], env)
        return None if x is None or x != x or abs(x) == INF else math.floor(x + (0.5 if isinstance(x, float) else _half())) if a[1] == 'round' else abs(x)
    if a[0] == 'op' and a[1] in ('|', '&', '^', '<<', '>>', '>>>'):
        x, y = ev(a[2], env), ev(a[3], env)
        if x is None or y is None or x != x or y != y or abs(x) == INF or abs(y) == INF: return None
        x, y = int(x) & 0xffffffff, int(y) & 0xffffffff; sx = x - ((x >> 31) << 32)
        if a[1] == '>>>': return x >> (y & 31)
        r = {'|': x | y, '&': x & y, '^': x ^ y, '<<': x << (y & 31), '>>': sx >> (y & 31)}[a[1]] & 0xffffffff
        return r - ((r >> 31) << 32)
    if a[0] in ('floor', 'ceil'):
        x = ev(a[1], env); return None if x is None or x != x or abs(x) == INF else (math.floor if a[0] == 'floor' else math.ceil)(x)
    if a[0] in ('trunc', 'toint32', 'round'):
        x = ev(a[1], env)
        if x is None or x != x or abs(x) == INF: return None
        return int(x) if a[0] == 'trunc' else ((int(x) + (1 << 31)) % (1 << 32)) - (1 << 31) if a[0] == 'toint32' else math.floor(x + 0.5)
    if a[0] == 'div':
        from fractions import Fraction
        x, y = ev(a[1], env), ev(a[2], env)
        return None if x is None or y is None or not y else Fraction(x) / Fraction(y)
    if a[0] == 'mod':
        from fractions import Fraction
        x, y = ev(a[1], env), ev(a[2], env)
        if x is None or y is None or not y: return None
        x = Fraction(x); y = abs(Fraction(y)); r = abs(x) % y
        return r if x >= 0 else -r
    return None
def atoms_of(lin, out=None):
    out = set() if out is None else out
    for a, c in lin[1]:
        if a[0] in ('floor', 'ceil', 'div', 'mod', 'trunc', 'toint32', 'round') or a[0] == 'math' and len(a) == 3 and isinstance(a[2], tuple):
            for x in a[2 if a[0] == 'math' else 1:]: atoms_of(x, out)
        elif a[0] == 'op' and a[1] in ('|', '&', '^', '<<', '>>', '>>>'):
            for x in a[2:]: atoms_of(x, out)
        else: out.add(a)
    return out
def fact_lins(st):
    for k, v in st.facts.items():
        if k[0] == 'S': yield (0, k[1]), v
def sat(st, env):
    """do the numeric facts of the path allow env (None: some fact cannot be evaluated)"""
    r = True
    for l, (lo, hi, ne) in fact_lins(st):
        x = ev(l, env)
        if x is None: r = None; continue
        if not (lo <= x <= hi) or x in ne: return False
    for g in st.ge:
        x = ev(g, env)
        if x is None: r = None; continue
        if x < 0: return False
    return r
def model(st, lins, dom, pred=lambda env: True, limit=400000):
    """an assignment from the given domains which the path allows and pred accepts"""
    at = set()
    for l, _ in fact_lins(st): atoms_of(l, at)
    for g in st.ge: atoms_of(g, at)
    for l in lins: atoms_of(l, at)
    at = sorted(at, key=repr); doms = []
    for a in at:
        d = dom(a)
        if d is None: return None
        doms.append(d)
    for i, vs in enumerate(itertools.product(*doms)):
        if i > limit: return None
        env = dict(zip(at, vs))
        if sat(st, env) and pred(env): return env
    return None
def showenv(env):
    def nm(a):
        if a[0] == 'n': return a[1]
        if a[0] == 'len': return 'length of ' + showc((a[1],))
        return str(a)[:60]
    return ', '.join('%s=%s' % (nm(a), v) for a, v in sorted(env.items(), key=repr))
def showl(l):
    out = []
    for a, c in l[1]:
        n = {'n': lambda a: a[1], 'len': lambda a: 'len(%s)' % showc((a[1],)), 'slen': lambda a: 'strlen(%s)' % showc((a[1],)),
             'floor': lambda a: 'floor(%s)' % showl(a[1]), 'ceil': lambda a: 'ceil(%s)' % showl(a[1]), 'div': lambda a: '(%s)/(%s)' % (showl(a[1]), showl(a[2])), 'mod': lambda a: '(%s)%%(%s)' % (showl(a[1]), showl(a[2]))}.get(a[0], lambda a: str(a)[:60])(a)
        out.append(n if c == 1 else '%s*%s' % (c, n))
    if l[0] or not out: out.append(str(l[0]))
    return ' + '.join(out)
def showv(v):
    if v[0] == 'n': return showl(v[1])
    if v[0] == 's': return showc(v[1])
    return str(v)[:80]
def showc(c):
    """contents of a Buffer or string, readable"""
    out = []
    for p in c:
        if isinstance(p, str): out.append(repr(p)); continue
        h = p[0]
        if h == 'lit': out.append(repr(p[1].decode('latin1')))
        elif h == 'enc': out.append(showc(p[1]))
        elif h == 'num': out.append('<%s>' % showl(p[1]))
        elif h == 'hex': out.append('hex(%s)' % showc(p[1]))
        elif h == 'sym': out.append(p[1])
        elif h == 'nat': out.append('%s(%s)' % (p[1], ', '.join(showc(k[1]) if k[0] == 'buf' else showv(k) for k in p[2])))
        elif h == 'filter': out.append('bytes of %s without %s' % (showc(p[2]), sorted(set(range(256)) - p[1])))
        elif h == 'substr': out.append('%s[%s:%s]' % (showc(p[1]), p[2], p[3]))
        elif h == 'strip': out.append('%s minus characters %s' % (showc(p[1]), p[2]))
        else: out.append(str(p)[:100])
    return ' + '.join(out) or "''"

def mentions(x, what):
    if x == what: return True
    return isinstance(x, (tuple, list)) and any(mentions(y, what) for y in x)

# ------------------------------------------------------------ C08
INTMAX = 2147483647
def c08(rep):
    import bindings, solve
    from terms import K, add, sub, mulk, width, M, sgn
    m = Mod(); js = m.js
    n = ('n', 'length'); L = ('n', 'line_size')
    js.bounds[n] = (0, INF)
    ctx = bindings.Ctx()
    def native(kind):
        def setup(it, st):
            for i, t in ((0, 'Buffer'), (1, 'Buffer'), (2, 'Number')): bindings.set_type(st, bindings.argh(i), t, True)
            if kind == 'given': it.ranges[bindings.ARGC] = (3, 3); it.ranges[bindings.iarg(2)] = (-(1 << 53), 1 << 53)
            else: it.ranges[bindings.ARGC] = (2, 2)
        return ctx.run('encodeTo', None, setup)
    bl0, bl1, li = ('s', 64, 'blen', bindings.argh(0)), ('s', 64, 'blen', bindings.argh(1)), bindings.iarg(2)
    def trunc(x): return int(x)
    LS = [128, 1, 2, 3, 7, 64, 100, 127, 129, 256, 1000, 4096, INTMAX, INTMAX + 1, (1 << 32) + 5, 1 << 40]
    from fractions import Fraction as Q
    FR = [Q(201, 2), Q(3, 2), Q(1001, 10), Q(1, 2), Q(1279, 10), Q(1289, 10), Q(25, 10)]
    NS = [1, 2, 3, 50, 63, 64, 65, 100, 127, 128, 129, 200, 201, 1000, 1001, 1 << 30, (1 << 30) + 7, 1 << 31, (1 << 32) - 1, (1 << 32) + 9]
    def term(l, isfrac):
        """the number as a 64-bit term over the symbols of the binding; None when it has no such reading"""
        r = K(64, l[0]) if l[0] == int(l[0]) else None
        if r is None: return None
        for a, c in l[1]:
            if c != int(c): return None
            if a == n: t = bl0
            elif a == L and not isfrac: t = li
            elif a[0] in ('floor', 'ceil'):
                t = None
                if len(a[1][1]) == 1 and a[1][0] == 0 and a[1][1][0][1] == 1 and a[1][1][0][0][0] == 'div':
                    d = a[1][1][0][0]; x = term(d[1], isfrac); y = lsize(d[2], isfrac)
                    if x is not None and y is not None and a[0] == 'floor': t = ('udiv', 64, x, y)
                elif a[0] in ('floor', 'ceil') and not [z for z in atoms_of(a[1]) if z in js.floats or z[0] in ('div', 'mod')]: t = term(a[1], isfrac)
                if t is None: return None
            else: return None
            r = add(r, mulk(t, int(c)))
        return r
    def lsize(l, isfrac):
        if not l[1]: return K(64, int(l[0])) if l[0] == int(l[0]) and l[0] > 0 else None
        if not isfrac and l == (0, ((L, 1),)): return li
        if isfrac and l in ((0, ((('trunc', (0, ((L, 1),))), 1),)), (0, ((('floor', (0, ((L, 1),))), 1),))): return li
        if isfrac and l == ladd((0, ((L, 1),)), (0, ((('mod', (0, ((L, 1),)), (1, ())), 1),)), -1): return li
        return None
    def run():
        for isfrac, kind in ((False, 'given'), (True, 'given'), (False, 'omitted')):
            js.floats.discard(L)
            if isfrac: js.floats.add(L)
            fin, it, _ = native(kind)
            thr = [s for s in fin if bindings.thrown(s) and not bindings.sinks(s)]
            acc = [s for s in fin if bindings.sinks(s)]
            sizechecks = [s for s in thr if any(bl1 in solve.atoms(c) for c, v in solve.numeric_facts(s))]
            if not sizechecks or not acc: raise AnalysisError('encodeTo has no path that rejects a small destination')
            rej_other = [s for s in thr if s not in sizechecks]
            args = [N((0, ((n, 1),)))] + ([N((0, ((L, 1),)))] if kind == 'given' else [])
            outs = m.export('maxSize', args)
            case = {'given': 'fractional line size' if isfrac else 'whole line size', 'omitted': 'default line size'}[kind]
            for v, st in outs:
                w = '%s: maxSize, %s' % (m.where(m.F['maxSize']), case)
                if isinstance(v, Abrupt):
                    env = model(st, [], lambda a: NS if a == n else (FR if isfrac else LS) if a == L else None)
                    rep.check('maxSize returns for every length and line size', w, False if env else None, m.err(v, st) + (' for ' + showenv(env) if env else '')); continue
                if v[0] != 'n':
                    rep.check('maxSize returns a number', w, None, str(v)[:100]); continue
                zero = js.bnd(st, (0, ((n, 1),)))[1] <= 0
                # refutation: a destination of exactly that size that encodeTo rejects
                bad = None
                for ln in ([0] if zero else NS):
                    for ls in (FR if isfrac else LS) if kind == 'given' else [128]:
                        env = {n: ln, L: ls}
                        if sat(st, env) is not True: continue
                        x = ev(v[1], env)
                        if x is None or x != x or x in (INF, -INF): continue
                        e2 = {bl0: ln & M(64), bl1: int(math.floor(x)) & M(64), bindings.ARGC: 3 if kind == 'given' else 2}
                        if kind == 'given': e2[li] = trunc(ls) & M(64)
                        if x < 0: e2[bl1] = 0
                        def hit(ss): return any(all((lambda r: r is None or bool(r) == val)(solve.ev(c, e2)) for c, val in solve.numeric_facts(s)) for s in ss)
                        if hit(sizechecks) and not hit(rej_other):
                            bad = 'maxSize(%s%s) is %s, which encodeTo rejects' % (ln, '' if kind == 'omitted' else ', %s' % float(ls) if isfrac else ', %s' % ls, float(x) if x != int(x) else int(x)); break
                    if bad: break
                if bad: rep.violation('maxSize is at least what encodeTo demands', w, bad, ['maxSize = ' + showl(v[1])]); continue
                ok = None; why = []
                if zero: ok = True
                else:
                    T = term(v[1], isfrac)
                    if T is not None:
                        ok = True
                        for s in sizechecks:
                            need = None
                            for c, val in solve.numeric_facts(s):
                                if c[0] == 'cmp' and c[2] == 'ult' and val and c[3] == bl1: need = c[4]
                            if need is None: ok = None; why.append('no size comparison in a rejecting path'); continue
                            # the path's line size: a constant, or the symbol with the path's bounds
                            t = T
                            for c, val in solve.numeric_facts(s):
                                if c[0] == 'cmp' and c[2] == 'eq' and val and c[3] == li and c[4][0] == 'k': t = subst(t, li, c[4] if c[4][2] else K(64, 128))
                            lo, hi = js.bnd(st, (0, ((L, 1),)))
                            lo2, hi2 = it.srange(s, li)
                            # paths of the two sides that concern different line sizes do not meet
                            if kind == 'given':
                                b0, b1 = rng(st, L, js, isfrac)
                                fs = facts_on(s, li, solve)
                                if not any(all(solve.ev(c, {li: trunc(x) & M(64)}) == val for c, val in fs) for x in b0): continue
                                a0, a1 = max(lo, lo2), min(hi, hi2)
                                for c, val in fs:      # comparisons with constants
                                    if c[0] == 'cmp' and c[2] == 'slt':
                                        if c[3] == li and c[4][0] == 'k': x = sgn(64, c[4][2]); a1, a0 = (min(a1, x - 1), a0) if val else (a1, max(a0, x))
                                        if c[4] == li and c[3][0] == 'k': x = sgn(64, c[3][2]); a0, a1 = (max(a0, x + 1), a1) if val else (a0, min(a1, x))
                                if a0 > a1: continue
                                if a0 == a1: t = subst(t, li, K(64, int(a0))); need = subst(need, li, K(64, int(a0)))
                                if all_capped(fs, li, solve): t = subst(t, li, K(64, INTMAX))
                            if not solve.nonneg(it, s, sub(t, need)): ok = None; why.append('%s >= %s not shown' % (bindings.fmt(t), bindings.fmt(need)))
                    else: why.append('no normal form for ' + showl(v[1]))
                rep.check('maxSize is at least what encodeTo demands', w, ok, 'maxSize = %s %s' % (showl(v[1]), '; '.join(why)))
        # minSize: with no byte escaped and the first byte in column 0, encode puts CRLF after every full line but the last
        def least(ln, ls):
            l = trunc(ls) or 128
            return None if l < 0 else 0 if not ln else ln + 2 * ((ln - 1) // min(l, INTMAX))
        q = lambda d: ladd((0, ((n, 1),)), (0, ((('floor', (0, ((('div', (-1, ((n, 1),)), d), 1),))), 2),)))
        RULE = 'minSize is at most the length of the output when nothing is escaped'
        EPS = Q(1, 1 << 60)
        whole = (0, ((L, 1),)); cut = (ladd(whole, (0, ((('mod', whole, (1, ())), 1),)), -1), (0, ((('trunc', whole), 1),)), (0, ((('floor', whole), 1),)))
        for isfrac, kind, lo, hi, ds in ((False, 'omitted', 0, 0, [(128, ())]), (False, 'given', 0, 0, [(128, ())]), (False, 'given', 1, INTMAX, [(INTMAX, ()), whole]), (False, 'given', INTMAX + 1, 1 << 53, [(INTMAX, ()), whole]),
                                        (True, 'given', EPS, 1 - EPS, [(128, ()), (INTMAX, ())]), (True, 'given', 1 + EPS, INTMAX, [(INTMAX, ()), *cut, whole]), (True, 'given', INTMAX + 1, 1 << 53, [(INTMAX, ()), *cut, whole])):
            js.floats.discard(L); old = js.bounds.get(L)
            if isfrac: js.floats.add(L)
            if kind == 'given': js.bounds[L] = (lo, hi)
            try:
                outs = m.export('minSize', [N((0, ((n, 1),)))] + ([N((0, ((L, 1),)))] if kind == 'given' else []))
                for v, st in outs:
                    case = 'default line size' if kind == 'omitted' else '%s line size %s' % ('fractional' if isfrac else 'whole', 'below 1' if hi < 1 else 'that encode caps' if lo > INTMAX else 'below 2^31')
                    w = '%s: minSize, %s' % (m.where(m.F['minSize']), case)
                    if isinstance(v, Abrupt): rep.check('minSize returns for every length and line size', w, None, m.err(v, st)); continue
                    if kind == 'given' and lo >= 1 and js.bnd(st, cut[0])[1] <= 0: continue      # the whole part of a number above 1 is not 0
                    if kind == 'given' and hi < 1 and all(sat(st, {n: x, L: y}) is False for x in NS for y in (EPS, Q(1, 3), Q(1, 2), 1 - EPS)): continue      # the whole part of a number below 1 is 0
                    bad = None
                    for ln in [0] + NS:
                        for ls in (FR if isfrac else [0] + LS) if kind == 'given' else [128]:
                            if kind == 'given' and not lo <= ls <= hi: continue
                            env = {n: ln, L: ls}
                            if sat(st, env) is not True: continue
                            x = ev(v[1], env); y = least(ln, ls)
                            if x is not None and x > y: bad = 'minSize(%d%s) is %s, the output can be %d' % (ln, ', %s' % (float(ls) if isfrac else ls) if kind == 'given' else '', x, y); break
                        if bad: break
                    ok = None
                    for d in ds:
                        if js.nonneg(st, ladd(q(d), v[1], -1)): ok = True
                    if js.bnd(st, v[1])[1] <= 0: ok = True
                    rep.check(RULE, w, False if bad else ok, bad or 'minSize = ' + showl(v[1]))
            finally:
                if old is None: js.bounds.pop(L, None)
                else: js.bounds[L] = old
                js.floats.discard(L)
    def subst(t, a, b):
        if t == a: return b
        if not isinstance(t, tuple): return t
        if t[0] == 'lin':
            r = K(64, t[2])
            for x, c in t[3]: r = add(r, mulk(subst(x, a, b), c))
            return r
        if t[0] == 'udiv': return ('udiv', t[1], subst(t[2], a, b), subst(t[3], a, b))
        return t
    def rng(st, L, js, isfrac):
        return [x for x in (FR if isfrac else LS) if sat(st, {L: x, n: 64}) is not False], None
    def facts_on(s, li, solve): return [(c, v) for c, v in solve.numeric_facts(s) if solve.atoms(c) == {li}]
    def all_capped(fs, li, solve):
        return bool(fs) and not any(all(solve.ev(c, {li: x}) == v for c, v in fs) for x in (1, 128, 129, 4096, INTMAX)) and any(all(solve.ev(c, {li: x}) == v for c, v in fs) for x in (INTMAX + 1, 1 << 40))
    guarded(rep, 'maxSize is at least what encodeTo demands', js.file, run)
    rep.cover['cases'] = 'whole, fractional and omitted line sizes; every path of maxSize and minSize against every rejecting path of EncodeTo'

# ------------------------------------------------------------ exports that stand for a native function
SIGS = {'encode': ('buf', 'int?', 'int?'), 'encodeTo': ('buf', 'buf', 'int?', 'int?'), 'decode': ('buf', 'bool?'), 'decodeTo': ('buf', 'buf', 'bool?'),
        'crc32': ('buf', 'crc?'), 'crc32_combine': ('crc', 'crc', 'len'), 'crc32_zeroes': ('int', 'crc?'), 'crc32_multiply': ('crc', 'crc'), 'crc32_shift': ('int', 'crc?')}
INTS = [0, 1, 2, -1, -5, 5, 64, 127, 128, 129, 4096, INTMAX, INTMAX + 1, INTMAX + 8, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 40) + 3, -(1 << 31), -(1 << 31) - 1, -(1 << 32) - 5, (1 << 53) - 1]
def forwarded(rep, names):
    """calling index.js's export does exactly what calling the native function of that name with the same arguments does"""
    m = Mod(); js = m.js
    for name in names:
        rule = 'the export passes its arguments to the native function unchanged'
        if name not in m.F: rep.check(rule, '%s: %s' % (js.file, name), False, 'index.js exports no ' + name); continue
        if m.F[name] == ('nat', name): rep.check(rule, '%s: %s' % (js.file, name), True, 'the native function itself'); continue
        if m.F[name][0] == 'nat': rep.check(rule, '%s: %s' % (js.file, name), False, 'is the native function ' + m.F[name][1]); continue
        guarded(rep, rule, m.where(m.F[name]) + ': ' + name, lambda: forward1(rep, rule, m, name))
def forward1(rep, rule, m, name):
    js = m.js; crc = name.startswith('crc32')
    sig = SIGS[name]; need = sum(not k.endswith('?') for k in sig)
    for cnt in range(need, len(sig) + 1):
        for bools in ((False, True) if any(k.startswith('bool') for k in sig[:cnt]) else (False,)):
            st = m.st.copy(); args = []; syms = {}
            for i, k in enumerate(sig[:cnt]):
                k = k.rstrip('?')
                if k in ('buf', 'crc'):
                    d = ('sym', 'argument %d' % (i + 1))
                    args.append(js.buf(st, (d if k == 'buf' else ('nat', 'crc32', (('buf', (d,)),)),)))      # a crc is 4 bytes long
                elif k in ('int', 'len'):
                    a = ('n', 'argument %d' % (i + 1)); js.bounds[a] = (0 if k == 'len' else -(1 << 53), 1 << 53); syms[i] = a; args.append(atom(a))
                else: args.append(('b', bools))
            case = '%s: %s with %d argument%s' % (m.where(m.F[name]), name, cnt, '' if cnt == 1 else 's') + (' (true)' if bools else '')
            outs = m.export(name, args, st)
            st0len = len(m.st.events)
            for v, s in outs:
                def find(pred):
                    return model(s, [(0, ((a, 1),)) for a in syms.values()], lambda a: [x for x in INTS if js.bounds[a][0] <= x <= js.bounds[a][1]] if a in syms.values() else [0, 1, 4, 100, 1 << 20], pred)
                def show(env): return '; for ' + ', '.join('%s = %s' % (a[1], env[a]) for a in sorted(syms.values())) if env and syms else ''
                def accepts(env):
                    if name not in ('encode', 'encodeTo'): return True
                    ls, col = ([env.get(syms[i], 0) for i in sorted(syms)] + [0, 0])[:2]
                    ls = min(ls or 128, INTMAX); return ls > 0 and 0 <= min(col, INTMAX) <= ls
                if isinstance(v, Abrupt):
                    env = find(accepts)
                    rep.check(rule, case, False if env is not None else None, m.err(v, s) + show(env)); continue
                nat = [e for e in s.events[st0len:] if e[0] == 'native']
                if not nat: rep.check(rule, case, None, 'a path without a native call'); continue
                e = nat[-1]; bad = und = None
                if len(nat) > 1: und = '%d native calls' % len(nat)
                if e[1] != name and not und: bad = 'calls the native function %s' % e[1]
                got = list(e[4])
                def cmpint(exp, g, i):
                    """g given where the caller gave the number exp"""
                    def same(x, y):
                        if crc: return (x - y) % 0xffffffff == 0 if name != 'crc32_combine' or min(x, y) >= 0 else x == y
                        if i == sig.index('int?'): x, y = x or 128, y or 128
                        return (x == y) or min(x, INTMAX) == min(y, INTMAX) or max(x, y) < 0
                    if g[0] == 'n':
                        if g[1] == exp[1]: return None, None
                        l = g[1]
                    elif g[0] in ('undef', 'null') and not crc: l = (0, ())
                    else: return None, 'passes %s for argument %d' % (showv(g), i + 1)
                    def differs(env):
                        if not accepts(env): return False
                        x, y = ev(exp[1], env), ev(l, env)
                        if y is None: return False
                        if y != y: y = 0      # the conversion to an integer takes NaN as 0
                        return not same(int(x), int(y)) if abs(y) != INF else True
                    env = find(differs)
                    if env is not None: return 'passes %s as argument %d%s' % (ev(l, env), i + 1, show(env)), None
                    return None, 'passes %s as argument %d' % (showl(l), i + 1)
                if not bad and not und:
                    for i, k in enumerate(sig):
                        exp = args[i] if i < len(args) else UNDEF; g = got[i] if i < len(got) else UNDEF
                        k = k.rstrip('?'); b = u = None
                        if k in ('buf', 'crc'):
                            if exp == UNDEF:
                                if g == UNDEF: b = 'passes undefined where the caller gave nothing, which the native function rejects' if e[5] > i else None
                                else: u = 'passes %s where the caller gave nothing' % (showv(g),)
                            elif g == exp: pass
                            elif g in args or g[0] in ('undef', 'null'): b = 'passes %s as argument %d' % ('argument %d' % (args.index(g) + 1) if g in args else 'nothing', i + 1)
                            elif g[0] == 'r' and s.heap[g[1]]['kind'] == 'buffer' and s.heap[g[1]].get('content') == s.heap[exp[1]].get('content') and not (i == 1 and k == 'buf'): pass
                            else: u = 'passes something else as argument %d' % (i + 1)
                        elif k == 'bool':
                            if g == exp or (exp == UNDEF or exp == ('b', False)) and g in (UNDEF, NULL, ('b', False)): pass
                            elif g[0] == 'b' or exp == ('b', True) and g in (UNDEF, NULL): b = 'passes %s where the caller gave %s' % (showv(g), showv(exp))
                            else: u = 'passes %s' % (showv(g),)
                        elif exp == UNDEF:
                            if g == UNDEF or g == NULL or not crc and g[0] == 'n' and (g[1] in ((0, ()), (128, ()) if i == sig.index('int?') else (0, ())) or not g[1][1] and g[1][0] != g[1][0]): pass
                            elif g[0] == 'n' and not g[1][1]: b = 'passes %s where the caller gave nothing' % showv(g)
                            else: u = 'passes %s where the caller gave nothing' % (showv(g),)
                        else: b, u = cmpint(exp, g, i)
                        bad = bad or b; und = und or u
                res = ('nat', e[1], e[2])
                ok = v == atom(res) if name.endswith('To') else v[0] == 'r' and s.heap[v[1]].get('kind') == 'buffer' and s.heap[v[1]].get('content') == (res,)
                if not bad and not und and not ok:
                    if v[0] in ('undef', 'null'): bad = 'returns %s' % (showv(v),)
                    else: und = 'does not return the native result'
                rep.check(rule, case, False if bad else None if und else True, bad or und or '')

# ------------------------------------------------------------ C17
CHARS = {'CR': '\r', 'LF': '\n', 'DT': '.', 'EQ': '='}
def decoder_enums():
    """state and end names of src/decoder.h in order, from the type-checked header"""
    p = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-x', 'c++', '-I', os.path.join(REPO, 'src'), '-'],
                       input='#include <stddef.h>\n#include <stdint.h>\n#include "decoder.h"\n', capture_output=True, text=True)
    if not p.stdout: raise AnalysisError('cannot parse src/decoder.h: ' + p.stderr[:200])
    found = {}
    def walk(n):
        if n.get('kind') == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl': continue
                x = None
                for d in c.get('inner', []):
                    if d.get('kind') == 'ConstantExpr': x = int(d['value'])
                v = x if x is not None else v + 1
                found[c['name']] = v
        for c in n.get('inner', []): walk(c)
    walk(json.loads(p.stdout))
    st, en = {}, {}
    for k, v in found.items():
        if k.startswith('YDEC_STATE_'):
            t = k[len('YDEC_STATE_'):]; s = ''
            while t and t != 'NONE':
                for c in CHARS:
                    if t.startswith(c): s += CHARS[c]; t = t[len(c):]; break
                else: raise AnalysisError('unknown decoder state name ' + k)
            st[v] = s
        if k.startswith('YDEC_END_'): en[v] = {'NONE': None, 'CONTROL': '\r\n=y', 'ARTICLE': '\r\n.\r\n'}.get(k[len('YDEC_END_'):], False)
    if len(st) < 7 or set(en.values()) != {None, '\r\n=y', '\r\n.\r\n'}: raise AnalysisError('decoder states %r, ends %r' % (st, en))
    return st, en
def denotes(s, table):
    """decoder state a state string stands for: the longest known suffix ("\\r\\n.=" is "\\r\\n=" once the dot is stripped)"""
    if s.endswith('\r\n.='): s = '\r\n='
    return max((t for t in table.values() if s.endswith(t)), key=len)

def c17(rep):
    m = Mod(); js = m.js; table, ends = decoder_enums()
    inv = {s: v for v, s in table.items()}
    where = m.where(m.F['decodeChunk'])
    f = m.F['decodeChunk']
    if f[0] != 'r': raise AnalysisError('decodeChunk is not a function of index.js')
    st = m.st.copy()
    data = js.buf(st, (('sym', 'data'),)); out = js.buf(st, (('sym', 'output'),))
    empty = js.buf(st, ())
    def show(args):
        n = {data: 'data', out: 'output', empty: 'empty Buffer', UNDEF: 'undefined', NULL: 'null'}
        return 'decodeChunk(%s)' % ', '.join(n.get(a) or (repr(sconc(a)) if a[0] == 's' else 'Buffer of ' + showc(st.heap[a[1]]['content'])) for a in args)
    def fact_alts(s, key, what, n):
        v = s.facts.get(('A', ('nat', 'decodeIncr', key, what)))
        return list(range(n)) if v is None else [v]
    def one(args, given, supplied):
        """given: the state string meant, supplied: the output Buffer meant (or None)"""
        want = denotes(given, table)
        outs = m.call(f, m.ex, list(args), st)
        for v, s in outs:
            w = where + ': decodeChunk'
            if isinstance(v, Abrupt):
                rep.check('decodeChunk accepts every state string and Buffer', w, False, '%s throws %s' % (show(args), m.err(v, s))); continue
            if v[0] != 'r': rep.check('an object is returned', w, False, '%s returns %s' % (show(args), v[:2])); continue
            rep.check('decodeChunk accepts every state string and Buffer', w, True)
            P = dict(s.heap[v[1]]['props'])
            missing = [k for k in ('read', 'written', 'output', 'ended', 'state') if k not in P]
            if missing: rep.check('the result has every documented key', w, False, '%s: no %s' % (show(args), ', '.join(missing))); continue
            nat = [e for e in s.events if e[0] == 'native']
            for e in nat:
                if e[1] != 'decodeIncr': rep.check('the chunk goes to the incremental decoder', w, None, 'native ' + e[1])
            nat = [e for e in nat if e[1] == 'decodeIncr']
            if len(nat) > 1: rep.check('the chunk is decoded once', w, False, '%s calls the decoder %d times' % (show(args), len(nat))); continue
            blank = (0, ((('len', ('sym', 'data')), 1),))
            isempty = args[0] == empty or js.bnd(s, blank)[1] <= 0
            if isempty and not nat:
                bad = []
                for k, x in (('read', num(0)), ('written', num(0)), ('ended', FALSE)):
                    if P[k] != x: bad.append('%s is %s' % (k, showv(P[k])))
                x = sconc(P['state']) if P['state'][0] == 's' else None
                if x is None or denotes(x, table) != want: bad.append('state is %r' % (x,))
                if supplied is not None and P['output'] != supplied: bad.append('output is not the supplied Buffer')
                if supplied is None and not (js.isbuf(s, P['output']) and js.content(s, P['output']) == ()): bad.append('output is not an empty Buffer')
                rep.check('empty data changes nothing', w, not bad, '%s: %s' % (show(args), '; '.join(bad)))
                continue
            if not nat: rep.check('the chunk goes to the incremental decoder', w, False, '%s never calls it' % show(args)); continue
            key = nat[0][2]; bad = []
            if not key or key[0] != ('buf', js.content(st, args[0])): bad.append('the data passed on is %s' % (showc(key[0][1]) if key and key[0][0] == 'buf' else key[:1],))
            k1 = key[1] if len(key) > 1 else UNDEF
            got = table.get(cval(k1)) if k1[0] == 'n' and conc(k1) else ('\r\n' if k1 in (UNDEF, NULL) and inv['\r\n'] == 0 else None)
            if k1[0] == 'n' and not conc(k1): rep.check('a state string stands for the decoder state with those last characters', w, None, showv(k1))
            else: rep.check('a state string stands for the decoder state with those last characters', w, got == want, '%s starts the decoder in state %s, %r was meant' % (show(args), repr(got) if got is not None else showv(k1), want))
            k2 = key[2] if len(key) > 2 else UNDEF
            raw = nat[0][4][2] if len(nat[0][4]) > 2 else UNDEF
            if supplied is not None and raw != supplied: bad.append('output passed to the decoder is not the supplied Buffer')
            if supplied is None and k2 not in (UNDEF, NULL) and k2 != FALSE: bad.append('an output Buffer is passed though none was supplied')
            rep.check('the decoder gets the data and the output Buffer of the call', w, not bad, '%s: %s' % (show(args), '; '.join(bad)))
            bad = []
            A = lambda k: ('n', (0, ((('nat', 'decodeIncr', key, k), 1),)))
            for k in ('read', 'written'):
                if P[k] != A(k): bad.append('%s is %s' % (k, showv(P[k])))
            wo = supplied if supplied is not None else None
            if wo is not None and P['output'] != wo: bad.append('output is not the supplied Buffer')
            if wo is None and not (js.isbuf(s, P['output']) and js.content(s, P['output']) == (('nat', 'decodeIncr', key, 'output'),)): bad.append('output is not what the decoder allocated')
            rep.check('the counts and the output of the decoder are returned', w, not bad, '%s: %s' % (show(args), '; '.join(bad)))
            bad = []; und = []
            for e in fact_alts(s, key, 'ended', 3):
                for k in fact_alts(s, key, 'state', 7):
                    for (en, s2) in truth(js, s, P['ended']):
                        if en is None: bad.append('ended is not a boolean')
                        elif en != (ends[e] is not None): bad.append('ended is %s at end kind %d' % (en, e))
                    x = sconc(P['state']) if P['state'][0] == 's' else None
                    if P['state'][0] == 's' and x is None: und.append(showv(P['state'])); continue
                    if x is None: bad.append('state is %s at end kind %d, decoder state %d' % (P['state'][0], e, k)); continue
                    if ends[e] is not None:
                        if x != ends[e]: bad.append('state is %r at end kind %d' % (x, e))
                    elif denotes(x, table) != table[k] or len(x) > 4: bad.append('decoder state %r is returned as %r' % (table[k], x))
            rep.check('the returned state and end strings are those of the decoder', w, False if bad else None if und else True, '%s: %s' % (show(args), '; '.join((bad or und)[:3])))
    def truth(js, s, v):
        if v[0] == 'b': return [(v[1], s)]
        if v[0] in ('alts', 'phi'): return [x for y, q in js.deref(s, v) for x in truth(js, q, y)]
        return [(None, s)]
    AL = ['\r', '\n', '.', '=', 'y', '\u2603']
    strs = [''.join(t) for k in range(5) for t in itertools.product(AL, repeat=k)]
    strs += ['ab\r\n', 'abc\r\n.', '\r\n.\r\n', '\r\n=y', 'a\r\n.=', '\r\n\r\n.\r', 'abcd=', 'abcdefgh', '\r\n.\r\n=']
    def run():
        for t in strs: one((data, S(t)), t, None)
        for t in list(table.values()) + ['\r\n.=', 'x', '\r\n=y', '\r\n.\r\n']:
            for sup in (None, out):
                v = S(t)
                forms = [(data, v), (data, v, UNDEF), (data, v, NULL)] if sup is None else [(data, v, out)]
                for a in forms:
                    one(a, t, sup); one((empty,) + a[1:], t, sup)
        for a in ((data,), (data, UNDEF), (data, NULL), (data, UNDEF, UNDEF), (data, NULL, NULL), (data, NULL, UNDEF)): one(a, '\r\n', None); one((empty,) + a[1:], '\r\n', None)
        for a in ((data, out), (data, out, UNDEF), (data, out, NULL), (data, NULL, out), (data, UNDEF, out)): one(a, '\r\n', out); one((empty,) + a[1:], '\r\n', out)
    guarded(rep, 'decodeChunk accepts every state string and Buffer', where, run)
    rep.cover['state_strings'] = len(strs); rep.cover['decoder_states'] = {str(k): v for k, v in table.items()}

# ------------------------------------------------------------ C18, C19, C20: generated posts
FN = ('sym', 'filename')
def tokens(content, enc=None):
    """contents of a post as a list of literals, numbers, hex fields, encoded data and pieces of the filename"""
    out = []
    def add(t):
        if out and out[-1][0] == 'lit' and t[0] == 'lit': out[-1] = ('lit', out[-1][1] + t[1])
        else: out.append(t)
    for p in content:
        if mentions(p, FN): add(('name', p))
        elif p[0] == 'lit': add(p)
        elif p[0] == 'enc' and len(p[1]) == 1 and not isinstance(p[1][0], str) and p[1][0][0] == 'num': add(('num', p[1][0][1]))
        elif p[0] == 'enc' and len(p[1]) == 1 and not isinstance(p[1][0], str) and p[1][0][0] == 'hex': add(('hex', p[1][0][1]))
        elif p[0] == 'enc' and all(isinstance(q, str) for q in p[1]): add(('lit', ''.join(p[1]).encode('utf8')))
        else: add(('raw', p))
    return out
def normcrc(c):
    """crc contents up to: combining with the CRC of nothing"""
    if len(c) == 1 and c[0][0] == 'nat' and c[0][1] == 'crc32_combine' and len(c[0][2]) == 3:
        a, b, n = c[0][2]
        a = normcrc(a[1]) if a[0] == 'buf' else a; b = normcrc(b[1]) if b[0] == 'buf' else b
        if a == (('lit', b'\0\0\0\0'),): return b
        return (('nat', 'crc32_combine', (('buf', a), ('buf', b), n)),)
    return c
def normtok(t): return ('hex', normcrc(t[1])) if t[0] == 'hex' else t
def showtok(t):
    return repr(t[1].decode('latin1')) if t[0] == 'lit' else '<%s>' % showl(t[1]) if t[0] == 'num' else 'hex(%s)' % showc(t[1]) if t[0] == 'hex' else 'name(%s)' % showc((t[1],)) if t[0] == 'name' else showc((t[1],))
def lit(s): return ('lit', s.encode())
def crcof(d): return (('nat', 'crc32', (('buf', d),)),)
def combined(a, d, ln): return normcrc((('nat', 'crc32_combine', (('buf', a), ('buf', crcof(d)), N(ln))),))
def post_tokens(L, d, ln, size=None, part=None, total=None, pos=None, full=None):
    size = ln if size is None else size
    r = [lit('=ybegin ')]
    if part is not None: r += [lit('part='), ('num', part), lit(' total='), ('num', total), lit(' ')]
    r += [lit('line='), ('num', L), lit(' size='), ('num', size), lit(' name='), ('NAME',), lit('\r\n')]
    if part is not None: r += [lit('=ypart begin='), ('num', ladd(pos, (1, ()))), lit(' end='), ('num', ladd(pos, ln)), lit('\r\n')]
    r += [('raw', ('nat', 'encode', (('buf', d), N(L)))), lit('\r\n=yend size='), ('num', ln)]
    if part is not None: r += [lit(' part='), ('num', part), lit(' pcrc32='), ('hex', crcof(d))]
    if full is not None: r += [lit(' crc32='), ('hex', full)]
    out = []
    for t in r:
        if t[0] == 'num' and not t[1][1]: t = lit(str(t[1][0]))
        if out and out[-1][0] == 'lit' and t[0] == 'lit': out[-1] = ('lit', out[-1][1] + t[1])
        else: out.append(t)
    return out
def samepost(got, want):
    """None when the token lists agree, otherwise (position, got, wanted)"""
    for i in range(max(len(got), len(want))):
        g = normtok(got[i]) if i < len(got) else None; w = normtok(want[i]) if i < len(want) else None
        if w is not None and w[0] == 'NAME':
            if g is None or g[0] != 'name': return (i, g, w)
        elif g != w:
            # the encoder called without a line size uses 128
            if g and w and g[0] == w[0] == 'raw' and g[1][0] == 'nat' and g[1][1] == 'encode' and g[1][2][0] == w[1][2][0] and w[1][2][1] == N((128, ())) and (len(g[1][2]) == 1 or g[1][2][1] in (UNDEF, NULL)): continue
            return (i, g, w)
    return None

def name_bytes(p, enc=True):
    """bytes a piece of a Buffer can contain; characters excluded from the string it comes from"""
    if p[0] == 'lit': return set(p[1])
    if p[0] == 'filter': return set().union(*[name_bytes(q) for q in p[2]]) & set(p[1]) if p[2] else set()
    if p[0] == 'slice': return set().union(*[name_bytes(q) for q in p[1]]) if isinstance(p[1], tuple) else set(range(256))
    if p[0] == 'enc':
        e = sconc(p[2]) if isinstance(p[2], tuple) and p[2] and p[2][0] == 's' else None
        ex = excluded(p[1])
        if e in ('utf8', 'utf-8', 'ascii') and e != 'ascii': return set(range(256)) - {c for c in ex if c < 128}
        return set(range(256))     # other encodings map further characters to any byte
    return set(range(256))
def excluded(pieces):
    """character codes below 256 no character of the string can have"""
    r = None
    for p in pieces:
        if isinstance(p, str): x = set(range(256)) - {ord(c) for c in p}
        elif p[0] == 'strip': x = excluded(p[1]) | {c for a, b in p[2] for c in range(a, min(b, 255) + 1)}
        elif p[0] in ('substr', 'drop', 'trim', 'sub'): x = excluded(p[1])
        elif p[0] in ('num', 'hex'): x = set(range(256)) - set(range(32, 127))
        else: x = set()
        r = x if r is None else r & x
    return r if r is not None else set(range(256))

class Posts:
    """paths of post and of YEncoder histories"""
    def __init__(self):
        self.m = Mod(); self.js = self.m.js; js = self.js
        self.L = ('n', 'line_size'); self.size = ('n', 'size'); self.parts = ('n', 'parts')
        js.bounds[self.L] = (1, INF); js.bounds[self.size] = (0, INF); js.bounds[self.parts] = (1, INF)
        self.fn = ('s', (FN,))
    def post(self, kind, given):
        st = self.m.st.copy(); js = self.js
        d = js.buf(st, (('sym', 'data'),)) if kind == 'Buffer' else ('s', (('sym', 'text'),))
        dc = (('sym', 'data'),) if kind == 'Buffer' else (('enc', (('sym', 'text'),), S('utf8')),)
        outs = self.m.export('post', [self.fn, d] + ([atom(self.L)] if given else []), st)
        return dc, outs
    def new(self, parts, given=True, size=None):
        st = self.m.st.copy()
        return self.m.export('multi_post', [self.fn, N(size) if size is not None else atom(self.size), parts] + ([atom(self.L)] if given else []), st)
    def fields(self, inst, st):
        P = st.heap[inst[1]]['props']; r = {}
        for k in ('part', 'pos'): r[k] = P[k][1] if k in P and P[k][0] == 'n' else None
        c = P.get('crc'); r['crc'] = normcrc(self.js.content(st, c)) if c and self.js.isbuf(st, c) else None
        return r
    def snapshot(self, inst, st):
        o = st.heap[inst[1]]; r = {}
        for k, v in o['props'].items():
            r[k] = ('buf', st.heap[v[1]]['content']) if v[0] == 'r' and st.heap[v[1]]['kind'] == 'buffer' else v
        return r
    def encode(self, inst, st, arg):
        js = self.js
        outs = js.getprop(st.copy(), inst, S('encode'), {'loc': 0})
        res = []
        for f, s in outs:
            if isinstance(f, Abrupt): res.append((f, s, [])); continue
            r = self.m.call(f, inst, [arg], s); snaps = list(self.m.snaps)
            res += [(v, q, snaps) for v, q in r]
        return res

def posts_headers(rep, P, where, got, want, what, st, path):
    d = samepost(got, want)
    if d is None: rep.check('the post has exactly the prescribed text and fields', where, True, what); return
    i, g, w = d
    ok = False
    # numbers that the path may force to be equal, or contents outside the vocabulary
    if g and w and g[0] == 'raw' and w[0] in ('raw', 'NAME') and g[1][0] not in ('nat', 'lit'): ok = None
    noname = w is not None and (w[0] == 'NAME' or w[0] == 'lit' and i + 1 < len(want) and want[i + 1][0] == 'NAME' and g is not None and g[0] == 'lit' and g[1].startswith(w[1]))
    if noname and ok is False and no_name(st):
        want = merge([t for t in want if t[0] != 'NAME']); return posts_headers(rep, P, where, got, want, what, st, path)
    if g and w and g[0] == w[0] == 'num':
        df = ladd(g[1], w[1], -1); lo, hi = P.js.bnd(st, df)
        if lo == hi == 0:
            got = list(got); got[i] = w; return posts_headers(rep, P, where, got, want, what, st, path)
        if model(st, [df], dom_small, lambda env: ev(df, env) not in (0, None)) is None: ok = None
    if g and w and 'num' in (g[0], w[0]) and {g[0], w[0]} == {'num', 'lit'}:
        # a number the path fixes to a constant
        l = g[1] if g[0] == 'num' else w[1]; lo, hi = P.js.bnd(st, l)
        if lo == hi:
            sub = lambda ts: merge([lit(str(int(lo))) if t == ('num', l) else t for t in ts])
            return posts_headers(rep, P, where, sub(got), sub(want), what, st, path)
    if noname and ok is False and name_bytes_tested(st): ok = None
    rep.check('the post has exactly the prescribed text and fields', where, ok, '%s: %s where %s belongs' % (what, showtok(g) if g else 'the end', 'the filename' if w and w[0] == 'NAME' else showtok(w) if w else 'the end'), path)
def no_name(st):
    """the path assumes that nothing is left of the filename"""
    for k, f in st.facts.items():
        if k[0] == 'S' and len(k[1]) == 1:
            (a, c), = k[1]
            if a[0] in ('len', 'slen') and mentions(a, FN) and (f[1] if c > 0 else -f[0]) <= 0: return True
    return False
def name_bytes_tested(st):
    """the path assumes something of single bytes of the filename"""
    def has(t): return isinstance(t, tuple) and (bool(t) and t[0] in ('byte', 'byte?') and mentions(t, FN) or any(has(x) for x in t))
    return any(has(k) for k in st.facts)
def merge(ts):
    out = []
    for t in ts:
        if out and out[-1][0] == 'lit' and t[0] == 'lit': out[-1] = ('lit', out[-1][1] + t[1])
        else: out.append(t)
    return out
def dom_small(a):
    if a[0] == 'n': return {'size': [0, 1, 2, 3, 4, 5], 'parts': [1, 2, 3, 4], 'part': [0, 1, 2, 3], 'pos': [0, 1, 2, 3]}.get(a[1], [1, 2, 128])
    if a[0] in ('len', 'slen'): return [0, 1, 2, 3]
    return None
def name_form(rep, P, where, p, what):
    """at most 256 characters, encoded with the encoding setting, nothing else removed"""
    q = p; keep = None
    while q[0] == 'filter': keep = q[1] if keep is None else keep & q[1]; q = q[2][0] if len(q[2]) == 1 else q[2]
    if keep is not None and set(range(256)) - set(keep) - {0, 10, 13}:
        rep.check('the name is the given one without line breaks and nulls', where, False, '%s: bytes %s are removed' % (what, sorted(set(range(256)) - set(keep) - {0, 10, 13})))
    if q[0] != 'enc': rep.check('the name is encoded with the encoding setting', where, None, '%s: %s' % (what, showc((p,)))); return
    rep.check('the name is encoded with the encoding setting', where, q[2] == ENC, '%s: encoded as %s' % (what, q[2]))
    ps = q[1]; cut = None
    while len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] in ('substr', 'strip', 'drop'):
        t = ps[0]
        if t[0] == 'substr':
            if t[2] != 0: rep.check('the name starts with its first character', where, False, '%s: characters from %s on' % (what, t[2])); return
            cut = t[3] if cut is None else min(cut, t[3])
        elif t[0] == 'strip':
            ch = {c for a, b in t[2] for c in range(a, min(b, 70000) + 1)} - {0, 10, 13}
            rep.check('the name is the given one without line breaks and nulls', where, not ch, '%s: characters %s are removed' % (what, sorted(ch)[:5]))
        else: break
        ps = t[1]
    if ps != (FN,): rep.check('the name is the given one without line breaks and nulls', where, None, '%s: %s' % (what, showc(ps))); return
    rep.check('the name is cut to at most 256 characters', where, cut is not None and isinstance(cut, (int, float)) and cut == 256, '%s: %s' % (what, 'not cut' if cut is None else 'cut at %s' % cut))

def history(P, on_step, parts_list, kinds=('Buffer',), given=(True,), extra=1):
    """every sequence of accepted and rejected encode calls, up to one call more than there are parts; then one step from an arbitrary point"""
    js = P.js; runs = 0
    for pc in parts_list:
        for gv in given:
            for kind in kinds:
                for v, st in P.new(num(pc), gv):
                    if isinstance(v, Abrupt) or v[0] != 'r': on_step('new', None, st, None, None, v, None, gv, pc, 0, []); continue
                    todo = [(v, st, 0, 0)]
                    while todo:
                        inst, s0, k, rej = todo.pop()
                        if k >= pc + extra: continue
                        before = P.fields(inst, s0); bsnap = P.snapshot(inst, s0)
                        s1 = s0.copy()
                        d = ('sym', 'data%d' % (k + 1))
                        arg = js.buf(s1, (d,)) if kind == 'Buffer' else ('s', (d,))
                        dc = (d,) if kind == 'Buffer' else (('enc', (d,), S('utf8')),)
                        for r, s2, snaps in P.encode(inst, s1, arg):
                            runs += 1
                            on_step('encode', inst, s2, before, bsnap, r, dc, gv, pc, k, snaps)
                            if not isinstance(r, Abrupt): todo.append((inst, s2, k + 1, rej))
                            elif rej < 1 and k < pc: todo.append((inst, s2, k, rej + 1))
    return runs
def generic_step(P, on_step, given=True):
    """one call at an arbitrary point of an encoder with any number of parts; private fields are those after construction.
    Returns the private fields an accepted non-final call changed: empty means the step covers every history."""
    js = P.js; changed = set()
    part, pos = ('n', 'part'), ('n', 'pos'); js.bounds[part] = (0, INF); js.bounds[pos] = (0, INF)
    n = 0
    for v, st in P.new(atom(P.parts), given):
        if isinstance(v, Abrupt) or v[0] != 'r': continue
        lo, hi = js.bnd(st, (0, ((P.parts, 1),)))
        s = st.copy(); o = dict(s.heap[v[1]]); o['props'] = dict(o['props'])
        single = hi <= 1
        if not single:
            o['props'].update(part=atom(part), pos=atom(pos), crc=js.buf(s, (('sym', 'crc'),)))
            s.heap[v[1]] = o
            # part < parts and pos <= size: what holds between two accepted calls
            outs = [q for t, q in js.rel(s, '<', atom(part), atom(P.parts), {'loc': 0}) if t]
            outs = [q2 for q in outs for t, q2 in js.rel(q, '<=', atom(pos), atom(P.size), {'loc': 0}) if t]
        else: outs = [s]
        for q in outs:
            before = P.fields(v, q); bs = P.snapshot(v, q); d = ('sym', 'data'); s1 = q.copy(); arg = js.buf(s1, (d,))
            for r, s2, snaps in P.encode(v, s1, arg):
                n += 1
                on_step('encode', v, s2, before, bs, r, (d,), given, None, None, snaps)
                if not isinstance(r, Abrupt) and not single:
                    f = P.fields(v, s2)
                    fin = js.bnd(s2, ladd(before['part'], (0, ((P.parts, 1),)), -1))
                    if fin[0] < -1 or fin[1] != -1:
                        a = P.snapshot(v, s2)
                        changed |= {k for k in set(a) | set(bs) if k not in ('part', 'pos', 'crc') and a.get(k) != bs.get(k)}
    return n, changed

def facts_of(P, before, parts, st, ln):
    """[(accept?, final?, state)] by the specification"""
    js = P.js; out = []
    pl = (parts, ()) if isinstance(parts, int) else (0, ((P.parts, 1),))
    nxt = ladd(before['part'], (1, ())); end = ladd(before['pos'], ln); size = (0, ((P.size, 1),))
    for over, s in js.signin(st, ladd(nxt, pl, -1), ('+',)):
        if over: out.append((False, None, s)); continue
        for big, s2 in js.signin(s, ladd(end, size, -1), ('+',)):
            if big: out.append((False, None, s2)); continue
            for last, s3 in js.signin(s2, ladd(nxt, pl, -1), ('0',)):
                if not last: out.append((True, False, s3)); continue
                for full, s4 in js.signin(s3, ladd(end, size, -1), ('0',)): out.append((full, True, s4))
    return out

def c18(rep):
    P = Posts(); js = P.js; where = P.m.where(P.m.F['post']); ywhere = P.m.where(P.m.F['multi_post'])
    Ll = lambda st, gv: (128, ()) if not gv else None
    def post():
        for kind in ('Buffer', 'string'):
            for gv in (True, False):
                dc, outs = P.post(kind, gv); ln = js.blen(P.m.st, dc)
                for v, st in outs:
                    what = 'post of a %s%s' % (kind, '' if gv else ', default line size')
                    if isinstance(v, Abrupt): rep.check('a post is returned', where, None, what + ': ' + P.m.err(v, st)); continue
                    if not js.isbuf(st, v): rep.check('a post is returned', where, False, what + ' returns no Buffer'); continue
                    got = tokens(js.content(st, v)); L = (0, ((P.L, 1),)) if gv else (128, ())
                    posts_headers(rep, P, where + ': post', got, post_tokens(L, dc, ln, full=crcof(dc)), what, st, [showc(js.content(st, v))])
                    for t in got:
                        if t[0] == 'name': name_form(rep, P, where + ': post', t[1], what)
    guarded(rep, 'the post has exactly the prescribed text and fields', where, post)
    def step(op, inst, st, before, bsnap, r, dc, gv, pc, k, snaps):
        if op == 'new': rep.check('multi_post returns an encoder', ywhere, None, P.m.err(r, st) if isinstance(r, Abrupt) else str(r)[:80]); return
        if isinstance(r, Abrupt): return
        what = 'part %s of %s' % (k + 1 if k is not None else 'n', pc if pc else 'any number') + ('' if gv else ', default line size')
        if not js.isbuf(st, r): rep.check('a part is returned', ywhere, False, what + ' returns no Buffer'); return
        if None in before.values(): rep.check('part, pos and crc describe the data so far', ywhere, None, what + ': part, pos and crc are not a number, a number and a Buffer'); return
        ln = js.blen(st, dc); L = (0, ((P.L, 1),)) if gv else (128, ()); size = (0, ((P.size, 1),)); got = tokens(js.content(st, r))
        single = (pc == 1) if pc else js.bnd(st, (0, ((P.parts, 1),)))[1] <= 1
        total = (pc, ()) if pc else (0, ((P.parts, 1),))
        for acc, last, s in facts_of(P, before, pc if pc else 'parts', st, ln):
            if not acc: continue          # C20 judges this
            if single: want = post_tokens(L, dc, ln, size=ln, full=combined(before['crc'], dc, ln))
            else: want = post_tokens(L, dc, ln, size=size, part=ladd(before['part'], (1, ())), total=total, pos=before['pos'], full=combined(before['crc'], dc, ln) if last else None)
            g2 = [('num', ln) if single and t == ('num', size) and js.bnd(s, ladd(ln, size, -1)) == (0, 0) else t for t in got]
            posts_headers(rep, P, ywhere + ': multi_post, %s part' % ('single' if single else 'last' if last else 'earlier'), g2, want, what, s, [showc(js.content(st, r))])
        for t in got:
            if t[0] == 'name': name_form(rep, P, ywhere + ': multi_post', t[1], what)
    def multi():
        n = history(P, step, [1, 2, 3], ('Buffer',), (True, False)); n += history(P, step, [1, 2], ('string',), (True,))
        g, changed = generic_step(P, step)
        rep.cover['encode_calls_followed'] = n + g
        rep.cover['any_number_of_parts'] = 'covered by one step from an arbitrary point' if not changed else 'up to 3 parts only: calls change ' + ', '.join(sorted(changed))
    guarded(rep, 'the post has exactly the prescribed text and fields', ywhere, multi)
    rep.need('the post has exactly the prescribed text and fields', 3)

def c19(rep):
    P = Posts(); js = P.js
    bad = {0: 'NUL', 10: 'LF', 13: 'CR'}
    seen = set()
    def judge(where, content, what, st):
        ps = [p for p in content if mentions(p, FN)]
        if not ps: rep.check('no CR, LF or NUL of the filename reaches the post', where, True, what + ' contains nothing of the filename'); return
        for p in ps:
            b = name_bytes(p) & set(bad); seen.add(where)
            known = p[0] in ('filter', 'enc', 'lit', 'slice')
            # a concrete character for each byte that gets through
            how = ''
            if b and p[0] in ('enc', 'filter'):
                e = p if p[0] == 'enc' else p[2][0]
                ex = excluded(e[1]) if e[0] == 'enc' else set()
                c = min(b); how = ', for instance as character U+%04X' % (c if c not in ex else 0x100 + c) + ('' if c not in ex else " with encoding 'latin1'")
            rep.check('no CR, LF or NUL of the filename reaches the post', where, (False if known else None) if b else True, '%s: the filename piece %s lets %s through%s' % (what, showc((p,))[:300], ', '.join(bad[c] for c in sorted(b)), how))
    where = P.m.where(P.m.F['post']) + ': post'; yw = P.m.where(P.m.F['multi_post']) + ': multi_post'
    def run():
        for kind in ('Buffer', 'string'):
            for gv in (True, False):
                dc, outs = P.post(kind, gv)
                for v, st in outs:
                    if not isinstance(v, Abrupt) and js.isbuf(st, v): judge(where, js.content(st, v), 'post', st)
    def step(op, inst, st, before, bsnap, r, dc, gv, pc, k, snaps):
        if op == 'encode' and not isinstance(r, Abrupt) and js.isbuf(st, r): judge(yw, js.content(st, r), 'part %s of %s' % (k + 1 if k is not None else 'n', pc or 'any number'), st)
    guarded(rep, 'no CR, LF or NUL of the filename reaches the post', where, run)
    guarded(rep, 'no CR, LF or NUL of the filename reaches the post', yw, lambda: (history(P, step, [1, 2], ('Buffer',), (True, False)), generic_step(P, step)))
    if not seen: rep.check('the filename reaches the post', where, None, 'no output contains the filename')
    rep.cover['encodings'] = 'every value of the encoding setting: a byte filter is judged after encoding, a character filter only counts for UTF-8'

def c20(rep):
    P = Posts(); js = P.js; where = P.m.where(P.m.F['multi_post']) + ': multi_post encode'
    def step(op, inst, st, before, bsnap, r, dc, gv, pc, k, snaps):
        if op == 'new': rep.check('multi_post returns an encoder', where, None, P.m.err(r, st) if isinstance(r, Abrupt) else str(r)[:80]); return
        what = ('call %d of an encoder with %d part%s' % (k + 1, pc, '' if pc == 1 else 's')) if pc else 'a call at an arbitrary point'
        if None in before.values(): rep.check('part, pos and crc describe the data so far', where, None, what + ': part, pos and crc are not a number, a number and a Buffer'); return
        ln = js.blen(st, dc); size = (0, ((P.size, 1),))
        after = P.fields(inst, st)
        def same(a, b, s):
            if a is None or b is None: return None
            d = ladd(a, b, -1); lo, hi = js.bnd(s, d)
            if lo == hi == 0: return True
            if lo > 0 or hi < 0: return False
            return False if model(s, [d], dom_small, lambda env: ev(d, env) not in (0, None)) else None
        for acc, last, s in facts_of(P, before, pc if pc else 'parts', st, ln):
            rejected = isinstance(r, Abrupt)
            if acc == (not rejected): rep.check('a part is accepted exactly when it fits', where, True, what)
            else:
                env = model(s, [before['part'], before['pos'], ln, size], dom_small)
                rep.check('a part is accepted exactly when it fits', where, False if env is not None else None, '%s is %s (%s)%s' % (what, 'rejected: ' + P.m.err(r, st) if rejected else 'accepted', 'it fits' if acc else 'it has to be rejected', ' for ' + showenv(env) if env else ''))
                continue
            if rejected:
                ok = all(same(after[x], before[x], s) for x in ('part', 'pos')) and after['crc'] == before['crc']
                diff = [x for x in after if after[x] != before[x]]
                rep.check('a rejected call changes nothing', where, ok if ok else (False if diff else None), '%s: %s' % (what, ', '.join('%s %s becomes %s' % (x, sh(before[x]), sh(after[x])) for x in diff)))
            else:
                a = same(after['part'], ladd(before['part'], (1, ())), s); b = same(after['pos'], ladd(before['pos'], ln), s)
                rep.check('part counts the accepted parts', where, a, '%s: part is %s, expected %s' % (what, sh(after['part']), sh(ladd(before['part'], (1, ())))))
                rep.check('pos counts the accepted bytes', where, b, '%s: pos is %s, expected %s' % (what, sh(after['pos']), sh(ladd(before['pos'], ln))))
                want = combined(before['crc'], dc, ln)
                rep.check('crc is the CRC of all accepted data', where, after['crc'] == want if after['crc'] is not None else None, '%s: crc is %s, expected %s' % (what, sh(after['crc']), sh(want)))
        # a native call may throw as well: nothing may have been changed by then
        for name, key, at, q in snaps:
            if inst[1] not in q.heap: continue
            f = P.fields(inst, q)
            ok = f == before
            rep.check('a call that fails inside the native module changes nothing', '%s: %s' % (where, at), ok, '%s: when %s throws, %s' % (what, name, ', '.join('%s is already %s' % (x, sh(f[x])) for x in f if f[x] != before[x])))
            # and the private state still admits the call
            a = P.snapshot(inst, q)
            ch = [x for x in set(a) | set(bsnap) if x not in ('part', 'pos', 'crc') and a.get(x) != bsnap.get(x)]
            if ch: rep.check('a call that fails inside the native module changes nothing', '%s: %s' % (where, at), None if ok else False, '%s: when %s throws, %s has changed' % (what, name, ', '.join(ch)))
    def sh(x): return 'no value' if x is None else showl(x) if len(x) == 2 and isinstance(x[1], tuple) and not isinstance(x[0], tuple) else showc(x)
    def run():
        n = history(P, step, [1, 2, 3] + ([4] if os.environ.get('VERIF_TIER') == 'thorough' else []), ('Buffer',), (True,)); n += history(P, step, [1, 2], ('string',), (True,))
        g, changed = generic_step(P, step)
        rep.cover['encode_calls_followed'] = n + g
        rep.cover['any_number_of_parts'] = 'covered by one step from an arbitrary point' if not changed else 'up to 3 parts only: calls change ' + ', '.join(sorted(changed))
    guarded(rep, 'a part is accepted exactly when it fits', where, run)
    rep.need('a part is accepted exactly when it fits', 8)

# ------------------------------------------------------------ C23, C24: what the module as a whole touches
def from_post_paths(m, limit=400):
    """all paths of from_post over an arbitrary Buffer"""
    js = m.js; st = m.st.copy()
    d = js.buf(st, (('sym', 'post'),))
    js.merge_on = True
    try: outs = m.export('from_post', [d, TRUE], st)
    finally: js.merge_on = False
    return outs

DOCUMENTED = ['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeChunk', 'minSize', 'maxSize', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift', 'post', 'multi_post', 'from_post']
NATIVE = {'encode': 3, 'encodeTo': 4, 'decode': 2, 'decodeTo': 3, 'crc32': 2, 'crc32_combine': 3, 'crc32_zeroes': 2, 'crc32_multiply': 2, 'crc32_shift': 2}

def exercise(P, sink):
    """interpret every JavaScript export over symbolic arguments; sink(name, value, state)"""
    m = P.m; js = m.js
    def go(name, outs):
        for v, s in outs: sink(name, v, s)
        return outs
    st = m.st.copy(); d = js.buf(st, (('sym', 'data'),)); o = js.buf(st, (('sym', 'output'),))
    for a in ([d], [d, S('=')], [d, NULL, o], [d, S('\r\n.'), o]): go('decodeChunk', m.export('decodeChunk', a, st))
    n = atom(('n', 'length'))
    go('minSize', m.export('minSize', [n, atom(P.L)])); go('maxSize', m.export('maxSize', [n, atom(P.L)])); go('maxSize', m.export('maxSize', [n, atom(P.L), atom(('n', 'ratio'))]))
    for kind in ('Buffer', 'string'): go('post', P.post(kind, True)[1]); go('post', P.post(kind, False)[1])
    def step(op, inst, s, before, bsnap, r, dc, gv, pc, k, snaps):
        if op == 'new': sink('multi_post', r, s)
        else: sink('multi_post', inst, s); sink('multi_post encode', r, s)
    history(P, step, [1, 2], ('Buffer', 'string'), (True,)); generic_step(P, step)

def reach(st, v, seen=None, depth=0):
    """objects reachable from a value through its own properties (not its prototype)"""
    seen = {} if seen is None else seen
    if v[0] == 'phi':
        for g, x in v[1]: reach(st, x, seen, depth)
    elif v[0] == 'alts':
        for x in v[2]: reach(st, x, seen, depth)
    elif v[0] == 'g':
        for x in v[1:]:
            if isinstance(x, tuple) and x and x[0] in ('r', 'phi', 'alts'): reach(st, x, seen, depth)
    elif v[0] == 'r' and v[1] not in seen and v[1] in st.heap:
        o = st.heap[v[1]]; seen[v[1]] = o
        if o['kind'] in ('function', 'bound'): return seen
        for x in o['props'].values(): reach(st, x, seen, depth + 1)
        for x in o.get('items') or (): reach(st, x, seen, depth + 1)
    return seen

def c23(rep):
    P = Posts(); m = P.m; js = m.js; base = js.module_ids
    n = [0]
    def shared(name, v, s):
        n[0] += 1
        if isinstance(v, Abrupt): return
        for i, o in reach(s, v).items():
            if i == v[1] and name.startswith('='): continue
            if i > base or o['kind'] in ('function', 'bound', 'regex') and not o['props'].get('lastIndex'): continue
            if o['kind'] == 'buffer' and o.get('content') == (): continue
            if o.get('frozen'): continue
            rep.check('results share no mutable object with the module or each other', m.where(m.F[name.split()[0]]) + ': ' + name, False, 'the result contains %s, which belongs to the module' % js.describe(s, ('r', i)))
        rep.check('results share no mutable object with the module or each other', m.where(m.F[name.split()[0]]) + ': ' + name, True)
    def run(): exercise(P, shared)
    guarded(rep, 'results share no mutable object with the module or each other', js.file, run)
    def fp():
        for v, s in from_post_paths(m): shared('from_post', v, s)
    guarded(rep, 'results share no mutable object with the module or each other', js.file + ': from_post', fp)
    for e, s in js.log.items():
        if e[0] == 'write-module': rep.check('no call changes state of the module', e[2], False, 'writes %s' % e[1])
        elif e[0] == 'write-global': rep.check('no call changes state of the module', e[2] if len(e) > 2 else js.file, False, 'writes the global %s' % (e[1],))
        elif e[0] == 'write': rep.check('no call changes state of the module', e[3], True, 'writes an object of the call')
    # sources of hidden state the interpretation would treat as opaque
    hidden = {('Math', 'random'), ('Date', 'now'), ('process', 'hrtime'), ('process', 'env')}
    def walk(x):
        if isinstance(x, list):
            for y in x: walk(y)
        elif isinstance(x, dict):
            if x.get('type') == 'MemberExpression' and x['object'].get('type') == 'Identifier' and x['property'].get('type') == 'Identifier' and (x['object']['name'], x['property']['name']) in hidden:
                rep.check('results depend on the arguments only', js.at(x), False, '%s.%s is used' % (x['object']['name'], x['property']['name']))
            for k, y in x.items():
                if isinstance(y, (dict, list)): walk(y)
    walk(js.ast); rep.check('results depend on the arguments only', js.file, True)
    rep.cover['results_examined'] = n[0]; rep.cover['writes_seen'] = sum(e[0].startswith('write') for e in js.log)

def resolve_names(ast):
    """[(name, node, chain of enclosing functions)] of identifiers no scope declares; [(object, property, node)] of member accesses on declared names"""
    free = []; members = []
    def declared(node, fn):
        names = set(jsabs.scope_names(node))
        return names
    def block_names(body):
        out = set()
        for s in body:
            if s['type'] == 'VariableDeclaration' and s['kind'] != 'var':
                for d in s['declarations']: out |= set(jsabs.pat_names(d['id']))
            if s['type'] in ('FunctionDeclaration', 'ClassDeclaration'): out.add(s['id']['name'])
        return out
    def walk(n, scopes, fns):
        if isinstance(n, list):
            for x in n: walk(x, scopes, fns)
            return
        if not isinstance(n, dict): return
        t = n.get('type')
        if t is None: return
        if t in ('FunctionExpression', 'FunctionDeclaration', 'ArrowFunctionExpression'):
            names = {'arguments', 'this'} | set(jsabs.scope_names(n['body']))
            if n['body'].get('type') == 'BlockStatement': names |= block_names(n['body']['body'])
            for p in n['params']: names |= set(jsabs.pat_names(p))
            if n.get('id'): names.add(n['id']['name'])
            sc = scopes + [names]; f2 = fns + [n]
            for p in n['params']: pat(p, sc, f2)
            walk(n['body'], sc, f2); return
        if t in ('Program', 'BlockStatement'):
            names = block_names(n['body']) | (set(jsabs.scope_names(n)) if t == 'Program' else set())
            walk(n['body'], scopes + [names], fns); return
        if t in ('ForStatement', 'ForInStatement', 'ForOfStatement'):
            names = set(); i = n.get('init') or n.get('left')
            if i and i.get('type') == 'VariableDeclaration':
                for d in i['declarations']: names |= set(jsabs.pat_names(d['id']))
            scopes = scopes + [names]
        if t == 'CatchClause':
            scopes = scopes + [set(jsabs.pat_names(n['param'])) if n.get('param') else set()]
            walk(n['body'], scopes, fns); return
        if t == 'SwitchStatement': scopes = scopes + [set().union(*[block_names(c['consequent']) for c in n['cases']]) if n['cases'] else set()]
        if t in ('ClassExpression', 'ClassDeclaration') and n.get('id'): scopes = scopes + [{n['id']['name']}]
        if t == 'Identifier':
            if not any(n['name'] in s for s in scopes): free.append((n['name'], n, fns))
            return
        if t == 'MemberExpression':
            walk(n['object'], scopes, fns)
            if n['computed']: walk(n['property'], scopes, fns)
            else: members.append((n['object'], n['property'].get('name'), n, fns))
            return
        if t in ('Property', 'MethodDefinition', 'PropertyDefinition'):
            if n['computed']: walk(n['key'], scopes, fns)
            walk(n.get('value'), scopes, fns); return
        if t == 'UnaryExpression' and n['operator'] == 'typeof' and n['argument'].get('type') == 'Identifier': return
        if t in ('LabeledStatement',): walk(n['body'], scopes, fns); return
        if t in ('BreakStatement', 'ContinueStatement'): return
        if t == 'VariableDeclarator': pat(n['id'], scopes, fns); walk(n.get('init'), scopes, fns); return
        for k, v in n.items():
            if k not in ('type', 'loc') and isinstance(v, (dict, list)): walk(v, scopes, fns)
    def pat(p, scopes, fns):
        if p is None: return
        t = p['type']
        if t == 'AssignmentPattern': pat(p['left'], scopes, fns); walk(p['right'], scopes, fns)
        elif t == 'ObjectPattern':
            for q in p['properties']: pat(q['value'] if q['type'] == 'Property' else q['argument'], scopes, fns)
        elif t == 'ArrayPattern':
            for q in p['elements']: pat(q, scopes, fns)
    walk(ast, [], [])
    return free, members

def c24(rep):
    import bindings
    P = Posts(); m = P.m; js = m.js
    mod, mods = bindings.load_binding(); regs, entry, fin, it = bindings.registrations(mod, mods)
    where = js.file + ': module.exports'
    for name in DOCUMENTED:
        rep.check('every documented function is exported', where, name in m.F and (m.F[name][0] == 'nat' or m.F[name][0] == 'r' and m.st.heap[m.F[name][1]]['kind'] in ('function', 'bound')), name)
    enc = m.st0.heap[m.ex[1]]['props'].get('encoding')
    rep.check('the encoding setting exists and is utf8 by default', where, enc is not None and (sconc(enc) or '').lower() in ('utf8', 'utf-8') if enc and enc[0] == 's' else False, 'encoding is %s' % (enc,))
    # native functions: exported under their own name, registered, and doing what the name says
    ctx = bindings.Ctx()
    for name, argc in NATIVE.items():
        if name not in m.F: continue
        f = m.F[name]
        if f[0] == 'nat': rep.check('a native function is exported under its own name', where, f[1] == name, '%s is bound to the native %s' % (name, f[1]))
        else:
            def wrapped():
                st = m.st.copy(); args = [js.buf(st, (('sym', 'a%d' % i),)) for i in range(argc)]
                for v, s in m.call(f, m.ex, args, st):
                    nat = [e for e in s.events if e[0] == 'native']
                    rep.check('a native function is exported under its own name', m.where(f), (False if nat else None) if not any(e[1] == name for e in nat) else True, '%s calls %s' % (name, ', '.join(e[1] for e in nat) or 'no native function'))
            guarded(rep, 'a native function is exported under its own name', m.where(f), wrapped)
    for api, r in bindings.ROLES.items():
        if api not in regs: continue
        kinds = set()
        fin, it, _ = ctx.run(api)
        for s in fin:
            for e in s.events:
                if e[0] in ('encode', 'decode', 'crc', 'shift', 'mul'): kinds.add(e[0])
        want = {'encode': {'encode'}, 'decode': {'decode'}}.get(r['kind'], {'crc', 'shift', 'mul'})
        rep.check('a registered native function does what its name says', 'src/yencode.cc: ' + api, bool(kinds) and kinds <= want, '%s uses %s' % (api, ', '.join(sorted(kinds)) or 'no kernel'))
    # names
    free, members = resolve_names(js.ast)
    reachable = reach_functions(js)
    for name, node, fns in free:
        if name in jsabs.GLOBALS or name in ('undefined', 'NaN', 'Infinity', 'arguments', 'clearTimeout', 'queueMicrotask', 'TextDecoder', 'TextEncoder', 'BigUint64Array', 'Float64Array', 'Uint16Array', 'Int8Array', 'Int16Array', 'Uint8ClampedArray', 'performance', 'AggregateError', 'URIError', 'WeakRef', 'structuredClone', 'Atomics', 'SharedArrayBuffer', 'Intl', 'eval', 'Iterator', 'AbortController', 'setInterval', 'clearInterval', 'atob', 'btoa', 'URL', 'Float32Array', 'BigInt64Array'): continue
        if fns and fns[-1]['loc'] not in reachable and not all(f['loc'] in reachable for f in fns): continue
        rep.check('every identifier a call can reach exists', js.at(node), False, '%s is declared nowhere' % name)
    rep.check('every identifier a call can reach exists', js.file, True, '%d free identifiers, all of them globals of Node' % len(free))
    nm = native_vars(js.ast)
    for obj, prop, node, fns in members:
        if obj.get('type') == 'Identifier' and obj['name'] in nm and prop is not None:
            rep.check('every native function referred to is registered', js.at(node), prop in regs, 'yencode.node registers no %s' % prop)
    # calls of things that are not functions, on the paths of the exported functions
    def sink(name, v, s):
        if isinstance(v, Abrupt) and v.kind == 'throw' and v.val and v.val[0] == 'r':
            o = s.heap[v.val[1]]
            if o.get('engine') and ('not a function' in str(o['props'].get('message'))): rep.check('no call of a function that does not exist', o['where'], False, '%s: %s' % (name, sconc(o['props']['message'])))
        else: rep.check('no call of a function that does not exist', m.where(m.F[name.split()[0]]) + ': ' + name, True)
    guarded(rep, 'no call of a function that does not exist', js.file, lambda: exercise(P, sink))
    for e in js.log:
        if e[0] == 'unresolved': rep.check('every identifier a call can reach exists', e[2], False, '%s is declared nowhere' % e[1])
        if e[0] == 'native-ref': rep.check('every native function referred to is registered', e[2], e[1] in regs, 'yencode.node registers no %s' % e[1])
    rep.cover['registered_native_functions'] = sorted(regs); rep.cover['identifiers_resolved'] = len(free) + len(members)
    rep.need('every native function referred to is registered', 9)

def native_vars(ast):
    """module variables holding the native module"""
    out = set()
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
        elif isinstance(n, dict):
            if n.get('type') == 'VariableDeclarator' and n['id']['type'] == 'Identifier' and n.get('init') and n['init'].get('type') == 'CallExpression' and n['init']['callee'].get('name') == 'require' and 'yencode' in str(n['init']['arguments'][0].get('value')): out.add(n['id']['name'])
            for k, v in n.items():
                if isinstance(v, (dict, list)): walk(v)
    walk(ast); return out
def reach_functions(js):
    """lines of the functions that names, properties or nesting make reachable from the exports (an over-approximation)"""
    fns = {}
    def names_in(n, out):
        if isinstance(n, list):
            for x in n: names_in(x, out)
        elif isinstance(n, dict):
            if n.get('type') == 'Identifier': out.add(n['name'])
            if n.get('type') == 'Literal' and isinstance(n.get('value'), str): out.add(n['value'])
            for k, v in n.items():
                if isinstance(v, (dict, list)): names_in(v, out)
    def walk(n, label, top):
        if isinstance(n, list):
            for x in n: walk(x, None, top)
            return
        if not isinstance(n, dict) or 'type' not in n: return
        t = n['type']
        if t in ('FunctionExpression', 'FunctionDeclaration', 'ArrowFunctionExpression'):
            if t == 'FunctionDeclaration': label = n['id']['name']
            s = set(); names_in(n['body'], s)
            fns[n['loc'], id(n)] = (label, s, top); top = (n['loc'], id(n))
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                l = None
                if t == 'VariableDeclarator' and k == 'init' and n['id']['type'] == 'Identifier': l = n['id']['name']
                if t == 'AssignmentExpression' and k == 'right': l = n['left'].get('name') or (n['left'].get('property') or {}).get('name')
                if t == 'Property' and k == 'value': l = n['key'].get('name') or n['key'].get('value')
                walk(v, l, top)
    walk(js.ast, None, None)
    # start: functions used by module code itself or exported
    out = set(); work = []
    s0 = set(); names_top(js.ast, s0)
    want = set(DOCUMENTED) | s0
    ch = True
    while ch:
        ch = False
        for k, (label, s, top) in fns.items():
            if k in out: continue
            if label is None or label in want or top in out and label is None:
                out.add(k); want |= s; ch = True
    return {k[0] for k in out}
def names_top(ast, out):
    """identifiers module-level code uses in calls and exports"""
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
        elif isinstance(n, dict) and 'type' in n:
            t = n['type']
            if t in ('FunctionExpression', 'FunctionDeclaration', 'ArrowFunctionExpression'): return
            if t == 'CallExpression' and n['callee'].get('type') == 'Identifier': out.add(n['callee']['name'])
            if t == 'Property' and n['value'].get('type') == 'Identifier': out.add(n['value']['name'])
            for k, v in n.items():
                if isinstance(v, (dict, list)): walk(v)
    walk(ast)
