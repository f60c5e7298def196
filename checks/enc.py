"""C14 portable encoder (and the portable tail of the vector encoders): product with the specification.

Symbols r (input bytes from the reference point on), n, m (bytes and outputs before it), y (column of the
specification at the reference point), t (columns left in the line); line size = y + t.  Short line sizes are
run exactly, all longer ones together.  The reference point follows the specification one byte at a time; it
stays one byte behind the program (the last byte is looked at again at the end of the data), and before any
older position the program still holds when the end of a line comes up (the program may go back to it).
"""
import re, concurrent.futures as cf
import ir
from codec import isvec, canon
from ir import AnalysisError, where
from trans import Fork, Machine, Undecided, Violation, deps, ev, vals, vec, only, FULL, show, sg

ESC = {0, 10, 13, 61}; TS = {9, 32}
def cls(first, last):
    """bytes of the input that are to be escaped"""
    s = set(ESC)
    if first: s |= TS | {46}
    if last: s |= TS
    m = 0
    for e in s: m |= 1 << ((e - 42) & 255)
    return m
TABSP = only(*[(e - 42) & 255 for e in TS])

TMAX = 24
class NeedLine(Exception): pass

class Enc(Machine):
    NS = 5
    def __init__(self, mods, lmin=None):
        Machine.__init__(self, mods, 4000000); self.lmin = lmin; self.memo = {}; self.kcalls = 0
    # ---- ranges
    def rng(self, cfg, l):
        lo = hi = l[-1]
        def term(a, R, lo, hi):
            if a:
                c, w = R; d = None if w > 0 else c - w            # w: 0 exact, 1 unbounded, -k up to c + k
                if a < 0: c, d = d, c
                lo = None if lo is None or c is None else lo + a * c
                hi = None if hi is None or d is None else hi + a * d
            return lo, hi
        lo, hi = term(l[0], cfg.R, lo, hi)
        for a in l[1:3]:
            if a > 0: hi = None
            elif a < 0: lo = None
        y, t = l[3], l[4]; b0, b1 = lo, hi
        lo, hi = term(y, cfg.Y, lo, hi); lo, hi = term(t, cfg.T, lo, hi)
        if y and t and self.lmin and (y > 0) == (t > 0):
            k = min(y, t) if y > 0 else max(y, t); rest = [(y - k, cfg.Y), (t - k, cfg.T)]
            c0, c1 = (None if b0 is None or k < 0 else b0 + k * self.lmin), (None if b1 is None or k > 0 else b1 + k * self.lmin)
            for a, R in rest: c0, c1 = term(a, R, c0, c1)
            if c0 is not None: lo = c0 if lo is None else max(lo, c0)
            if c1 is not None: hi = c1 if hi is None else min(hi, c1)
        return lo, hi
    def cmp0(self, cfg, l):
        lo, hi = self.rng(cfg, l)
        if lo == hi == 0: return 0
        if lo is not None and lo > 0: return 1
        if hi is not None and hi < 0: return -1
        if any(l[1:3]): raise Undecided('comparison depends on the position')
        if l[3] and l[4]:
            for k, R in ((3, cfg.Y), (4, cfg.T)):
                if not R[1]: return self.cmp0(cfg, l[:k] + (0,) + l[k + 1:-1] + (l[-1] + l[k] * R[0],))
            if l[3] == l[4] and not l[0]:
                raise NeedLine((abs(l[-1]) + abs(l[3]) - 1) // abs(l[3]) + 1)
            raise Undecided('comparison of column and line size')
        un = [k for k in (0, 3, 4) if l[k] and (cfg.R, 0, 0, cfg.Y, cfg.T)[k][1]]
        if len(un) != 1: raise Undecided('comparison of length and column')
        k = un[0]; d = l[-1] + sum(l[j] * (cfg.R, 0, 0, cfg.Y, cfg.T)[j][0] for j in (0, 3, 4) if j != k)
        name = {0: 'R', 3: 'Y', 4: 'T'}[k]; c, w = getattr(cfg, name); a = l[k]
        top = None if w > 0 else c - w
        z = -d // a if a > 0 else d // -a            # last x with a*x + d on one side, or zero
        if z - c > 200: raise Undecided('threshold too far away')
        parts = [(c, z - 1), (z, z), (z + 1, top)] if -d % abs(a) == 0 else [(c, z), (z + 1, top)]
        def st(v):
            def m(g): setattr(g, name, v)
            return m
        mods = []
        for x, y in parts:
            x = max(x, c)
            if top is not None: y = top if y is None else min(y, top)
            if y is not None and x > y: continue
            mods.append(st((x, 1 if y is None else x - y)))
        if len(mods) < 2: raise AnalysisError('cmp0')
        raise Fork(mods)
    def cmpp(self, cfg, l, p):
        if p in ('eq', 'ne'): return self.cmp0(cfg, l)
        return self.cmp0(cfg, tuple(2 * x for x in l[:-1]) + (2 * l[-1] + (1 if p in ('lt', 'ge') else -1),))
    def floor(self, cfg, x, s, w):
        if x[0] and cfg.R[1] < 0: self.exact(cfg, 'R')
        return Machine.floor(self, cfg, x, s, w)
    def exact(self, cfg, name):
        c, w = getattr(cfg, name)
        if not w: return c
        if w > 0: raise Undecided('unbounded')
        def st(v):
            def m(g): setattr(g, name, v)
            return m
        raise Fork([st((x, 0)) for x in range(c, c - w + 1)])
    # ---- specification, one byte at a time
    def spec(self, cfg, last):
        """(outputs of byte 0, columns it takes, new line before it?); splits until it is known"""
        t = cfg.T
        nl = self.cmpp(cfg, (0, 0, 0, 0, 1, 0), 'le') < 0
        first = nl or self.cmp0(cfg, (0, 0, 0, 1, 0, 0)) == 0
        if nl: lst = self.cmp0(cfg, (0, 0, 0, 1, 1, -1)) == 0
        else: lst = self.cmp0(cfg, (0, 0, 0, 0, 1, -1)) == 0
        m = cls(first, lst); b = self.bset(cfg, 0)
        if b & m and b & ~m: self.split(cfg, 0, [b & m, b & ~m])
        out = [13, 10] if nl else []; esc = bool(b & m)
        if esc: out += [61, ('b', 106)]; d = 2
        elif last:
            if b & TABSP and b & ~TABSP: self.split(cfg, 0, [b & TABSP, b & ~TABSP])
            if b & TABSP: out += [61, ('b', 106)]; d = 2
            else: out += [('b', 42)]; d = 1
        else: out += [('b', 42)]; d = 1
        return out, d, nl
    def compare(self, cfg, out):
        for k, want in enumerate(out):
            if k not in cfg.out: raise Violation('output byte %d of this input byte is missing' % k if k else 'an output byte is missing')
            v = cfg.out[k]
            if v[0] == 'stale': raise Undecided('output rewritten')
            if v[0] == 'E' and v[1][0] == 'V' and isinstance(want, tuple) and v[1] == vec(('add', 8, ('b', 0), ('k', want[1], 8)), 0): continue
            if v[0] == 'c' and v[1] == want: continue
            if v[0] == 'E':
                e = v[1]; ds = sorted(deps(e) | ({0} if isinstance(want, tuple) else set()))
                if len(ds) > 2: raise Undecided('an output byte depends on %d input bytes' % len(ds))
            elif v[0] == 'c': e = ('k', v[1], 8); ds = [0] if isinstance(want, tuple) else []
            else: raise Undecided('output value')
            def rec(n, asg):
                if n == len(ds):
                    x = (asg[0] + want[1]) & 255 if isinstance(want, tuple) else want
                    if ev(e, asg) & 255 != x:
                        raise Violation('writes 0x%02x%s, not 0x%02x (%s)' % (ev(e, asg) & 255, ' for the byte 0x%02x' % asg[0] if 0 in asg else '', x, self.sit(cfg)))
                    return
                for x in vals(self.bset(cfg, ds[n])): rec(n + 1, {**asg, ds[n]: x})
            rec(0, {})
    def sit(self, cfg):
        f = lambda R: '%d' % R[0] if not R[1] else '>=%d' % R[0] if R[1] > 0 else '%d..%d' % (R[0], R[0] - R[1])
        return 'column %s, %s columns left%s' % (f(cfg.Y), f(cfg.T), '' if self.lmin is None else ', any line size from %d on' % self.lmin)
    def step1(self, cfg):
        """the reference point moves over byte 0"""
        if not cfg.R[1] and cfg.R[0] < 1: raise Violation('moves beyond the end of the input')
        if cfg.R[1] and cfg.R[0] < 1: self.cmp0(cfg, (1, 0, 0, 0, 0, 0))
        out, d, nl = self.spec(cfg, False); self.compare(cfg, out)
        lo = lambda R: R if self.lmin is None or R[0] < 1 and R[1] <= 0 else (min(R[0], 1), 1)
        mark = (0, 0, 0, lo(cfg.Y), lo(cfg.T))
        self.move6(cfg, 1, len(out), d, nl)
        if nl: cfg.marks = ()
        else: cfg.marks = tuple((j - 1, k - len(out), dy - d, Y, T) for j, k, dy, Y, T in cfg.marks + (mark,))
    def move6(self, cfg, s, o, d, nl):
        if nl:
            t0 = self.exact(cfg, 'T')
            def f(l):                       # t was t0, y was line size - t0
                return l[:3] + (l[3], l[3], l[5] + l[4] * t0 - l[3] * t0)
            self.remap(cfg, f)
            if self.lmin is None: L = cfg.Y[0] + t0; cfg.Y = (0, 0); cfg.T = (L, 0)
            else: cfg.Y = (0, 0); cfg.T = (self.lmin, 1)
        self.shiftcol(cfg, d)
        self.move(cfg, s, o); cfg.hw -= o
        cfg.R = cfg.R if cfg.R else cfg.R
    def remap(self, cfg, f):
        def g(v):
            if not v: return v
            if v[0] in ('L',): return self.mkL(f(v[1]), v[2])
            if v[0] in ('P', 'A'): return (v[0], v[1], f(v[2]))
            return v
        for fr in cfg.frames:
            fr.env = {k: g(v) for k, v in fr.env.items()}; fr.args = [g(v) for v in fr.args]
        cfg.mem = {k: g(v) for k, v in cfg.mem.items()}
    def forget(self, cfg):
        """the column is another one now"""
        g = lambda v: ('u',) if v and (v[0] == 'L' and v[1][3] != v[1][4] or v[0] in ('P', 'A') and v[2][3] != v[2][4]) else v
        for fr in cfg.frames: fr.env = {k: g(v) for k, v in fr.env.items()}; fr.args = [g(v) for v in fr.args]
        cfg.mem = {k: g(v) for k, v in cfg.mem.items()}
    def shiftcol(self, cfg, d):
        """the column becomes d larger"""
        self.remap(cfg, lambda l: l[:5] + (l[5] - l[3] * d + l[4] * d,))
        cfg.Y = (cfg.Y[0] + d, cfg.Y[1]); cfg.T = (cfg.T[0] - d, cfg.T[1])
    def rollback(self, cfg, mk):
        j, k, dy, Y, T = mk; cfg.lossy = True
        def meet(A, B):
            lo = max(A[0], B[0]); his = [R[0] - R[1] for R in (A, B) if R[1] <= 0]
            return (lo, lo - min(his)) if his else (lo, 1)
        self.shiftcol(cfg, dy)
        cfg.Y = meet(cfg.Y, Y); cfg.T = meet(cfg.T, T)
        self.move(cfg, j, k); cfg.hw -= k
        cfg.marks = tuple((j2 - j, k2 - k, dy2 - dy, Y2, T2) for j2, k2, dy2, Y2, T2 in cfg.marks if j2 < j)
        cfg.out = {}
        for x in range(0, -k): cfg.out[x] = ('stale',)
    # ---- program positions
    def phis(self, fn):
        f = self.funcs[fn]; r = f.get('_phis')
        if r is None: r = f['_phis'] = {i['id'] for b in f['blocks'] for i in b if i['op'] == 'phi'}
        return r
    def livevals(self, cfg, var=False):
        for d, fr in enumerate(cfg.frames):
            caller = d < len(cfg.frames) - 1
            for k in self.live(fr, caller):
                if var and k not in self.phis(fr.fn): continue
                v = fr.args[k[1]] if isinstance(k, tuple) else fr.env.get(k)
                if v: yield v
        for k, v in cfg.mem.items(): yield v
    def positions(self, cfg, var=False):
        """offsets of the input and output positions the program holds (var: in variables that change)"""
        si, so = set(), set()
        for v in self.livevals(cfg, var):
            if v[0] in ('P', 'A') and not any(v[2][:-1]):
                if v[1] == 'src': si.add(v[2][-1])
                if v[1] == 'dst': so.add(v[2][-1])
            elif v[0] == 'L' and v[1][0] == -1 and not any(v[1][1:-1]): si.add(v[1][-1])
            elif v[0] == 'L' and v[1][:5] == (0, 1, 0, 0, 0): si.add(v[1][-1])
            elif v[0] == 'L' and v[1][:5] == (0, 0, 1, 0, 0): so.add(v[1][-1])
        return si, so
    def normalise(self, cfg):
        c = [x for x in self.allcand(cfg)]
        s = min(c) if c else 0
        si, so = self.positions(cfg)
        if s < 0:
            mk = [m for m in cfg.marks if m[0] <= s]
            if not mk: raise Undecided('the program goes back further than followed')
            mk = max(mk, key=lambda m: m[0]); self.rollback(cfg, mk)
            return self.normalise(cfg)
        if s > cfg.R[0]: raise Violation('moves beyond the end of the input')
        # older positions it may go back to
        free = False
        while s > 1:
            si, so = self.positions(cfg, True)
            if not free and (any(x <= 0 for x in si) or any(x <= 0 for x in so)):
                # the line may end in what is to be consumed: the program may do it again
                if self.cmpp(cfg, (0, 0, 0, 0, 1, -2 - max(so | {0})), 'lt') < 0: break
                free = True
            self.step1(cfg); s -= 1
        # positions it cannot go back to
        si, so = self.positions(cfg)
        cfg.marks = tuple(m for m in cfg.marks if m[0] in si or m[1] in so)
        if self.lmin is not None:
            y = cfg.Y
            if not y[1] and y[0] >= 1:
                f = lambda v: ('L', (0, 0, 0, 1, 0, sg(v[1], 32) - y[0]), 32) if v and v[0] == 'c' and v[2] == 32 else v
                fr = cfg.frames[-1]
                for k in self.phis(fr.fn):
                    if k in fr.env: fr.env[k] = f(fr.env[k])
                cfg.mem = {k: f(v) for k, v in cfg.mem.items()}
            if y[0] >= 1: cfg.Y = (1, 1)
            if cfg.T[1] and cfg.T[0] > TMAX: cfg.T = (TMAX, 1)
        for k, v in list(cfg.mem.items()):              # a column from long ago
            if v[0] == 'L' and (abs(v[1][-1]) > 16 or k[0] == 'col' and (abs(v[1][-1]) > 3 or v[1][4]) and not self.colinloop(cfg)): cfg.mem[k] = ('u',)
        top = max([0] + [x for x in so])
        cfg.out = {k: v for k, v in cfg.out.items() if k < top}
        refd = set()
        for v in list(self.livevals(cfg)) + list(cfg.out.values()):
            if v[0] == 'E': refd |= deps(v[1])
        if any(j < 0 for j in refd): 
            pass
        cfg.bytes = {j: m for j, m in cfg.bytes.items() if (j >= 0 or j in refd) and m != FULL}
        always = cls(False, False); least = sum(1 if self.bset(cfg, j) & ~always else 2 for j in range(cfg.R[0]))
        vi, vo = self.positions(cfg, True)
        fixed = not cfg.marks and not any(0 <= x < s for x in vi) and not any(0 <= x < top for x in vo)      # it cannot go back
        if cfg.hw <= least + 3 or fixed and cfg.hw <= top + 3: cfg.hw = 0            # the output will be that long
        ahead = [j for j in cfg.bytes if j >= s and j not in refd]
        if len(ahead) > 2:
            for j in ahead: del cfg.bytes[j]
        for d, fr in enumerate(cfg.frames):
            live = self.live(fr, d < len(cfg.frames) - 1)
            fr.env = {k: fr.env[k] for k in live if not isinstance(k, tuple) and k in fr.env}
            fr.args = [v if ('a', k) in live else ('u',) for k, v in enumerate(fr.args)]
        R, Y, T = cfg.R, cfg.Y, cfg.T
        cfg.R = cfg.Y = cfg.T = None; key = self.key(cfg); cfg.R, cfg.Y, cfg.T = R, Y, T
        full = (key, R, Y, T, s)
        if cfg.base != cfg.total: cfg.chain = (); cfg.base = cfg.total
        if full in cfg.chain: raise Violation('the loop repeats without consuming anything')
        cfg.chain = cfg.chain + (full,)
        l = self.memo.setdefault(key, [])
        cov = lambda A, B: A[0] >= B[0] and (B[1] > 0 or A[1] <= 0 and A[0] - A[1] <= B[0] - B[1])
        for o in l:
            if all(cov(a, b) for a, b in zip((R, Y, T), o)): return False
        if len(l) > 1:                      # widen what differs only in a lower bound
            def wid(X, k): return (min([X[0]] + [o[k][0] for o in l if o[k][1] > 0]), 1) if X[1] > 0 else X
            cfg.R = R = wid(R, 0); cfg.T = T = wid(T, 2)
        l.append((R, Y, T)); self.seen.add(full); return True
    def colinloop(self, cfg):
        """does a loop of the functions being run keep the column in the caller's variable?"""
        for fr in cfg.frames:
            f = self.funcs[fr.fn]; r = f.get('_argloop')
            if r is None:
                succ = {k: [x for i in b for x in i.get('succ', ())] for k, b in enumerate(f['blocks'])}
                r = f['_argloop'] = set()
                for k, b in enumerate(f['blocks']):
                    ps = [o[1] for i in b if i['op'] in ('load', 'store') for o in i['ops'] if isinstance(o, (list, tuple)) and o[0] == 'a']
                    if not ps: continue
                    seen, w = set(), list(succ[k])
                    while w:
                        x = w.pop()
                        if x not in seen: seen.add(x); w += succ[x]
                    if k in seen: r |= set(ps)
            if any(fr.args[a] and fr.args[a][0] == 'P' and fr.args[a][1] == 'col' for a in r): return True
        return False
    def allcand(self, cfg):
        """input positions among the header's variables and the cells the program keeps its positions in"""
        fr = cfg.frames[-1]; out = []; B = self.funcs[fr.fn]['blocks'][fr.b]
        for i in B:
            if i['op'] != 'phi': break
            v = fr.env.get(i['id'])
            if v is None: continue
            if v[0] == 'P' and v[1] == 'src' and not any(v[2][:-1]): out.append(v[2][-1])
            elif v[0] == 'L' and v[1][0] == -1 and not any(v[1][1:-1]): out.append(v[1][-1])
            elif v[0] == 'L' and v[1][0] == 0 and v[1][1] == 1 and not any(v[1][2:-1]): out.append(v[1][-1])
        for v in cfg.mem.values():
            if v[0] == 'P' and v[1] == 'src' and not any(v[2][:-1]): out.append(v[2][-1])
        return out
    def move(self, cfg, s, o):
        cfg.total += s; cfg.outs += o
        Machine.move(self, cfg, s, o)
    def keepcell(self, k, v): return k[0].startswith('local') and v and v[0] == 'P'
    def extra(self, cfg): return (cfg.marks, cfg.hw)
    def back(self, cfg): return 0
    # ---- memory
    def load(self, p, i, cfg):
        if p[0] == 'P' and p[1] == 'dst':
            if any(p[2][:-1]): raise Undecided('reads the output at an unknown position')
            k = p[2][-1]; n = i['size']
            vs = [cfg.out.get(k + b) for b in range(n)]
            if any(v is None or v[0] == 'stale' for v in vs): raise Undecided('reads the output further back than followed')
            if n == 1: return vs[0]
            return self.simp(cfg, ('cat', 8 * n) + tuple(self.expr(v) for v in vs))
        return Machine.load(self, p, i, cfg)
    def output(self, cfg, k, v, n, i):
        if k < 0:
            mk = [m for m in cfg.marks if m[1] <= k]
            if not mk: raise Undecided('output rewritten further back than followed')
            mk = max(mk, key=lambda m: m[1]); raise Fork([lambda g: self.rollback(g, mk)])
        Machine.output(self, cfg, k, v, n, i)
        cfg.hw = max(cfg.hw, k + n)
    def memcpy(self, o, i, cfg):
        if o[2][0] != 'c': raise Undecided('memcpy length')
        n = o[2][1]; ii = {'ty': 'i%d' % (8 * n), 'size': n, 'loc': i.get('loc')}
        v = self.load(o[1], ii, cfg); self.store(o[0], v, ii, cfg); return None
    # ---- the end
    def final(self, cfg, rv):
        o0 = cfg.outs
        if rv is not None and rv[0] == 'E': rv = ('c', self.decide(cfg, rv[1]), 64)
        if rv is not None and rv[0] in ('c', 'L') and cfg.tot is not None and not self.lin(rv)[2]:
            l = self.lin(rv); rv = ('L', l[:2] + (1,) + l[3:-1] + (l[-1] - cfg.tot[1],), 64)
        while True:
            if not cfg.R[1] and cfg.R[0] == 0: last = None; break
            if cfg.R[1] < 0: self.exact(cfg, 'R')
            if cfg.R[1]:
                if cfg.R[0] > len(cfg.out): raise Violation('returns before all the input is encoded')
                c = cfg.R[0]
                raise Fork([lambda g: setattr(g, 'R', (c, 0)), lambda g: setattr(g, 'R', (c + 1, 1))])
            if cfg.R[0] == 1:
                out, d, nl = self.spec(cfg, bool(cfg.doend)); self.compare(cfg, out); last = len(out); break
            self.step1(cfg)
        k = last or 0
        if last is None and cfg.doend: raise Undecided('the last byte is gone')
        if rv is None: raise Undecided('no return value')
        l = self.lin(rv) if rv[0] in ('c', 'L') else None
        if l is None: raise Undecided('return value')
        l = l[:-1] + (l[-1] - l[2] * (cfg.outs - o0),)
        if any(l[:2]) or any(l[3:-1]) or l[2] != 1: raise Undecided('return value is not told from the output position')
        if l[-1] != k: raise Violation('returns %d more than it wrote (%s)' % (l[-1] - k, self.sit(cfg)) if l[-1] > k else 'returns %d less than the encoded length (%s)' % (k - l[-1], self.sit(cfg)))
        if cfg.hw > k + 3 and cfg.lossy: raise Undecided('may write %d bytes beyond the end of its output' % (cfg.hw - k))
        if cfg.hw > k + 3: raise Violation('writes %d bytes beyond the end of its output' % (cfg.hw - k))
    # ---- vector kernels: any prefix encoded as specified
    def summary(self, name, f, o, i, cfg):
        if f is None or f['decl'] or not isvec(f): return 'inline'
        if len(o) != 5: raise Undecided('kernel called in an unknown way')
        z = (0,) * 6; L = o[0]; col, es, cp, cl = o[1:]
        for x, w in ((col, 'column'), (cp, 'destination'), (cl, 'length')):
            if x[0] != 'P' or any(x[2][:-1]) or x[1] == 'null': raise Undecided('kernel %s' % w)
        if cfg.pick is None:
            want = (0, 0, 0, 1, 1, 0)
            if self.cmp0(cfg, self.add(self.lin(L), want, -1)): raise Violation('the kernel is given another line size')
            if self.cmp0(cfg, self.add(self.lin(cfg.mem[(col[1], col[2][-1])]), (0, 0, 0, 1, 0, 0), -1)): raise Violation('the kernel is given another column')
            if cfg.total or cfg.bytes or cfg.outs: raise Undecided('kernel not called at the start')
            at0 = lambda l: (l[0], 0, 0) + l[3:]                # nothing has been consumed yet
            lv = at0(self.lin(cfg.mem[(cl[1], cl[2][-1])])); pv = cfg.mem[(cp[1], cp[2][-1])]
            if es[0] != 'P' or es[1] != 'src' or at0(es[2]) != (1, 0, 0, 0, 0, 0) or lv != (1, 0, 0, 0, 0, 0): raise Violation('the kernel is given another range of the input')
            if pv[:2] != ('P', 'dst') or at0(pv[2]) != z: raise Violation('the kernel is given another destination')
            self.kcalls += 1
            opts = ['none', 'newline', 'mid']
            def pick(k):
                def m(g): g.pick = k
                return m
            raise Fork([pick(k) for k in opts])
        how = cfg.pick
        if how == 'none': return None
        # from here the positions count from the last byte the kernel encoded
        if not cfg.kdone:
            for fr in cfg.frames:
                fr.env = {k: self.origin(v, 0, 0) for k, v in fr.env.items()}; fr.args = [self.origin(v, 0, 0) for v in fr.args]
            cfg.mem = {k: v if self.keepcell(k, v) else self.origin(v, 0, 0) for k, v in cfg.mem.items()}
            cfg.tot = None; cfg.total += 1; cfg.kdone = True
        ck, pk, lk = (col[1], col[2][-1]), (cp[1], cp[2][-1]), (cl[1], cl[2][-1])
        if how == 'newline':       # a line just ended, its line break written, and there is more
            if self.lmin is None: LL = cfg.Y[0] + cfg.T[0]; cfg.Y = (0, 0); cfg.T = (LL, 0)
            else: cfg.Y = (0, 0); cfg.T = (self.lmin, 1)
            cfg.R = (1, 1); cfg.mem[ck] = ('c', 0, 32); cfg.mem[pk] = ('P', 'dst', z); cfg.mem[lk] = ('L', (1, 0, 0, 0, 0, 0), 64)
            self.forget(cfg)
            return None
        # byte 0 is the last one encoded
        if cfg.sub is None:
            subs = []
            if self.lmin is None:
                LL = cfg.Y[0] + cfg.T[0]
                subs = [((y, 0), (LL - y, 0)) for y in range(0, LL + 2)]
            else: subs = [((0, 0), (self.lmin, 1)), ((1, 1), (-1, 1))]
            def sub(v):
                def m(g): g.sub = v
                return m
            raise Fork([sub(v) for v in subs])
        if not cfg.subdone:
            self.forget(cfg)
            def setr(g): g.Y, g.T = g.sub; g.R = (1, 1); g.bytes = {}; g.subdone = True
            raise Fork([setr])
        out, d, nl = self.spec(cfg, False)
        for k, w in enumerate(out): cfg.out[k] = ('c', w, 8) if isinstance(w, int) else self.simp(cfg, ('add', 8, ('b', 0), ('k', w[1], 8)))
        cfg.hw = max(cfg.hw, len(out))
        if nl: cv = (0, 0, 0, 0, 0, d)
        else: cv = (0, 0, 0, 1, 0, d)
        if self.lmin is None: cv = (0, 0, 0, 0, 0, d + (0 if nl else cfg.Y[0]))
        cfg.mem[ck] = self.mkL(cv, 32); cfg.mem[pk] = ('P', 'dst', (0,) * 5 + (len(out),)); cfg.mem[lk] = ('L', (1, 0, 0, 0, 0, -1), 64)
        return None
    def initial(self, Y, T, L, doend):
        z = (0,) * 6
        cfg = self.newcfg((1, 1), None); cfg.Y = Y; cfg.T = T; cfg.marks = (); cfg.hw = 0; cfg.total = 0; cfg.base = -1; cfg.outs = 0; cfg.lossy = False
        cfg.doend = doend; cfg.pick = None; cfg.sub = None; cfg.subdone = False; cfg.kdone = False
        cfg.mem[('col', 0)] = ('c', Y[0], 32) if not Y[1] else ('L', (0, 0, 0, 1, 0, 0), 32)
        ls = ('c', L, 32) if L else ('L', (0, 0, 0, 1, 1, 0), 32)
        return cfg, [ls, ('P', 'col', z), ('P', 'src', z), ('P', 'dst', z), ('L', (1, 0, 0, 0, 0, 0), 64), ('c', doend, 32)]

def describe(m, cfg):
    if cfg is None or cfg.R is None: return ''
    c, w = cfg.R
    hi = max([j for j in cfg.bytes] + [-1])
    return 'next bytes [%s], %s%d bytes left, %s' % (' '.join(show(cfg.bytes.get(j, FULL)) for j in range(0, hi + 1)), '>=' if w else '', c, m.sit(cfg))

def run(src, fn, L, cols, doend, lmin=None):
    """one product; L None: every line size from lmin on; cols: columns to start from (1: any from 1 on)"""
    m = Enc([ir.load(src), ir.load('src/encoder.cc')] if src != 'src/encoder.cc' else [ir.load(src)], lmin); cut = None
    try:
        for col in cols:
            if L: cfg, args = m.initial((col, 0), (L - col, 0), L, doend)
            elif col == 0: cfg, args = m.initial((0, 0), (lmin, 1), None, doend)
            else: cfg, args = m.initial((1, 1), (0, 1), None, doend)
            m.start(fn, args, cfg)
    except Violation as e: r = ('bad', '%s; %s' % (e.args[0], describe(m, getattr(e, 'cfg', None))), e.at)
    except Undecided as e: r = ('open', '%s; %s' % (e.args[0], describe(m, getattr(e, 'cfg', None))), getattr(e, 'at', None))
    except NeedLine as e: r = ('need', e.args[0], None)
    else:
        if not m.finals: raise AnalysisError('no path returns')
        r = ('ok', '%d configurations, %d returns' % (len(m.seen), m.finals), None)
    return r + (len(m.seen), m.finals, m.steps, m.kcalls)

LMIN = 12; LMAX = 300
def job(src, fn, L, lmin, doend):
    return run(src, fn, L, (0, 1) if L is None else range(0, L + 1), doend, lmin)

def encoders():
    """{unit: [functions the encode pointer may hold]}"""
    base = ir.load('src/encoder.cc'); ptr = None; out = {}
    for n, g in base.globals.items():
        if re.search(r'(^|::)_do_encode$', g['dem']) and g.get('init') is not None:
            if g['init'][0] != 'g': raise AnalysisError('_do_encode has no portable initial value')
            ptr = n; out['src/encoder.cc'] = [g['init'][1]]
    if ptr is None: raise AnalysisError('_do_encode not found')
    for s in sorted(ir.units()):
        if not re.match(r'src/encoder\w*\.cc$', s): continue
        m = ir.load(s)
        for n, f in m.defined().items():
            for b in f['blocks']:
                for i in b:
                    if i['op'] == 'store' and tuple(i['ops'][1][:2]) == ('g', ptr):
                        v = i['ops'][0]
                        if v[0] != 'g': raise AnalysisError('_do_encode is given an unknown function at %s' % where(i))
                        if v[1] not in out.setdefault(s, []): out[s].append(v[1])
    return {s: l for s, l in out.items()}

def c14(rep):
    port = encoders(); scal = {port['src/encoder.cc'][0]: 'encoder'}; groups = {}
    for s, l in port.items():
        m = ir.load(s)
        for fn in l:
            if fn not in m.functions or m.functions[fn]['decl']:
                if fn in scal: continue
                rep.check('the encoder is defined where it is installed', fn, None, s); continue
            txt = canon(m, fn, {} if fn in scal else scal)[0]
            txt = re.sub(r'kernel .*?(?=["\\])', 'kernel', txt)
            groups.setdefault(txt, []).append((s, fn, '%s: %s' % (s, re.sub(r'\(int, int\*.*', '', m.functions[fn]['dem'])[-100:])))
    work = [(g, L, None, d) for g in groups for L in range(1, LMIN) for d in (0, 1)] + [(g, None, LMIN, d) for g in groups for d in (0, 1)]
    work.reverse(); tot = [0] * 4; asked = {}
    with cf.ProcessPoolExecutor(8) as ex:
        while work:
            fut = [(w, ex.submit(job, groups[w[0]][0][0], groups[w[0]][0][1], w[1], w[2], w[3])) for w in work]; work = []
            for (g, L, lmin, d), f in fut:
                r = f.result()
                for k in range(4): tot[k] += r[3 + k]
                if r[0] == 'need':
                    n = r[1] + 1
                    if n <= LMAX and n > lmin:
                        work += [(g, None, n, d)] + [(g, x, None, d) for x in range(asked.get((g, d), LMIN), n)]; asked[(g, d)] = n; continue
                    r = ('open', 'the program treats line sizes up to %d differently' % r[1], None)
                if r[0] == 'bad' and L is None:             # a join of several line sizes may be too coarse: look at some of them
                    fs = [ex.submit(job, groups[g][0][0], groups[g][0][1], x, None, d) for x in list(range(lmin, lmin + 8)) + [33]]; hit = None
                    for x in cf.as_completed(fs):
                        if x.result()[0] == 'bad': hit = x.result(); break
                    for x in fs: x.cancel()
                    r = hit if hit else ('open',) + r[1:]
                for s, fn, name in groups[g]:
                    rule = 'encodes as specified, returns the length written%s' % (', escapes a final tab or space' if d else '')
                    at = '%s, %s' % (name, 'line size %d' % L if L else 'every line size from %d' % lmin)
                    rep.check(rule, at, {'ok': True, 'bad': False, 'open': None}[r[0]], '%s%s' % (r[1], ' at %s' % r[2] if r[2] else ''))
    rep.cover.update({'functions': sum(len(l) for l in groups.values()), 'different functions': len(groups), 'configurations': tot[0], 'returns': tot[1], 'instructions': tot[2], 'kernel calls': tot[3]})
    rep.need('encodes as specified, returns the length written', 2 * LMIN)
