"""Path-sensitive forward abstract interpretation of LLVM IR over value-number terms.

One abstract state per CFG path class (ESP-style): SSA values are terms, memory is a map from
(object, offset) to terms, branch conditions that the facts do not decide split the state.  There is
no solver: a condition is decided only by constant folding, interval facts or an identical fact.
Calls are inlined when a body is in the module (unless a hook claims them), so extracting or
inlining a helper does not change what is computed.
"""
import re, itertools, sys
from terms import *
from ir import AnalysisError, where
sys.setrecursionlimit(10000)

class Cut(Exception):
    pass

class State:
    __slots__ = ('frames', 'mem', 'facts', 'sr', 'ur', 'events', 'uniq', 'visits', 'tags', 'epoch', 'dead', 'ret')
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = {}; self.sr = {}; self.ur = {}
        self.events = []; self.uniq = 0; self.visits = {}; self.tags = {}; self.epoch = {}; self.dead = None; self.ret = None
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.facts = dict(self.facts); s.sr = dict(self.sr); s.ur = dict(self.ur)
        s.events = list(self.events); s.uniq = self.uniq; s.visits = dict(self.visits); s.tags = dict(self.tags)
        s.epoch = dict(self.epoch); s.dead = self.dead; s.ret = self.ret
        return s
    def fresh(self, w, *name):
        self.uniq += 1
        return ('s', w) + name + ('#%d' % self.uniq,)

class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'env', 'args', 'ret_ins', 'depth', 'uid')
    def __init__(self, fn, args, ret_ins, depth, uid):
        self.fn = fn; self.blk = 0; self.idx = 0; self.prev = None; self.env = {}; self.args = args
        self.ret_ins = ret_ins; self.depth = depth; self.uid = uid
    def copy(self):
        f = Frame(self.fn, self.args, self.ret_ins, self.depth, self.uid)
        f.blk, f.idx, f.prev, f.env = self.blk, self.idx, self.prev, dict(self.env)
        return f

TYW = re.compile(r'^i(\d+)$')
def tyw(t):
    m = TYW.match(t)
    if m: return int(m.group(1))
    if t == 'ptr': return 64
    return None

class Interp:
    def __init__(self, module, hook=None, modules=None, max_visits=80, max_states=60000, on_loop=None, on_branch=None, on_load=None, on_store=None):
        self.m = module
        self.modules = modules or [module]
        self.hook = hook
        self.max_visits = max_visits; self.max_states = max_states
        self.on_loop = on_loop; self.on_branch = on_branch; self.on_load = on_load; self.on_store = on_store
        self.ranges = {}             # atom -> (lo, hi) unsigned-consistent
        self.nstates = 0; self.ncalls = 0; self.loop_exit = False
        self.funcs_seen = set()
        self._fcache = {}

    # ---------------------------------------------------------------- facts
    def srange(self, st, t, depth=0):
        w = width(t)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isk(t):
            v = sval(t); return v, v
        h = t[0]
        if t in self.ranges:
            a, b = self.ranges[t]
            if b <= hi: lo, hi = max(lo, a), min(hi, b)
        if depth < 8:
            if h == 'lin':
                a = b = sgn(w, t[2])
                for at, k in t[3]:
                    k = sgn(w, k)
                    x, y = self.srange(st, at, depth + 1)
                    if k < 0: x, y = y, x
                    a += k * x; b += k * y
                if a >= lo and b <= hi: lo, hi = a, b
            elif h == 'sext':
                lo, hi = self.srange(st, t[2], depth + 1)
            elif h == 'trunc':
                a, b = self.srange(st, t[2], depth + 1)
                if a >= lo and b <= hi: lo, hi = a, b
            elif h == 'select':
                a, b = self.srange(st, t[3], depth + 1), self.srange(st, t[4], depth + 1)
                lo, hi = min(a[0], b[0]), max(a[1], b[1])
            elif h in ('zext', 'and', 'udiv', 'lshr', 'or', 'cmp'):
                a, b = self.urange(st, t, depth + 1)
                if b <= hi: lo, hi = a, b
        r = st.sr.get(t)
        if r: lo, hi = max(lo, r[0]), min(hi, r[1])
        r = st.ur.get(t)
        if r and r[1] <= (1 << (w - 1)) - 1: lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi
    def urange(self, st, t, depth=0):
        w = width(t)
        lo, hi = 0, M(w)
        if isk(t): return t[2], t[2]
        h = t[0]
        if t in self.ranges:
            a, b = self.ranges[t]
            if a >= 0: lo, hi = max(lo, a), min(hi, b)
        hi = min(hi, umax(t))
        if depth < 8:
            if h == 'zext':
                a, b = self.urange(st, t[2], depth + 1); lo, hi = max(lo, a), min(hi, b)
            elif h == 'lin':
                a = b = t[2]
                c, d = lin_coefs_signed(t)
                a = b = c
                for at, k in d.items():
                    x, y = self.urange(st, at, depth + 1)
                    if k < 0: x, y = y, x
                    a += k * x; b += k * y
                if a >= 0 and b <= M(w): lo, hi = max(lo, a), min(hi, b)
            elif h == 'udiv':
                a, b = self.urange(st, t[2], depth + 1); c, d = self.urange(st, t[3], depth + 1)
                lo, hi = a // max(d, 1), b // max(c, 1)
            elif h == 'urem':
                a, b = self.urange(st, t[2], depth + 1); c, d = self.urange(st, t[3], depth + 1)
                hi = min(b, max(d - 1, 0))
            elif h == 'lshr' and isk(t[3]):
                a, b = self.urange(st, t[2], depth + 1); lo, hi = a >> t[3][2], b >> t[3][2]
            elif h == 'and' and isk(t[3]):
                a, b = self.urange(st, t[2], depth + 1); hi = min(hi, b)
            elif h == 'select':
                a, b = self.urange(st, t[3], depth + 1), self.urange(st, t[4], depth + 1)
                lo, hi = min(a[0], b[0]), max(a[1], b[1])
            elif h == 'sext':
                a, b = self.srange(st, t[2], depth + 1)
                if a >= 0: lo, hi = max(lo, a), min(hi, b)
        r = st.ur.get(t)
        if r: lo, hi = max(lo, r[0]), min(hi, r[1])
        r = st.sr.get(t)
        if r and r[0] >= 0: lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def decide(self, st, c):
        if isk(c): return bool(c[2])
        if c in st.facts: return st.facts[c]
        n = neg(c)
        if n in st.facts: return not st.facts[n]
        h = c[0]
        if h == 'xor' and isk(c[3]) and c[3][2] == 1:
            r = self.decide(st, c[2]); return None if r is None else not r
        if h in ('and', 'or') and c[1] == 1:
            a, b = self.decide(st, c[2]), self.decide(st, c[3])
            if h == 'and':
                if a is False or b is False: return False
                if a and b: return True
            else:
                if a or b: return True
                if a is False and b is False: return False
            return None
        if h == 'select' and c[1] == 1:
            s = self.decide(st, c[2])
            if s is not None: return self.decide(st, c[3] if s else c[4])
            a, b = self.decide(st, c[3]), self.decide(st, c[4])
            return a if a == b else None
        if h == 'cmp':
            p, a, b = c[2], c[3], c[4]
            if a[0] == 'ptr' or b[0] == 'ptr': return self.ptr_decide(st, p, a, b)
            if a[0] in ('undef', 'h', 'fn') or b[0] in ('undef', 'h', 'fn'): return None
            if p in ('eq', 'ne'):
                if width(a) == width(b):
                    for rng in (self.srange, self.urange):
                        x, y = rng(st, a), rng(st, b)
                        if x[1] < y[0] or y[1] < x[0]: return p == 'ne'
                        if x[0] == x[1] == y[0] == y[1]: return p == 'eq'
                    for q in ('slt', 'ult'):
                        for u, v in ((a, b), (b, a)):
                            if st.facts.get(('cmp', 1, q, u, v)): return p == 'ne'
                    d = self.diff(st, a, b)
                    if d and (d[0] > 0 or d[1] < 0): return p == 'ne'
                return None
            rng = self.srange if p == 'slt' else self.urange
            x, y = rng(st, a), rng(st, b)
            if x[1] < y[0]: return True
            if x[0] >= y[1]: return False
            if st.facts.get(('cmp', 1, p, b, a)): return False
            if st.facts.get(cmp_('eq', a, b)): return False
            d = self.diff(st, a, b, p)
            if d:
                if d[1] < 0: return True
                if d[0] >= 0: return False
        return None
    def diff(self, st, a, b, pred='slt'):
        """range of the mathematical difference a-b when neither side can wrap"""
        return None
    def ptr_decide(self, st, p, a, b):
        if a[0] == 'ptr' and b[0] == 'ptr':
            if a[1] == b[1]:
                if p in ('eq', 'ne'):
                    c = cmp_(p, a[2], b[2])
                    return self.decide(st, c)
                return self.decide(st, cmp_('slt', a[2], b[2]))
            if ('null',) in (a[1], b[1]) and p in ('eq', 'ne'):
                o = a[1] if b[1] == ('null',) else b[1]
                nn = self.nonnull(st, o)
                if nn is not None: return (p == 'ne') == nn
        return None
    def nonnull(self, st, o):
        if o[0] in ('alloca', 'g', 'param'): return True
        return st.tags.get(('nonnull', o))
    def assume(self, st, c, val):
        """add a fact; False when it contradicts what is known"""
        r = self.decide(st, c)
        if r is not None: return r == val
        h = c[0]
        if h == 'xor' and isk(c[3]) and c[3][2] == 1: return self.assume(st, c[2], not val)
        st.facts[c] = val
        if h == 'and' and c[1] == 1 and val: return self.assume(st, c[2], True) and self.assume(st, c[3], True)
        if h == 'or' and c[1] == 1 and not val: return self.assume(st, c[2], False) and self.assume(st, c[3], False)
        if h == 'cmp':
            p, a, b = c[2], c[3], c[4]
            if a[0] == 'ptr' or b[0] == 'ptr':
                if p in ('eq', 'ne') and a[0] == b[0] == 'ptr' and ('null',) in (a[1], b[1]):
                    o = a[1] if b[1] == ('null',) else b[1]
                    st.tags[('nonnull', o)] = ((p == 'ne') == val)
                return True
            if a[0] in ('undef', 'h', 'fn') or b[0] in ('undef', 'h', 'fn'): return True
            if p in ('eq', 'ne'):
                if (p == 'eq') == val:
                    x, y = self.srange(st, a), self.srange(st, b)
                    r = (max(x[0], y[0]), min(x[1], y[1]))
                    u, v = self.urange(st, a), self.urange(st, b)
                    q = (max(u[0], v[0]), min(u[1], v[1]))
                    if r[0] > r[1] or q[0] > q[1]: return False
                    for t in (a, b):
                        if not isk(t): st.sr[t] = r; st.ur[t] = q
                else:
                    for t, k in ((a, b), (b, a)):
                        if isk(k) and not isk(t):
                            x = self.srange(st, t)
                            if x[0] == sval(k): st.sr[t] = (x[0] + 1, x[1])
                            elif x[1] == sval(k): st.sr[t] = (x[0], x[1] - 1)
                            x = self.urange(st, t)
                            if x[0] == k[2]: st.ur[t] = (x[0] + 1, x[1])
                            elif x[1] == k[2]: st.ur[t] = (x[0], x[1] - 1)
                return True
            rng, tab = (self.srange, st.sr) if p == 'slt' else (self.urange, st.ur)
            x, y = rng(st, a), rng(st, b)
            if val:   # a < b
                if not isk(a): tab[a] = (x[0], min(x[1], y[1] - 1))
                if not isk(b): tab[b] = (max(y[0], x[0] + 1), y[1])
            else:     # a >= b
                if not isk(a): tab[a] = (max(x[0], y[0]), x[1])
                if not isk(b): tab[b] = (y[0], min(y[1], x[1]))
            for t in (a, b):
                if not isk(t) and tab[t][0] > tab[t][1]: return False
            self.propagate(st, a); self.propagate(st, b)
        return True
    def propagate(self, st, t):
        """push an interval on  atom+c / sext(atom) / zext(atom) down to the atom"""
        if t[0] == 'sext' and t in st.sr:
            lo, hi = st.sr[t]; x = self.srange(st, t[2]); st.sr[t[2]] = (max(lo, x[0]), min(hi, x[1]))
        if t[0] == 'zext' and t in st.ur:
            lo, hi = st.ur[t]; x = self.urange(st, t[2]); st.ur[t[2]] = (max(lo, x[0]), min(hi, x[1]))

    # ---------------------------------------------------------------- memory
    def store(self, st, p, size, val, ins=None):
        if p[0] != 'ptr':
            st.events.append(('store?', p, size, val, ins)); return
        obj, off = p[1], p[2]
        if val[0] == 'agg' and val[1] == 'lit' and (val[3].startswith(('{', '%', '[')) or size <= 64):
            es = self.fields(val[3])
            if es and len(es) == len(val[2]):
                for (o, t), x in zip(es, val[2]):
                    self.store(st, ('ptr', obj, add(off, K(64, o))), self.tsize(t), x, ins)
                return
        if val[0] == 'agg' and val[1] == 'zero' and size <= 64 and size % 8 == 0:
            for o in range(0, size, 8): self.store(st, ('ptr', obj, add(off, K(64, o))), 8, K(64, 0), ins)
            return
        if self.on_store and self.on_store(self, st, p, size, val, ins): return
        c, d = lin_parts(off)
        key = (obj, mk_lin(64, 0, d))
        cells = st.mem.setdefault(key, {})
        o = sgn(64, c)
        for so in [k for k in cells]:
            n, v = cells[so]
            if so < o + size and o < so + n:
                del cells[so]
                if so < o or so + n > o + size:
                    bs = bytes_of(v, n)
                    if bs is None: bs = [('undef',)] * n
                    for i, b in enumerate(bs):
                        if not (o <= so + i < o + size): cells[so + i] = (1, b)
        cells[o] = (size, val)
    def load(self, st, p, size, ty, ins=None):
        w = tyw(ty) or (64 if ty == 'ptr' else None)
        if p[0] != 'ptr':
            return st.fresh(w or size * 8, 'load?')
        obj, off = p[1], p[2]
        if ty and ty[0] in '{%[':
            es = self.fields(ty)
            if es: return ('agg', 'lit', tuple(self.load(st, ('ptr', obj, add(off, K(64, o))), self.tsize(t), t, ins) for o, t in es), ty)
        if self.on_load:
            r = self.on_load(self, st, p, size, ty, ins)
            if r is not None: return r
        c, d = lin_parts(off)
        key = (obj, mk_lin(64, 0, d))
        o = sgn(64, c)
        cells = st.mem.get(key, {})
        if o in cells and cells[o][0] == size:
            v = cells[o][1]
            return self.fit(v, ty)
        # initial contents of constant globals
        if obj[0] == 'g' and not d:
            v = self.global_init(obj[1], o, size, ty, st)
            if v is not None: return v
        if cells and size <= 16:
            bs = []
            for i in range(size):
                hit = None
                for so, (n, v) in cells.items():
                    if so <= o + i < so + n:
                        b = bytes_of(v, n)
                        hit = b[o + i - so] if b else None
                        break
                else:
                    bs = None; break
                if hit is None: bs = None; break
                bs.append(hit)
            if bs:
                if any(b[0] == 'undef' for b in bs): return ('undef',)
                return self.fit(mk_cat(bs), ty)
        if obj[0] == 'alloca' and not cells:
            v = ('undef',)
            return v
        v = ('s', w or size * 8, 'mem', obj, key[1], o, size, st.epoch.get(obj, 0))
        if ty == 'ptr': v = ('ptr', ('ld', v), K(64, 0))
        st.mem.setdefault(key, {})[o] = (size, v)
        return v
    def fit(self, v, ty):
        w = tyw(ty)
        if v[0] in ('ptr', 'h', 'fn', 'undef', 'agg', 'f'): return v
        if w and width(v) != w:
            if width(v) > w: return trunc(v, w)
            return zext(v, w)
        if ty == 'ptr' and v[0] == 'k' and v[2] == 0: return ('ptr', ('null',), K(64, 0))
        return v
    def find_global(self, name):
        for m in self.modules:
            g = m.globals.get(name)
            if g is not None and 'init' in g: return g
        return None
    def global_init(self, name, off, size, ty, st):
        g = self.find_global(name)
        if not g or not g['const'] or 'init' not in g: return None
        return self.init_at(g['init'], g['ty'], off, size, ty, st)
    def tsize(self, t):
        t = t.strip()
        w = tyw(t)
        if w: return max(1, (w + 7) // 8)
        if t in ('double',): return 8
        if t in ('float',): return 4
        m = re.match(r'^[\[<](\d+) x (.*)[\]>]$', t)
        if m and not t.startswith('<{'): return int(m.group(1)) * self.tsize(m.group(2))
        e = self.fields(t)
        if t.startswith('%'):
            for m in self.modules:
                r = m.structs.get(t.replace('"', ''))
                if r: return r['size']
            return None
        if e is None: return None
        if not e: return 0
        end = e[-1][0] + self.tsize(e[-1][1])
        if t.startswith('<{'): return end
        al = max(self.talign(x[1]) for x in e)
        return (end + al - 1) // al * al
    def talign(self, t):
        w = tyw(t)
        if w: return min(16, max(1, (w + 7) // 8))
        if t == 'double': return 8
        if t == 'float': return 4
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m: return self.talign(m.group(2))
        if t.startswith('<{'): return 1
        e = self.fields(t)
        if e: return max(self.talign(x[1]) for x in e)
        return 8
    def fields(self, t):
        """[(offset, type)] of an aggregate type"""
        t = t.strip()
        if t.startswith('%'):
            for m in self.modules:
                r = m.structs.get(t.replace('"', ''))
                if r: return [tuple(x) for x in r['f']]
            return None
        m = re.match(r'^\[(\d+) x (.*)\]$', t) or (not t.startswith('<{') and re.match(r'^<(\d+) x (.*)>$', t))
        if m:
            n, et = int(m.group(1)), m.group(2); es = self.tsize(et)
            return None if es is None else [(i * es, et) for i in range(n)]
        if t[0] in '{<':
            packed = t.startswith('<{')
            body = t[2:-2] if packed else t[1:-1]
            parts = []; d = 0; cur = ''
            for ch in body:
                if ch in '[{<(': d += 1
                if ch in ']}>)': d -= 1
                if ch == ',' and d == 0: parts.append(cur.strip()); cur = ''
                else: cur += ch
            if cur.strip(): parts.append(cur.strip())
            out = []; off = 0
            for x in parts:
                if not packed:
                    al = self.talign(x); off = (off + al - 1) // al * al
                sz = self.tsize(x)
                if sz is None: return None
                out.append((off, x)); off += sz
            return out
        return None
    def init_at(self, init, gty, off, size, ty, st):
        """value of size bytes at byte offset off of an initialiser, or None"""
        w = tyw(ty)
        if off < 0: return None
        if init[0] == 'z': return (('ptr', ('null',), K(64, 0)) if ty == 'ptr' else K(w, 0)) if w else None
        if init[0] == 'agg':
            es = self.fields(gty)
            if not es or len(es) != len(init[1]): return None
            for (o, t), x in zip(es, init[1]):
                n = self.tsize(t)
                if n is None: return None
                if o <= off and off + size <= o + n: return self.init_at(x, t, off - o, size, ty, st)
            bs = []
            for i in range(size):
                v = self.init_at(init, gty, off + i, 1, 'i8', st) if size > 1 else None
                if v is None or v[0] != 'k': return None
                bs.append(v)
            return self.fit(mk_cat(bs), ty)
        v = self.const(init, st)
        if v[0] == 'k':
            n = v[1] // 8
            if v[1] % 8 == 0 and off + size <= n:
                if off == 0 and size == n: return self.fit(v, ty)
                return self.fit(K(8 * size, v[2] >> (8 * off)), ty)
            return None
        if off == 0 and v[0] in ('ptr', 'fn') and size == 8: return v
        return None
    def cstring(self, p, st=None):
        """text of a constant C string, or None"""
        if p[0] != 'ptr' or p[1][0] != 'g' or not isk(p[2]): return None
        g = self.find_global(p[1][1])
        if not g or not g['const']: return None
        out = b''; o = sval(p[2])
        while len(out) < 4096:
            v = self.init_at(g['init'], g['ty'], o + len(out), 1, 'i8', st)
            if v is None: return None
            if v[2] == 0: return out.decode('latin-1')
            out += bytes([v[2]])
    def clobber(self, st, obj):
        for k in [k for k in st.mem if k[0] == obj]: del st.mem[k]
        st.epoch[obj] = st.epoch.get(obj, 0) + 1
        st.uniq += 1
        # keep 'undef' from reappearing for clobbered allocas
        st.mem[(obj, K(64, 0))] = {1 << 40: (1, K(8, 0))}

    # ---------------------------------------------------------------- evaluation
    def const(self, o, st):
        t = o[0]
        if t == 'c': return K(o[2], o[1])
        if t == 'n': return ('ptr', ('null',), K(64, 0))
        if t == 'u': return ('undef',)
        if t == 'g':
            for m in self.modules:
                if o[1] in m.functions: return ('fn', o[1])
            return ('ptr', ('g', o[1]), K(64, 0))
        if t == 'f': return ('f', o[1])
        if t == 'z': return ('agg', 'zero', o[1])
        if t == 'agg': return ('agg', 'lit', tuple(self.const(x, st) for x in o[1]), o[2])
        if t == 'gep': return self.gep(o[1], lambda x: self.const(x, st))
        if t == 'ce':
            a = [self.const(x, st) for x in o[2]]
            if o[1] in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'): return a[0]
        if t == 'asm': return ('asm', o[1])
        return ('undef',)
    def val(self, st, f, o):
        if o[0] == 'v':
            return f.env[o[1]] if o[1] in f.env else ('undef',)
        if o[0] == 'a': return f.args[o[1]]
        return self.const(o, st)
    def gep(self, g, ev):
        b = ev(g['base'])
        if b[0] != 'ptr':
            if b[0] == 'undef': return b
            b = ('ptr', ('int', b), K(64, 0))
        if 'off' not in g: raise AnalysisError('unsupported gep')
        off = add(b[2], K(64, g['off']))
        for v, k in g['vars']:
            t = ev(v)
            if t[0] == 'undef': return ('undef',)
            off = add(off, mulk(sext(t, 64), k))
        return ('ptr', b[1], off)

    def run(self, fname, args, st=None):
        """all final states (ret or dead) of calling fname with args"""
        st = st or State()
        f = self.func(fname)
        st.frames.append(Frame(fname, list(args), None, 0, st.uniq)); st.uniq += 1
        work = [st]; done = []
        while work:
            s = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states: raise AnalysisError('state limit in %s' % fname)
            try:
                for r in self.step(s):
                    if r.dead is not None or not r.frames: done.append(r)
                    else: work.append(r)
            except RecursionError:
                raise AnalysisError('recursion limit')
        return done
    def func(self, name):
        if name in self._fcache: return self._fcache[name]
        for m in self.modules:
            f = m.functions.get(name)
            if f and not f['decl']:
                self._fcache[name] = f
                return f
        self._fcache[name] = None
        return None
    def dem(self, name):
        for m in self.modules:
            if name in m.functions: return m.functions[name]['dem']
        return name

    def goto(self, st, f, b):
        key = (f.uid, b)
        st.visits[key] = st.visits.get(key, 0) + 1
        if st.visits[key] > (20000 if self.loop_exit else self.max_visits):
            raise AnalysisError('loop bound exceeded in %s block %d' % (self.dem(f.fn), b))
        f.prev = f.blk; f.blk = b; f.idx = 0
        # phis in parallel
        fn = self.func(f.fn); new = {}
        for ins in fn['blocks'][b]:
            if ins['op'] != 'phi': break
            for pb, v in ins['in']:
                if pb == f.prev:
                    new[ins['id']] = self.val(st, f, v); break
            f.idx += 1
        f.env.update(new)
        if self.on_loop: self.on_loop(self, st, f, b)

    def step(self, st):
        """run until the state splits, returns or dies"""
        while True:
            f = st.frames[-1]
            fn = self.func(f.fn)
            self.funcs_seen.add(f.fn)
            ins = fn['blocks'][f.blk][f.idx]
            f.idx += 1
            op = ins['op']
            ev = lambda o: self.val(st, f, o)
            if op == 'br':
                if not ins['ops']:
                    self.goto(st, f, ins['succ'][0])
                    if st.dead is not None: return [st]
                    continue
                c = ev(ins['ops'][0])
                return self.branch(st, f, ins, c, ins['succ'][0], ins['succ'][1])
            if op == 'switch':
                return self.switch(st, f, ins, ev(ins['ops'][0]))
            if op == 'ret':
                v = ev(ins['ops'][0]) if ins['ops'] else None
                st.frames.pop()
                # drop the frame's allocas
                if not st.frames:
                    st.ret = v; return [st]
                if f.ret_ins is not None and f.ret_ins['ty'] != 'void':
                    st.frames[-1].env[f.ret_ins['id']] = v
                continue
            if op == 'unreachable':
                st.dead = 'unreachable'; return [st]
            if op == 'call' or op == 'invoke':
                r = self.call(st, f, ins)
                if r is not None: return r
                continue
            r = self.simple(st, f, ins, op, ev)
            if isinstance(r, list): return r
            f.env[ins['id']] = r

    def branch(self, st, f, ins, c, bt, bf):
        if c[0] == 'undef':
            d = None
            st.events.append(('undef-branch', where(ins, f.fn)))
        else:
            d = self.decide(st, c)
        if d is not None:
            t = bt if d else bf
            if self.loop_exit and st.visits.get((f.uid, t), 0) >= self.max_visits and bt != bf:
                o = bf if d else bt          # leave a long table-filling loop
                if st.visits.get((f.uid, o), 0) < st.visits[(f.uid, t)]: t = o; st.tags[('cutloop', f.fn)] = True
            self.goto(st, f, t)
            return [st]
        out = []
        for v, b in ((True, bt), (False, bf)):
            s = st.copy()
            if c[0] != 'undef' and not self.assume(s, c, v): continue
            if self.on_branch: self.on_branch(self, s, c, v, ins)
            self.goto(s, s.frames[-1], b)
            out.append(s)
        return out
    def switch(self, st, f, ins, v):
        out = []
        cur = st
        for k, b in ins['cases']:
            c = cmp_('eq', v, K(k[2], k[1])) if v[0] != 'undef' else ('undef',)
            d = self.decide(cur, c) if c[0] != 'undef' else None
            if d is True:
                self.goto(cur, cur.frames[-1], b)
                return out + [cur]
            if d is None:
                s = cur.copy()
                if self.assume(s, c, True):
                    if self.on_branch: self.on_branch(self, s, c, True, ins)
                    self.goto(s, s.frames[-1], b); out.append(s)
                cur = cur.copy()
                if not self.assume(cur, c, False): return out
        self.goto(cur, cur.frames[-1], ins['default'])
        return out + [cur]

    def simple(self, st, f, ins, op, ev):
        ty = ins['ty']
        if op == 'alloca':
            st.uniq += 1
            return ('ptr', ('alloca', f.fn, ins['id'], st.uniq, ins['size']), K(64, 0))
        if op == 'load':
            return self.load(st, ev(ins['ops'][0]), ins['size'], ty, ins)
        if op == 'store':
            self.store(st, ev(ins['ops'][1]), ins['size'], ev(ins['ops'][0]), ins)
            return ('undef',)
        if op == 'getelementptr': return self.gep(ins['gep'], ev)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = ev(ins['ops'][0]), ev(ins['ops'][1])
            if tyw(ty) is None: return st.fresh(512, 'vec')
            return self.arith(st, op, a, b, ins)
        if op == 'icmp':
            a, b = ev(ins['ops'][0]), ev(ins['ops'][1])
            return self.icmp(st, ins['pred'], a, b, ins)
        if op in ('zext', 'sext', 'trunc'):
            a = ev(ins['ops'][0]); w = tyw(ty)
            if w is None or a[0] in ('agg',): return st.fresh(512, 'vec')
            if a[0] in ('ptr', 'h', 'fn'): return a
            if op == 'sext' and a[0] in ('trunc', 'lin'): return self.wide(st, a, w)
            if op == 'zext' and a[0] in ('trunc', 'lin') and self.srange(st, a)[0] >= 0: return self.wide(st, a, w)
            return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](a, w)
        if op == 'select':
            c, a, b = (ev(x) for x in ins['ops'])
            d = self.decide(st, c) if c[0] != 'undef' else None
            if d is not None: return a if d else b
            if a == b: return a
            if tyw(ty) is None or a[0] in ('ptr', 'h', 'fn', 'undef') or b[0] in ('ptr', 'h', 'fn', 'undef') or True:
                # split: keeps every later term exact
                out = []
                for v, t in ((True, a), (False, b)):
                    s = st.copy()
                    if c[0] != 'undef' and not self.assume(s, c, v): continue
                    s.frames[-1].env[ins['id']] = t
                    out.append(s)
                return out
        if op in ('ptrtoint',):
            a = ev(ins['ops'][0])
            if a[0] == 'ptr':
                base = K(64, 0) if a[1] == ('null',) else ('s', 64, 'addr', a[1])
                if a[1][0] == 'int': base = a[1][1]
                r = add(base, a[2])
                w = tyw(ty)
                return trunc(r, w) if w < 64 else r
            return a
        if op == 'inttoptr':
            a = ev(ins['ops'][0])
            if a[0] in ('k', 'lin', 's'):
                c, d = lin_parts(a)
                for at, k in d.items():
                    if at[0] == 's' and len(at) == 4 and at[2] == 'addr' and k == 1:
                        d2 = dict(d); del d2[at]
                        return ('ptr', at[3], mk_lin(64, c, d2))
                if isk(a) and a[2] == 0: return ('ptr', ('null',), K(64, 0))
                return ('ptr', ('int', a), K(64, 0))
            if a[0] in ('ptr', 'h'): return a
            return ('ptr', ('int', a), K(64, 0))
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            a = ev(ins['ops'][0])
            return a
        if op == 'extractvalue':
            a = ev(ins['ops'][0])
            if a[0] == 'agg' and a[1] == 'lit':
                v = a
                for i in ins['idx']: v = v[2][i]
                return v
            if a[0] == 's': return ('s', tyw(ty) or 64, 'xv', a, tuple(ins['idx']))
            return st.fresh(tyw(ty) or 64, 'xv')
        if op == 'insertvalue':
            a, b = ev(ins['ops'][0]), ev(ins['ops'][1])
            if len(ins['idx']) == 1:
                n = ty.count(',') + 1
                cur = list(a[2]) if a[0] == 'agg' and a[1] == 'lit' else [('undef',)] * n
                cur[ins['idx'][0]] = b
                return ('agg', 'lit', tuple(cur), ty)
            return st.fresh(64, 'iv')
        if op in ('sitofp', 'uitofp'):
            return ('fp', op, ev(ins['ops'][0]))
        if op in ('fptosi', 'fptoui'):
            a = ev(ins['ops'][0])
            return ('s', tyw(ty), op, a)
        if op == 'phi':
            raise AnalysisError('phi in the middle of a block')
        return st.fresh(tyw(ty) or 512, op)
    def arith(self, st, op, a, b, ins):
        if a[0] in ('ptr', 'h', 'fn') or b[0] in ('ptr', 'h', 'fn'):
            if a[0] == 'ptr' and b[0] == 'ptr' and op == 'sub' and a[1] == b[1]: return sub(a[2], b[2])
            return st.fresh(tyw(ins['ty']), 'ptrarith')
        if 'fp' in (a[0], b[0]): return st.fresh(64, 'fp')
        # interval-assisted simplifications
        if op == 'sdiv' or op == 'srem':
            if self.srange(st, a)[0] >= 0 and self.srange(st, b)[0] > 0: op = 'u' + op[1:]
        if op == 'ashr' and isk(b) and self.srange(st, a)[0] >= 0: op = 'lshr'
        if not isk(a):
            x = self.srange(st, a)
            if x[0] == x[1] and op not in ('add', 'sub', 'mul'): a = K(width(a), x[0])
        if not isk(b):
            x = self.srange(st, b)
            if x[0] == x[1] and op not in ('add', 'sub'): b = K(width(b), x[0])
        return binop(op, a, b)
    def wide(self, st, t, w=64):
        """the term sign-extended, with truncations that lose nothing (by the facts) removed"""
        if width(t) >= w: return t
        iw = width(t)
        if t[0] == 'k': return sext(t, w)
        if t[0] == 'trunc' and width(t[2]) <= w:
            lo, hi = self.srange(st, t[2])
            if lo >= -(1 << (iw - 1)) and hi < 1 << (iw - 1): return sext(t[2], w)
        if t[0] == 'lin':
            c, d = lin_coefs_signed(t)
            lo = hi = c
            for a, k in d.items():
                x, y = self.srange(st, a)
                if k < 0: x, y = y, x
                lo += k * x; hi += k * y
            if lo >= -(1 << (iw - 1)) and hi < 1 << (iw - 1):
                r = K(w, c)
                for a, k in d.items(): r = add(r, mulk(self.wide(st, a, w), k))
                return r
        if t[0] == 'zext': return zext(t[2], w)
        return sext(t, w)
    def icmp(self, st, pred, a, b, ins=None):
        if a[0] == 'undef' or b[0] == 'undef': return ('undef',)
        if 'trunc' in (a[0], b[0]) and width(a) == width(b) < 64 and width(a) > 8 and pred in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
            x, y = self.wide(st, a), self.wide(st, b)
            if 'sext' not in (x[0], y[0]) or (x[0] != 'sext' and isk(y)): return cmp_(pred, x, y)
        if a[0] == 'ptr' and b[0] == 'ptr':
            if a[1] == b[1]:
                q = {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(pred, pred)
                return cmp_(q, a[2], b[2])
            if repr(b) < repr(a) and pred in ('eq', 'ne'): a, b = b, a
            c = ('cmp', 1, pred, a, b)
            if pred == 'ne': c = ('cmp', 1, 'ne', a, b)
            return c
        if a[0] in ('ptr', 'h', 'fn', 'f', 'fp', 'agg') or b[0] in ('ptr', 'h', 'fn', 'f', 'fp', 'agg'):
            if a == b: return K(1, pred in ('eq', 'sge', 'sle', 'uge', 'ule'))
            if pred in ('eq', 'ne'):
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'h' and y == ('ptr', ('null',), K(64, 0)): return K(1, pred == 'ne')
            if a[0] == 'fn' and b[0] == 'ptr' and b[1] == ('null',): return K(1, pred == 'ne')
            if repr(b) < repr(a) and pred in ('eq', 'ne'): a, b = b, a
            return ('cmp', 1, pred, a, b)
        return cmp_(pred, a, b)

    # ---------------------------------------------------------------- calls
    def call(self, st, f, ins):
        callee = self.val(st, f, ins['callee'])
        args = [self.val(st, f, o) for o in ins['ops']]
        self.ncalls += 1
        name = callee[1] if callee[0] == 'fn' else None
        intr = ins.get('intr')
        if intr:
            r = self.intrinsic(st, f, ins, intr, args)
        elif self.hook is not None:
            r = self.hook(self, st, ins, name, callee, args)
        else: r = None
        if isinstance(r, list): return r        # split states, already advanced
        if r is None:
            fn = self.func(name) if name else None
            if fn is not None:
                if len(st.frames) > 60: raise AnalysisError('call depth')
                st.uniq += 1
                st.frames.append(Frame(name, args, ins, len(st.frames), st.uniq))
                return None
            st.events.append(('call', name, callee, tuple(args), ins))
            for i, a in enumerate(args):
                if a[0] == 'ptr' and a[1][0] == 'alloca' and not ins['argro'][i] and not ins.get('ro'):
                    self.clobber(st, a[1])
            r = self.result(st, ins, name or 'indirect')
        if r == 'dead':
            return [st]
        if ins['ty'] != 'void': f.env[ins['id']] = r
        if ins['op'] == 'invoke': self.goto(st, f, ins['succ'][0])
        return None
    def result(self, st, ins, name):
        ty = ins['ty']
        if ty == 'void': return ('undef',)
        if ty == 'ptr':
            return ('ptr', ('ret', st.fresh(64, name)), K(64, 0))
        return st.fresh(tyw(ty) or 512, 'ret', name)
    def intrinsic(self, st, f, ins, intr, args):
        n = intr.replace('llvm.', '')
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'donothing', 'prefetch')): return ('undef',)
        if n.startswith('memcpy') or n.startswith('memmove'):
            dst, src, ln = args[:3]
            if isk(ln) and ln[2] <= 64 and dst[0] == 'ptr' and src[0] == 'ptr':
                sz = ln[2]
                if sz in (1, 2, 4, 8):
                    self.store(st, dst, sz, self.load(st, src, sz, 'i%d' % (8 * sz), ins), ins)
                else:
                    for i in range(sz):
                        self.store(st, ('ptr', dst[1], add(dst[2], K(64, i))), 1, self.load(st, ('ptr', src[1], add(src[2], K(64, i))), 1, 'i8', ins), ins)
                return ('undef',)
            st.events.append(('memcpy', dst, src, ln, ins))
            if dst[0] == 'ptr': self.clobber(st, dst[1])
            return ('undef',)
        if n.startswith('memset'):
            dst, v, ln = args[:3]
            if isk(ln) and dst[0] == 'ptr' and ln[2] <= 64:
                if ln[2] == 8: self.store(st, dst, 8, mk_cat([v] * 8), ins)
                else:
                    for i in range(ln[2]): self.store(st, ('ptr', dst[1], add(dst[2], K(64, i))), 1, v, ins)
            else: st.events.append(('memset', dst, v, ln, ins))
            return ('undef',)
        if n.startswith('uadd.with.overflow'):
            a, b = args; w = width(a)
            r = add(a, b)
            o = cmp_('ult', r, a) if not (isk(a) and isk(b)) else K(1, a[2] + b[2] > M(w))
            return ('agg', 'lit', (r, o), ins['ty'])
        if n.startswith('expect'): return args[0]
        if n.startswith('bswap') and width(args[0]) % 8 == 0:
            bs = bytes_of(args[0], width(args[0]) // 8)
            if bs: return mk_cat(bs[::-1])
        if n.startswith('abs'):
            x = self.srange(st, args[0])
            if x[0] >= 0: return args[0]
            if x[1] <= 0: return mulk(args[0], -1)
            return ('abs', width(args[0]), args[0])
        if n.startswith(('umin', 'umax', 'smin', 'smax')):
            a, b = args
            p = {'umin': 'ult', 'smin': 'slt', 'umax': 'ugt', 'smax': 'sgt'}[n[:4]]
            c = cmp_(p, a, b); d = self.decide(st, c)
            if d is not None: return a if d else b
            return mk_select(c, a, b)
        if n.startswith(('fshl', 'fshr')): return ('op', width(args[0]), n[:4]) + tuple(args)
        if n.startswith('trap'):
            st.dead = 'trap'; return 'dead'
        if ins['ty'] == 'void': return ('undef',)
        return st.fresh(tyw(ins['ty']) or 512, n)
