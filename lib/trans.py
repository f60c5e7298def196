"""Product of a byte-processing function (LLVM IR) with a specification automaton.

The program is interpreted abstractly: each input byte is the set of values it may still have, every
value computed from bytes is kept as an expression over them, the number of remaining bytes is exact or
c + w*K with K >= 0 unknown, positions are relative to a moving reference point.  A comparison that is
not decided splits the byte set or the length.  At loop headers the reference point moves on, the
specification consumes the bytes passed, produced outputs are matched, and the remaining configuration
is looked up among those already seen: the exploration is a fixpoint over finitely many configurations
and covers every input of every length.
"""
from ir import AnalysisError, where
import re, time
T0 = time.time(); TJOB, TALL = 150, 600           # seconds one product, and all of them together, may take

FULL = (1 << 256) - 1
def only(*vs): return sum(1 << v for v in vs)
class Undecided(Exception): pass
class Violation(Exception):
    def __init__(self, msg, at=None): super().__init__(msg); self.at = at
class Fork(Exception):
    def __init__(self, mods): self.mods = mods          # functions cfg -> None

# ---------------------------------------------------------------- expressions over bytes
# ('b', j) byte; ('k', v, w) constant; (op, w, args...) otherwise
_deps = {}
def deps(e):
    if e[0] == 'k': return frozenset()
    if e[0] == 'b': return frozenset((e[1],))
    if e[0] == 'V': return frozenset((e[2],))
    d = _deps.get(e)
    if d is None:
        d = frozenset().union(*[deps(a) for a in e[2:] if isinstance(a, tuple)])
        if len(_deps) < 500000: _deps[e] = d
    return d
def width(e): return 8 if e[0] == 'b' else e[2] if e[0] == 'k' else e[1]
def sg(v, w): return v - (1 << w) if v >> (w - 1) else v
def icmp(p, x, y, w):
    if p == 'eq': return x == y
    if p == 'ne': return x != y
    if p[0] == 's': x, y = sg(x, w), sg(y, w)
    return {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p[1:]]
def ev(e, asg):
    k = e[0]
    if k == 'b': return asg[e[1]]
    if k == 'k': return e[1]
    if k == 'V': return _vt[e[3]][asg[e[2]]]
    w = e[1]; M = (1 << w) - 1
    if k == 'sel': return ev(e[3], asg) if ev(e[2], asg) else ev(e[4], asg)
    if k == 'zext': return ev(e[2], asg)
    if k == 'trunc': return ev(e[2], asg) & M
    if k == 'sext': return sg(ev(e[2], asg), width(e[2])) & M
    if k == 'cat':
        r = 0
        for i, a in enumerate(e[2:]): r |= ev(a, asg) << 8 * i
        return r
    if k.startswith('icmp'): return int(icmp(k[5:], ev(e[2], asg), ev(e[3], asg), width(e[2])))
    if k == 'bswap':
        return int.from_bytes(ev(e[2], asg).to_bytes(w // 8, 'little'), 'big')
    if k == 'ctpop': return bin(ev(e[2], asg)).count('1')
    x, y = ev(e[2], asg), ev(e[3], asg)
    if k == 'add': return x + y & M
    if k == 'sub': return x - y & M
    if k == 'mul': return x * y & M
    if k == 'and': return x & y
    if k == 'or': return x | y
    if k == 'xor': return x ^ y
    if k == 'shl': return x << y & M if y < w else 0
    if k == 'lshr': return x >> y if y < w else 0
    if k == 'ashr': return sg(x, w) >> min(y, w - 1) & M
    if k == 'umin': return min(x, y)
    if k == 'umax': return max(x, y)
    if k == 'smin': return min(sg(x, w), sg(y, w)) & M
    if k == 'smax': return max(sg(x, w), sg(y, w)) & M
    raise Undecided('operation %s' % k)
def shift(e, s):
    if e[0] == 'b': return ('b', e[1] - s)
    if e[0] == 'k': return e
    if e[0] == 'V': return ('V', e[1], e[2] - s, e[3])
    return e[:2] + tuple(shift(a, s) if isinstance(a, tuple) and a and isinstance(a[0], str) else a for a in e[2:])
# a function of one byte, tabulated: ('V', width, byte, table number)
_vt = []; _vg = []; _vid = {}; _vc = {}
def table(w, t):
    k = _vid.get((w, t))
    if k is None:
        k = _vid[(w, t)] = len(_vt); _vt.append(t); g = {}
        for v, x in enumerate(t): g[x] = g.get(x, 0) | 1 << v
        _vg.append(tuple(g.items()))
    return k
def vec(e, j):
    if e[0] == 'V': return e
    c = shift(e, j); k = _vc.get(c)
    if k is None: k = _vc[c] = table(width(e), tuple(ev(c, {0: v}) for v in range(256)))
    return ('V', width(e), j, k)
def vgroups(e):
    """[(value, bytes that give it)]"""
    return _vg[e[3]]
import functools
@functools.lru_cache(maxsize=4096)
def vals(mask):
    out = []
    while mask:
        l = mask & -mask; out.append(l.bit_length() - 1); mask ^= l
    return out

# ---------------------------------------------------------------- configurations
# values: ('c', v, w)  ('L', (lin), w)  ('P', region, (lin))  ('E', expr)  ('fn', name)  ('u',)
# lin: tuple of coefficients over SYMS + constant
class Frame:
    __slots__ = ('fn', 'b', 'prev', 'i', 'env', 'args', 'normed')
    def copy(self):
        f = Frame(); f.fn = self.fn; f.b = self.b; f.prev = self.prev; f.i = self.i; f.env = dict(self.env); f.args = self.args; f.normed = self.normed; return f
class Cfg:
    def copy(self):
        c = Cfg(); c.__dict__.update(self.__dict__)
        c.frames = [f.copy() for f in self.frames]; c.mem = dict(self.mem); c.bytes = dict(self.bytes); c.out = dict(self.out)
        return c

class Machine:
    """subclasses supply: spec (q, byte set, cfg) etc."""
    NS = 3                      # symbols r (remaining), n (consumed before the reference point), m (outputs before it)
    def __init__(self, mods, maxcfg=400000):
        self.funcs = {}; self.globals = {}
        for m in mods:
            for n, f in m.functions.items():
                if not f['decl'] or n not in self.funcs: self.funcs[n] = f
            for n, g in m.globals.items():
                if g.get('init') is not None or n not in self.globals: self.globals[n] = g
        self.seen = set(); self.maxcfg = maxcfg; self.count = 0; self.steps = 0; self.finals = 0; self.summaries = {}
        self._g = {}; self.tcache = {}; self.deadline = min(time.time() + TJOB, max(T0 + TALL, time.time() + 5))
    # ---- static info
    def info(self, fn):
        f = self.funcs[fn]; inf = f.get('_trinfo')
        if inf: return inf
        B = f['blocks']; n = len(B)
        succ = [[int(x) for x in b[-1].get('succ', [])] for b in B]
        def uses(o, out):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'v': out.add(o[1])
                elif len(o) == 2 and o[0] == 'a': out.add(('a', o[1]))
                else:
                    for x in o:
                        if isinstance(x, (list, dict)): uses(x, out)
            elif isinstance(o, dict):
                for x in o.values():
                    if isinstance(x, (list, dict)): uses(x, out)
        iu = [[set() for i in b] for b in B]; phiin = {}
        for bi, b in enumerate(B):
            for k, i in enumerate(b):
                if i['op'] == 'phi':
                    for p, o in i['in']:
                        s = set(); uses(o, s); phiin.setdefault((p, bi), set()).update(s)
                else:
                    uses(i.get('ops', []), iu[bi][k])
                    if 'gep' in i: uses(i['gep'], iu[bi][k])
                    if i['op'] == 'call': uses(i['callee'], iu[bi][k])
        live_in = [set() for _ in B]; live_out = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                lo = set()
                for s in succ[bi]: lo |= live_in[s]; lo |= phiin.get((bi, s), set())
                li = set(lo)
                for k in range(len(B[bi]) - 1, -1, -1):
                    i = B[bi][k]; li.discard(i['id']); li |= iu[bi][k]
                if lo != live_out[bi] or li != live_in[bi]: live_out[bi] = lo; live_in[bi] = li; ch = True
        H = set(); st = [(0, 0)]; col = {0: 1}
        while st:
            b, i = st.pop()
            if i < len(succ[b]):
                st.append((b, i + 1)); t = succ[b][i]
                if col.get(t) == 1: H.add(t)
                elif t not in col: col[t] = 1; st.append((t, 0))
            else: col[b] = 2
        inf = f['_trinfo'] = (live_in, live_out, iu, H)
        return inf
    def live(self, fr, caller):
        live_in, live_out, iu, H = self.info(fr.fn); B = self.funcs[fr.fn]['blocks'][fr.b]
        s = set(live_out[fr.b])
        for k in range(len(B) - 1, fr.i - 1 + (1 if caller else 0), -1):
            s.discard(B[k]['id']); s |= iu[fr.b][k]
        if not caller: s |= {i['id'] for i in B if i['op'] == 'phi'} & self.phi_live(fr)
        return s
    def phi_live(self, fr):
        live_in, live_out, iu, H = self.info(fr.fn); B = self.funcs[fr.fn]['blocks'][fr.b]
        s = set(live_out[fr.b])
        for k in range(len(B)): s |= iu[fr.b][k]
        return s
    # ---- linear values
    def lin(self, v):
        if v[0] == 'c': return (0,) * self.NS + (sg(v[1], v[2]) if v[2] > 1 else v[1],)
        if v[0] == 'L': return v[1]
        raise Undecided('not a linear value: %s' % (v[0],))
    def mkL(self, l, w):
        if not any(l[:-1]): return ('c', l[-1] & (1 << w) - 1, w)
        return ('L', l, w)
    def add(self, a, b, s=1): return tuple(x + s * y for x, y in zip(a, b))
    def rng(self, cfg, l):
        """(lo, hi) of a linear value, None for unbounded"""
        lo = hi = l[-1]
        c, w = cfg.R
        a = l[0]
        if a:
            x = a * c; lo = None if lo is None else lo + x; hi = None if hi is None else hi + x
            if w:
                if a > 0: hi = None
                else: lo = None
        for a in l[1:-1]:
            if a > 0: hi = None
            elif a < 0: lo = None
        return lo, hi
    def cmp0(self, cfg, l):
        """sign of a linear value: -1, 0, 1; splits the length when it is not decided"""
        lo, hi = self.rng(cfg, l)
        if lo == hi == 0: return 0
        if lo is not None and lo > 0: return 1
        if hi is not None and hi < 0: return -1
        if any(l[1:-1]): raise Undecided('comparison depends on the position')
        c, w = cfg.R; a = l[0]
        if not w: raise AnalysisError('cmp0')
        # a*(c + w*K) + d compared with 0
        k, rem = divmod(-(l[-1] + a * c) if a > 0 else (l[-1] + a * c), abs(a) * w)
        if k > 4096: raise Undecided('length threshold too far away')
        def setR(c2, w2):
            def m(g): g.R = (c2, w2)
            return m
        mods = [setR(c + w * j, 0) for j in range(0, k + (1 if rem == 0 else 1))]
        mods.append(setR(c + w * (k + 1), w))
        raise Fork(mods)
    def cmpp(self, cfg, l, p): return self.cmp0(cfg, l)
    # ---- byte sets
    def bset(self, cfg, j): return cfg.bytes.get(j, FULL)
    def split(self, cfg, j, parts):
        def setb(m):
            def f(g): g.bytes[j] = m
            return f
        raise Fork([setb(m) for m in parts])
    def subexprs(self, e, j, out):
        d = deps(e)
        if j not in d: return
        if d == frozenset((j,)): out.append(e); return
        for a in e[2:]:
            if isinstance(a, tuple) and a and isinstance(a[0], str): self.subexprs(a, j, out)
    def peval(self, cfg, e):
        ds = deps(e)
        if e[0] in 'bk': return e
        if len(ds) <= 1:
            j = next(iter(ds)) if ds else 0; vs = {ev(e, {j: v}) for v in (vals(self.bset(cfg, j)) if ds else (0,))}
            return ('k', vs.pop(), width(e)) if len(vs) == 1 else e
        a = tuple(self.peval(cfg, x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e[2:])
        if e[0] == 'and' and any(x[0] == 'k' and x[1] == 0 for x in a): return ('k', 0, e[1])
        if e[0] == 'or' and e[1] == 1 and any(x[0] == 'k' and x[1] == 1 for x in a): return ('k', 1, 1)
        return e[:2] + a
    def decide(self, cfg, e):
        """constant value of the expression; splits a byte when there are several"""
        if len(deps(e)) > 1: e = self.peval(cfg, e)
        ds = sorted(deps(e))
        if len(ds) == 1:
            j = ds[0]; m = self.bset(cfg, j); g = [(x, b & m) for x, b in vgroups(vec(e, j)) if b & m]
            if len(g) > 64: raise Undecided('too many values of a byte to distinguish')
            if len(g) > 1: self.split(cfg, j, [b for x, b in g])
            return g[0][0]
        for j in ds:
            subs = []; self.subexprs(e, j, subs); groups = {}
            for v in vals(self.bset(cfg, j)):
                k = tuple(ev(s, {j: v}) for s in subs); groups[k] = groups.get(k, 0) | 1 << v
            if len(groups) > 1:
                if len(groups) > 64: raise Undecided('too many values of a byte to distinguish')
                self.split(cfg, j, list(groups.values()))
        return ev(e, {j: (self.bset(cfg, j) & -self.bset(cfg, j)).bit_length() - 1 for j in ds})
    def bytesof(self, e):
        """the expression as a list of byte expressions, least significant first, or None"""
        if e[0] == 'k': return [('k', e[1] >> 8 * i & 255, 8) for i in range((e[2] + 7) // 8)]
        w = width(e)
        if w % 8: return None
        if w == 8: return [e]
        if e[0] == 'V': return [vec(('trunc', 8, ('lshr', w, e, ('k', 8 * i, w))), e[2]) for i in range(w // 8)]
        if e[0] == 'cat': return list(e[2:])
        if e[0] == 'zext':
            b = self.bytesof(e[2])
            return b and b + [('k', 0, 8)] * (w // 8 - len(b))
        if e[0] == 'trunc':
            b = self.bytesof(e[2]); return b and b[:w // 8]
        if e[0] == 'bswap':
            b = self.bytesof(e[2]); return b and b[::-1]
        if e[0] in ('and', 'or', 'xor'):
            x, y = self.bytesof(e[2]), self.bytesof(e[3])
            if not x or not y: return None
            out = []
            for a, b in zip(x, y):
                if a[0] == 'k': a, b = b, a
                if b[0] == 'k' and e[0] == 'and' and b[1] == 0: out.append(b)
                elif b[0] == 'k' and b[1] == (255 if e[0] == 'and' else 0): out.append(a)
                else: out.append((e[0], 8, a, b))
            return out
        if e[0] in ('shl', 'lshr') and e[3][0] == 'k' and e[3][1] % 8 == 0 and e[3][1] < w:
            b = self.bytesof(e[2]); k = e[3][1] // 8; z = [('k', 0, 8)] * k
            return b and (z + b[:len(b) - k] if e[0] == 'shl' else b[k:] + z)
        return None
    def simp(self, cfg, e):
        if e[0] in ('icmp eq', 'icmp ne') and width(e[2]) > 8 and len(deps(e)) > 1:
            x, y = self.bytesof(e[2]), self.bytesof(e[3])
            if x and y:
                r = ('k', 1, 1)
                for a, b in zip(x, y): r = ('and', 1, r, ('icmp eq', 1, a, b))
                e = r if e[0] == 'icmp eq' else ('xor', 1, r, ('k', 1, 1))
        ds = deps(e)
        if len(ds) == 1:
            j = next(iter(ds)); e = vec(e, j); m = self.bset(cfg, j)
            vs = [x for x, g in vgroups(e) if g & m]
            if len(vs) == 1: return ('c', vs[0], width(e))
        elif not ds: return ('c', ev(e, {}), width(e))
        return ('E', e)
    def expr(self, v):
        if v[0] == 'E': return v[1]
        if v[0] == 'c': return ('k', v[1], v[2])
        raise Undecided('not a byte expression')
    # ---- values of operands
    def val(self, o, fr, cfg):
        k = o[0]
        if k == 'v': return fr.env[o[1]]
        if k == 'a': return fr.args[o[1]]
        if k == 'c': return ('c', o[1] & (1 << o[2]) - 1, o[2])
        if k == 'n': return ('P', 'null', (0,) * (self.NS + 1))
        if k == 'g': return ('fn', o[1]) if o[1] in self.funcs else ('P', '@' + o[1], (0,) * (self.NS + 1))
        if k == 'u': return ('u',)
        if k == 'gep': return self.gep(o[1], fr, cfg)
        raise Undecided('operand %s' % k)
    def gep(self, g, fr, cfg):
        b = self.val(g['base'], fr, cfg)
        if 'off' not in g: raise Undecided('address computation')
        if b[0] != 'P': raise Undecided('address of %s' % b[0])
        l = b[2][:-1] + (b[2][-1] + g['off'],); es = []
        for o, s in g['vars']:
            v = self.val(o, fr, cfg)
            if v[0] in ('c', 'L'): l = self.add(l, self.lin(v), s)
            elif v[0] == 'E': es.append((v[1], s))
            else: raise Undecided('index')
        if es:
            if b[1].startswith('@') and len(es) == 1: return ('T', b[1], l, es[0][0], es[0][1])
            for e, s in es:                  # data-dependent address: decide the index
                l = l[:-1] + (l[-1] + s * sg(self.decide(cfg, e), width(e)),)
        return ('P', b[1], l)
    def gbytes(self, g):
        if g in self._g: return self._g[g]
        d = self.globals.get(g)
        if d is None or 'init' not in d or not d['const']: raise Undecided('read of the global %s' % (d['dem'] if d else g))
        out = bytearray()
        def flat(v, ty):
            if v[0] == 'c': out.extend((v[1] & (1 << v[2]) - 1).to_bytes((v[2] + 7) // 8, 'little'))
            elif v[0] == 'agg':
                ts = elems(ty, len(v[1]))
                for x, t in zip(v[1], ts): flat(x, t)
            elif v[0] == 'n': out.extend(bytes(8))
            elif v[0] in ('z', 'u') and tysize(ty) is not None: out.extend(bytes(tysize(ty)))
            else: raise Undecided('initialiser')
        if d['init'][0] == 'z': out.extend(bytes(d['size']))
        else: flat(d['init'], d['ty'])
        if len(out) != d['size']: raise Undecided('initialiser with padding')
        self._g[g] = bytes(out); return self._g[g]
    # ---- memory
    def load(self, p, i, cfg):
        ty = i['ty']; n = i['size']
        if p[0] == 'T':
            by = self.table(p[1]); base = p[2][-1]
            if any(p[2][:-1]): raise Undecided('table base')
            idx = p[3]; d = deps(idx)
            if len(d) != 1: self.decide(cfg, idx)
            j = next(iter(d)); mask = self.bset(cfg, j); ck = (p[1], base, p[4], shift(idx, j), n)
            hit = self.tcache.get(ck)
            if hit is None:
                tab = []; bad = 0
                for v in range(256):
                    x = ev(idx, {j: v}); o = base + p[4] * sg(x, width(idx))
                    if o < 0 or o + n > len(by): bad |= 1 << v; tab.append(0)
                    else: tab.append(int.from_bytes(by[o:o + n], 'little'))
                hit = self.tcache[ck] = (table(8 * n, tuple(tab)), bad)
            if hit[1] & mask:
                raise Violation('read outside the table %s for the byte 0x%02x' % (self.globals[p[1][1:]]['dem'], vals(hit[1] & mask)[0]), where(i))
            return self.simp(cfg, ('V', 8 * n, j, hit[0]))
        if p[0] != 'P': raise Undecided('load')
        reg, l = p[1], p[2]
        if reg == 'src':
            es = []
            for k in range(n):
                lk = l[:-1] + (l[-1] + k,)
                if any(lk[1:-1]): raise Undecided('input read at an unknown position')
                if lk[0]: 
                    c, w = cfg.R
                    if w: raise Undecided('input read relative to the end')
                    j = lk[0] * c + lk[-1]
                else: j = lk[-1]
                self.inside(cfg, j, i)
                es.append(('b', j))
            if n == 1: return self.simp(cfg, es[0])
            return self.simp(cfg, ('cat', 8 * n) + tuple(es))
        if reg.startswith('@') and (reg, l[-1]) not in cfg.mem:
            if any(l[:-1]): raise Undecided('table index')
            by = self.table(reg); o = l[-1]
            if o < 0 or o + n > len(by): raise Violation('read outside %s' % self.globals[reg[1:]]['dem'], where(i))
            return ('c', int.from_bytes(by[o:o + n], 'little'), 8 * n)
        if reg == 'null': raise Violation('null pointer read', where(i))
        if any(l[:-1]): raise Undecided('memory at an unknown offset')
        v = cfg.mem.get((reg, l[-1]))
        if v is None: raise Undecided('uninitialised memory %s+%d at %s' % (reg, l[-1], where(i)))
        if v[0] in ('c', 'L') and v[2] != 8 * n: raise Undecided('partial access')
        return v
    def table(self, reg): return self.gbytes(reg[1:])
    def inside(self, cfg, j, i):
        if j < -self.back(cfg): raise Undecided('read before the position')
        c, w = cfg.R
        if w == 0:
            if j >= c: raise Violation('reads %d byte(s) beyond the input' % (j - c + 1), where(i))
        elif j >= c: raise Violation('can read %d byte(s) beyond the input' % (j - c + 1), where(i))
    def back(self, cfg): return 64
    def store(self, p, v, i, cfg):
        if p[0] != 'P': raise Undecided('store')
        reg, l = p[1], p[2]
        if reg == 'null': raise Violation('null pointer write', where(i))
        if reg == 'src': raise Violation('writes to the input', where(i))
        if reg == 'dst':
            if any(l[:-1]): raise Undecided('output position at %s' % where(i))
            self.output(cfg, l[-1], v, i['size'], i); return
        if any(l[:-1]): raise Undecided('memory at an unknown offset')
        if v[0] == 'u': cfg.mem.pop((reg, l[-1]), None); return
        cfg.mem[(reg, l[-1])] = v
    def output(self, cfg, k, v, n, i):
        if n == 1: cfg.out[k] = v; return
        for b in range(n):
            if v[0] == 'c': x = ('c', v[1] >> 8 * b & 255, 8)
            elif v[0] == 'E': x = self.simp(cfg, ('trunc', 8, ('lshr', 8 * n, v[1], ('k', 8 * b, 8 * n))))
            else: raise Undecided('output value')
            cfg.out[k + b] = x
    # ---- running
    def start(self, fn, args, cfg):
        fr = Frame(); fr.fn = fn; fr.b = 0; fr.prev = None; fr.i = 0; fr.env = {}; fr.args = args; fr.normed = False
        cfg.frames = [fr]
        return self.run([cfg])
    def run(self, work):
        while work:
            cfg = work.pop()
            self.count += 1
            if self.count > self.maxcfg: raise Undecided('more than %d configurations' % self.maxcfg)
            while True:
                try:
                    if not self.step(cfg): break
                except Fork as f:
                    for m in f.mods:
                        g = cfg.copy(); m(g); work.append(g)
                    break
                except (Violation, Undecided) as e:
                    e.cfg = cfg
                    if not getattr(e, 'at', None) and cfg.frames:
                        fr = cfg.frames[-1]; b = self.funcs[fr.fn]['blocks'][fr.b]
                        e.at = where(b[min(fr.i, len(b) - 1)], self.funcs[fr.fn]['dem'])
                    raise
    def goto(self, cfg, fr, t):
        B = self.funcs[fr.fn]['blocks'][t]; new = {}
        for i in B:
            if i['op'] != 'phi': break
            for p, o in i['in']:
                if p == fr.b: new[i['id']] = self.val(o, fr, cfg); break
        fr.env.update(new); fr.prev = fr.b; fr.b = t; fr.i = len(new); fr.normed = False
    def step(self, cfg):
        """one basic block (or less); False when the configuration is finished"""
        fr = cfg.frames[-1]; f = self.funcs[fr.fn]; B = f['blocks'][fr.b]
        if not fr.normed and fr.b in self.info(fr.fn)[3] and fr.prev is not None:
            if not self.normalise(cfg): return False
            fr.normed = True
        while True:
            i = B[fr.i]; op = i['op']; self.steps += 1
            if not self.steps & 1023 and time.time() > self.deadline: raise Undecided('not explored within the time given')
            if op == 'br':
                if i['ops']:
                    c = self.truth(cfg, self.val(i['ops'][0], fr, cfg))
                    self.goto(cfg, fr, i['succ'][0] if c else i['succ'][1])
                else: self.goto(cfg, fr, i['succ'][0])
                return True
            if op == 'switch':
                v = self.val(i['ops'][0], fr, cfg)
                x = self.swval(cfg, v, [c[1] for c, t in i['cases']]); t = i['default']
                for c, tt in i['cases']:
                    if c[1] == x: t = tt
                self.goto(cfg, fr, t); return True
            if op == 'ret':
                v = self.val(i['ops'][0], fr, cfg) if i['ops'] else None
                if len(cfg.frames) == 1:
                    self.final(cfg, v); self.finals += 1; return False
                cfg.frames.pop(); fr = cfg.frames[-1]
                ci = self.funcs[fr.fn]['blocks'][fr.b][fr.i]; fr.env[ci['id']] = v; fr.i += 1
                return True
            if op == 'unreachable': raise Undecided('unreachable code reached')
            if op == 'call':
                r = self.call(i, fr, cfg)
                if r == 'pushed': return True
                if r == 'dead': return False
                fr.env[i['id']] = r
            else: fr.env[i['id']] = self.ins(i, fr, cfg)
            fr.i += 1
    def truth(self, cfg, v):
        if v[0] == 'c': return v[1] & 1
        if v[0] == 'E': return self.decide(cfg, v[1]) & 1
        raise Undecided('condition')
    def swval(self, cfg, v, cases):
        if v[0] == 'c': return v[1]
        if v[0] == 'E':
            e = v[1]
            # group the values not named together
            t = ('k', 0, width(e))
            w = width(e); tree = ('k', (1 << w) - 1 if not any(c == (1 << w) - 1 for c in cases) else 0, w)
            d = deps(e)
            if len(d) == 1:
                j = next(iter(d)); groups = {}
                for x in vals(self.bset(cfg, j)):
                    y = ev(e, {j: x}); k = y if y in cases else None
                    groups[k] = groups.get(k, 0) | 1 << x
                if len(groups) > 1: self.split(cfg, j, list(groups.values()))
                return next(iter(groups))
            return self.decide(cfg, e)
        if v[0] == 'L':
            for c in cases:
                if self.cmp0(cfg, self.add(self.lin(v), (0,) * self.NS + (sg(c, v[2]),), -1)) == 0: return c
            return None
        raise Undecided('switch value')
    def ins(self, i, fr, cfg):
        op = i['op']
        if op == 'getelementptr': return self.gep(i['gep'], fr, cfg)
        if op == 'load': return self.load(self.val(i['ops'][0], fr, cfg), i, cfg)
        if op == 'store':
            self.store(self.val(i['ops'][1], fr, cfg), self.val(i['ops'][0], fr, cfg), i, cfg); return None
        if op == 'alloca': return ('P', 'local%d:%d:%s' % (len(cfg.frames), i['id'], fr.fn[-12:]), (0,) * (self.NS + 1))
        o = [self.val(x, fr, cfg) for x in i['ops']]
        if op == 'inttoptr' and o[0][0] == 'A': return ('P',) + o[0][1:]
        if op in ('bitcast', 'freeze', 'inttoptr'): return o[0]
        w = self.tyw(i['ty'])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.arith(op, o[0], o[1], w, cfg, i)
        if op in ('zext', 'sext', 'trunc'):
            v = o[0]
            if v[0] == 'c':
                x = v[1] if op != 'sext' else sg(v[1], v[2])
                return ('c', x & (1 << w) - 1, w)
            if v[0] == 'L':
                if op == 'trunc': return self.narrow(cfg, v, w, i)
                return ('L', v[1], w)
            if v[0] == 'E': return self.simp(cfg, (op, w, v[1]))
            return v
        if op == 'ptrtoint':
            v = o[0]
            if v[0] != 'P': raise Undecided('ptrtoint')
            return ('A', v[1], v[2])
        if op == 'icmp': return self.icmp(i['pred'], o[0], o[1], cfg, i)
        if op == 'select':
            if o[0][0] == 'c': return o[1] if o[0][1] & 1 else o[2]
            if o[1] == o[2]: return o[1]
            if all(x[0] in ('c', 'E') for x in o[1:]):
                return self.simp(cfg, ('sel', w, self.expr(o[0]), self.expr(o[1]), self.expr(o[2])))
            return o[1] if self.truth(cfg, o[0]) else o[2]
        raise Undecided('instruction %s' % op)
    def narrow(self, cfg, v, w, i):
        lo, hi = self.rng(cfg, v[1])
        if lo is not None and hi is not None and -(1 << (w - 1)) <= lo and hi < 1 << w: return self.mkL(v[1], w)
        raise Undecided('a length is narrowed to %d bits' % w)
    def tyw(self, t):
        if t == 'ptr': return 64
        m = re.match(r'^i(\d+)$', t)
        if not m: raise Undecided('type %s' % t)
        return int(m.group(1))
    def arith(self, op, a, b, w, cfg, i):
        if a[0] == 'N' and op == 'and' and b[0] == 'c' and b[1] & (b[1] + 1) == 0:      # -address & mask
            return ('c', -self.addrmod(cfg, a[2], b[1] + 1) & b[1], w)
        if a[0] == 'A' or b[0] == 'A': return self.addr(op, a, b, w, cfg, i)
        if a[0] == 'u' or b[0] == 'u': return ('u',)
        if a[0] == 'c' and b[0] == 'c':
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if not b[1]: raise Undecided('division by zero')
                x, y = (a[1], b[1]) if op[0] == 'u' else (sg(a[1], w), sg(b[1], w))
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return ('c', (q if op.endswith('div') else x - q * y) & (1 << w) - 1, w)
            return ('c', ev((op, w, ('k', a[1], w), ('k', b[1], w)), {}), w)
        if a[0] == 'L' or b[0] == 'L':
            for x, k in ((a, 0), (b, 1)):
                if x[0] == 'E':
                    c = ('c', self.decide(cfg, x[1]), w)
                    if k: b = c
                    else: a = c
            return self.larith(op, a, b, w, cfg, i)
        if a[0] == 'P' or b[0] == 'P': raise Undecided('pointer arithmetic')
        if a[0] == 'B' or b[0] == 'B': raise Undecided('condition arithmetic')
        return self.simp(cfg, (op, w, self.expr(a), self.expr(b)))
    def larith(self, op, a, b, w, cfg, i):
        x, y = self.lin(a), self.lin(b)
        if op == 'add': return self.mkL(self.add(x, y), w)
        if op == 'sub': return self.mkL(self.add(x, y, -1), w)
        if op == 'mul':
            if not any(x[:-1]): x, y = y, x
            if any(y[:-1]): raise Undecided('product of lengths')
            return self.mkL(tuple(t * y[-1] for t in x), w)
        if op == 'shl' and not any(y[:-1]): return self.mkL(tuple(t << y[-1] for t in x), w)
        if op == 'and' and not any(y[:-1]):
            m = y[-1]
            if m < 0:
                s = -m
                if s & (s - 1) == 0: return self.floor(cfg, x, s, w)
            elif m & (m + 1) == 0:
                fl = self.floor(cfg, x, m + 1, w)
                return self.mkL(self.add(x, self.lin(fl), -1), w)
        if op in ('lshr', 'ashr') and not any(y[:-1]): return self.div(cfg, x, 1 << y[-1], w)
        if op in ('udiv', 'sdiv') and not any(y[:-1]) and y[-1] > 0: return self.div(cfg, x, y[-1], w)
        if op in ('urem', 'srem') and not any(y[:-1]) and y[-1] > 0:
            q = self.lin(self.div(cfg, x, y[-1], w)); return self.mkL(tuple(t - y[-1] * s for t, s in zip(x, q)), w)
        if op == 'xor' and y == (0,) * self.NS + (-1,): return self.mkL(tuple(-t for t in x[:-1]) + (-x[-1] - 1,), w)
        raise Undecided('%s of a length at %s' % (op, where(i)))
    def div(self, cfg, x, d, w):
        fl = self.lin(self.floor(cfg, x, d, w))
        if any(t % d for t in fl): raise Undecided('division of a length')
        return self.mkL(tuple(t // d for t in fl), w)
    def floor(self, cfg, x, s, w):
        """x rounded down to a multiple of s, when the unknown part is one"""
        if any(x[1:-1]): raise Undecided('rounding depends on the position')
        c, wk = cfg.R; a = x[0]
        if wk == 0:
            v = a * c + x[-1]; return ('c', v // s * s & (1 << w) - 1, w)
        if (a * wk) % s:
            if s > 4096 or s % wk: raise Undecided('rounding of a length')
            def setR(c2, w2):
                def m(g): g.R = (c2, w2)
                return m
            raise Fork([setR(c + wk * k, s) for k in range(s // wk)])
        rem = (a * c + x[-1]) % s
        return self.mkL(x[:-1] + (x[-1] - rem,), w)
    def addrmod(self, cfg, l, s):
        """address (of a position known relative to the reference point) modulo s"""
        if any(l[:-1]): raise Undecided('alignment of an unknown position')
        al = cfg.align
        if al is None or al[0] % s:
            if s > 4096: raise Undecided('alignment to %d bytes' % s)
            def seta(v):
                def m(g): g.align = (s, v)
                return m
            raise Fork([seta(v) for v in range(s - 1, -1, -1) if al is None or v % al[0] == al[1]])
        return (al[1] + l[-1]) % s
    def addr(self, op, a, b, w, cfg, i):
        if op == 'and':
            if b[0] == 'A': a, b = b, a
            if a[1] == 'src' and b[0] == 'c':
                m = sg(b[1], w)
                if m < 0 and -m & (-m - 1) == 0:
                    return ('A', a[1], a[2][:-1] + (a[2][-1] - self.addrmod(cfg, a[2], -m),))
                if m >= 0 and m & (m + 1) == 0: return ('c', self.addrmod(cfg, a[2], m + 1), w)
        if op == 'urem' and b[0] == 'c' and a[1] == 'src' and b[1] & (b[1] - 1) == 0: return ('c', self.addrmod(cfg, a[2], b[1]), w)
        if op in ('add', 'sub') and a[0] == 'A' and b[0] in ('c', 'L'): return ('A', a[1], self.add(a[2], self.lin(b), 1 if op == 'add' else -1))
        if op == 'add' and b[0] == 'A' and a[0] in ('c', 'L'): return ('A', b[1], self.add(b[2], self.lin(a)))
        if op == 'sub' and b[0] == 'A' and a == ('c', 0, w) and b[1] == 'src' : return ('N', b[1], b[2])
        if op == 'sub' and a[0] == 'A' and b[0] == 'A' and a[1] == b[1]: return self.mkL(self.add(a[2], b[2], -1), w)
        raise Undecided('address arithmetic at %s' % where(i))
    def icmp(self, pred, a, b, cfg, i):
        if a[0] == 'P' and b[0] == 'P' and a[1] != b[1]:
            if pred in ('eq', 'ne'): return ('c', int(pred == 'ne'), 1)
            raise Undecided('pointer comparison')
        if a[0] in ('P', 'A') and b[0] == a[0] and a[1] == b[1]: la, lb = a[2], b[2]
        elif 'L' in (a[0], b[0]) and a[0] in ('L', 'c', 'E') and b[0] in ('L', 'c', 'E'):
            if a[0] == 'E': a = ('c', self.decide(cfg, a[1]), width(a[1]))
            if b[0] == 'E': b = ('c', self.decide(cfg, b[1]), width(b[1]))
            la, lb = self.lin(a), self.lin(b)
            if pred[0] == 'u' and pred != 'ne':
                for l in (la, lb):
                    lo, hi = self.rng(cfg, l)
                    if lo is None or lo < 0:
                        if hi is not None and hi < 0 and l is la and lb[-1] >= 0 and not any(lb[:-1]): return ('c', int(pred in ('ugt', 'uge')), 1)
                        if l[:-1] and self.cmp0(cfg, l) < 0: return ('c', int((pred in ('ugt', 'uge')) == (l is la)), 1)
        elif a[0] in ('c', 'E') and b[0] in ('c', 'E'):
            w = a[2] if a[0] == 'c' else width(a[1])
            return self.simp(cfg, ('icmp ' + pred, 1, self.expr(a), self.expr(b)))
        else: raise Undecided('comparison at %s' % where(i))
        p = pred if pred in ('eq', 'ne') else pred[1:]
        s = self.cmpp(cfg, self.add(la, lb, -1), p)
        r = {'eq': s == 0, 'ne': s != 0, 'gt': s > 0, 'ge': s >= 0, 'lt': s < 0, 'le': s <= 0}[p]
        return ('c', int(r), 1)
    def call(self, i, fr, cfg):
        c = i['callee']; intr = i.get('intr') or ''
        name = c[1] if c[0] == 'g' else None
        if name is None:
            v = self.val(c, fr, cfg)
            if v[0] == 'fn': name = v[1]
            else: raise Undecided('indirect call')
        o = [self.val(x, fr, cfg) for x in i['ops']]
        if intr or name.startswith('llvm.'):
            nm = intr or name
            if re.match(r'llvm\.(lifetime|assume|dbg|prefetch|experimental\.noalias)', nm): return None
            m = re.match(r'llvm\.(umin|umax|smin|smax)', nm)
            if m:
                k = m.group(1); x, y = o
                if x[0] in ('c', 'E') and y[0] in ('c', 'E'): return self.simp(cfg, (k, self.tyw(i['ty']), self.expr(x), self.expr(y)))
                s = self.cmp0(cfg, self.add(self.lin(x), self.lin(y), -1))
                return x if (s <= 0) == k.endswith('min') else y
            if nm.startswith('llvm.expect'): return o[0]
            if nm.startswith('llvm.bswap') and o[0][0] in ('c', 'E'): return self.simp(cfg, ('bswap', self.tyw(i['ty']), self.expr(o[0])))
            if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'): return self.memcpy(o, i, cfg)
            if nm.startswith('llvm.memset'): return self.memset(o, i, cfg)
            raise Undecided('intrinsic %s' % nm)
        f = self.funcs.get(name)
        s = self.summary(name, f, o, i, cfg)
        if s != 'inline': return s
        if f is None or f['decl']: raise Undecided('call of %s' % (f['dem'] if f else name))
        if len(cfg.frames) > 30: raise Undecided('recursion')
        n = Frame(); n.fn = name; n.b = 0; n.prev = None; n.i = 0; n.env = {}; n.args = o; n.normed = False
        cfg.frames.append(n)
        return 'pushed'
    def memset(self, o, i, cfg): raise Undecided('memset')
    def memcpy(self, o, i, cfg):
        if o[2][0] != 'c': raise Undecided('memcpy length')
        for k in range(o[2][1]):
            ii = {'ty': 'i8', 'size': 1, 'loc': i.get('loc')}
            l = o[1][2]; v = self.load(('P', o[1][1], l[:-1] + (l[-1] + k,)), ii, cfg)
            l = o[0][2]; self.store(('P', o[0][1], l[:-1] + (l[-1] + k,)), v, ii, cfg)
        return None
    def summary(self, name, f, o, i, cfg): return 'inline'
    # ---- moving the reference point
    def candidates(self, cfg):
        fr = cfg.frames[-1]; out = []
        B = self.funcs[fr.fn]['blocks'][fr.b]
        for i in B:
            if i['op'] != 'phi': break
            v = fr.env.get(i['id'])
            if v is None: continue
            if v[0] == 'P' and v[1] == 'src' and not any(v[2][:-1]): out.append(v[2][-1])
            elif v[0] == 'L' and v[1][0] == -1 and not any(v[1][1:-1]): out.append(v[1][-1])
            elif v[0] == 'L' and v[1][0] == 0 and v[1][1] == 1 and not any(v[1][2:-1]): out.append(v[1][-1])
        return [s for s in out if s > 0]
    def outs(self, cfg):
        fr = cfg.frames[-1]; out = []
        live = self.live(fr, False)
        for k in live:
            v = fr.args[k[1]] if isinstance(k, tuple) else fr.env.get(k)
            if v and v[0] == 'P' and v[1] == 'dst' and not any(v[2][:-1]): out.append(v[2][-1])
            if v and v[0] == 'L' and v[1][2] == 1 and v[1][0] == 0 and v[1][1] == 0: out.append(v[1][-1])
        for v in cfg.mem.values():
            if v[0] == 'P' and v[1] == 'dst' and not any(v[2][:-1]): out.append(v[2][-1])
        return out
    def shv(self, v, s, o):
        """value after the reference point moved by s bytes and o outputs"""
        if v is None: return v
        k = v[0]
        if k == 'E': return ('E', shift(v[1], s)) if s else v
        if k in ('L',):
            l = v[1]; return self.mkL(l[:-1] + (l[-1] + l[0] * s - l[1] * s - l[2] * o,), v[2])
        if k in ('P', 'A'):
            l = v[2]; c = l[-1] + l[0] * s - l[1] * s - l[2] * o
            if v[1] == 'src': c -= s
            elif v[1] == 'dst': c -= o
            return (k, v[1], l[:-1] + (c,))
        if k == 'T': raise Undecided('table pointer kept across iterations')
        return v
    def origin(self, v, n, m):
        """the same position, told from the start of the input (output) instead of the reference point"""
        if v and v[0] in ('P', 'A') and v[1] in ('src', 'dst') and not any(v[2][:-1]):
            l = [0] * (self.NS + 1)
            if v[1] == 'src': l[1] = -1; l[-1] = v[2][-1] + n
            else: l[2] = -1; l[-1] = v[2][-1] + m
            return (v[0], v[1], tuple(l))
        if v and v[0] == 'L' and v[1][0] and not any(v[1][1:-1]):
            l = list(v[1]); l[1] = l[0]; l[-1] -= l[0] * n
            return ('L', tuple(l), v[2])
        return v
    def keepcell(self, k, v): return False           # a memory cell that follows the position
    def hphis(self, fn):
        f = self.funcs[fn]; r = f.get('_hphis')
        if r is None:
            r = set()
            for b in self.info(fn)[3]: r |= {i['id'] for i in f['blocks'][b] if i['op'] == 'phi'}
            f['_hphis'] = r
        return r
    def move(self, cfg, s, o):
        if (s or o) and cfg.tot is not None:
            n, m = cfg.tot
            for fr in cfg.frames:
                ph = self.hphis(fr.fn)
                for k in fr.env:
                    if k not in ph: fr.env[k] = self.origin(fr.env[k], n, m)
                fr.args = [self.origin(v, n, m) for v in fr.args]
            cfg.mem = {k: v if self.keepcell(k, v) else self.origin(v, n, m) for k, v in cfg.mem.items()}
            cfg.tot = None
        for d, fr in enumerate(cfg.frames):
            caller = d < len(cfg.frames) - 1
            live = self.live(fr, caller)
            fr.env = {k: self.shv(fr.env[k], s, o) for k in live if not isinstance(k, tuple) and k in fr.env}
            fr.args = [self.shv(v, s, o) if ('a', k) in live else ('u',) for k, v in enumerate(fr.args)]
        cfg.mem = {k: self.shv(v, s, o) for k, v in cfg.mem.items() if not k[0].startswith('local') or int(k[0][5:].split(':')[0]) <= len(cfg.frames)}
        cfg.bytes = {j - s: m for j, m in cfg.bytes.items()}
        cfg.R = (cfg.R[0] - s, cfg.R[1])
        if cfg.align: cfg.align = (cfg.align[0], (cfg.align[1] + s) % cfg.align[0])
        cfg.out = {k - o: self.shv(v, s, 0) for k, v in cfg.out.items() if k >= o}
    def normalise(self, cfg):
        c = self.candidates(cfg); s = min(c) if c else 0
        c0, w = cfg.R
        if s > c0: raise Violation('moves beyond the end of the input')
        for j in range(cfg.sp, s): self.consume(cfg, j)      # may split
        ol = [x for x in self.outs(cfg) if x >= 0]; o = min(ol) if ol else len(cfg.out)
        pend = []
        for k in range(o):
            if k not in cfg.out: raise Violation('output byte skipped')
            pend.append(cfg.out[k])
        cfg.pend = tuple(self.shv(v, s, 0) if v[0] == 'E' else v for v in cfg.pend + tuple(pend))
        cfg.specout = tuple((j - s, k) for j, k in cfg.specout)
        self.match(cfg, s)
        self.move(cfg, s, o); cfg.sp -= s
        if cfg.sp < 0: cfg.sp = 0
        if len(cfg.pend) > 40 or len(cfg.specout) > 40: raise Violation('output and specification drift apart')
        refd = set()
        for fr in cfg.frames:
            for v in list(fr.env.values()) + list(fr.args):
                if v and v[0] == 'E': refd |= deps(v[1])
        for v in list(cfg.pend) + list(cfg.mem.values()) + list(cfg.out.values()):
            if v[0] == 'E': refd |= deps(v[1])
        cfg.bytes = {j: m for j, m in cfg.bytes.items() if (j >= 0 or j in refd or any(j == x for x, _ in cfg.specout)) and m != FULL}
        key = self.key(cfg)
        if s: cfg.chain = ()
        if key in cfg.chain: raise Violation('the loop repeats without consuming anything')
        cfg.chain = cfg.chain + (key,)
        if key in self.seen: return False
        self.seen.add(key); return True
    def key(self, cfg):
        return (tuple((f.fn, f.b, f.i, tuple(sorted(f.env.items(), key=lambda t: t[0])), tuple(f.args)) for f in cfg.frames),
                tuple(sorted(cfg.mem.items())), cfg.R, tuple(sorted(cfg.bytes.items())), cfg.q, cfg.sp, cfg.pend, cfg.specout, tuple(sorted(cfg.out.items())), cfg.tot, cfg.align, self.extra(cfg))
    def extra(self, cfg): return ()
    def match(self, cfg, s=0):
        """compare program outputs with specification outputs as far as both are there"""
        p, q = list(cfg.pend), list(cfg.specout)
        while p and q:
            self.same(cfg, p.pop(0), q.pop(0), s)
        cfg.pend = tuple(p); cfg.specout = tuple(q)
    def newcfg(self, R, q):
        c = Cfg(); c.frames = []; c.mem = {}; c.bytes = {}; c.R = R; c.out = {}; c.q = q; c.sp = 0; c.pend = (); c.specout = (); c.tot = (0, 0); c.chain = (); c.align = None; return c

def elems(ty, n):
    """element types of an aggregate type"""
    t = ty.strip(); m = re.match(r'\[(\d+) x (.*)\]$', t)
    if m: return [m.group(2)] * n
    m = re.match(r'<?\{(.*)\}>?$', t)
    if not m: return [''] * n
    out = []; d = 0; cur = ''
    for c in m.group(1):
        if c in '[{<(': d += 1
        if c in ']}>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    out.append(cur.strip())
    return out if len(out) == n else [''] * n
def tysize(ty):
    """size of a type without padding, None when it is not told from the text"""
    t = ty.strip(); m = re.match(r'i(\d+)$', t)
    if m: return int(m.group(1)) // 8 if int(m.group(1)) % 8 == 0 else None
    if t == 'ptr': return 8
    m = re.match(r'\[(\d+) x (.*)\]$', t)
    if m:
        k = tysize(m.group(2)); return None if k is None else int(m.group(1)) * k
    m = re.match(r'<\{(.*)\}>$', t)
    if m:
        ks = [tysize(x) for x in elems(t, len(elems_n(t)))]
        return None if None in ks else sum(ks)
    return None
def elems_n(t):
    d = 0; n = 1
    for c in t.strip('<>')[1:-1]:
        if c in '[{<(': d += 1
        if c in ']}>)': d -= 1
        if c == ',' and d == 0: n += 1
    return [None] * n
def show(mask):
    names = {13: '\\r', 10: '\\n', 46: '.', 61: '=', 121: 'y', 0: '\\0', 9: '\\t', 32: 'space'}
    vs = vals(mask)
    if len(vs) == 1: return names.get(vs[0], '0x%02x' % vs[0])
    if len(vs) == 256: return '*'
    for v in vs:
        if v not in names: return "'%s'" % chr(v) if 33 <= v < 127 and v not in (61, 46) else '0x%02x' % v
    return names.get(vs[0])
