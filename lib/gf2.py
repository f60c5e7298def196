"""Abstract interpretation of CRC kernels in a GF(2) domain.

Every bit of a data value is a multilinear form over GF(2) in named atoms (bits of the input, of the
starting CRC, or of a value cut out and renamed), kept exactly; control data (lengths, pointers) are
constants or affine expressions c + k*K in one unknown loop count K >= 0.  Branches must be decided
by the control data; an undecided one raises Undecided, which the caller turns into a loop induction.
"""
from ir import AnalysisError, where

P = 0x104C11DB7                     # CRC-32, x^32 + x^26 + ... + 1
class Undecided(Exception): pass
class Wrong(Exception):
    """the algebra contradicts the specification"""

# ---------------------------------------------------------------- polynomials over GF(2)
def pmod(a):
    while a.bit_length() > 32: a ^= P << (a.bit_length() - 33)
    return a
def pmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1; b >>= 1
    return r
def mulm(a, b): return pmod(pmul(a, b))
def xpow(n):
    n %= (1 << 32) - 1
    r, b = 1, 2
    while n:
        if n & 1: r = mulm(r, b)
        b = mulm(b, b); n >>= 1
    return r
def rev32(v): return int('{:032b}'.format(v)[::-1], 2)
XP = []
def xp(i):
    while len(XP) <= i: XP.append(1 if not XP else pmod(XP[-1] << 1))
    return XP[i]

# ---------------------------------------------------------------- forms
class Space:
    """monomials (frozensets of atoms) numbered; forms are ints, bit 0 the constant 1"""
    def __init__(self):
        self.num = {frozenset(): 0}; self.mons = [frozenset()]; self.maxdeg = 2
        self.atom = {}; self.atoms = []; self.vec = []          # atom -> (vector, index); vector -> (name, width)
        self.pcache = {}
    def mono(self, m):
        k = self.num.get(m)
        if k is None: k = self.num[m] = len(self.mons); self.mons.append(m)
        return k
    def vector(self, name, width):
        v = len(self.vec); ids = []
        for i in range(width):
            a = len(self.atoms); self.atoms.append((v, i)); ids.append(1 << self.mono(frozenset((a,))))
        self.vec.append((name, width))
        return v, ids
    def bits(self, f):
        while f:
            l = f & -f; yield l.bit_length() - 1; f ^= l
    def deg(self, f): return max((len(self.mons[i]) for i in self.bits(f)), default=0)
    def mul(self, f, g):
        if f == 0 or g == 0: return 0
        if f == 1: return g
        if g == 1: return f
        if f == g: return f
        key = (f, g) if f < g else (g, f)
        r = self.pcache.get(key)
        if r is not None: return r
        r = 0
        for i in self.bits(f):
            for j in self.bits(g):
                m = self.mons[i] | self.mons[j]
                if len(m) > self.maxdeg: raise Undecided('product of degree %d' % len(m))
                r ^= 1 << self.mono(m)
        if len(self.pcache) < 300000: self.pcache[key] = r
        return r

# ---------------------------------------------------------------- values
class BV:
    __slots__ = ('b', 'c')
    def __init__(self, bits, const=None):
        self.b = bits; self.c = const
    @property
    def w(self): return len(self.b)
def K(v, w):
    v &= (1 << w) - 1
    return BV([v >> i & 1 for i in range(w)], v)
def mk(bits):
    c = 0
    for i, x in enumerate(bits):
        if x > 1: return BV(bits)
        if x: c |= 1 << i
    return BV(bits, c)
class Lin:
    """integer c + k*K of width w, K >= 0 unknown"""
    __slots__ = ('c', 'k', 'w')
    def __init__(self, c, k, w): self.c = c; self.k = k; self.w = w
    def __repr__(self): return '%d+%dK' % (self.c, self.k)
class Ptr:
    __slots__ = ('r', 'c', 'k')
    def __init__(self, r, c=0, k=0): self.r = r; self.c = c; self.k = k
    def __repr__(self): return '%s+%d+%dK' % (self.r, self.c, self.k)
class NSet:
    """integer whose low bits are the constant low and whose set bits from position lo up are the unknown increasing positions pos"""
    __slots__ = ('low', 'lo', 'pos', 'm1', 'w')
    def __init__(self, low, lo, pos, w=32, m1=False): self.low = low; self.lo = lo; self.pos = pos; self.m1 = m1; self.w = w
class Index:
    """unknown bit position (one of NSet.pos), scaled"""
    __slots__ = ('p', 'w', 'add')
    def __init__(self, p, w, add=0): self.p = p; self.w = w; self.add = add
class Addr:
    """machine address known modulo M"""
    __slots__ = ('c', 'M', 'w', 'p')
    def __init__(self, c, M, w, p=None): self.c = c % M; self.M = M; self.w = w; self.p = p
class Poison:
    pass
class Agg:
    def __init__(self, v): self.v = v

import re
_tyc = {}
def tyinfo(t, structs=None):
    """(element count or None, element bits)"""
    r = _tyc.get(t)
    if r: return r
    m = re.match(r'^<(\d+) x (.+)>$', t)
    if m: r = (int(m.group(1)), tyinfo(m.group(2))[1])
    elif re.match(r'^i\d+$', t): r = (None, int(t[1:]))
    elif t == 'ptr': r = (None, 64)
    elif t == 'float': r = (None, 32)
    elif t == 'double': r = (None, 64)
    else: raise AnalysisError('type %s in a CRC kernel' % t)
    _tyc[t] = r; return r
def tybits(t):
    n, w = tyinfo(t); return (n or 1) * w

class Interp:
    def __init__(self, mods, sp):
        self.sp = sp; self.funcs = {}; self.globals = {}
        for m in mods:
            for n, f in m.functions.items():
                if not f['decl'] or n not in self.funcs: self.funcs[n] = f
            for n, g in m.globals.items():
                if g.get('init') is not None or n not in self.globals: self.globals[n] = g
        self.structs = {}
        self.mem = {}; self.base = {}; self.nreg = 0; self.frames = []; self.steps = 0; self.limit = 4000000
        self.hdr = None; self.hook = None; self.summaries = {}; self.tables = {}; self.gmem = {}; self.onload = None; self.trace = []
    # -------- memory: region -> {byte offset: [8 forms] or ('p', value, index)}
    def alloca(self, size, name='m'):
        self.nreg += 1; r = '%s#%d' % (name, self.nreg); self.mem[r] = {}; self.base[r] = 0x1000000 * self.nreg
        return Ptr(r)
    def gbytes(self, g):
        if g in self.gmem: return self.gmem[g]
        d = self.globals.get(g)
        if d is None or 'init' not in d: raise Undecided('global %s is not a constant' % g)
        out = bytearray(); self.flat(d['init'], d['ty'], out, d['size'])
        self.gmem[g] = bytes(out); return self.gmem[g]
    def flat(self, v, ty, out, size=None):
        k = v[0]
        if k == 'c': out += (v[1] & (1 << v[2]) - 1).to_bytes(v[2] // 8, 'little')
        elif k == 'agg':
            for x in v[1]: self.flat(x, None, out)
        elif k == 'z' and size is not None: out += bytes(size)
        else: raise Undecided('initialiser %s' % k)
        if size is not None and len(out) < size: raise Undecided('initialiser of a global with padding')
    def load(self, p, ty, ins):
        n = tybits(ty)
        nb = (n + 7) // 8
        if isinstance(p, tuple) and p[0] == 'tab':                  # table indexed by an unknown value
            return self.tabload(p, nb)
        if not isinstance(p, Ptr): raise Undecided('load through %r' % (p,))
        if p.r.startswith('@'):
            g = self.mem.get(p.r)
            if g is not None and not p.k and p.c in g: pass
            else:
                if p.k: raise Undecided('table read at an unknown offset')
                by = self.gbytes(p.r[1:])
                if p.c < 0 or p.c + nb > len(by): raise Wrong('read beyond the table %s' % self.globals[p.r[1:]]['dem'])
                return K(int.from_bytes(by[p.c:p.c + nb], 'little'), n)
        m = self.mem.get(p.r)
        if m is None: raise Undecided('load from unknown memory')
        if ty == 'ptr' or p.k == 0 and isinstance(m.get(p.c), tuple):
            e = m.get(p.c)
            if isinstance(e, tuple) and e[0] == 'p' and e[2] == nb: return e[1]
            raise Undecided('pointer load')
        bits = []
        for i in range(nb):
            key = p.c + i if not p.k else (p.c + i, p.k)
            e = m.get(key)
            if e is None:
                if p.r in self.inputs: e = self.inputs[p.r](key); m[key] = e
                else: e = [0] * 8 if p.r in self.zero else self.junk(p.r, key)
            if isinstance(e, tuple): raise Undecided('partial read of a pointer')
            bits += e
        return mk(bits[:n])
    frozen = (); inputs = {}; zero = (); align = {}
    def junk(self, r, key):
        v, ids = self.sp.vector('uninitialised %s %s' % (r, key), 8)
        self.mem[r][key] = ids; return ids
    def tabload(self, p, nb):
        _, r, base, idx = p                 # idx: [(form, byte distance)]
        if not r.startswith('@') and r not in self.mem: raise Undecided('table')
        n = len(idx)
        if n > 8: raise Undecided('table index of %d bits' % n)
        key = (r, base, tuple(d for _, d in idx), nb)
        if self.tabv is None: self.tabv = {}
        vals = self.tabv.get(key) if r in self.frozen else None
        if vals is not None: return mk(self.anf(vals, [f for f, _ in idx], nb * 8))
        vals = []
        for i in range(1 << n):
            v = self.load(Ptr(r, base + sum(d for j, (_, d) in enumerate(idx) if i >> j & 1)), 'i%d' % (nb * 8), None)
            if v.c is None: raise Undecided('table with unknown contents')
            vals.append(v.c)
        if r in self.frozen: self.tabv[key] = vals
        return mk(self.anf(vals, [f for f, _ in idx], nb * 8))
    anfc = {}
    def anf(self, vals, idx, w):
        key = (tuple(vals), len(idx)); nz = self.anfc.get(key); n = len(idx)
        if nz is None:
            a = list(vals)
            for i in range(n):
                for j in range(1 << n):
                    if j >> i & 1: a[j] ^= a[j ^ (1 << i)]
            nz = [(m, [b for b in range(w) if a[m] >> b & 1]) for m in range(1 << n) if a[m]]
            if len(self.anfc) < 5000: self.anfc[key] = nz
        out = [0] * w
        for m, bs in nz:
            f = 1
            for i in range(n):
                if m >> i & 1: f = self.sp.mul(f, idx[i])
            for b in bs: out[b] ^= f
        return out
    tabv = None
    def store(self, p, v, nb):
        if not isinstance(p, Ptr): raise Undecided('store through an unknown pointer')
        if p.r not in self.mem:
            if p.r.startswith('@'): self.mem[p.r] = {}
            else: raise Undecided('store')
        m = self.mem[p.r]
        if p.r in self.inputs: raise Wrong('the input is written')
        if p.k: raise Undecided('store at an unknown offset')
        if p.r in self.frozen: self.frozen = ()
        if isinstance(v, BV):
            for i in range(nb): m[p.c + i] = v.b[8 * i:8 * i + 8]
        else:
            m[p.c] = ('p', v, nb)
            for i in range(1, nb): m[p.c + i] = ('q',)
    # -------- evaluation
    def val(self, o, env, args):
        k = o[0]
        if k == 'v': return env[o[1]]
        if k == 'a': return args[o[1]]
        if k == 'c': return K(o[1], o[2])
        if k == 'g': return Ptr('@' + o[1]) if o[1] not in self.funcs else ('fn', o[1])
        if k == 'n': return Ptr('null')
        if k == 'u': return Poison()
        if k == 'z': return K(0, tybits(o[1]))
        if k == 'agg':
            bits = []; n, w = tyinfo(o[2])
            for x in o[1]:
                e = self.val(x, env, args); bits += [0] * w if isinstance(e, Poison) else e.b
            return mk(bits)
        if k == 'gep': return self.gep(o[1], env, args)
        if k == 'f': raise Undecided('floating point')
        raise Undecided('operand %s' % k)
    def gep(self, g, env, args):
        b = self.val(g['base'], env, args)
        if 'off' not in g: raise Undecided('gep')
        if not isinstance(b, Ptr): raise Undecided('gep of %r' % (b,))
        c, k = b.c + g['off'], b.k; tab = None
        for o, s in g['vars']:
            v = self.val(o, env, args)
            if isinstance(v, BV) and v.c is not None:
                x = v.c - (1 << v.w) if v.c >> (v.w - 1) else v.c
                c += x * s
            elif isinstance(v, Lin): c += v.c * s; k += v.k * s
            elif isinstance(v, Index):
                return ('idx', b.r, c + v.add * s, v.p, s)
            elif isinstance(v, BV):
                nz = [i for i, f in enumerate(v.b) if f]
                if not nz or nz[-1] >= 16: raise Undecided('unbounded index')
                lo = 0
                # constant bits move into the base
                hi = nz[-1] + 1
                if tab: raise Undecided('two unknown indices')
                c += s * sum(1 << j for j, f in enumerate(v.b) if f == 1)
                tab = [(f, s << j) for j, f in enumerate(v.b) if f > 1]
            else: raise Undecided('index %r' % (v,))
        if tab:
            if k: raise Undecided('unknown table base')
            return ('tab', b.r, c, tab)
        return Ptr(b.r, c, k)
    def call(self, fn, args, depth=0):
        f = self.funcs.get(fn)
        if f is None or f['decl']: raise Undecided('call of %s' % fn)
        return self.run(fn, f, args, depth)
    def headers(self, f):
        h = f.get('_hdr')
        if h is None:
            h = set(); state = {}
            st = [(0, 0)]; state[0] = 1
            succ = [[int(x) for x in b[-1].get('succ', [])] for b in f['blocks']]
            while st:
                b, i = st.pop()
                if i < len(succ[b]):
                    st.append((b, i + 1)); t = succ[b][i]
                    if state.get(t) == 1: h.add(t)
                    elif t not in state: state[t] = 1; st.append((t, 0))
                else: state[b] = 2
            f['_hdr'] = h
        return h
    def run(self, fn, f, args, depth=0, start=None, env=None):
        env = {} if env is None else env
        args = dict(enumerate(args)); self.frames.append(env); self.frames.append(args); n0 = len(self.frames)
        try: return self.run2(fn, f, args, depth, start, env)
        finally: del self.frames[n0 - 2:]
    def run2(self, fn, f, args, depth, start, env):
        b, prev = (0, None) if start is None else start
        H = self.headers(f)
        while True:
            blk = f['blocks'][b]
            phis = [i for i in blk if i['op'] == 'phi']
            if start is None or not phis or prev is not None:
                new = {}
                for i in phis:
                    for p, o in i['in']:
                        if p == prev: new[i['id']] = self.val(o, env, args); break
                    else: raise AnalysisError('phi')
                env.update(new)
            if b in H and self.hook: self.hook(fn, f, b, env, args)
            prev_b = b
            for i in blk:
                op = i['op']
                if op == 'phi': continue
                self.steps += 1
                if self.steps > self.limit: raise Undecided('step limit')
                if op == 'br':
                    if i['ops']:
                        c = self.val(i['ops'][0], env, args)
                        if not isinstance(c, BV) or c.c is None: raise Undecided('branch at %s' % where(i))
                        b = i['succ'][0] if c.c else i['succ'][1]
                    else: b = i['succ'][0]
                    break
                if op == 'switch':
                    c = self.val(i['ops'][0], env, args)
                    if not isinstance(c, BV) or c.c is None: raise Undecided('switch at %s' % where(i))
                    b = i['default']
                    for cv, t in i['cases']:
                        if cv[1] == c.c: b = t
                    break
                if op == 'ret': return self.val(i['ops'][0], env, args) if i['ops'] else None
                if op == 'unreachable': raise Undecided('unreachable reached at %s' % where(i))
                try: env[i['id']] = self.ins(i, env, args, depth)
                except (Undecided, Wrong) as e:
                    if not getattr(e, 'at', None): e.at = where(i, f['dem'])
                    raise
            prev = prev_b
    def ins(self, i, env, args, depth):
        op = i['op']; sp = self.sp
        if op == 'call': return self.do_call(i, env, args, depth)
        if op == 'alloca': return self.alloca(i['size'])
        if op == 'getelementptr': return self.gep(i['gep'], env, args)
        if op == 'load':
            p = self.val(i['ops'][0], env, args)
            if isinstance(p, tuple) and p[0] == 'idx': return self.idxload(p, i)
            if self.onload: self.onload(p, tybits(i['ty']) // 8, i)
            return self.load(p, i['ty'], i)
        if op == 'store':
            v = self.val(i['ops'][0], env, args)
            if isinstance(v, Poison): return None
            self.store(self.val(i['ops'][1], env, args), v, i['size']); return None
        o = [self.val(x, env, args) for x in i['ops']]
        if op in ('bitcast', 'freeze'): return o[0]
        n, w = tyinfo(i['ty']) if i['ty'] != 'void' else (None, 0)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.arith(op, o[0], o[1], n, w, i)
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(o[0], Lin):
                if w < o[0].w:
                    k = abs(o[0].k); return Addr(o[0].c, min(k & -k, 1 << w), w, 'narrow')
                return Lin(o[0].c, o[0].k, w)
            if isinstance(o[0], Index): return Index(o[0].p, w, o[0].add)
            if isinstance(o[0], Addr): return Addr(o[0].c, min(o[0].M, 1 << w), w, o[0].p if w == 64 or o[0].p == 'narrow' else None) if (1 << w) % o[0].M == 0 else self.und('address')
            if isinstance(o[0], NSet): return o[0] if w >= 32 else self.und('narrowed count')
            if isinstance(o[0], Poison): return o[0]
            sw = o[0].w // (n or 1); out = []
            for e in range(n or 1):
                x = o[0].b[e * sw:(e + 1) * sw]
                out += x[:w] if op == 'trunc' else x + ([x[-1]] if op == 'sext' else [0]) * (w - sw)
            return mk(out)
        if op == 'icmp': return self.icmp(i['pred'], o[0], o[1], n, i)
        if op == 'select':
            c = o[0]
            if not isinstance(c, BV): raise Undecided('select')
            if c.w == 1:
                if c.c is not None: return o[1] if c.c else o[2]
                if isinstance(o[1], BV) and isinstance(o[2], BV):
                    return mk([y ^ sp.mul(c.b[0], x ^ y) for x, y in zip(o[1].b, o[2].b)])
                raise Undecided('select at %s' % where(i))
            out = []
            for e in range(n):
                for k in range(w):
                    x, y = o[1].b[e * w + k], o[2].b[e * w + k]
                    out.append(y ^ sp.mul(c.b[e], x ^ y))
            return mk(out)
        if op == 'ptrtoint':
            p = o[0]
            if not isinstance(p, Ptr): raise Undecided('ptrtoint')
            if p.r in self.align:
                a, M = self.align[p.r]
                return Addr(a + p.c, M if p.k % M == 0 else 1, w, p)
            raise Undecided('address of %s' % p.r)
        if op == 'shufflevector':
            en = len(i['mask']); ew = w; a, b = o
            cnt = None
            for q in (a, b):
                if isinstance(q, BV): cnt = q.w // ew
            out = []
            for m in i['mask']:
                if m < 0: out += [0] * ew
                else:
                    src, k = (a, m) if m < cnt else (b, m - cnt)
                    out += [0] * ew if isinstance(src, Poison) else src.b[k * ew:(k + 1) * ew]
            return mk(out)
        if op == 'extractelement':
            k = self.cint(o[1]); return mk(o[0].b[k * w:(k + 1) * w])
        if op == 'insertelement':
            k = self.cint(o[2]); v = [0] * (n * w) if isinstance(o[0], Poison) else list(o[0].b)
            v[k * w:(k + 1) * w] = [0] * w if isinstance(o[1], Poison) else o[1].b
            return mk(v)
        raise Undecided('instruction %s at %s' % (op, where(i)))
    def und(self, m): raise Undecided(m)
    def cint(self, v):
        if isinstance(v, BV) and v.c is not None: return v.c
        raise Undecided('index is not constant')
    def idxload(self, p, i):
        _, r, off, pos, scale = p
        if self.tabsym is None: raise Undecided('table index')
        return self.tabsym(r[1:], off, pos, scale, tybits(i['ty']), i)
    tabsym = None
    def lin(self, v):
        if isinstance(v, Lin): return v.c, v.k
        if isinstance(v, BV) and v.c is not None: return (v.c - (1 << v.w) if v.c >> (v.w - 1) else v.c), 0
        raise Undecided('not an affine value')
    def arith(self, op, a, b, n, w, i):
        sp = self.sp
        if isinstance(a, Poison) or isinstance(b, Poison): return Poison()
        if isinstance(a, NSet) or isinstance(b, NSet): return self.nset(op, a, b)
        if isinstance(a, Index):
            c = self.cint(b); c = c - (1 << b.w) if c >> (b.w - 1) else c
            if op in ('add', 'sub'): return Index(a.p, a.w, a.add + (c if op == 'add' else -c))
            raise Undecided('arithmetic on a bit position')
        if isinstance(a, Addr) or isinstance(b, Addr):
            x, y = (a, b) if isinstance(a, Addr) else (b, a)
            nar = x.p if x.p == 'narrow' else None
            if op == 'sub' and isinstance(b, Addr) and isinstance(a, Addr) and isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and a.p.r == b.p.r:
                return Lin(a.p.c - b.p.c, a.p.k - b.p.k, w) if a.p.k != b.p.k else K(a.p.c - b.p.c, w)
            if isinstance(y, BV) and y.c is not None:
                if op == 'add': return Addr(x.c + y.c, x.M, w, nar)
                if op == 'sub': return Addr((a.c if isinstance(a, Addr) else a.c) - b.c, x.M, w, nar)
                if op == 'and' and y.c < x.M: return K(x.c & y.c, w)
                if op in ('urem',) and x is a and x.M % max(y.c, 1) == 0: return K(x.c % y.c, w)
            if nar: raise Wrong('a length narrowed to fewer bits is used')
            e = Undecided('address bits beyond the modulus'); e.align = True; raise e
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Undecided('pointer arithmetic')
        if isinstance(a, Lin) or isinstance(b, Lin):
            if op == 'and':
                x, y = (a, b) if isinstance(a, Lin) else (b, a)
                m = self.cint(y) if isinstance(y, BV) else self.und('mask')
                low = m & -m if m else 0
                if m < (1 << 62) and x.k % (1 << m.bit_length()) == 0: return K(x.c & m, w)
                if m == ((1 << w) - 1) & ~(((~m) & ((1 << w) - 1))) and ((~m) & ((1 << w) - 1)) + 1 & ((~m) & ((1 << w) - 1)) == 0:
                    t = ((~m) & ((1 << w) - 1)) + 1
                    if x.k % t == 0: return Lin(x.c - x.c % t, x.k, w)
                if m & (m + 1) == 0:
                    k = abs(x.k); return Addr(x.c, k & -k, w, 'narrow')
                raise Undecided('mask of a length')
            (ac, ak), (bc, bk) = self.lin(a), self.lin(b)
            if op == 'add': c, k = ac + bc, ak + bk
            elif op == 'sub': c, k = ac - bc, ak - bk
            elif op == 'mul' and bk == 0: c, k = ac * bc, ak * bc
            elif op == 'mul' and ak == 0: c, k = ac * bc, ac * bk
            elif op == 'shl' and bk == 0: c, k = ac << bc, ak << bc
            elif op in ('lshr', 'ashr') and bk == 0 and ak % (1 << bc) == 0: c, k = ac >> bc, ak >> bc
            elif op in ('udiv', 'sdiv') and bk == 0 and bc > 0 and ak % bc == 0 and ac >= 0: c, k = ac // bc, ak // bc
            elif op in ('urem', 'srem') and bk == 0 and bc > 0 and ak % bc == 0 and ac >= 0: c, k = ac % bc, 0
            else: raise Undecided('%s of a length' % op)
            if k == 0: return K(c, w)
            return Lin(c, k, w)
        N = n or 1
        if a.c is not None and b.c is not None:
            if n is None: return K(self.cop(op, a.c, b.c, w), w)
            out = 0; M = (1 << w) - 1
            for e in range(N): out |= (self.cop(op, a.c >> e * w & M, b.c >> e * w & M, w) & M) << e * w
            return K(out, N * w)
        if op == 'xor': return mk([x ^ y for x, y in zip(a.b, b.b)])
        if op == 'and': return mk([sp.mul(x, y) for x, y in zip(a.b, b.b)])
        if op == 'or': return mk([x ^ y ^ sp.mul(x, y) for x, y in zip(a.b, b.b)])
        out = []
        for e in range(N):
            x, y = a.b[e * w:(e + 1) * w], b.b[e * w:(e + 1) * w]
            if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'mul'):
                yc = mk(y).c
                if op == 'mul' and yc is None: x, y, yc = y, x, mk(x).c
                if yc is None: raise Undecided('%s by an unknown amount at %s' % (op, where(i)))
                if op in ('udiv', 'urem', 'mul'):
                    if yc & (yc - 1) or not yc: raise Undecided(op)
                    s = yc.bit_length() - 1
                    if op == 'urem': out += x[:s] + [0] * (w - s); continue
                    op2 = 'lshr' if op == 'udiv' else 'shl'
                else: s = yc; op2 = op
                if s >= w: raise Undecided('shift by the width')
                if op2 == 'shl': out += [0] * s + x[:w - s]
                else: out += x[s:] + ([x[-1]] if op2 == 'ashr' else [0]) * s
            elif op == 'add':
                if x == y: out += [0] + x[:-1]
                else: out += self.adder(x, y)
            elif op == 'sub':
                if all(t == 0 for t in x) and all(t == 0 for t in y[1:]): out += [y[0]] * w
                else: out += self.adder(x, [t ^ 1 for t in y], 1)
            else: raise Undecided(op)
        return mk(out)
    def adder(self, x, y, c=0):
        sp = self.sp; out = []
        for p, q in zip(x, y):
            out.append(p ^ q ^ c)
            c = sp.mul(p, q) ^ sp.mul(c, p ^ q)
        return out
    def cop(self, op, a, b, w):
        M = (1 << w) - 1
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return a << b if b < w else self.und('shift')
        if op == 'lshr': return a >> b if b < w else self.und('shift')
        if op == 'ashr': return sg(a) >> b if b < w else self.und('shift')
        if b == 0: raise Undecided('division by zero')
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        q = abs(sg(a)) // abs(sg(b)); q = q if (sg(a) < 0) == (sg(b) < 0) else -q
        return q if op == 'sdiv' else sg(a) - q * sg(b)
    def nset(self, op, a, b):
        if isinstance(a, NSet) and isinstance(b, NSet):
            if op == 'and' and a.m1 != b.m1 and (a.low, a.pos) == (b.low, b.pos):
                if a.low: return NSet(a.low & (a.low - 1), a.lo, a.pos)
                if not a.pos: return NSet(0, a.lo, ())
                return NSet(0, a.lo, a.pos[1:])
            if op == 'and' and b.m1 is None or a.m1 is None:
                x, y = (a, b) if b.m1 is None else (b, a)      # n & -n
                if op == 'and' and (x.low, x.pos) == (y.low, y.pos) and not x.low and x.pos: return NSet(0, a.lo, x.pos[:1])
            if op == 'xor' and not a.m1 and not b.m1 and not a.low and not b.low and b.pos and b.pos == a.pos[:1]: return NSet(0, a.lo, a.pos[1:])
            raise Undecided('%s of counts' % op)
        if isinstance(b, NSet):
            if op == 'sub' and isinstance(a, BV) and a.c == 0: return NSet(b.low, b.lo, b.pos, b.w, None)
            if op in ('and', 'or', 'xor', 'add'): a, b = b, a
            else: raise Undecided('count')
        c = self.cint(b); 
        sc = c - (1 << b.w) if c >> (b.w - 1) else c
        if op == 'and':
            c &= 0xffffffff; hi = c >> a.lo; lowmask = (1 << a.lo) - 1
            if hi == 0: return K(a.low & c, a.w)
            if hi == 0xffffffff >> a.lo: return NSet(a.low & c & lowmask, a.lo, a.pos)
            raise Undecided('mask of a count')
        if op == 'sub' and sc == 1 or op == 'add' and sc == -1: return NSet(a.low, a.lo, a.pos, a.w, True)
        raise Undecided('%s of a count' % op)
    def icmp(self, pred, a, b, n, i):
        if n is None:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r != b.r:
                    if pred in ('eq', 'ne'): return K(int(pred == 'ne'), 1)
                    raise Undecided('comparison of unrelated pointers')
                a, b = Lin(a.c, a.k, 64), Lin(b.c, b.k, 64)
            for q in (a, b):
                if isinstance(q, Addr):
                    if q.p == 'narrow': raise Wrong('a length narrowed to fewer bits decides a branch')
                    raise Undecided('branch on an address')
            if isinstance(a, NSet) and isinstance(b, BV) and b.c == 0 and pred in ('eq', 'ne', 'ugt') and not a.m1:
                z = not a.low and not a.pos
                return K(int(z == (pred == 'eq')), 1)
            if isinstance(a, NSet) and isinstance(b, BV) and not a.m1 and not a.pos:
                return self.icmp(pred, K(a.low, 32), b, n, i)
            if isinstance(a, NSet) and isinstance(b, BV) and not a.m1 and a.pos and b.c is not None and b.c < 1 << a.lo:
                r = {'ult': 0, 'ule': 0, 'ugt': 1, 'uge': 1}.get(pred)
                if pred in ('uge', 'ult') or r is not None and b.c < (1 << a.lo): 
                    return K(r, 1)
            if isinstance(a, Lin) or isinstance(b, Lin):
                (ac, ak), (bc, bk) = self.lin(a), self.lin(b)
                if pred[0] == 'u' and (ac < 0 or bc < 0 or ak < 0 or bk < 0): raise Undecided('sign of a length at %s' % where(i))
                d, k = ac - bc, ak - bk             # a-b = d + k*K, K >= 0
                if k < 0: lo, hi = None, d
                elif k > 0: lo, hi = d, None
                else: lo = hi = d
                r = None; q = pred[1:] if pred not in ('eq', 'ne') else pred
                if q in ('eq', 'ne'):
                    if lo == hi == 0: r = q == 'eq'
                    elif lo is not None and lo > 0 or hi is not None and hi < 0 or (k and d % abs(k)): r = q == 'ne'
                else:
                    if lo is not None and lo > 0: r = q in ('gt', 'ge')
                    elif hi is not None and hi < 0: r = q in ('lt', 'le')
                    elif lo == 0 and q in ('ge', 'lt'): r = q == 'ge'
                    elif hi == 0 and q in ('le', 'gt'): r = q == 'le'
                    elif lo == hi: r = q in ('ge', 'le')
                if r is None:
                    e = Undecided('length comparison at %s' % where(i)); e.length = True; e.far = abs(d) // abs(k); raise e
                return K(int(r), 1)
            if not isinstance(a, BV) or not isinstance(b, BV): raise Undecided('comparison at %s' % where(i))
            if a.c is None or b.c is None:
                if a.w == 1 and pred in ('eq', 'ne'): return mk([a.b[0] ^ b.b[0] ^ (pred == 'eq')])
                nz = [x ^ y for x, y in zip(a.b, b.b)]
                if pred in ('eq', 'ne') and sum(1 for f in nz if f) == 1:
                    f = [f for f in nz if f][0]; return mk([f ^ (pred == 'eq')])
                raise Undecided('comparison of data at %s' % where(i))
            return K(int(self.cmpc(pred, a.c, b.c, a.w)), 1)
        w = a.w // n; out = []
        for e in range(n):
            x, y = mk(a.b[e * w:(e + 1) * w]), mk(b.b[e * w:(e + 1) * w])
            if x.c is not None and y.c is not None: out.append(int(self.cmpc(pred, x.c, y.c, w)))
            elif pred == 'slt' and y.c == 0: out.append(x.b[-1])
            elif pred == 'sgt' and x.c == 0: out.append(y.b[-1])
            else: raise Undecided('vector comparison of data')
        return mk(out)
    def cmpc(self, pred, x, y, w):
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        if pred == 'eq': return x == y
        if pred == 'ne': return x != y
        if pred[0] == 's': x, y = sg(x), sg(y)
        return {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]]
    # -------- calls
    def clmul(self, x, y, i):
        """64x64 -> 128"""
        sp = self.sp; X, Y = mk(x), mk(y)
        if Y.c is None and X.c is not None: x, y, X, Y = y, x, Y, X
        out = [0] * 128
        if Y.c is not None:
            c = Y.c
            j = 0
            while c:
                if c & 1:
                    for k, f in enumerate(x):
                        if f: out[j + k] ^= f
                c >>= 1; j += 1
            return out
        if self.cut:
            dx = max(sp.deg(f) for f in x); dy = max(sp.deg(f) for f in y)
            if dx + dy > sp.maxdeg:
                if dx > 1: x = self.cut(x, i)
                if dy > 1: y = self.cut(y, i)
        for j, f in enumerate(x):
            if not f: continue
            for k, g in enumerate(y):
                if g: out[j + k] ^= sp.mul(f, g)
        return out
    cut = None
    def do_call(self, i, env, args, depth):
        c = i['callee']
        if c[0] != 'g': raise Undecided('indirect call at %s' % where(i))
        nm = c[1]; intr = i.get('intr')
        if intr or nm.startswith('llvm.'):
            nm = intr or nm
            if nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume') or nm.startswith('llvm.dbg'): return None
            o = [self.val(x, env, args) for x in i['ops']]
            return self.intrinsic(nm, o, i)
        o = [self.val(x, env, args) for x in i['ops']]
        f = self.funcs.get(nm)
        if f is not None and f['dem'] in self.summaries:
            r = self.summaries[f['dem']](o, i)
            if r is not None: return r
        if f is None or f['decl']:
            if nm in ('malloc',): return self.alloca(0, 'heap')
            if nm == 'memcpy': return self.intrinsic('llvm.memcpy', o, i)
            raise Undecided('call of %s at %s' % (f['dem'] if f else nm, where(i)))
        if depth > 40: raise Undecided('recursion')
        return self.run(nm, f, o, depth + 1)
    def intrinsic(self, nm, o, i):
        sp = self.sp
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            n = self.cint(o[2]); d, s = o[0], o[1]
            if self.onload: self.onload(s, n, i)
            by = [self.load(Ptr(s.r, s.c + k, s.k), 'i8', i) for k in range(n)]
            for k, v in enumerate(by): self.store(Ptr(d.r, d.c + k, d.k), v, 1)
            return None
        if nm.startswith('llvm.memset'):
            n = self.cint(o[2])
            for k in range(n): self.store(Ptr(o[0].r, o[0].c + k), mk(o[1].b[:8]), 1)
            return None
        m = re.match(r'llvm\.x86\.pclmulqdq(\.256|\.512)?$', nm)
        if m:
            imm = self.cint(o[2]); out = []
            for l in range(o[0].w // 128):
                a = o[0].b[l * 128:][:128]; b = o[1].b[l * 128:][:128]
                out += self.clmul(a[64:] if imm & 1 else a[:64], b[64:] if imm & 16 else b[:64], i)
            return mk(out)
        if re.match(r'llvm\.x86\.(ssse3|avx2|avx512)\.pshuf\.b', nm):
            out = []
            for l in range(o[0].w // 128):
                a = o[0].b[l * 128:][:128]; s = o[1].b[l * 128:][:128]
                for k in range(16):
                    sb = s[8 * k:8 * k + 8]; sc = mk(sb).c
                    if sc is not None: out += [0] * 8 if sc & 128 else a[8 * (sc & 15):][:8]
                    else:
                        if sb[7]: raise Undecided('shuffle control')
                        ac = mk(a).c
                        if ac is None: raise Undecided('shuffle of unknown data by unknown data')
                        out += self.anf([ac >> 8 * t & 255 for t in range(16)], sb[:4], 8)
            return mk(out)
        if re.match(r'llvm\.x86\.(sse41|avx2)\.pblendvb', nm):
            out = []
            for k in range(o[0].w // 8):
                c = o[2].b[8 * k + 7]
                for x, y in zip(o[0].b[8 * k:8 * k + 8], o[1].b[8 * k:8 * k + 8]): out.append(x ^ sp.mul(c, x ^ y))
            return mk(out)
        m = re.match(r'llvm\.x86\.(?:sse2|avx2)\.(pslli?|psrli?)\.([wdq])$', nm)
        if m:
            w = {'w': 16, 'd': 32, 'q': 64}[m.group(2)]; left = m.group(1).startswith('psl')
            cnt = o[1] if 'i' in m.group(1)[4:] else mk(o[1].b[:64])
            s = self.cint(cnt); out = []
            for k in range(o[0].w // w):
                x = o[0].b[k * w:(k + 1) * w]
                if s >= w: out += [0] * w
                elif left: out += [0] * s + x[:w - s]
                else: out += x[s:] + [0] * s
            return mk(out)
        if nm.startswith('llvm.cttz'):
            a = o[0]
            if isinstance(a, NSet) and not a.m1:
                if a.low: return K((a.low & -a.low).bit_length() - 1, a.w)
                if a.pos: return Index(a.pos[0], a.w)
            if isinstance(a, BV) and a.c: return K((a.c & -a.c).bit_length() - 1, a.w)
            raise Undecided('count of trailing zeros')
        if nm.startswith('llvm.bswap'):
            b = o[0].b; out = []
            for k in range(len(b) // 8 - 1, -1, -1): out += b[8 * k:8 * k + 8]
            return mk(out)
        if nm.startswith('llvm.bitreverse'):
            return mk(list(reversed(o[0].b)))
        if nm.startswith('llvm.fsh'):
            w = o[0].w; s = self.cint(o[2]) % w
            cat = o[1].b + o[0].b
            return mk(cat[w - s:2 * w - s] if nm.startswith('llvm.fshl') else cat[s:s + w])
        raise Undecided('intrinsic %s' % nm)
