"""C10 / C11: the run-time dispatch.  The once-only initialiser is interpreted abstractly with the
CPUID leaves and XCR0 as symbols: each path is one class of CPUs; what a path installs is compared
with what its facts say the CPU reports."""
import re
import ir, ptr, whole
from ir import AnalysisError, where
from absint import Interp, State
from terms import *
from v8model import registrations

PASSES = 'function(sroa,mem2reg,sccp,simplifycfg,adce),cgscc(inline),function(sroa,sccp,simplifycfg,adce)'
NULLP = ('ptr', ('null',), K(64, 0))

# ---------------------------------------------------------------- CPU features
BITS = {  # feature: (leaf, subleaf, register, bit)
 'sse3': (1, 0, 'c', 0), 'pclmul': (1, 0, 'c', 1), 'ssse3': (1, 0, 'c', 9), 'fma': (1, 0, 'c', 12), 'sse4.1': (1, 0, 'c', 19), 'sse4.2': (1, 0, 'c', 20),
 'popcnt': (1, 0, 'c', 23), 'aes': (1, 0, 'c', 25), 'xsave': (1, 0, 'c', 26), 'osxsave': (1, 0, 'c', 27), 'avx': (1, 0, 'c', 28), 'f16c': (1, 0, 'c', 29),
 'bmi': (7, 0, 'b', 3), 'avx2': (7, 0, 'b', 5), 'bmi2': (7, 0, 'b', 8), 'avx512f': (7, 0, 'b', 16), 'avx512dq': (7, 0, 'b', 17), 'avx512cd': (7, 0, 'b', 28),
 'avx512bw': (7, 0, 'b', 30), 'avx512vl': (7, 0, 'b', 31), 'avx512vbmi': (7, 0, 'c', 1), 'avx512vbmi2': (7, 0, 'c', 6), 'gfni': (7, 0, 'c', 8),
 'vpclmulqdq': (7, 0, 'c', 10), 'avx512bitalg': (7, 0, 'c', 12), 'avx512vnni': (7, 0, 'c', 11), 'lzcnt': (0x80000001, 0, 'c', 5), 'sse4a': (0x80000001, 0, 'c', 6),
 'sse': (1, 0, 'd', 25), 'sse2': (1, 0, 'd', 26), 'adx': (7, 0, 'b', 19),
}
IMPLIES = {  # architectural: a CPU reporting the first has the others
 'sse3': ['sse2'], 'ssse3': ['sse3'], 'sse4.1': ['ssse3'], 'sse4.2': ['sse4.1', 'crc32', 'popcnt'], 'avx': ['sse4.2', 'xsave'], 'avx2': ['avx'], 'fma': ['avx'], 'f16c': ['avx'],
 'avx512f': ['avx2', 'fma', 'f16c'], 'avx512bw': ['avx512f'], 'avx512vl': ['avx512f'], 'avx512dq': ['avx512f'], 'avx512cd': ['avx512f'],
 'avx512vbmi': ['avx512bw'], 'avx512vbmi2': ['avx512bw'], 'avx512bitalg': ['avx512bw'], 'vpclmulqdq': ['pclmul', 'avx'], 'pclmul': ['sse2'], 'aes': ['sse2'], 'gfni': ['sse2'],
}
YMM = {'avx', 'avx2', 'fma', 'f16c', 'vpclmulqdq'}
ZMM = {f for f in BITS if f.startswith('avx512')}
ENABLERS = {'osxsave'}

def closure(fs):
    out = set(); todo = list(fs)
    while todo:
        f = todo.pop()
        if f in out: continue
        out.add(f); todo += IMPLIES.get(f, [])
    return out

def bitvec(t, depth=0):
    """[0 | 1 | (symbol, bit) | None] per bit of a term"""
    w = width(t); h = t[0]
    unk = [None] * w
    if depth > 40: return unk
    if h == 'k': return [(t[2] >> i) & 1 for i in range(w)]
    if h == 's':
        if t[2] in ('cpuid', 'xcr0'): return [(t, i) for i in range(w)]
        return unk
    if h in ('zext',): return bitvec(t[2], depth + 1) + [0] * (w - width(t[2]))
    if h == 'sext':
        b = bitvec(t[2], depth + 1); return b + [b[-1]] * (w - len(b))
    if h == 'trunc': return bitvec(t[2], depth + 1)[:w]
    if h in ('lshr', 'shl', 'ashr') and isk(t[3]):
        b = bitvec(t[2], depth + 1); k = t[3][2]
        if k >= w: return unk
        if h == 'shl': return [0] * k + b[:w - k]
        return b[k:] + [0 if h == 'lshr' else b[-1]] * k
    if h in ('and', 'or', 'xor'):
        a, b = bitvec(t[2], depth + 1), bitvec(t[3], depth + 1); out = []
        for x, y in zip(a, b):
            if x in (0, 1) and not isinstance(x, tuple): x, y = y, x      # constant second
            c = y if y in (0, 1) else None
            if h == 'and': out.append(0 if c == 0 or x == 0 else x if c == 1 or x == y else None)
            elif h == 'or': out.append(1 if c == 1 or x == 1 else x if c == 0 or x == y else None)
            else: out.append(x if c == 0 else (1 - x if c == 1 and x in (0, 1) else None))
        return out
    if h == 'lin':
        c, d = lin_parts(t)
        if c == 0 and len(d) == 1:
            (a, k), = d.items()
            if k & (k - 1) == 0:
                s = k.bit_length() - 1; b = bitvec(a, depth + 1)
                return [0] * s + b[:w - s]
        # a sum of terms with disjoint possible bits is their union
        parts = [[(c >> i) & 1 for i in range(w)]]
        for a, k in d.items():
            if k & (k - 1): return unk
            s = k.bit_length() - 1; parts.append([0] * s + bitvec(a, depth + 1)[:w - s])
        out = []
        for col in zip(*parts):
            nz = [x for x in col if x != 0]
            if len(nz) > 1: return unk
            out.append(nz[0] if nz else 0)
        return out
    if h == 'byte' or h == 'cat':
        try:
            bs = bytes_of(t, w // 8)
            if bs and bs != [t]:
                out = []
                for b in bs: out += bitvec(b, depth + 1)
                return out
        except Exception: pass
        if h == 'byte' and isinstance(t[3], int): return bitvec(t[2], depth + 1)[8 * t[3]:8 * t[3] + 8]
    return unk

def known_bits(facts):
    """{(symbol, bit): 0/1} that the branch facts of a path imply"""
    out = {}
    def learn(x, v):
        if isinstance(x, tuple): out[x] = v
    def sub1(x):
        return out.get(x, x) if isinstance(x, tuple) else x
    for _ in range(3):
        for c, v in facts.items():
            if c[0] != 'cmp':
                if width(c) == 1: learn(bitvec(c)[0], int(v))
                continue
            p, a, b = c[2], c[3], c[4]
            if a[0] in ('ptr', 'h', 'fn', 'undef', 'agg', 'f') or b[0] in ('ptr', 'h', 'fn', 'undef', 'agg', 'f'): continue
            if width(a) != width(b): continue
            A, B = [sub1(x) for x in bitvec(a)], [sub1(x) for x in bitvec(b)]
            if p in ('eq', 'ne'):
                if (p == 'eq') == v:
                    for x, y in zip(A, B):
                        if y in (0, 1): learn(x, y)
                        elif x in (0, 1): learn(y, x)
                else:
                    diff = [(x, y) for x, y in zip(A, B) if not (x == y and x is not None)]
                    if len(diff) == 1:
                        x, y = diff[0]
                        if y in (0, 1): learn(x, 1 - y)
                        elif x in (0, 1): learn(y, 1 - x)
            elif p in ('ult', 'slt') and (isk(a) or isk(b)):
                w = width(a)
                lo = -(1 << (w - 1)) if p == 'slt' else 0
                cv = lambda t: sval(t) if p == 'slt' else t[2]
                if p == 'slt' and isk(b) and cv(b) == 0: learn(A[-1], int(v))          # x < 0
                elif p == 'slt' and isk(a) and cv(a) == -1: learn(B[-1], 1 - int(v))   # -1 < x
                else:
                    # k < x with one possible bit
                    if isk(a) and v:
                        nz = [x for x in B if x != 0]
                        if len(nz) == 1 and cv(a) >= 0: learn(nz[0], 1)
                    if isk(b) and not v:
                        nz = [x for x in A if x != 0]
                        if len(nz) == 1 and cv(b) > 0: learn(nz[0], 1)
                    # upper bound below a bit's weight clears it, e.g. x < 2^k
                    hi = cv(b) if isk(b) and v else (cv(a) + 1 if isk(a) and not v else None)
                    X = A if isk(b) else B
                    if hi is not None and hi >= 0 and (p == 'ult' or X[-1] == 0):
                        for i, x in enumerate(X):
                            if (1 << i) >= hi: learn(x, 0)
    return out

class BitInterp(Interp):
    """decides conditions on single bits that earlier conditions have settled"""
    def decide(self, st, c):
        r = super().decide(st, c)
        if r is not None or c[0] != 'cmp' or c[2] not in ('eq', 'ne'): return r
        a, b = c[3], c[4]
        if a[0] in ('ptr', 'h', 'fn', 'undef', 'agg', 'f') or b[0] in ('ptr', 'h', 'fn', 'undef', 'agg', 'f') or width(a) != width(b): return r
        A, B = bitvec(a), bitvec(b)
        if not any(isinstance(x, tuple) for x in A + B): return r
        key = len(st.facts)
        kb = known_bits(st.facts)
        A = [kb.get(x, x) if isinstance(x, tuple) else x for x in A]; B = [kb.get(x, x) if isinstance(x, tuple) else x for x in B]
        for x, y in zip(A, B):
            if {x, y} == {0, 1} and not isinstance(x, tuple) and not isinstance(y, tuple): return c[2] == 'ne'
        if all(x == y and x is not None for x, y in zip(A, B)): return c[2] == 'eq'
        return r

def reg(leaf, subl, r): return ('s', 32, 'cpuid', leaf, subl, r)
XCR = ('s', 32, 'xcr0')

def nonzero_low_byte(it, st, t):
    """the path knows that the low byte of t is at least 1"""
    m = binop('and', t, K(32, 0xff))
    for c in (m, trunc(t, 8)):
        if it.urange(st, c)[0] >= 1: return True
        r = it.decide(st, cmp_('eq', c, K(width(c), 0)))
        if r is False: return True
    for c, v in st.facts.items():
        if c[0] == 'cmp' and c[2] in ('ult', 'slt', 'eq', 'ne'):
            for x, y, side in ((c[3], c[4], 0), (c[4], c[3], 1)):
                if isk(y) and x[0] not in ('ptr', 'h', 'fn', 'undef') and bitvec(x)[:8] == [(t, i) for i in range(8)] and all(b == 0 for b in bitvec(x)[8:]):
                    k = sval(y)
                    if c[2] == 'eq' and ((k == 0 and not v) or (k > 0 and v)): return True
                    if c[2] == 'ne' and ((k == 0 and v) or (k > 0 and not v)): return True
                    if c[2] in ('ult', 'slt') and side == 0 and not v and k >= 1: return True     # not x < k
                    if c[2] in ('ult', 'slt') and side == 1 and v and k >= 0: return True          # k < x
    return any(it.decide(st, ('cmp', 1, 'eq', ('trunc', 8, t), K(8, k))) for k in range(1, 4))

def granted(it, st):
    kb = known_bits(st.facts)
    have = lambda l, s, r, b: kb.get((reg(l, s, r), b)) == 1
    xcr = lambda m: all(kb.get((XCR, i)) == 1 for i in range(8) if m >> i & 1)
    raw = {f for f, (l, s, r, b) in BITS.items() if have(l, s, r, b)} | {'sse', 'sse2', 'cmov', 'cx8', 'fxsr', 'mmx', 'x87', '64bit'}
    if raw & ZMM: raw.add('evex512')
    if have(7, 1, 'd', 19) and have(0x24, 0, 'b', 17) and nonzero_low_byte(it, st, reg(0x24, 0, 'b')):
        raw |= {'avx512f', 'avx512bw', 'avx512vl', 'avx512dq', 'avx512cd', 'avx512vbmi', 'avx512vbmi2', 'avx512bitalg'}
        if have(0x24, 0, 'b', 18): raw.add('evex512')
        elif not {'avx512f'} & {f for f in BITS if have(*BITS[f])}: raw.discard('evex512')
    os_ok = 'osxsave' in raw
    g = closure(raw)
    if not (os_ok and xcr(0x06)): g -= closure_up(YMM) | ZMM | {'evex512', 'xsave'}
    if not (os_ok and xcr(0xE6)): g -= ZMM | {'evex512'}
    return g
def closure_up(fs):
    return {f for f in IMPLIES if closure([f]) & fs} | set(fs)

MFLAG = {'bmi': 'bmi', 'abm': 'lzcnt', 'vpclmulqdq': 'vpclmulqdq'}
def explicit(src):
    return {MFLAG.get(f[2:], f[2:]) for f in ir.units()[src]['cflags'] if re.match(r'^-m(sse|ssse|avx|bmi|pclmul|vpclmul|popcnt|lzcnt|abm|fma|gfni|f16c|aes)', f) and not f.startswith('-mavx256') }

class World:
    def __init__(self):
        U = ir.units()
        self.ms = ir.load_many(sorted(U), passes=PASSES); self.mods = list(self.ms.values())
        self.plain = ir.load_many(sorted(U))
        main = next((m for s, m in self.ms.items() if any(re.match(r'^node_register_module_v\d+$', n) for n in m.defined())), None)
        if main is None: raise AnalysisError('module registration function not found')
        self.main = main
        self.regs, self.entry, self.fin, _ = registrations(main, self.mods)
        self.P = whole.program(self.mods, list(self.regs.values()) + [self.entry])
        self.P.fsrc = {}
        for s, m in self.ms.items():
            for n, f in m.defined().items(): self.P.fsrc.setdefault(n, s)
        base = None
        for n in self.regs.values(): base = set(self.P.fn[n]['features'].split(','))
        self.base = {x.lstrip('+') for x in base if x.startswith('+')}
        self.calltime = self.P.reachable(set(self.regs.values()))
        # dispatch slots: globals a call-time function loads a callee from
        self.slots = {}
        defs = {}
        for fn in self.calltime:
            if fn in self.P.fn:
                for b in self.P.fn[fn]['blocks']:
                    for i in b: defs[(fn, i['id'])] = i
        self.slotcalls = set()
        for n, calls in self.P.icalls.items():
            for fn, i in calls:
                if fn not in self.calltime or i['callee'][0] != 'v': continue
                todo = [i['callee']]; vis = set(); gs = set(); ok = True
                while todo:
                    v = todo.pop()
                    if v[0] != 'v' or v[1] in vis:
                        if v[0] != 'v': ok = False
                        continue
                    vis.add(v[1]); d = defs.get((fn, v[1]))
                    if d and d['op'] == 'phi': todo += [x for _, x in d['in']]
                    elif d and d['op'] == 'select': todo += [tuple(x) for x in d['ops'][1:]]
                    elif d and d['op'] == 'load':
                        a = [d['ops'][0]]
                        while a:
                            x = a.pop(); dd = defs.get((fn, x[1])) if x[0] == 'v' else None
                            if x[0] == 'g': gs.add(x[1])
                            elif dd and dd['op'] == 'phi': a += [y for _, y in dd['in']]
                            elif dd and dd['op'] == 'select': a += dd['ops'][1:]
                            else: ok = False; break
                    else: ok = False
                if ok and gs:
                    for g in gs: self.slots.setdefault(g, set()).add(i['fty'])
                    self.slotcalls.add((fn, i['id']))
        if len(self.slots) < 5: raise AnalysisError('only %d dispatch pointers found' % len(self.slots))
        # relevant functions are interpreted; the others are opaque table-building code
        self.inits = {o[1] for fn, i, nd in self.P.icallees for o in self.P.pts.get(nd, ()) if o[0] == 'F'}
        if not self.inits: raise AnalysisError('no once-only initialiser found')
        phase = self.P.reachable(self.inits)
        self.phase = phase
        direct = {}
        for fn in phase:
            if fn not in self.P.fn: continue
            r = False
            if self.feat(fn): r = True
            for b in self.P.fn[fn]['blocks']:
                for i in b:
                    if i['op'] in ('call', 'invoke') and i['callee'][0] == 'asm' and re.search('cpuid|xgetbv', i['callee'][1]) and not fn.startswith('_ZN7crcutil'): r = True
                    if i['op'] == 'store' and i['ops'][1][0] == 'g' and not self.P.gl.get(i['ops'][1][1], {'const': 1})['const']: r = True
                    if i['op'] in ('call', 'invoke') and any(o[0] == 'g' and o[1] in self.P.gl and not self.P.gl[o[1]]['const'] for o in i['ops']): r = True
            direct[fn] = direct.get(fn) or r
            # a callee given the address of a mutable global may store through it
            for b in self.P.fn[fn]['blocks']:
                for i in b:
                    if i['op'] in ('call', 'invoke') and any(o[0] == 'g' and o[1] in self.P.gl and not self.P.gl[o[1]]['const'] for o in i['ops']):
                        for c in self.P.calls.get(fn, {}).get(i['id'], ()): direct[c] = True
        rel = {f for f, r in direct.items() if r}
        ch = True
        while ch:
            ch = False
            for fn in phase:
                if fn in rel: continue
                if any(c in rel for iid, cs in self.P.calls.get(fn, {}).items() for c in cs): rel.add(fn); ch = True
        self.rel = rel
    def feat(self, fn):
        f = self.P.fn.get(fn)
        if f is None: return set()
        return {x[1:] for x in f['features'].split(',') if x.startswith('+')} - self.base
    def need(self, fn):
        """features the code of fn may use: named on its command line, or otherwise beyond what those imply"""
        fs = self.feat(fn)
        if not fs: return set()
        ex = explicit(self.P.fsrc[fn])
        return (ex & fs) | (fs - closure(ex)) | ({'evex512'} & fs)
    def below(self, fn):
        """all functions reachable from fn without going through another dispatch pointer"""
        if not hasattr(self, '_below'): self._below = {}
        if fn not in self._below:
            self._below[fn] = {f: p for f, p in self.P.reachable([fn], lambda f, iid, c: (f, iid) not in self.slotcalls and (True)).items()}
        return self._below[fn]
    # ------------------------------------------------------------ abstract run of the initialiser
    def run(self, on_enter=None, on_xgetbv=None):
        W = self; P = self.P
        def hook(it, st, ins, name, callee, args):
            if callee[0] == 'asm':
                a = ins['callee'][1]
                if 'xgetbv' in a:
                    if on_xgetbv: on_xgetbv(it, st, ins)
                    return XCR if ins['ty'] == 'i32' else ('agg', 'lit', (XCR, K(32, 0)), ins['ty'])
                if 'cpuid' in a:
                    leaf = args[0]; subl = args[1] if len(args) > 1 else K(32, 0)
                    if not isk(leaf): raise AnalysisError('CPUID leaf not constant at ' + where(ins))
                    s = subl[2] if isk(subl) else 0
                    cs = [c for c in ins['callee'][2].split(',') if c.startswith('=')]
                    names = []
                    for c in cs: names.append({'={ax}': 'a', '={bx}': 'b', '={cx}': 'c', '={dx}': 'd'}.get(c.replace('&', ''), 'b'))
                    return ('agg', 'lit', tuple(reg(leaf[2], s, n) for n in names), ins['ty'])
                return None
            if name in ('malloc', 'aligned_alloc', 'calloc', 'valloc', '_Znwm', '_Znam', 'memalign', '_ZnwmSt11align_val_t'):
                fr = st.frames[-1]; st.uniq += 1
                o = ('heap', fr.fn, ins['id'], st.uniq)
                al, size = (args[0], args[1]) if name in ('aligned_alloc', 'memalign') else (K(64, 16), binop('mul', args[0], args[1]) if name == 'calloc' else args[0])
                st.events.append(('alloc', o, al, size, ins, name == 'calloc'))
                st.tags[('nonnull', o)] = True
                return ('ptr', o, K(64, 0))
            if name == 'posix_memalign':
                fr = st.frames[-1]; st.uniq += 1
                o = ('heap', fr.fn, ins['id'], st.uniq)
                st.events.append(('alloc', o, args[1], args[2], ins, False)); st.tags[('nonnull', o)] = True
                it.store(st, args[0], 8, ('ptr', o, K(64, 0)), ins)
                return K(32, 0)
            fn = it.func(name) if name else None
            if name and fn is not None:
                st.events.append(('enter', name, tuple(args)))
                if name in W.rel:
                    if on_enter: on_enter(it, st, ins, name)
                    return None
            for j, a in enumerate(args):
                if a[0] == 'ptr' and a[1][0] == 'alloca': it.clobber(st, a[1])
            if ins['ty'] == 'void': return ('undef',)
            st.uniq += 1
            if ins['ty'] == 'ptr':
                o = ('opaque', name or 'indirect', st.uniq); st.tags[('nonnull', o)] = True
                return ('ptr', o, K(64, 0))
            return it.result(st, ins, name or 'indirect')
        def on_store(it, st, p, size, val, ins):
            return p[1][0] in ('heap', 'opaque')
        outs = []
        for init in sorted(self.inits):
            it = BitInterp(self.main, hook, self.mods, max_visits=70, on_store=on_store, max_states=400000)
            it.loop_exit = True
            st = State()
            for fin in it.run(init, [K(64, 0)] * len(P.fn[init]['args']), st): outs.append((it, fin))
        return outs
    def final(self, it, st, g):
        c = st.mem.get((('g', g), K(64, 0)), {}).get(0)
        if c is not None: return c[1]
        gl = it.find_global(g)
        return it.const(gl['init'], st) if gl and gl['init'][0] in ('g', 'n', 'c', 'gep') else None

def cpu(st):
    kb = known_bits(st.facts)
    out = []
    for f, (l, s, r, b) in BITS.items():
        v = kb.get((reg(l, s, r), b))
        if v is not None: out.append(('' if v else 'no ') + f)
    for i in range(8):
        v = kb.get((XCR, i))
        if v is not None: out.append('XCR0[%d]=%d' % (i, v))
    return sorted(out)

def c10(rep):
    W = World(); P = W.P
    nenter = [0]
    def on_enter(it, st, ins, name):
        nenter[0] += 1
        req = W.need(name)
        if not req: return
        miss = req - granted(it, st)
        rep.check('executed while initialising', P.dem(name).split('(')[0], not miss,
                  'code compiled for %s runs although the path does not know that the CPU and OS support it' % ', '.join(sorted(miss)), cpu(st))
    def on_xgetbv(it, st, ins):
        kb = known_bits(st.facts)
        rep.check('xgetbv only with OSXSAVE', where(ins), kb.get((reg(1, 0, 'c'), 27)) == 1, 'XGETBV faults unless CPUID reports OSXSAVE', cpu(st))
    outs = W.run(on_enter, on_xgetbv)
    outs = [(it, s) for it, s in outs if s.dead is None]
    if len(outs) < 8: raise AnalysisError('only %d paths through the initialiser' % len(outs))
    seen = {}
    gcache = {}
    for it, st in outs:
        g = None
        for slot in sorted(W.slots):
            v = W.final(it, st, slot)
            if v is None or v[0] != 'fn': continue
            seen.setdefault(slot, set()).add(v[1])
            for f in W.below(v[1]):
                req = W.need(f)
                if not req: continue
                if g is None: g = granted(it, st)
                miss = req - g
                rep.check('selected implementation', '%s -> %s' % (P.dem_g(slot) if hasattr(P, 'dem_g') else slot, P.dem(f).split('(')[0]), not miss,
                          '%s installs %s (%s), compiled for %s, on a path where the CPU is not known to support %s' % (slot, P.dem(v[1]).split('(')[0], W.P.fsrc.get(f), ', '.join(sorted(W.feat(f))), ', '.join(sorted(miss))), cpu(st))
    ninst = sum(len(v) for v in seen.values())
    if ninst < 15: raise AnalysisError('only %d (pointer, implementation) pairs found' % ninst)
    # nothing else leads to such code
    direct = P.reachable(set(W.regs.values()), lambda f, iid, c: (f, iid) not in W.slotcalls)
    for f in direct:
        if f in P.fn: rep.check('not reachable from a binding without dispatch', P.dem(f).split('(')[0], not W.need(f), 'compiled for %s but called without any CPU check' % ', '.join(sorted(W.need(f))), P.path(direct, f))
    reg0 = P.reachable([W.entry])
    for f in reg0:
        if f in P.fn: rep.check('not reachable from registration without dispatch', P.dem(f).split('(')[0], not W.need(f), 'compiled for %s but called without any CPU check' % ', '.join(sorted(W.need(f))), P.path(reg0, f))
    for fn in P.fn:
        f = P.fn[fn]
    # code the linker may take from a translation unit with more features
    weak = {}
    for s, m in W.ms.items():
        for n, f in m.defined().items():
            if f['weak']: weak.setdefault(n, {})[s] = frozenset(x for x in f['features'].split(',') if x.startswith('+'))
    nweak = 0
    for n, d in weak.items():
        if len(d) < 2: continue
        nweak += 1
        if n in W.calltime or n in W.phase or n in reg0:
            ok = len(set(d.values())) == 1
            rep.check('one copy of an inline function for all units', P.dem(n).split('(')[0], ok, 'emitted by units compiled for different instruction sets (%s): the linker keeps only one' % ', '.join(sorted(d)))
    # static constructors run before any check
    for m in W.mods:
        g = m.globals.get('llvm.global_ctors')
        for c in re.findall(r"\['g', '([^']+)'\]", repr(g.get('init'))) if g else ():
            rep.check('static constructor', c, not W.need(c), 'runs before any CPU check')
    rep.cover.update(cpu_classes=len(outs), implementations={s: sorted(P.dem(f).split('(')[0][:90] for f in v) for s, v in seen.items()},
                     initialiser_functions=sorted(P.dem(f).split('(')[0] for f in W.rel), opaque_functions=len(W.phase) - len(W.rel), weak_symbols_shared=nweak)

# ---------------------------------------------------------------- C11
from math import gcd

class Loops:
    """constant-trip-count induction variables of a function"""
    def __init__(self, f):
        self.f = f; self.defs = {i['id']: (b, i) for b, blk in enumerate(f['blocks']) for i in blk}
    def rng(self, v, depth=0):
        """(lo, hi) of an integer value, signed view; None when unknown"""
        if v[0] == 'c': 
            w = v[2]; x = v[1]; return (sgn(w, x), sgn(w, x))
        if v[0] != 'v' or depth > 12: return None
        b, i = self.defs.get(v[1], (None, None))
        if i is None: return None
        op = i['op']; m = re.match(r'^i(\d+)$', i['ty']); w = int(m.group(1)) if m else 64
        R = lambda k: self.rng(i['ops'][k], depth + 1)
        if op in ('zext', 'sext', 'trunc', 'freeze'):
            r = R(0); src = i['ops'][0]
            if op == 'zext':
                sw = self.width(src)
                if r and r[0] >= 0: return r
                return (0, (1 << sw) - 1) if sw and sw <= 16 else None
            if op == 'sext': 
                if r: return r
                sw = self.width(src); return (-(1 << (sw - 1)), (1 << (sw - 1)) - 1) if sw and sw <= 16 else None
            if op == 'trunc': return r if r and -(1 << (w - 1)) <= r[0] and r[1] < 1 << w else None
            return r
        if op == 'and':
            for k in (0, 1):
                o = i['ops'][k]
                if o[0] == 'c' and sgn(o[2], o[1]) >= 0: 
                    return (0, o[1])
            return None
        if op == 'lshr' and i['ops'][1][0] == 'c':
            r = R(0)
            if r and r[0] >= 0: return (r[0] >> i['ops'][1][1], r[1] >> i['ops'][1][1])
            return (0, ((1 << w) - 1) >> i['ops'][1][1]) if w - i['ops'][1][1] <= 16 else None
        if op in ('add', 'sub', 'mul', 'shl'):
            a, c = R(0), R(1)
            if not a or not c: return None
            if op == 'add': r = (a[0] + c[0], a[1] + c[1])
            elif op == 'sub': r = (a[0] - c[1], a[1] - c[0])
            elif op == 'mul': x = [p * q for p in a for q in c]; r = (min(x), max(x))
            else: r = (a[0] << c[0], a[1] << c[1]) if c[0] == c[1] and 0 <= c[0] < 64 else None
            return r if r and -(1 << (w - 1)) <= r[0] and r[1] < 1 << w else None
        if op in ('or', 'xor'):
            a, c = R(0), R(1)
            if a and c and a[0] >= 0 and c[0] >= 0: return (0, (1 << max(a[1].bit_length(), c[1].bit_length())) - 1)
            return None
        if op == 'select':
            a, c = R(1), R(2)
            return (min(a[0], c[0]), max(a[1], c[1])) if a and c else None
        if op == 'phi': return self.induction(v[1], i, depth)
        if op == 'load' and w <= 16: return (0, (1 << w) - 1)
        return None
    def width(self, v):
        if v[0] == 'c': return v[2]
        if v[0] == 'v':
            m = re.match(r'^i(\d+)$', self.defs[v[1]][1]['ty']); return int(m.group(1)) if m else None
        if v[0] == 'a':
            m = re.match(r'^i(\d+)$', self.f['args'][v[1]]['ty']); return int(m.group(1)) if m else None
    def induction(self, pid, phi, depth):
        """phi [init, step]: values taken inside the loop guarded by a compare of the phi or its increment"""
        init = step = nxt = None
        for pb, v in phi['in']:
            if v[0] == 'c': init = sgn(v[2], v[1])
            elif v[0] == 'v':
                _, d = self.defs[v[1]]
                if d['op'] in ('add', 'sub') and d['ops'][0] == ['v', pid] and d['ops'][1][0] == 'c':
                    step = sgn(d['ops'][1][2], d['ops'][1][1]) * (1 if d['op'] == 'add' else -1); nxt = v[1]
                else: return None
        if init is None or step is None or len(phi['in']) != 2: return None
        for b, blk in enumerate(self.f['blocks']):
            for i in blk:
                if i['op'] != 'icmp' or i['ops'][1][0] != 'c': continue
                o = i['ops'][0]
                while o[0] == 'v' and self.defs[o[1]][1]['op'] in ('zext', 'sext'): o = self.defs[o[1]][1]['ops'][0]
                if o not in (['v', pid], ['v', nxt]): continue
                br = blk[-1]
                if br['op'] != 'br' or not br['ops'] or br['ops'][0] != ['v', i['id']]: continue
                lim = sgn(i['ops'][1][2], i['ops'][1][1]); p = i['pred']
                # which side continues: the one from which the phi's block is reachable
                pb = self.defs[pid][0]
                cont = [s for s in br['succ'] if self.reaches(s, pb, br['succ'])]
                if len(cont) != 1: continue
                if cont[0] == br['succ'][1]: p = {'slt': 'sge', 'sle': 'sgt', 'ult': 'uge', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sge': 'slt', 'ugt': 'ule', 'uge': 'ult'}[p]
                vals = []
                x = init
                tested_next = (o == ['v', nxt])
                # closed form of the last value for which the loop goes on
                if step > 0 and p in ('slt', 'ult', 'ne', 'sle', 'ule'):
                    if p == 'ne' and (lim - init) % step: return None
                    top = lim if p in ('sle', 'ule') else lim - 1
                    last = init + (top - init) // step * step if top >= init else init
                    if tested_next: last = max(init, last)
                    return (init, max(init, last))
                if step < 0 and p in ('sgt', 'ugt', 'ne', 'sge', 'uge'):
                    if p == 'ne' and (init - lim) % -step: return None
                    bot = lim if p in ('sge', 'uge') else lim + 1
                    last = init - (init - bot) // -step * -step if bot <= init else init
                    return (min(init, last), init)
        return None
    def reaches(self, s, t, excl):
        seen = set(); todo = [s]
        while todo:
            b = todo.pop()
            if b == t: return True
            if b in seen: continue
            seen.add(b)
            i = self.f['blocks'][b][-1]
            todo += list(i.get('succ', ()))
        return False
    def address(self, v, depth=0):
        """list of (root, lo, hi): root ('g', name)=table a global points to, ('arg', k), ('call', id); offsets range of the first byte"""
        if depth > 30: return []
        if v[0] == 'gep': return self.off(self.address(v[1]['base'], depth + 1), v[1])
        if v[0] == 'a': return [(('arg', v[1]), 0, 0)]
        if v[0] == 'g': return [(('addr', v[1]), 0, 0)]
        if v[0] != 'v': return []
        _, i = self.defs[v[1]]; op = i['op']
        if op == 'getelementptr': return self.off(self.address(i['ops'][0], depth + 1), i['gep'])
        if op in ('bitcast', 'freeze'): return self.address(i['ops'][0], depth + 1)
        if op == 'load':
            a = i['ops'][0]
            if a[0] == 'g': return [(('g', a[1]), 0, 0)]
            if a[0] == 'a': return [(('*arg', a[1]), 0, 0)]
            return []
        if op in ('call', 'invoke'): return [(('call', v[1]), 0, 0)]
        if op == 'phi':
            if depth > 4: return []
            out = []
            for _, x in i['in']: out += self.address(x, depth + 5)
            return [(r, None, None) for r, lo, hi in out]
        if op == 'select': return self.address(i['ops'][1], depth + 1) + self.address(i['ops'][2], depth + 1)
        return []
    def off(self, bases, g):
        if 'off' not in g: return [(r, None, None) for r, lo, hi in bases]
        lo = hi = g['off']
        if lo >= 1 << 63: lo = hi = lo - (1 << 64)
        for v, k in g['vars']:
            if k >= 1 << 63: k -= 1 << 64
            r = self.rng(v)
            if r is None: hi = None; break
            x = [r[0] * k, r[1] * k]; lo += min(x); hi += max(x)
        if hi is None:
            # the start is still known when unknown parts are non-negative
            lo = g['off']; 
            for v, k in g['vars']:
                r = self.rng(v)
                if r: lo += min(r[0] * k, r[1] * k)
            return [(r, None if a is None else a + lo, None) for r, a, b in bases]
        return [(r, None if a is None else a + lo, None if b is None else b + hi) for r, a, b in bases]

def merge(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1]: out[-1][1] = max(out[-1][1], b)
        else: out.append([a, b])
    return out

def c11(rep):
    W = World(); P = W.P
    outs = [(it, s) for it, s in W.run() if s.dead is None]
    if len(outs) < 8: raise AnalysisError('only %d paths through the initialiser' % len(outs))
    # ---- the module runs the initialiser before it hands out any function
    for s in W.fin:
        ok = any(e[0] == 'once' for e in s.events)
        rep.check('initialised before use', P.dem(W.entry), ok, 'a path through module registration never runs the initialiser')
    # ---- which mode each binding needs of which pointer
    import bindings
    ctx = bindings.Ctx()
    want = {}
    def on_event(it, st, kind, data):
        if kind != 'decode': return
        d, ins = data
        api = it.api
        if api == 'decodeIncr': mode = (True, True)
        else:
            ri = 1 if api == 'decode' else 2
            h = argh(ri); b = [v for c, v in st.facts.items() if c == ('s', 1, 'bool', h)] + [not v for c, v in st.facts.items() if c == neg(('s', 1, 'bool', h))]
            pres = it.decide(st, cmp_('slt', K(32, ri), ('s', 32, 'argc')))
            raw = b[0] if b else (False if pres is False else None)
            if raw is None: 
                rep.check('mode requested', bindings.at(it, ins), None, 'cannot tell which mode this decode call was asked for'); return
            mode = (raw, False)
        rep.check('mode requested', '%s (raw=%s, search end=%s)' % (api, *mode), True)
        want.setdefault(d['ptr'], {}).setdefault(mode, bindings.at(it, ins))
    from v8model import argh
    for api in ('decode', 'decodeTo', 'decodeIncr'): ctx.run(api, on_event)
    modes = {m for v in want.values() for m in v}
    if modes != {(False, False), (True, False), (True, True)}: raise AnalysisError('decode modes requested: %s' % sorted(modes))
    for g, v in want.items():
        rep.check('one mode per decode pointer', g, len(v) == 1, 'called for different modes: %s' % v)
    # ---- template parameters of what a decode pointer selects (no inlining: every instance is visible)
    PP = whole.program(list(W.plain.values()), [])
    def mode_of(fn):
        PP.add_function(fn); PP.solve()
        res = set()
        for f in PP.reachable([fn]):
            ff = PP.fn.get(f)
            if not ff: continue
            tp = dict((n, v) for n, v in ff.get('tparams', ()))
            tl = [(n, v) for n, v in ff.get('tparams', ())]
            low = {n.lower(): bool(v) for n, v in tl if v in (0, -1, 1)}
            raw = next((v for n, v in low.items() if 'raw' in n), None); end = next((v for n, v in low.items() if 'end' in n), None)
            if f == fn and raw is None and len(tl) >= 2: raw, end = bool(tl[0][1]), bool(tl[1][1])
            if raw is not None or end is not None: res.add((raw, end, PP.dem(f).split('(')[0][:80]))
        return res
    mcache = {}
    need_tables = {}
    LC = {}
    def loops(fn):
        if fn not in LC: LC[fn] = Loops(P.fn[fn])
        return LC[fn]
    def reads_of(fn):
        """{table global: [(lo, hi or None, align, where)]} read below fn"""
        if fn in need_tables: return need_tables[fn]
        out = {}
        for f in W.below(fn):
            if f not in P.fn: continue
            L = loops(f)
            for blk in P.fn[f]['blocks']:
                for i in blk:
                    if i['op'] == 'load': a = i['ops'][0]; size, al = i['size'], i['align']
                    elif i.get('intr', '').startswith(('llvm.masked.load', 'llvm.masked.expandload')): a = i['ops'][0]; size, al = 1, 1
                    else: continue
                    for root, lo, hi in L.address(a):
                        if root[0] == 'g' and root[1] in P.gl and not P.gl[root[1]]['const'] and root[1] not in W.slots:
                            out.setdefault(root[1], []).append((lo, None if hi is None else hi + size, al, where(i)))
                    if i['op'] == 'load' and a[0] == 'g' and a[1] in P.gl and not P.gl[a[1]]['const'] and P.gl[a[1]]['ty'] == 'ptr' and a[1] not in W.slots:
                        out.setdefault(a[1], [])
        need_tables[fn] = out
        return out
    wcache = {}
    def writes_of(fn, depth=0):
        """[(root, lo, hi)] regions stored to by fn and the functions it calls"""
        if fn in wcache: return wcache[fn]
        wcache[fn] = []
        out = []
        if fn in P.fn and depth < 12:
            L = loops(fn)
            for blk in P.fn[fn]['blocks']:
                for i in blk:
                    if i['op'] == 'store':
                        for root, lo, hi in L.address(i['ops'][1]): out.append((root, lo, None if hi is None else hi + i['size']))
                    elif i.get('intr', '').startswith(('llvm.memset', 'llvm.memcpy')):
                        n = i['ops'][2]
                        for root, lo, hi in L.address(i['ops'][0]): out.append((root, lo, None if hi is None else hi + (n[1] if n[0] == 'c' else 1)))
                    elif i['op'] in ('call', 'invoke'):
                        for c in P.calls.get(fn, {}).get(i['id'], ()):
                            if c not in P.fn: continue
                            for root, lo, hi in writes_of(c, depth + 1):
                                if root[0] == 'arg' and root[1] < len(i['ops']):
                                    for r2, l2, h2 in L.address(i['ops'][root[1]]):
                                        out.append((r2, None if None in (lo, l2) else lo + l2, None if None in (hi, h2) else hi + h2))
                                elif root[0] == '*arg' and root[1] < len(i['ops']):
                                    o = i['ops'][root[1]]
                                    if o[0] == 'g': out.append((('g', o[1]), lo, hi))
                                    elif o[0] == 'a': out.append((('*arg', o[1]), lo, hi))
                                elif root[0] in ('g', 'addr'): out.append((root, lo, hi))
        wcache[fn] = out
        return out
    def tabwrites(fns):
        d = {}
        for fn in fns:
            for root, lo, hi in writes_of(fn):
                if root[0] == 'g': d.setdefault(root[1], []).append((lo, hi))
                if root[0] == 'call':
                    # freshly allocated block: find the global it is stored to in the same function
                    for blk in P.fn[fn]['blocks']:
                        for i in blk:
                            if i['op'] == 'store' and i['ops'][0] == ['v', root[1]] and i['ops'][1][0] == 'g': d.setdefault(i['ops'][1][1], []).append((lo, hi))
        return d
    done = set(); tables = set(); nmode = 0
    for it, st in outs:
        slots = {}
        for slot in sorted(W.slots):
            v = W.final(it, st, slot)
            ok = v is not None and v[0] == 'fn'
            rep.check('every dispatch pointer is set', slot, ok, 'is not a function after initialisation (%r)' % (v,), cpu(st))
            if ok: slots[slot] = v[1]
        entered = tuple(sorted({e[1] for e in st.events if e[0] == 'enter'}))
        allocs = {e[1]: e for e in st.events if e[0] == 'alloc'}
        key = (tuple(sorted(slots.items())), entered)
        if key in done: continue
        done.add(key)
        for g, ms in want.items():
            fn = slots.get(g)
            if fn is None: rep.check('decode pointer has an implementation', g, False, 'no implementation installed', cpu(st)); continue
            if fn not in mcache: mcache[fn] = mode_of(fn)
            for mode in ms:
                nmode += 1
                w = '%s for (raw=%s, search end=%s) -> %s' % (g, mode[0], mode[1], PP.dem(fn).split('(')[0][:60])
                if not mcache[fn]: rep.check('mode of the implementation', w, None, 'no template parameters tell the mode of this implementation'); continue
                bad = [x for x in mcache[fn] if x[0] not in (None, mode[0]) or x[1] not in (None, mode[1])]
                rep.check('mode of the implementation', w, not bad, 'uses %s compiled for raw=%s, search end=%s' % ((bad[0][2], bad[0][0], bad[0][1]) if bad else ('', '', '')), cpu(st))
        tw = tabwrites(list(W.inits) + list(entered))
        for slot, fn in slots.items():
            for g, reads in reads_of(fn).items():
                tables.add(g)
                v = W.final(it, st, g)
                w = '%s read by %s' % (g, P.dem(fn).split('(')[0][:70])
                ok = v is not None and v[0] == 'ptr' and v[1][0] in ('heap', 'opaque', 'g')
                rep.check('table allocated', w, ok, 'the implementation installed in %s reads %s, which this path leaves unset' % (slot, g), cpu(st))
                if not ok or v[1][0] != 'heap': continue
                al = allocs.get(v[1])
                size = al[3][2] if al and isk(al[3]) else None; align = al[2][2] if al and isk(al[2]) else 16
                cov = merge([(a, b) for a, b in tw.get(g, ()) if a is not None and b is not None])
                openw = [a for a, b in tw.get(g, ()) if a is not None and b is None]
                unk = any(a is None for a, b in tw.get(g, ()))
                zero = bool(al and al[5])
                for lo, hi, ralign, wh in reads:
                    if size is not None and lo is not None:
                        rep.check('read inside the table', w + ' ' + wh, 0 <= lo < size and (hi is None or hi <= size), 'reads bytes %s..%s of a table of %d bytes' % (lo, hi, size))
                    if lo is not None and hi is not None and size is not None:
                        inside = [c for c in cov if c[0] <= lo and hi <= c[1]]
                        if zero: inside = True
                        ok = bool(inside)
                        if not ok:
                            near = [c for c in cov if c[0] <= lo < c[1]]
                            # data-dependent fills only give their starting offsets
                            ok = None if (unk or any(a <= lo for a in openw)) else False
                            if ok is None and not near and not unk: ok = True
                            if ok is None: ok = True if not near else None
                        rep.check('table filled where it is read', w + ' ' + wh, ok, 'reads bytes %s..%s, the initialiser fills %s' % (lo, hi, cov), cpu(st))
                    elif lo is not None:
                        ok = zero or unk or any(c[0] <= lo < c[1] for c in cov) or any(a <= lo for a in openw)
                        rep.check('table filled where it is read', w + ' ' + wh, ok, 'reads from byte %s on, the initialiser fills %s' % (lo, cov), cpu(st))
                    if ralign > 16 or align % 16: rep.check('table aligned for its reads', w + ' ' + wh, align % ralign == 0 or ralign <= 8, 'a load that needs %d-byte alignment from a block aligned to %d' % (ralign, align))
    if nmode < 12 or len(tables) < 5: raise AnalysisError('too little found: %d mode checks, tables %s' % (nmode, sorted(tables)))
    rep.cover.update(cpu_classes=len(outs), distinct_installations=len(done), tables=sorted(tables), pointers=sorted(W.slots))
