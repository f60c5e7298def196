"""C15, C16: CRC constants, multiplication, shift and the vector CRC kernels, in the GF(2) domain."""
import os, re, concurrent.futures as cf
import ir, gf2
from ir import AnalysisError, REPO
from gf2 import Interp, Space, BV, K, Lin, Ptr, NSet, Index, Undecided, Wrong, mk, pmod, mulm, xpow, rev32, xp, P

SRC = ['src/crc.cc', 'src/crc_folding.cc', 'src/crc_folding_256.cc']
PTRS = {'_do_crc32_incremental': 'incremental', '_crc32_shift': 'shift', '_crc32_multiply': 'multiply'}

_mods = {}
def mods(variant=''):
    """the build's units; variant 'table' is crc.cc as built where crcutil is unavailable or disabled"""
    if variant not in _mods:
        if variant == 'table':
            u = dict(ir.units()['src/crc.cc']); u['defines'] = [d for d in u['defines'] if 'CRCUTIL' not in d] + ['YENC_DISABLE_CRCUTIL=1']
            _mods[variant] = [ir.load('src/crc.cc', unit=u)]
        else:
            out = ir.load_many(SRC); _mods[variant] = [out[s] for s in SRC]
    return _mods[variant]
_pre = {}
def premem(variant):
    """memory after the tables have been filled (interpreted, nothing is run)"""
    if variant != 'table': return {}
    if variant not in _pre:
        ms = mods(variant); I = Interp(ms, Space()); I.limit = 20000000
        fn = [n for n, f in ms[0].defined().items() if f['dem'].endswith('crc32_init()')]
        if len(fn) != 1: raise AnalysisError('crc32_init not found')
        I.summaries = {d: (lambda o, i: K(0, 32)) for d in (f['dem'] for f in ms[0].functions.values()) if 'cpu_supports_crc_isa' in d}
        I.call(fn[0], [])
        _pre[variant] = ({r: {k: (list(e) if isinstance(e, list) else e) for k, e in m.items()} for r, m in I.mem.items()}, I.nreg)
    return _pre[variant]

def implementations(ms):
    """{role: {function symbol: demangled}}: everything ever stored into the dispatch pointers"""
    res = {r: {} for r in PTRS.values()}
    roles = {}
    fdem = {}
    for m in ms:
        for n, g in m.globals.items():
            for p, r in PTRS.items():
                if re.search(r'(^|::)%s$' % p, g['dem']):
                    roles[n] = r
        for n, f in m.functions.items(): fdem[n] = (f['dem'], m)
    def add(role, o, at):
        if o[0] == 'g' and o[1] in fdem: res[role][o[1]] = fdem[o[1]]
        elif o[0] != 'n': raise AnalysisError('%s: %s set to something unknown' % (at, role))
    for m in ms:
        for n, g in m.globals.items():
            if n in roles and 'init' in g: add(roles[n], g['init'], n)
        for n, f in m.defined().items():
            for b in f['blocks']:
                for i in b:
                    if i['op'] == 'store' and i['ops'][1][0] == 'g' and i['ops'][1][1] in roles:
                        o = i['ops'][0]
                        if o[0] == 'v': raise AnalysisError('computed CRC function pointer at %s' % ir.where(i))
                        add(roles[i['ops'][1][1]], o, ir.where(i))
    return res

# ---------------------------------------------------------------- specification
def crcspec(crc, by):
    crc = [x ^ 1 for x in crc]
    for b in by:
        for i in range(8): crc[i] ^= b[i]
        for _ in range(8):
            l = crc[0]; crc = crc[1:] + [0]
            for k in range(32):
                if 0xEDB88320 >> k & 1: crc[k] ^= l
    return [x ^ 1 for x in crc]
def uncrc(crc, by):
    """the starting value from which the data gives crc"""
    crc = [x ^ 1 for x in crc]
    for b in reversed(by):
        for _ in range(8):
            l = crc[31]; crc = list(crc)
            for k in range(32):
                if 0xEDB88320 >> k & 1: crc[k] ^= l
            crc = [l] + crc[:31]
        # crc ^= b at the low bits
        for i in range(8): crc[i] ^= b[i]
    return [x ^ 1 for x in crc]

# ---------------------------------------------------------------- incremental CRC
class Stop(Exception): pass
class Machine:
    def __init__(self, variant, fn, a, M):
        self.ms = mods(variant); self.pre = premem(variant); self.tabv = {}; self.fn = fn; self.a = a; self.M = M
    def new(self):
        sp = Space(); I = Interp(self.ms, sp)
        _, self.init = sp.vector('starting crc', 32)
        I.inputs = {'src': lambda k: sp.vector(('data', k), 8)[1]}
        I.mem['src'] = {}; I.align = {'src': (self.a, self.M)}
        if self.pre:
            for r, m in self.pre[0].items(): I.mem[r] = dict(m)
            I.nreg = self.pre[1]; I.frozen = set(self.pre[0]); I.tabv = self.tabv
        return I
    def data(self, I, lo, hi):
        m = I.mem['src']
        for k in range(lo, hi):
            if k not in m: m[k] = I.inputs['src'](k)
        return [m[k] for k in range(lo, hi)]
    def start(self, I, L): return I.call(self.fn, [Ptr('src'), L, BV(self.init)])
    def concrete(self, L):
        I = self.new(); r = self.start(I, K(L, 64))
        return self.cmp(I, r, self.init, self.data(I, 0, L))
    def cmp(self, I, r, init, by):
        want = crcspec(init, by)
        if not isinstance(r, BV): return 'the result is not a value'
        bad = [k for k in range(32) if r.b[k] != want[k]]
        if not bad: return None
        d = r.b[bad[0]] ^ want[bad[0]]
        names = []
        for m in list(I.sp.bits(d))[:6]:
            names.append('·'.join('%s[%d]' % (I.sp.vec[v][0], i) for v, i in (I.sp.atoms[x] for x in I.sp.mons[m])) or '1')
        return 'bit %d of the CRC (and %d others) differs: by %s' % (bad[0], len(bad) - 1, ' + '.join(names))
    # ---- one unbounded loop
    def induct(self, L0, stride):
        """all lengths L0 + stride*K; None or a reason; raises Undecided"""
        I = self.new(); seen = []
        def hook(fn, f, b, env, args): seen.append((fn, b))
        I.hook = hook; I.hookany = True
        try:
            r = self.start(I, Lin(L0, stride, 64))
        except Undecided as e:
            if not getattr(e, 'length', False): raise
            if e.far > 16 or not seen: e.jump = (e.far + 2) * stride; raise
        else: raise Undecided('the length does not decide the result')
        hdr = seen[-1]; visit = seen.count(hdr)
        gen = set()
        for _ in range(8):
            st, before, after, I = self.step(L0, stride, hdr, visit, gen)
            grow = set()
            for k, v in before['val'].items():
                w = after['val'].get(k)
                if k in gen: continue
                if isinstance(v, BV):
                    if not isinstance(w, BV) or w.b != v.b:
                        if v.c is not None and isinstance(w, BV) and w.c is not None and k[0] == 'env' and (w.c - v.c) % (1 << v.w) == stride: continue   # an index
                        grow.add(k)
                elif isinstance(v, Lin):
                    if isinstance(w, BV) and w.c is not None: w = Lin(w.c, 0, w.w)
                    if not isinstance(w, Lin) or (w.c, w.k) != (v.c - v.k, v.k): raise Undecided('the loop does not advance by %d bytes' % stride)
                elif isinstance(v, Ptr):
                    if not isinstance(w, Ptr) or w.r != v.r: raise Undecided('pointer')
                    exp = (v.c + stride - v.k, v.k) if v.r == 'src' else (v.c, v.k)
                    if (w.c, w.k) != exp and not (v.r == 'src' and (w.c, w.k) == (v.c, v.k) == (0, 0)): raise Undecided('the loop does not advance by %d bytes' % stride)
            if not grow: break
            gen |= grow
        else: raise Undecided('loop state')
        # positions the state may stand for: number of bytes consumed
        cand = sorted({v.c for v in before['val'].values() if isinstance(v, Ptr) and v.r == 'src' and v.k == 0} |
                      {v.c for k, v in before['val'].items() if isinstance(v, BV) and v.c is not None and isinstance(after['val'].get(k), BV) and after['val'][k].c is not None and (after['val'][k].c - v.c) == stride})
        order = sorted(gen, key=repr)
        # exit with K = 0
        I0 = self.new(); S0 = {}
        def hook0(fn, f, b, env, args):
            if (fn, b) == hdr:
                hook0.n += 1
                if hook0.n == visit:
                    self.generalise(I0, env, gen, S0); self.subst(I0, env, 0, False)
        hook0.n = 0; I0.hook = hook0; I0.hookany = True
        res = self.start(I0, Lin(L0, stride, 64))
        if not isinstance(res, BV): raise Undecided('result')
        why = None
        for o in cand:
            if o > L0 : continue
            why = self.verify(I0, res, S0, order, o, L0, stride, before['entry'], before['I'], after, I)
            if why is None: return None
        if why is None: raise Undecided('no position for the loop state')
        return why
    def verify(self, I0, res, S0, order, o, L0, stride, entry, Ie, after, Is):
        tail = self.data(I0, o, L0)
        G = uncrc(res.b, tail)
        # atom number -> (generic value, bit)
        loc = {}
        for k in order:
            for i, f in enumerate(S0[k]):
                loc[I0.sp.mons[f.bit_length() - 1]] = (k, i)
        lin = []
        for g in G:
            terms = []; c = 0
            for m in I0.sp.bits(g):
                if m == 0: c = 1; continue
                t = loc.get(I0.sp.mons[m])
                if t is None:
                    mon = I0.sp.mons[m]
                    nm = '·'.join('%s[%d]' % (I0.sp.vec[v][0], i) for v, i in (I0.sp.atoms[x] for x in mon))
                    return 'after the last full iteration with %d bytes left the result is not the CRC of the remaining data: it depends on %s' % (L0 - o, nm)
                terms.append(t)
            lin.append((terms, c))
        def app(vals):
            out = []
            for terms, c in lin:
                f = c
                for k, i in terms: f ^= vals[k][i]
                out.append(f)
            return out
        ge = app({k: entry[k].b for k in order})
        if ge != crcspec(self.einit, self.data(Ie, 0, o)):
            return 'at the loop entry (%d bytes consumed) the accumulators do not stand for the CRC so far' % o
        gs = app(self.sgen); gb = app({k: after['val'][k].b for k in order})
        if gb != crcspec(gs, self.data(Is, o, o + stride)):
            return 'one iteration of the main loop does not advance the CRC by its %d bytes' % stride
        return None
    def snapshot(self, I, env, args):
        d = {}
        for k, v in env.items(): d[('env', k)] = v
        for r, m in I.mem.items():
            if r == 'src' or r.startswith('@'): continue
            for o in sorted(k for k in m if isinstance(k, int)):
                e = m[o]
                if isinstance(e, list): d[('mem', r, o)] = mk(e)
        return d
    def generalise(self, I, env, gen, out):
        for k in sorted(gen, key=repr):
            if k[0] == 'env': w = env[k[1]].w
            else: w = 8
            _, ids = I.sp.vector(('state', k), w); out[k] = ids
            if k[0] == 'env': env[k[1]] = BV(ids)
            else: I.mem[k[1]][k[2]] = ids
    def subst(self, I, env, add, keep):
        """K := K + add (keep) or K := 0"""
        for k, v in list(env.items()):
            if isinstance(v, Lin): env[k] = Lin(v.c + v.k * add, v.k, v.w) if keep else K(v.c, v.w)
            elif isinstance(v, Ptr) and v.k: env[k] = Ptr(v.r, v.c + v.k * add, v.k if keep else 0)
        for fr in I.frames:
            if fr is env: continue
            for k, v in list(fr.items()):
                if isinstance(v, Lin): fr[k] = Lin(v.c + v.k * add, v.k, v.w) if keep else K(v.c, v.w)
                elif isinstance(v, Ptr) and v.k: fr[k] = Ptr(v.r, v.c + v.k * add, v.k if keep else 0)
    def step(self, L0, stride, hdr, visit, gen):
        I = self.new(); st = {'n': 0}; before = {}; after = {}; S = {}
        def hook(fn, f, b, env, args):
            if (fn, b) != hdr: return
            st['n'] += 1
            phis = {i['id'] for i in f['blocks'][b] if i['op'] == 'phi'}
            if st['n'] == visit:
                before['entry'] = self.live(I, f, b, env)
                self.generalise(I, env, gen, S)
                self.subst(I, env, 1, True)
                before['val'] = self.live(I, f, b, env)
            elif st['n'] == visit + 1:
                after['val'] = self.live(I, f, b, env); raise Stop()
        I.hook = hook; I.hookany = True
        try: self.start(I, Lin(L0, stride, 64))
        except Stop: pass
        else: raise Undecided('the loop does not come back')
        self.sgen = S; self.einit = self.init; before['I'] = I
        return st, before, after, I
    def live(self, I, f, b, env):
        """phi values of the header and all memory"""
        d = {}
        for i in f['blocks'][b]:
            if i['op'] == 'phi': d[('env', i['id'])] = env[i['id']]
        for r, m in I.mem.items():
            if r == 'src' or r.startswith('@'): continue
            for o in [k for k in m if isinstance(k, int)]:
                e = m[o]
                if isinstance(e, list): d[('mem', r, o)] = mk(e)
                elif e[0] == 'p': d[('mem', r, o)] = e[1]
        return d

def work(job):
    variant, fn, a, M, lens, strides, B = job
    out = []; n = 0
    mac = Machine(variant, fn, a, M)
    for L in lens:
        try: r = mac.concrete(L)
        except Undecided as e: return out, n, ('und', '%s (%d bytes, address %d mod %d)' % (e, L, a, M), getattr(e, 'at', ''), getattr(e, 'align', False))
        except Wrong as e: r = str(e)
        n += 1
        if r: out.append(('%d bytes, address %d mod %d' % (L, a, M), r)); return out, n, None
    if strides is None: return out, n, None
    for st in strides:
        try:
            for L0 in range(B, B + st):
                r = mac.induct(L0, st); n += 1
                if r: out.append(('%d + %d k bytes, address %d mod %d' % (L0, st, a, M), r)); return out, n, None
            return out, n, None
        except Undecided as e: last = e
        except Wrong as e:
            out.append(('%d + %d k bytes, address %d mod %d' % (L0, st, a, M), str(e))); return out, n, None
    return out, n, ('und', '%s (lengths of the form %d + %dk)' % (last, B, st), getattr(last, 'at', ''), False)

def incremental(rep, fn, dem, where, rule, variant=''):
    B = 96
    probe = None
    for M in (1, 4, 16, 32, 64):
        res = [work((variant, fn, 0, M, range(0, B), None, B))]
        if not any(u and u[3] for _, _, u in res): probe = M; break
    if probe is None: rep.check(rule, where, None, 'depends on more than 64-byte alignment'); return
    # the stride of the main loop: found on one alignment
    order = [64, 32, 128, 16, 256, 8, 4, 1]
    found = None; err = None; B2 = B
    for _ in range(4):
        jump = 0
        for s in order:
            try:
                mac = Machine(variant, fn, 0, probe)
                for L0 in range(B2, B2 + s):
                    if mac.induct(L0, s): break
                found = s; break
            except Undecided as e: err = e; jump = jump or getattr(e, 'jump', 0)
            except Wrong: found = s; break
        if found or not jump or B2 + jump > 1 << 22: break
        B2 += jump                      # a size threshold: what lies below it is examined at its ends
    if B2 > B:
        st = found or 64
        step = sorted({L for L in list(range(B, B + 128, 3)) + list(range(B2 - 2 * st, B2)) if B <= L < B2})
        with cf.ProcessPoolExecutor(8) as ex: rs = list(ex.map(work, [(variant, fn, 1 % probe, probe, step[j::16], None, B) for j in range(16)]))
        for out, n, u in rs:
            for at, why in out: rep.check(rule, where, False, '%s: %s' % (at, why))
            if u: rep.check(rule, where, None, u[1])
        if any(out for out, n, u in rs): return
        rep.cover.setdefault('size_threshold', {})[where] = B2
        rep.check(rule, where, None, 'the code changes behaviour at a size near %d bytes: sizes below it and other alignments are only sampled' % B2)
    jobs = [(variant, fn, a, probe, range(0, B), [found] if found else None, B2) for a in (range(probe) if B2 == B else sorted({0, 1 % probe, probe - 1}))]
    with cf.ProcessPoolExecutor(8) as ex: rs = list(ex.map(work, jobs))
    tot = 0
    for (job, (out, n, u)) in zip(jobs, rs):
        tot += n
        for at, why in out: rep.check(rule, where, False, '%s: %s' % (at, why))
        if u: rep.check(rule, where, None, '%s %s' % (u[1], u[2]))
        if not out and not u:
            for _ in range(n): rep.check(rule, where, True)
    if not found: rep.check(rule, where, None, 'main loop: %s %s' % (err, getattr(err, 'at', '')))
    rep.cover.setdefault('kernels', {})[where] = {'length_and_alignment_classes': tot, 'alignment_modulus': probe, 'loop_stride': found}

def c16(rep):
    ms = mods(); imp = implementations(ms)
    rule = 'the kernel computes the CRC-32 of the data'
    n = 0
    for fn, (dem, m) in sorted(imp['incremental'].items()):
        f = m.functions[fn]
        wh = '%s:%s %s' % (os.path.basename(f.get('file', '?')), f.get('line', '?'), dem)
        if 'generic' in dem and calls_virtual(f): rep.cover.setdefault('not_analysed', []).append(wh + ' (third-party crcutil with inline assembly)'); continue
        incremental(rep, fn, dem, wh, rule); n += 1
    # the table-driven implementation used where crcutil is not (crcutil disabled in the configuration)
    t = mods('table')[0]
    for fn, f in t.defined().items():
        if 'do_crc32_incremental_generic' in f['dem'] and not calls_virtual(f): incremental(rep, fn, f['dem'] + ' [crcutil disabled]', 'crc.cc:%s %s [crcutil disabled]' % (f.get('line', '?'), f['dem']), rule, 'table'); n += 1
    if not n: raise AnalysisError('no analysable CRC kernel')
    rep.need(rule, 100)
    arithmetic(rep, ms, imp)

def calls_virtual(f):
    return any(i['op'] == 'call' and i['callee'][0] != 'g' for b in f['blocks'] for i in b)

# ---------------------------------------------------------------- field algebra
class Field:
    """values of named vectors as elements of GF(2)[x]/P over generators"""
    def __init__(self, sp): self.sp = sp; self.val = {}; self.refl = {}
    def vec(self, name, width, fv, refl=False):
        v, ids = self.sp.vector(name, width); self.val[v] = fv; self.refl[v] = refl; return BV(ids)
    def pos(self, a):
        v, i = self.sp.atoms[a]; return v, (31 - i if self.refl[v] else i)
    def of(self, bits, refl=False):
        """field value {monomial of generators: coefficient} of a bit vector; Wrong if it is not one"""
        sp = self.sp; acc = {}
        for i, f in enumerate(bits):
            if not f: continue
            e = xp(len(bits) - 1 - i if refl else i)
            for m in sp.bits(f): acc[m] = acc.get(m, 0) ^ e
        groups = {}
        for m, c in acc.items():
            if not c: continue
            mon = sorted(sp.mons[m]); vs = [self.pos(a) for a in mon]
            key = tuple(sorted(v for v, _ in vs)); groups.setdefault(key, {})[tuple(sorted(vs))] = c
        out = {}
        for key, ent in groups.items():
            t, c = next(iter(ent.items()))
            coef = mulm(c, xpow((1 << 32) - 1 - sum(e for _, e in t)))
            full = 1
            for v in key: full *= sp.vec[v][1]
            if len(ent) != full: raise Wrong('the value is not congruent modulo P to a product of its factors')
            for t2, c2 in ent.items():
                if mulm(coef, xp(sum(e for _, e in t2))) != c2:
                    raise Wrong('the value is not congruent modulo P to a product of its factors')
            term = {(): coef}
            for v in key: term = self.mul(term, self.val[v])
            for k, x in term.items():
                out[k] = out.get(k, 0) ^ x
                if not out[k]: del out[k]
        return out
    def mul(self, a, b):
        out = {}
        for k, x in a.items():
            for l, y in b.items():
                m = tuple(sorted(k + l)); out[m] = out.get(m, 0) ^ mulm(x, y)
        return {k: v for k, v in out.items() if v}

def check_multiply(ms, fn):
    sp = Space(); I = Interp(ms, sp)
    _, a = sp.vector('a', 32); _, b = sp.vector('b', 32)
    r = I.call(fn, [BV(a), BV(b)])
    want = [0] * 32
    for i in range(32):
        for j in range(32):
            p = sp.mul(a[i], b[j]); v = rev32(xp(62 - i - j))
            for k in range(32):
                if v >> k & 1: want[k] ^= p
    bad = [k for k in range(32) if r.b[k] != want[k]]
    return None if not bad else 'bits %s of the product are wrong' % bad[:8]

def tabword(I, g, off):
    by = I.gbytes(g); return int.from_bytes(by[off:off + 4], 'little')

def check_shift(ms, fn, low, k, mult):
    """one class of shift amounts: low 5 bits, k unknown higher bits set"""
    sp = Space(); I = Interp(ms, sp); F = Field(sp)
    crc = F.vec('crc', 32, {('crc',): 1}, True)
    pos = tuple('p%d' % i for i in range(k)); loads = {}
    def tabsym(g, off, p, scale, w, i):
        if scale != 4 or w != 32: raise Undecided('table of %d-byte entries' % scale)
        by = I.gbytes(g)
        ent = []
        for n in range(5, 32):
            o = off + 4 * n
            if o < 0 or o + 4 > len(by): raise Wrong('entry for bit %d is outside the table %s' % (n, I.globals[g]['dem']))
            ent.append(int.from_bytes(by[o:o + 4], 'little'))
        norm = [x ^ xpow(1 << n) for n, x in zip(range(5, 32), ent)]
        refl = [rev32(x) ^ xpow(1 << n) for n, x in zip(range(5, 32), ent)]
        bn, br = sum(1 for x in norm if x), sum(1 for x in refl if x)
        if bn and br:
            t = norm if bn <= br else refl; n = [j for j, x in enumerate(t) if x][0] + 5
            raise Wrong('entry %d of the table %s is not x^(2^%d)' % (n + off // 4, I.globals[g]['dem'], n))
        return F.vec('x^(2^%s)' % p, 32, {(p,): 1}, bn != 0)
    I.tabsym = tabsym
    def cut(x, i):
        nz = max(j for j, f in enumerate(x) if f) + 1
        return F.vec('cut', nz, F.of(x)).b + [0] * (len(x) - nz)
    I.cut = cut
    def summ(o, i):
        a, b = o
        if not isinstance(a, BV) or not isinstance(b, BV): return None
        if a.c is not None and b.c is not None: return K(rev32(mulm(rev32(a.c), rev32(b.c))), 32)
        return F.vec('product', 32, F.mul(F.of(a.b, True), F.of(b.b, True)), True)
    I.summaries = {d: summ for d in mult}
    if k: n = NSet(low, 5, pos)
    else: n = K(low, 32)
    r = I.call(fn, [crc, n])
    if not isinstance(r, BV) or r.w != 32: raise Undecided('result')
    got = F.of(r.b, True)
    want = {tuple(sorted(('crc',) + pos)): xpow(low)}
    if got != want: return 'the result is %s instead of crc·%sx^%d' % (fmt(got), ''.join('x^(2^%s)·' % p for p in pos), low)
    return None
def fmt(fv):
    return ' + '.join('%s%s' % ('·'.join('x^(2^%s)' % g if g != 'crc' else g for g in k), '' if c == 1 else '·0x%x' % c) for k, c in sorted(fv.items())) or '0'

def shiftwork(job):
    fn, cases, mult = job
    ms = mods(); out = []; n = 0
    for low, k in cases:
        try: r = check_shift(ms, fn, low, k, mult)
        except Undecided as e: return out, n, '%s %s (low bits %d, %d higher bits)' % (e, getattr(e, 'at', ''), low, k)
        except Wrong as e: r = '%s at %s' % (e, getattr(e, 'at', '?'))
        n += 1
        if r: out.append(('%d higher bits, low bits %d' % (k, low), r)); break
    return out, n, None

def wh(f): return '%s:%s %s' % (os.path.basename(f.get('file', '?')), f.get('line', '?'), f['dem'])
def arithmetic(rep, ms, imp):
    rule = 'multiplication is multiplication modulo the CRC-32 polynomial'
    mult = []
    for fn, (dem, m) in sorted(imp['multiply'].items()):
        f = m.functions[fn]
        try: r = check_multiply(ms, fn)
        except Undecided as e: rep.check(rule, wh(f), None, '%s %s' % (e, getattr(e, 'at', ''))); continue
        except Wrong as e: r = str(e)
        rep.check(rule, wh(f), r is None, r or 'all 1024 products of a bit of a and a bit of b')
        if r is None: mult.append(f['dem'])
    for m in ms:                                    # other multiplication helpers, by what they compute
        for n, f in m.defined().items():
            if f['dem'] in mult or f['ty'] != 'i32 (i32, i32)' or n in imp['multiply'] or n in imp['shift']: continue
            try:
                if check_multiply(ms, n) is None: mult.append(f['dem'])
            except (Undecided, Wrong, AnalysisError): pass
    rule = 'shift multiplies by x^n'
    for fn, (dem, m) in sorted(imp['shift'].items()):
        f = m.functions[fn]
        cases = [(l, k) for k in (0, 1, 2) for l in range(32)] + [(l, k) for k in range(3, 28) for l in (0, 1, 31)]
        jobs = [(fn, cases[j::24], mult) for j in range(24)]
        with cf.ProcessPoolExecutor(8) as ex: rs = list(ex.map(shiftwork, jobs))
        bad = [x for out, n, u in rs for x in out]; und = [u for out, n, u in rs if u]
        if bad: rep.check(rule, wh(f), False, '%s: %s' % bad[0])
        for u in und[:1]: rep.check(rule, wh(f), None, u)
        for out, n, u in rs:
            for _ in range(n - len(out)): rep.check(rule, wh(f), True, 'class of shift amounts')

def c15(rep):
    ms = mods(); imp = implementations(ms)
    # tables, wherever a table of 32 CRC powers is defined
    rule = 'a table of powers holds x^(2^n)'
    seen = 0
    for m in ms:
        I = Interp([m], Space())
        for n, g in sorted(m.globals.items()):
            if g.get('size') != 128 or not g.get('init') or not g['ty'].startswith('[32 x i32]'): continue
            try: ent = [tabword(I, n, 4 * k) for k in range(32)]
            except Undecided: continue
            norm = [k for k in range(32) if ent[k] != xpow(1 << k)]; refl = [k for k in range(32) if rev32(ent[k]) != xpow(1 << k)]
            seen += 1; bad = norm if len(norm) < len(refl) else refl
            if len(bad) > 24: continue          # some other table
            for k in range(32):
                rep.check(rule, '%s:%s %s' % (m.src, (g.get('loc') or ['', '?'])[1], g['dem']), k not in bad, 'entry %d is 0x%08x' % (k, ent[k]) + ('' if k not in bad else ', x^(2^%d) is 0x%08x' % (k, xpow(1 << k) if bad is norm else rev32(xpow(1 << k)))))
    arithmetic(rep, ms, imp)
    # the vector kernels' folding and reduction constants are decided by what the kernels compute
    rule = 'folding and reduction constants give the CRC-32'
    for fn, (dem, m) in sorted(imp['incremental'].items()):
        f = m.functions[fn]
        if 'generic' in dem and calls_virtual(f): continue
        incremental(rep, fn, dem, wh(f), rule)
    init_constant(rep, ms)
    if not imp['multiply'] or not imp['shift']: raise AnalysisError('no CRC multiplication or shift function is installed')

def init_constant(rep, ms):
    """polynomial and parameters the crcutil object is created with"""
    rule = 'crcutil is created for the reflected CRC-32'
    want = [0xEDB88320, 0, 32, 1, 0, 0, 0, 0]
    for m in ms:
        for n, f in m.defined().items():
            for b in f['blocks']:
                for i in b:
                    if i['op'] == 'call' and i['callee'][0] == 'g' and 'CRC::Create' in m.functions.get(i['callee'][1], {}).get('dem', ''):
                        got = [o[1] if o[0] == 'c' else None for o in i['ops'][:8]]
                        rep.check(rule, ir.where(i), got == want, 'parameters %s' % got)
