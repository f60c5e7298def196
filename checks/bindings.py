"""C01-C07: every path through every native binding, by abstract interpretation of src/yencode.cc."""
import sys, os
from v8model import *
import solve
from solve import witness, nonneg, show, same, residue
from terms import *

# documented argument roles (README and the comments in index.js)
ROLES = {
    'encode':         dict(kind='encode', data=0, ls=1, col=2),
    'encodeTo':       dict(kind='encode', data=0, out=1, ls=2, col=3),
    'encodeIncr':     dict(kind='encode', data=0, opt_out=1, ls=(1, 2), col=(2, 3)),
    'decode':         dict(kind='decode', data=0),
    'decodeTo':       dict(kind='decode', data=0, out=1),
    'decodeIncr':     dict(kind='decode', data=0, opt_out=2),
    'crc32':          dict(kind='crc', data=0, opt_crc=1),
    'crc32_combine':  dict(kind='crc', crc=(0, 1), num=2, min=3),
    'crc32_zeroes':   dict(kind='crc', num=0, opt_crc=1, min=1),
    'crc32_multiply': dict(kind='crc', crc=(0, 1), min=2),
    'crc32_shift':    dict(kind='crc', num=0, opt_crc=1, min=1),
}

class Ctx:
    def __init__(self):
        self.mod, self.mods = load_binding()
        self.regs, self.entry, self.fin, _ = registrations(self.mod, self.mods)
        self.roles = kernel_roles(self.mods)
        missing = [a for a in ROLES if a not in self.regs]
        if missing: raise AnalysisError('native functions not registered: ' + ', '.join(missing))
        self.paths = 0; self.funcs = set()
    def run(self, api, on_event=None, setup=None, oom=True, intsym=None):
        m = Model(on_event, oom=oom); m.roles = self.roles
        if intsym: m.intsym = intsym
        it = Interp(self.mod, m, self.mods, on_load=on_load(m), on_store=on_store(m))
        it.ranges[ARGC] = (0, 65535)
        it.api = api
        st = State()
        if setup and setup(it, st) is False: return [], it, m
        fin = it.run(self.regs[api], [INFO], st)
        self.paths += len(fin); self.funcs |= {it.dem(f).split('(')[0] for f in it.funcs_seen}
        return fin, it, m
    def cover(self, rep):
        rep.cover['entry_points'] = sorted(ROLES)
        rep.cover['paths_interpreted'] = self.paths
        rep.cover['functions_interpreted'] = sorted(f for f in self.funcs if 'v8::' not in f)

def at(it, ins): return '%s: %s' % (it.api, where(ins))
def thrown(st): return any(e[0] == 'throw' for e in st.events)
def sinks(st): return [e for e in st.events if e[0] in ('encode', 'decode', 'crc', 'shift', 'mul')]
def trace(st):
    out = []
    for e in st.events:
        ins = e[-1] if isinstance(e[-1], dict) and 'op' in e[-1] else None
        out.append('%s at %s' % (e[0], where(ins) if ins else '?'))
    for c, v in list(st.facts.items())[:30]: out.append('assuming %s is %s' % (fmt(c), v))
    return out
def fmt(t):
    h = t[0]
    if h == 'k': return str(sval(t))
    if h == 's':
        n = t[2]
        if n in ('blen', 'int'): return '%s(arg %s)' % ({'blen': 'length', 'int': 'value'}[n], t[3][2] if t[3][1] == 'arg' else t[3][1])
        return n if isinstance(n, str) else str(n)
    if h == 'lin':
        c, d = lin_coefs_signed(t)
        s = ' + '.join(('%d*' % k if k != 1 else '') + fmt(a) for a, k in d.items())
        return s + (' + %d' % c if c else '')
    if h in ('zext', 'sext'): return fmt(t[2])
    if h == 'trunc': return '(%s mod 2^%d)' % (fmt(t[2]), t[1])
    if h == 'udiv': return 'floor((%s)/%s)' % (fmt(t[2]), fmt(t[3]))
    if h == 'cmp' : return '%s %s %s' % (fmt(t[3]), t[2], fmt(t[4]))
    if h in ('and', 'or', 'xor'): return '(%s %s %s)' % (fmt(t[2]), h, fmt(t[3]))
    if h == 'ptr': return 'ptr(%s)' % (t[1][0],)
    return str(h)

def u64(it, st, t): return it.wide(st, t) if width(t) < 64 else t

# ---------------------------------------------------------------- C01 / C02: room
def lower_bounds(it, st, sz):
    """terms t for which the path's facts say sz >= t"""
    out = []
    for c, v in st.facts.items():
        if c[0] != 'cmp': continue
        p, a, b = c[2], c[3], c[4]
        if p == 'ult':
            # a < b
            for big, small, strict in (((b, a, 1),) if v else ((a, b, 0),)):
                if big == sz: out.append(add(small, K(64, strict)) if strict else small)
                else:
                    # big = sz + rest
                    if width(big) == 64:
                        cc, d = lin_parts(big)
                        if d.get(sz) == 1 and small[0] != 'undef' and width(small) == 64:
                            rest = sub(big, sz)
                            out.append(add(sub(small, rest), K(64, strict)))
        if p == 'eq' and v:
            if a == sz: out.append(b)
            if b == sz: out.append(a)
    return out

def room(rep, it, st, rule, ins, model, d, need, what):
    """the destination of this kernel call holds at least need bytes"""
    w = at(it, ins)
    if thrown(st):
        return rep.violation(rule, w, 'the kernel runs after an exception was thrown', trace(st))
    dst = d['dst']
    if dst[0] != 'ptr': return rep.check(rule, w, None, 'destination not understood: %r' % (dst,))
    o, off = dst[1], dst[2]
    if o == ('null',): return rep.violation(rule, w, 'the destination is a null pointer', trace(st))
    if o[0] == 'heap':
        h = model.getheap(st, o)
        bounds = [sub(h['size'], off)]; exact = True; szt = h['size']
    elif o[0] == 'bdata':
        r = st.tags.get(('blen', o[1]))
        e = o[2] if len(o) > 2 else 0
        szt = r if r is not None else blen(o[1], e)
        it.ranges.setdefault(szt, (0, BIG)) if szt[0] == 's' else None
        bounds = [sub(szt, off)] + [sub(b, off) for b in lower_bounds(it, st, szt)]
    elif o[0] == 'alloca':
        szt = K(64, o[4]); bounds = [sub(szt, off)]
    else: return rep.check(rule, w, None, 'destination object not understood: %r' % (o,))
    for b in bounds:
        if b[0] != 'undef' and nonneg(it, st, sub(b, need)):
            return rep.check(rule, w, True, '%s: room for %s bytes, %s needed' % (what, fmt(b), fmt(need)))
    cap = sub(szt, off)
    wit = witness(it, st, lambda env: (lambda x, y: x is not None and y is not None and x < y)(solve.ev(cap, env), solve.ev(need, env)), (cap, need))
    if wit is not None:
        return rep.violation(rule, w, '%s: destination of %s bytes where %s are needed (%s: %d < %d)' % (what, fmt(cap), fmt(need), show(wit), solve.ev(cap, wit), solve.ev(need, wit)), trace(st))
    return rep.check(rule, w, None, 'cannot show that %s bytes are enough for %s' % (fmt(cap), fmt(need)), trace(st))

def big_lengths(it):
    pass

def c01(rep):
    ctx = Ctx(); seen = set()
    def on_event(it, st, kind, data):
        if kind != 'encode': return
        d, ins = data
        L = it.wide(st, d['L']); n = d['n']
        seen.add(it.api)
        lo, hi = it.srange(st, L)
        # 2n + 2*floor(2n/L) + 66 with the very line size this call encodes with
        if lo < 1:
            lo1 = it.srange(st, L)
            wit = witness(it, st, lambda env: (lambda x: x is not None and sgn(64, x) < 1)(solve.ev(L, env)), (L,))
            if wit is not None:
                return        # a line size below 1 is C03's business; the bound is undefined there
        q = it.arith(st, 'udiv', mulk(n, 2), L, ins)
        need = add(add(mulk(n, 2), mulk(q, 2)), K(64, 66))
        room(rep, it, st, 'destination of an encode holds the worst case', ins, it.hook, d, need, it.api)
    for api, r in ROLES.items():
        if r['kind'] == 'encode': ctx.run(api, on_event)
    ctx.cover(rep)
    if seen != {'encode', 'encodeTo', 'encodeIncr'}: raise AnalysisError('encode kernel not reached from ' + ', '.join({'encode', 'encodeTo', 'encodeIncr'} - seen))

def c02(rep):
    ctx = Ctx(); seen = set()
    def on_event(it, st, kind, data):
        if kind != 'decode': return
        d, ins = data; seen.add(it.api)
        room(rep, it, st, 'destination of a decode holds the input length', ins, it.hook, d, d['n'], it.api)
    for api, r in ROLES.items():
        if r['kind'] != 'decode': continue
        fin, it, m = ctx.run(api, on_event)
        # a supplied destination shorter than the input never makes it to a normal return (n > 0)
        o = r.get('out', r.get('opt_out'))
        if o is None: continue
        def setup(it, st):
            for i in (r['data'], o): set_type(st, argh(i), 'Buffer', True)
            for i in (r['data'], o): it.ranges[blen(argh(i))] = (0, BIG)
            return (it.assume(st, cmp_('slt', K(32, o), ARGC), True) and it.assume(st, cmp_('eq', blen(argh(r['data'])), K(64, 0)), False)
                    and it.assume(st, cmp_('ult', blen(argh(o)), blen(argh(r['data']))), True))
        fin, it, m = ctx.run(api, None, setup)
        if not fin: raise AnalysisError('no path through ' + api)
        for st in fin:
            if st.dead: continue
            bad = not thrown(st) and st.tags.get(('oom',)) is None
            wit = witness(it, st, lambda env: True) if bad else None
            rep.check('a short destination makes the call throw', api, (None if wit is None else False) if bad else True, '%s returns without an exception although the destination is shorter than the input' % api, trace(st))
    ctx.cover(rep)
    if seen != {'decode', 'decodeTo', 'decodeIncr'}: raise AnalysisError('decode kernel not reached from every decode binding')

# ---------------------------------------------------------------- C03: line size and column
I31 = (1 << 31) - 1
def c03(rep):
    ctx = Ctx()
    LS = [('absent', None), ('far below 0', (-(1 << 63), -(1 << 31) - 1)), ('negative', (-(1 << 31), -1)), ('0', (0, 0)),
          ('1..2^31-1', (1, I31)), ('above 2^31-1', (I31 + 1, (1 << 63) - 1))]
    COL = ['absent', 'far below 0', 'negative', '0', 'between 0 and the line size', 'equal to the line size', 'above the line size', 'above 2^31-1']
    cells = 0
    for api, r in ROLES.items():
        if r['kind'] != 'encode': continue
        variants = [(r['ls'], r['col'], r.get('out'))] if 'opt_out' not in r else [(r['ls'][0], r['col'][0], None), (r['ls'][1], r['col'][1], r['opt_out'])]
        for lsi, coli, out in variants:
            reached = 0
            for lname, lr in LS:
                for cname in COL:
                    if lr is None and cname != 'absent': continue
                    argc = lsi + (0 if lr is None else 1 if cname == 'absent' else 2)
                    intsym = {}
                    lsym = iarg(lsi); csym = iarg(coli)
                    defL = lr is None or lname == '0'
                    eff = K(64, 128) if defL else lsym
                    if cname == 'equal to the line size':
                        if lname in ('far below 0', 'negative'): continue
                        intsym[coli] = eff
                    def setup(it, st):
                        ok = it.assume(st, cmp_('eq', ARGC, K(32, argc)), True)
                        set_type(st, argh(r['data']), 'Buffer', True)
                        if out is not None: set_type(st, argh(out), 'Buffer', True)
                        for i in (lsi, coli):
                            if i < argc: set_type(st, argh(i), 'Number', True)
                        it.ranges[blen(argh(r['data']))] = (1, 1 << 30)
                        if out is not None: it.ranges[blen(argh(out))] = (1 << 45, BIG)
                        if lr is not None: it.ranges[lsym] = lr if cname != 'above 2^31-1' or lname != '1..2^31-1' else (1, I31 - 1)
                        lo, hi = {'absent': (None, None), 'far below 0': (-(1 << 63), -(1 << 31) - 1), 'negative': (-(1 << 31), -1), '0': (0, 0),
                                  'between 0 and the line size': (1, I31), 'above the line size': (1, I31), 'above 2^31-1': (I31 + 1, (1 << 63) - 1)}.get(cname, (None, None))
                        if lo is not None:
                            it.ranges[csym] = (lo, hi)
                            if cname == '0':
                                if lname == '1..2^31-1': pass
                            if cname == 'between 0 and the line size':
                                if lname in ('far below 0', 'negative'): it.ranges[csym] = (1, I31)
                                else: ok = ok and it.assume(st, cmp_('slt', csym, eff), True)
                            if cname == 'above the line size':
                                if lname in ('far below 0', 'negative'): it.ranges[csym] = (1, I31)
                                elif lname == 'above 2^31-1': return False
                                else: ok = ok and it.assume(st, cmp_('slt', eff, csym), True)
                        return ok
                    fin, it, m = ctx.run(api, None, setup, oom=False, intsym=intsym)
                    fin = [s for s in fin if s.dead is None]
                    if not fin: continue
                    cells += 1
                    neg = lname in ('far below 0', 'negative') or cname in ('far below 0', 'negative')
                    must = neg or (lname in ('absent', '0', '1..2^31-1') and cname in ('above the line size', 'above 2^31-1'))
                    free = not neg and (lname == 'above 2^31-1' or False)
                    cell = '%s(%sline size %s, column %s)' % (api, 'with destination, ' if out is not None and 'opt_out' in r else '', lname, cname)
                    for st in fin:
                        enc = [e for e in st.events if e[0] == 'encode']
                        if must:
                            bad = not thrown(st) or enc
                            ok = True
                            if bad: ok = False if witness(it, st, lambda env: True) is not None else None
                            rep.check('an invalid line size or column makes the call throw', cell, ok, 'the call does not throw', trace(st))
                            continue
                        if thrown(st) and not enc:
                            if free: rep.check('an out-of-range line size is refused or clamped', cell, True); continue
                            ok = False if witness(it, st, lambda env: True) is not None else None
                            rep.check('a valid line size and column are accepted', cell, ok, 'the call throws', trace(st)); continue
                        if not enc:
                            ok = False if witness(it, st, lambda env: True) is not None else None
                            rep.check('the encoder runs', cell, ok, 'returns without encoding', trace(st)); continue
                        for e in enc:
                            reached += 1
                            L, C = it.wide(st, e[1]['L']), it.wide(st, e[1]['col'])
                            if free or (lname == 'above 2^31-1'):
                                lo, hi = it.srange(st, L); clo, chi = it.srange(st, C)
                                ok = lo >= 1 and clo >= 0 and it.decide(st, cmp_('slt', C, L)) is True
                                if not ok:
                                    wit = witness(it, st, lambda env: (lambda l, c: l is not None and c is not None and (sgn(64, l) < 1 or not 0 <= sgn(64, c) < sgn(64, l)))(solve.ev(L, env), solve.ev(C, env)), (L, C))
                                    ok = False if wit is not None else None
                                rep.check('the encoder runs with line size >= 1 and 0 <= column < line size', cell, ok, 'line size %s, column %s' % (fmt(L), fmt(C)), trace(st))
                                continue
                            wantL = eff
                            wantC = K(64, 0) if cname in ('absent', '0', 'equal to the line size') else csym
                            for nm, got, want in (('line size', L, wantL), ('column', C, wantC)):
                                ok, wit = same(it, st, got, want)
                                rep.check('%s reaches the encoder normalised' % nm, cell, ok, '%s is %s, expected %s%s' % (nm, fmt(got), fmt(want), (' (%s)' % show(wit)) if wit else ''), trace(st))
            if reached < 6: raise AnalysisError('%s: the encoder is reached in only %d cells' % (api, reached))
    rep.cover['cells'] = cells
    ctx.cover(rep)

# ---------------------------------------------------------------- C04: types before use
def c04(rep):
    ctx = Ctx(); uses = set()
    def on_event(it, st, kind, data):
        if kind in ('length', 'data'):
            h, ins = data
            if h[0] != 'h' or h[1] in ('buf',): return
            uses.add((it.api, kind))
            k = known_type(st, h, 'Buffer')
            rep.check('an argument is a Buffer where its %s is taken' % ('length' if kind == 'length' else 'contents'), at(it, ins), k is True,
                      'argument %s is not known to be a Buffer here' % (h[2] if len(h) > 2 else h[1]), None if k else trace(st))
        elif kind == 'load':
            p, size, ins = data
            if p[1][0] == 'bdata' and p[1][1][1] == 'arg':
                h = p[1][1]; e = p[1][2] if len(p[1]) > 2 else 0
                n = blen(h, e); it.ranges.setdefault(n, (0, BIG))
                end = add(p[2], K(64, size))
                ok = nonneg(it, st, sub(n, end)) and it.srange(st, p[2])[0] >= 0
                if not ok:
                    wit = witness(it, st, lambda env: (lambda a, b: a is not None and b is not None and a < b)(solve.ev(n, env), solve.ev(end, env)), (n, end))
                    ok = False if wit is not None else None
                rep.check('a byte read from an argument lies within it', at(it, ins), ok, 'reads %d byte(s) at %s of argument %s without its length being known' % (size, fmt(p[2]), h[2]), None if ok else trace(st))
                if e < st.tags.get('epoch', 0):
                    rep.violation('no user code runs between measuring and using a Buffer', at(it, ins), 'the contents of argument %s are read after a conversion that can run user code' % h[2], trace(st))
        elif kind == 'rawvalue':
            h, T, ins = data
            k = known_type(st, h, 'Number' if T in ('Integer', 'Number') else T)
            if h[1] == 'conv' or h[1] == 'num': k = True
            rep.check('a number is converted, not assumed', at(it, ins), k is True, 'argument %s is used as %s without a type check' % (h[2] if len(h) > 2 else '?', T), None if k else trace(st))
        elif kind == 'convert':
            rep.check('numeric argument goes through a real conversion', at(it, data[3]), True)
        elif kind in ('encode', 'decode', 'crc'):
            d, ins = data
            e = st.tags.get('epoch', 0)
            for nm in ('src', 'dst'):
                p = d.get(nm)
                if p is None or p[0] != 'ptr' or p[1][0] != 'bdata' or p[1][1][1] != 'arg': continue
                h = p[1][1]; pe = p[1][2] if len(p[1]) > 2 else 0
                me = st.tags.get(('measured', h), 0)
                rep.check('no user code runs between measuring and using a Buffer', at(it, ins), pe == e and me == e,
                          'argument %s was measured before a conversion that can run user code (which could detach or shrink it)' % h[2], None if pe == e and me == e else trace(st))
            src, n = d['src'], d['n']
            if src[0] == 'ptr' and src[1][0] == 'bdata':
                h = src[1][1]; pe = src[1][2] if len(src[1]) > 2 else 0
                L = blen(h, pe); it.ranges.setdefault(L, (0, BIG))
                end = add(n, src[2])
                ok = nonneg(it, st, sub(L, end))
                if not ok:
                    wit = witness(it, st, lambda env: (lambda a, b: a is not None and b is not None and a < b)(solve.ev(L, env), solve.ev(end, env)), (L, end))
                    ok = False if wit is not None else None
                rep.check('the kernel is given no more input than the Buffer holds', at(it, ins), ok, 'length %s of a Buffer of %s bytes' % (fmt(end), fmt(L)), None if ok else trace(st))
    for api, r in ROLES.items():
        fin, it, m = ctx.run(api, on_event)
        if not any(e[0] in ('encode', 'decode', 'crc', 'shift', 'mul') for s in fin for e in s.events): raise AnalysisError('no kernel reached from ' + api)
        # missing or wrongly typed Buffers throw
        req = [(r[k], 4 if k == 'crc' else None) for k in ('data', 'out') if k in r] + [(i, 4) for i in r.get('crc', ())]
        opt = [(r['opt_crc'], 4)] if 'opt_crc' in r else []
        def must_throw(label, setup):
            fin, it, m = ctx.run(api, None, setup)
            live = [s for s in fin if s.dead is None]
            if not live: raise AnalysisError('no path for %s %s' % (api, label))
            for s in live:
                t = thrown(s)
                ok = True if t else (False if witness(it, s, lambda env: True) is not None else None)
                rep.check('a missing or wrongly typed argument makes the call throw', '%s(%s)' % (api, label), ok, 'the call returns without an exception', None if ok else trace(s))
                if t and ok:
                    k = [i for i, e in enumerate(s.events) if e[0] == 'throw'][0]
                    late = [e for e in s.events if e[0] in ('encode', 'decode', 'crc', 'shift', 'mul')]
                    rep.check('nothing is processed on a refused call', '%s(%s)' % (api, label), not late, 'a kernel runs on a call that throws', trace(s) if late else None)
        nmin = r.get('min', max([i for i, _ in req], default=-1) + 1)
        for k in range(nmin):
            must_throw('%d of %d required arguments' % (k, nmin), lambda it, st, k=k: it.assume(st, cmp_('eq', ARGC, K(32, k)), True))
        for i, ln in req + opt:
            def setup(it, st, i=i):
                set_type(st, argh(i), 'Buffer', False)
                for j, l in req:
                    if j != i:
                        set_type(st, argh(j), 'Buffer', True)
                        if l: it.ranges[blen(argh(j))] = (l, l)
                return it.assume(st, cmp_('slt', K(32, max([i] + [j for j, _ in req] + [nmin - 1])), ARGC), True)
            must_throw('argument %d not a Buffer' % i, setup)
            if ln:
                for lo, hi, nm in ((0, 3, 'shorter'), (5, BIG, 'longer')):
                    def setup2(it, st, i=i, lo=lo, hi=hi):
                        for j, l in req + [(i, None)]:
                            set_type(st, argh(j), 'Buffer', True)
                            if l and j != i: it.ranges[blen(argh(j))] = (l, l)
                        it.ranges[blen(argh(i))] = (lo, hi)
                        return it.assume(st, cmp_('slt', K(32, max([i] + [j for j, _ in req] + [nmin - 1])), ARGC), True)
                    must_throw('argument %d %s than 4 bytes' % (i, nm), setup2)
    ctx.cover(rep)
    for k in ('length', 'data'):
        if len([a for a, x in uses if x == k]) < 10: raise AnalysisError('too few Buffer accesses found')

# ---------------------------------------------------------------- C05: memory
def c05(rep):
    ctx = Ctx(); cbs = {}; allocs = set()
    def hp(p): return p[0] == 'ptr' and p[1][0] == 'heap'
    def callback(cb, it0, ins):
        """the release callback frees its first argument exactly once on every path"""
        if cb in cbs: return cbs[cb]
        if cb[0] != 'fn': cbs[cb] = (None, 'not a known function'); return cbs[cb]
        if cb[1] in ('free', 'cfree'): cbs[cb] = (True, ''); return cbs[cb]
        D = ('ptr', ('param', 'cbdata'), K(64, 0)); H = ('ptr', ('param', 'cbhint'), K(64, 0))
        m = Model(oom=False)
        it = Interp(ctx.mod, m, ctx.mods)
        if it.func(cb[1]) is None: cbs[cb] = (None, 'callback has no body'); return cbs[cb]
        fin = it.run(cb[1], [D, H])
        res = (True, '')
        for s in fin:
            if s.dead: continue
            fr = [e for e in s.events if e[0] == 'free']
            if len(fr) != 1 or fr[0][1] != D:
                res = (False, 'the release callback frees %s' % ('nothing' if not fr else 'its argument %d times' % len(fr) if all(f[1] == D for f in fr) else 'something else than the memory it is given')); break
        cbs[cb] = res; ctx.funcs.add(it.dem(cb[1]).split('(')[0])
        return res
    def on_event(it, st, kind, data):
        m = it.hook
        if kind == 'malloc': allocs.add(at(it, data[2]))
        if kind == 'free':
            p, h, ins = data
            if hp(p):
                ok = h.get('state') == 'live' and p[2] == K(64, 0)
                if h.get('state') == 'escaped': ok = None
                rep.check('memory is freed while it is owned and only once', at(it, ins), ok, 'free of memory that is %s' % h.get('state'), None if ok else trace(st))
            else:
                rep.check('memory is freed while it is owned and only once', at(it, ins), False if p[0] == 'ptr' and p[1][0] in ('bdata', 'alloca', 'g') else None, 'free of %s' % (p,), trace(st))
        elif kind == 'realloc':
            p, h, size, ins = data
            if hp(p):
                rep.check('memory is resized while it is owned', at(it, ins), h.get('state') == 'live' and p[2] == K(64, 0), 'realloc of memory that is %s' % h.get('state'), trace(st) if h.get('state') != 'live' else None)
        elif kind in ('load', 'store', 'encode', 'decode', 'crc', 'copybuf'):
            ins = data[-1]
            ps = [data[0]] if kind in ('load', 'store') else [data[0].get(x) for x in ('src', 'dst')] if kind != 'copybuf' else [data[1]]
            for p in ps:
                if p is None or p[0] != 'ptr': continue
                if p[1] == ('null',):
                    rep.violation('a failed allocation is not used', at(it, ins), 'a null pointer is used', trace(st))
                elif p[1][0] == 'heap':
                    s = m.getheap(st, p[1]).get('state')
                    if kind in ('encode', 'decode'): rep.check('memory is used while it is owned', at(it, ins), s != 'freed', 'memory is used after it was freed', trace(st) if s == 'freed' else None)
                    elif s == 'freed': rep.violation('memory is used while it is owned', at(it, ins), 'memory is used after it was freed', trace(st))
        elif kind == 'extbuf':
            h, p, ln, cb, hint, ins = data
            w = at(it, ins)
            if p[0] == 'ptr' and p[1] == ('null',):
                if ln != K(64, 0): rep.violation('a failed allocation is not used', w, 'a null pointer is handed to a Buffer', trace(st))
                return
            if not hp(p):
                bad = p[0] == 'ptr' and p[1][0] in ('bdata', 'alloca', 'g')
                rep.check('a returned Buffer owns memory of its own', w, False if bad else None, 'the Buffer is given %s' % (p[1][0] if p[0] == 'ptr' else p[0],), trace(st)); return
            o = m.getheap(st, p[1])
            ok = o['state'] == 'live' and p[2] == K(64, 0)
            rep.check('a returned Buffer owns live memory', w, ok, 'memory handed to the Buffer is %s%s' % (o['state'], '' if p[2] == K(64, 0) else ' and not the start of the block'), None if ok else trace(st))
            c, why = callback(cb, it, ins)
            rep.check('the release callback frees the memory exactly once', w, c, why, None if c else trace(st))
            # the block is at least as long as the Buffer
            size = o['size']
            kern = [e for e in st.events if e[0] in ('encode', 'decode') and e[1]['dst'][0] == 'ptr' and e[1]['dst'][1] == p[1]]
            ok = nonneg(it, st, sub(size, ln))
            if not ok and kern:
                # what the kernel reports as written into this very block fits it (C01, C02)
                ids = {e[1]['id'] for e in kern}
                if ln[0] == 's' and ln[2] in ('enclen', 'written') and ln[3] in ids: ok = True
            if not ok:
                wit = witness(it, st, lambda env: (lambda a, b: a is not None and b is not None and a < b)(solve.ev(size, env), solve.ev(ln, env)), (size, ln))
                ok = False if wit is not None else None
            rep.check('a returned Buffer is no longer than its memory', w, ok, 'a Buffer of %s bytes over a block of %s' % (fmt(ln), fmt(size)), None if ok else trace(st))
    for api, r in ROLES.items():
        fin, it, m = ctx.run(api, on_event)
        for st in fin:
            if st.dead: continue
            for k, v in st.tags.items():
                if isinstance(k, tuple) and k[0] == 'heapobj':
                    s = dict(v).get('state')
                    ok = s in ('handed', 'freed', 'escaped')
                    # feasibility of this very path
                    if not ok and witness(it, st, lambda env: True) is None: ok = None
                    rep.check('every allocation is released or handed over on every path', '%s: block allocated at %s' % (api, k[1][2]), ok,
                              'the block is still owned when the function returns%s' % (' after throwing' if thrown(st) else ''), None if ok else trace(st))
            if st.tags.get(('oom',)):
                later = sum(1 for e in st.events if e[0] in ('encode', 'decode')) > st.tags.get(('oomsinks',), 0)
                ok = thrown(st) or later
                rep.check('a failed allocation makes the call throw', '%s: %s' % (api, st.tags[('oom',)]), ok, 'the call returns without an exception although its memory could not be allocated', None if ok else trace(st))
            if st.tags.get(('oomresize',)):
                ok = thrown(st) or any(e[0] == 'ret' for e in st.events)
                rep.check('a failed resize throws or keeps the block', '%s: %s' % (api, st.tags[('oomresize',)]), ok, 'the call returns nothing and does not throw', None if ok else trace(st))
    ctx.cover(rep)
    rep.cover['allocation_sites'] = sorted(allocs); rep.cover['release_callbacks'] = sorted(it.dem(c[1]) for c in cbs if c[0] == 'fn')
    if not cbs or len({a.split(':')[0] for a in allocs}) < 4: raise AnalysisError('fewer allocating bindings than expected')

# ---------------------------------------------------------------- C06: counts
def number_exact(it, st, v, want):
    """is the JavaScript number v exactly the 64-bit count want: True / (False, why) / None"""
    if v[0] != 'h' or v[1] != 'num': return None, 'not a number: %r' % (v[:2],)
    kind, t = v[2]
    if kind == 'dbl':
        if t[0] == 'fp' and t[1] in ('uitofp', 'sitofp'):
            x = t[2]
            if t[1] == 'sitofp' and width(x) < 64: x = it.wide(st, x)
            elif width(x) < 64: x = zext(x, 64) if not (x[0] == 'trunc' and it.urange(st, x[2])[1] <= M(width(x))) else x[2]
        elif t[0] == 'f':
            try: x = K(64, int(float(t[1])))
            except ValueError: return None, 'double constant'
        else: return None, 'double not understood'
    elif kind in ('int', 'uint'):
        x = t
        if width(x) < 64:
            if kind == 'int': x = it.wide(st, x)
            else: x = x[2] if x[0] == 'trunc' and it.urange(st, x[2])[1] <= M(32) else zext(x, 64)
    else: x = t
    ok, wit = same(it, st, x, want)
    return ok, 'reports %s instead of %s%s' % (fmt(x), fmt(want), ' (%s)' % show(wit) if wit else '')

def c06(rep):
    ctx = Ctx(); n = 0
    for api, r in ROLES.items():
        def on_event(it, st, kind, data):
            if kind in ('encode', 'decode', 'crc'):
                d, ins = data
                p = d['src']
                if p[0] == 'ptr' and p[1][0] == 'bdata' and p[1][1][1] == 'arg':
                    e = p[1][2] if len(p[1]) > 2 else 0
                    want = sub(blen(p[1][1], e), p[2])
                    ok, wit = same(it, st, d['n'], want)
                    rep.check('the kernel gets the full 64-bit length', at(it, ins), ok, 'length %s, expected %s%s' % (fmt(d['n']), fmt(want), ' (%s)' % show(wit) if wit else ''), None if ok else trace(st))
        ints = {i: ('s', 64, 'int', argh(i)) for i in range(6)}
        for lo, hi in (((0, (1 << 63) - 1), (-(1 << 63), -1)) if 'num' in r and api != 'crc32_combine' else ((0, (1 << 63) - 1),)):
            def setup(it, st):
                if 'num' in r: it.ranges[iarg(r['num'])] = (lo, hi); set_type(st, argh(r['num']), 'Number', True)
            fin, it, m = ctx.run(api, on_event, setup)
            for st in fin:
                if st.dead or thrown(st): continue
                ks = [e for e in st.events if e[0] in ('encode', 'decode')]
                rets = [e for e in st.events if e[0] == 'ret']
                # returned Buffers are exactly as long as what was written
                for e in st.events:
                    if e[0] == 'extbuf' and ks:
                        k = ks[-1]; want = ('s', 64, 'enclen' if k[0] == 'encode' else 'written', k[1]['id'])
                        ok, wit = same(it, st, e[3], want); n += 1
                        rep.check('a returned Buffer has exactly the written length', at(it, e[-1]), ok, 'length %s, expected what the kernel wrote%s' % (fmt(e[3]), ' (%s)' % show(wit) if wit else ''), None if ok else trace(st))
                if api in ('encodeTo', 'decodeTo'):
                    want = ('s', 64, 'enclen' if api == 'encodeTo' else 'written', ks[-1][1]['id']) if ks else K(64, 0)
                    if not rets: rep.violation('the written count is returned', api, 'a path returns nothing', trace(st)); continue
                    ok, why = number_exact(it, st, rets[-1][1], want); n += 1
                    rep.check('the written count is returned exactly', at(it, rets[-1][-1]), ok, why, None if ok else trace(st))
                if api in ('encodeIncr', 'decodeIncr') and ks:
                    k = ks[-1]
                    want = {'written': ('s', 64, 'enclen' if k[0] == 'encode' else 'written', k[1]['id'])}
                    if api == 'decodeIncr': want['read'] = ('s', 64, 'read', k[1]['id'])
                    got = {e[2][2]: e for e in st.events if e[0] == 'set' and e[2][1] == 'str'}
                    for key, t in want.items():
                        if key not in got: rep.violation('the %s count is returned' % key, api, 'result has no %r' % key, trace(st)); continue
                        e = got[key]; n += 1
                        ok, why = number_exact(it, st, e[3], t)
                        rep.check('the %s count is returned exactly' % key, at(it, e[-1]), ok, why, None if ok else trace(st))
                if 'num' in r:
                    for e in st.events:
                        if e[0] == 'shift' and e[1]['b'][0] != 'k':
                            ok, why = exponent(it, st, e[1]['b'], r['num'], 1 if api == 'crc32_shift' else 8); n += 1
                            rep.check('the length or shift amount is carried in full', at(it, e[-1]), ok, why, None if ok else trace(st))
    ctx.cover(rep)
    rep.need('the written count is returned exactly', 6); rep.need('the length or shift amount is carried in full', 5); rep.need('a returned Buffer has exactly the written length', 4)

def exponent(it, st, b, argi, mult):
    v = iarg(argi)
    if it.srange(st, v) == (0, 0) : v = K(64, 0)
    got = residue(it, st, b)
    lo, hi = it.srange(st, v)
    want = {v: mult % solve.P32} if not isk(v) else {}
    if got is None:
        if isk(v): got = {}
        else:
            # refute: the exponent as a number
            wit = witness(it, st, lambda env: (lambda x, y: x is not None and y is not None and (x - mult * sgn(64, y)) % solve.P32 != 0)(solve.ev(b, env), solve.ev(v, env)), (b, v))
            if wit is not None: return False, 'the exponent is not %d times the amount modulo 2^32-1 (%s)' % (mult, show(wit))
            return None, 'exponent not understood: %s' % fmt(b)
    g = {}
    for a, c in got.items():
        if isinstance(a, tuple) and a[0] == 'unsigned': a = a[1]
        g[a] = (g.get(a, 0) + c) % solve.P32
    if g == want: return True, ''
    wit = witness(it, st, lambda env: (lambda x, y: x is not None and y is not None and (x - mult * sgn(64, y)) % solve.P32 != 0)(solve.ev(b, env), solve.ev(v, env)), (b, v))
    if wit is not None: return False, 'the exponent is not %d times the amount modulo 2^32-1 (%s)' % (mult, show(wit))
    return None, 'exponent is %s' % (g,)

# ---------------------------------------------------------------- C07: CRC roles
def be(i): return mk_cat([('s', 8, 'byte', ('bdata', argh(i)), k) for k in (3, 2, 1, 0)])
def c07(rep):
    ctx = Ctx(); n = 0
    ONE = K(32, 0x80000000)
    def prod(t):
        """(sorted factors, [exponents]) of a product of field elements; None if t is not one"""
        if t == ONE: return [], []
        if t[0] == 's' and t[2] == 'kshift':
            p = prod(t[3]); return p[0], p[1] + [t[4]]
        if t[0] == 's' and t[2] == 'kmul':
            p, q = prod(t[3]), prod(t[4]); return p[0] + q[0], p[1] + q[1]
        return [t], []
    def xors(t):
        if t[0] == 'xor': return xors(t[2]) + xors(t[3])
        if t[0] == 'lin' and t[2] == M(32) and len(t[3]) == 1 and t[3][0][1] == M(32): return xors(t[3][0][0]) + [K(32, M(32))]
        return [t]
    def xnorm(t):
        c = 0; d = {}
        for x in xors(t):
            if isk(x): c ^= x[2]
            else: d[x] = d.get(x, 0) ^ 1
        return c, sorted([x for x in d if d[x]], key=repr)
    cases = []
    for api, r in ROLES.items():
        if r['kind'] != 'crc': continue
        signs = [('nonnegative', 0, (1 << 63) - 1), ('negative', -(1 << 63), -1)] if api in ('crc32_zeroes', 'crc32_shift') else [('', 0, (1 << 63) - 1)]
        for optc in ((False, True) if 'opt_crc' in r else (None,)):
            for sname, lo, hi in signs: cases.append((api, r, optc, sname, lo, hi))
    for api, r, optc, sname, lo, hi in cases:
        req = [(r['data'], None)] if 'data' in r else []
        req += [(i, 4) for i in r.get('crc', ())]
        argc = max([i for i, _ in req] + [r.get('num', -1)]) + 1
        if optc: req.append((r['opt_crc'], 4)); argc = max(argc, r['opt_crc'] + 1)
        def setup(it, st):
            for i, l in req:
                set_type(st, argh(i), 'Buffer', True)
                it.ranges[blen(argh(i))] = (l, l) if l else (0, BIG)
            if 'num' in r: set_type(st, argh(r['num']), 'Number', True); it.ranges[iarg(r['num'])] = (lo, hi)
            return it.assume(st, cmp_('eq', ARGC, K(32, argc)), True)
        fin, it, m = ctx.run(api, None, setup)
        cell = '%s(%s%s)' % (api, sname + ' amount' if sname else '', '' if optc is None else ', with CRC' if optc else ', without CRC')
        done = 0
        for st in fin:
            if st.dead: continue
            if thrown(st):
                ok = False if witness(it, st, lambda env: True) is not None else None
                rep.check('a valid call is not refused', cell, ok, 'throws', trace(st)); continue
            rets = [e for e in st.events if e[0] == 'ret']
            if not rets:
                rep.check('a CRC Buffer is returned', cell, False if witness(it, st, lambda env: True) is not None else None, 'nothing is returned', trace(st)); continue
            h = rets[-1][1]
            w = at(it, rets[-1][-1])
            made = [e for e in st.events if e[0] in ('newbuf', 'extbuf', 'copybuf') and e[1] == h]
            if not made:
                rep.check('a CRC Buffer is returned', cell, False if h[1] in ('arg', 'undef', 'num') else None, 'the returned value is not a new Buffer', trace(st)); continue
            ln = st.tags.get(('blen', h))
            rep.check('the result is a new 4-byte Buffer', cell, ln == K(64, 4), 'length %s' % fmt(ln), None)
            mem = ('bdata', h)
            if made[-1][0] == 'newbuf': src = ('ptr', mem, K(64, 0))
            else: src = made[-1][2]
            bs = []
            for i in range(4):
                hook, it.on_load = it.on_load, None
                v = it.load(st, ('ptr', src[1], add(src[2], K(64, i))), 1, 'i8')
                it.on_load = hook
                bs.append(v)
            if any(b[0] == 'undef' or (b[0] == 's' and b[2] == 'mem') for b in bs):
                # bytes written into the new Buffer's memory directly
                rep.violation('all four result bytes are set', cell, 'a result byte is never written', trace(st)); continue
            rep.check('all four result bytes are set', cell, True)
            # locate the value whose big-endian bytes these are
            init = (be(r['opt_crc']) if optc else (ONE if api == 'crc32_shift' else K(32, 0))) if 'opt_crc' in r else None
            sk = {k: [e for e in st.events if e[0] == k] for k in ('crc', 'shift', 'mul')}
            num = iarg(r['num']) if 'num' in r else None
            def bytes_be(t): return [byte_of(t, 3 - i) for i in range(4)]
            cand = None
            syms = [('s', 32, 'kshift', e[1]['a'], e[1]['b']) for e in sk['shift']] + [('s', 32, 'kmul', e[1]['a'], e[1]['b']) for e in sk['mul']] + [('s', 32, 'kcrc', e[1]['src'], e[1]['n'], e[1]['init']) for e in sk['crc']]
            if not syms:
                # no kernel: only acceptable when the amount is known to be nothing
                rep.check('the CRC kernel is used', cell, False if witness(it, st, lambda env: True) is not None else None, 'no CRC operation on this path', trace(st)); continue
            done += 1
            res = syms[-1]
            ok = why = None
            if api == 'crc32':
                want = ('s', 32, 'kcrc', ('ptr', ('bdata', argh(0)), K(64, 0)), blen(argh(0)), init)
                ok = bs == bytes_be(want); why = describe(bs, want)
            elif api == 'crc32_multiply':
                f = None
                for t in syms:
                    if bs == bytes_be(t): f = prod(t)
                ok = f is not None and sorted(f[0], key=repr) == sorted([be(0), be(1)], key=repr) and not f[1]
                why = 'the result is not the product of the two arguments'
            elif api == 'crc32_shift':
                f = None
                for t in syms:
                    if bs == bytes_be(t): f = prod(t)
                ok = f is not None and f[0] == ([be(r['opt_crc'])] if optc else []) and len(f[1]) == 1
                why = 'the result is not the starting CRC (default 80000000) shifted once'
                if ok:
                    ok, why = exponent(it, st, f[1][0], r['num'], 1)
            elif api == 'crc32_combine':
                ok = False; why = 'the result is not (first CRC shifted by the length) xor second CRC'
                for t in syms:
                    if bs == bytes_be(binop('xor', t, be(1))):
                        f = prod(t)
                        if f[0] == [be(0)] and len(f[1]) == 1: ok, why = exponent(it, st, f[1][0], r['num'], 8)
            elif api == 'crc32_zeroes':
                ok = False; why = 'the result is not the complement of the complemented CRC shifted by the length'
                for t in syms:
                    if bs == bytes_be(sub(K(32, M(32)), t)):
                        f = prod(t)
                        a = sub(K(32, M(32)), init)
                        if f[0] == ([a] if a != ONE else []) and len(f[1]) == 1: ok, why = exponent(it, st, f[1][0], r['num'], 8)
            if ok is False and 'exponent' not in why and witness(it, st, lambda env: True) is None: ok = None
            rep.check('each argument has its documented role', cell, ok, why, None if ok else trace(st))
        if not done and not any(v['where'] == cell for v in rep.viol): raise AnalysisError('no CRC operation reached for ' + cell)
    rep.cover['cells'] = len(cases)
    ctx.cover(rep)
    rep.need('each argument has its documented role', 12)
def describe(bs, want):
    return 'result bytes %s, expected the big-endian bytes of the CRC of argument 0 with the starting value' % ([fmt(b) for b in bs],)

CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07}
