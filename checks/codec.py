"""C12 portable decoder, C13 vector hand-over, C14 portable encoder: products with the specification."""
import re, concurrent.futures as cf
import ir, trans
from ir import AnalysisError, REPO, where
from trans import Fork, Machine, Undecided, Violation, ev, deps, vals, only, FULL, show

CR, LF, EQC, DOT, YC = 13, 10, 61, 46, 121
ENUM = {'CRLF': 0, 'EQ': 1, 'CR': 2, 'NONE': 3, 'CRLFDT': 4, 'CRLFDTCR': 5, 'CRLFEQ': 6}
NAME = {v: k for k, v in ENUM.items()}
MODES = {'clean': (False, False), 'raw': (True, False), 'end': (True, True)}
START = {'clean': ('NONE', 'CRLF', 'CR', 'EQ'), 'raw': ('CRLF', 'EQ', 'CR', 'NONE'), 'end': tuple(ENUM)}

# ---------------------------------------------------------------- specification of decoding
def spec(mode, q, b):
    """(next state, None | number to subtract); the next state may be ('end', code)"""
    raw, end = MODES[mode]
    if q == 'CRLFEQ':
        if b == YC: return ('end', 1), None
        q = 'EQ'
    if q == 'EQ':
        return ('CR' if raw and b == CR else 'NONE'), 106
    if not raw:
        if b in (CR, LF): return 'NONE', None
        if b == EQC: return 'EQ', None
        return 'NONE', 42
    if q == 'CRLFDTCR':
        if b == LF: return ('end', 2), None
        q = 'NONE'
    if q == 'CRLFDT':
        if b == CR: return 'CRLFDTCR', None
        if b == EQC: return 'CRLFEQ', None
        q = 'NONE'
    if q == 'CRLF':
        if b == DOT: return ('CRLFDT' if end else 'NONE'), None
        if b == EQC: return ('CRLFEQ' if end else 'EQ'), None
        q = 'NONE'
    if q == 'CR':
        if b == LF: return 'CRLF', None
        q = 'NONE'
    if b == CR: return 'CR', None
    if b == LF: return 'NONE', None
    if b == EQC: return 'EQ', None
    return 'NONE', 42

_cls = {}
def classes(mode, q):
    """byte sets the specification treats alike in state q: [(set, next, subtract)]"""
    r = _cls.get((mode, q))
    if r is None:
        g = {}
        for b in range(256):
            k = spec(mode, q, b); g[k] = g.get(k, 0) | 1 << b
        r = _cls[(mode, q)] = [(m, k[0], k[1]) for k, m in g.items()]
    return r

class Dec(Machine):
    inplace = False              # the output is the input's own memory: no byte may be read after it was written over
    def __init__(self, mods, mode): Machine.__init__(self, mods); self.mode = mode
    def move(self, cfg, s, o):
        Machine.move(self, cfg, s, o)
        if self.inplace:
            cfg.lag = min(cfg.lag + s - o, 8); cfg.over = max(cfg.over - s, -8)
            if cfg.lag < 0: raise Undecided('the output passes the input')
    def output(self, cfg, k, v, n, i):
        if self.inplace: cfg.over = max(cfg.over, k - cfg.lag + n); cfg.overat = where(i)
        Machine.output(self, cfg, k, v, n, i)
    def inside(self, cfg, j, i):
        Machine.inside(self, cfg, j, i)
        if self.inplace and j < cfg.over: raise Violation('reads an input byte that output may already have overwritten (written at %s)' % cfg.overat, where(i))
    def extra(self, cfg): return (cfg.lag, cfg.over)
    def consume(self, cfg, j):
        if isinstance(cfg.q, tuple): raise Violation('goes on after the %s' % ('control line' if cfg.q[1] == 1 else 'end of the article'))
        cl = [c for c in classes(self.mode, cfg.q) if c[0] & self.bset(cfg, j)]
        if len(cl) > 1: self.split(cfg, j, [c[0] & self.bset(cfg, j) for c in cl])
        _, nq, sub = cl[0]
        if sub is not None: cfg.specout = cfg.specout + ((j, sub),)
        cfg.q = nq; cfg.sp = j + 1
    def same(self, cfg, p, q, s):
        j, sub = q; js = j + s
        if p[0] == 'c':
            e = ('k', p[1], 8)
        else: e = p[1]
        ds = sorted(deps(e) | {j})
        if len(ds) > 2: raise Undecided('an output byte depends on %d input bytes' % len(ds))
        def rec(k, asg):
            if k == len(ds):
                if ev(e, asg) & 255 != (asg[j] - sub) & 255:
                    raise Violation('decodes 0x%02x as 0x%02x, not 0x%02x' % (asg[j], ev(e, asg) & 255, (asg[j] - sub) & 255))
                return
            for v in vals(self.bset(cfg, ds[k] + s)): rec(k + 1, {**asg, ds[k]: v})
        rec(0, {})
    def finish(self, cfg, pos, outpos, code, state):
        """compare a finished call with the specification"""
        if pos is None or pos[0] != 'P' or pos[1] != 'src' or any(pos[2][1:-1]): raise Undecided('source position at return')
        l = pos[2]; c, w = cfg.R
        if l[0] and w: self.cmp0(cfg, l)
        p = l[0] * c + l[-1] if not l[0] or not w else None
        if p is None: raise Undecided('source position at return')
        if w: self.cmp0(cfg, (1,) + (0,) * (self.NS - 1) + (-p,))      # is this the end of the input?
        if p > cfg.R[0]: raise Violation('the source position returned lies behind the end of the input')
        if p < cfg.sp and cfg.sp > 0: raise Violation('the source position returned lies before bytes already decoded')
        for j in range(cfg.sp, p): self.consume(cfg, j)
        if code != (cfg.q[1] if isinstance(cfg.q, tuple) else 0):
            raise Violation('reports end %d where the data says %s' % (code, cfg.q if isinstance(cfg.q, str) else 'end %d' % cfg.q[1]))
        if code == 0 and p != cfg.R[0]: raise Violation('returns without an end before all the input is decoded')
        if outpos is None or outpos[0] != 'P' or outpos[1] != 'dst' or any(outpos[2][:-1]): raise Undecided('output position at return')
        o = outpos[2][-1]
        if o < 0: raise Violation('the output position returned is too small')
        pend = list(cfg.pend)
        for k in range(o):
            if k not in cfg.out: raise Violation('an output byte is skipped')
            pend.append(cfg.out[k])
        so = list(cfg.specout)
        while pend and so: self.same(cfg, pend.pop(0), so.pop(0), 0)
        if pend: raise Violation('%d output byte(s) too many' % len(pend))
        if so: raise Violation('%d output byte(s) missing' % len(so))
        if state is not None:
            want = {1: 'NONE', 2: 'CRLF'}[code] if code else cfg.q
            if state[0] == 'E': state = ('c', self.decide(cfg, state[1]), 32)
            if state[0] != 'c': raise Undecided('state at return')
            got = NAME.get(state[1], '%d' % state[1])
            if not self.samestate(got, want): raise Violation('leaves state %s, the data so far means %s' % (got, want))
    def samestate(self, got, want):
        if self.mode == 'clean': return (got == 'EQ') == (want == 'EQ') and got in ENUM
        return got == want
    def final(self, cfg, rv):
        if rv is None: raise Undecided('no return value')
        if rv[0] == 'E': rv = ('c', self.decide(cfg, rv[1]), 32)
        if rv[0] != 'c': raise Undecided('return value')
        self.finish(cfg, cfg.mem.get(('psrc', 0)), cfg.mem.get(('pdst', 0)), rv[1], cfg.mem.get(('state', 0)) if cfg.state else None)
    def back(self, cfg): return 0
    def initial(self, q, R=(0, 1)):
        z = (0,) * (self.NS + 1)
        raw = MODES[self.mode][0]
        cfg = self.newcfg(R, q if q else 'CRLF' if raw else 'NONE')
        if self.mode == 'clean' and cfg.q != 'EQ': cfg.q = 'NONE'
        cfg.mem[('psrc', 0)] = ('P', 'src', z); cfg.mem[('pdst', 0)] = ('P', 'dst', z); cfg.state = bool(q); cfg.lag = 0; cfg.over = -8; cfg.overat = ''
        if q: cfg.mem[('state', 0)] = ('c', ENUM[q], 32)
        args = [('P', 'psrc', z), ('P', 'pdst', z), ('L', (1,) + (0,) * self.NS, 64), ('P', 'state' if q else 'null', z)]
        return cfg, args

def describe(m, cfg):
    if cfg is None: return ''
    c, w = cfg.R
    by = {j: s for j, s in cfg.bytes.items()}
    lo = min([j for j in by] + [0]); hi = max([j for j in by] + [cfg.sp - 1, -1])
    s = ' '.join(show(by.get(j, FULL)) if j < c or w else '|' for j in range(lo, hi + 1))
    return 'next bytes [%s] (from offset %d), %s, specification state %s' % (s, lo, '%d bytes left' % c if not w else 'at least %d bytes left' % c, cfg.q)

def product(m, fn, q):
    """('ok', stats) | ('bad', why, where) | ('open', why, where)"""
    cfg, args = m.initial(q)
    try:
        m.start(fn, args, cfg)
    except Violation as e:
        return 'bad', '%s; %s' % (e.args[0], describe(m, getattr(e, 'cfg', None))), e.at
    except Undecided as e:
        return 'open', '%s; %s' % (e.args[0], describe(m, getattr(e, 'cfg', None))), getattr(e, 'at', None)
    if not m.finals: raise AnalysisError('no path returns')
    return 'ok', '%d configurations, %d returns' % (len(m.seen), m.finals), None

PTRS = {'_do_decode': 'clean', '_do_decode_raw': 'raw', '_do_decode_end_raw': 'end'}
def portable(mod):
    """{function symbol: mode}: the portable decoders of decoder.cc"""
    res = {}
    for n, g in mod.globals.items():
        for p, mode in PTRS.items():
            if re.search(r'(^|::)%s$' % p, g['dem']) and g.get('init') is not None:
                if g['init'][0] != 'g': raise AnalysisError('%s has no portable initial value' % p)
                res[g['init'][1]] = mode
    if len(set(res.values())) != 3: raise AnalysisError('portable decoders not found')
    for n, f in mod.defined().items():
        m = re.search(r'do_decode_scalar<(true|false), (true|false)>', f['dem'])
        if m: res[n] = {('false', 'false'): 'clean', ('true', 'false'): 'raw', ('true', 'true'): 'end'}.get(m.groups(), 'clean')
    return res

def c12_job(fn, mode, q, inplace=False):
    m = Dec([ir.load('src/decoder.cc')], mode); m.inplace = inplace
    r = product(m, fn, q)
    return r + (len(m.seen), m.finals, m.steps)

def c12_runs(tot, inplace=False):
    """(function, mode, where, 'ok'|'bad'|'open', text) of every product of a portable decoder"""
    mod = ir.load('src/decoder.cc'); fns = portable(mod); jobs = []
    for fn, mode in sorted(fns.items()):
        for q in START[mode] + (() if mode == 'end' else (None,)): jobs.append((fn, mode, q, inplace))
    tot.update({'portable functions': len(fns), 'portable runs': len(jobs)})
    with cf.ProcessPoolExecutor(8) as ex:
        for (fn, mode, q, _), r in zip(jobs, ex.map(c12_job, *zip(*jobs))):
            for k, n in enumerate(('configurations', 'returns', 'instructions')): tot[n] = tot.get(n, 0) + r[3 + k]
            yield fn, mode, '%s from state %s' % (mod.functions[fn]['dem'].split('(')[0], q or 'none given'), r[0], '%s%s' % (r[1], ' at %s' % r[2] if r[2] else '')

VERD = {'ok': True, 'bad': False, 'open': None}
def c12(rep):
    tot = {}
    for fn, mode, at, v, text in c12_runs(tot): rep.check('same output, end, position and state as the specification (%s)' % mode, at, VERD[v], text)
    rep.cover.update(tot)
    rep.need('same output, end, position and state as the specification (end)', 7)

# ---------------------------------------------------------------- C13: the vector wrappers
def isvec(f):
    r = f.get('_isvec')
    if r is None: r = f['_isvec'] = any('<' in str(i.get('ty', '')) for b in f['blocks'] for i in b)
    return r
LOOK = {'clean': 0, 'raw': 2, 'end': 4}        # bytes after a block that decide how its last bytes are to be read
ALLB = FULL
def no(*v): return FULL & ~only(*v)
# what may follow a block when no end sequence begins in it: (state, escFirst, nextMask, byte sets that follow)
def after(mode):
    out = [('EQ', 1, 0, ()), ('NONE', 0, 0, ())]
    if mode == 'clean': return out
    if mode == 'raw':
        return out + [('CRLF', 0, 1, (only(DOT),)), ('CRLF', 0, 0, (no(DOT),)), ('CR', 0, 2, (only(LF), only(DOT))),
                      ('CR', 0, 0, (no(LF),)), ('CR', 0, 0, (only(LF), no(DOT)))]
    tail = lambda: [(no(CR, EQC),), (only(CR), no(LF)), (only(EQC), no(YC))]        # what may follow CRLF dot
    out += [('CRLF', 0, 1, (only(DOT),) + t) for t in tail()] + [('CRLF', 0, 0, (no(DOT, EQC),)), ('CRLF', 0, 0, (only(EQC), no(YC)))]
    out += [('CR', 0, 2, (only(LF), only(DOT)) + t) for t in tail()]
    out += [('CR', 0, 0, (no(LF),)), ('CR', 0, 0, (only(LF), no(DOT, EQC))), ('CR', 0, 0, (only(LF), only(EQC), no(YC)))]
    out += [('CRLFDT', 0, 0, t) for t in tail()] + [('CRLFDTCR', 0, 0, (no(LF),)), ('CRLFEQ', 1, 0, (no(YC),))]
    return out

class Simd(Dec):
    def __init__(self, mods, mode, scalars):
        Dec.__init__(self, mods, mode); self.scalars = scalars; self.memo = {}; self.stat = {'kernel calls': 0, 'portable calls': 0}
    def exactpos(self, cfg, v, what):
        if v is None or v[0] != 'P' or v[1] != 'src': raise Undecided('%s: not a position in the input' % what)
        if any(v[2][:-1]): raise Undecided('%s: position not known' % what)
        return v[2][-1]
    def flush(self, cfg, n, keep=()):
        """the reference point goes forward by n bytes (None: unknown) and an unknown number of outputs"""
        tn, tm = cfg.tot if cfg.tot is not None else (None, None)
        def conv(v):
            if not v: return v
            if v[0] in ('P', 'A') and v[1] == 'dst' and not any(v[2][:-1]):
                return (v[0], 'dst', (0, 0, -1, v[2][-1] + tm)) if tm is not None else ('u',)
            if n is None:
                if v[0] in ('P', 'A') and v[1] == 'src' and not any(v[2][:-1]):
                    return (v[0], 'src', (0, -1, 0, v[2][-1] + tn)) if tn is not None else ('u',)
                if v[0] == 'L' and v[1][0] and not any(v[1][1:-1]):
                    return ('L', (v[1][0], v[1][0], 0, v[1][-1] - v[1][0] * tn), v[2]) if tn is not None else ('u',)
            return v
        for fr in cfg.frames:
            fr.env = {k: conv(v) for k, v in fr.env.items()}; fr.args = [conv(v) for v in fr.args]
        cfg.mem = {k: conv(v) for k, v in cfg.mem.items()}
        if n is None: cfg.bytes = {}; cfg.tot = None; cfg.align = None
        else:
            al = cfg.align; R = cfg.R
            t = cfg.tot; cfg.tot = None
            sh = lambda v: self.shv(v, n, 0) if v else v
            for fr in cfg.frames:
                fr.env = {k: sh(v) for k, v in fr.env.items()}; fr.args = [sh(v) for v in fr.args]
            cfg.mem = {k: sh(v) for k, v in cfg.mem.items()}
            cfg.bytes = {j - n: m for j, m in cfg.bytes.items() if j >= n}
            cfg.R = (R[0] - n, R[1])
            if al: cfg.align = (al[0], (al[1] + n) % al[0])
            cfg.tot = (t[0] + n, None) if t and t[0] is not None else None
        cfg.sp = 0; cfg.out = {}; cfg.pend = (); cfg.specout = ()
        cfg.lag = 0; cfg.over = 0                    # the output so far ends no later than the input consumed
    def behind(self, cfg, pos):
        if self.inplace and cfg.over > pos: raise Violation('output may already have overwritten input passed on (written at %s)' % cfg.overat)
    def rebase(self, cfg, k):
        """count the consumed bytes from k later on"""
        def f(v):
            if v and v[0] in ('P', 'A', 'L'):
                l = v[1] if v[0] == 'L' else v[2]
                if l[1]:
                    l = l[:-1] + (l[-1] + l[1] * k,)
                    return ('L', l, v[2]) if v[0] == 'L' else (v[0], v[1], l)
            return v
        for fr in cfg.frames:
            fr.env = {a: f(v) for a, v in fr.env.items()}; fr.args = [f(v) for v in fr.args]
        cfg.mem = {a: f(v) for a, v in cfg.mem.items()}
    def known(self, cfg, i, code):
        """has the same configuration, with lengths that include these, been followed before?"""
        for d, fr in enumerate(cfg.frames):
            live = self.live(fr, True)
            fr.env = {k: fr.env[k] for k in live if not isinstance(k, tuple) and k in fr.env}
            fr.args = [v if ('a', k) in live else ('u',) for k, v in enumerate(fr.args)]
        cfg.bytes = {j: b for j, b in cfg.bytes.items() if b != FULL}
        R = cfg.R; cfg.R = None; k = (self.key(cfg), code); cfg.R = R; c2, w2 = R
        l = self.memo.setdefault(k, [])
        for c, w in l:
            if (c2, w2) == (c, w) or (w and w2 % w == 0 and c2 >= c and (c2 - c) % w == 0): return True
        l.append(R); return False
    def cell(self, cfg, v, what):
        if v[0] != 'P' or any(v[2][:-1]) or v[1] == 'null': raise Undecided('%s: not a variable' % what)
        return (v[1], v[2][-1])
    def joint(self, cfg, q, s, sp, limit):
        """the states q (specification) and s (program) from byte sp on: same behaviour until they meet or the bytes end"""
        while q != s and sp < limit:
            b = self.bset(cfg, sp)
            g = {}
            for v in vals(b):
                k = (spec(self.mode, q, v), spec(self.mode, s, v)); g[k] = g.get(k, 0) | 1 << v
            if len(g) > 1: self.split(cfg, sp, list(g.values()))
            (q2, o1), (s2, o2) = next(iter(g))
            if o1 != o2 or isinstance(q2, tuple) != isinstance(s2, tuple) or (isinstance(q2, tuple) and q2 != s2):
                raise Violation('continues in state %s where the data so far means %s, and the byte %s tells them apart' % (s, q, show(b)))
            q, s = q2, s2; sp += 1
            if isinstance(q, tuple): raise Undecided('end while two states are compared')
        return q, s, sp
    def reach(self, q, n):
        S = {q}
        for _ in range(min(n, 8)):
            T = set()
            for x in S:
                if isinstance(x, tuple): continue
                for m, nq, sub in classes(self.mode, x): T.add(nq)
            S = T
        return S
    def summary(self, name, f, o, i, cfg):
        if name in self.scalars: return self.scalar(name, o, i, cfg)
        if f is not None and not f['decl'] and isvec(f): return self.kernel(name, f, o, i, cfg)
        return 'inline'
    def scalar(self, name, o, i, cfg):
        if self.scalars[name] != self.mode: raise Violation('calls the portable decoder of another mode')
        cs, cd = self.cell(cfg, o[0], 'source'), self.cell(cfg, o[1], 'destination')
        pos = self.exactpos(cfg, cfg.mem.get(cs), 'source')
        if pos != cfg.sp: raise Violation('%d bytes skipped or decoded twice' % abs(pos - cfg.sp))
        d = cfg.mem.get(cd)
        if d is None or d[0] != 'P' or d[1] != 'dst': raise Undecided('destination')
        if d[2] != cfg.dpos: raise Violation('the destination is not where the output so far ends')
        self.behind(cfg, pos); n = self.lin(o[2])
        st = None
        if o[3][1] != 'null' :
            cq = self.cell(cfg, o[3], 'state'); st = cfg.mem.get(cq)
            if st is None: raise Undecided('state passed on')
            if st[0] == 'E': st = ('c', self.decide(cfg, st[1]), 32)
            if st[0] != 'c' or st[1] not in NAME: raise Undecided('state passed on')
            s = NAME[st[1]]
        else:
            if self.mode == 'end': raise Violation('no state passed on')
            s = 'CRLF' if self.mode == 'raw' else 'NONE'
        if self.mode == 'clean' and s != 'EQ': s = 'NONE'
        # length: exact or all that is left
        l = self.add(n, (1,) + (0,) * self.NS, -1); l = l[:-1] + (l[-1] + pos,)         # n - (r - pos)
        full = not any(l)
        if not full:
            if any(n[1:-1]): raise Undecided('length passed on')
            if n[0]:
                if cfg.R[1]: self.cmp0(cfg, n)
                if cfg.R[1]: raise Undecided('length passed on')
            N = n[0] * cfg.R[0] + n[-1]
            if N < 0: raise Violation('negative length passed on')
            if self.cmp0(cfg, (1,) + (0,) * (self.NS - 1) + (-pos - N,)) < 0: raise Violation('decodes beyond the end of the input')
            if not cfg.R[1] and N == cfg.R[0] - pos: full = True
        else:
            N = cfg.R[0] - pos if not cfg.R[1] else None
            if N is None: self.cmp0(cfg, (1,) + (0,) * (self.NS - 1) + (-pos,))
            N = cfg.R[0] - pos if not cfg.R[1] else None
        if N == 0: return ('c', 0, 32)
        q, s2, sp = self.joint(cfg, cfg.q, s, pos, pos + N if N is not None else pos + 8)
        mode = getattr(cfg, 'pick', None)
        if q != s2:                                  # all bytes read, still different
            if N is None: raise Undecided('states do not meet')
            opts = [(q, s2, 0)]
        else:
            k = pos + N - sp if N is not None else 9
            S = self.reach(q, k) if k else {q}
            opts = [(x, x, 0) for x in sorted(S, key=str) if not isinstance(x, tuple)]
            ends = set()
            for kk in range(1, min(k, 8) + 1): ends |= {x for x in self.reach(q, kk) if isinstance(x, tuple)}
            opts += [(x, x, x[1]) for x in sorted(ends)]
        if mode is None and len(opts) > 1:
            g = cfg.copy(); self.flush(g, pos + N if N is not None else None)
            if N is None: g.R = (0, 0)
            for x in (cs, cd) + ((cq,) if st is not None else ()): g.mem.pop(x, None)
            if g.tot is not None: self.rebase(g, g.tot[0]); g.tot = (0, None)
            g.q = g.dpos = None; self.stat['portable calls'] += 1
            if self.known(g, i, tuple(opts)): return 'dead'
            def pick(k):
                def m(g): g.pick = k
                return m
            raise Fork([pick(k) for k in range(len(opts))])
        cfg.pick = None
        qq, ss, code = opts[mode or 0]
        if code: self.flush(cfg, None); cfg.R = (0, 1)
        elif N is not None: self.flush(cfg, pos + N)
        else: self.flush(cfg, None); cfg.R = (0, 0)
        z = (0,) * (self.NS + 1)
        cfg.mem[cs] = ('P', 'src', z); cfg.mem[cd] = ('P', 'dst', z); cfg.dpos = z; cfg.q = qq
        if st is not None:
            if code: ss = {1: 'NONE', 2: 'CRLF'}[code]
            cfg.mem[cq] = ('c', ENUM[ss], 32)
        cfg.ended = code
        if cfg.tot is not None and cfg.tot[0] is not None: self.rebase(cfg, cfg.tot[0]); cfg.tot = (0, None)
        if cfg.align and N is not None: cfg.align = None if cfg.align[0] == 1 else cfg.align
        return 'dead' if self.known(cfg, i, code) else ('c', code, 32)
    def kernel(self, name, f, o, i, cfg):
        if len(o) != 5 or o[0][0] != 'P': raise Undecided('kernel called in an unknown way')
        if cfg.ended: raise Violation('goes on after the end')
        cl, cp, ce, cn = [self.cell(cfg, x, 'kernel argument') for x in o[1:]]
        L = cfg.mem.get(cl)
        if L is None: raise Undecided('kernel length')
        L = self.lin(L)
        if any(L[1:-1]): raise Undecided('kernel length')
        end = o[0]
        if end[1] != 'src' or any(end[2][1:-1]): raise Undecided('kernel source')
        W = self.width
        cur = self.add(end[2], L, -1)
        if cur[0]: raise Violation('the end given to the kernel does not go with its length')
        if cur[-1] != cfg.sp: raise Violation('the kernel starts %d byte(s) away from where decoding got to' % (cur[-1] - cfg.sp))
        p = cfg.mem.get(cp)
        if p is None or p[0] != 'P' or p[1] != 'dst' or p[2] != cfg.dpos: raise Violation('the kernel is not given the end of the output so far')
        if self.addrmod(cfg, cur, self.kalign): raise Violation('the kernel is given a source not aligned to %d bytes' % self.kalign)
        if self.cmp0(cfg, L) < 0: raise Violation('negative kernel length')
        c, w = cfg.R
        if (L[0] * c + L[-1]) % W or (L[0] * w) % W:
            if w: self.floor(cfg, L, W, 64)          # splits the residues
            raise Violation('the kernel length is not a multiple of %d' % W)
        rest = self.add((1,) + (0,) * self.NS, end[2], -1)        # r - end
        if rest[0] and w: raise Undecided('what is left after the kernel')
        left = rest[0] * c + rest[-1]
        if left < LOOK[self.mode]: raise Violation('only %d byte(s) are kept back, the kernel needs %d to see what follows its last bytes' % (left, LOOK[self.mode]))
        esc, nm = cfg.mem.get(ce), cfg.mem.get(cn)
        v = []
        for x in (esc, nm):
            if x is None: raise Undecided('kernel argument not set')
            if x[0] == 'E': x = ('c', self.decide(cfg, x[1]), 8)
            if x[0] != 'c': raise Undecided('kernel argument')
            v.append(x[1])
        esc, nm = v
        pos = cfg.sp; self.behind(cfg, pos)
        if esc not in (0, 1) or nm not in (0, 1, 2): raise Violation('kernel called with escFirst %d, nextMask %d' % (esc, nm))
        if esc and nm: raise Violation('kernel called with both an escape and a dot pending')
        raw, _ = MODES[self.mode]
        def isb(j, x):
            b = self.bset(cfg, j)
            if b & only(x) and b & ~only(x): self.split(cfg, j, [b & only(x), b & ~only(x)])
            return bool(b & only(x))
        s = 'EQ' if esc else 'NONE'
        pre = None
        if nm and raw:
            if nm == 1 and not isb(pos, DOT): raise Violation('nextMask 1 though no dot follows')
            if nm == 2 and not isb(pos + 1, DOT): raise Violation('nextMask 2 though no dot is second')
            if nm == 1: s = 'CRLF'
            else:
                if not isb(pos, LF): raise Violation('nextMask 2 though no line feed follows')
                s = 'CR'
        # the kernel knows no end that began before it
        m = self.mode
        q, s1 = cfg.q, s; sp = pos
        if not (q == s and q in ('NONE', 'EQ')):
            q, s1, sp = self.kjoint(cfg, q, s, pos)
        mode = getattr(cfg, 'pick', None)
        opts = []
        n0 = cfg.tot[0] if cfg.tot is not None else None
        if n0 is None: raise Undecided('position before the kernel')
        if any(L):
            g = cfg.copy(); self.flush(g, None); self.rebase(g, n0 + pos)
            for x in (cl, cp, ce, cn): g.mem.pop(x, None)
            g.R = (left, w) if m == 'end' else (left, 0); g.q = g.dpos = None
            tot = 0 if w or m != 'end' else (L[0] * c + L[-1]) // W - 1
            if mode is not None or not self.known(g, i, ('kernel', tot)):
                opts += [('block',) + a + (k,) for k in range(tot + 1) for a in after(m)]
            if mode is None: self.stat['kernel calls'] += 1
        if mode is not None or m == 'end' or not any(L): opts.append(('none', cfg.q, esc, nm, (), 0))
        if not opts: return 'dead'
        if mode is None and len(opts) > 1:
            def pick(k):
                def f(g): g.pick = k
                return f
            raise Fork([pick(k) for k in range(len(opts))])
        cfg.pick = None
        how, nq, e2, n2, fol, kk = opts[mode or 0]
        z = (0,) * (self.NS + 1)
        if how == 'none':
            cfg.mem[cl] = ('c', 0, 64)
        else:
            self.flush(cfg, None); self.rebase(cfg, n0 + pos)
            cfg.mem[cl] = ('L', (0, 1, 0, 0), 64)
            cfg.R = (left + W * kk, w if m == 'end' else 0)
            cfg.mem[cp] = ('P', 'dst', z); cfg.dpos = z; cfg.q = nq
            for j, b in enumerate(fol): cfg.bytes[j] = b
        cfg.mem[ce] = ('c', e2, 8); cfg.mem[cn] = ('c', n2, 16)
        return 'dead' if how != 'none' and self.known(cfg, i, 0) else None
    def kjoint(self, cfg, q, s, sp):
        """specification state q against the state the kernel starts in: no end may complete that began before"""
        n = 0; fresh = False
        while n < 6:
            if q == s and (q in ('NONE', 'EQ') or self.mode != 'end' or fresh): break
            b = self.bset(cfg, sp); g = {}
            for v in vals(b):
                k = (spec(self.mode, q, v), spec(self.mode, s, v)); g[k] = g.get(k, 0) | 1 << v
            if len(g) > 1: self.split(cfg, sp, list(g.values()))
            (q2, o1), (s2, o2) = next(iter(g))
            if isinstance(q2, tuple) and q2 != s2: raise Violation('an end that began before the kernel is completed in its data (state %s, the kernel starts as %s)' % (q, s))
            if o1 != o2 or isinstance(s2, tuple) != isinstance(q2, tuple):
                raise Violation('the kernel starts as if in state %s where the data so far means %s, and the byte %s tells them apart' % (s, q, show(b)))
            if isinstance(q2, tuple): raise Violation('an end that began before the kernel is completed in its data')
            q, s = q2, s2; sp += 1; n += 1; fresh = q == 'CR'      # a sequence that begins in the kernel's own data
        if q != s: raise Undecided('kernel start state')
        return q, s, sp
    def extra(self, cfg): return (cfg.dpos, cfg.ended, cfg.lag, cfg.over)
    def consume(self, cfg, j):
        Dec.consume(self, cfg, j)
        if cfg.specout: raise Violation('bytes passed over without decoding them')
    def initial(self, q, R=(0, 1)):
        cfg, args = Dec.initial(self, q, R); cfg.dpos = (0,) * (self.NS + 1); cfg.ended = 0; cfg.pick = None
        return cfg, args
    def final(self, cfg, rv):
        if rv is None: raise Undecided('no return value')
        if rv[0] != 'c': raise Undecided('return value')
        src, dst = cfg.mem.get(('psrc', 0)), cfg.mem.get(('pdst', 0))
        if cfg.ended:
            if rv[1] != cfg.ended: raise Violation('returns %d where the end %d was found' % (rv[1], cfg.ended))
            z = (0,) * (self.NS + 1)
            if src != ('P', 'src', z) or dst != ('P', 'dst', z): raise Violation('does not return the positions of the end')
            st = cfg.mem.get(('state', 0)) if cfg.state else None
            want = {1: 'NONE', 2: 'CRLF'}[cfg.ended]
            if cfg.state and st != ('c', ENUM[want], 32): raise Violation('does not return the state after the end')
            return
        if dst is None or dst[0] != 'P' or dst[1] != 'dst': raise Undecided('destination at return')
        if dst[2] != cfg.dpos: raise Violation('the destination returned is not the end of the output')
        l = src[2] if src and src[0] == 'P' and src[1] == 'src' else None
        if l is None or any(l[1:-1]): raise Undecided('source position at return')
        # only bytes without output may be left for the wrapper itself
        save = cfg.mem; cfg2 = cfg; cfg.out = {}; cfg.pend = ()
        o = cfg.mem[('pdst', 0)]
        cfg.mem = dict(cfg.mem); self.finish(cfg, src, ('P', 'dst', (0,) * (self.NS + 1)), rv[1], cfg.mem.get(('state', 0)) if cfg.state else None)

def kernelinfo(f):
    """(bytes per round, alignment of its loads) of a kernel, from its loop and its loads"""
    steps = set(); B = f['blocks']; al = 1
    defs = {i['id']: i for b in B for i in b}
    for b in B:
        for i in b:
            if i['op'] == 'load' and '<' in i['ty']: al = max(al, i['align'])
            if i['op'] == 'phi' and i['ty'] == 'i64':
                for _, o in i['in']:
                    d = defs.get(o[1]) if o[0] == 'v' else None
                    if d and d['op'] == 'add' and d['ops'][0] == ['v', i['id']] and d['ops'][1][0] == 'c': steps.add(d['ops'][1][1])
    return steps, al

SET = re.compile(r'decoder_set_\w+_funcs')
def installed():
    """{(unit, symbol): mode}: every decoder a set_funcs function stores into the dispatch pointers"""
    srcs = [s for s in ir.units() if re.match(r'src/decoder_\w+\.cc$', s)]
    ms = ir.load_many(srcs); res = {}
    for s in srcs:
        for n, f in ms[s].defined().items():
            for b in f['blocks']:
                for i in b:
                    if i['op'] != 'store' or i['ops'][1][0] != 'g': continue
                    g = ms[s].globals.get(i['ops'][1][1])
                    for p, mode in PTRS.items():
                        if g and re.search(r'(^|::)%s$' % p, g['dem']):
                            if i['ops'][0][0] != 'g': raise AnalysisError('computed decoder at %s' % ir.where(i))
                            res.setdefault((s, i['ops'][0][1]), set()).add(mode)
    return ms, res

def canon(m, fn, scalars):
    """text of the wrapper and what it calls, kernels by their parameters only: equal texts behave alike"""
    import json
    done = {}; kern = set()
    def go(n):
        if n in done: return done[n]
        f = m.functions.get(n)
        if n in scalars: done[n] = 'portable ' + scalars[n]; return done[n]
        if f is None or f['decl']: done[n] = 'extern ' + n; return done[n]
        if isvec(f):
            # loads of the vector helpers are found through calls
            steps, al = kernelinfo(f)
            for x in calls(m, f): al = max(al, kernelinfo(m.functions[x])[1])
            done[n] = 'kernel %s %d' % (sorted(steps), al); kern.add((n, tuple(sorted(steps)), al)); return done[n]
        done[n] = 'rec'
        def sub(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'g': return ['g', go(x[1]) if x[1] in m.functions else x[1]]
                return [sub(y) for y in x]
            if isinstance(x, dict): return {k: sub(v) for k, v in x.items() if k not in ('loc',)}
            return x
        done[n] = json.dumps([[sub(i) for i in b] for b in f['blocks']], sort_keys=True)
        return done[n]
    return go(fn), kern
def calls(m, f):
    out = set()
    for b in f['blocks']:
        for i in b:
            if i['op'] == 'call' and i['callee'][0] == 'g':
                g = m.functions.get(i['callee'][1])
                if g and not g['decl']: out.add(i['callee'][1])
    return out

def c13_job(src, fn, mode, q, W, al, inplace=False):
    sc = portable(ir.load('src/decoder.cc'))
    m = Simd([ir.load(src)], mode, sc); m.width = W; m.kalign = al; m.inplace = inplace
    r = product(m, fn, q)
    return r + (m.count, m.finals, m.steps, m.stat)

def c13_runs(rep, tot, inplace=False):
    """(mode, where, 'ok'|'bad'|'open', text) of every product of an installed wrapper"""
    sc = portable(ir.load('src/decoder.cc')); ms, inst = installed(); groups = {}
    for (s, fn), modes in sorted(inst.items()):
        if fn in sc: continue
        m = ms[s]; txt, kern = canon(m, fn, sc); name = m.functions[fn]['dem']
        short = '%s: %s' % (s, re.sub(r'\(unsigned char const\*\*.*', '', name)[-120:])
        if len(kern) != 1:
            rep.check('one kernel per wrapper', short, None, '%d kernels found' % len(kern)); continue
        k, steps, al = next(iter(kern))
        if len(steps) != 1:
            rep.check('one kernel per wrapper', short, None, 'kernel loop steps %s' % (steps,)); continue
        rep.check('one kernel per wrapper', short, True, '%d bytes per round, loads aligned to %d' % (steps[0], al))
        for mode in modes: groups.setdefault((txt, mode, steps[0], al), []).append((s, fn, short))
    jobs = []
    for (txt, mode, W, al), l in groups.items():
        for q in START[mode] + (() if mode == 'end' else (None,)): jobs.append((l[0][0], l[0][1], mode, q, W, al, inplace, l))
    tot.update({'wrappers': sum(len(l) for l in groups.values()), 'different wrappers': len(groups), 'wrapper runs': len(jobs)})
    with cf.ProcessPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(c13_job, *zip(*[j[:7] for j in jobs]))):
            for s, fn, short in j[7]: yield j[2], '%s from state %s' % (short, j[3] or 'none given'), r[0], '%s%s' % (r[1], ' at %s' % r[2] if r[2] else '')
            for k, n in enumerate(('configurations', 'returns', 'instructions')): tot[n] = tot.get(n, 0) + r[3 + k]
            for k in r[6]: tot[k] = tot.get(k, 0) + r[6][k]

def c13(rep):
    tot = {}
    for mode, at, v, text in c13_runs(rep, tot): rep.check('same result as the portable decoder (%s)' % mode, at, VERD[v], text)
    rep.cover.update(tot)
    rep.need('same result as the portable decoder (end)', 7)
