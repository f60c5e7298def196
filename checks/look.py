"""C26, C27: where the vector decode kernels read and write.

A kernel is given the end S of its source, its length N*W (N >= 1 rounds of W bytes, which is what the wrappers are
shown to pass) and the destination.  Every address is an affine form over S, N, the round number k of a loop and the
destination at the start of the round (H), plus an interval; every load, store and masked store is one obligation.
"""
import re, concurrent.futures as cf
import ir
from ir import AnalysisError, where

class V:
    """affine: c {atom: coefficient} plus lo..hi; bits: possible bits of a plain number; weak: lo..hi is only what the
    type of a loaded number allows, so its ends need not be reached"""
    __slots__ = ('c', 'lo', 'hi', 'bits', 'cell', 'weak')
    def __init__(self, c=None, lo=None, hi=None, bits=None, cell=None, weak=False):
        self.c = c or {}; self.lo = lo; self.hi = hi; self.bits = bits; self.cell = cell; self.weak = weak
    def known(self): return self.lo is not None and self.hi is not None
    def exact(self): return self.lo is not None and self.lo == self.hi
    def taint(self): return 'S' in self.c or 'H' in self.c
    def key(self): return (frozenset(self.c.items()), self.lo, self.hi, self.bits, self.cell, self.weak)
def K(n): return V({}, n, n, n if n >= 0 else None)
TOP = V()
def top(*vs):
    c = {}
    for v in vs:
        for a in v.c: c[a] = None
    return V(c)
def isaff(v): return v.known() and None not in v.c.values()
def add(a, b, s=1):
    if a.cell is not None or b.cell is not None: return TOP
    if not isaff(a) or not isaff(b):
        return top(a, b)
    c = dict(a.c)
    for k, x in b.c.items():
        c[k] = c.get(k, 0) + s * x
        if not c[k]: del c[k]
    l, h = (b.lo, b.hi) if s > 0 else (-b.hi, -b.lo)
    return V(c, a.lo + l, a.hi + h)
def scale(a, n):
    if n == 0: return K(0)
    if not isaff(a): return top(a)
    l, h = a.lo * n, a.hi * n
    return V({k: x * n for k, x in a.c.items()}, min(l, h), max(l, h))
def join(a, b):
    if a is None: return b
    if b is None or a.key() == b.key(): return a
    r = join_(a, b)
    if (a.weak or b.weak) and not r.weak: r = V(r.c, r.lo, r.hi, r.bits, r.cell, True)
    return r
def join_(a, b):
    if a.cell is not None or b.cell is not None: return TOP if a.cell != b.cell else a
    bits = a.bits | b.bits if a.bits is not None and b.bits is not None else None
    if isaff(a) and isaff(b) and a.c == b.c: return V(a.c, min(a.lo, b.lo), max(a.hi, b.hi), bits)
    r = top(a, b); r.bits = bits if not r.c else None
    if r.bits is not None: r.lo, r.hi = 0, r.bits
    return r
def pbits(v, w):
    """bits that can be set in the plain number v of w bits"""
    if v.c or v.cell is not None: return None
    if v.bits is not None: return v.bits & ((1 << w) - 1)
    if v.known() and v.lo >= 0: return min((1 << v.hi.bit_length()) - 1, (1 << w) - 1)
    return (1 << w) - 1
def num(b, lo=None, hi=None): return V({}, 0 if lo is None else lo, b if hi is None else min(hi, b), b)

class Open(Exception): pass

def width(ty):
    m = re.match(r'i(\d+)$', ty); return int(m.group(1)) if m else 64

class Kernel:
    def __init__(self, mod, fn, W, look, align, tables):
        self.m = mod; self.fn = fn; self.W = W; self.look = look; self.al = align; self.tables = tables
        self.E = {(): 0}; self.obl = []; self.cells = {}; self.depth = 0; self.rec = False; self.stack = []
    # ---------------------------------------------------------------- control flow
    def cfg(self, f):
        r = f.get('_look')
        if r: return r
        B = f['blocks']; succ = [[x for i in b for x in i.get('succ', ())] for b in B]
        order, seen, onst = [], set(), set(); back = set(); st = [(0, iter(succ[0]))]; seen.add(0); onst.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x in onst: back.add((b, x))
                elif x not in seen:
                    seen.add(x); onst.add(x); st.append((x, iter(succ[x]))); break
            else:
                order.append(b); onst.discard(b); st.pop()
        order.reverse(); pred = {b: [] for b in range(len(B))}
        for b in range(len(B)):
            if b in seen:
                for x in succ[b]:
                    if b not in pred[x]: pred[x].append(b)
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h}); w = [t]
            while w:
                x = w.pop()
                if x not in body: body.add(x); w += pred[x]
        r = f['_look'] = (succ, order, pred, back, loops); return r
    # ---------------------------------------------------------------- one function in one context
    def call(self, fn, args, cells, facts):
        """(return value, cells after); records obligations when self.rec"""
        f = self.m.functions[fn]
        self.depth += 1
        if self.depth > 12: raise Open('calls nested too deeply at %s' % f['dem'])
        try: return self.function(f, args, cells, facts)
        finally: self.depth -= 1
    def function(self, f, args, cells, facts):
        succ, order, pred, back, loops = self.cfg(f); E0 = self.E
        inner = {h for h in loops if any(h in loops[g] and g != h for g in loops)}
        hyp = {}                                                # header phi or cell -> assumed value
        for h in loops:
            for i in f['blocks'][h]:
                if i['op'] == 'phi': hyp[(h, i['id'])] = None
            for c in cells: hyp[(h, 'cell', c)] = None
        rec = self.rec; self.rec = False
        if not loops:
            self.rec = rec; return self.walk(E0, f, args, cells, facts, {}, {}, inner)[:2]
        # 1: fresh atom per header variable
        init = {}; fresh = {}
        for k in hyp: fresh[k] = V({('f',) + k: 1}, 0, 0)
        fr = lambda v, at: any(isinstance(x, tuple) and x[0] == 'f' and x != at for x in v.c)
        for rnd in range(len(hyp) + 2):
            ret, out, ini, bk, _, _ = self.walk(E0, f, args, cells, facts, fresh, {h: 0 for h in loops}, inner)
            new = dict(fresh)
            for k in hyp:
                at = ('f',) + k
                if at not in fresh[k].c: continue                # decided
                a, b = ini.get(k), bk.get(k)
                if a is None or b is None: new[k] = a if a is not None else TOP; continue
                if fr(a, at): continue
                if k[0] not in inner and isaff(b) and b.c == {at: 1} and b.exact() and isaff(a):
                    new[k] = add(a, V({('k', k[0]): b.lo} if b.lo else {}, 0, 0))
                elif isaff(b) and b.c == {at: 1} and isaff(a) and a.c == {'H': 1}: new[k] = V({'H': 1}, 0, 0)
                elif fr(b, at): continue
                else:
                    new[k] = V({x: None for x in set(a.c) | set(b.c) if x != at})
                    if not new[k].c and at not in b.c: new[k] = join(a, b)
            if {k: v.key() for k, v in new.items()} == {k: v.key() for k, v in fresh.items()}: break
            fresh = new
        for k, v in fresh.items():
            if fr(v, None): fresh[k] = V({x: None for x in set(v.c) | set(ini[k].c) | set(bk[k].c) if not isinstance(x, tuple) or x[0] != 'f'})
        # 2: upper bounds of k - N at the headers
        ubs = None
        for ub in (-1, 0):
            got = self.walk(E0, f, args, cells, facts, fresh, {h: ub for h in loops}, inner)
            if all(u is None or u + 1 <= ub for u in got[5].values()): ubs = ub; break
        # the destination grows by at most one round's bytes per round
        self.rec = rec
        for k, v in fresh.items():
            if v.c == {'H': 1}:
                b = got[3].get(k)
                if b is not None and (not isaff(b) or b.c != {'H': 1}): raise Open('destination at the end of a round of %s' % f['dem'])
                if b is not None and self.rec: self.note('w', f, None, 'destination after a round', self.verdict(b, b.lo >= 0 and b.hi <= self.W, b.hi < 0 or b.lo > self.W), 'moves by %d to %d bytes in a round of %d' % (b.lo, b.hi, self.W))
        self.ub = ubs
        r = self.walk(E0, f, args, cells, facts, fresh, {h: ubs for h in loops}, inner)
        return r[0], r[1]
    def walk(self, E0, f, args, cells, facts, hyp, ub, inner):
        succ, order, pred, back, loops = self.cfg(f)
        eE = {}; ret_E = None; loopE = {}
        env = {}; cin = {}; cout = {}; edge = {}; ini = {}; bk = {}; bU = {}; ret = None; rc = None
        U = {}
        for b in order:
            ins = f['blocks'][b]
            self.E = E0
            if b == 0: cs = dict(cells); fa = dict(facts)
            else:
                ps = [p for p in pred[b] if (p, b) in edge and (p, b) not in back]
                if not ps: continue
                fa = {}
                for p in ps:
                    for h, u in edge[(p, b)].items(): fa[h] = u if h not in fa else (None if u is None or fa[h] is None else max(u, fa[h]))
                fa = {h: u for h, u in fa.items() if all(h in edge[(p, b)] for p in ps)}
                cs = {}
                for c in cells:
                    v = None
                    for p in ps: v = join(v, cout[p][c])
                    cs[c] = v
            if b in loops:
                for c in cells:
                    ini[(b, 'cell', c)] = cs[c]; cs[c] = hyp[(b, 'cell', c)]
                if b not in inner: fa[b] = ub.get(b)
            if b:
                self.E = {}
                for p in ps:
                    for k, h in eE[(p, b)].items(): self.E[k] = h if k not in self.E else None if h is None or self.E[k] is None else max(h, self.E[k])
                if b in loops and b not in inner: self.E = {(): 0}
                loopE[b] = self.E
            for i in ins:
                if i['op'] != 'phi': break
                if b in loops:
                    for p, o in i['in']:
                        if (p, b) in edge and (p, b) not in back: ini[(b, i['id'])] = join(ini.get((b, i['id'])), self.val(o, env, args))
                    env[i['id']] = hyp[(b, i['id'])]
                else:
                    v = None
                    for p, o in i['in']:
                        if (p, b) in edge: v = join(v, self.val(o, env, args))
                    env[i['id']] = v if v is not None else TOP
            self.facts = fa
            for i in ins:
                if i['op'] == 'phi': continue
                if i['op'] == 'ret':
                    v = self.val(i['ops'][0], env, args) if i['ops'] else TOP
                    ret_E = dict(self.E) if ret_E is None else {(): None if None in list(ret_E.values()) + list(self.E.values()) else max(list(ret_E.values()) + list(self.E.values()) + [0])}
                    ret = join(ret, v); rc = dict(cs) if rc is None else {c: join(rc[c], cs[c]) for c in cs}; continue
                if i['op'] in ('br', 'switch'): continue
                self.facts = fa
                v = self.ins(f, i, env, args, cs, fa)
                if not v.weak and i['op'] not in ('load', 'call') and any(self.val(x, env, args).weak for x in self.uses(i)): v = V(v.c, v.lo, v.hi, v.bits, v.cell, True)
                env[i['id']] = v
            cout[b] = cs; t = ins[-1]
            for n, x in enumerate(succ[b]):
                fe = dict(fa)
                if t['op'] == 'br' and len(succ[b]) == 2 and succ[b][0] != succ[b][1]:
                    cnd = self.val(t['ops'][0], env, args)
                    if cnd.exact() and not cnd.c and bool(cnd.lo & 1) != (n == 0): continue
                    if not self.refine(t['ops'][0], n == 0, f, env, args, fe): continue
                eE[(b, x)] = self.eedge(f, self.E, b, x, t, n, back)
                if t['op'] in ('switch', 'br') and self.E and not eE[(b, x)]: continue
                if (b, x) in back and x in inner:
                    m = list(eE[(b, x)].values()); top_ = list(loopE[x].values())
                    if None not in top_ and (None in m or max(m, default=0) > max(top_, default=0)): raise Open('stores in an inner loop of %s' % f['dem'])
                edge[(b, x)] = fe
                if (b, x) in back:
                    for c in cells: bk[(x, 'cell', c)] = join(bk.get((x, 'cell', c)), cs[c])
                    for i in f['blocks'][x]:
                        if i['op'] != 'phi': break
                        for p, o in i['in']:
                            if p == b: bk[(x, i['id'])] = join(bk.get((x, i['id'])), self.val(o, env, args))
                    if x not in inner:
                        u = fe.get(x); bU[x] = 99 if u is None else max(bU.get(x, -99), u)
        if rc is None: rc = dict(cells)
        h = [v for d in (ret_E or {}).values() for v in [d]]
        self.E = {(): None if None in h else max(h + [0])} if self.depth <= 1 else {k: None if v is None or None in h else max(h + [v]) for k, v in E0.items()}
        return ret or TOP, rc, ini, bk, U, bU
    def uses(self, i):
        return [i['gep']['base']] + [x for x, _ in i['gep']['vars']] if i['op'] == 'getelementptr' else i['ops']
    def refine(self, o, want, f, env, args, fe, depth=0):
        """facts on the edge where o is true (false); False: the edge cannot be taken"""
        d = f.setdefault('_defs', {i['id']: i for b in f['blocks'] for i in b}).get(o[1]) if o[0] == 'v' else None
        if d is None or depth > 4: return True
        if d['op'] == 'xor' and d['ty'] == 'i1' and d['ops'][1][0] == 'c': return self.refine(d['ops'][0], want != bool(d['ops'][1][1] & 1), f, env, args, fe, depth + 1)
        if d['op'] != 'icmp': return True
        a, b = self.val(d['ops'][0], env, args), self.val(d['ops'][1], env, args); x = add(a, b, -1); p = d['pred']
        if p.startswith('u') and not (('S' in a.c) and ('S' in b.c)): return True
        p = p.lstrip('su') if p not in ('eq', 'ne') else p
        if not want: p = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[p]
        if not isaff(x) or not x.exact(): return True
        ks = [k for k in x.c if isinstance(k, tuple) and k[0] == 'k']
        if len(ks) != 1 or set(x.c) - {ks[0], 'N'}: return True
        h = ks[0][1]; al, be = x.c[ks[0]], x.c.get('N', 0) ; n0 = x.lo
        if al + be or h not in fe or fe[h] is None: return True
        u = fe[h]                                                # y = k - N <= u; al * y + n0 p 0
        def sat(y): v = al * y + n0; return {'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[p]
        for y in range(u, u - 200, -1):
            if sat(y): fe[h] = y; return True
        if p in ('ne',) or (al > 0) == (p in ('lt', 'le')): return True
        return False
    def val(self, o, env, args):
        k = o[0]
        if k == 'c':
            n = o[1]; w = o[2] if len(o) > 2 else 64
            s = n - (1 << w) if w > 1 and n >> (w - 1) & 1 else n
            return V({}, s, s, n)
        if k == 'v': return env.get(o[1], TOP)
        if k == 'a': return args[o[1]] if o[1] < len(args) else TOP
        return TOP
    # ---------------------------------------------------------------- instructions
    def ins(self, f, i, env, args, cs, fa):
        op = i['op']; o = [self.val(x, env, args) for x in i['ops']] if op != 'getelementptr' else []
        w = width(i.get('ty', ''))
        if op == 'getelementptr':
            g = i['gep']; v = self.val(g['base'], env, args)
            if v.cell is not None: return v if not g['off'] and not g['vars'] else TOP
            v = add(v, K(g['off'])) if isaff(v) else v
            for x, s in g['vars']: v = add(v, scale(self.val(x, env, args), s))
            return v
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'sext'): return o[0] if op != 'sext' or isaff(o[0]) else top(o[0])
        if op == 'zext':
            if o[0].c: return top(o[0])
            return num(pbits(o[0], width(self.opty(f, i)))) if not (o[0].known() and o[0].lo >= 0) else V({}, o[0].lo, o[0].hi, o[0].bits)
        if op == 'trunc':
            if o[0].c: return top(o[0])
            if o[0].known() and o[0].lo >= 0 and o[0].hi < 1 << (w - 1): return o[0]
            return num(pbits(o[0], w))
        if op == 'add': return self.clip(add(o[0], o[1]), w)
        if op == 'sub': return self.clip(add(o[0], o[1], -1), w)
        if op == 'mul':
            for a, b in ((o[0], o[1]), (o[1], o[0])):
                if b.exact() and not b.c: return self.clip(scale(a, b.lo), w)
            return top(*o)
        if op == 'shl':
            if o[1].exact() and not o[1].c:
                if isaff(o[0]) and o[0].c: return scale(o[0], 1 << o[1].lo)
                b = pbits(o[0], w)
                if b is not None: return num((b << o[1].lo) & ((1 << w) - 1))
            return top(*o)
        if op in ('lshr', 'ashr'):
            if o[1].exact() and not o[1].c:
                b = pbits(o[0], w)
                if b is not None and (op == 'lshr' or not b >> (w - 1) & 1): return num(b >> o[1].lo)
            b = pbits(o[0], w)
            if op == 'lshr' and b is not None: return num((1 << b.bit_length()) - 1)
            return top(*o)
        if op == 'and':
            b = [pbits(x, w) for x in o]
            if None in b: return top(*o)
            return num(b[0] & b[1])
        if op in ('or', 'xor'):
            b = [pbits(x, w) for x in o]
            if None in b: return top(*o)
            return num(b[0] | b[1])
        if op in ('icmp', 'fcmp'): return num(1)
        if op == 'select': return join(o[1], o[2])
        if op == 'load': return self.load(f, i, o[0], cs, fa)
        if op == 'store':
            p = o[1]
            if p.cell is not None: cs[p.cell] = o[0] if i['ops'][0][0] != 'g' else TOP; return TOP
            if o[0].taint(): raise Open('an address is stored at %s' % where(i))
            self.access('w', f, i, p, self.stsize(f, i), i.get('align', 1), fa, cs); return TOP
        if op == 'call': return self.docall(f, i, o, cs, fa)
        if op == 'alloca': return TOP
        if op in ('insertelement', 'shufflevector', 'extractelement', 'insertvalue', 'extractvalue'):
            if any(x.taint() for x in o): raise Open('an address in a vector at %s' % where(i))
            return TOP
        return top(*o)
    def clip(self, v, w):
        if v.c or not v.known(): return v
        if v.lo >= 0 and v.hi < 1 << w: v.bits = (1 << v.hi.bit_length()) - 1; return v
        if v.lo < -(1 << (w - 1)): return num((1 << w) - 1)
        return v
    def opty(self, f, i):
        o = i['ops'][0]
        if o[0] == 'c': return 'i%d' % o[2]
        if o[0] == 'v':
            d = f.setdefault('_defs', {x['id']: x for b in f['blocks'] for x in b}).get(o[1])
            if d: return d['ty']
        return 'i64'
    def stsize(self, f, i):
        return i.get('size') or 64
    def load(self, f, i, p, cs, fa):
        if p.cell is not None:
            if i['ty'] == 'ptr' or i['ty'] == 'i64': return cs[p.cell]
            return num((1 << (8 * i['size'])) - 1) if i['ty'].startswith('i') else TOP
        self.access('r', f, i, p, i['size'], i.get('align', 1), fa, cs)
        if i['ty'] in ('i8', 'i16', 'i32', 'i64'):
            t = self.table(f, i)
            if t is not None: return t
            v = num((1 << (8 * i['size'])) - 1); v.weak = True; return v
        return TOP
    def table(self, f, i):
        """a load from a field of the lookup tables whose values are bounded"""
        g = None; o = i['ops'][0]; D = f.setdefault('_defs', {x['id']: x for b in f['blocks'] for x in b})
        off = 0; var = 0; n = 0
        while o[0] == 'v' and n < 8:
            d = D.get(o[1]); n += 1
            if d is None: return None
            if d['op'] == 'getelementptr':
                off += d['gep']['off']; var += sum(s for _, s in d['gep']['vars']); o = d['gep']['base']
            elif d['op'] == 'load': g = d['ops'][0]; break
            else: return None
        if g is None or g[0] != 'g': return None
        for name, lo, hi, a, b in self.tables:
            if name == g[1] and var == 1 and lo <= off < hi and i['size'] == 1: return V({}, a, b, (1 << b.bit_length()) - 1)
        return None
    def docall(self, f, i, o, cs, fa):
        c = i['callee']
        if c[0] != 'g':
            if any(x.taint() or x.cell is not None for x in o): raise Open('unknown function given an address at %s' % where(i))
            return TOP
        n = c[1]; g = self.m.functions.get(n); w = width(i.get('ty', ''))
        if n.startswith('llvm.'):
            if n.startswith('llvm.ctpop.i'):
                b = pbits(o[0], w)
                return V({}, 0, bin(b).count('1'), 127) if b is not None else V({}, 0, w, 127)
            if re.match(r'llvm\.(ctlz|cttz)\.i', n): return num(127)
            if re.match(r'llvm\.(assume|lifetime|dbg|experimental|donothing|prefetch)', n): return TOP
            m = re.match(r'llvm\.masked\.(store|compressstore|load|expandload)\.v(\d+)i(\d+)', n)
            if m:
                k = m.group(1); size = int(m.group(2)) * int(m.group(3)) // 8
                p = o[1] if 'store' in k else o[0]
                self.access('w' if 'store' in k else 'r', f, i, p, size, 1, fa, cs); return TOP
            if re.match(r'llvm\.(u|s)(min|max)\.i', n): return join(o[0], o[1]) if all(x.known() for x in o) else top(*o)
            if re.match(r'llvm\.mem(cpy|move|set)', n):
                if not o[2].exact() or o[2].c: raise Open('length at %s' % where(i))
                if o[0].cell is None: self.access('w', f, i, o[0], o[2].lo, 1, fa, cs)
                if not n.startswith('llvm.memset') and o[1].cell is None: self.access('r', f, i, o[1], o[2].lo, 1, fa, cs)
                return TOP
            if any(x.taint() for x in o): raise Open('%s given an address at %s' % (n, where(i)))
            if i.get('ty', '').startswith('i') and w <= 64: return num((1 << w) - 1)
            return TOP
        if g is None or g['decl']:
            if any(x.taint() or x.cell is not None for x in o): raise Open('%s given an address at %s' % (n, where(i)))
            return num((1 << w) - 1) if i.get('ty', '').startswith('i') else TOP
        if not any(x.taint() or x.cell is not None for x in o):
            r = self.plain(n, g, o, w, i); return r
        self.stack.append(i)
        try: r, out = self.call(n, o, cs, fa)
        finally: self.stack.pop()
        cs.update(out); self.facts = fa
        return r
    def plain(self, n, g, o, w, i):
        """a helper that gets no addresses: only its return value matters"""
        if not i.get('ty', '').startswith('i'): return TOP
        if self.cfg(g)[4] or len(g['blocks']) > 4: return num((1 << w) - 1)
        rec = self.rec; self.rec = False
        try: return self.call(n, o, {}, {})[0]
        except Open: return num((1 << w) - 1)
        finally: self.rec = rec
    # ---------------------------------------------------------------- obligations
    def note(self, kind, f, i, what, ok, detail):
        self.obl.append((kind, '%s' % (self.at(i) if i else f['dem'].split('(')[0][-80:]), what, ok, detail))
    def verdict(self, p, ok, never):
        return True if ok else False if never or not p.weak else None
    def at(self, i):
        w = where(i)
        for j in reversed(self.stack):
            if 'intrin' not in w and w != '?' and 'force_align' not in w: break
            w = where(j)
        return w
    def emax(self): return None if None in self.E.values() else max(self.E.values(), default=0)
    def flags(self, f):
        """phis of constants that a switch or branch tests: stores are told apart by their values"""
        r = f.get('_flags')
        if r is None:
            D = f.setdefault('_defs', {i['id']: i for b in f['blocks'] for i in b}); r = set(); w = [b[-1]['ops'][0] for b in f['blocks'] if b[-1]['op'] in ('switch', 'br') and b[-1]['ops']]
            while w:
                o = w.pop()
                if o[0] != 'v' or o[1] in r: continue
                d = D.get(o[1])
                if d is None or d['op'] != 'phi' or not all(x[0] == 'c' or x[0] == 'v' and D.get(x[1], {}).get('op') == 'phi' for _, x in d['in']): continue
                r.add(o[1]); w += [x for _, x in d['in']]
            f['_flags'] = r
        return r
    def eedge(self, f, E, b, x, t, n, back):
        """the stores so far on the edge from b to x, by the values of the flags"""
        out = {}
        for ctx, h in E.items():
            c = dict(ctx)
            if t['op'] == 'switch' and t['ops'][0][0] == 'v' and t['ops'][0][1] in c:
                if x not in self.target(t, c[t['ops'][0][1]]): continue
            if t['op'] == 'br' and t['ops'] and t['ops'][0][0] == 'v' and t['ops'][0][1] in c and bool(c[t['ops'][0][1]] & 1) != (n == 0): continue
            c2 = dict(c); fl = self.flags(f)
            for i in f['blocks'][x]:
                if i['op'] != 'phi': break
                if i['id'] not in fl: continue
                for p, o in i['in']:
                    if p == b:
                        if o[0] == 'c': c2[i['id']] = o[1]
                        elif o[1] in c: c2[i['id']] = c[o[1]]
                        else: c2.pop(i['id'], None)
            k = tuple(sorted(c2.items()))
            out[k] = h if k not in out else None if h is None or out[k] is None else max(h, out[k])
        return out
    def target(self, t, v):
        for c, x in t['cases']:
            if c[1] == v: return [x]
        return [t['default']]
    def order(self, f, i, p, size, fa, cs):
        """in place: the load must not reach back to where this round may have stored before (and no further back)"""
        e = self.emax(); at = '%d byte%s' % (size, 's' if size > 1 else '')
        ks = [k for k in p.c if isinstance(k, tuple)]
        if not isaff(p) or p.c.get('S') != 1 or 'H' in p.c or len(ks) > 1 or set(p.c) - {'S', 'N'} - set(ks) or e is None:
            self.note('o', f, i, at, None, 'position not known'); return
        a, b = (p.c[ks[0]] if ks else 0), p.c.get('N', 0); u = fa.get(ks[0][1]) if ks else max([0] + [x for x in fa.values() if x is not None])
        if not ks and not fa and b >= -self.W: r = p.lo + b + self.W             # before the loop, from the start
        elif u is None or a + b or a > self.W: self.note('o', f, i, at, None, 'position not known'); return
        else: r = p.lo + (a - self.W) * u
        self.note('o', f, i, at, True if r >= e else None if p.weak else False, 'reads from byte %d of the round, stores before it reach up to byte %d' % (r, e))
    def access(self, kind, f, i, p, size, al, fa, cs):
        if kind == 'w' and p.taint():
            h = p.hi + size if isaff(p) and p.c == {'H': 1} else None
            self.E = {k: None if v is None or h is None else max(v, h) for k, v in self.E.items()}
        if not p.taint():
            return
        if not self.rec: return
        if kind == 'r': self.order(f, i, p, size, fa, cs)
        at = '%d byte%s' % (size, 's' if size > 1 else '')
        if not isaff(p): self.note(kind, f, i, at, None, 'address not known'); return
        if p.c.get('S') == 1 and 'H' not in p.c:
            if kind == 'w': self.note(kind, f, i, at, False, 'writes to the source'); return
            ks = [k for k in p.c if isinstance(k, tuple)]
            if len(ks) > 1 or set(p.c) - {'S', 'N'} - set(ks): self.note(kind, f, i, at, None, 'address not known'); return
            al_, be = (p.c[ks[0]] if ks else 0), p.c.get('N', 0); u = fa.get(ks[0][1]) if ks else 0
            if u is None or al_ < 0 or (al_ + be) > 0: self.note(kind, f, i, at, None, 'address not bounded'); return
            last = (al_ + be) + al_ * u + p.hi + size              # end of the access from S, N = 1 and the last round
            first = (al_ + be) + al_ * u + p.hi
            low = (be + self.W) + p.lo                             # from the start of the source, first round
            if be + self.W < 0: self.note(kind, f, i, at, None, 'address not bounded below'); return
            d = 'ends at most %d byte(s) after the last round (%d are there), starts %d after the first byte' % (last, self.look, low)
            if low < 0: self.note(kind, f, i, at, None if p.weak else False, 'reads %d byte(s) before the source' % -low); return
            if last > self.look:
                step = al_ or self.W
                if al >= size and size <= self.al and p.exact() and (p.lo % size == 0) and step % size == 0 and be % size == 0 and first < self.look:
                    self.note(kind, f, i, at, True, d + '; aligned, so within the memory block of its first byte'); return
                self.note(kind, f, i, at, None if p.weak else False, 'can read %d byte(s) beyond the %d kept back after the last round' % (last - self.look, self.look)); return
            self.note(kind, f, i, at, True, d); return
        if p.c == {'H': 1}:
            ok = self.verdict(p, p.lo >= 0 and p.hi + size <= self.W, p.hi < 0 or p.lo + size > self.W)
            if kind == 'r': self.note(kind, f, i, at, None, 'reads the output'); return
            self.note(kind, f, i, at, ok, 'writes %d..%d of the %d bytes from the destination at the start of the round' % (p.lo, p.hi + size, self.W)); return
        self.note(kind, f, i, at, None, 'address not known')
    def run(self):
        f = self.m.functions[self.fn]; W = self.W
        cells = {1: V({'N': W}, 0, 0), 2: V({'H': 1}, 0, 0), 3: num(1), 4: num(3)}
        args = [V({'S': 1}, 0, 0)] + [V(cell=c) for c in (1, 2, 3, 4)]
        self.rec = True; self.E = {(): 0}
        r, out = self.call(self.fn, args, cells, {})
        e = self.emax()
        self.note('o', f, None, 'nothing stored in a round that is given up', None if e is None else e <= 0, 'stores up to byte %s' % e)
        return self.obl

# ------------------------------------------------------------------------------------------------ tables
def stored(mod, name, lo, hi):
    """(least, greatest) value the functions of this unit store into bytes lo..hi-1 of what the pointer variable (a
    static in the kernels, a reference parameter of the initialiser) points to; None if not known"""
    r = None; seen = False
    for n, f in mod.defined().items():
        D = {i['id']: i for b in f['blocks'] for i in b}; k = Kernel(mod, n, 1, 0, 1, [])
        memo = {}
        def value(o, d=0):
            if o[0] != 'v': return k.val(o, {}, []) if o[0] == 'c' else TOP
            if o[1] in memo: return memo[o[1]]
            i = D.get(o[1])
            if i is None or d > 60: return TOP
            if i['op'] in ('phi', 'call', 'load'): v = num((1 << width(i['ty'])) - 1) if re.match(r'i\d+$', i['ty']) else TOP
            else:
                env = {x[1]: value(x, d + 1) for x in k.uses(i) if x[0] == 'v'}
                v = k.ins(f, i, env, [TOP] * 8, {}, {})
            memo[o[1]] = v; return v
        for b in f['blocks']:
            for i in b:
                if i['op'] != 'store': continue
                o = i['ops'][1]; off = 0; sc = []; g = 0
                while o[0] == 'v' and D.get(o[1], {}).get('op') in ('getelementptr', 'bitcast'):
                    d = D[o[1]]
                    if d['op'] == 'bitcast': o = d['ops'][0]; continue
                    off += d['gep']['off']; sc += [s for _, s in d['gep']['vars']]; o = d['gep']['base']
                if o[0] != 'v' or D.get(o[1], {}).get('op') != 'load' or D[o[1]]['ty'] != 'ptr': continue
                root = D[o[1]]['ops'][0]
                if not (root == ['g', name] or root[0] == 'a' and 'init' in f['dem']): continue
                if off >= hi: continue
                if off < lo: return None
                if i.get('size') != 1: return None
                v = value(i['ops'][0])
                if v.c or not v.known() or v.lo < 0: return None
                seen = True; r = (v.lo, v.hi) if r is None else (min(r[0], v.lo), max(r[1], v.hi))
    return r if seen else None

def tables(mod, init):
    """value bounds of the byte table at the start of *lookups, from the unit that fills it"""
    for n, g in mod.globals.items():
        if g['dem'].split('::')[-1] == 'lookups':
            r = stored(init, n, 0, 256)
            return [(n, 0, 256) + r] if r else []
    return []

# ------------------------------------------------------------------------------------------------ properties
MEM = re.compile(r'beyond the input|beyond the end of the input|kept back|kernel length|not aligned to|does not go with its length|negative length|before the input|null pointer read|starts -?\d+ byte\(s\) away')
def kernels(rep, kinds):
    """the obligations of some kinds over every kernel and mode"""
    import codec
    sc = codec.portable(ir.load('src/decoder.cc')); ms, inst = codec.installed(); init = ms.get('src/decoder_sse2.cc'); n = 0; tot = {}
    for (s, fn), modes in sorted(inst.items()):
        if fn in sc: continue
        m = ms[s]; txt, kern = codec.canon(m, fn, sc)
        for k, steps, al in sorted(kern):
            if len(steps) != 1: rep.check('kernel found', '%s: %s' % (s, k), None, 'loop steps %s' % (steps,)); continue
            for mode in sorted(modes):
                name = '%s: %s (%s)' % (s, re.sub(r'\(unsigned char const\*.*', '', m.functions[k]['dem'])[-90:], mode); n += 1
                try: obl = Kernel(m, k, steps[0], codec.LOOK[mode], al, tables(m, init) if init else []).run()
                except Open as e: rep.check('kernel analysed', name, None, str(e)); continue
                rep.check('kernel analysed', name, True, '%d bytes per round' % steps[0])
                for kd, at, what, ok, detail in obl:
                    if kd not in kinds: continue
                    tot[kd] = tot.get(kd, 0) + 1
                    rep.check({'r': 'load', 'w': 'store', 'o': 'load before the stores of its round'}[kd], '%s, %s at %s' % (name, what, at), ok, detail)
    rep.cover['kernels and modes'] = n; rep.cover['instructions'] = sum(tot.values())
    rep.need('kernel analysed', 12)

def callers(rep, rule, pat, inplace):
    """the portable decoders and the kernels' callers in product with the specification; only violations that match pat
    are violations of this property"""
    import codec
    tot = {}
    for src in (((a, v, t) for _, _, a, v, t in codec.c12_runs(tot, inplace)), ((a, v, t) for _, a, v, t in codec.c13_runs(rep, tot, inplace))):
        for at, v, text in src:
            ok = codec.VERD[v]
            if ok is False and not pat.search(text.split(';')[0]): ok = None
            rep.check(rule, at, ok, text)
    rep.cover.update({k: v for k, v in tot.items() if k not in rep.cover})

def c33(rep):
    """decoding in place"""
    kernels(rep, 'wo'); rep.need('load before the stores of its round', 100)
    callers(rep, 'no input byte is read after output was written over it', re.compile('overwritten'), True)

def c26(rep):
    """reads of the decoders"""
    kernels(rep, 'r'); rep.need('load', 100)
    callers(rep, 'reads of the caller and its tail, bytes kept back for the kernel', MEM, False)

def c27(rep):
    """writes of the decode kernels"""
    kernels(rep, 'w'); rep.need('store', 50)
