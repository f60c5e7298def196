"""Abstract interpreter for the JavaScript of the module (path-sensitive, symbolic values in normal form, no solver).

Values     ('undef',) ('null',) ('b', bool) ('n', lin) ('s', pieces) ('r', object id) ('bi', builtin name) ('nat', native name)
           ('phi', ((guard, value), ...))  joined at a merge point, told apart again where it is read
           ('alts', key, (value, ...))     one of finitely many values
lin        (constant, ((atom, coefficient), ...))
pieces     literal str | term, for strings;  ('lit', bytes) | term, for Buffer contents
A condition that the facts of a path do not settle splits the path; loops that cannot be unrolled are summarised by
a fixpoint over the variables and objects they change."""
import time, json, math, os, subprocess
import jsre
from ir import AnalysisError, VERIF, REPO

UNDEF = ('undef',); NULL = ('null',); TRUE = ('b', True); FALSE = ('b', False)
NAN = float('nan'); INF = float('inf')

class Unsupported(AnalysisError): pass
class Abrupt:
    __slots__ = ('kind', 'val')
    def __init__(self, kind, val=None): self.kind = kind; self.val = val
    def __repr__(self): return 'Abrupt(%s, %r)' % (self.kind, self.val)

# ---------------------------------------------------------------- linear numbers
def num(c): return ('n', (int(c) if isinstance(c, float) and c == c and abs(c) != INF and c == int(c) else c, ()))
def atom(a): return ('n', (0, ((a, 1),)))
def isnum(v): return v[0] == 'n'
def conc(v): return v[0] == 'n' and not v[1][1]
def cval(v): return v[1][0]
def ladd(a, b, k=1):
    d = dict(a[1])
    for x, c in b[1]:
        d[x] = d.get(x, 0) + k * c
        if d[x] == 0: del d[x]
    c = a[0] + k * b[0]
    return (int(c) if isinstance(c, float) and c == c and abs(c) != INF and c == int(c) else c, tuple(sorted(d.items(), key=repr)))
def lscale(a, k):
    if k == 0: return (0, ())
    return (a[0] * k, tuple((x, c * k) for x, c in a[1]))
def S(x): return ('s', (x,) if x else ())
def sconc(v):
    if v[0] == 's' and (v[1] == () or (len(v[1]) == 1 and isinstance(v[1][0], str))): return v[1][0] if v[1] else ''
    return None
def scat(a, b):
    out = list(a)
    for p in b:
        if out and isinstance(p, str) and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    return tuple(out)
def bcat(a, b):
    out = list(a)
    for p in b:
        if p[0] == 'lit' and not p[1]: continue
        if out and p[0] == 'lit' and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + p[1])
        else: out.append(p)
    return tuple(out)
ASCII_TERMS = ('num', 'hex', 'tok')
# ('tok', name): a value of a template: one or more characters out of TOKCHARS (printable ASCII without blank and '=')
TOKCHARS = frozenset(chr(c) for c in range(33, 127)) - {'='}
def hastok(pieces): return any(not isinstance(p, str) for p in pieces) and all(isinstance(p, str) or p[0] == 'tok' for p in pieces)
def tokbuf(p): return p[0] == 'enc' and len(p[1]) == 1 and not isinstance(p[1][0], str) and p[1][0][0] == 'tok'
TDATA = (('sym', 'D'), ('sym', 'D2'))      # unknown data of a template
def hastokbuf(content): return any(tokbuf(p) or p in TDATA for p in content)
def encode(pieces, enc):
    """bytes of a string in an encoding; numbers, hex digits and ASCII literals are the same in all of them"""
    out = ()
    for p in pieces:
        if isinstance(p, str) and all(ord(c) < 128 for c in p): out = bcat(out, (('lit', p.encode()),))
        elif isinstance(p, str) and sconc(enc) in ('utf8', 'utf-8'): out = bcat(out, (('lit', p.encode('utf8', 'surrogatepass')),))
        else: out = bcat(out, (('enc', (p,), () if p[0] in ASCII_TERMS else enc),))
    return out

class St:
    __slots__ = ('scopes', 'heap', 'facts', 'ge', 'known', 'events', 'prefix', 'trace')
    def __init__(self):
        self.scopes = {}; self.heap = {}; self.facts = {}; self.ge = (); self.known = {}; self.events = (); self.prefix = {}; self.trace = ()
    def copy(self):
        s = St.__new__(St)
        s.scopes = dict(self.scopes); s.heap = dict(self.heap); s.facts = dict(self.facts); s.ge = self.ge
        s.known = dict(self.known); s.events = self.events; s.prefix = dict(self.prefix); s.trace = self.trace
        return s

FULL = (-INF, INF, frozenset())

def bind(outs, f):
    r = []
    for v, st in outs:
        if isinstance(v, Abrupt): r.append((v, st))
        else: r += f(v, st)
    return r

BUFM = {'toString', 'slice', 'subarray', 'indexOf', 'lastIndexOf', 'equals', 'copy', 'fill', 'write', 'readBigInt64BE', 'readUInt32BE', 'writeUInt32BE', 'includes',
        'compare', 'filter', 'set', 'forEach', 'map', 'every', 'some', 'readUInt8', 'readUInt16LE', 'readInt32BE', 'readUInt32LE', 'writeUInt32LE', 'reduce', 'toJSON', 'swap16', 'at', 'readUIntBE'}
STRM = {'slice', 'substring', 'substr', 'indexOf', 'lastIndexOf', 'replace', 'replaceAll', 'trim', 'trimEnd', 'trimStart', 'toLowerCase', 'toUpperCase', 'charAt', 'charCodeAt', 'startsWith',
        'endsWith', 'match', 'split', 'concat', 'includes', 'toString', 'valueOf', 'search', 'repeat', 'padStart', 'padEnd', 'at', 'normalize', 'codePointAt', 'matchAll', 'localeCompare', 'trimLeft', 'trimRight'}
ARRM = {'push', 'concat', 'indexOf', 'map', 'forEach', 'slice', 'join', 'includes', 'filter', 'some', 'every', 'pop', 'shift', 'unshift', 'reduce', 'lastIndexOf', 'find', 'findIndex', 'reverse', 'splice', 'toString', 'fill', 'flat', 'sort', 'entries', 'keys', 'values', 'at', 'flatMap', 'findLast', 'findLastIndex'}
NUMM = {'toString', 'toFixed', 'valueOf'}
FNM = {'call', 'apply', 'bind', 'toString'}
STATIC = {'Buffer': {'alloc', 'allocUnsafe', 'from', 'concat', 'isBuffer', 'byteLength', 'compare', 'isEncoding', 'allocUnsafeSlow'}, 'Object': {'create', 'keys', 'assign', 'freeze', 'prototype', 'values', 'entries', 'defineProperty', 'getOwnPropertyNames', 'hasOwn', 'getPrototypeOf', 'setPrototypeOf', 'seal', 'fromEntries'},
          'Math': {'floor', 'ceil', 'max', 'min', 'round', 'abs', 'trunc', 'pow', 'random', 'log2', 'imul', 'sign', 'log10', 'sqrt'}, 'Array': {'isArray', 'from', 'prototype', 'of'}, 'Number': {'isInteger', 'isNaN', 'isFinite', 'parseInt', 'parseFloat', 'MAX_SAFE_INTEGER', 'isSafeInteger', 'POSITIVE_INFINITY', 'NaN', 'EPSILON', 'prototype', 'MIN_SAFE_INTEGER', 'MAX_VALUE'},
          'String': {'fromCharCode', 'prototype', 'raw'}, 'Function': {'prototype'}, 'Date': {'now'}, 'JSON': {'stringify', 'parse'}, 'Error': {'captureStackTrace', 'prototype'}, 'RegExp': {'prototype'}, 'process': {'version', 'versions', 'arch', 'platform', 'env', 'nextTick'}}
GLOBALS = {'Buffer', 'Object', 'Array', 'Math', 'Error', 'TypeError', 'RangeError', 'String', 'Number', 'Boolean', 'RegExp', 'parseInt', 'parseFloat', 'isNaN', 'isFinite', 'require', 'Function', 'Uint8Array', 'Symbol', 'JSON', 'Date', 'Map', 'Set', 'WeakMap', 'Promise', 'process', 'console', 'SyntaxError', 'EvalError', 'ReferenceError', 'BigInt', 'Reflect', 'Proxy', 'setTimeout', 'setImmediate', 'global', 'globalThis', '__dirname', '__filename', 'module', 'exports', 'WeakSet', 'ArrayBuffer', 'DataView', 'Uint32Array', 'Int32Array', 'encodeURIComponent', 'decodeURIComponent', 'escape', 'unescape'}
OBJPROTO = {'toString', 'valueOf', 'hasOwnProperty', 'constructor', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString', '__proto__', '__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__'}

def load_ast(path):
    p = subprocess.run(['node', os.path.join(VERIF, 'js', 'parse.js'), path], capture_output=True, text=True)
    if p.returncode: raise AnalysisError('cannot parse %s: %s' % (path, p.stderr.strip().splitlines()[-1:] or ''))
    return json.loads(p.stdout)

def scope_names(node, fn=True):
    """names declared by var (and function declarations) directly in a function body"""
    out = []
    def pat(p):
        if p is None: return
        t = p['type']
        if t == 'Identifier': out.append(p['name'])
        elif t == 'ObjectPattern':
            for q in p['properties']: pat(q['value'] if q['type'] == 'Property' else q['argument'])
        elif t == 'ArrayPattern':
            for q in p['elements']: pat(q)
        elif t == 'AssignmentPattern': pat(p['left'])
        elif t == 'RestElement': pat(p['argument'])
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
            return
        if not isinstance(n, dict) or 'type' not in n: return
        t = n['type']
        if t in ('FunctionExpression', 'ArrowFunctionExpression', 'ClassDeclaration', 'ClassExpression', 'FunctionDeclaration'): return
        if t == 'VariableDeclaration' and n['kind'] == 'var':
            for d in n['declarations']: pat(d['id'])
        for k, v in n.items():
            if k != 'type' and isinstance(v, (dict, list)): walk(v)
    walk(node)
    return out
def pat_names(p):
    out = []
    def w(p):
        if p is None: return
        t = p['type']
        if t == 'Identifier': out.append(p['name'])
        elif t == 'ObjectPattern':
            for q in p['properties']: w(q['value'] if q['type'] == 'Property' else q['argument'])
        elif t == 'ArrayPattern':
            for q in p['elements']: w(q)
        elif t == 'AssignmentPattern': w(p['left'])
        elif t == 'RestElement': w(p['argument'])
    w(p); return out

def has_continue(n):
    if isinstance(n, list): return any(has_continue(x) for x in n)
    if not isinstance(n, dict): return False
    if n.get('type') == 'ContinueStatement': return True
    return any(has_continue(x) for x in n.values() if isinstance(x, (dict, list)))

class JS:
    def __init__(self, path=None, natives=None, max_states=6000):
        self.path = path or os.path.join(REPO, 'index.js')
        self.file = os.path.basename(self.path)
        self.ast = load_ast(self.path)
        self.natives = natives
        self.nid = 0; self.parent = {}; self.bounds = {}; self.floats = set()
        self.merge_on = False; self.max_states = max_states
        self.throws = []; self.loops = []; self.sites = {}; self.module_ids = None
        self.nspec = {}; self.log = {}
    # ------------------------------------------------------------ state helpers
    def new(self, st, kind, **kw):
        self.nid += 1; o = {'kind': kind, 'props': {}, 'proto': None}; o.update(kw)
        st.heap[self.nid] = o; return ('r', self.nid)
    def obj(self, st, v): return st.heap[v[1]]
    def setobj(self, st, oid, **kw):
        o = dict(st.heap[oid])
        if 'items' in kw or 'rest' in kw: o.pop('bytes', None)
        o.update(kw); st.heap[oid] = o
    def event(self, st, *e):
        if e[0] in ('native',): st.events = st.events + (e,)
        else: self.log.setdefault(e, st)
    def fresh(self, tag='t'):
        self.nid += 1; return (tag, self.nid)
    def at(self, n): return '%s:%s' % (self.file, n.get('loc') if isinstance(n, dict) else n)
    def throw(self, st, cls, msg, n):
        self.throws.append((cls, msg, self.at(n), st))
        r = self.new(st, 'error', cls=cls, engine=True, where=self.at(n)); self.obj(st, r)['props']['message'] = S(msg)
        return [(Abrupt('throw', r), st)]
    def buf(self, st, content): return self.new(st, 'buffer', content=tuple(content))
    def isbuf(self, st, v): return v[0] == 'r' and st.heap[v[1]]['kind'] == 'buffer'
    def content(self, st, v): return st.heap[v[1]]['content']
    # ------------------------------------------------------------ facts
    def vkey(self, lin):
        vs = lin[1]
        if vs and vs[0][1] < 0: return tuple((a, -c) for a, c in vs), -1
        return vs, 1
    def natural(self, a):
        """bounds an atom has by construction"""
        if a in self.bounds: return self.bounds[a]
        h = a[0]
        if h == 'slen' and a[1][0] == 'tok': return (1, INF)
        if h in ('len', 'slen', 'restlen', 'index'): return (0, INF)
        if h == 'find': return (-1, INF)
        if h == 'byte': return (0, 255)
        if h in ('floor', 'ceil'):
            lo, hi = self.bnd(None, a[1]); return (math.floor(lo) if abs(lo) != INF else lo, math.ceil(hi) if abs(hi) != INF else hi)
        if h == 'div':
            lo, hi = self.bnd(None, a[1]); l2, h2 = self.bnd(None, a[2])
            if lo >= 0 and l2 > 0: return (0, hi / l2 if l2 != INF else hi)
        return (-INF, INF)
    def bnd(self, st, lin, depth=2):
        lo = hi = lin[0]
        if lo != lo: return (-INF, INF)
        for a, c in lin[1]:
            l, h = self.natural(a)
            if st is not None:
                f = st.facts.get(('S', ((a, 1),)))
                if f: l = max(l, f[0]); h = min(h, f[1])
            x, y = (c * l if l not in (INF, -INF) else (l if c > 0 else -l)), (c * h if h not in (INF, -INF) else (h if c > 0 else -h))
            lo += min(x, y); hi += max(x, y)
        if st is None: return (lo, hi)
        k, sg = self.vkey(lin)
        f = st.facts.get(('S', k))
        if f and k:
            l, h = (f[0], f[1]) if sg > 0 else (-f[1], -f[0])
            lo = max(lo, l + lin[0]); hi = min(hi, h + lin[0])
        if depth:
            for g in st.ge:
                if not ({a for a, _ in g[1]} & {a for a, _ in lin[1]}): continue
                d = ladd(lin, g, -1)
                if len(d[1]) < len(lin[1]) + (depth - 1): lo = max(lo, self.bnd(st, d, depth - 1)[0])
                d = ladd(lin, g, 1)
                if len(d[1]) < len(lin[1]) + (depth - 1): hi = min(hi, self.bnd(st, d, depth - 1)[1])
        return (lo, hi)
    def nonneg(self, st, lin): return self.bnd(st, lin, 3)[0] >= 0
    def maynan(self, st, lin):
        if lin[0] != lin[0]: return True
        for a, c in lin[1]:
            if a[0] == 'tonum' and not st.facts.get(('num', a)): return True
            if a[0] in ('div', 'floor', 'ceil', 'mod') and any(self.maynan(st, x) for x in a[1:] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple)): return True
        return False
    def isint(self, lin): return not any(a[0] in ('tonum', 'div', 'fl') or a in self.floats for a, c in lin[1]) and lin[0] == lin[0] and (abs(lin[0]) == INF or lin[0] == int(lin[0])) and all(c == int(c) for _, c in lin[1])
    def cmpsplit(self, st, lin):
        """[('-'|'0'|'+'|'u', state)] for the sign of a linear number"""
        if not lin[1]:
            c = lin[0]
            return [('u' if c != c else '-' if c < 0 else '0' if c == 0 else '+', st)]
        self.symtest = True
        if lin[0] != lin[0]: return [('u', st)]
        k, sg = self.vkey(lin); t = -lin[0] * sg            # compare k with t
        cur = st.facts.get(('S', k), FULL); nanf = st.facts.get(('U', k))
        lo, hi = self.bnd(st, (0, k), 3); lo = max(lo, cur[0]); hi = min(hi, cur[1]); ne = cur[2]
        out = []
        if self.maynan(st, lin) and nanf is not False:
            if nanf is True: return [('u', st)]
            s = st.copy(); s.facts[('U', k)] = True; out.append(('u', s))
        step = 1 if self.isint((0, k)) and t == int(t) else 0.5
        def ok(l, h):
            if l > h: return False
            if l == h and l in ne: return False
            return True
        base = {}
        if self.maynan(st, lin): base[('U', k)] = False
        for sign, l, h in (('-', lo, min(hi, t - step)), ('0', max(lo, t), min(hi, t)), ('+', max(lo, t + step), hi)):
            if sign == '0' and t in ne: continue
            while step == 1 and l in ne and l <= h: l += 1
            while step == 1 and h in ne and l <= h: h -= 1
            if not ok(l, h): continue
            s = st.copy(); s.facts.update(base)
            s.facts[('S', k)] = (l, h, frozenset(x for x in ne if l <= x <= h))
            out.append(((sign if sg > 0 else {'-': '+', '+': '-', '0': '0'}[sign]), s))
        # '-' and '+' both possible but not '0' keeps the exclusion
        return out
    def signin(self, st, lin, want):
        """[(bool, state)]: is the sign in want"""
        outs = self.cmpsplit(st, lin)
        if len({o[0] in want for o in outs}) == 1 and outs: return [(outs[0][0] in want, st)]
        res = []
        for val in (True, False):
            xs = [s for sg, s in outs if (sg in want) == val]
            if not xs: continue
            if len(xs) == 1: res.append((val, xs[0])); continue
            signs = {sg for sg, s in outs if (sg in want) == val}
            k, sg = self.vkey(lin)
            if 'u' in signs:      # cannot be one interval: keep apart
                ys = [s for g, s in outs if (g in want) == val and g != 'u']
                us = [s for g, s in outs if (g in want) == val and g == 'u']
                for u in us: res.append((val, u))
                xs = ys; signs -= {'u'}
                if not xs: continue
                if len(xs) == 1: res.append((val, xs[0])); continue
            m = xs[0].copy(); fs = [x.facts[('S', k)] for x in xs]
            lo = min(f[0] for f in fs); hi = max(f[1] for f in fs); ne = frozenset().union(*[f[2] for f in fs])
            if signs == {'-', '+'}: ne = ne | {-lin[0] * sg}
            m.facts[('S', k)] = (lo, hi, ne); res.append((val, m))
        return res
    def fact(self, st, a):
        """[(bool, state)] for an uninterpreted boolean atom"""
        k = ('B', a); self.symtest = True
        if k in st.facts: return [(st.facts[k], st)]
        r = self.theory(st, a)
        if r is not None: return [(r, st)]
        t = st.copy(); t.facts[k] = True; f = st.copy(); f.facts[k] = False
        return [(True, t), (False, f)]
    def theory(self, st, a):
        if a[0] == 'nonempty':
            if any(isinstance(p, str) or p[0] == 'tok' for p in a[1]): return True
            for x, y in ((a[1], None),):
                for k, v in st.facts.items():
                    if k[0] == 'B' and v and k[1][0] == 'eq' and a[1] in k[1][1:]:
                        o = k[1][2] if k[1][1] == a[1] else k[1][1]
                        if all(isinstance(p, str) for p in o): return bool(o)
                    if k[0] == 'B' and v and k[1][0] == 'match' and k[1][2] == a[1]:
                        if not jsre.run(k[1][1], ''): return True
        if a[0] == 'eq':
            lits = [x for x in a[1:] if all(isinstance(p, str) for p in x)]
            if len(lits) == 1:
                o = a[1] if a[2] == lits[0] else a[2]; c = lits[0][0] if lits[0] else ''
                if all(isinstance(p, str) or p[0] == 'tok' or (p[0] == 'lower' and p[1][0] == 'tok') for p in o) and any(ch not in TOKCHARS for ch in c) and not any(isinstance(p, str) for p in o): return False
                if c == '' and ('B', ('nonempty', o)) in st.facts: return not st.facts[('B', ('nonempty', o))]
                if c != '' and st.facts.get(('B', ('nonempty', o))) is False: return False
                pre = self.prefix_of(st, o)
                if pre and not (c.startswith(pre) if len(c) >= len(pre) else pre.startswith(c) and False): return False
                for k, v in st.facts.items():
                    if k[0] == 'B' and k[1][0] == 'match' and k[1][2] == o and jsre.run(k[1][1], c) != v: return False
                    if k[0] == 'B' and v and k[1][0] == 'eq' and o in k[1][1:]:
                        p = k[1][2] if k[1][1] == o else k[1][1]
                        if all(isinstance(q, str) for q in p) and p != lits[0]: return False
        if a[0] == 'match':
            for k, v in st.facts.items():
                if k[0] == 'B' and v and k[1][0] == 'eq' and a[2] in k[1][1:]:
                    p = k[1][2] if k[1][1] == a[2] else k[1][1]
                    if all(isinstance(q, str) for q in p): return jsre.run(a[1], p[0] if p else '')
        return None
    def assume(self, st, guard):
        """state with extra facts, or None when they contradict"""
        s = st.copy()
        for k, v in guard:
            if k[0] == 'S':
                c = s.facts.get(k, FULL); lo = max(c[0], v[0]); hi = min(c[1], v[1])
                if lo > hi: return None
                s.facts[k] = (lo, hi, c[2] | v[2])
                if lo == hi and lo in s.facts[k][2]: return None
                if s.facts.get(('U', k[1])) is True: return None
            elif k[0] == 'GE':
                if k[1] not in s.ge: s.ge = s.ge + (k[1],)
            elif k[0] == 'KN': s.known[k[1]] = v
            elif k[0] == 'PF': s.prefix[k[1]] = v
            else:
                if k in s.facts and s.facts[k] != v: return None
                s.facts[k] = v
        return s
    def deref(self, st, v):
        if v[0] == 'phi':
            out = []
            for g, x in v[1]:
                s = self.assume(st, g)
                if s is not None: out += self.deref(s, x)
            return out
        if v[0] == 'alts':
            k = ('A', v[1])
            if k in st.facts: return self.deref(st, v[2][st.facts[k]])
            out = []
            for i, x in enumerate(v[2]):
                s = st.copy(); s.facts[k] = i; out += self.deref(s, x)
            return out
        if v[0] == 'os':
            return [(('s', (v,)) if t else UNDEF, s) for t, s in self.fact(st, ('def', v[1]))]
        return [(v, st)]
    # ------------------------------------------------------------ conversions
    def truthy(self, st, v):
        """[(bool, state)]"""
        out = []
        for x, s in self.deref(st, v):
            h = x[0]
            if h in ('undef', 'null'): out.append((False, s))
            elif h == 'b': out.append((x[1], s))
            elif h == 'n': out += [(not t, q) for t, q in self.signin(s, x[1], ('0', 'u'))]
            elif h == 's':
                c = sconc(x)
                if c is not None: out.append((bool(c), s))
                elif any((isinstance(p, str) and p) or p[0] in ('num', 'hex', 'tok') for p in x[1]) or self.prefix_of(s, x[1]): out.append((True, s))
                else: out += self.fact(s, ('nonempty', x[1]))
            else: out.append((True, s))
        return out
    def tostr(self, st, v, n):
        """[(string value, state)]"""
        def f(x, s):
            h = x[0]
            if h == 's': return [(x, s)]
            if h == 'n':
                if conc(x):
                    c = cval(x)
                    return [(S('NaN' if c != c else 'Infinity' if c == INF else '-Infinity' if c == -INF else repr(c)), s)]
                return [(('s', (('num', x[1]),)), s)]
            if h == 'b': return [(S('true' if x[1] else 'false'), s)]
            if h == 'undef': return [(S('undefined'), s)]
            if h == 'null': return [(S('null'), s)]
            if h == 'r':
                k = s.heap[x[1]]['kind']
                if k == 'buffer': return [(('s', (('bufstr', self.content(s, x), S('utf8')),)), s)]
                return [(('s', (('objstr', x[1]),)), s)]
            raise Unsupported('string conversion of %s at %s' % (h, self.at(n)))
        return bind([(x, s) for x, s in self.deref(st, v)], f)
    def tonum(self, st, v, n):
        out = []
        for x, s in self.deref(st, v):
            h = x[0]
            if h == 'n': out.append((x, s))
            elif h == 'b': out.append((num(int(x[1])), s))
            elif h == 'undef': out.append((num(NAN), s))
            elif h == 'null': out.append((num(0), s))
            elif h == 's':
                c = sconc(x)
                if c is None:
                    if len(x[1]) == 1 and x[1][0][0] == 'num': out.append((('n', x[1][0][1]), s))
                    else: out.append((atom(('tonum', x[1])), s))
                else: out.append((num(js_num(c)), s))
            else: out.append((num(NAN), s))
        return out
    # ------------------------------------------------------------ strings
    def prefix_of(self, st, pieces):
        """characters the string is known to start with"""
        out = ''
        for p in pieces:
            if isinstance(p, str): out += p; continue
            if p in st.prefix: out += st.prefix[p]
            elif p[0] == 'bufstr': out += self.bufprefix(st, p[1])
            elif p[0] == 'drop' and conc(('n', p[2])): out += self.prefix_of(st, p[1])[p[2][0]:]
            break
        return out
    def bufprefix(self, st, content):
        if not content: return ''
        p = content[0]
        if p[0] == 'lit': return p[1].decode('latin1') if p[1].isascii() else ''
        if p[0] == 'slice':
            _, base, a, b = p
            for (kb, ka), txt in st.known.items():
                if kb != base: continue
                d = ladd(a, ka, -1)
                if not d[1] and 0 <= d[0] < len(txt):
                    t = txt[d[0]:]
                    while t and not self.nonneg(st, ladd(ladd(b, a, -1), (len(t), ()), -1)): t = t[:-1]
                    return t
        return ''
    def slen(self, st, v):
        c = (0, ())
        for p in v[1]:
            if isinstance(p, str): c = ladd(c, (len(p), ()))
            elif p[0] == 'hex': c = ladd(c, lscale(self.blen(st, p[1]), 2))
            else: c = ladd(c, (0, ((('slen', p), 1),)))
        return ('n', c)
    def pblen(self, p):
        if p[0] == 'lit': return (len(p[1]), ())
        if p[0] == 'nat' and p[1].startswith('crc32'): return (4, ())
        if tokbuf(p): return (0, ((('slen', p[1][0]), 1),))
        if p[0] == 'enc' and len(p[1]) == 1 and not isinstance(p[1][0], str) and p[1][0][0] == 'hex': return None
        return (0, ((('len', p), 1),))
    def blen(self, st, content):
        c = (0, ())
        for p in content:
            l = self.pblen(p)
            if l is None: l = lscale(self.blen(st, p[1][0][1]), 2)
            c = ladd(c, l)
        return c
    # ------------------------------------------------------------ operators
    def eq(self, st, a, b, strict, n):
        """[(bool, state)]"""
        out = []
        for x, s0 in self.deref(st, a):
            for y, s in self.deref(s0, b):
                hx, hy = x[0], y[0]
                if hx == hy:
                    if hx in ('undef', 'null'): out.append((True, s))
                    elif hx == 'b': out.append((x[1] == y[1], s))
                    elif hx == 'n': out += self.signin(s, ladd(x[1], y[1], -1), ('0',))
                    elif hx == 's': out += self.streq(s, x[1], y[1])
                    else: out.append((x == y, s))
                elif {hx, hy} == {'undef', 'null'}: out.append((not strict, s))
                elif strict or hx in ('undef', 'null') or hy in ('undef', 'null'): out.append((False, s))
                elif 'r' in (hx, hy) or 'bi' in (hx, hy):
                    if hx in ('r', 'bi', 'nat') and hy in ('r', 'bi', 'nat'): out.append((False, s)); continue
                    for p, s1 in self.tostr(s, x if hx == 'r' else y, n):
                        out += self.eq(s1, p if hx == 'r' else x, p if hy == 'r' else y, False, n)
                else:
                    for p, s1 in self.tonum(s, x, n):
                        for q, s2 in self.tonum(s1, y, n): out += self.signin(s2, ladd(p[1], q[1], -1), ('0',))
        return out
    def streq(self, st, a, b):
        if a == b: return [(True, st)]
        ca, cb = sconc(('s', a)), sconc(('s', b))
        if ca is not None and cb is not None: return [(ca == cb, st)]
        # common literal ends
        def up(x): return all((isinstance(p, str) and p.isascii() and p == p.upper()) or (not isinstance(p, str) and (p[0] == 'num' or p[0] == 'upper' and p[1][0] in ('tok', 'hex'))) for p in x)
        if up(a) and up(b) and any(not isinstance(p, str) and p[0] == 'upper' for p in a + b):      # the same in small letters
            low = lambda x: scat((), [p.lower() if isinstance(p, str) else p if p[0] == 'num' else p[1] if p[1][0] == 'hex' else ('lower', p[1]) for p in x])
            return self.streq(st, low(a), low(b))
        for x, y, sw in ((a, cb, 0), (b, ca, 1)):      # no letters: the case does not matter
            if y is not None and len(x) == 1 and not isinstance(x[0], str) and x[0][0] in ('lower', 'upper') and y.isascii() and not any(c.isalpha() for c in y):
                return self.streq(st, (x[0][1],), (y,) if y else ())
        a, b = list(a), list(b)
        while a and b:
            if a[0] == b[0]: a.pop(0); b.pop(0)
            elif isinstance(a[0], str) and isinstance(b[0], str):
                k = 0
                while k < min(len(a[0]), len(b[0])) and a[0][k] == b[0][k]: k += 1
                if k < min(len(a[0]), len(b[0])): return [(False, st)]
                for l in (a, b):
                    if len(l[0]) == k: l.pop(0)
                    else: l[0] = l[0][k:]
            else: break
        while a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
            x, y = a[-1], b[-1]; k = 0
            while k < min(len(x), len(y)) and x[-1 - k] == y[-1 - k]: k += 1
            if k < min(len(x), len(y)): return [(False, st)]
            for l in (a, b):
                if len(l[-1]) == k: l.pop()
                else: l[-1] = l[-1][:-k]
        if not a and not b: return [(True, st)]
        a, b = tuple(a), tuple(b)
        if not a or not b:
            o = a or b
            if any(isinstance(p, str) or p[0] in ('num', 'hex', 'tok') or (p[0] in ('lower', 'upper') and p[1][0] == 'tok') for p in o): return [(False, st)]
            return [(not t, s) for t, s in self.fact(st, ('nonempty', o))]
        l1, l2 = self.slen(st, ('s', a))[1], self.slen(st, ('s', b))[1]
        lo, hi = self.bnd(st, ladd(l1, l2, -1))
        if lo > 0 or hi < 0: return [(False, st)]
        if repr(b) < repr(a): a, b = b, a
        out = []
        for t, s in self.fact(st, ('eq', a, b)):
            if t:
                for x, y in ((a, b), (b, a)):
                    c = sconc(('s', y))
                    if c and len(x) == 1 and not isinstance(x[0], str) and x[0][0] == 'substr' and x[0][2] == 0 and x[0][3] == len(c) and len(x[0][1]) == 1:
                        s = s.copy(); s.prefix[x[0][1][0]] = c
            out.append((t, s))
        return out
    def rel(self, st, op, a, b, n):
        out = []
        for x, s0 in self.deref(st, a):
            for y, s in self.deref(s0, b):
                if x[0] == 's' and y[0] == 's':
                    ca, cb = sconc(x), sconc(y)
                    if ca is not None and cb is not None: out.append(({'<': ca < cb, '>': ca > cb, '<=': ca <= cb, '>=': ca >= cb}[op], s))
                    else: out += self.fact(s, ('strcmp', op, x[1], y[1]))
                    continue
                for p, s1 in self.tonum(s, x, n):
                    for q, s2 in self.tonum(s1, y, n):
                        out += self.signin(s2, ladd(p[1], q[1], -1), {'<': '-', '>': '+', '<=': '-0', '>=': '0+'}[op])
        return out
    def arith(self, st, op, a, b, n):
        out = []
        if op == '+':
            for x, s0 in self.deref(st, a):
                for y, s in self.deref(s0, b):
                    if 's' in (x[0], y[0]) or 'r' in (x[0], y[0]) or 'bi' in (x[0], y[0]):
                        for p, s1 in self.tostr(s, x, n):
                            for q, s2 in self.tostr(s1, y, n): out.append((('s', scat(p[1], q[1])), s2))
                    else:
                        for p, s1 in self.tonum(s, x, n):
                            for q, s2 in self.tonum(s1, y, n): out.append((self.nan(ladd(p[1], q[1])), s2))
            return out
        for p, s1 in self.tonum(st, a, n):
            for q, s in self.tonum(s1, b, n): out.append((self.num2(s, op, p, q, n), s))
        return out
    def nan(self, lin): return num(NAN) if lin[0] != lin[0] else ('n', lin)
    def num2(self, st, op, p, q, n):
        if conc(p) and conc(q):
            x, y = cval(p), cval(q)
            if x != x or y != y:
                if op in ('|', '&', '^', '>>', '>>>', '<<'): x = 0 if x != x else x; y = 0 if y != y else y
                else: return num(NAN)
            try:
                if op == '-': return num(x - y)
                if op == '*': return num(x * y)
                if op == '/': return num(x / y if y else (NAN if x == 0 else INF if x > 0 else -INF))
                if op == '%': return num(math.fmod(x, y) if y else NAN)
                if op == '**': return num(x ** y)
                i32 = lambda v: ((int(v) + (1 << 31)) % (1 << 32)) - (1 << 31)
                x, y = i32(x), i32(y)
                if op == '|': return num(x | y)
                if op == '&': return num(x & y)
                if op == '^': return num(x ^ y)
                if op == '<<': return num(i32(x << (y & 31)))
                if op == '>>': return num(x >> (y & 31))
                if op == '>>>': return num((x % (1 << 32)) >> (y & 31))
            except (OverflowError, ValueError): return num(NAN)
        if op == '-': return self.nan(ladd(p[1], q[1], -1))
        if op == '*' and (conc(p) or conc(q)):
            a, k = (q, cval(p)) if conc(p) else (p, cval(q))
            if k == k and abs(k) != INF: return ('n', lscale(a[1], k))
        if op == '/' and conc(q) and cval(q) and cval(q) == cval(q) and abs(cval(q)) != INF:
            k = cval(q)
            if p[1][0] % k == 0 and all(c % k == 0 for _, c in p[1][1]): return ('n', (p[1][0] // k, tuple((a, c // k) for a, c in p[1][1])))
        if op == '/': return atom(('div', p[1], q[1]))
        if op == '*': return atom(('mul',) + tuple(sorted((p[1], q[1]), key=repr)))
        if op in ('|', '>>', '<<') and conc(q) and cval(q) == 0:
            lo, hi = self.bnd(st, p[1])
            if lo >= -(1 << 31) and hi < 1 << 31 and self.isint(p[1]): return p
            return atom(('toint32', p[1]))
        if op == '>>>' and conc(q) and cval(q) == 0:
            lo, hi = self.bnd(st, p[1])
            if lo >= 0 and hi < 1 << 32 and self.isint(p[1]): return p
        if op == '%' and conc(q) and abs(cval(q)) == 1 and self.isint(p[1]): return num(0)
        if op == '%' and conc(q): return atom(('mod', p[1], q[1]))
        return atom(('op', op, p[1], q[1]))
    # ------------------------------------------------------------ scopes
    def newscope(self, st, parent):
        self.nid += 1; self.parent[self.nid] = parent; st.scopes[self.nid] = {}; return self.nid
    def lookup(self, st, sid, name):
        while sid is not None:
            if name in st.scopes[sid]: return sid
            sid = self.parent[sid]
        return None
    def setvar(self, st, sid, name, v):
        d = dict(st.scopes[sid]); d[name] = v; st.scopes[sid] = d
    def getvar(self, st, sid, name, n):
        q = self.lookup(st, sid, name)
        if q is None:
            if name == 'undefined': return [(UNDEF, st)]
            if name == 'NaN': return [(num(NAN), st)]
            if name == 'Infinity': return [(num(INF), st)]
            if name in GLOBALS: return [(('bi', name), st)]
            self.event(st, 'unresolved', name, self.at(n))
            return self.throw(st, 'ReferenceError', name + ' is not defined', n)
        v = st.scopes[q][name]
        if v == ('tdz',): return self.throw(st, 'ReferenceError', name + ' used before its definition', n)
        if v[0] == 'phi': return [(x, s) for x, s in self.deref(st, v)]
        return [(v, st)]
    def assignvar(self, st, sid, name, v, n):
        q = self.lookup(st, sid, name)
        if q is None:
            self.event(st, 'write-global', name, self.at(n))
            return self.throw(st, 'ReferenceError', 'assignment to undeclared ' + name, n)
        if self.module_ids is not None and q <= self.module_ids: self.event(st, 'write-module', 'variable ' + name, self.at(n))
        if st.scopes[q].get(name) and st.scopes[q][name][0] == 'const': return self.throw(st, 'TypeError', 'assignment to constant ' + name, n)
        self.setvar(st, q, name, v)
        return [(v, st)]
    # ------------------------------------------------------------ program
    def load(self):
        """interpret the module; -> (state, exports value)"""
        st = St(); self.top = self.newscope(st, None)
        ex = self.new(st, 'object'); mod = self.new(st, 'object'); self.obj(st, mod)['props']['exports'] = ex
        self.obj(st, mod)['name'] = 'module'
        for k, v in (('module', mod), ('exports', ex), ('this', ex)): self.setvar(st, self.top, k, v)
        outs = self.run_body(self.ast['body'], st, self.top, True)
        outs = [(c, s) for c, s in outs]
        if len(outs) != 1 or outs[0][0] is not None: raise AnalysisError('the module does not load along one path: %r' % ([o[0] for o in outs],))
        st = outs[0][1]; self.module_ids = self.nid; self.mod = mod
        self.load_log = dict(self.log); self.log = {}; st.events = ()
        exv = self.obj(st, mod)['props']['exports']
        return st, exv
    def run_body(self, body, st, sid, is_fn):
        if is_fn:
            for nm in scope_names(body):
                if nm not in st.scopes[sid]: self.setvar(st, sid, nm, UNDEF)
        self.hoist(body, st, sid)
        return self.stmts(body, st, sid)
    def hoist(self, body, st, sid):
        for s in body:
            if s['type'] == 'FunctionDeclaration': self.setvar(st, sid, s['id']['name'], self.closure(st, s, sid))
            elif s['type'] == 'VariableDeclaration' and s['kind'] != 'var':
                for d in s['declarations']:
                    for nm in pat_names(d['id']): self.setvar(st, sid, nm, ('tdz',))
            elif s['type'] == 'ClassDeclaration': self.setvar(st, sid, s['id']['name'], ('tdz',))
    def closure(self, st, n, sid, this=None):
        f = self.new(st, 'function', node=n, scope=sid)
        if n['type'] != 'ArrowFunctionExpression':
            p = self.new(st, 'object'); self.obj(st, p)['props']['constructor'] = f; self.obj(st, f)['props']['prototype'] = p
        return f
    def stmts(self, body, st, sid):
        cur = [st]; outs = []
        for s in body:
            nxt = []
            for q in cur:
                for c, q2 in self.stmt(s, q, sid):
                    if c is None: nxt.append(q2)
                    else: outs.append((c, q2))
            cur = nxt
            if len(cur) + len(outs) > self.max_states: raise AnalysisError('too many paths at %s' % self.at(s))
            if not cur: break
        return outs + [(None, q) for q in cur]
    # ------------------------------------------------------------ merging
    def delta(self, base, st):
        out = [(k, v) for k, v in st.facts.items() if base.facts.get(k) != v]
        out += [(('GE', g), True) for g in st.ge if g not in base.ge]
        out += [(('KN', k), v) for k, v in st.known.items() if base.known.get(k) != v]
        out += [(('PF', k), v) for k, v in st.prefix.items() if base.prefix.get(k) != v]
        return tuple(out)
    def merge(self, base, outs):
        """join the normally completing states of a branch when they differ only in values"""
        if not self.merge_on: return outs
        norm = [s for c, s in outs if c is None]
        if len(norm) < 2: return outs
        rest = [(c, s) for c, s in outs if c is not None]
        groups = {}
        for s in norm: groups.setdefault(s.events, []).append(s)
        res = []
        for g in groups.values():
            if len(g) == 1: res.append((None, g[0])); continue
            m = g[0].copy()
            ds = [self.delta(base, s) for s in g]
            m.facts = {k: v for k, v in g[0].facts.items() if all(s.facts.get(k) == v for s in g[1:])}
            m.ge = tuple(x for x in g[0].ge if all(x in s.ge for s in g[1:]))
            m.known = {k: v for k, v in g[0].known.items() if all(s.known.get(k) == v for s in g[1:])}
            m.prefix = {k: v for k, v in g[0].prefix.items() if all(s.prefix.get(k) == v for s in g[1:])}
            fine = True
            for sid in list(m.scopes):
                vs = [s.scopes.get(sid) for s in g]
                if any(v is None for v in vs):
                    m.scopes[sid] = next(v for v in vs if v is not None); continue
                if all(v is vs[0] for v in vs): continue
                d = {}
                for nm in set().union(*vs):
                    xs = [v.get(nm, UNDEF) for v in vs]
                    d[nm] = xs[0] if all(x == xs[0] for x in xs) else ('phi', tuple(zip(ds, xs)))
                m.scopes[sid] = d
            for s in g[1:]:
                for sid in s.scopes: m.scopes.setdefault(sid, s.scopes[sid])
            ids = set().union(*[s.heap.keys() for s in g])
            for oid in ids:
                xs = [s.heap.get(oid) for s in g]
                have = [x for x in xs if x is not None]
                if len(have) < len(xs) or all(x is have[0] or x == have[0] for x in have): m.heap[oid] = have[0]; continue
                o = dict(have[0])
                b = base.heap.get(oid)
                fs = set().union(*have)
                if o['kind'] == 'array' and any(x.get('rest') is not None or x['items'][:len(b['items']) if b else 0] != (b['items'] if b else ()) for x in have):
                    fs -= {'items', 'rest', 'restkey'}
                    if not all(all(x.get(f) == o.get(f) for f in ('items', 'rest', 'restkey')) for x in have):
                        k = 0; its = ()
                        while all(len(x['items']) > k and (x['items'][k] == have[0]['items'][k] or x['items'][k][0] != 'g') for x in have) and len(have) == len(xs):
                            es = [x['items'][k] for x in have]
                            its += (es[0] if all(e == es[0] for e in es) else ('phi', tuple(zip(ds, es))),); k += 1
                        r = tuple(dict.fromkeys(e for x, s in zip(have, g) for e in [self.abstract(s, i, self.nid) for i in x['items'][k:]] + list(x.get('rest') or ())))
                        o['items'] = its; o['rest'] = r or None; o['restkey'] = self.fresh('rest')[1]
                for f in fs:
                    ys = [x.get(f) for x in have]
                    if all(y == ys[0] for y in ys): continue
                    if f == 'items' and b is not None and all(tuple(y[:len(b['items'])]) == tuple(b['items']) for y in ys):
                        k = len(b['items']); its = ()
                        while len(have) == len(xs) and all(len(y) > k and y[k][0] != 'g' for y in ys):
                            es = [y[k] for y in ys]; its += (es[0] if all(e == es[0] for e in es) else ('phi', tuple(zip(ds, es))),); k += 1
                        o['items'] = tuple(b['items']) + its + tuple(('g', (ds[i],) + (e[1] if e[0] == 'g' else ()), e[2] if e[0] == 'g' else e) for i, y in enumerate(ys) for e in y[k:])
                    elif f == 'props':
                        d = {}
                        for nm in dict.fromkeys(k for y in ys for k in y):
                            zs = [y.get(nm, UNDEF) for y in ys]
                            d[nm] = zs[0] if all(z == zs[0] for z in zs) else ('phi', tuple(zip(ds, zs)))
                        o['props'] = d
                    elif f in ('dyn', 'stale'): o[f] = tuple(dict.fromkeys(e for y in ys for e in (y or ())))
                    else: fine = False
                m.heap[oid] = o
            if fine: res.append((None, m))
            else: res += [(None, s) for s in g]
        return rest + res
    # ------------------------------------------------------------ statements
    def stmt(self, n, st, sid):
        return getattr(self, 's_' + n['type'], self.s_unknown)(n, st, sid)
    def s_unknown(self, n, st, sid): raise Unsupported('%s at %s is not modelled' % (n['type'], self.at(n)))
    def vals(self, outs):
        return [(v if isinstance(v, Abrupt) else None, s) for v, s in outs]
    def s_ExpressionStatement(self, n, st, sid): return self.vals(self.ev(n['expression'], st, sid))
    def s_EmptyStatement(self, n, st, sid): return [(None, st)]
    def s_FunctionDeclaration(self, n, st, sid): return [(None, st)]
    def s_DebuggerStatement(self, n, st, sid): return [(None, st)]
    def s_ClassDeclaration(self, n, st, sid):
        def f(v, s): self.setvar(s, sid, n['id']['name'], v); return [(None, s)]
        return bind(self.ev(n, st, sid), f)
    def s_VariableDeclaration(self, n, st, sid):
        outs = [(None, st)]
        for d in n['declarations']:
            nxt = []
            for c, s in outs:
                if c is not None: nxt.append((c, s)); continue
                if d['init'] is None:
                    if n['kind'] != 'var':
                        s = s.copy()
                        for nm in pat_names(d['id']): self.setvar(s, sid, nm, UNDEF)
                    nxt.append((None, s)); continue
                def f(v, s2):
                    return [(x if isinstance(x, Abrupt) else None, s3) for x, s3 in self.bindpat(d['id'], v, s2.copy(), sid, n['kind'])]
                r = self.ev(d['init'], s, sid)
                nxt += bind(r, f)
            outs = nxt
        return outs
    def bindpat(self, p, v, st, sid, kind):
        """bind a declaration pattern; kind None assigns"""
        t = p['type']
        if t == 'Identifier':
            if kind is None: return self.assignvar(st, sid, p['name'], v, p)
            q = sid
            if kind == 'var':
                q = self.lookup(st, sid, p['name'])
                if q is None: q = sid
                if q == self.top and self.module_ids is not None and q <= self.module_ids: self.event(st, 'write-module', 'variable ' + p['name'], self.at(p))
            self.setvar(st, q, p['name'], v); return [(v, st)]
        if t == 'AssignmentPattern':
            out = []
            for x, s in self.deref(st, v):
                if x == UNDEF: out += bind(self.ev(p['right'], s, sid), lambda y, s2: self.bindpat(p['left'], y, s2.copy(), sid, kind))
                else: out += self.bindpat(p['left'], x, s.copy(), sid, kind)
            return out
        if t == 'MemberExpression' and kind is None: return self.assign_member(p, v, st, sid)
        if t == 'ObjectPattern':
            outs = [(v, st)]
            for q in p['properties']:
                if q['type'] != 'Property' or q['computed']: raise Unsupported('pattern at %s' % self.at(p))
                key = q['key'].get('name', q['key'].get('value'))
                outs = bind(outs, lambda _, s: bind(self.getprop(s, v, str(key), p), lambda x, s2: self.bindpat(q['value'], x, s2.copy(), sid, kind)))
            return outs
        if t == 'ArrayPattern':
            outs = [(v, st)]
            for i, q in enumerate(p['elements']):
                if q is None: continue
                if q['type'] == 'RestElement': raise Unsupported('pattern at %s' % self.at(p))
                outs = bind(outs, lambda _, s: bind(self.getprop(s, v, str(i), p), lambda x, s2: self.bindpat(q, x, s2.copy(), sid, kind)))
            return outs
        raise Unsupported('pattern %s at %s' % (t, self.at(p)))
    def s_BlockStatement(self, n, st, sid):
        if any((s['type'] == 'VariableDeclaration' and s['kind'] != 'var') or s['type'] in ('ClassDeclaration', 'FunctionDeclaration') for s in n['body']):
            st = st.copy(); sid = self.newscope(st, sid); self.hoist(n['body'], st, sid)
        return self.stmts(n['body'], st, sid)
    def s_ReturnStatement(self, n, st, sid):
        if n['argument'] is None: return [(Abrupt('return', UNDEF), st)]
        return bind(self.ev(n['argument'], st, sid), lambda v, s: [(Abrupt('return', v), s)])
    def s_ThrowStatement(self, n, st, sid):
        return bind(self.ev(n['argument'], st, sid), lambda v, s: [(Abrupt('throw', v), s)])
    def s_BreakStatement(self, n, st, sid): return [(Abrupt('break', n['label'] and n['label']['name']), st)]
    def s_ContinueStatement(self, n, st, sid): return [(Abrupt('continue', n['label'] and n['label']['name']), st)]
    def s_LabeledStatement(self, n, st, sid):
        lab = n['label']['name']
        if n['body']['type'] in ('WhileStatement', 'ForStatement', 'DoWhileStatement', 'ForInStatement', 'ForOfStatement'):
            outs = getattr(self, 's_' + n['body']['type'])(n['body'], st, sid, lab)
        else: outs = self.stmt(n['body'], st, sid)
        return [(None if isinstance(c, Abrupt) and c.kind == 'break' and c.val == lab else c, s) for c, s in outs]
    def s_IfStatement(self, n, st, sid):
        outs = []
        for t, s in self.cond(n['test'], st, sid):
            if isinstance(t, Abrupt): outs.append((t, s)); continue
            b = n['consequent'] if t else n['alternate']
            outs += self.stmt(b, s, sid) if b else [(None, s)]
        return self.merge(st, outs)
    def cond(self, n, st, sid):
        """[(bool or Abrupt, state)]"""
        out = []
        for v, s in self.ev(n, st, sid):
            if isinstance(v, Abrupt): out.append((v, s))
            else: out += self.truthy(s, v)
        return out
    def s_SwitchStatement(self, n, st, sid):
        outs = []
        for v, s in self.ev(n['discriminant'], st, sid):
            if isinstance(v, Abrupt): outs.append((v, s)); continue
            s = s.copy(); bs = self.newscope(s, sid)
            self.hoist([x for c in n['cases'] for x in c['consequent']], s, bs)
            starts = []; cur = [s]; dflt = None
            for i, c in enumerate(n['cases']):
                if c['test'] is None: dflt = i; continue
                nxt = []
                for q in cur:
                    for t, q2 in self.ev(c['test'], q, bs):
                        if isinstance(t, Abrupt): outs.append((t, q2)); continue
                        for e, q3 in self.eq(q2, v, t, True, c):
                            (starts.append((i, q3)) if e else nxt.append(q3))
                cur = nxt
            for q in cur: starts.append((dflt if dflt is not None else len(n['cases']), q))
            for i, q in starts:
                body = [x for c in n['cases'][i:] for x in c['consequent']]
                for c, q2 in self.stmts(body, q, bs):
                    outs.append((None if isinstance(c, Abrupt) and c.kind == 'break' and c.val is None else c, q2))
        return self.merge(st, outs)
    def s_TryStatement(self, n, st, sid):
        outs = []
        for c, s in self.stmt(n['block'], st, sid):
            if isinstance(c, Abrupt) and c.kind == 'throw' and n['handler']:
                s = s.copy(); hs = self.newscope(s, sid)
                if n['handler']['param']:
                    for nm in pat_names(n['handler']['param']): self.setvar(s, hs, nm, c.val)
                outs += self.stmt(n['handler']['body'], s, hs)
            else: outs.append((c, s))
        if n['finalizer']:
            res = []
            for c, s in outs:
                for c2, s2 in self.stmt(n['finalizer'], s, sid): res.append((c if c2 is None else c2, s2))
            outs = res
        return outs
    # ------------------------------------------------------------ loops
    def s_WhileStatement(self, n, st, sid, lab=None):
        bl = self.byteloop(n, st, sid, lab)
        if bl is not None: return bl
        return self.loop(n, st, lambda s: self.cond(n['test'], s, sid), lambda s: self.stmt(n['body'], s, sid), None, lab)
    def s_DoWhileStatement(self, n, st, sid, lab=None):
        first = []; outs = []
        for c, s in self.stmt(n['body'], st, sid):
            if c is None or (c.kind == 'continue' and c.val in (None, lab)): first.append(s)
            elif c.kind == 'break' and c.val in (None, lab): outs.append((None, s))
            else: outs.append((c, s))
        for s in first: outs += self.loop(n, s, lambda q: self.cond(n['test'], q, sid), lambda q: self.stmt(n['body'], q, sid), None, lab)
        return self.merge(st, outs)
    def s_ForStatement(self, n, st, sid, lab=None):
        st = st.copy(); fs = self.newscope(st, sid)
        if n['init'] and n['init']['type'] == 'VariableDeclaration':
            if n['init']['kind'] != 'var':
                for d in n['init']['declarations']:
                    for nm in pat_names(d['id']): self.setvar(st, fs, nm, UNDEF)
            outs = self.stmt(n['init'], st, fs)
        elif n['init']: outs = self.vals(self.ev(n['init'], st, fs))
        else: outs = [(None, st)]
        res = []
        for c, s in outs:
            if c is not None: res.append((c, s)); continue
            test = (lambda q: self.cond(n['test'], q, fs)) if n['test'] else (lambda q: [(True, q)])
            upd = (lambda q: self.vals(self.ev(n['update'], q, fs))) if n['update'] else None
            bl = self.byteloop(n, s, fs, lab)
            res += bl if bl is not None else self.loop(n, s, test, lambda q: self.stmt(n['body'], q, fs), upd, lab)
        return res
    # --- loops that copy some of the bytes of a Buffer, decided by running the body once for each byte value
    def byteloop(self, n, st, fs, lab):
        """for(i = 0; i < x.length; i++), the same as a while loop, and for(c of x)"""
        of = n['type'] == 'ForOfStatement'; body = n['body']; i = sid = x = v = None
        if of:
            v = fs[1]; fs = fs[0]; content = self.content(st, v)
        else:
            t = n['test']
            if n['type'] == 'ForStatement': u = n['update']
            else:
                if body['type'] != 'BlockStatement' or not body['body'] or body['body'][-1]['type'] != 'ExpressionStatement': return None
                u = body['body'][-1]['expression']; body = dict(body, body=body['body'][:-1])
                if has_continue(body): return None
            if not t or not u or t['type'] != 'BinaryExpression' or t['operator'] not in ('<', '!=', '!==') or t['left']['type'] != 'Identifier': return None
            i = t['left']['name']; sid = self.lookup(st, fs, i)
            if sid is None or st.scopes[sid][i] != num(0): return None
            if not (u['type'] == 'UpdateExpression' and u['operator'] == '++' and u['argument'].get('name') == i or u['type'] == 'AssignmentExpression' and u['operator'] == '+=' and u['left'].get('name') == i and u['right'].get('value') == 1): return None
            src = set(); ok = [True]
            def walk(y):
                if isinstance(y, list):
                    for z in y: walk(z)
                    return
                if not isinstance(y, dict): return
                if y.get('type') == 'MemberExpression' and y['computed'] and y['property'].get('type') == 'Identifier' and y['property']['name'] == i and y['object']['type'] == 'Identifier': src.add(y['object']['name']); return
                if y.get('type') == 'Identifier' and y['name'] == i: ok[0] = False
                for k, z in y.items():
                    if k == 'property' and not y.get('computed'): continue
                    if isinstance(z, (dict, list)): walk(z)
            walk(body)
            src = {y for y in src if (lambda q: q is not None and st.scopes[q][y][0] == 'r' and self.isbuf(st, st.scopes[q][y]))(self.lookup(st, fs, y))}
            if not ok[0] or len(src) != 1: return None
            x = src.pop(); v = st.scopes[self.lookup(st, fs, x)][x]
            # the buffer is used for nothing else
            uses = [0]
            def count(y):
                if isinstance(y, list): [count(z) for z in y]
                elif isinstance(y, dict):
                    if y.get('type') == 'Identifier' and y['name'] == x: uses[0] += 1
                    if y.get('type') == 'MemberExpression' and y['computed'] and y['object'].get('name') == x and y['property'].get('name') == i: uses[0] -= 1
                    [count(z) for z in y.values() if isinstance(z, (dict, list))]
            count(body)
            if uses[0]: return None
            content = self.content(st, v); ts = self.ev(t['right'], st, fs)
            if len(ts) != 1 or isinstance(ts[0][0], Abrupt) or ts[0][1] is not st or ts[0][0][0] != 'n' or ladd(ts[0][0][1], self.blen(st, content), -1) != (0, ()): return None
        keep = set(); target = None; ctr = None; names = set()
        for b in range(256):
            s = st.copy(); ids = set(s.heap); sc = set(s.scopes)
            self.setobj(s, v[1], content=(('lit', bytes([b])),))
            for oid, o in st.heap.items():
                if o['kind'] == 'buffer' and oid != v[1] and len(o['content']) == 1 and o['content'][0][0] == 'sym': self.setobj(s, oid, content=(('lit', bytes([b ^ 1, 0])),))
            try: rs = self.onelem(n, num(b), s, fs) if of else self.stmt(body, s, fs)
            except (Unsupported, AnalysisError): return None
            if len(rs) != 1: return None
            c, z = rs[0]
            if not (c is None or c.kind == 'continue' and c.val in (None, lab)) or z.events != st.events or z.facts != st.facts: return None
            got = False
            for oid in ids:
                o, o0 = z.heap[oid], s.heap[oid]
                if o is o0 or o == o0: continue
                if target not in (None, oid): return None
                if o['kind'] == 'array' and {k: y for k, y in o.items() if k != 'items'} == {k: y for k, y in o0.items() if k != 'items'} and o0.get('rest') is None and o['items'] == o0['items'] + (num(b),): pass
                elif o['kind'] == 'buffer' and {k: y for k, y in o.items() if k != 'content'} == {k: y for k, y in o0.items() if k != 'content'} and o['content'] == (('lit', bytes([b, 0])),): pass
                else: return None
                target = oid; got = True
            stepped = None
            for d in sc:
                for nm, y in z.scopes[d].items():
                    if s.scopes[d].get(nm) == y: continue
                    if s.scopes[d].get(nm) == num(0) and y == num(1) and got and z.heap[target]['kind'] == 'buffer': stepped = (d, nm)
                    elif y[0] in ('n', 's', 'b') and (d, nm) != (sid, i): names.add((d, nm))
                    else: return None
            if got:
                if z.heap[target]['kind'] == 'buffer':
                    if stepped is None or ctr not in (None, stepped): return None
                    ctr = stepped
                keep.add(b)
        if target is None or ctr in names: return None
        o = st.heap[target]
        if o['kind'] == 'array' and not all(e[0] == 'n' and conc(e) and 0 <= cval(e) < 256 and cval(e) == int(cval(e)) for e in o['items']): return None
        kept = self.keepbytes(content, keep); s = st.copy()
        if o['kind'] == 'array': self.setobj(s, target, bytes=bcat((('lit', bytes(int(cval(e)) for e in o['items'])),) if o['items'] else (), kept), items=(), rest=(('anynum',),))
        else:
            self.setobj(s, target, content=bcat(kept, (('rest', o['content'], self.fresh('left')[1]),)))
            self.setvar(s, ctr[0], ctr[1], ('n', self.blen(s, kept)))
        if i is not None: self.setvar(s, sid, i, ('n', self.blen(s, content)))
        for d, nm in names: self.setvar(s, d, nm, ('tdz',))      # whatever the last byte left there: not to be used afterwards
        return [(None, s)]
    def s_ForInStatement(self, n, st, sid, lab=None):
        def f(v, s):
            if v[0] in ('undef', 'null'): return [(None, s)]
            o = self.obj(s, v)
            if o.get('dyn') is not None: raise Unsupported('for-in over an unknown object at %s' % self.at(n))
            keys = [str(i) for i in range(len(o['items']))] if o['kind'] == 'array' else []
            return self.each(n, [S(k) for k in keys + list(o['props'])], s, sid, lab)
        return bind(bind(self.ev(n['right'], st, sid), lambda v, s: self.deref(s, v)), f)
    def s_ForOfStatement(self, n, st, sid, lab=None):
        def f(v, s):
            if v[0] == 'r' and self.isbuf(s, v):
                bl = self.byteloop(n, s, (sid, v), lab)
                if bl is not None: return bl
                return self.loop(n, s, lambda z: self.fact(z.copy(), self.fresh('more')), lambda z: self.onelem(n, atom(('byte', self.content(z, v), self.fresh('at'))), z, sid), None, lab)
            if v[0] != 'r' or self.obj(s, v)['kind'] != 'array': raise Unsupported('for-of over a non-array at %s' % self.at(n))
            o = self.obj(s, v)
            outs = self.each(n, list(o['items']), s, sid, lab)
            if o.get('rest') is None: return outs
            res = []
            for c, q in outs:
                if c is not None: res.append((c, q)); continue
                res += self.loop(n, q, lambda z: self.fact(z.copy(), self.fresh('more')), lambda z: self.onelem(n, self.restval(z, v), z, sid), None, lab)
            return res
        return bind(bind(self.ev(n['right'], st, sid), lambda v, s: self.deref(s, v)), f)
    def onelem(self, n, val, s, sid):
        s = s.copy(); fs = self.newscope(s, sid); l = n['left']
        if l['type'] == 'VariableDeclaration': b = self.bindpat(l['declarations'][0]['id'], val, s, fs, l['kind'])
        else: b = self.bindpat(l, val, s, sid, None)
        return bind(b, lambda _, s2: self.stmt(n['body'], s2, fs))
    def each(self, n, vals, st, sid, lab):
        cur = [st]; outs = []
        for val in vals:
            nxt = []
            for s in cur:
                r = []
                for c, s2 in self.onelem(n, val, s, sid):
                    if c is None or (c.kind == 'continue' and c.val in (None, lab)): r.append((None, s2))
                    elif c.kind == 'break' and c.val in (None, lab): outs.append((None, s2))
                    else: outs.append((c, s2))
                nxt += [q for _, q in self.merge(s, r)]
            cur = nxt
        return outs + [(None, s) for s in cur]
    def loop(self, n, st, test, body, update, lab):
        cur = [st]; outs = []; it = 0
        def once(s, ts=None):
            """one iteration -> (exits, continuing states)"""
            ex = []; co = []
            for t, s2 in (test(s) if ts is None else ts):
                if isinstance(t, Abrupt): ex.append((t, s2)); continue
                if not t: ex.append((None, s2)); continue
                r = []
                for c, s3 in body(s2):
                    if c is None or (c.kind == 'continue' and c.val in (None, lab)):
                        for c2, s4 in (update(s3) if update else [(None, s3)]):
                            if c2 is None: r.append((None, s4))
                            else: ex.append((c2, s4))
                    elif c.kind == 'break' and c.val in (None, lab): ex.append((None, s3))
                    else: ex.append((c, s3))
                co += [q for _, q in self.merge(s2, r)]
            return ex, co
        while cur:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit in the loop at %s' % self.at(n))
            tests = []; sym = it > (60 if self.unroll else 300)
            for s in cur:
                self.symtest = False; ts = test(s); sym = sym or (self.symtest and not self.unroll) or len(ts) > 1
                tests.append(ts)
            # one and the same iteration both goes on and stops: the number of iterations is not a constant
            sym = sym or len({t for ts in tests for t, _ in ts if isinstance(t, bool)}) > 1
            if sym and it >= 1:
                go = [s for s, ts in zip(cur, tests) if any(t is True for t, _ in ts)]
                for s, ts in zip(cur, tests):
                    if s not in go: outs += [(None if t is False else t, q) for t, q in ts]
                for _, s in self.merge(st, [(None, s) for s in go]): outs += self.summary(n, s, once)
                break
            cur = []
            for ts in tests:
                ex, co = once(None, ts); outs += ex; cur += co
            cur = [q for _, q in self.merge(st, [(None, q) for q in cur])]
            if sym:
                for s in cur: outs += self.summary(n, s, once)
                break
            it += 1
            if len(outs) + len(cur) > self.max_states: raise AnalysisError('too many paths in the loop at %s' % self.at(n))
        return self.merge(st, outs)
    symtest = False
    unroll = False
    deadline = None
    # --- fixpoint
    def summary(self, n, st, once):
        """outcomes of a loop entered any number of times from st on"""
        mark = self.nid; mods = {}; omods = {}
        for rnd in range(12):
            h, names = self.havoc(n, st, mods, omods)
            ex, co = once(h)
            grew = False
            for c in co:
                for sid, d in c.scopes.items():
                    if sid not in st.scopes or d is h.scopes.get(sid): continue
                    for nm, v in d.items():
                        if nm in h.scopes[sid] and v != h.scopes[sid][nm]:
                            prev = mods.setdefault((sid, nm), [])
                            w = self.abstract(c, v, mark)
                            if w not in prev and not self.covers(h.scopes[sid][nm], w, c): prev.append(w); grew = True
                            elif (sid, nm) not in names: grew = True
                for oid, o in c.heap.items():
                    if oid > mark or oid not in st.heap or o is h.heap.get(oid) or o == h.heap.get(oid): continue
                    m = omods.setdefault(oid, {'items': [], 'dyn': [], 'props': {}})
                    ho = h.heap[oid]
                    if o.get('items') != ho.get('items'):
                        for e in o['items'][len(st.heap[oid]['items']):]:
                            w = self.abstract(c, e, mark)
                            if w not in m['items']: m['items'].append(w); grew = True
                    for e in (o.get('dyn') or ()):
                        if e not in (ho.get('dyn') or ()):
                            w = self.abstract(c, e, mark)
                            if w not in m['dyn']: m['dyn'].append(w); grew = True
                    for k, v in o['props'].items():
                        if ho['props'].get(k) != v:
                            l = m['props'].setdefault(k, [])
                            w = self.abstract(c, v, mark)
                            if w not in l: l.append(w); grew = True
            if not grew: break
        else: raise AnalysisError('no fixpoint for the loop at %s' % self.at(n))
        # lower bounds that the loop keeps
        self.loops.append({'at': self.at(n), 'head': h, 'back': co, 'names': names, 'start': st})
        return ex
    def covers(self, hv, w, c):
        if hv == w: return True
        if hv[0] == 'n' and hv[1][1] and hv[1][1][0][0][0] == 'hv' and len(hv[1][1]) == 1:
            lo = self.bounds[hv[1][1][0][0]][0]
            if w[0] == 'n': return conc(w) and cval(w) >= lo
            if w[0] == 'anynum': return lo == -INF or (w[1] is not None and w[1] >= lo)
        if hv[0] == 's' and len(hv[1]) == 1 and not isinstance(hv[1][0], str) and hv[1][0][0] == 'hv':
            k = self.bounds[('slen', hv[1][0])][0]
            if w[0] == 'anystr': return w[1] >= k
            if w[0] == 's' and sconc(w) is not None: return len(sconc(w)) >= k
        if w[0] == 'oneof': return all(self.covers(hv, x, c) for x in w[1])
        if hv[0] == 'alts': return any(self.covers(x, w, c) for x in hv[2])
        return False
    def abstract(self, st, v, mark):
        """forget the identity of objects made inside the loop, and the exact value of numbers and strings"""
        if v[0] == 'g': v = v[2]
        if v[0] == 'r' and v[1] > mark: return self.shape(st, v)
        if v[0] == 's' and sconc(v) is None: return ('anystr', int(self.bnd(st, self.slen(st, v)[1])[0] >= 1 or bool(self.prefix_of(st, v[1]))))
        if v[0] == 'n' and v[1][1]:
            lo = self.bnd(st, v[1], 3)[0]
            return ('anynum', 1 if lo >= 1 else 0 if lo >= 0 else -1 if lo >= -1 else None)
        if v[0] in ('phi', 'alts'):
            xs = [self.abstract(st, x[1] if v[0] == 'phi' else x, mark) for x in (v[1] if v[0] == 'phi' else v[2])]
            xs = tuple(dict.fromkeys(y for x in xs for y in (x[1] if x[0] == 'oneof' else (x,)))); return xs[0] if len(xs) == 1 else ('oneof', xs)
        if v[0] == 'os': return ('oneof', (UNDEF, ('anystr', 0)))
        return v
    def shape(self, st, v):
        if v[0] == 'shape': return v
        o = st.heap[v[1]]
        if o['kind'] in ('function', 'regex', 'bound'): return v
        ab = lambda x: self.abstract(st, x, -1) if x[0] != 'r' or st.heap[x[1]]['kind'] not in ('function',) else x
        props = {k: ab(x) for k, x in o['props'].items()}
        if o['kind'] == 'array' and o.get('rest') is None and not any(x[0] == 'g' for x in o['items']): items = ('fix',) + tuple(ab(x) for x in o['items'])
        else: items = tuple(dict.fromkeys(ab(x) for x in o.get('items', ()))) + tuple(o.get('rest') or ())
        dyn = tuple(o.get('dyn') or ())
        if dyn: dyn = tuple(dict.fromkeys(dyn + tuple(props.values()))); props = {}
        return ('shape', o['kind'], o['proto'], tuple(sorted(props.items())), tuple(dict.fromkeys(items)), dyn)
    def joinshapes(self, shs):
        a = shs[0]
        for b in shs[1:]:
            if a[1:3] != b[1:3]: return None
            ra, rb = dict(a[3]), dict(b[3]); dyn = tuple(dict.fromkeys(a[5] + b[5]))
            if dyn and (ra or rb):
                dyn = tuple(dict.fromkeys(dyn + tuple(ra.values()) + tuple(rb.values()))); rec = {}
            elif dyn: rec = {}
            else:
                rec = {}
                for k in dict.fromkeys(list(ra) + list(rb)):
                    xs = []
                    for r in (ra, rb):
                        w = r.get(k, UNDEF); xs += list(w[1]) if w[0] == 'oneof' else [w]
                    xs = tuple(dict.fromkeys(xs)); rec[k] = xs[0] if len(xs) == 1 else ('oneof', xs)
            ia, ib = a[4], b[4]
            fa, fb = ia[:1] == ('fix',), ib[:1] == ('fix',)
            if fa and fb and len(ia) == len(ib):
                its = ('fix',)
                for x, w in zip(ia[1:], ib[1:]):
                    xs = tuple(dict.fromkeys((x[1] if x[0] == 'oneof' else (x,)) + (w[1] if w[0] == 'oneof' else (w,))))
                    its += (xs[0] if len(xs) == 1 else ('oneof', xs),)
            else: its = tuple(dict.fromkeys((ia[1:] if fa else ia) + (ib[1:] if fb else ib)))
            a = ('shape', a[1], a[2], tuple(sorted(rec.items(), key=lambda t: t[0])), its, dyn)
        return a
    def join(self, st, key, vals):
        """one value standing for all of vals"""
        vs = []
        for v in vals:
            for x in (v[1] if v[0] == 'oneof' else (v,)):
                if x not in vs: vs.append(x)
        if len(vs) == 1 and vs[0][0] not in ('anynum', 'shape', 'anystr'): return vs[0]
        nums = [v for v in vs if v[0] in ('n', 'anynum')]; strs = [v for v in vs if v[0] in ('s', 'anystr')]; shs = [v for v in vs if v[0] == 'shape']
        alts = [v for v in vs if v not in nums and v not in strs and v not in shs]
        kinds = {}
        for sh in shs: kinds.setdefault(sh[1:3], []).append(sh)
        for i, g in enumerate(kinds.values()): alts.append(self.materialise(st, self.joinshapes(g), key + (i,) if isinstance(key, tuple) else key))
        if nums:
            if len(nums) == 1 and nums[0][0] == 'n': alts.append(nums[0])
            else:
                a = ('hv', key, 'n'); lo = INF
                for v in nums:
                    l = v[1] if v[0] == 'anynum' else cval(v) if conc(v) else self.bnd(st, v[1])[0]
                    lo = -INF if l is None or l != l else min(lo, l)
                self.bounds[a] = (lo, INF)
                if any(v[0] == 'n' and conc(v) and cval(v) != cval(v) for v in nums): alts.append(num(NAN))
                alts.append(atom(a))
        if strs:
            if len(strs) == 1 and strs[0][0] == 's': alts.append(strs[0])
            else:
                p = ('hv', key, 's'); k = min(v[1] if v[0] == 'anystr' else int(bool(sconc(v)) if sconc(v) is not None else self.bnd(st, self.slen(st, v)[1])[0] >= 1) for v in strs)
                self.bounds[('slen', p)] = (k, INF)
                alts.append(('s', (p,)))
        return alts[0] if len(alts) == 1 else ('alts', ('hv', key), tuple(alts))
    def materialise(self, st, sh, name):
        r = self.new(st, sh[1]); o = self.obj(st, r); o['proto'] = sh[2]
        if sh[1] == 'array':
            if sh[4][:1] == ('fix',): o['items'] = tuple(self.join(st, ('mat', r[1], i), [w]) for i, w in enumerate(sh[4][1:]))
            else: o['items'] = (); o['rest'] = sh[4] or None; o['restkey'] = self.nid
        if sh[5]: o['dyn'] = sh[5]
        for k, w in sh[3]: o['props'][k] = self.join(st, ('mat', r[1], k), [w])
        if sh[1] == 'buffer': o['content'] = (('sym', ('mat', self.nid)),)
        if isinstance(name, str): o['name'] = name
        return r
    def havoc(self, n, st, mods, omods):
        h = st.copy(); names = {}
        for (sid, nm), vs in mods.items():
            e = st.scopes[sid][nm]
            key = (self.at(n), nm, self.fresh('L')[1])
            vals = [self.abstract(st, e, self.nid) if e[0] != 'r' else e] + vs
            v = self.join(h, key, vals)
            names[(sid, nm)] = v
            self.setvar(h, sid, nm, v)
        for oid, m in omods.items():
            o = dict(h.heap[oid])
            if o['kind'] == 'array': o['rest'] = tuple(dict.fromkeys(tuple(o.get('rest') or ()) + tuple(m['items']))); o['restkey'] = self.fresh('rest')[1]
            if m['dyn']:
                o['dyn'] = tuple(dict.fromkeys(tuple(o.get('dyn') or ()) + tuple(m['dyn'])))
                o['stale'] = tuple(dict.fromkeys(tuple(o.get('stale') or ()) + tuple(o['props'])))
            if m['props']:
                p = dict(o['props'])
                for k, vs in m['props'].items(): p[k] = self.join(h, (self.at(n), oid, k), ([p[k]] if k in p else [UNDEF]) + vs)
                o['props'] = p
            h.heap[oid] = o
        return h, names
    def restval(self, st, v):
        """some element of the summarised part of an array"""
        o = st.heap[v[1]]
        return self.join(st, ('elem', v[1], self.fresh('e')[1]), list(o['rest']) or [UNDEF])
    # ------------------------------------------------------------ expressions
    def ev(self, n, st, sid):
        return getattr(self, 'e_' + n['type'], self.s_unknown)(n, st, sid)
    def evl(self, ns, st, sid):
        """[(list of values, state)]"""
        outs = [([], st)]
        for a in ns:
            nxt = []
            for vs, s in outs:
                if isinstance(vs, Abrupt): nxt.append((vs, s)); continue
                if a is not None and a['type'] == 'SpreadElement':
                    def sp(v, s2):
                        o = self.obj(s2, v) if v[0] == 'r' else None
                        if not o or o['kind'] != 'array' or o.get('rest') is not None or any(e[0] == 'g' for e in o['items']): raise Unsupported('spread at %s' % self.at(a))
                        return [(vs + list(o['items']), s2)]
                    nxt += bind(bind(self.ev(a['argument'], s, sid), lambda v, q: self.deref(q, v)), sp)
                else:
                    for v, s2 in (self.ev(a, s, sid) if a is not None else [(UNDEF, s)]): nxt.append((v if isinstance(v, Abrupt) else vs + [v], s2))
            outs = nxt
        return outs
    def e_Literal(self, n, st, sid):
        if 'regex' in n and n['regex']:
            st = st.copy(); return [(self.new(st, 'regex', pattern=n['regex']['pattern'], flags=n['regex']['flags']), st)]
        v = n.get('value')
        if v is None: return [(NULL, st)]
        if isinstance(v, bool): return [(('b', v), st)]
        if isinstance(v, (int, float)): return [(num(v), st)]
        if isinstance(v, str): return [(S(v), st)]
        raise Unsupported('literal at %s' % self.at(n))
    def e_TemplateLiteral(self, n, st, sid):
        def f(vs, s):
            outs = [(S(n['quasis'][0]['value']['cooked']), s)]
            for i, v in enumerate(vs):
                outs = bind(outs, lambda a, q: bind(self.tostr(q, v, n), lambda b, q2: [(('s', scat(scat(a[1], b[1]), S(n['quasis'][i + 1]['value']['cooked'])[1])), q2)]))
            return outs
        return bind(self.evl(n['expressions'], st, sid), f)
    def e_Identifier(self, n, st, sid): return self.getvar(st, sid, n['name'], n)
    def e_ThisExpression(self, n, st, sid):
        q = self.lookup(st, sid, 'this'); return [(st.scopes[q]['this'], st)]
    def e_ParenthesizedExpression(self, n, st, sid): return self.ev(n['expression'], st, sid)
    def e_SequenceExpression(self, n, st, sid): return bind(self.evl(n['expressions'], st, sid), lambda vs, s: [(vs[-1], s)])
    def e_FunctionExpression(self, n, st, sid):
        st = st.copy()
        if n.get('id'):
            sid = self.newscope(st, sid); f = self.closure(st, n, sid); self.setvar(st, sid, n['id']['name'], f); return [(f, st)]
        return [(self.closure(st, n, sid), st)]
    e_ArrowFunctionExpression = e_FunctionExpression
    def e_ClassExpression(self, n, st, sid):
        if n.get('superClass'): raise Unsupported('class with a superclass at %s' % self.at(n))
        st = st.copy(); ctor = None
        for m in n['body']['body']:
            if m['type'] == 'MethodDefinition' and m['kind'] == 'constructor': ctor = m['value']
            elif m['type'] != 'MethodDefinition' or m['kind'] != 'method' or m['computed']: raise Unsupported('class member at %s' % self.at(m))
        if ctor is None: ctor = {'type': 'FunctionExpression', 'params': [], 'body': {'type': 'BlockStatement', 'body': []}, 'loc': n.get('loc'), 'id': None}
        f = self.closure(st, ctor, sid); p = self.obj(st, f)['props']['prototype']
        for m in n['body']['body']:
            if m['kind'] == 'method':
                t = f if m['static'] else p
                o = dict(self.obj(st, t)); o['props'] = dict(o['props']); o['props'][m['key'].get('name', m['key'].get('value'))] = self.closure(st, m['value'], sid); st.heap[t[1]] = o
        return [(f, st)]
    e_ClassDeclaration = e_ClassExpression
    def e_ArrayExpression(self, n, st, sid):
        def f(vs, s): s = s.copy(); return [(self.new(s, 'array', items=tuple(vs)), s)]
        return bind(self.evl(n['elements'], st, sid), f)
    def e_ObjectExpression(self, n, st, sid):
        outs = [({}, st)]
        for p in n['properties']:
            nxt = []
            for d, s in outs:
                if isinstance(d, Abrupt): nxt.append((d, s)); continue
                if p['type'] == 'SpreadElement':
                    for v, s2 in bind(self.ev(p['argument'], s, sid), lambda v, q: self.deref(q, v)):
                        if isinstance(v, Abrupt): nxt.append((v, s2)); continue
                        e = dict(d)
                        if v[0] == 'r': e.update(self.obj(s2, v)['props'])
                        nxt.append((e, s2))
                    continue
                if p.get('kind') in ('get', 'set'): raise Unsupported('accessor at %s' % self.at(p))
                if p['computed']: raise Unsupported('computed key at %s' % self.at(p))
                key = p['key'].get('name', p['key'].get('value')); key = str(key)
                for v, s2 in self.ev(p['value'], s, sid):
                    if isinstance(v, Abrupt): nxt.append((v, s2)); continue
                    e = dict(d); e[key] = v; nxt.append((e, s2))
            outs = nxt
        res = []
        for d, s in outs:
            if isinstance(d, Abrupt): res.append((d, s)); continue
            s = s.copy(); r = self.new(s, 'object'); self.obj(s, r)['props'] = d
            if '__proto__' in d:
                pr = d.pop('__proto__'); self.obj(s, r)['proto'] = pr[1] if pr[0] == 'r' else 'null'
            res.append((r, s))
        return res
    def e_UnaryExpression(self, n, st, sid):
        op = n['operator']
        if op == 'typeof':
            a = n['argument']
            if a['type'] == 'Identifier' and self.lookup(st, sid, a['name']) is None and a['name'] not in GLOBALS and a['name'] not in ('undefined', 'NaN', 'Infinity'): return [(S('undefined'), st)]
            def f(v, s): return [(S({'undef': 'undefined', 'null': 'object', 'b': 'boolean', 'n': 'number', 's': 'string', 'nat': 'function'}.get(v[0]) or ('function' if v[0] == 'bi' and v[1] not in ('Math', 'JSON', 'process') else 'object' if v[0] == 'bi' else 'function' if s.heap[v[1]]['kind'] == 'function' else 'object')), s)]
            return bind(bind(self.ev(a, st, sid), lambda v, s: self.deref(s, v)), f)
        if op == 'delete':
            if n['argument']['type'] != 'MemberExpression': return [(TRUE, st)]
            def f(ok, s):
                o, k = ok
                if o[0] == 'r':
                    c = self.propkey(k)
                    if c is None: raise Unsupported('delete of an unknown key at %s' % self.at(n))
                    self.wrote(s, o, c, n); d = dict(self.obj(s, o)); d['props'] = dict(d['props']); d['props'].pop(c, None); s = s.copy(); s.heap[o[1]] = d
                return [(TRUE, s)]
            return bind(self.member(n['argument'], st, sid), f)
        if op == '!':
            return [(v if isinstance(v, Abrupt) else ('b', not v), s) for v, s in self.cond(n['argument'], st, sid)]
        def g(v, s):
            if op == 'void': return [(UNDEF, s)]
            if op == '+': return self.tonum(s, v, n)
            if op == '-': return [(('n', lscale(x[1], -1)) if x[1][1] else num(-cval(x)), q) for x, q in self.tonum(s, v, n)]
            if op == '~': return [(num(~((int(cval(x)) + (1 << 31)) % (1 << 32) - (1 << 31)) if cval(x) == cval(x) else -1) if conc(x) else ('n', ladd(lscale(x[1], -1), (-1, ()))), q) for x, q in self.tonum(s, v, n)]
            raise Unsupported('operator %s' % op)
        return bind(self.ev(n['argument'], st, sid), g)
    def e_BinaryExpression(self, n, st, sid):
        op = n['operator']
        def f(vs, s):
            a, b = vs
            if op in ('==', '!=', '===', '!=='):
                return [(('b', t == (op[0] == '=')), q) for t, q in self.eq(s, a, b, len(op) == 3, n)]
            if op in ('<', '>', '<=', '>='): return [(('b', t), q) for t, q in self.rel(s, op, a, b, n)]
            if op == 'in':
                out = []
                for x, q in self.deref(s, b):
                    for k, q2 in self.tostr(q, a, n):
                        if x[0] != 'r': out += self.throw(q2, 'TypeError', "right-hand side of 'in' is not an object", n); continue
                        out += [(('b', t), q3) for t, q3 in self.hasprop(q2, x, k)]
                return out
            if op == 'instanceof':
                out = []
                for x, q in self.deref(s, a):
                    if b == ('bi', 'Buffer') or b == ('bi', 'Uint8Array'): out.append((('b', self.isbuf(q, x)), q))
                    elif x[0] != 'r': out.append((FALSE, q))
                    elif b[0] == 'r':
                        p = self.obj(q, b)['props'].get('prototype'); o = self.obj(q, x); hit = False
                        while o.get('proto') not in (None, 'null'):
                            if p and o['proto'] == p[1]: hit = True; break
                            o = q.heap[o['proto']]
                        out.append((('b', hit), q))
                    elif b == ('bi', 'Error'): out.append((('b', self.obj(q, x)['kind'] == 'error'), q))
                    elif b == ('bi', 'Array'): out.append((('b', self.obj(q, x)['kind'] == 'array'), q))
                    else: raise Unsupported('instanceof at %s' % self.at(n))
                return out
            return self.arith(s, op, a, b, n)
        return bind(self.evl([n['left'], n['right']], st, sid), f)
    def e_LogicalExpression(self, n, st, sid):
        op = n['operator']
        def f(v, s):
            out = []
            if op == '??':
                for x, q in self.deref(s, v): out += self.ev(n['right'], q, sid) if x[0] in ('undef', 'null') else [(x, q)]
                return out
            for x, q0 in self.deref(s, v):
                for t, q in self.truthy(q0, x):
                    out += self.ev(n['right'], q, sid) if t == (op == '&&') else [(x, q)]
            return out
        return bind(self.ev(n['left'], st, sid), f)
    def e_ConditionalExpression(self, n, st, sid):
        out = []
        for t, s in self.cond(n['test'], st, sid):
            out += [(t, s)] if isinstance(t, Abrupt) else self.ev(n['consequent'] if t else n['alternate'], s, sid)
        return out
    def e_AssignmentExpression(self, n, st, sid):
        l = n['left']; op = n['operator']
        if op == '=':
            if l['type'] == 'MemberExpression':
                return bind(self.member(l, st, sid), lambda ok, s: bind(self.ev(n['right'], s, sid), lambda v, q: self.setprop(q, ok[0], ok[1], v, n)))
            return bind(self.ev(n['right'], st, sid), lambda v, s: bind(self.bindpat(l, v, s.copy(), sid, None), lambda _, q: [(v, q)]))
        def upd(cur, s, put):
            if op in ('||=', '&&=', '??='):
                out = []
                for x, q0 in self.deref(s, cur):
                    for t, q in ([(x[0] not in ('undef', 'null'), q0)] if op == '??=' else self.truthy(q0, x)):
                        go = t if op == '&&=' else not t
                        out += bind(self.ev(n['right'], q, sid), put) if go else [(x, q)]
                return out
            return bind(self.ev(n['right'], s, sid), lambda v, q: bind(self.arith(q, op[:-1], cur, v, n), put))
        if l['type'] == 'MemberExpression':
            return bind(self.member(l, st, sid), lambda ok, s: bind(self.getprop(s, ok[0], ok[1], n), lambda cur, q: upd(cur, q, lambda v, z: self.setprop(z, ok[0], ok[1], v, n))))
        return bind(self.ev(l, st, sid), lambda cur, s: upd(cur, s, lambda v, q: self.assignvar(q.copy(), sid, l['name'], v, n)))
    def e_UpdateExpression(self, n, st, sid):
        k = 1 if n['operator'] == '++' else -1; a = n['argument']
        def go(cur, s, put):
            out = []
            for x, q in self.tonum(s, cur, n):
                y = self.nan(ladd(x[1], (k, ())))
                out += bind(put(y, q), lambda _, z: [(y if n['prefix'] else x, z)])
            return out
        if a['type'] == 'MemberExpression':
            return bind(self.member(a, st, sid), lambda ok, s: bind(self.getprop(s, ok[0], ok[1], n), lambda cur, q: go(cur, q, lambda v, z: self.setprop(z, ok[0], ok[1], v, n))))
        return bind(self.ev(a, st, sid), lambda cur, s: go(cur, s, lambda v, q: self.assignvar(q.copy(), sid, a['name'], v, n)))
    # ------------------------------------------------------------ members
    def member(self, n, st, sid):
        """[((object value, key), state)], key a str or a value"""
        def f(o, s):
            out = []
            for x, q in self.deref(s, o):
                if n['computed']:
                    for k, q2 in self.ev(n['property'], q, sid):
                        if isinstance(k, Abrupt): out.append((k, q2)); continue
                        for kk, q3 in self.deref(q2, k): out.append(((x, kk), q3))
                else: out.append(((x, n['property']['name']), q))
            return out
        return bind(self.ev(n['object'], st, sid), f)
    def propkey(self, k):
        if isinstance(k, str): return k
        if k[0] == 's': return sconc(k)
        if k[0] == 'n' and conc(k): return repr(cval(k))
        if k[0] in ('undef', 'null', 'b'): return {'undef': 'undefined', 'null': 'null'}.get(k[0]) or str(k[1]).lower()
        return None
    def e_MemberExpression(self, n, st, sid):
        def f(ok, s):
            if n.get('optional') and ok[0][0] in ('undef', 'null'): return [(UNDEF, s)]
            return self.getprop(s, ok[0], ok[1], n)
        return bind(self.member(n, st, sid), f)
    def e_ChainExpression(self, n, st, sid): return self.ev(n['expression'], st, sid)
    def assign_member(self, p, v, st, sid):
        return bind(self.member(p, st, sid), lambda ok, s: self.setprop(s, ok[0], ok[1], v, p))
    def protochain(self, st, o):
        seen = 0
        while o is not None and seen < 20:
            yield o
            p = o.get('proto'); o = st.heap.get(p) if isinstance(p, int) else None; seen += 1
    def is_bare(self, st, v):
        o = None
        for o in self.protochain(st, st.heap[v[1]]): pass
        return o.get('proto') == 'null'
    def hasprop(self, st, v, key):
        """[(bool, state)]; key is a string value"""
        k = sconc(key)
        o = st.heap[v[1]]
        if k is None:
            if o.get('dyn') or any(x.get('props') for x in self.protochain(st, o)): return self.fact(st, ('in', v[1], key[1], len(o['props'])))
            if not self.is_bare(st, v): return self.fact(st, ('in', v[1], key[1], len(o['props'])))
            return [(False, st)]
        for x in self.protochain(st, o):
            if k in x['props']:
                if x['props'][k] == UNDEF or x['props'][k][0] == 'phi': return self.phi_has(st, x['props'][k])
                return [(True, st)]
        if o['kind'] == 'array': return self.fact(st, ('in', v[1], key[1]))
        if not self.is_bare(st, v) and k in OBJPROTO: return [(True, st)]
        if o.get('dyn') is not None:
            out = []
            for t, s in self.fact(st, ('def', (o.get('name') or v[1], k))): out.append((t, s))
            return out
        return [(False, st)]
    def phi_has(self, st, v):
        if v[0] == 'phi':
            return [(x != UNDEF, s) for x, s in self.deref(st, v)]
        return [(True, st)]
    def getprop(self, st, o, key, n):
        if o[0] in ('phi', 'alts', 'os'): return bind(self.deref(st, o), lambda x, s: self.getprop(s, x, key, n))
        if not isinstance(key, str) and key[0] in ('phi', 'alts', 'os'): return bind(self.deref(st, key), lambda k, s: self.getprop(s, o, k, n))
        k = self.propkey(key)
        h = o[0]
        if h in ('undef', 'null'): return self.throw(st, 'TypeError', 'property %s of %s' % (k, 'undefined' if h == 'undef' else 'null'), n)
        if h == 's':
            if k == 'length': return [(self.slen(st, o), st)]
            if k in STRM: return [(('bi', 'String.' + k), st)]
            c = sconc(o)
            if c is not None and k is not None and k.isdigit(): return [(S(c[int(k)]) if int(k) < len(c) else UNDEF, st)]
            if k is not None and not k.isdigit(): return [(UNDEF, st)]
            return [(('alts', self.fresh('ch'), (UNDEF, ('s', (('char', o[1], self.fresh('i')[1]),)))), st)]
        if h == 'n': return [(('bi', 'Number.' + k) if k in NUMM else UNDEF, st)]
        if h == 'b': return [(('bi', 'Boolean.' + k) if k == 'toString' else UNDEF, st)]
        if h == 'nat':
            if k in FNM: return [(('bi', 'Function.' + k), st)]
            return [(UNDEF, st)]
        if h == 'natmod':
            if k is None: raise Unsupported('computed access to the native module at %s' % self.at(n))
            self.event(st, 'native-ref', k, self.at(n))
            if self.natives is not None and k not in self.natives: return [(UNDEF, st)]
            return [(('nat', k), st)]
        if h == 'bi':
            nm = o[1]
            if nm == 'Buffer.prototype': return [(('bi', 'Buffer.' + k) if k in BUFM else UNDEF, st)]
            if nm in ('Array.prototype', 'String.prototype', 'Object.prototype', 'Function.prototype', 'Number.prototype', 'RegExp.prototype', 'Uint8Array.prototype', 'Error.prototype'):
                b = {'Uint8Array.prototype': 'Buffer'}.get(nm, nm.split('.')[0])
                return [(('bi', b + '.' + k), st)]
            if '.' not in nm and nm in ('Buffer', 'Uint8Array') and k == 'prototype': return [(('bi', 'Buffer.prototype'), st)]
            if '.' not in nm and k == 'prototype': return [(('bi', nm + '.prototype'), st)]
            if k in FNM and nm not in ('Math', 'JSON'): return [(('bi', 'Function.' + k), st)]
            if nm in STATIC:
                if k == 'MAX_SAFE_INTEGER': return [(num(2 ** 53 - 1), st)]
                if k in STATIC[nm]: return [(('bi', nm + '::' + k), st)]
                return [(UNDEF, st)]
            if nm in ('global', 'globalThis'): return self.getvar(st, self.top, k, n) if k in GLOBALS else [(UNDEF, st)]
            return [(('bi', nm + '::' + str(k)), st)]
        ob = st.heap[o[1]]; kind = ob['kind']
        if kind == 'buffer':
            if k == 'length' or k == 'byteLength': return [(('n', self.blen(st, ob['content'])), st)]
            if k in ob['props']: return [(ob['props'][k], st)]
            if k in BUFM: return [(('bi', 'Buffer.' + k), st)]
            idx = key if not isinstance(key, str) and key[0] == 'n' else (num(int(k)) if k is not None and k.lstrip('-').isdigit() else None)
            if idx is not None: return self.byteat(st, ob['content'], idx, n)
            if k == 'hasOwnProperty': return [(('bi', 'Object.hasOwnProperty'), st)]
            return [(UNDEF, st)]
        if kind == 'array':
            if k == 'length': return [(('n', self.alen(st, o)), st)]
            if k in ob['props']: return self.readprop(st, ob['props'][k])
            if k in ARRM: return [(('bi', 'Array.' + k), st)]
            if k is not None and k.isdigit():
                i = int(k); its = ob['items']
                if not any(e[0] == 'g' for e in its):
                    if i < len(its): return self.readprop(st, its[i])
                    if ob.get('rest') is None: return [(UNDEF, st)]
                    return [(('alts', self.fresh('el'), (UNDEF, self.restval(st, o))), st)]
            if k is not None and not k.isdigit():
                if k in OBJPROTO: return [(('bi', 'Object.' + k), st)]
                return [(UNDEF, st)]
            return self.elem(st, o, key, n)
        if kind == 'regex':
            if k in ('source', 'flags', 'lastIndex', 'global'): return [({'source': S(ob['pattern']), 'flags': S(ob['flags']), 'lastIndex': num(0), 'global': ('b', 'g' in ob['flags'])}[k], st)]
            return [(('bi', 'RegExp.' + k), st)]
        if k is None: return self.dynget(st, o, key, n)
        for x in self.protochain(st, ob):
            if k in x['props'] and k not in (x.get('stale') or ()): return self.readprop(st, x['props'][k])
        if k in (ob.get('stale') or ()) or ob.get('dyn') is not None: return self.open_get(st, o, k)
        if kind == 'function' and k in FNM: return [(('bi', 'Function.' + k), st)]
        if kind == 'function' and k in ('length', 'name'): return [(num(len(ob['node']['params'])) if k == 'length' else S(''), st)]
        if not self.is_bare(st, o) and k in OBJPROTO: return [(('bi', 'Object.' + k), st)]
        return [(UNDEF, st)]
    def readprop(self, st, v):
        if v[0] == 'phi': return self.deref(st, v)
        return [(v, st)]
    def open_get(self, st, o, k):
        """property of an object whose keys were written under unknown names"""
        st = st.copy(); ob = dict(st.heap[o[1]]); st.heap[o[1]] = ob
        ob['props'] = dict(ob['props']); ob['stale'] = tuple(x for x in (ob.get('stale') or ()) if x != k)
        nm = ob.get('name') or o[1]
        certain = k in ob['props']
        kinds = list(ob['dyn'])
        if certain:
            old = ob['props'][k]
            kinds.append(self.shape(st, old) if old[0] == 'r' else self.abstract(st, old, self.nid))
        bare = self.is_bare(st, o)
        ks = []
        for x in kinds:
            for y in (x[1] if x[0] == 'oneof' else (x,)):
                if y not in ks: ks.append(y)
        shapes = [x for x in ks if x[0] == 'shape']; strs = [x for x in ks if x[0] in ('s', 'anystr')]; other = [x for x in ks if x not in shapes and x not in strs]
        if strs and not shapes and not other and not certain and bare:
            v = ('os', (nm, k)); ob['props'][k] = v; return [(v, st)]
        alts = []
        if shapes:
            sh = self.joinshapes(shapes)
            if sh is None: raise Unsupported('mixed object shapes under unknown keys')
            alts.append(self.materialise(st, sh, k))
        if strs: alts.append(('s', (('prop', nm, k),)))
        alts += [x if x[0] != 'anynum' else atom(('hv', ('prop', nm, k), 'n')) for x in other]
        v = alts[0] if len(alts) == 1 else ('alts', ('prop', nm, k), tuple(alts))
        if certain:
            ob['props'][k] = v; return [(v, st)]
        out = []
        miss = UNDEF if bare or k not in OBJPROTO else ('bi', 'Object.' + k)
        for t, s in self.fact(st, ('def', (nm, k))):
            s = s.copy(); b2 = dict(s.heap[o[1]]); b2['props'] = dict(b2['props']); s.heap[o[1]] = b2
            b2['props'][k] = v if t else miss
            out.append((v if t else miss, s))
        return out
    def dynget(self, st, o, key, n):
        ob = st.heap[o[1]]
        vals = [v for v in ob['props'].values()]
        if not self.is_bare(st, o): vals = vals + [('bi', 'Object.?')]
        if ob.get('dyn'): vals.append(self.join(st, ('dg', o[1], self.fresh('d')[1]), list(ob['dyn'])))
        return [(('alts', self.fresh('dyn'), tuple(dict.fromkeys([UNDEF] + vals))), st)]
    def alen(self, st, o):
        ob = st.heap[o[1]]; c = len([e for e in ob['items'] if e[0] != 'g']); v = (c, ())
        gs = [e for e in ob['items'] if e[0] == 'g']
        if gs: v = ladd(v, (0, ((('restlen', 'g', o[1], len(ob['items'])), 1),)))
        if ob.get('rest') is not None: v = ladd(v, (0, ((('restlen', o[1], ob.get('restkey')), 1),)))
        return v
    def elem(self, st, o, key, n):
        ob = st.heap[o[1]]
        if not isinstance(key, str) and key[0] == 'n':
            # index of a known array under a symbolic index with a small range
            lo, hi = self.bnd(st, key[1], 3)
            if ob.get('rest') is None and not any(e[0] == 'g' for e in ob['items']):
                out = []
                for i, e in enumerate(ob['items']):
                    for t, s in self.signin(st, ladd(key[1], (i, ()), -1), ('0',)):
                        if t: out += self.readprop(s, e)
                inr = self.nonneg(st, key[1]) and self.nonneg(st, ladd((len(ob['items']) - 1, ()), key[1], -1))
                if not inr: out.append((UNDEF, st))
                return out
            vals = [self.abstract(st, e, self.nid) for e in ob['items']] + list(ob.get('rest') or ())
            v = self.join(st, ('elem', o[1], self.fresh('e')[1]), vals)
            if self.nonneg(st, key[1]) and self.nonneg(st, ladd(ladd(self.alen(st, o), key[1], -1), (1, ()), -1)): return [(v, st)]
            return [(('alts', self.fresh('el'), (UNDEF, v)), st)]
        return [(('alts', self.fresh('el'), (UNDEF,) + tuple(e for e in ob['items'] if e[0] != 'g')), st)]
    def byteat(self, st, content, idx, n):
        if conc(idx) and len(content) == 1 and content[0][0] == 'lit':
            i = cval(idx); b = content[0][1]; return [(num(b[i]) if 0 <= i < len(b) else UNDEF, st)]
        if hastokbuf(content):
            x = self.bfcut(st, content, idx[1])
            if x and x[0] < len(content) and content[x[0]][0] == 'lit': return [(num(content[x[0]][1][x[1]]), st)]
            if x and x[0] == len(content): return [(UNDEF, st)]
            if self.unroll: raise Unsupported('a byte inside an unknown part of a template is read at %s' % self.at(n))
        return [(('alts', ('byte?', content, idx[1]), (atom(('byte', content, idx[1])), UNDEF)), st)]
    def wrote(self, st, o, k, n):
        if self.module_ids is not None and o[0] == 'r' and o[1] <= self.module_ids:
            self.event(st, 'write-module', 'property %s of %s' % (k, self.describe(st, o)), self.at(n))
        self.event(st, 'write', o, k, self.at(n)) if o[0] == 'r' else None
    def describe(self, st, o):
        ob = st.heap[o[1]]; return '%s defined at module level' % ob['kind']
    def setprop(self, st, o, key, v, n):
        out = []
        for x, s in self.deref(st, o):
            s = s.copy(); k = self.propkey(key)
            if x[0] in ('undef', 'null'): out += self.throw(s, 'TypeError', 'setting property %s of %s' % (k, x[0]), n); continue
            if x[0] in ('nat', 'natmod', 'bi'):
                self.event(s, 'write-module', 'property %s of %s' % (k, x[1] if len(x) > 1 else 'the native module'), self.at(n)); out.append((v, s)); continue
            if x[0] != 'r': out.append((v, s)); continue
            self.wrote(s, x, k, n)
            ob = dict(s.heap[x[1]]); s.heap[x[1]] = ob
            if ob.get('frozen'): out += self.throw(s, 'TypeError', 'write to a frozen object', n); continue
            if ob['kind'] == 'array':
                ob.pop('bytes', None)
                if k == 'length' and conc(v) and cval(v) == 0: ob['items'] = (); ob['rest'] = None
                elif k is not None and k.isdigit():
                    i = int(k); its = list(ob['items'])
                    if i > len(its) + 100: raise Unsupported('sparse array at %s' % self.at(n))
                    while len(its) <= i: its.append(UNDEF)
                    its[i] = v; ob['items'] = tuple(its)
                elif k is None: ob['rest'] = tuple(dict.fromkeys(tuple(ob.get('rest') or ()) + tuple(ob['items']) + (self.abstract(s, v, self.nid),))); ob['restkey'] = self.fresh('rest')[1]
                else: ob['props'] = dict(ob['props']); ob['props'][k] = v
            elif ob['kind'] == 'buffer':
                if k is not None and not k.isdigit() : ob['props'] = dict(ob['props']); ob['props'][k] = v
                elif k is not None and len(ob['content']) == 1 and ob['content'][0][0] == 'lit' and int(k) < len(ob['content'][0][1]) and v[0] == 'n' and conc(v) and 0 <= cval(v) < 256 and cval(v) == int(cval(v)):
                    w = bytearray(ob['content'][0][1]); w[int(k)] = int(cval(v)); ob['content'] = (('lit', bytes(w)),)
                else: ob['content'] = (('sym', self.fresh('mut')),)
            elif ob['kind'] == 'regex' and k == 'lastIndex': pass
            elif k is None:
                w = self.shape(s, v) if v[0] == 'r' and s.heap[v[1]]['kind'] not in ('function',) else self.abstract(s, v, self.nid)
                ob['dyn'] = tuple(dict.fromkeys(tuple(ob.get('dyn') or ()) + (w,)))
                ob['stale'] = tuple(dict.fromkeys(tuple(ob.get('stale') or ()) + tuple(ob['props'])))
                if not self.is_bare(s, x): self.event(s, 'dynamic-key', self.at(n))
            else:
                ob['props'] = dict(ob['props']); ob['props'][k] = v
                if k in (ob.get('stale') or ()): ob['stale'] = tuple(y for y in ob['stale'] if y != k)
                if k == 'exports' and ob.get('name') == 'module': pass
                if v[0] == 'r' and not s.heap[v[1]].get('name') and s.heap[v[1]]['kind'] == 'object' and self.module_ids is not None:
                    c = dict(s.heap[v[1]]); c['name'] = k; s.heap[v[1]] = c
            out.append((v, s))
        return out
    # ------------------------------------------------------------ calls
    def e_CallExpression(self, n, st, sid):
        c = n['callee']
        def go(fv, this, s):
            return bind(self.evl(n['arguments'], s, sid), lambda args, q: self.call(q, fv, this, args, n))
        if c['type'] == 'MemberExpression':
            def f(ok, s):
                if c.get('optional') and ok[0][0] in ('undef', 'null'): return [(UNDEF, s)]
                def g(fv, q):
                    if n.get('optional') and fv[0] in ('undef', 'null'): return [(UNDEF, q)]
                    return go(fv, ok[0], q)
                return bind(bind(self.getprop(s, ok[0], ok[1], c), lambda v, q: self.deref(q, v)), g)
            return bind(self.member(c, st, sid), f)
        return bind(bind(self.ev(c, st, sid), lambda v, s: self.deref(s, v)), lambda fv, s: [(UNDEF, s)] if n.get('optional') and fv[0] in ('undef', 'null') else go(fv, UNDEF, s))
    def e_NewExpression(self, n, st, sid):
        def f(vs, s):
            fv, args = vs[0], vs[1:]
            if fv[0] == 'bi': return self.builtin(s, fv[1], UNDEF, args, n, True)
            if fv[0] != 'r' or self.obj(s, fv)['kind'] != 'function': return self.throw(s, 'TypeError', 'not a constructor', n)
            s = s.copy(); p = self.obj(s, fv)['props'].get('prototype')
            o = self.new(s, 'object', ctor=fv[1]); self.obj(s, o)['proto'] = p[1] if p and p[0] == 'r' else None
            return bind(self.call(s, fv, o, args, n), lambda v, q: [(v if v[0] == 'r' else o, q)])
        return bind(self.evl([n['callee']] + n['arguments'], st, sid), f)
    depth = 0
    def call(self, st, fv, this, args, n):
        if fv[0] in ('phi', 'alts'): return bind(self.deref(st, fv), lambda x, s: self.call(s, x, this, args, n))
        if fv[0] == 'bi': return self.builtin(st, fv[1], this, args, n, False)
        if fv[0] == 'nat': return self.native(st, fv[1], args, n)
        if fv[0] != 'r' or st.heap[fv[1]]['kind'] not in ('function', 'bound'):
            return self.throw(st, 'TypeError', 'calling something that is not a function', n)
        ob = st.heap[fv[1]]
        if ob['kind'] == 'bound': return self.call(st, ob['target'], ob['this'], list(ob['args']) + list(args), n)
        if self.depth > 40: raise AnalysisError('recursion at %s' % self.at(n))
        node = ob['node']
        if node.get('async') or node.get('generator'): raise Unsupported('async or generator function at %s' % self.at(node))
        st = st.copy(); sid = self.newscope(st, ob['scope'])
        if node['type'] != 'ArrowFunctionExpression':
            self.setvar(st, sid, 'this', this)
            ar = self.new(st, 'array', items=tuple(args)); self.setvar(st, sid, 'arguments', ar)
        outs = [(UNDEF, st)]
        for i, p in enumerate(node['params']):
            if p['type'] == 'RestElement':
                def rest(_, s):
                    s = s.copy(); r = self.new(s, 'array', items=tuple(args[i:])); return self.bindpat(p['argument'], r, s, sid, 'let')
                outs = bind(outs, rest)
            else: outs = bind(outs, lambda _, s: self.bindpat(p, args[i] if i < len(args) else UNDEF, s.copy(), sid, 'let'))
        self.depth += 1
        try:
            if node['body']['type'] != 'BlockStatement':
                return bind(outs, lambda _, s: self.ev(node['body'], s, sid))
            res = []
            for v, s in outs:
                if isinstance(v, Abrupt): res.append((v, s)); continue
                for c, q in self.run_body(node['body']['body'], s, sid, True):
                    if c is None: res.append((UNDEF, q))
                    elif c.kind == 'return': res.append((c.val, q))
                    elif c.kind == 'throw': res.append((c, q))
                    else: raise AnalysisError('stray %s' % c.kind)
            return self.merge_calls(st, res)
        finally: self.depth -= 1
    def merge_calls(self, base, res):
        if not self.merge_on or len(res) < 2: return res
        out = [r for r in res if isinstance(r[0], Abrupt)]; by = {}
        for v, s in res:
            if not isinstance(v, Abrupt): by.setdefault(v, []).append(s)
        for v, ss in by.items(): out += [(v, s) for _, s in self.merge(base, [(None, s) for s in ss])]
        return out
    # ------------------------------------------------------------ natives
    def natkey(self, st, v):
        """functional key of an argument"""
        if v[0] == 'r':
            o = st.heap[v[1]]
            return ('buf', o['content']) if o['kind'] == 'buffer' else ('obj', v[1])
        return v
    def native(self, st, name, args, n):
        outs = [([], st)]
        for a in args: outs = [(vs + [x], s2) for vs, s in outs for x, s2 in self.deref(s, a)]
        res = []
        for vs, s in outs:
            s = s.copy()
            nargs = len(vs)
            while vs and vs[-1] == UNDEF: vs = vs[:-1]
            key = tuple(self.natkey(s, v) for v in vs)
            s.events = s.events + (('native', name, key, self.at(n), tuple(vs), nargs),)
            h = self.nspec.get(name)
            r = h(self, s, vs, key, n) if h else None
            if r is not None: res += r; continue
            if name in ('encode', 'decode') or name.startswith('crc32'): res.append((self.buf(s, (('nat', name, key),)), s))
            elif name in ('encodeTo', 'decodeTo'): res.append((atom(('nat', name, key)), s))
            elif name == 'decodeIncr':
                o = self.new(s, 'object'); p = self.obj(s, o)['props']; l = self.blen(s, key[0][1]) if key and key[0][0] == 'buf' else (0, ())
                for f in ('read', 'written'):
                    a = ('nat', name, key, f); self.bounds[a] = (0, INF); p[f] = atom(a)
                p['ended'] = ('alts', ('nat', name, key, 'ended'), (num(0), num(1), num(2)))
                p['state'] = ('alts', ('nat', name, key, 'state'), tuple(num(i) for i in range(7)))
                if len(vs) < 3 or vs[2][0] in ('undef', 'null'): p['output'] = self.buf(s, (('nat', name, key, 'output'),))
                res.append((o, s))
            else: raise Unsupported('native function %s at %s' % (name, self.at(n)))
        return res
    # ------------------------------------------------------------ builtins
    def builtin(self, st, name, this, args, n, isnew):
        if name in ('Function.call', 'Function.apply', 'Function.bind'):
            if name == 'Function.call': return self.call(st, this, args[0] if args else UNDEF, args[1:], n)
            if name == 'Function.apply':
                arr = args[1] if len(args) > 1 else UNDEF
                xs = list(st.heap[arr[1]]['items']) if arr[0] == 'r' else []
                return self.call(st, this, args[0] if args else UNDEF, xs, n)
            st = st.copy(); return [(self.new(st, 'bound', target=this, this=args[0] if args else UNDEF, args=tuple(args[1:])), st)]
        # separate joined arguments
        for i, a in enumerate([this] + list(args)):
            if a[0] in ('phi', 'alts', 'os') and name != 'Array.push':
                out = []
                for x, s in self.deref(st, a):
                    xs = [this] + list(args); xs[i] = x
                    out += self.builtin(s, name, xs[0], xs[1:], n, isnew)
                return out
        a0 = args[0] if args else UNDEF; a1 = args[1] if len(args) > 1 else UNDEF; a2 = args[2] if len(args) > 2 else UNDEF
        m = getattr(self, 'b_' + name.replace('.', '_').replace('::', '__').replace('?', '_'), None)
        if m: return m(st, this, args, a0, a1, a2, n)
        if name.startswith('Math::'): return self.math(st, name[6:], args, n)
        if name in ('Error', 'TypeError', 'RangeError', 'SyntaxError'):
            st = st.copy(); r = self.new(st, 'error', cls=name, where=self.at(n)); self.obj(st, r)['props']['message'] = a0 if a0 != UNDEF else S('')
            return [(r, st)]
        raise Unsupported('%s at %s is not modelled' % (name, self.at(n)))
    def math(self, st, f, args, n):
        outs = [([], st)]
        for a in args: outs = [(vs + [x], s2) for vs, s in outs for x, s2 in self.tonum(s, a, n)]
        res = []
        for vs, s in outs:
            if all(conc(v) for v in vs):
                c = [cval(v) for v in vs]
                if any(x != x for x in c): res.append((num(NAN), s)); continue
                fn = {'floor': lambda x: math.floor(x) if abs(x) != INF else x, 'ceil': lambda x: math.ceil(x) if abs(x) != INF else x, 'round': lambda x: math.floor(x + 0.5), 'abs': abs, 'trunc': lambda x: math.trunc(x), 'max': lambda *x: max(x, default=-INF), 'min': lambda *x: min(x, default=INF), 'pow': lambda x, y: x ** y, 'sign': lambda x: (x > 0) - (x < 0), 'sqrt': math.sqrt}.get(f)
                if fn: res.append((num(fn(*c)), s)); continue
            if f in ('floor', 'ceil', 'round', 'trunc') and self.isint(vs[0][1]): res.append((vs[0], s)); continue
            if f in ('floor', 'ceil', 'trunc'):
                g = 'floor' if f == 'trunc' and self.nonneg(s, vs[0][1]) else f
                res.append((atom((g, vs[0][1])), s)); continue
            if f in ('max', 'min') and len(vs) == 2:
                for t, q in self.signin(s, ladd(vs[0][1], vs[1][1], -1), ('+', '0')): res.append((vs[0] if t == (f == 'max') else vs[1], q))
                continue
            res.append((atom(('math', f) + tuple(v[1] for v in vs)), s))
        return res
    def b_require(self, st, this, args, a0, a1, a2, n):
        p = sconc(a0)
        if p is None: raise Unsupported('require of an unknown module')
        if p.endswith('.node') or 'yencode' in p: return [(('natmod',), st)]
        if p in ('buffer', 'node:buffer'):
            st = st.copy(); r = self.new(st, 'object'); self.obj(st, r)['props']['Buffer'] = ('bi', 'Buffer'); return [(r, st)]
        raise Unsupported('require(%r)' % p)
    # Buffer
    def b_Buffer__isBuffer(self, st, this, args, a0, a1, a2, n): return [(('b', self.isbuf(st, a0)), st)]
    def b_Buffer__from(self, st, this, args, a0, a1, a2, n):
        st = st.copy()
        if a0[0] == 's':
            enc = a1 if a1[0] == 's' else S('utf8')
            return [(self.buf(st, encode(a0[1], enc)), st)]
        if a0[0] == 'r':
            o = self.obj(st, a0)
            if o['kind'] == 'buffer': return [(self.buf(st, o['content']), st)]
            if o['kind'] == 'array' and all(e[0] == 'n' and conc(e) for e in o['items']) and o.get('rest') is None: return [(self.buf(st, bcat((), (('lit', bytes(int(cval(e)) & 255 if cval(e) == cval(e) else 0 for e in o['items'])),))), st)]
            if o['kind'] == 'array' and o.get('bytes') is not None and not o['items']: return [(self.buf(st, o['bytes']), st)]
            return [(self.buf(st, (('from', a0[1]),)), st)]
        return self.throw(st, 'TypeError', 'Buffer.from of %s' % a0[0], n)
    b_Buffer = b_Buffer__from
    def b_Buffer__alloc(self, st, this, args, a0, a1, a2, n):
        st = st.copy()
        if conc(a0) and (len(args) < 2 or conc(a1)): return [(self.buf(st, bcat((), (('lit', bytes([int(cval(a1)) & 255 if len(args) > 1 else 0]) * int(cval(a0))),))), st)]
        return [(self.buf(st, (('sym', self.fresh('alloc')),)), st)]
    def b_Buffer__allocUnsafe(self, st, this, args, a0, a1, a2, n):
        st = st.copy()
        return [(self.buf(st, (('sym', self.fresh('alloc')),) if not (conc(a0) and cval(a0) == 0) else ()), st)]
    def b_Buffer__byteLength(self, st, this, args, a0, a1, a2, n):
        if self.isbuf(st, a0): return [(('n', self.blen(st, self.content(st, a0))), st)]
        if a0[0] == 's': return [(('n', self.blen(st, encode(a0[1], a1 if a1[0] == 's' else S('utf8')))), st)]
        return self.throw(st, 'TypeError', 'byteLength', n)
    def b_Buffer__concat(self, st, this, args, a0, a1, a2, n):
        if a0[0] != 'r' or self.obj(st, a0)['kind'] != 'array': return self.throw(st, 'TypeError', 'Buffer.concat of a non-array', n)
        o = self.obj(st, a0)
        if o.get('rest') is not None or any(e[0] == 'g' for e in o['items']): raise Unsupported('concat of an unknown list at %s' % self.at(n))
        outs = [((), st)]
        for e in o['items']:
            nxt = []
            for c, s in outs:
                if isinstance(c, Abrupt): nxt.append((c, s)); continue
                for x, q in self.deref(s, e):
                    if not self.isbuf(q, x): nxt += self.throw(q, 'TypeError', 'Buffer.concat of a list with a non-Buffer', n)
                    else: nxt.append((bcat(c, self.content(q, x)), q))
            outs = nxt
        def f(c, s):
            s = s.copy()
            if a1 != UNDEF:
                d = ladd(self.blen(s, c), a1[1], -1) if a1[0] == 'n' else None
                if d != (0, ()): return [(self.buf(s, (('slice', c, (0, ()), a1[1] if a1[0] == 'n' else (NAN, ())),)), s)]
            return [(self.buf(s, c), s)]
        return bind(outs, f)
    # --- templates: literals with values of unknown text between them
    def cutat(self, pieces, lin, plen, lit):
        """(piece, offset in it) of a position that falls on the edge of a piece or into a literal"""
        acc = (0, ())
        for i, p in enumerate(pieces):
            d = ladd(lin, acc, -1)
            if not d[1]:
                t = lit(p)
                if d[0] == 0: return (i, 0)
                if t is not None and 0 < d[0] < len(t): return (i, d[0])
                if d[0] < 0: return None
            acc = ladd(acc, plen(p))
        return (len(pieces), 0) if ladd(lin, acc, -1) == (0, ()) else None
    def spcut(self, v, lin): return self.cutat(v, lin, lambda p: self.slen(None, ('s', (p,)))[1], lambda p: p if isinstance(p, str) else None)
    def bfcut(self, st, c, lin): return self.cutat(c, lin, lambda p: self.blen(st, (p,)), lambda p: p[1] if p[0] == 'lit' else None)
    def cutout(self, pieces, x, y, cut):
        (i, a), (j, b) = x, y
        if (i, a) >= (j, b): return ()
        if i == j: return (cut(pieces[i], a, b),)
        out = [cut(pieces[i], a, None) if a else pieces[i]] + list(pieces[i + 1:j])
        if b: out.append(cut(pieces[j], 0, b))
        return tuple(out)
    def tokfind(self, st, pieces, pat, at, last, plen, lit, istok):
        """position of a literal in a template, () when there is none, None when that cannot be told"""
        if not pat: return None
        dec = lambda t: t if isinstance(t, str) else t.decode('latin1')
        segs = []; acc = (0, ())
        for p in pieces: segs.append((acc, p)); acc = ladd(acc, plen(p))
        i0, o0 = at
        if last:
            for k in range(len(segs) - 1, -1, -1):
                pos, p = segs[k]; t = lit(p)
                if t is not None:
                    x = t.rfind(pat)
                    if x >= 0: return ladd(pos, (x, ()))
                elif not istok(p) or self.fits(segs, k, dec(pat), lit): return None
            return ()
        for k in range(i0, len(segs)):
            pos, p = segs[k]; t = lit(p)
            if t is not None:
                x = t.find(pat, o0 if k == i0 else 0)
                if x >= 0: return ladd(pos, (x, ()))
            elif not istok(p): return None
            elif self.fits(segs, k, dec(pat), lit): return None
        return ()
    def fits(self, segs, k, s, lit):
        """can an occurrence of s share a character with the value at segs[k]"""
        dec = lambda t: t if isinstance(t, str) else t.decode('latin1')
        before = dec(lit(segs[k - 1][1])) if k and lit(segs[k - 1][1]) is not None else None
        after = dec(lit(segs[k + 1][1])) if k + 1 < len(segs) and lit(segs[k + 1][1]) is not None else None
        for i in range(len(s)):
            for j in range(i + 1, len(s) + 1):
                if any(ch not in TOKCHARS for ch in s[i:j]): continue
                a, b = s[:i], s[j:]
                if a and before is not None and not before.endswith(a): continue
                if b and after is not None and not after.startswith(b): continue
                if b and k + 1 == len(segs): continue
                if a and k == 0: continue
                return True
        return False
    def slicev(self, st, content, a, b, n):
        """content of buf.slice(a, b): offsets are clamped like the run time does"""
        L = self.blen(st, content)
        def clamp(v, dflt):
            if v == UNDEF: return [(dflt, st)]
            out = []
            for x, s in self.tonum(st, v, n):
                lin = x[1]
                if lin[0] != lin[0]: out.append(((0, ()), s)); continue
                for neg, q in self.signin(s, lin, ('-',)):
                    l2 = ladd(lin, L) if neg else lin
                    if neg and not self.nonneg(q, l2): l2 = (0, ((('clamp', l2), 1),))
                    out.append((l2, q))
            return out
        for la, s1 in clamp(a, (0, ())):
            for lb, s2 in clamp(b, L):
                if la == (0, ()) and lb == L: yield content, s2; continue
                if len(content) == 1 and content[0][0] == 'lit' and not la[1] and not lb[1]: yield bcat((), (('lit', content[0][1][la[0]:lb[0]]),)), s2; continue
                # cut between two pieces
                acc = (0, ()); cuts = [acc]
                for p in content: acc = ladd(acc, self.blen(st, (p,))); cuts.append(acc)
                if la in cuts and lb in cuts and cuts.index(la) <= cuts.index(lb): yield content[cuts.index(la):cuts.index(lb)], s2; continue
                if hastokbuf(content):
                    x, y = self.bfcut(st, content, la), self.bfcut(st, content, lb)
                    if x and y: yield bcat((), self.cutout(content, x, y, lambda p, i, j: ('lit', p[1][i:j]))), s2; continue
                    if self.unroll: raise Unsupported('a template is cut at a position inside an unknown part at %s' % self.at(n))
                # slice of a slice
                if len(content) == 1 and content[0][0] == 'slice':
                    _, base, x, y = content[0]
                    yield (('slice', base, ladd(x, la), ladd(x, lb) if lb != L else y),), s2
                else: yield (('slice', content, la, lb),), s2
    def b_Buffer_slice(self, st, this, args, a0, a1, a2, n):
        if not self.isbuf(st, this): return self.throw(st, 'TypeError', 'slice of a non-Buffer', n)
        out = []
        for c, s in self.slicev(st, self.content(st, this), a0, a1, n):
            s = s.copy(); out.append((self.buf(s, c), s))
        return out
    b_Buffer_subarray = b_Buffer_slice
    def b_Buffer_toString(self, st, this, args, a0, a1, a2, n):
        if not self.isbuf(st, this): return self.throw(st, 'TypeError', 'toString of a non-Buffer', n)
        out = []
        for c, s in ([(self.content(st, this), st)] if len(args) < 2 else self.slicev(st, self.content(st, this), a1, a2, n)):
            enc = a0 if a0[0] == 's' else S('utf8')
            lit = b''.join(p[1] for p in c) if all(p[0] == 'lit' for p in c) else None
            if sconc(enc) == 'hex':
                out.append((S(lit.hex()) if lit is not None else ('s', (('hex', c),)), s))
            elif lit is not None and lit.isascii(): out.append((S(lit.decode()), s))
            elif sconc(enc) in ('utf8', 'utf-8', 'latin1', 'binary', 'ascii') and all(p[0] == 'lit' and p[1].isascii() or tokbuf(p) for p in c): out.append((('s', scat((), [p[1].decode() if p[0] == 'lit' else p[1][0] for p in c])), s))
            else: out.append((('s', (('bufstr', c, enc),)), s))
        return out
    def find(self, st, this, args, n, last):
        a0 = args[0] if args else UNDEF; a1 = args[1] if len(args) > 1 else UNDEF
        if not self.isbuf(st, this): return self.throw(st, 'TypeError', 'indexOf of a non-Buffer', n)
        c = self.content(st, this)
        pat = sconc(a0) if a0[0] == 's' else None
        if self.isbuf(st, a0) and all(p[0] == 'lit' for p in self.content(st, a0)): pat = b''.join(p[1] for p in self.content(st, a0)).decode('latin1')
        start = (0, ()) if a1 == UNDEF or last else a1[1] if a1[0] == 'n' else None
        if start is None: raise Unsupported('indexOf offset at %s' % self.at(n))
        if pat is not None and (hastokbuf(c) or all(p[0] == 'lit' for p in c)) and pat.isascii() and (not last or a1 == UNDEF or a1 == num(-1)):
            at = self.bfcut(st, c, start)
            r = None if at is None else self.tokfind(st, c, pat.encode(), at, last, lambda p: self.blen(st, (p,)), lambda p: p[1] if p[0] == 'lit' else None, tokbuf)
            if r is None: raise Unsupported('search for %r in a template at %s' % (pat, self.at(n)))
            return [(num(-1) if r == () else ('n', r), st)]
        a = ('find', 'last' if last else 'first', c, a0[1] if a0[0] == 's' else pat, start)
        st = st.copy()
        v = atom(a)
        L = self.blen(st, c)
        out = []
        for neg, s in self.signin(st, v[1], ('-',)):
            if neg: out.append((num(-1), s)); continue
            s = s.copy()
            if self.nonneg(s, start): s.ge = s.ge + (ladd(v[1], start, -1),)
            s.ge = s.ge + (ladd(ladd(L, v[1], -1), (len(pat) if pat else 0, ()), -1),)
            base, off = c, v[1]
            if len(c) == 1 and c[0][0] == 'slice': base, off = c[0][1], ladd(c[0][2], v[1]); s.ge = s.ge + (ladd(ladd(self.blen(s, base), off, -1), (len(pat) if pat else 0, ()), -1),)
            if pat: s.known[(base, off)] = pat
            out.append((v, s))
        return out
    def b_Buffer_indexOf(self, st, this, args, a0, a1, a2, n): return self.find(st, this, args, n, False)
    def b_Buffer_lastIndexOf(self, st, this, args, a0, a1, a2, n): return self.find(st, this, args, n, True)
    def b_Buffer_includes(self, st, this, args, a0, a1, a2, n):
        return bind(self.find(st, this, args, n, False), lambda v, s: [(('b', not t), q) for t, q in self.signin(s, v[1], ('-',))])
    def b_Buffer_equals(self, st, this, args, a0, a1, a2, n):
        if not self.isbuf(st, a0): return self.throw(st, 'TypeError', 'equals', n)
        x, y = self.content(st, this), self.content(st, a0)
        if x == y: return [(TRUE, st)]
        return self.hexeq(st, x, y)
    def hexeq(self, st, x, y):
        h = lambda c: ('s', (b''.join(p[1] for p in c).hex(),)) if all(p[0] == 'lit' for p in c) else ('s', (('hex', c),))
        return [(('b', t), s) for t, s in self.streq(st, h(x)[1], h(y)[1])]
    def b_Buffer_copy(self, st, this, args, a0, a1, a2, n):
        st = st.copy()
        if self.isbuf(st, a0): self.wrote(st, a0, 'bytes', n); self.setobj(st, a0[1], content=(('sym', self.fresh('mut')),))
        return [(atom(self.fresh('copied')), st)]
    def b_Buffer_fill(self, st, this, args, a0, a1, a2, n):
        st = st.copy(); self.wrote(st, this, 'bytes', n); self.setobj(st, this[1], content=(('sym', self.fresh('mut')),)); return [(this, st)]
    def b_Buffer_readBigInt64BE(self, st, this, args, a0, a1, a2, n): return [(atom(('read', self.content(st, this))), st)]
    def b_Buffer_readUInt32BE(self, st, this, args, a0, a1, a2, n): return [(atom(('readu32be', self.content(st, this), repr(a0))), st)]
    def b_Buffer_filter(self, st, this, args, a0, a1, a2, n): return self.bytefilter(st, self.content(st, this), a0, n, True)
    def bytefilter(self, st, content, fn, n, asbuf):
        """predicate decided for each of the 256 byte values"""
        keep = set()
        for b in range(256):
            rs = []
            for v, s in self.call(st, fn, UNDEF, [num(b), num(0), UNDEF], n):
                if isinstance(v, Abrupt): return [(v, s)]
                rs += [t for t, _ in self.truthy(s, v)]
            if len(set(rs)) != 1: raise Unsupported('filter predicate depends on more than the byte at %s' % self.at(n))
            if rs[0]: keep.add(b)
        c = self.keepbytes(content, keep); st = st.copy()
        if asbuf: return [(self.buf(st, c), st)]
        r = self.new(st, 'array', items=(), rest=(('anynum',),), bytes=c); return [(r, st)]
    def keepbytes(self, content, keep):
        out = []
        for p in content:
            if p[0] == 'lit': p = ('lit', bytes(b for b in p[1] if b in keep))
            elif p[0] == 'enc' and not p[2] and {ord(c) for c in '0123456789abcdef-+.eInfity'} <= keep: pass
            else: p = ('filter', frozenset(keep), (p,))
            out.append(p)
        return bcat((), out)
    # Object
    def b_Object__create(self, st, this, args, a0, a1, a2, n):
        st = st.copy(); r = self.new(st, 'object'); self.obj(st, r)['proto'] = a0[1] if a0[0] == 'r' else 'null'; return [(r, st)]
    def b_Object__keys(self, st, this, args, a0, a1, a2, n):
        o = self.obj(st, a0)
        if o.get('dyn') is not None: raise Unsupported('Object.keys of an unknown object at %s' % self.at(n))
        st = st.copy(); return [(self.new(st, 'array', items=tuple(S(k) for k in (([str(i) for i in range(len(o['items']))]) if o['kind'] == 'array' else list(o['props'])))), st)]
    def b_Object__values(self, st, this, args, a0, a1, a2, n):
        o = self.obj(st, a0); st = st.copy(); return [(self.new(st, 'array', items=tuple(o['props'].values())), st)]
    def b_Object__entries(self, st, this, args, a0, a1, a2, n):
        o = self.obj(st, a0); st = st.copy()
        if o.get('dyn') is not None: raise Unsupported('Object.entries of an unknown object at %s' % self.at(n))
        return [(self.new(st, 'array', items=tuple(self.new(st, 'array', items=(S(k), v)) for k, v in o['props'].items())), st)]
    def b_Object__freeze(self, st, this, args, a0, a1, a2, n):
        st = st.copy()
        if a0[0] == 'r': self.setobj(st, a0[1], frozen=True)
        return [(a0, st)]
    b_Object__seal = b_Object__freeze
    def b_Object__assign(self, st, this, args, a0, a1, a2, n):
        outs = [(a0, st)]
        for a in args[1:]:
            if a[0] != 'r': continue
            for k in list(self.obj(st, a)['props']):
                outs = bind(outs, lambda _, s: bind(self.getprop(s, a, k, n), lambda v, q: self.setprop(q, a0, k, v, n)))
        return bind(outs, lambda _, s: [(a0, s)])
    def b_Object__hasOwn(self, st, this, args, a0, a1, a2, n): return self.b_Object_hasOwnProperty(st, a0, [a1], a1, UNDEF, UNDEF, n)
    def b_Object_hasOwnProperty(self, st, this, args, a0, a1, a2, n):
        if this[0] != 'r': return [(FALSE, st)]
        out = []
        for k, s in self.tostr(st, a0, n):
            c = sconc(k); o = s.heap[this[1]]
            if c is not None and c not in o['props'] and o.get('dyn') is None: out.append((FALSE, s))
            else: out += [(('b', t), q) for t, q in self.hasprop(s, this, k)]
        return out
    def b_Object_toString(self, st, this, args, a0, a1, a2, n): return [(S('[object Object]'), st)]
    # Array
    def b_Array__isArray(self, st, this, args, a0, a1, a2, n): return [(('b', a0[0] == 'r' and self.obj(st, a0)['kind'] == 'array'), st)]
    def b_Array_push(self, st, this, args, a0, a1, a2, n):
        st = st.copy(); o = dict(self.obj(st, this)); st.heap[this[1]] = o
        self.wrote(st, this, 'elements', n)
        o['items'] = o['items'] + tuple(args)
        return [(('n', self.alen(st, this)), st)]
    def b_Array_concat(self, st, this, args, a0, a1, a2, n):
        st = st.copy(); o = self.obj(st, this); items = list(o['items']); rest = o.get('rest')
        for a in args:
            if a[0] == 'r' and self.obj(st, a)['kind'] == 'array':
                x = self.obj(st, a); items += x['items']
                if x.get('rest') is not None: rest = tuple(dict.fromkeys((rest or ()) + x['rest']))
            else: items.append(a)
        r = self.new(st, 'array', items=tuple(items))
        if rest is not None: self.obj(st, r)['rest'] = rest
        return [(r, st)]
    def known_items(self, st, v, n):
        o = self.obj(st, v)
        if o['kind'] != 'array' or o.get('rest') is not None or any(e[0] == 'g' for e in o['items']): raise Unsupported('array of unknown contents at %s' % self.at(n))
        return o['items']
    def b_Array_indexOf(self, st, this, args, a0, a1, a2, n):
        outs = []; cur = [st]
        its = self.known_items(st, this, n)
        for i, e in enumerate(its):
            nxt = []
            for s in cur:
                for t, q in self.eq(s, e, a0, True, n): (outs.append((num(i), q)) if t else nxt.append(q))
            cur = nxt
        return outs + [(num(-1), s) for s in cur]
    def b_Array_lastIndexOf(self, st, this, args, a0, a1, a2, n):
        outs = []; cur = [st]; its = self.known_items(st, this, n)
        for i in range(len(its) - 1, -1, -1):
            nxt = []
            for s in cur:
                for t, q in self.eq(s, its[i], a0, True, n): (outs.append((num(i), q)) if t else nxt.append(q))
            cur = nxt
        return outs + [(num(-1), s) for s in cur]
    def b_Array_includes(self, st, this, args, a0, a1, a2, n):
        return [(('b', cval(v) >= 0), s) for v, s in self.b_Array_indexOf(st, this, args, a0, a1, a2, n)]
    def b_Array_slice(self, st, this, args, a0, a1, a2, n):
        its = self.known_items(st, this, n); st = st.copy()
        a = int(cval(a0)) if a0[0] == 'n' and conc(a0) else 0 if a0 == UNDEF else None; b = int(cval(a1)) if a1[0] == 'n' and conc(a1) else len(its) if a1 == UNDEF else None
        if a is None or b is None: raise Unsupported('slice at %s' % self.at(n))
        return [(self.new(st, 'array', items=tuple(its[a:b])), st)]
    def b_Array_join(self, st, this, args, a0, a1, a2, n):
        outs = [((), st)]; sep = a0[1] if a0[0] == 's' else (',',)
        for i, e in enumerate(self.known_items(st, this, n)):
            outs = bind(outs, lambda c, s: bind(self.tostr(s, e, n) if e[0] not in ('undef', 'null') else [(S(''), s)], lambda v, q: [(scat(scat(c, sep if i else ()), v[1]), q)]))
        return bind(outs, lambda c, s: [(('s', c), s)])
    def b_Array_pop(self, st, this, args, a0, a1, a2, n):
        its = self.known_items(st, this, n); st = st.copy(); self.wrote(st, this, 'elements', n)
        self.setobj(st, this[1], items=tuple(its[:-1])); return [(its[-1] if its else UNDEF, st)]
    def b_Array_shift(self, st, this, args, a0, a1, a2, n):
        its = self.known_items(st, this, n); st = st.copy(); self.wrote(st, this, 'elements', n)
        self.setobj(st, this[1], items=tuple(its[1:])); return [(its[0] if its else UNDEF, st)]
    def b_Array_reverse(self, st, this, args, a0, a1, a2, n):
        its = self.known_items(st, this, n); st = st.copy(); self.setobj(st, this[1], items=tuple(reversed(its))); return [(this, st)]
    def iterate(self, st, this, fn, n, step, extra=None):
        """calls fn on each element; step(result, index, state) -> [(None, state)] to go on or [(value, state)] to stop"""
        o = self.obj(st, this); cur = [st]; outs = []
        if any(e[0] == 'g' for e in o['items']): raise Unsupported('iteration over a joined array at %s' % self.at(n))
        for i, e in enumerate(o['items']):
            nxt = []
            for s in cur:
                r = []
                for v, q in bind(self.readprop(s, e), lambda x, q0: self.call(q0, fn, UNDEF, [x, num(i), this], n)):
                    if isinstance(v, Abrupt): outs.append((v, q)); continue
                    for w, z in step(v, e, i, q):
                        if w is None: r.append((None, z))
                        else: outs.append((w, z))
                nxt += [q for _, q in self.merge(s, r)]
            cur = nxt
        if o.get('rest') is not None:
            res = []
            for s in cur:
                def body(z):
                    z = z.copy(); v = self.restval(z, this)
                    return [(x if isinstance(x, Abrupt) else None, q) for x, q in self.call(z, fn, UNDEF, [v, atom(self.fresh('index')), this], n)]
                for c, q in self.loop(n, s, lambda z: self.fact(z.copy(), self.fresh('more')), body, None, None):
                    (outs.append((c, q)) if c is not None else res.append(q))
            cur = res
        return outs, cur
    def b_Array_forEach(self, st, this, args, a0, a1, a2, n):
        if this[0] == 'r' and self.obj(st, this)['kind'] == 'buffer': raise Unsupported('forEach over a Buffer')
        outs, cur = self.iterate(st, this, a0, n, lambda v, e, i, s: [(None, s)])
        return outs + [(UNDEF, s) for s in cur]
    def b_Array_some(self, st, this, args, a0, a1, a2, n):
        outs, cur = self.iterate(st, this, a0, n, lambda v, e, i, s: [((TRUE if t else None), q) for t, q in self.truthy(s, v)])
        return outs + [(FALSE, s) for s in cur]
    def b_Array_every(self, st, this, args, a0, a1, a2, n):
        outs, cur = self.iterate(st, this, a0, n, lambda v, e, i, s: [((None if t else FALSE), q) for t, q in self.truthy(s, v)])
        return outs + [(TRUE, s) for s in cur]
    def b_Array_find(self, st, this, args, a0, a1, a2, n):
        outs, cur = self.iterate(st, this, a0, n, lambda v, e, i, s: [((e if t else None), q) for t, q in self.truthy(s, v)])
        return outs + [(UNDEF, s) for s in cur]
    def b_Array_findIndex(self, st, this, args, a0, a1, a2, n):
        outs, cur = self.iterate(st, this, a0, n, lambda v, e, i, s: [((num(i) if t else None), q) for t, q in self.truthy(s, v)])
        return outs + [(num(-1), s) for s in cur]
    def b_Array_map(self, st, this, args, a0, a1, a2, n):
        outs = [((), st)]
        for i, e in enumerate(self.known_items(st, this, n)):
            outs = bind(outs, lambda vs, s: bind(self.call(s, a0, UNDEF, [e, num(i), this], n), lambda v, q: [(vs + (v,), q)]))
        def f(vs, s): s = s.copy(); return [(self.new(s, 'array', items=vs), s)]
        return bind(outs, f)
    def b_Array_reduce(self, st, this, args, a0, a1, a2, n):
        its = list(self.known_items(st, this, n))
        if len(args) > 1: outs = [(a1, st)]
        elif its: outs = [(its.pop(0), st)]
        else: return self.throw(st, 'TypeError', 'reduce of an empty array', n)
        for e in its: outs = bind(outs, lambda acc, s: self.call(s, a0, UNDEF, [acc, e, num(0), this], n))
        return outs
    def b_Array_filter(self, st, this, args, a0, a1, a2, n):
        if self.isbuf(st, this): return self.bytefilter(st, self.content(st, this), a0, n, False)
        outs = [((), st)]
        for i, e in enumerate(self.known_items(st, this, n)):
            outs = bind(outs, lambda vs, s: bind(self.call(s, a0, UNDEF, [e, num(i), this], n), lambda v, q: [((vs + (e,)) if t else vs, z) for t, z in self.truthy(q, v)]))
        def f(vs, s): s = s.copy(); return [(self.new(s, 'array', items=vs), s)]
        return bind(outs, f)
    # numbers
    def b_Number(self, st, this, args, a0, a1, a2, n): return self.tonum(st, a0, n)
    def b_String(self, st, this, args, a0, a1, a2, n): return self.tostr(st, a0, n)
    def b_Boolean(self, st, this, args, a0, a1, a2, n): return [(('b', t), s) for t, s in self.truthy(st, a0)]
    def b_Number_toString(self, st, this, args, a0, a1, a2, n):
        if a0 != UNDEF and not (conc(a0) and cval(a0) == 10): return [(('s', (('radix', this[1], a0),)), st)]
        return self.tostr(st, this, n)
    def b_isNaN(self, st, this, args, a0, a1, a2, n):
        out = []
        for x, s in self.tonum(st, a0, n): out += [(('b', t), q) for t, q in self.signin(s, x[1], ('u',))]
        return out
    def b_Number__isNaN(self, st, this, args, a0, a1, a2, n): return self.b_isNaN(st, this, args, a0, a1, a2, n) if a0[0] == 'n' else [(FALSE, st)]
    def b_Number__isInteger(self, st, this, args, a0, a1, a2, n):
        if a0[0] != 'n': return [(FALSE, st)]
        if conc(a0): return [(('b', cval(a0) == cval(a0) and abs(cval(a0)) != INF and cval(a0) == int(cval(a0))), st)]
        return [(TRUE, st)] if self.isint(a0[1]) else [(('b', t), s) for t, s in self.fact(st, ('isint', a0[1]))]
    b_Number__isSafeInteger = b_Number__isInteger
    def b_Number__isFinite(self, st, this, args, a0, a1, a2, n):
        return [(('b', a0[0] == 'n' and (not conc(a0) or abs(cval(a0)) < INF)), st)]
    def b_parseInt(self, st, this, args, a0, a1, a2, n):
        out = []
        for x, s in self.tostr(st, a0, n):
            if a0[0] == 'n' and self.isint(a0[1]): out.append((a0, s)); continue
            c = sconc(x)
            if c is not None and (a1 == UNDEF or (conc(a1) and cval(a1) == 10)):
                import re as _re
                m = _re.match(r'\s*([+-]?\d+)', c); out.append((num(int(m.group(1)) if m else NAN), s))
            else: out.append((atom(('tonum', ('parseInt', x[1]))), s))
        return out
    b_Number__parseInt = b_parseInt
    # RegExp
    def rx(self, st, v): o = self.obj(st, v); return o['pattern'], o['flags']
    def rxuse(self, st, v, n):
        p, f = self.rx(st, v)
        if ('g' in f or 'y' in f) and self.module_ids is not None and v[1] <= self.module_ids: self.event(st, 'write-module', 'lastIndex of a regular expression defined at module level', self.at(n))
    def b_RegExp_test(self, st, this, args, a0, a1, a2, n):
        st = st.copy(); self.rxuse(st, this, n)
        p, f = self.rx(st, this); out = []
        d = jsre.dfa(p, f)
        for x, s in self.tostr(st, a0, n):
            c = sconc(x)
            if c is not None: out.append((('b', jsre.run(d, c)), s))
            else: out += [(('b', t), q) for t, q in self.fact(s, ('match', d, x[1]))]
        return out
    def b_RegExp_exec(self, st, this, args, a0, a1, a2, n):
        st = st.copy(); self.rxuse(st, this, n)
        return self.b_String_match(st, a0, [this], this, UNDEF, UNDEF, n)
    def b_String_match(self, st, this, args, a0, a1, a2, n):
        p, f = self.rx(st, a0); d = jsre.dfa(p, f); t0 = jsre.parse(p, f); out = []
        c = sconc(this)
        tm = self.tokmatch(this, p, f) if c is not None or hastok(this[1]) else None
        if tm is not None:
            if tm == (): return [(NULL, st)]
            s = st.copy(); pos, gs = tm
            r = self.new(s, 'array', items=tuple(UNDEF if g is None else S(g) for g in gs)); self.obj(s, r)['props'].update(index=('n', pos), input=this)
            return [(r, s)]
        for t, s in ([(jsre.run(d, c), st)] if c is not None else self.fact(st, ('match', d, this[1]))):
            if not t: out.append((NULL, s)); continue
            s = s.copy(); key = self.fresh('m')[1]
            items = []
            for g in range(1 + jsre.groups(t0)): items.append(('s', (('mg', key, g, this[1]),)))
            i = ('index', key)
            r = self.new(s, 'array', items=tuple(items)); self.obj(s, r)['props']['index'] = atom(i)
            m0 = ('mg', key, 0, this[1])
            if not jsre.nullable(t0): self.bounds[('slen', m0)] = (1, INF)
            s.ge = s.ge + (ladd(ladd(self.slen(s, this)[1], (0, ((i, 1),)), -1), (0, ((('slen', m0), 1),)), -1),)
            out.append((r, s))
        return out
    def tokmatch(self, v, p, f):
        """the leftmost match of an expression in a template: () for none, None when it may involve a value"""
        import re as _re
        if set(f) - {'i'} or _re.search(r'\(\?(?!:)|\\[bBsSpPkux0-9]|[$^]', p): return None
        mark = '\ue000'
        try: m = _re.search(p, ''.join(x if isinstance(x, str) else mark for x in v[1]), _re.A | (_re.I if 'i' in f else 0))
        except _re.error: return None
        if m and mark in m.group(0): return None
        e = jsre.dfa('^(?:%s)$' % p, f); pts, sts = e
        import bisect
        def stp(q, ch): return sts[q][1][bisect.bisect_right(pts, ord(ch)) - 1]
        # live states: those from which a match can still be completed
        live = {q for q in range(len(sts)) if sts[q][0]}; ch = True
        while ch:
            ch = False
            for q in range(len(sts)):
                if q not in live and any(t in live for t in sts[q][1]): live.add(q); ch = True
        def touched(k, qs):
            """can a match that is in one of these states at the start of value k be completed past its first character"""
            seen = set(); todo = {stp(q, c) for q in qs for c in TOKCHARS}
            while todo:
                q = todo.pop()
                if q in seen or q not in live: continue
                seen.add(q); todo |= {stp(q, c) for c in TOKCHARS}
            cur = seen; j = k + 1
            while cur:
                if any(sts[q][0] for q in cur): return True
                if j >= len(v[1]): return False
                x = v[1][j]
                if isinstance(x, str):
                    for c in x:
                        cur = {stp(q, c) for q in cur} & live
                        if any(sts[q][0] for q in cur): return True
                else: return touched(j, cur)
                j += 1
            return False
        flat = 0
        for k, x in enumerate(v[1]):
            if isinstance(x, str): flat += len(x); continue
            text = v[1][k - 1] if k and isinstance(v[1][k - 1], str) else ''
            base = flat - len(text)
            qs = set()
            for i in range(len(text)):
                if m and base + i > m.start(): break
                q = 0
                for c in text[i:]: q = stp(q, c)
                if q in live: qs.add(q)
            if not m or flat <= m.start(): qs.add(0)
            if qs and touched(k, qs): return None
            # a match that runs through an earlier value was found there
            flat += 1
        if not m: return ()
        # position of the match
        pos = (0, ()); left = m.start()
        for x in v[1]:
            n = len(x) if isinstance(x, str) else 1
            if left < n or (left == 0): break
            pos = ladd(pos, self.slen(None, ('s', (x,)))[1]); left -= n
        return ladd(pos, (left, ())), [m.group(g) for g in range(0, 1 + (m.re.groups))]
    # String
    def b_String_replace(self, st, this, args, a0, a1, a2, n):
        if a0[0] == 'r' and self.obj(st, a0)['kind'] == 'regex' and a1[0] == 's':
            p, f = self.rx(st, a0); cs = jsre.charset(p, f); rep = sconc(a1)
            c = sconc(this)
            if cs is not None and rep == '' and 'g' in f:
                if c is not None: return [(S(''.join(ch for ch in c if not any(a <= ord(ch) <= b for a, b in cs))), st)]
                return [(('s', (('strip', this[1], cs),)), st)]
            return [(('s', (('replace', this[1], jsre.dfa(p, f) , 'g' in f, a1[1]),)), st)]
        return [(('s', (('replace', this[1], a0[1] if a0[0] == 's' else ('fn',), False, a1[1] if a1[0] == 's' else ('fn',)),)), st)]
    def b_String_replaceAll(self, st, this, args, a0, a1, a2, n):
        c = sconc(a0) if a0[0] == 's' else None
        if c is not None and len(c) == 1 and a1[0] == 's' and sconc(a1) == '': return [(('s', (('strip', this[1], ((ord(c), ord(c)),)),)), st)]
        return self.b_String_replace(st, this, args, a0, a1, a2, n)
    def b_String_split(self, st, this, args, a0, a1, a2, n):
        c = sconc(this); d = sconc(a0) if a0[0] == 's' else None
        st = st.copy()
        if c is not None and d: return [(self.new(st, 'array', items=tuple(S(x) for x in c.split(d))), st)]
        r = self.new(st, 'array', items=(('s', (('part0', this[1], repr(a0)),)),), rest=(('anystr', 0),)); return [(r, st)]
    def b_String_trim(self, st, this, args, a0, a1, a2, n):
        c = sconc(this)
        ws = ' \t\n\r\x0b\x0c\xa0\u1680\u2028\u2029\u202f\u205f\u3000\ufeff' + ''.join(chr(x) for x in range(0x2000, 0x200b))
        if c is not None: return [(S(c.strip(ws)), st)]
        if hastok(this[1]):
            ps = list(this[1])
            if isinstance(ps[0], str): ps[0] = ps[0].lstrip(ws)
            if isinstance(ps[-1], str): ps[-1] = ps[-1].rstrip(ws)
            return [(('s', tuple(p for p in ps if p != '')), st)]
        t = ('trim', this[1]); pre = self.prefix_of(st, this[1])
        if pre and pre.lstrip(ws) == pre and pre.rstrip(ws):
            # either everything after the last known non-blank is blank, or the prefix stays whole
            r = pre.rstrip(ws)
            if r == pre:
                s = st.copy(); s.prefix[t] = pre; return [(('s', (t,)), s)]
            out = []
            for b, s in self.fact(st, ('blank-after', t)):
                s = s.copy()
                if b: out.append((S(r), s))
                else: s.prefix[t] = pre; out.append((('s', (t,)), s))
            return out
        return [(('s', (t,)), st)]
    def b_String_trimEnd(self, st, this, args, a0, a1, a2, n):
        return self.b_String_trim(st, this, args, a0, a1, a2, n) if sconc(this) is None else [(S(sconc(this).rstrip()), st)]
    def b_String_toLowerCase(self, st, this, args, a0, a1, a2, n):
        c = sconc(this)
        if c is not None: return [(S(c.lower()), st)]
        return [(('s', scat((), [p.lower() if isinstance(p, str) else p if p[0] in ('hex', 'num', 'lower') else ('lower', p) for p in this[1]])), st)]
    def b_String_toUpperCase(self, st, this, args, a0, a1, a2, n):
        c = sconc(this)
        if c is not None: return [(S(c.upper()), st)]
        return [(('s', scat((), [p.upper() if isinstance(p, str) else p if p[0] in ('num', 'upper') else ('upper', p) for p in this[1]])), st)]
    def b_String_toString(self, st, this, args, a0, a1, a2, n): return [(this, st)]
    b_String_valueOf = b_String_toString
    def b_String_concat(self, st, this, args, a0, a1, a2, n):
        outs = [(this, st)]
        for a in args: outs = bind(outs, lambda v, s: bind(self.tostr(s, a, n), lambda b, q: [(('s', scat(v[1], b[1])), q)]))
        return outs
    def b_String_charAt(self, st, this, args, a0, a1, a2, n):
        c = sconc(this)
        if c is not None and conc(a0): return [(S(c[int(cval(a0))] if 0 <= cval(a0) < len(c) else ''), st)]
        if conc(a0) and 0 <= cval(a0) < len(self.prefix_of(st, this[1])): return [(S(self.prefix_of(st, this[1])[int(cval(a0))]), st)]
        return [(('s', (('substr', this[1], 0 if not conc(a0) else cval(a0), repr(a0)),)), st)]
    def b_String_charCodeAt(self, st, this, args, a0, a1, a2, n):
        c = sconc(this)
        if c is not None and (conc(a0) or a0 == UNDEF):
            i = int(cval(a0)) if a0 != UNDEF else 0
            return [(num(ord(c[i]) if 0 <= i < len(c) else NAN), st)]
        return [(atom(self.fresh('charcode')), st)]
    def b_String_indexOf(self, st, this, args, a0, a1, a2, n):
        c = sconc(this); d = sconc(a0) if a0[0] == 's' else None
        if c is None and d and hastok(this[1]):
            at = self.spcut(this[1], (0, ()) if a1 == UNDEF else a1[1] if a1[0] == 'n' else None)
            r = None if at is None else self.tokfind(st, this[1], d, at, False, lambda p: self.slen(None, ('s', (p,)))[1], lambda p: p if isinstance(p, str) else None, lambda p: p[0] == 'tok')
            if r is None: raise Unsupported('search for %r in a template at %s' % (d, self.at(n)))
            return [(num(-1) if r == () else ('n', r), st)]
        frm = 0 if a1 == UNDEF else int(cval(a1)) if conc(a1) else None
        if c is not None and d is not None and frm is not None: return [(num(c.find(d, frm)), st)]
        pre = self.prefix_of(st, this[1])
        if d is not None and frm is not None and pre.find(d, frm) >= 0: return [(num(pre.find(d, frm)), st)]
        a = ('find', 'str', this[1], a0[1] if a0[0] == 's' else repr(a0), a1[1] if a1[0] == 'n' else (0, ()))
        v = atom(a); out = []
        for neg, s in self.signin(st, v[1], ('-',)):
            if neg: out.append((num(-1), s)); continue
            s = s.copy(); lo = a1[1] if a1[0] == 'n' else (0, ())
            if self.nonneg(s, lo): s.ge = s.ge + (ladd(v[1], lo, -1),)
            # not inside the known prefix
            if d is not None and pre and frm is not None and len(pre) - len(d) + 1 > 0: s.ge = s.ge + (ladd(v[1], (len(pre) - len(d) + 1, ()), -1),)
            out.append((v, s))
        return out
    def b_String_includes(self, st, this, args, a0, a1, a2, n):
        return bind(self.b_String_indexOf(st, this, args, a0, a1, a2, n), lambda v, s: [(('b', not t), q) for t, q in self.signin(s, v[1], ('-',))])
    def b_String_startsWith(self, st, this, args, a0, a1, a2, n):
        d = sconc(a0); c = sconc(this)
        if c is not None and d is not None and a1 == UNDEF: return [(('b', c.startswith(d)), st)]
        if d is None or a1 != UNDEF: raise Unsupported('startsWith at %s' % self.at(n))
        return bind(self.substr(st, this, num(0), num(len(d)), n), lambda v, s: [(('b', t), q) for t, q in self.streq(s, v[1], S(d)[1])])
    def b_String_endsWith(self, st, this, args, a0, a1, a2, n):
        d = sconc(a0); c = sconc(this)
        if c is not None and d is not None: return [(('b', c.endswith(d)), st)]
        if d is not None and this[1] and isinstance(this[1][-1], str) and len(this[1][-1]) >= len(d): return [(('b', this[1][-1].endswith(d)), st)]
        return [(('b', t), s) for t, s in self.fact(st, ('ends', this[1], a0[1]))]
    def substr(self, st, v, a, b, n):
        """characters a..b with 0 <= a, b >= a or UNDEF; a, b numbers"""
        c = sconc(v)
        if c is None and hastok(v[1]):
            L = self.slen(st, v)[1]
            x = self.spcut(v[1], a[1]); y = (len(v[1]), 0) if b == UNDEF else self.spcut(v[1], b[1])
            if x is None and self.nonneg(st, ladd(a[1], L, -1)): x = (len(v[1]), 0)
            if y is None and self.nonneg(st, ladd(b[1], L, -1)): y = (len(v[1]), 0)
            if x and y: return [(('s', self.cutout(v[1], x, y, lambda p, i, j: p[i:j])), st)]
            if self.unroll and b == UNDEF: raise Unsupported('a template is cut at a position inside an unknown part at %s' % self.at(n))
        if conc(a) and (b == UNDEF or conc(b)):
            x = int(cval(a)); y = None if b == UNDEF else int(cval(b))
            if c is not None: return [(S(c[x:y]), st)]
            pre = self.prefix_of(st, v[1])
            if y is not None and y <= len(pre): return [(S(pre[x:y]), st)]
            if x == 0 and y is None: return [(v, st)]
            if y is None:
                ps = list(v[1]); k = x
                while k and ps and isinstance(ps[0], str):
                    if len(ps[0]) > k: ps[0] = ps[0][k:]; k = 0
                    else: k -= len(ps.pop(0))
                if k == 0: return [(('s', tuple(ps)), st)]
                t = ('drop', tuple(ps), (k, ()))
                s = st.copy()
                return [(('s', (t,)), s)]
            if x == 0: return [(('s', (('substr', v[1], 0, y),)), st)]
            return [(('s', (('substr', v[1], x, y),)), st)]
        if b == UNDEF:
            if c is not None and not a[1][1]: return [(S(c[int(a[1][0]):]), st)]
            lo = self.bnd(st, a[1], 3)[0]
            return [(('s', (('drop', v[1], a[1]),)), st)]
        return [(('s', (('substr', v[1], a[1], b[1]),)), st)]
    def b_String_substring(self, st, this, args, a0, a1, a2, n):
        out = []
        for a, s in (self.tonum(st, a0, n) if a0 != UNDEF else [(num(0), st)]):
            for b, s2 in (self.tonum(s, a1, n) if a1 != UNDEF else [(UNDEF, s)]):
                if conc(a): a = num(max(0, cval(a))) if cval(a) == cval(a) else num(0)
                elif not self.nonneg(s2, a[1]): raise Unsupported('substring start may be negative at %s' % self.at(n))
                if b != UNDEF and conc(b): b = num(max(0, cval(b))) if cval(b) == cval(b) else num(0)
                if b != UNDEF and conc(a) and conc(b) and cval(b) < cval(a): a, b = b, a
                if b != UNDEF and conc(b) and cval(b) == INF: b = UNDEF
                out += self.substr(s2, this, a, b, n)
        return out
    def b_String_slice(self, st, this, args, a0, a1, a2, n):
        c = sconc(this)
        x = 0 if a0 == UNDEF else cval(a0) if conc(a0) else None; y = None if a1 == UNDEF else cval(a1) if conc(a1) else NAN
        if x is not None and y == y:
            x = int(x); y = None if y is None else int(y)
            if c is not None: return [(S(c[x:y]), st)]
            if x >= 0 and (y is None or y >= x): return self.substr(st, this, num(x), UNDEF if y is None else num(y), n)
            if x < 0 and y is None:
                if this[1] and isinstance(this[1][-1], str) and len(this[1][-1]) >= -x: return [(S(this[1][-1][x:]), st)]
            return [(('s', (('slice', this[1], x, y),)), st)]
        if a0[0] == 'n' and self.nonneg(st, a0[1]): return self.b_String_substring(st, this, args, a0, a1, a2, n)
        raise Unsupported('String.slice at %s' % self.at(n))
    def b_String_substr(self, st, this, args, a0, a1, a2, n):
        x = 0 if a0 == UNDEF else int(cval(a0)) if conc(a0) else None
        if x is None: raise Unsupported('substr at %s' % self.at(n))
        if x < 0: return self.b_String_slice(st, this, [a0], a0, UNDEF, UNDEF, n) if a1 == UNDEF else self.bad('substr', n)
        return self.substr(st, this, num(x), UNDEF if a1 == UNDEF else num(x + int(cval(a1))) if conc(a1) else self.bad('substr', n), n)
    def bad(self, what, n): raise Unsupported('%s at %s' % (what, self.at(n)))

def js_num(c):
    t = c.strip()
    if t == '': return 0
    try:
        if t.lower().startswith('0x'): return int(t, 16)
        import re as _re
        if _re.match(r'^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$', t):
            f = float(t); return int(f) if f == int(f) and 'e' not in t.lower() and '.' not in t else f
        if t in ('Infinity', '+Infinity'): return INF
        if t == '-Infinity': return -INF
    except ValueError: pass
    return NAN
