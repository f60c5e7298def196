"""Inclusion-based (Andersen) points-to and call-graph analysis over the IR of all translation units.

Field-insensitive, context-insensitive, flow-insensitive on SSA values.  Objects:
 ('G', global) ('F', function) ('H', fn, site) heap block ('A', fn, id) stack ('P', label) memory
 behind an entry parameter ('B', site) contents of a JavaScript Buffer ('X', what) unknown external.
"""
import re
from ir import AnalysisError, where

ALLOC = {'malloc': None, 'calloc': None, 'realloc': None, 'aligned_alloc': None, 'valloc': None, 'memalign': None, '_Znwm': None, '_Znam': None,
         '_ZnwmSt11align_val_t': None, '_ZnwmRKSt9nothrow_t': None, '_ZnamRKSt9nothrow_t': None, '_mm_malloc': None}
NOWRITE = {'free', 'cfree', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'strlen', 'abort', '__assert_fail', 'memcmp', 'strcmp', 'printf', 'fprintf', 'puts'}

ASM_RO = re.compile(r'^(cmp|test|prefetch|j|bt[bwlq]?$|v?ptest|v?ucomis|v?comis|nop|lea|call|clflush|push|v?pcmp[ei]str)')
ASM_UNARY = re.compile(r'^(inc|dec|neg|not|set|pop|fst|fist|stmxcsr|fnst|sgdt|mul|div|imul|idiv)')
ASM_STRING = re.compile(r'^(rep\w*|stos[bwlqd]?|movs[bwq]|xsave\w*|fxsave\w*|cmpxchg\w*|xadd\w*)$')
def asm_writes(text):
    """does AT&T inline assembly store to memory?"""
    for l in re.split(r'[\n;]', text.replace('\\0A', '\n').replace('\\09', ' ')):
        l = re.sub(r'#.*', '', l).strip()
        l = re.sub(r'^[\w.$]+:', '', l).strip()
        m = re.match(r'^(lock\s+)?([a-z][\w.]*)\s*(.*)$', l)
        if not m or l.startswith('.'): continue
        op, rest = m.group(2), m.group(3)
        ops = []; d = 0; cur = ''
        for ch in rest:
            if ch in '({': d += 1
            if ch in ')}': d -= 1
            if ch == ',' and d == 0: ops.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): ops.append(cur.strip())
        if ASM_STRING.match(op): return True
        if op.startswith('xchg') and any('(' in o for o in ops): return True
        if not ops or '(' not in ops[-1] or ASM_RO.match(op): continue
        if len(ops) == 1 and ASM_UNARY.match(op) and op.startswith(('mul', 'div', 'imul', 'idiv')): continue
        return True
    return False

class Program:
    def __init__(self, mods):
        self.mods = mods
        self.fn = {}; self.fmod = {}
        for m in mods:
            for n, f in m.functions.items():
                if not f['decl'] and (n not in self.fn or self.fn[n].get('weak')):
                    self.fn[n] = f; self.fmod[n] = m
        self.gl = {}
        for m in mods:
            for n, g in m.globals.items():
                if 'init' in g or n not in self.gl: self.gl[n] = g
        self.pts = {}          # node -> set(obj)
        self.succ = {}         # node -> set(node)    copy edges
        self.loads = {}        # node -> set(node)    dst |= contents(o) for o in pts(node)
        self.stores = {}       # node -> set(node)    contents(o) |= pts(src)
        self.icalls = {}       # node -> [(caller, ins)]
        self.calls = {}        # fn -> {ins id: set(callee names)}
        self.ext = {}          # (fn, ins id) -> (name, ins)
        self.writes = []       # (fn, ins, node or None, kind)
        self.reads = []
        self.work = []
        self.done_fn = set()
        self.extmodel = None
    def dem(self, n):
        for m in self.mods:
            if n in m.functions: return m.functions[n]['dem']
        return n
    # nodes: ('v', fn, id) ('arg', fn, i) ('ret', fn) ('c', obj) ('k', fn, key)
    def addp(self, n, o):
        s = self.pts.setdefault(n, set())
        if o not in s: s.add(o); self.work.append((n, o))
    def edge(self, a, b):
        if a is None or b is None or a == b: return
        s = self.succ.setdefault(a, set())
        if b not in s:
            s.add(b)
            for o in list(self.pts.get(a, ())): self.addp(b, o)
    def node(self, fn, v):
        k = v[0]
        if k == 'v': return ('v', fn, v[1])
        if k == 'a': return ('arg', fn, v[1])
        if k == 'n':
            self.addp(('null',), ('NULL',)); return ('null',)
        if k == 'g':
            n = ('const', v[1])
            self.addp(n, ('F', v[1]) if v[1] in self.fn or (v[1] not in self.gl) else ('G', v[1]))
            if v[1] in self.gl: self.initglobal(v[1])
            return n
        if k == 'gep': return self.node(fn, v[1]['base'])
        if k == 'ce':
            n = ('ce', fn, repr(v)[:200], hash(repr(v)))
            for o in v[2]: self.edge(self.node(fn, o), n)
            return n
        if k == 'agg':
            n = ('ce', fn, 'agg', hash(repr(v)))
            for o in v[1]: self.edge(self.node(fn, o), n)
            return n
        return None
    _gi = None
    def initglobal(self, g):
        if self._gi is None: self._gi = set()
        if g in self._gi: return
        self._gi.add(g)
        def rec(v):
            if v[0] in ('g', 'gep', 'ce'): self.edge(self.node('', v), ('c', ('G', g)))
            elif v[0] == 'agg':
                for x in v[1]: rec(x)
        if 'init' in self.gl[g]: rec(self.gl[g]['init'])
    def load(self, base, dst):
        s = self.loads.setdefault(base, set())
        if dst not in s:
            s.add(dst)
            for o in list(self.pts.get(base, ())):
                if o[0] != 'NULL': self.edge(('c', o), dst)
    def store(self, base, src):
        s = self.stores.setdefault(base, set())
        if src not in s:
            s.add(src)
            for o in list(self.pts.get(base, ())):
                if o[0] != 'NULL': self.edge(src, ('c', o))
    def add_function(self, fn):
        if fn in self.done_fn or fn not in self.fn: return
        self.done_fn.add(fn)
        f = self.fn[fn]; self.calls.setdefault(fn, {})
        for b in f['blocks']:
            for i in b: self.ins(fn, i)
    def ins(self, fn, i):
        op = i['op']; d = ('v', fn, i['id'])
        nd = lambda v: self.node(fn, v)
        if op == 'alloca': self.addp(d, ('A', fn, i['id']))
        elif op == 'load':
            b = nd(i['ops'][0]); self.reads.append((fn, i, b))
            if i['size'] >= 8 and b: self.load(b, d)
        elif op == 'store':
            b = nd(i['ops'][1]); self.writes.append((fn, i, b, 'store'))
            s = nd(i['ops'][0])
            if b and s: self.store(b, s)
        elif op in ('atomicrmw', 'cmpxchg'):
            self.writes.append((fn, i, nd(i['ops'][0]), op))
        elif op in ('getelementptr', 'bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'freeze', 'extractvalue', 'insertvalue', 'select', 'add', 'sub', 'and', 'or', 'extractelement', 'insertelement', 'shufflevector'):
            for o in i['ops']: self.edge(nd(o), d)
        elif op == 'phi':
            for _, v in i['in']: self.edge(nd(v), d)
        elif op == 'ret':
            for o in i['ops']: self.edge(nd(o), ('ret', fn))
        elif op in ('call', 'invoke'): self.call(fn, i, d)
    def call(self, fn, i, d):
        c = i['callee']
        if i.get('intr'):
            n = i['intr'].replace('llvm.', '')
            nd = lambda v: self.node(fn, v)
            if n.startswith(('memcpy', 'memmove')):
                a, b = nd(i['ops'][0]), nd(i['ops'][1])
                self.writes.append((fn, i, a, 'memcpy')); self.reads.append((fn, i, b))
                if a and b:
                    t = ('t', fn, i['id']); self.load(b, t); self.store(a, t)
                return
            if n.startswith('memset'): self.writes.append((fn, i, nd(i['ops'][0]), 'memset')); return
            if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'prefetch', 'invariant', 'launder', 'strip', 'va_')):
                if i['ty'] == 'ptr':
                    for o in i['ops']: self.edge(nd(o), d)
                return
            ptrs = [(k, o) for k, o in enumerate(i['ops']) if self.is_ptr(fn, i, k)]
            for k, o in ptrs:
                if i.get('ro') or i['argro'][k] or n.startswith(('masked.load', 'masked.expandload', 'masked.gather')): self.reads.append((fn, i, nd(o)))
                elif n.startswith(('fshl', 'fshr', 'ptrmask')): self.edge(nd(o), d)
                else: self.writes.append((fn, i, nd(o), n))
            return
        if c[0] == 'asm':
            w = asm_writes(c[1]) or '=*m' in c[2] or '+*m' in c[2] or '=*rm' in c[2]
            for k, o in enumerate(i['ops']):
                if self.is_ptr(fn, i, k):
                    (self.writes.append((fn, i, self.node(fn, o), 'asm')) if w else self.reads.append((fn, i, self.node(fn, o))))
                    self.edge(self.node(fn, o), d)
            return
        if c[0] == 'g' and c[1] not in self.gl: self.bind(fn, i, c[1], d)
        else:
            n = self.node(fn, c)
            if n is None: return
            self.icalls.setdefault(n, []).append((fn, i))
            for o in list(self.pts.get(n, ())):
                if o[0] == 'F': self.bind(fn, i, o[1], d)
    def is_ptr(self, fn, i, k):
        m = re.match(r'^.*?\((.*)\)$', i['fty'])
        depth = 0; cur = ''; parts = []
        for ch in (m.group(1) if m else ''):
            if ch in '({[<': depth += 1
            if ch in ')}]>': depth -= 1
            if ch == ',' and depth == 0: parts.append(cur.strip()); cur = ''
            else: cur += ch
        parts.append(cur.strip())
        return k < len(parts) and parts[k] == 'ptr'
    def nargs(self, fty):
        m = re.match(r'^.*?\((.*)\)$', fty); s = m.group(1).strip() if m else ''
        return fty
    def bind(self, fn, i, callee, d):
        s = self.calls[fn].setdefault(i['id'], set())
        if callee in s: return
        s.add(callee)
        if callee in self.fn:
            if i['callee'][0] != 'g' and self.fn[callee]['ty'] != i['fty']:
                s.discard(callee); return        # the types differ: not a target of this call
            self.add_function(callee)
            for k, o in enumerate(i['ops']): self.edge(self.node(fn, o), ('arg', callee, k))
            self.edge(('ret', callee), d)
            return
        if i['callee'][0] != 'g':
            t = [m.functions[callee]['ty'] for m in self.mods if callee in m.functions]
            if t and i['fty'] not in t: s.discard(callee); return
        self.ext[(fn, i['id'])] = (callee, i)
        if callee in ALLOC:
            self.addp(d, ('H', fn, i['id']))
            if callee == 'realloc': self.load(self.node(fn, i['ops'][0]), d) if False else None
            return
        if callee == 'posix_memalign':
            t = ('t', fn, i['id']); self.addp(t, ('H', fn, i['id']))
            b = self.node(fn, i['ops'][0]); self.store(b, t); self.writes.append((fn, i, b, 'posix_memalign')); return
        if self.extmodel and self.extmodel(self, fn, i, callee, d): return
        if callee in NOWRITE: return
        for k, o in enumerate(i['ops']):
            n = self.node(fn, o)
            if n is None: continue
            # functions handed out may be called back
            for x in list(self.pts.get(n, ())):
                if x[0] == 'F': self.add_function(x[1])
            if not (i.get('ro') or i['argro'][k]): self.writes.append((fn, i, n, 'call ' + callee))
        if i['ty'] == 'ptr' or i['ty'] == 'i64': self.addp(d, ('X', callee))
    def solve(self):
        n = 0
        while self.work:
            a, o = self.work.pop(); n += 1
            for b in list(self.succ.get(a, ())): self.addp(b, o)
            if o[0] == 'NULL': continue
            for d in list(self.loads.get(a, ())): self.edge(('c', o), d)
            for s in list(self.stores.get(a, ())): self.edge(s, ('c', o))
            if o[0] == 'F':
                for fn, i in list(self.icalls.get(a, ())): self.bind(fn, i, o[1], ('v', fn, i['id']))
            if o[0] == 'G': self.initglobal(o[1])
        return n
    def reachable(self, roots, edge=None):
        seen = {}; todo = [(r, None) for r in roots]
        while todo:
            f, par = todo.pop()
            if f in seen: continue
            seen[f] = par
            for iid, cs in self.calls.get(f, {}).items():
                for c in cs:
                    if edge is None or edge(f, iid, c): todo.append((c, f))
        return seen
    def path(self, seen, f):
        out = []
        while f is not None: out.append(self.dem(f).split('(')[0]); f = seen.get(f)
        return out[::-1]
