"""Model of the V8 / Node / libc calls the native bindings make, on top of absint.

Nothing here depends on names inside the repository: callbacks are found through the module's
registration function, kernels through the signature of the calls made through global pointers.
"""
import re
from terms import *
from absint import *
from ir import AnalysisError, where, load_many

NULL = ('ptr', ('null',), K(64, 0))
BIG = 1 << 47
ISO = ('ptr', ('isolate',), K(64, 0))
INFO = ('ptr', ('param', 'info'), K(64, 0))
ARGC = ('s', 32, 'argc')

def blen(h, e=0): return ('s', 64, 'blen', h) + ((e,) if e else ())
def argh(i): return ('h', 'arg', i)
def iarg(i): return ('s', 64, 'int', argh(i))

GROUPS = {'Buffer': {'Object'}, 'Function': {'Object'}, 'Array': {'Object'}, 'Object': set(), 'Number': set(), 'Int32': {'Number'}, 'Uint32': {'Number'},
          'String': set(), 'Boolean': set(), 'Undefined': set(), 'Null': set(), 'Symbol': set(), 'BigInt': set()}
BASE = {'Object', 'Number', 'String', 'Boolean', 'Undefined', 'Null', 'Symbol', 'BigInt'}
ISNAME = {'Uint8Array': 'Buffer', 'ArrayBufferView': 'Buffer', 'TypedArray': 'Buffer', 'True': 'Boolean', 'False': 'Boolean',
          'NumberObject': 'Object', 'StringObject': 'Object', 'BooleanObject': 'Object', 'Date': 'Object', 'RegExp': 'Object'}

def known_type(st, h, T):
    """True/False/None: is handle h known (not) to be of type T"""
    if h[1] == 'buf': return T in ('Buffer', 'Object')
    if h[1] == 'obj': return T == 'Object'
    if h[1] in ('num',): return T == 'Number' or (T in ('Int32',) and h[2][0] == 'int')
    if h[1] == 'str': return T == 'String'
    if h[1] == 'undef': return T == 'Undefined'
    r = st.tags.get(('is', h, T))
    if r is not None: return r
    for U in GROUPS:
        v = st.tags.get(('is', h, U))
        if v is True:
            if T in GROUPS[U]: return True
            base = U if U in BASE else next(iter(GROUPS[U]))
            tb = T if T in BASE else next(iter(GROUPS.get(T) or {T}))
            if base != tb: return False
        if v is False and U in GROUPS.get(T, ()): return False
    return None
def set_type(st, h, T, v): st.tags[('is', h, T)] = v

class Model:
    """hook for Interp; events are appended to the state, checks run in on_event(interp, st, kind, data)"""
    def __init__(self, on_event=None, nomem=False, oom=True):
        self.on_event = on_event or (lambda *a: None)
        self.oom = oom
        self.intsym = {}          # arg index -> term standing for its integer value
        self.roles = {}           # global pointer name -> role, for kernels with equal signatures
        self.n = 0
        self.sinks = 0
    # ------------------------------------------------------------ helpers
    def ev(self, it, st, kind, *data):
        st.events.append((kind,) + data)
        self.on_event(it, st, kind, data)
    def split(self, it, st, ins, alts):
        """alts: list of (value, function(state)->bool|None)"""
        out = []
        for v, fn in alts:
            s = st.copy()
            if fn and fn(s) is False: continue
            if s.dead is None:
                if ins['ty'] != 'void': s.frames[-1].env[ins['id']] = v
                if ins['op'] == 'invoke': it.goto(s, s.frames[-1], ins['succ'][0])
            out.append(s)
        return out
    def present(self, it, st, h):
        """is argument handle h within the argument count: True/False/None"""
        if h[1] != 'arg': return True
        if not isk(K(32, 0)) or not isinstance(h[2], int): return None
        return it.decide(st, cmp_('slt', K(32, h[2]), ARGC))
    def typeq(self, it, st, ins, h, T):
        if h[0] != 'h': return None
        k = known_type(st, h, T)
        if k is None and self.present(it, st, h) is False: k = (T == 'Undefined')
        if k is not None: return K(1, k)
        def yes(s):
            set_type(s, h, T, True)
            if T != 'Undefined' and h[1] == 'arg': return it.assume(s, cmp_('slt', K(32, h[2]), ARGC), True)
        def no(s): set_type(s, h, T, False)
        return self.split(it, st, ins, [(K(1, 1), yes), (K(1, 0), no)])
    def intval(self, it, st, h):
        if h[1] == 'arg':
            if self.present(it, st, h) is False: return K(64, 0)
            return self.intsym.get(h[2], ('s', 64, 'int', h))
        if h[1] == 'num':
            t = h[2]
            if t[0] == 'int': return sext(t[1], 64)
        if h[1] == 'conv': return self.intval(it, st, h[3])
        return ('s', 64, 'int', h)
    def coerces(self, it, st, h, ins, what):
        """a conversion of h: user code may run unless h is known to be a primitive"""
        if h[1] == 'conv': return
        prim = known_type(st, h, 'Object') is False or self.present(it, st, h) is False
        self.ev(it, st, 'convert', h, what, prim, ins)
        if not prim: st.tags['epoch'] = st.tags.get('epoch', 0) + 1

    # ------------------------------------------------------------ the hook
    def __call__(self, it, st, ins, name, callee, args):
        if name is None: return self.indirect(it, st, ins, callee, args)
        if callee[0] == 'asm': return None
        d = it.dem(name)
        base = d.split('(')[0]
        if name in ('malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'valloc', 'reallocarray', '_Znwm', '_Znam', '_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'):
            return self.heap(it, st, ins, name, args)
        if name == 'uv_once' or name == 'pthread_once' or base.startswith('std::call_once'):
            self.ev(it, st, 'once', name, tuple(args), ins); return K(32, 0)
        m = re.match(r'^v8::FunctionCallbackInfo<v8::Value>::(\S+)', base)
        if m:
            if 'operator' in base:
                i = args[1]
                if isk(i): return argh(sval(i))
                x = it.srange(st, i)
                if x[0] == x[1]: return argh(x[0])
                raise AnalysisError('argument index not constant at ' + where(ins))
            if m.group(1) == 'Length': return ARGC
            if m.group(1) == 'GetIsolate': return ISO
            if m.group(1) == 'GetReturnValue': return ('ptr', ('retval',), K(64, 0))
            return ('h', 'info', m.group(1))
        if 'v8::ReturnValue<v8::Value>::Set' in base:
            v = args[1] if len(args) > 1 else ('h', 'undef')
            if 'SetUndefined' in base: v = ('h', 'undef')
            elif 'SetNull' in base: v = ('h', 'null')
            elif v[0] not in ('h', 'ptr', 'undef') or (v[0] == 'undef'):
                v = ('h', 'num', (('int' if v[0] not in ('fp', 'f') else 'dbl'), v))
            self.ev(it, st, 'ret', v, ins); return ('undef',)
        if base == 'node::Buffer::HasInstance': return self.typeq(it, st, ins, args[0], 'Buffer')
        m = re.match(r'^v8::Value::Is(\w+)$', base)
        if m:
            T = ISNAME.get(m.group(1), m.group(1))
            if args[0][0] != 'h': return None
            if T in GROUPS: return self.typeq(it, st, ins, args[0], T)
            return ('s', 1, 'is', T, args[0])
        if base == 'node::Buffer::Length':
            h = args[0]; self.ev(it, st, 'length', h, ins)
            r = st.tags.get(('blen', h))
            e = st.tags.get('epoch', 0)
            r = r if r is not None else blen(h, e)
            if r[0] == 's': it.ranges.setdefault(r, (0, BIG))
            st.tags[('measured', h)] = e
            return r
        if base == 'node::Buffer::Data':
            h = args[0]; self.ev(it, st, 'data', h, ins)
            e = st.tags.get('epoch', 0)
            return ('ptr', ('bdata', h) + ((e,) if e and h[1] == 'arg' else ()), K(64, 0))
        if base in ('node::Buffer::New', 'node::Buffer::Copy'): return self.newbuf(it, st, ins, d, args)
        m = re.match(r'^v8::Value::(IntegerValue|Int32Value|Uint32Value|NumberValue)$', base)
        if m and args[0][0] == 'h':
            h = args[0]; T = m.group(1)
            self.coerces(it, st, h, ins, T)
            v = self.intval(it, st, h)
            if T in ('Int32Value', 'Uint32Value'): v = trunc(v, 32)
            if T == 'NumberValue': v = ('fp', 'num', v)
            w = 8
            ty = '{ i8, %s }' % {'IntegerValue': 'i64', 'NumberValue': 'double'}.get(T, 'i32')
            some = ('agg', 'lit', (K(8, 1), v), ty)
            none = ('agg', 'lit', (K(8, 0), ('undef',)), ty)
            if ins['ty'] != ty:           # packed into one register
                some = none = None
                n = tyw(ins['ty'])
                if n == 64: some = mk_cat([K(8, 1), K(8, 0), K(8, 0), K(8, 0)] + bytes_of(v, 4)); none = K(64, 0)
                else: raise AnalysisError('unexpected Maybe layout ' + ins['ty'])
            if known_type(st, h, 'Number') or self.present(it, st, h) is False or h[1] == 'conv': return some
            def fail(s):
                s.tags[('pending',)] = True; s.tags[('convfail', h)] = True
            return self.split(it, st, ins, [(some, None), (none, fail)])
        m = re.match(r'^v8::Value::(ToInteger|ToInt32|ToUint32|ToNumber|ToNumeric|ToString|ToObject|ToDetailString)$', base)
        if m and args[0][0] == 'h':
            self.coerces(it, st, args[0], ins, m.group(1))
            return ('h', 'conv', m.group(1), args[0])
        if base == 'v8::Value::BooleanValue' or base == 'v8::Value::ToBoolean': return ('s', 1, 'bool', args[0])
        m = re.match(r'^v8::(Integer|Int32|Uint32|Number|Boolean|BigInt)::(Value|Int64Value|Uint64Value)$', base)
        if m and args[0][0] == 'h':
            h, T = args[0], m.group(1)
            if T == 'Boolean': return ('s', 1, 'bool', h)
            self.ev(it, st, 'rawvalue', h, T, ins)
            v = self.intval(it, st, h)
            if T in ('Int32', 'Uint32'): return trunc(v, 32)
            if T == 'Number': return ('fp', 'num', v)
            if T == 'Integer' and h[1] == 'conv' and h[2] in ('ToInt32', 'ToUint32'): return (sext if h[2] == 'ToInt32' else zext)(trunc(v, 32), 64)
            return v
        if re.match(r'^v8::(Integer|Int32)::New$', base): return ('h', 'num', ('int', args[1]))
        if base == 'v8::Integer::NewFromUnsigned': return ('h', 'num', ('uint', args[1]))
        if base == 'v8::Number::New': return ('h', 'num', ('dbl', args[1]))
        if re.match(r'^v8::BigInt::New', base): return ('h', 'num', ('big', args[1]))
        if re.match(r'^v8::String::New', base):
            t = it.cstring(args[1], st)
            self.n += 1
            return ('h', 'str', t if t is not None else '?%d' % self.n)
        if re.match(r'^v8::String::(Empty|Concat)', base): return ('h', 'str', '')
        if re.match(r'^v8::Object::New$', base):
            st.uniq += 1; return ('h', 'obj', st.uniq)
        m = re.match(r'^v8::Object::(Set|CreateDataProperty|DefineOwnProperty)$', base)
        if m:
            a = [x for x in args if x[0] == 'h' and x != ('h', 'ctx')]
            if len(a) >= 3: self.ev(it, st, 'set', a[0], a[1], a[2], ins)
            if ins['ty'] == 'i16': return K(16, 0x0101)
            return None
        if re.match(r'^v8::Exception::', base): return ('h', 'exc', args[0])
        if re.match(r'^v8::Isolate::Throw', base):
            self.ev(it, st, 'throw', ins); return ('h', 'undef')
        if re.match(r'^v8::FunctionTemplate::New', base) or re.match(r'^v8::Function::New$', base):
            fn = [x for x in args if x[0] == 'fn']
            return ('h', 'fn', fn[0][1] if fn else None)
        if base == 'v8::FunctionTemplate::GetFunction': return args[0]
        if base in ('v8::Undefined', 'v8::Null', 'v8::True', 'v8::False'): return ('h', 'undef' if base == 'v8::Undefined' else base)
        if base == 'v8::Isolate::GetCurrent': return ISO
        if base == 'v8::Isolate::GetCurrentContext': return ('h', 'ctx')
        if base in ('v8::api_internal::ToLocalEmpty', 'v8::api_internal::FromJustIsNothing', 'abort', 'node::Abort', 'node::Assert'):
            st.dead = 'abort'; return 'dead'
        if base in ('v8::HandleScope::HandleScope', 'v8::HandleScope::~HandleScope', 'v8::EscapableHandleScope::EscapableHandleScope', 'v8::Isolate::AdjustAmountOfExternalAllocatedMemory',
                    'v8::Function::SetName', 'node_module_register'): return ('undef',) if ins['ty'] == 'void' else K(tyw(ins['ty']) or 64, 0)
        if it.func(name) is None:
            # unknown external: heap blocks passed to it escape
            for a in args:
                if a[0] == 'ptr' and a[1][0] == 'heap': self.setheap(st, a[1], state='escaped')
        return None
    # ------------------------------------------------------------ kernels
    def indirect(self, it, st, ins, callee, args):
        if callee[0] == 'asm': return None
        g = None
        if callee[0] == 'ptr' and callee[1][0] == 'ld':
            s = callee[1][1]
            if s[2] == 'mem' and s[3][0] == 'g': g = s[3][1]
        sig = ins['fty']
        if g is None:
            if callee[0] == 'ptr' and callee[1] == ('null',): 
                self.ev(it, st, 'nullcall', ins)
            return None
        self.sinks += 1
        st.uniq += 1; k = st.uniq
        if sig == 'i64 (i32, ptr, ptr, ptr, i64, i32)':
            L, colp, src, dst, n, end = args
            col = it.load(st, colp, 4, 'i32', ins)
            self.ev(it, st, 'encode', dict(L=L, col=col, src=src, dst=dst, n=n, end=end, id=k, ptr=g), ins)
            it.store(st, colp, 4, ('s', 32, 'outcol', k), ins)
            return ('s', 64, 'enclen', k)
        if sig == 'i32 (ptr, ptr, i64, ptr)':
            sp, dp, n, stp = args
            src = it.load(st, sp, 8, 'ptr', ins); dst = it.load(st, dp, 8, 'ptr', ins)
            state = it.load(st, stp, 4, 'i32', ins) if stp[0] == 'ptr' and stp[1] != ('null',) else None
            self.ev(it, st, 'decode', dict(src=src, dst=dst, n=n, state=state, id=k, ptr=g), ins)
            if src[0] == 'ptr': it.store(st, sp, 8, ('ptr', src[1], add(src[2], ('s', 64, 'read', k))), ins)
            if dst[0] == 'ptr': it.store(st, dp, 8, ('ptr', dst[1], add(dst[2], ('s', 64, 'written', k))), ins)
            if state is not None: it.store(st, stp, 4, ('s', 32, 'outstate', k), ins)
            return ('s', 32, 'ended', k)
        if sig == 'i32 (ptr, i64, i32)':
            self.ev(it, st, 'crc', dict(src=args[0], n=args[1], init=args[2], id=k), ins)
            return ('s', 32, 'kcrc', args[0], args[1], args[2])
        if sig == 'i32 (i32, i32)':
            role = self.roles.get(g)
            if role is None: raise AnalysisError('kernel pointer %s has no known role' % g)
            self.ev(it, st, role, dict(a=args[0], b=args[1], id=k), ins)
            return ('s', 32, 'k' + role, args[0], args[1])
        raise AnalysisError('call through %s with unknown signature %s' % (g, sig))
    # ------------------------------------------------------------ heap
    def getheap(self, st, o): return dict(st.tags.get(('heapobj', o), ()))
    def setheap(self, st, o, **kw):
        d = self.getheap(st, o); d.update(kw); st.tags[('heapobj', o)] = tuple(sorted(d.items(), key=lambda x: x[0]))
    def alloc(self, st, size, what):
        st.uniq += 1
        o = ('heap', st.uniq, what)
        self.setheap(st, o, size=size, state='live')
        st.tags[('nonnull', o)] = True
        return ('ptr', o, K(64, 0))
    def heap(self, it, st, ins, name, args):
        if name in ('malloc', 'valloc', '_Znwm', '_Znam', 'calloc', 'aligned_alloc', 'reallocarray'):
            if name == 'reallocarray': return self.realloc(it, st, ins, args[0], binop('mul', args[1], args[2]))
            size = args[0] if name not in ('calloc', 'aligned_alloc') else (binop('mul', args[0], args[1]) if name == 'calloc' else args[1])
            p = self.alloc(st, size, where(ins))
            self.ev(it, st, 'malloc', p, size, ins)
            if not self.oom or name in ('_Znwm', '_Znam'): return p
            def no(s):
                del s.tags[('heapobj', p[1])]; s.tags[('oom',)] = where(ins); s.tags[('oomsinks',)] = sum(1 for e in s.events if e[0] in ('encode', 'decode'))
            return self.split(it, st, ins, [(p, None), (NULL, no)])
        if name == 'realloc': return self.realloc(it, st, ins, args[0], args[1])
        p = args[0]
        self.free(it, st, ins, p)
        return ('undef',)
    def free(self, it, st, ins, p):
        if p[0] == 'ptr' and p[1] == ('null',): return
        self.ev(it, st, 'free', p, self.getheap(st, p[1]) if p[0] == 'ptr' else {}, ins)
        if p[0] == 'ptr' and p[1][0] == 'heap': self.setheap(st, p[1], state='freed')
    def realloc(self, it, st, ins, p, size):
        if p[0] == 'ptr' and p[1] == ('null',):
            return self.heap(it, st, ins, 'malloc', [size])
        h = self.getheap(st, p[1]) if p[0] == 'ptr' else {}
        self.ev(it, st, 'realloc', p, h, size, ins)
        q = self.alloc(st, size, where(ins))
        old = p[1]
        def good(s): self.setheap(s, old, state='freed')
        def bad(s):
            del s.tags[('heapobj', q[1])]; s.tags[('oomresize',)] = where(ins)
        def zero(s):
            if it.assume(s, cmp_('eq', size, K(64, 0)), True) is False: return False
            self.setheap(s, old, state='freed'); del s.tags[('heapobj', q[1])]
        alts = [(q, good)]
        if self.oom: alts.append((NULL, bad))
        lo, hi = it.urange(st, size)
        if lo == 0 and not (it.decide(st, cmp_('eq', size, K(64, 0))) is False): alts.append((NULL, zero))
        return self.split(it, st, ins, alts)
    # ------------------------------------------------------------ Buffers
    def newbuf(self, it, st, ins, d, args):
        st.uniq += 1
        h = ('h', 'buf', st.uniq)
        sig = d[d.index('('):]
        if d.startswith('node::Buffer::Copy'):
            st.tags[('blen', h)] = args[2]
            self.ev(it, st, 'copybuf', h, args[1], args[2], ins); return h
        if 'char*' in sig:
            cb = args[3] if len(args) > 3 else ('fn', 'free')
            st.tags[('blen', h)] = args[2]
            self.ev(it, st, 'extbuf', h, args[1], args[2], cb, args[4] if len(args) > 4 else None, ins)
            p = args[1]
            if p[0] == 'ptr' and p[1][0] == 'heap': self.setheap(st, p[1], state='handed')
            return h
        if len(args) >= 2 and args[1][0] == 'h':    # from a string
            self.ev(it, st, 'strbuf', h, ins); return h
        st.tags[('blen', h)] = args[1]
        self.ev(it, st, 'newbuf', h, args[1], ins)
        return h

def on_load(model):
    def f(it, st, p, size, ty, ins):
        obj = p[1]
        if obj[0] in ('bdata', 'heap', 'null'): model.ev(it, st, 'load', p, size, ins)
        if obj[0] == 'bdata' and size <= 8 and isk(p[2]):
            o = sval(p[2]); bs = []
            for i in range(size):
                c = st.mem.get((obj, K(64, 0)), {}).get(o + i)
                v = c[1] if c and c[0] == 1 else None
                if v is None:
                    for so, (n, x) in st.mem.get((obj, K(64, 0)), {}).items():
                        if so <= o + i < so + n:
                            b = bytes_of(x, n); v = b[o + i - so] if b else ('undef',)
                bs.append(v if v is not None else ('s', 8, 'byte', obj, o + i))
            if any(b[0] == 'undef' for b in bs): return ('undef',)
            return it.fit(mk_cat(bs), ty)
        return None
    return f
def on_store(model):
    def f(it, st, p, size, val, ins):
        if p[1][0] in ('bdata', 'heap', 'null'): model.ev(it, st, 'store', p, size, val, ins)
        return False
    return f

# ---------------------------------------------------------------- entry points
def load_binding():
    mods = load_many(['src/yencode.cc', 'src/encoder.cc', 'src/decoder.cc', 'src/crc.cc'])
    return mods['src/yencode.cc'], list(mods.values())

def registrations(mod, mods):
    """{API name: callback symbol}, [(once call)] from interpreting the module's registration function"""
    ent = [n for n, f in mod.defined().items() if re.match(r'^node_register_module_v\d+$', n)]
    if len(ent) != 1: raise AnalysisError('module registration function not found')
    regs = {}; once = []
    m = Model()
    it = Interp(mod, m, mods)
    n = len(mod.functions[ent[0]]['args'])
    fin = [s for s in it.run(ent[0], [('h', 'exports'), ('h', 'module'), ('h', 'ctx')][:n]) if s.dead is None]
    if not fin: raise AnalysisError('module registration never returns')
    first = True
    for s in fin:
        r = {}
        for e in s.events:
            if e[0] == 'set' and e[1] == ('h', 'exports'):
                if e[2][1] == 'str' and e[3][1] == 'fn': r[e[2][2]] = e[3][2]
        if first: regs = r; first = False
        elif r != regs: raise AnalysisError('registration depends on the path taken')
    return regs, ent[0], fin, it

def kernel_roles(mods):
    """tell the two (i32,i32) kernels apart: the shift kernel's portable implementation reads a constant table"""
    out = {}
    def reads_table(fn, seen):
        if fn in seen: return False
        seen.add(fn)
        for m in mods:
            f = m.functions.get(fn)
            if not f or f['decl']: continue
            txt = repr(f['blocks'])
            for g in re.findall(r"\['g', '([^']+)'\]", txt):
                for mm in mods:
                    gg = mm.globals.get(g)
                    if gg and gg['const'] and gg['ty'].startswith('['): return True
                if reads_table(g, seen): return True
        return False
    for m in mods:
        for n, g in m.globals.items():
            if g['ty'] == 'ptr' and not g['const'] and 'init' in g and g['init'][0] == 'g':
                fn = g['init'][1]
                for mm in mods:
                    f = mm.functions.get(fn)
                    if f and not f['decl'] and f['ty'] == 'i32 (i32, i32)':
                        out[n] = 'shift' if reads_table(fn, set()) else 'mul'
    return out
