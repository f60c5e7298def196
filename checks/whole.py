"""Whole-program checks over the points-to / call graph of every translation unit: C09 and C25."""
import re
import ir, ptr
from ir import AnalysisError, where
from v8model import registrations, load_binding

STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'srand48', 'strtok', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'signal', 'sigaction',
            'umask', 'chdir', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'getenv', 'tmpnam', 'llvm.x86.sse.ldmxcsr', 'fesetround', 'feenableexcept'}
BUFREAD = {'node::Buffer::Data'}

INL = 'function(sroa,mem2reg),cgscc(inline),function(sroa)'
def extmodel(P, fn, i, callee, d):
    dem = P.dem(callee); base = dem.split('(')[0]
    if base == 'node::Buffer::Data':
        P.addp(d, ('B', fn, i['id'])); return True
    if callee in ('uv_once', 'pthread_once') or base.startswith('std::call_once'):
        P.once.append((fn, i))
        n = P.node(fn, i['ops'][1])
        P.icallees.append((fn, i, n))
        return True
    if base.startswith(('v8::', 'node::')) or callee.startswith(('node_', 'napi_')):
        # handles are engine memory; functions handed over may be called back later
        for o in i['ops']:
            n = P.node(fn, o)
            if n is not None: P.handed.append((fn, i, n))
        P.addp(d, ('V8', fn, i['id']))
        return True
    return False

def program(mods, roots):
    P = ptr.Program(mods)
    P.once = []; P.icallees = []; P.handed = []; P.extmodel = extmodel
    for r in roots: P.add_function(r)
    while True:
        P.solve()
        n = len(P.done_fn)
        for fn, i, nd in P.icallees + P.handed:
            for o in list(P.pts.get(nd, ())):
                if o[0] == 'F': P.add_function(o[1])
        if len(P.done_fn) == n and not P.work: break
    return P

def enginefn(P, fn):
    return P.dem(fn).startswith(('v8::', 'node::', 'void v8::', 'v8::', 'void node::', 'bool v8::'))

def guarded(P, fn):
    """block indexes of fn that run only between __cxa_guard_acquire and the end of that initialisation"""
    f = P.fn[fn]; acq = [b for b, blk in enumerate(f['blocks']) for i in blk if i['op'] in ('call', 'invoke') and i['callee'] == ['g', '__cxa_guard_acquire']]
    if not acq: return set()
    free = set(); todo = [0]
    while todo:
        b = todo.pop()
        if b in free or b in acq: continue
        free.add(b)
        t = f['blocks'][b][-1]
        todo += list(t.get('succ', ())) + [x for _, x in t.get('cases', ())] + ([t['default']] if 'default' in t else [])
    return set(range(len(f['blocks']))) - free - set(acq)

def c09(rep):
    U = ir.units()
    ms = ir.load_many(sorted(U), passes=INL); mods = list(ms.values())
    main = next((m for s, m in ms.items() if any(re.match(r'^node_register_module_v\d+$', n) for n in m.defined())), None)
    if main is None: raise AnalysisError('module registration function not found')
    regs, entry, fin, _ = registrations(main, mods)
    if len(regs) < 5: raise AnalysisError('only %d registered callbacks' % len(regs))
    ctors = set()
    for m in mods:
        g = m.globals.get('llvm.global_ctors')
        if g: ctors |= set(re.findall(r"\['g', '([^']+)'\]", repr(g.get('init'))))
    P = program(mods, list(regs.values()) + [entry] + sorted(ctors))
    gblocks = {fn: guarded(P, fn) for fn in P.done_fn}
    blk = {}
    for fn in P.done_fn:
        for b, x in enumerate(P.fn[fn]['blocks']):
            for i in x: blk[(fn, i['id'])] = b
    prot = lambda fn, iid: blk.get((fn, iid)) in gblocks[fn]
    edge = lambda f, iid, c: not prot(f, iid)
    # functions handed to the engine by a callback (release callbacks) run at call time too
    roots = set(regs.values())
    while True:
        seen = P.reachable(roots, edge)
        more = {o[1] for fn, i, nd in P.handed if fn in seen for o in P.pts.get(nd, ()) if o[0] == 'F' and o[1] in P.fn} - roots
        if not more: break
        roots |= more
    # memory reachable from a mutable global is process-wide
    shared = {}
    todo = []
    for g, info in P.gl.items():
        if not info['const'] and g in {x[1] for s in P.pts.values() for x in s if x[0] == 'G'}:
            shared[('G', g)] = g; todo.append(('G', g))
    while todo:
        o = todo.pop()
        for x in P.pts.get(('c', o), ()):
            if x[0] in ('H', 'X') and x not in shared: shared[x] = shared[o] if isinstance(shared[o], str) else '?'; todo.append(x)
    def gname(g):
        for m in mods:
            if g in m.globals: return m.globals[g].get('dem', g)
        return g
    nw = 0
    for fn, i, n, kind in P.writes:
        if fn not in seen: continue
        nw += 1
        if prot(fn, i['id']): rep.check('write', P.dem(fn).split('(')[0], True); continue
        objs = P.pts.get(n, set()) if n is not None else set()
        bad = sorted({shared[o] for o in objs if o in shared})
        if kind.startswith('call ') and not bad: rep.check('write', P.dem(fn).split('(')[0], True); continue
        rep.check('write', P.dem(fn).split('(')[0] + (' ' + where(i) if bad else ''), not bad,
                  'a %s that a registered native function reaches writes process-wide state: %s' % (kind, ', '.join(gname(b) for b in bad)) if bad else '%s of local, argument or Buffer memory' % kind,
                  P.path(seen, fn))
    for (fn, iid), (name, i) in P.ext.items():
        if fn in seen and not enginefn(P, fn):
            rep.check('external-call', '%s' % name, name not in STATEFUL, '%s at %s keeps or changes process-wide state' % (name, where(i)), P.path(seen, fn))
    for fn in seen:
        for b in P.fn[fn]['blocks'] if fn in P.fn else ():
            for i in b:
                if i.get('intr') in STATEFUL: rep.check('external-call', i['intr'], False, 'at ' + where(i))
    # one-time initialisation
    if not P.once and any(not P.gl[o[1]]['const'] for fn, i, n, k in P.writes if fn in P.reachable([entry]) for o in P.pts.get(n, ()) if o[0] == 'G'):
        rep.check('once', P.dem(entry), False, 'the module initialiser writes globals without a once guard')
    direct = P.reachable([entry], edge)
    for fn, i, n, kind in P.writes:
        if fn not in direct or prot(fn, i['id']): continue
        bad = sorted({shared[o] for o in (P.pts.get(n, set()) if n is not None else ()) if o in shared})
        if fn in ctors: bad = []
        rep.check('init-write', P.dem(fn).split('(')[0] + (' ' + where(i) if bad else ''), not bad,
                  'module registration, which runs once per thread that loads the module, writes %s outside the once-only initialiser' % ', '.join(gname(b) for b in bad), P.path(direct, fn))
    for fn, i in P.once:
        n = P.node(fn, i['ops'][0]); objs = P.pts.get(n, set())
        ok = len(objs) == 1 and next(iter(objs))[0] == 'G'
        rep.check('once', where(i), ok, 'the once control is not one global variable: %s' % sorted(objs))
        if not ok: continue
        g = next(iter(objs))[1]; info = P.gl[g]
        rep.check('once-control', gname(g), not info.get('tls') and not info['const'] and 'init' in info, 'the once control is thread-local or not initialised')
        for f2, i2, n2, k2 in P.writes:
            if n2 is not None and ('G', g) in P.pts.get(n2, ()): rep.check('once-control', gname(g) + ' ' + where(i2), False, 'the once control is written outside the once call')
    # initialisation code is reachable through the once call (or static constructors) only
    initroots = {o[1] for fn, i, nd in P.icallees for o in P.pts.get(nd, ()) if o[0] == 'F'}
    inits = P.reachable(initroots)
    nglob = set()
    for fn, i, n, kind in P.writes:
        for o in (P.pts.get(n, set()) if n is not None else ()):
            if o[0] == 'G' and o in shared and fn in inits: nglob.add(o[1])
    rep.cover.update(functions=len(P.done_fn), call_time_functions=len([f for f in seen if f in P.fn]), registered=sorted(regs), once_calls=len(P.once),
                     write_instructions=nw, indirect_calls=sum(len(v) for v in P.icalls.values()), globals_written_by_initialiser=sorted(gname(g) for g in nglob),
                     shared_heap_blocks=sum(1 for o in shared if o[0] == 'H'))
    if nw < 200 or len(nglob) < 5: raise AnalysisError('too little found: %d writes, %d initialised globals' % (nw, len(nglob)))
    # indirect calls must resolve, or the reachability above proves nothing
    for n, calls in P.icalls.items():
        for fn, i in calls:
            if fn not in seen: continue
            t = P.calls[fn].get(i['id'], set())
            if not t and all(o[0] != 'V8' for o in P.pts.get(n, ())): 
                rep.check('indirect-call', where(i), None, 'no target found for the indirect call')
            else: rep.check('indirect-call', where(i), True, '%d targets' % len(t))

# ---------------------------------------------------------------- C25: inputs are never written
SIGS = {'i64 (i32, ptr, ptr, ptr, i64, i32)': ('encode', 2, False), 'i32 (ptr, ptr, i64, ptr)': ('decode', 0, True), 'i32 (ptr, i64, i32)': ('crc', 0, False)}

def kernels(mods, regs, entry, ctors):
    """{function: kind}: everything the native callbacks can call through the dispatch pointers"""
    P = program(mods, list(regs.values()) + [entry] + ctors)
    out = {}
    seen = P.reachable(set(regs.values()))
    own = lambda f: f in P.fn
    for fn in seen:
        for iid, cs in P.calls.get(fn, {}).items():
            for c in cs:
                if own(c) and P.fn[c]['ty'] in SIGS: out[c] = SIGS[P.fn[c]['ty']][0]
    return P, out

def c25(rep):
    U = ir.units()
    ms = ir.load_many(sorted(U), passes=INL); mods = list(ms.values())
    main = next((m for s, m in ms.items() if any(re.match(r'^node_register_module_v\d+$', n) for n in m.defined())), None)
    if main is None: raise AnalysisError('module registration function not found')
    regs, entry, fin, _ = registrations(main, mods)
    ctors = sorted(set(c for m in mods if 'llvm.global_ctors' in m.globals for c in re.findall(r"\['g', '([^']+)'\]", repr(m.globals['llvm.global_ctors'].get('init')))))
    P0, ks = kernels(mods, regs, entry, ctors)
    kinds = {}
    for k in ks.values(): kinds[k] = kinds.get(k, 0) + 1
    if min(kinds.get(x, 0) for x in ('encode', 'decode', 'crc')) < 1 or len(ks) < 20: raise AnalysisError('only %d kernels found (%s)' % (len(ks), kinds))
    total = 0
    SRC = ('P', 'input')
    for k in sorted(ks):
        kind, pos, byref = next(v for s, v in SIGS.items() if s == P0.fn[k]['ty'])
        P = ptr.Program(mods)
        P.once = []; P.icallees = []; P.handed = []; P.extmodel = extmodel
        if byref:
            P.addp(('arg', k, 0), ('P', '&input')); P.addp(('c', ('P', '&input')), SRC)
            P.addp(('arg', k, 1), ('P', '&output')); P.addp(('c', ('P', '&output')), ('P', 'output'))
            P.addp(('arg', k, 3), ('P', 'state'))
        else:
            P.addp(('arg', k, pos), SRC)
            if kind == 'encode': P.addp(('arg', k, 1), ('P', 'column')); P.addp(('arg', k, 3), ('P', 'output'))
        for r in [k, entry] + ctors: P.add_function(r)
        while True:
            P.solve(); n = len(P.done_fn)
            for fn, i, nd in P.icallees:
                for o in list(P.pts.get(nd, ())):
                    if o[0] == 'F': P.add_function(o[1])
            if len(P.done_fn) == n and not P.work: break
        seen = P.reachable([k])
        nsrc = 0
        for fn, i, nd in P.reads:
            if fn in seen and nd is not None and SRC in P.pts.get(nd, ()): nsrc += 1
        for fn, i, nd, how in P.writes:
            if fn not in seen: continue
            total += 1
            objs = P.pts.get(nd, set()) if nd is not None else set()
            bad = SRC in objs
            rep.check('kernel-write', '%s%s' % (P.dem(k).split('(')[0], ' ' + where(i) if bad else ''), not bad, 'a %s in a %s kernel goes to its input' % (how, kind), P.path(seen, fn))
            if not objs and not how.startswith('call '):
                # the address comes from nowhere the analysis knows: an integer turned into a pointer
                rep.check('kernel-write', '%s %s' % (P.dem(k).split('(')[0], where(i)), None, 'the address written by this %s is not understood' % how)
        rep.check('kernel-reads-input', P.dem(k).split('(')[0], True if nsrc else None, 'no read of the input found: parameters not understood' if not nsrc else '%d reads of the input' % nsrc)
    # the bindings: contents of the data argument are only handed to kernels as source
    import bindings
    ctx = bindings.Ctx()
    for api, r in bindings.ROLES.items():
        outs = {r[k] for k in ('out', 'opt_out') if k in r}
        def inp(p): return p[0] == 'ptr' and p[1][0] == 'bdata' and p[1][1][1] == 'arg' and p[1][1][2] not in outs
        def on_event(it, st, kind, data):
            if kind == 'store':
                p, size, val, ins = data
                if p[1][0] == 'bdata': rep.check('binding-write', bindings.at(it, ins), not inp(p), 'writes to the contents of input argument %s' % (p[1][1][2] if inp(p) else ''), bindings.trace(st))
            elif kind in ('encode', 'decode'):
                d, ins = data
                rep.check('binding-destination', bindings.at(it, ins), not inp(d['dst']), 'the kernel writes to the contents of input argument %s' % (d['dst'][1][1][2] if inp(d['dst']) else ''), bindings.trace(st))
            elif kind == 'extbuf':
                h, p, n, cb, hint, ins = data
                rep.check('binding-result', bindings.at(it, ins), not inp(p), 'the returned Buffer shares the memory of an input', bindings.trace(st))
        fin, it, m = ctx.run(api, on_event)
        for st in fin:
            for e in st.events:
                if e[0] in ('memcpy', 'memset'): rep.check('binding-write', '%s: %s' % (api, where(e[-1])), not inp(e[1]), 'writes to the contents of an input argument')
                if e[0] == 'call':
                    for j, a in enumerate(e[3]):
                        if inp(a) and not (e[4].get('ro') or e[4]['argro'][j]) and not it.dem(e[1] or '').startswith(('v8::', 'node::', 'memcmp')):
                            rep.check('binding-write', '%s: %s' % (api, where(e[4])), None, 'input contents handed to %s' % e[1])
    rep.need('binding-destination', 5)
    rep.cover.update(kernels={P0.dem(k).split('(')[0]: v for k, v in ks.items()}, write_instructions=total)
