"""Compile the repository's translation units to LLVM IR with the build's own flags and load them.

The flags come from binding.gyp (evaluated for linux/x64, enable_native_tuning=0, i.e. what
/opt/vp/build.sh builds), not from the ignored build directory.  Nothing from the repository is run:
clang emits IR, `opt` runs the scalar clean-up passes named by the caller, irdump prints JSON.
"""
import ast, hashlib, json, os, re, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unsupported construct)."""

# ---------------------------------------------------------------- binding.gyp
def _sub(s, vars_):
    return re.sub(r'<\((\w+)\)', lambda m: str(vars_.get(m.group(1), '')), s)

def _evalcond(c, vars_):
    return bool(eval(c, {'__builtins__': {}}, vars_))

def _merge(dst, src):
    for k, v in src.items():
        if k == 'conditions':
            continue
        if isinstance(v, list):
            dst.setdefault(k, [])
            dst[k] = dst[k] + v
        elif isinstance(v, dict):
            d = dst.setdefault(k, {})
            if isinstance(d, dict):
                _merge(d, v)
        else:
            dst[k] = v

def _cmdvar(v, cwd):
    m = re.match(r'^<!\((?:<!\()?(.*?)\)?\)$', v)
    cmd = m.group(1)
    if cmd.startswith('echo '):           # <!(<!(echo X) rest)  ->  nested command expansion
        i = v.index(')')
        inner = v[len('<!(<!('):i]
        rest = v[i + 1:-1]
        cmd = '$(' + inner + ')' + rest
        cmd = 'eval "' + cmd.replace('"', '\\"') + '"'
    env = dict(os.environ, CXX='g++')
    env.pop('CXX_target', None)
    return subprocess.run(['sh', '-c', cmd], cwd=cwd, env=env, capture_output=True, text=True).stdout.strip()

def _flatten(node, vars_, cwd):
    vars_ = dict(vars_)
    for k, v in node.get('variables', {}).items():
        name = k.rstrip('%')
        if isinstance(v, str) and v.startswith('<!'):
            v = _cmdvar(v, cwd)
        if not (k.endswith('%') and name in vars_):
            vars_[name] = v
    out = {}
    _merge(out, node)
    for c in node.get('conditions', []):
        cond, then = c[0], c[1]
        branch = then if _evalcond(cond, vars_) else (c[2] if len(c) > 2 else None)
        if branch:
            _merge(out, _flatten(branch, vars_, cwd))
    return out

_units = None
def units(extra_vars=None):
    """{source path relative to /repo: {'cflags': [...], 'defines': [...], 'target': name}}"""
    global _units
    if _units is not None and extra_vars is None:
        return _units
    txt = open(os.path.join(REPO, 'binding.gyp')).read()
    g = ast.literal_eval(txt)
    vars_ = {'OS': 'linux', 'target_arch': 'x64', 'enable_native_tuning': 0,
             'disable_avx256': 0, 'disable_crcutil': 0}
    vars_.update(extra_vars or {})
    td = _flatten(g['target_defaults'], vars_, REPO)
    res = {}
    for t in g['targets']:
        f = _flatten(t, vars_, REPO)
        flags = list(td.get('cxxflags', [])) + list(f.get('cxxflags', []))
        for bad in f.get('cxxflags!', []):
            flags = [x for x in flags if x != bad]
        for s in f.get('sources', []):
            if not re.search(r'\.(cc|cpp|c)$', s):
                continue
            res[s] = {'cflags': flags, 'defines': list(td.get('defines', [])) + list(f.get('defines', [])),
                      'inc': list(td.get('include_dirs', [])) + list(f.get('include_dirs', [])), 'target': f['target_name']}
    if extra_vars is None:
        _units = res
    return res

DROP = re.compile(r'^(-std=c\+\+03|-mno-avx256-split.*|-Wno-.*)$')
def clang_flags(src, u=None):
    u = u or units()[src]
    fl = ['-std=gnu++17', '-fno-rtti', '-fno-exceptions', '-fno-strict-aliasing', '-fPIC', '-w',
          '-DNODE_GYP_MODULE_NAME=yencode', '-DUSING_UV_SHARED=1', '-DUSING_V8_SHARED=1',
          '-D_GLIBCXX_USE_CXX11_ABI=1', '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE',
          '-D__STDC_FORMAT_MACROS', '-DBUILDING_NODE_EXTENSION', '-I/usr/include/node']
    fl += [f for f in u['cflags'] if not DROP.match(f)]
    fl += ['-D' + d for d in u['defines']]
    fl += ['-I' + os.path.join(REPO, i) for i in u['inc']]
    return fl

# ---------------------------------------------------------------- tools
def irdump():
    src = os.path.join(VERIF, 'lib', 'irdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        cxx = [x for x in cxx if x not in ('-fno-exceptions',)]
        ld = subprocess.check_output(['llvm-config-18', '--ldflags'], text=True).split()
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['clang++-18', '-O1', '-w'] + cxx + [src, '-o', tmp] + ld + ['-lLLVM-18'], check=True)
        os.rename(tmp, exe)
    return exe

_srchash = None
def srchash():
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for d in ('src', 'crcutil-1.0'):
            for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        h.update(open(os.path.join(REPO, 'binding.gyp'), 'rb').read())
        _srchash = h.hexdigest()
    return _srchash

PASSES_SSA = 'sroa,mem2reg'
def load(src, passes=PASSES_SSA, clang_opt=('-O1', '-Xclang', '-disable-llvm-passes'), extra=(), unit=None, text=None):
    """IR module (as dict) of one translation unit."""
    fl = clang_flags(src, unit)
    key = hashlib.sha256(repr((srchash(), src, passes, clang_opt, extra, fl, text)).encode()
                         + open(os.path.join(VERIF, 'lib', 'irdump.cc'), 'rb').read()).hexdigest()[:24]
    cache = os.path.join(BUILD, 'cache')
    cached = os.path.join(cache, key + '.json')
    if not os.path.exists(cached):
        os.makedirs(cache, exist_ok=True)
        bc = os.path.join(cache, key + '.%d.bc' % os.getpid())
        path = os.path.join(REPO, src)
        cmd = ['clang++-18'] + fl + list(clang_opt) + ['-g', '-emit-llvm', '-c', path, '-o', bc] + list(extra)
        r = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('clang cannot compile %s:\n%s' % (src, r.stderr[:2000]))
        bc2 = bc + '2'
        r = subprocess.run(['opt-18', '-passes=' + passes, bc, '-o', bc2], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('opt failed on %s:\n%s' % (src, r.stderr[:2000]))
        out = subprocess.run([irdump(), bc2], capture_output=True, check=True).stdout
        os.unlink(bc); os.unlink(bc2)
        tmp = cached + '.%d' % os.getpid()
        open(tmp, 'wb').write(out)
        os.rename(tmp, cached)
        _trim(cache)
    return Module(json.load(open(cached)), src)

def _trim(cache, keep=600):
    """drop the oldest cache entries"""
    ents = []
    for e in os.listdir(cache):
        try: ents.append((os.path.getmtime(os.path.join(cache, e)), e))
        except OSError: pass
    for _, e in sorted(ents)[:-keep]:
        if not e.endswith('.json'): continue
        try: os.unlink(os.path.join(cache, e))
        except OSError: pass

def load_many(srcs, **kw):
    irdump()
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(zip(srcs, ex.map(lambda s: load(s, **kw), srcs)))

def _rename(x, m):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'g' and x[1] in m: x[1] = m[x[1]]; return
        for y in x:
            if isinstance(y, (list, dict)): _rename(y, m)
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, (list, dict)): _rename(y, m)

class Module:
    def __init__(self, d, src):
        self.d = d; self.src = src
        # internal symbols get the unit's name so that several units can be analysed together
        ren = {}
        for kind in ('functions', 'globals'):
            for n, f in d[kind].items():
                if f.get('local'): ren[n] = n + '@' + os.path.basename(src)
        if ren:
            _rename(d['functions'], ren); _rename(d['globals'], ren)
            for kind in ('functions', 'globals'):
                d[kind] = {ren.get(n, n): f for n, f in d[kind].items()}
        self.structs = d.get('structs', {})
        for a, t in d.get('aliases', {}).items():
            t = ren.get(t, t)
            for kind in ('functions', 'globals'):
                if t in d[kind] and (a not in d[kind] or d[kind][a].get('decl')): d[kind][a] = d[kind][t]
        self.functions = d['functions']; self.globals = d['globals']; self.enums = d['enums']
    def defined(self):
        return {n: f for n, f in self.functions.items() if not f['decl']}
    def by_dem(self, pat):
        r = re.compile(pat)
        return {n: f for n, f in self.functions.items() if r.search(f['dem'])}

def where(ins, fn=None):
    l = ins.get('loc')
    if not l:
        return (fn or '?')
    f, n, s = l[0]
    return '%s:%d (%s)' % (os.path.basename(f), n, s)
