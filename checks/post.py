"""C22: from_post on posts with unknown field values, against a reference decision for the warnings.

A template is the text of a post in which some field values are unknown words and the data is unknown; from_post is
interpreted on it path by path (nothing is merged).  The reference (js/from_post_spec.js) is interpreted on from the end
of each path, so that every combination of what the code and the reference distinguish is compared."""
import os, re, time
from ir import AnalysisError, VERIF
import jsabs, jsre
from jsabs import UNDEF, NULL, TRUE, FALSE, Abrupt, num, S, sconc, conc, cval, ladd, INF
from js import Mod, guarded, showc

def tok(n): return ('tok', n)
class T:
    """a post: head, optional data, tail; {field} stands for an unknown word"""
    def __init__(self, name, head, tail, data=None, extra=(), err=None, start=0, fields=True):
        self.name = name; self.head = head; self.tail = tail; self.data = data
        self.extra = frozenset(extra); self.err = err; self.start = start; self.fields = fields
    def literal(self):
        """the same post with one particular word for each unknown one and particular data: positions become numbers"""
        f = lambda s: re.sub(r'\{(\w+)\}', lambda m: INST.get(m.group(1), 'w' + m.group(1)), s)
        d = self.data and tuple(jsabs.bcat((), [p if p[0] == 'lit' else ('lit', INSTD[p[1]]) for p in self.data]))
        return T(self.name + ' (one instance)', f(self.head), f(self.tail), d, self.extra, self.err, len(f(self.head[:self.start])), self.fields)
INST = {'ln': '128', 'bs': '4711', 'es': '33', 'bp': '2', 'ep': '2', 'bt': '3', 'pb': '11', 'pe': '15', 'nm': 'image', 'cc': 'DEADBEEF', 'pc': '12345678'}
INSTD = {'D': b'r<?? some=data\r\nof two lines' + b'*' * 40, 'D2': b'and more data'}
def pieces(text):
    out = []
    for i, x in enumerate(re.split(r'\{(\w+)\}', text)):
        if i % 2: out.append(tok(x))
        elif x: out.append(x)
    return tuple(out)

def content(text): return jsabs.encode(pieces(text), S('utf8'))
DATA = (('lit', b'x'), ('sym', 'D'))

def lines(t):
    """tag -> properties, as the yEnc draft reads the lines; the last occurrence counts"""
    r = {}
    for line in (t.head[t.start:] + t.tail).split('\r\n'):
        m = re.match(r'=y(\w+)(?: (.*))?$', line.strip())
        if not m: continue
        tag, rest = m.group(1), m.group(2) or ''
        d = r[tag] = {}
        if tag == 'begin' and re.search(r'(?:^| )name=', rest):
            rest, d['name'] = re.split(r'(?:^| )name=', rest, maxsplit=1)
        for k, v in re.findall(r'([a-z_][a-z_0-9]*)=(\S*)', rest): d[k] = v
        if tag == 'end': break
    return r
KEYS = {'begin': {'line': 'line', 'total': 'total', 'part': 'part', 'size': 'size'}, 'part': {'begin': 'begin', 'end': 'end'},
        'end': {'size': 'esize', 'part': 'epart', 'pcrc32': 'pcrc32', 'crc32': 'crc32'}}
def fieldsof(t):
    f = {}
    for tag, d in lines(t).items():
        if tag == 'part': f['ypart'] = 'y'
        for k, v in d.items():
            if k in KEYS.get(tag, {}): f[KEYS[tag][k]] = v
    return f

B = '=ybegin %s\r\n'; E_ = '\r\n=yend %s\r\n'
def templates():
    t = []
    def add(name, begin, end, part=None, data=DATA, **kw):
        head = B % begin + ('=ypart %s\r\n' % part if part is not None else '')
        tail = E_ % end
        if data is None: tail = tail[2:]
        t.append(T(name, head, tail, data, **kw))
    N = ' name=a.bin'
    add('sizes of a single-part post', 'line=128 size={bs}' + N, 'size={es}')
    add('checksums of a single-part post', 'line=128 size=5' + N, 'size=5 pcrc32={pc} crc32={cc}')
    add('checksum of a single-part post', 'line=128 size=5' + N, 'size={es} crc32={cc}')
    add('pcrc32 of a single-part post', 'line=128 size=5' + N, 'size=5 pcrc32={pc}')
    add('line and total', 'line={ln} total={bt} size=5' + N, 'size=5')
    add('part numbers', 'part={bp} line=128 size=50' + N, 'size=5 part={ep}', 'begin=1 end=5')
    add('part number and total', 'part={bp} total={bt} line=128 size=50' + N, 'size=5', 'begin=1 end=5')
    add('part number and total, part number on both lines', 'part={bp} total={bt} line=128 size=50' + N, 'size=5 part={bp}', 'begin=1 end=5')
    add('part number of the trailer and total', 'total={bt} line=128 size=5' + N, 'size=5 part={ep}', 'begin=1 end=5')
    add('part numbers and fixed total', 'part={bp} total=3 line=128 size=50' + N, 'size=5 part={ep}', 'begin=1 end=5')
    add('part numbers without a part line', 'part={bp} line=128 size=50' + N, 'size=5 part={ep}')
    add('total without a part line', 'part=1 total={bt} line=128 size=50' + N, 'size=5')
    add('total without part numbers or a part line', 'total={bt} line=128 size=5' + N, 'size=5')
    add('part number of the trailer alone', 'line=128 size=5' + N, 'size=5 part={ep}')
    add('part line without end', 'part={bp} line=128 size=50' + N, 'size=5', 'begin={pb}')
    add('part line without begin', 'part={bp} line=128 size=50' + N, 'size=5', 'end={pe}')
    add('part range and size', 'part=1 line=128 size=50' + N, 'size={es}', 'begin={pb} end={pe}')
    add('part range and file size', 'part=1 line=128 size={bs}' + N, 'size=5', 'begin={pb} end={pe}')
    add('end of the part range and sizes', 'part=1 line=128 size={bs}' + N, 'size={es}', 'begin=1 end={pe}')
    add('part range without a part number', 'line=128 size={bs}' + N, 'size=5', 'begin=1 end={pe}')
    add('sizes of a part', 'part=2 line=128 size={bs}' + N, 'size={es}', 'begin=11 end=15')
    add('checksums of a part', 'part=2 total=3 line=128 size=50' + N, 'size=5 part=2 pcrc32={pc} crc32={cc}', 'begin=11 end=15')
    add('checksum of a part alone', 'part=2 total=3 line=128 size=50' + N, 'size=5 part=2 crc32={cc}', 'begin=11 end=15')
    add('checksums, part number but no part line', 'part=1 line=128 size=5' + N, 'size=5 pcrc32={pc} crc32={cc}')
    add('post without data', 'line=128 size={bs}' + N, 'size={es} pcrc32={pc} crc32={cc}', data=None)
    add('part without data', 'part=1 line=128 size={bs}' + N, 'size={es} pcrc32={pc} crc32={cc}', '', data=None)
    return t
def structures():
    """how the lines of a post are found and read"""
    t = []
    b = '=ybegin line={ln} size={bs} name={nm}.bin\r\n'; e = '\r\n=yend size={es} crc32={cc}\r\n'
    def add(name, head, tail, data=DATA, **kw): t.append(T(name, head, tail, data, **kw))
    add('single-part post', b, e)
    b = b.replace('{ln}', '128'); e = e.replace('{es}', '7')
    add('multi-part post', '=ybegin part=2 total={bt} line=128 size=50 name={nm}.bin\r\n=ypart begin=11 end=15\r\n', '\r\n=yend size={es} part=2 pcrc32={pc} crc32={cc}\r\n')
    add('properties in another order', '=ybegin size=50 total=3 line={ln} part={bp} name={nm}\r\n=ypart end={pe} begin=11\r\n', '\r\n=yend crc32={cc} pcrc32={pc} part=2 size=5\r\n')
    add('text before the post', 'Subject: {x}\r\nMessage-ID: <{y}>\r\n\r\n' + b, e, start=len('Subject: {x}\r\nMessage-ID: <{y}>\r\n\r\n'))
    add('a start marker inside a line before the post', 'see =ybegin {x}\r\n\r\n' + b, e, start=len('see =ybegin {x}\r\n\r\n'))
    add('empty line before the post', '\r\n' + b, e, start=2)
    add('text after the post', b, e + '.\r\nbye {x}\r\n')
    add('an end marker within the data', b, e, (('lit', b'x'), ('sym', 'D'), ('lit', b'\r\n=yend size=1\r\n'), ('sym', 'D2')))
    add('data starting with an escape', b, e, (('lit', b'=J'), ('sym', 'D')))
    add('data starting with y', b, e, (('lit', b'yy'), ('sym', 'D')))
    add('data starting with a line break', b, e, (('lit', b'\r\nzz'), ('sym', 'D')))
    add('no data', b, e[2:], None)
    add('no data in a part', b.replace('{bs}', '50').replace('\r\n', '\r\n=ypart begin=11 end={pe}\r\n'), e[2:], None)
    add('no data, text after the post', b, e[2:] + 'bye {x}\r\n', None)
    add('no line break at the end', b, e[:-2], extra=['missing_yend_newline'])
    add('name with blanks', '=ybegin line=128 size={bs} name={n1} the {n2} .bin\r\n', e)
    add('name that looks like properties', '=ybegin line=128 size={bs} name={n1} size=3 line={n2}\r\n', e)
    add('blanks at line ends', '=ybegin line=128 size={bs} name={nm} \r\n', '\r\n=yend size={es} \r\n')
    add('unknown properties', '=ybegin line=128 x_1={x} size={bs} name={nm}\r\n', '\r\n=yend size={es} md5={y}\r\n')
    add('properties called like built-in ones', '=ybegin line=128 constructor={x} size={bs} __proto__={z} name={nm}\r\n', '\r\n=yend size={es} toString={y} valueOf={z}\r\n'.replace('toString', 'to_string').replace('valueOf', 'value_of'))
    add('unknown line', b + '=yhash md5={x}\r\n', e)
    add('a name on another line', b + '=yhash name={x} size={y}\r\n', e)
    add('a line that starts like the trailer', b + '=yendless size={y}\r\n', e)
    add('another line that starts like the trailer', b + '=yenc size={y}\r\n', e)
    add('a line called like a built-in property', b + '=y__proto__ size={x} line={y}\r\n', e)
    add('two header lines', b.replace('{bs}', '50') + '=ypart begin={pb} end=15\r\n=yhash md5={x}\r\n', e)
    add('a property given twice', '=ybegin line=128 size={x} size={bs} name={nm}\r\n', e, extra=['duplicate_property'])
    add('a property of the trailer given twice', b, '\r\n=yend size={x} size={es}\r\n', extra=['duplicate_property'])
    add('a line given twice', b.replace('{bs}', '50') + '=ypart begin={x} end={y}\r\n=ypart begin={pb} end=15\r\n', e, extra=['duplicate_line'])
    add('other text in a line', '=ybegin -- line=128 size={bs} name={nm}\r\n', e, extra=['ignored_line_data'])
    add('other text at the end of a line', b, '\r\n=yend size={es} --\r\n', extra=['ignored_line_data'])
    add('one other character in a line', '=ybegin - line=128 size={bs} name={nm}\r\n', e, extra=['ignored_line_data'])
    add('one other character at the end of a line', b, '\r\n=yend size={es} -\r\n', extra=['ignored_line_data'])
    add('a line like the trailer after the post', b, e + '=yendless size={y}\r\n')
    R = 'missing_required_properties'
    add('no line property', '=ybegin size={bs} name={nm}\r\n', e, err=R)
    add('no size property', '=ybegin line={ln} name={nm}\r\n', e, err=R)
    add('no name property', '=ybegin line={ln} size={bs}\r\n', e, err=R)
    add('empty name', '=ybegin line=128 size={bs} name=\r\n', e)
    add('no size in the trailer', b, '\r\n=yend crc32={cc}\r\n', err=R)
    add('no size in the trailer, no data', b, '=yend crc32={cc}\r\n', None, err=R)
    add('no trailer', b, '', (('lit', b'x'),), err='no_end_found')
    add('no trailer, another line instead', b, '\r\n=yenc size={es}\r\n', (('lit', b'x'),), err='no_end_found')
    add('trailer marker inside a line', b, 'zz=yend size={es}\r\n', (('lit', b'x'),), err='no_end_found')
    add('only the first line', b, '', None, err='no_end_found')
    add('no line break after the first line', b[:-2], '', None, err='no_end_found')
    add('no post', 'Hello there {x}\r\n=yend size={es}\r\n', '', None, err='no_start_found')
    add('a start marker inside a line only', 'see =ybegin line={ln} size={bs} name={nm}\r\nx', e, None, err='no_start_found')
    return t

# ------------------------------------------------------------ evaluation of path facts under concrete words
WORDS = ['0', '1', '2', '3', '5', '6', '15', '50', '007', 'abc', '-1', '1.5', '1e1', '0x5', 'deadbeef', 'DEADBEEF', '00000000', 'DEADBEE', 'deadbeef0', 'DeadBeeg', '12345678', '"5"']
HEX = ['deadbeef', '12345678', '00000000']
LEN = [5, 0, 1, 6, 50]
class Unk(Exception): pass
def wstr(pieces, env):
    out = ''
    for p in pieces:
        if isinstance(p, str): out += p
        elif p[0] == 'tok': out += env[p]
        elif p[0] == 'lower': out += wstr((p[1],), env).lower()
        elif p[0] == 'upper': out += wstr((p[1],), env).upper()
        elif p[0] == 'hex': out += env['hex']
        elif p[0] == 'num':
            x = wlin(p[1], env)
            out += repr(int(x)) if x == x and abs(x) != INF and x == int(x) else 'NaN' if x != x else repr(x)
        elif p[0] == 'substr' and isinstance(p[2], int) and isinstance(p[3], int): out += wstr(p[1], env)[p[2]:p[3]]
        elif p[0] == 'drop' and not p[2][1]: out += wstr(p[1], env)[int(p[2][0]):]
        else: raise Unk
    return out
def watom(a, env):
    if a[0] == 'tonum':
        if a[1] and a[1][0] == 'parseInt':
            m = re.match(r'\s*([+-]?\d+)', wstr(a[1][1], env)); return int(m.group(1)) if m else float('nan')
        return jsabs.js_num(wstr(a[1], env))
    if a[0] == 'slen': return len(wstr((a[1],), env))
    if a[0] == 'len' and a[1][0] == 'nat' and a[1][1] == 'decode': return env['len']
    raise Unk
def wlin(l, env):
    t = l[0]
    for a, c in l[1]: t += c * watom(a, env)
    return t
def holds(k, v, env):
    if k[0] == 'S':
        x = wlin((0, k[1]), env)
        if x != x: return True       # told by the NaN fact
        return v[0] <= x <= v[1] and x not in v[2]
    if k[0] == 'U':
        x = wlin((0, k[1]), env); return (x != x) == v
    if k[0] == 'num': x = watom(k[1], env); return (x == x) == v
    if k[0] == 'B':
        a = k[1]
        if a[0] == 'eq': return (wstr(a[1], env) == wstr(a[2], env)) == v
        if a[0] == 'nonempty': return bool(wstr(a[1], env)) == v
        if a[0] == 'match': return jsre.run(a[1], wstr(a[2], env)) == v
        if a[0] == 'strcmp':
            x, y = wstr(a[2], env), wstr(a[3], env); return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[a[1]] == v
    raise Unk
def collect(x, toks, flags):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'tok': toks.add(x); return
        if x and x[0] in ('hex', 'len') and len(x) == 2: flags.add(x[0]); return
        for y in x: collect(y, toks, flags)
def witness(st):
    """words, data length and CRC which satisfy all facts of a path; None when there are none among the candidates"""
    facts = list(st.facts.items()); toks = set(); flags = set()
    if not facts and all(not g[1] for g in st.ge): return {}
    for k, v in facts: collect(k, toks, flags)
    for g in st.ge: collect(g, toks, flags)
    names = sorted(toks) + (['hex'] if 'hex' in flags else []) + (['len'] if 'len' in flags else [])
    doms = [WORDS] * len(toks) + ([HEX] if 'hex' in flags else []) + ([LEN] if 'len' in flags else [])
    # facts are tried as soon as everything they mention is known
    need = []
    for k, v in facts:
        t = set(); f = set(); collect(k, t, f); need.append((max([names.index(n) for n in list(t) + list(f)] or [-1]), k, v))
    try:
        for lv, k, v in need:
            if lv < 0 and not holds(k, v, {}): return None
        def go(i, env):
            if i == len(names):
                return dict(env) if all(wlin(g, env) >= 0 for g in st.ge) else None
            for w in doms[i]:
                env[names[i]] = w
                if all(holds(k, v, env) for lv, k, v in need if lv == i):
                    r = go(i + 1, env)
                    if r: return r
            env.pop(names[i], None); return None
        return go(0, {})
    except Unk: return None
def showw(env): return ', '.join('%s=%s' % (n[1] if isinstance(n, tuple) else n, v) for n, v in env.items())

# ------------------------------------------------------------
def reference(js):
    ast = jsabs.load_ast(os.path.join(VERIF, 'js', 'from_post_spec.js'))
    return ast['body'][0]['expression']
def codes(js, st, v):
    """warning codes on a returned object"""
    if v[0] != 'r': return None
    o = st.heap[v[1]]; w = o['props'].get('warnings', UNDEF)
    if w == UNDEF: return ()
    if w[0] != 'r' or st.heap[w[1]]['kind'] != 'array' or st.heap[w[1]].get('rest') is not None: return None
    out = []
    for e in st.heap[w[1]]['items']:
        c = st.heap[e[1]]['props'].get('code') if e[0] == 'r' else None
        c = sconc(c) if c else None
        if c is None: return None
        out.append(c)
    return tuple(sorted(set(out)))
def prop(st, v, *path):
    for k in path:
        if v is None or v[0] != 'r': return None
        v = st.heap[v[1]]['props'].get(k)
    return v

def tlen(js, text, upto):
    """length of the first upto characters of a template text, in bytes of the post"""
    return js.blen(None, content(text[:upto]))
def expected(js, t):
    """positions and properties of a well-formed template"""
    z = lambda l: ('n', l)
    hl = js.blen(None, content(t.head)); dl = js.blen(None, t.data or ()); tail = t.tail
    p = {'yencStart': z(tlen(js, t.head, t.start))}
    end = re.search(r'=yend [^\r]*(?:\r\n|$)', tail).end()
    p['yencEnd'] = z(ladd(ladd(hl, dl), tlen(js, tail, end)))
    if t.data: p['dataStart'] = z(hl); p['dataEnd'] = z(ladd(hl, dl))
    return p, lines(t)
def run_template(m, t, spec, raw=TRUE):
    """(number of facts decided, {what is wrong: witness}, undecided, paths); what starts with 'warning' is about warnings"""
    js = m.js; st = m.st.copy()
    full = jsabs.bcat(jsabs.bcat(content(t.head), t.data or ()), content(t.tail))
    d = js.buf(st, full)
    js.deadline = time.time() + 60
    outs = m.export('from_post', [d, raw], st)
    js.deadline = None
    n = {'loc': 0}
    if not t.err: f = fieldsof(t); pos, props = expected(js, t)
    bad = {}; und = {}; okc = [0, 0]; tries = {}
    for v, s in outs:
        def note(what, good, s=s):
            if good is True: okc[what.startswith('warning')] += 1; return
            if what in bad: return
            w = None
            if good is False and tries.get(what, 0) < 12:
                t0 = time.time(); w = witness(s); tries[what] = tries.get(what, 0) + time.time() - t0
            if w is not None or (good is False and not s.facts): bad.setdefault(what, showw(w or {}))
            else: und.setdefault(what, 1)
        if isinstance(v, Abrupt): note('exception: ' + m.err(v, s), False); continue
        ob = s.heap[v[1]] if v[0] == 'r' else None
        if ob and ob['kind'] == 'error':
            c = ob['props'].get('code'); c = sconc(c) if c else None
            note('error %s%s' % (c, ' instead of %s' % t.err if t.err else ''), c == t.err); continue
        if t.err: note('an object instead of the error ' + t.err, False if ob else None); continue
        if ob is None: note('an unknown value is returned', None); continue
        s = s.copy()
        # positions, properties
        for k in ('yencStart', 'dataStart', 'dataEnd', 'yencEnd'):
            x = ob['props'].get(k, UNDEF)
            note('%s is wrong' % k, x == pos.get(k, UNDEF) if x == UNDEF or x[0] == 'n' else None)
        pr = prop(s, v, 'props')
        if pr is None or pr[0] != 'r': note('props is not an object', False)
        else:
            have = s.heap[pr[1]]['props']
            note('lines in props: %s instead of %s' % (sorted(have), sorted(props)), sorted(have) == sorted(props))
            for tag in props:
                if tag not in have or have[tag][0] != 'r': continue
                h = s.heap[have[tag][1]]['props']
                note('properties of =y%s: %s instead of %s' % (tag, sorted(h), sorted(props[tag])), sorted(h) == sorted(props[tag]))
                for k, x in props[tag].items():
                    if k in h: note('property %s of =y%s' % (k, tag), h[k] == ('s', pieces(x)) if h[k][0] == 's' else None)
        if t.data:
            buf, s2 = js.native(s, 'decode', [js.buf(s, t.data), raw], n)[0]
            cr, s2 = js.native(s2, 'crc32', [buf], n)[0]
            hexv = ('s', (('hex', js.content(s2, cr)),)); ln = ('n', js.blen(s2, js.content(s2, buf)))
            rd = prop(s, v, 'data'); rc = prop(s, v, 'crc32')
            note('data is not the decoded data of the post', rd is not None and js.isbuf(s, rd) and js.content(s, rd) == js.content(s2, buf))
            note('crc32 is not the CRC-32 of the data', rc is not None and js.isbuf(s, rc) and js.content(s, rc) == js.content(s2, cr))
            s = s2
        else:
            hexv, ln = S('00000000'), num(0)
            note('data of a post without data', 'data' not in ob['props'] or ob['props']['data'] == UNDEF or js.isbuf(s, ob['props']['data']) and js.content(s, ob['props']['data']) == ())
        got = codes(js, s, v)
        if got is None: note('warnings cannot be told', None); continue
        if not t.fields: continue
        fo = js.new(s, 'object'); js.obj(s, fo)['props'].update({k: ('s', pieces(x)) for k, x in f.items()})
        fn = js.closure(s, spec, js.newscope(s, None))
        for w, q in js.call(s, fn, UNDEF, [fo, hexv, ln], n):
            if isinstance(w, Abrupt): raise AnalysisError('the reference fails: ' + m.err(w, q))
            want = set(sconc(e) for e in q.heap[w[1]]['items']) | t.extra
            miss = sorted(c for c in want if c not in got); more = sorted(c for c in got if c not in want)
            if not miss and not more: okc[1] += 1
            for c in miss: note('warning %s is missing' % c, False, q)
            for c in more: note('warning %s is not due' % c, False, q)
    for w in bad: und.pop(w, None)
    return okc, bad, und, len(outs)

def sweep(rep, ts, pick, rule):
    m = Mod(sym_encoding=False); js = m.js; js.unroll = True; js.max_states = 4000
    where = js.file + ': from_post'; spec = reference(js)
    paths = n = 0; seen = {}
    t0 = time.time()
    for t in ts:
        for t, raw in [(t, TRUE)] + ([(t.literal(), FALSE)] if not pick else []):
            if time.time() - t0 > 500: rep.check(rule + ': ' + t.name, where, None, 'time limit'); continue
            def one():
                nonlocal paths, n
                ok, bad, und, k = run_template(m, t, spec, raw); paths += k; n += 1
                b = {w: x for w, x in bad.items() if w.startswith('warning') == pick}; u = [w for w in und if w.startswith('warning') == pick]
                for w, x in b.items():
                    if w in seen: seen[w] += 1; continue
                    seen[w] = 1
                    rep.check(rule + ': ' + t.name, where, False, '%s, for example for %s in %s' % (w, x or 'any values', (t.head + ('<data>' if t.data else '') + t.tail).replace('\r\n', ' | ')))
                for w in u: rep.check(rule + ': ' + t.name, where, None, 'cannot tell whether on some path: ' + w)
                if not b and not u: rep.check(rule + ': ' + t.name, where, True, '%d cases on %d paths agree with the reference' % (ok[pick], k))
            guarded(rep, rule + ': ' + t.name, where, one)
    rep.cover.update(posts_with_unknown_values=n, paths_of_from_post=paths, reported_elsewhere_too=sum(seen.values()) - len(seen))
def warnings(rep):
    sweep(rep, templates() + [t for t in structures() if t.extra or 'built-in' in t.name], True, 'a warning is given exactly when it is due')
def reading(rep):
    sweep(rep, structures(), False, 'fields, positions, data and checksum are those of the post')
