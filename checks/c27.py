"""C27: source, import, require and modules run the right code, once and in order (compared with a model)."""
from vf.js import *
import os, posixpath, json, re

PRE = '''var L = [];
function c(e) { L.push(/^x[0-9]+$/.test(e) ? 'c'+e : 'cERR'); }
function sv(x:any=void) { L.push('v'+(x===undefined?'u':typeof x==='object'?'{"v":'+x.v+'}':x)); }
'''

class Err(Exception):
    """A jsish error; .x is the thrown text or None for an error of the engine."""
    def __init__(s, x=None): s.x = x

class File:
    def __init__(f, path): f.path = path; f.dir = posixpath.dirname(path); f.body = []; f.value = None; f.bad = False; f.imp = False; f.text = ''

# ---------------------------------------------------------------- sourcing
class Src:
    def __init__(s, r, d):
        s.r = r; s.d = d; s.files = []; s.n = 0; s.kinds = set(); s.maxdepth = r.choice([None, None, 3, 4, 6])
        dirs = [d, d + '/sub', d + '/sub/deep', d + '/o dd']
        for x in dirs: os.makedirs(x, exist_ok=True)
        s.main = File(d + '/main.jsi')
        for i in range(r.randint(2, 6)):
            f = File('%s/%s%d.%s' % (r.choice(dirs), r.choice(['f', 'f', 'né', 'a.b']), i, r.choice(['jsi', 'jsi', 'js', 'txt']))); f.i = i; s.files.append(f)
            k = r.random(); f.imp = k < .18; f.bad = k > .93
        for f in s.files: f.body = s.gen(f, 0); f.value = r.choice([None, None, r.randint(1, 99)]) if not f.imp else r.randint(1, 99)
        s.main.body = s.gen(s.main, 0, r.randint(3, 6))
    def tag(s): s.n += 1; return 'e%d' % s.n
    def pick(s, f):
        r = s.r; later = [g for g in s.files if f is s.main or g.i > f.i]
        if r.random() < .06 and f is not s.main and s.maxdepth: return r.choice(s.files)   # may recurse: bounded by the depth
        return r.choice(later) if later else None
    def gen(s, f, dep, n=None):
        r = s.r; out = []
        for _ in range(n or r.randint(1, 4)):
            k = r.random()
            if k < .22: out.append(('ev', s.tag()))
            elif k < .3: out.append(('main', s.tag()) if f is not s.main and not dep else ('ev', s.tag()))
            elif k < .36: out.append(('var', '%s%d' % ('h' if dep else 'g', r.randint(0, 3)), r.randint(1, 99)))   # own names in functions: which of a hoisted local and a global of the same name sourced code sees is not specified
            elif k < .44: out.append(('rd', '%s%d' % (r.choice('gggh' if not dep else 'ggh'), r.randint(0, 3))))
            elif k < .5: out.append(('rdl', 'loc'))
            elif k < .54 and f is not s.main: out.append(('throw', 'x%d' % r.randint(0, 99)))
            elif k < .62 and dep < 2: out.append(('fn', s.gen(f, dep + 1), r.randint(1, 9)))
            else:
                o = {x: True for x in ('once', 'exists', 'noError', 'noEval', 'isMain', 'global') if r.random() < (.25 if x == 'once' else .09)}
                for x in ('once', 'isMain'):
                    if x not in o and r.random() < .05: o[x] = False
                g = s.pick(f); form = r.choice(['one', 'one', 'one', 'one', 'arr', 'imp', 'imp'])
                if g is None: out.append(('ev', s.tag())); continue
                if form == 'imp': g = r.choice([x for x in s.files if x.imp and (f is s.main or x.i > f.i)] or [None]); form = 'imp' if g else 'one'; g = g or s.pick(f)
                elif g.imp: g = None
                if form == 'one' and r.random() < .1: g = 'missing'
                if g is None: out.append(('ev', s.tag())); continue
                if form == 'arr': gs = [x for x in s.files if not x.imp and (f is s.main or x.i > f.i) and r.random() < .6] or [g]; r.shuffle(gs)
                else: gs = [g]
                if form == 'imp' or any(g != 'missing' and g.bad for g in gs) or g == 'missing': o.pop('noError', None)
                if form == 'imp': o = {}
                out.append(('src', form, gs, o, r.choice(['plain', 'try', 'try', 'value' if form != 'arr' and not o and g != 'missing' else 'try']), r.randint(0, 3)))
        return out
    def path(s, g, cur, style):
        p = g.path if g != 'missing' else s.d + '/none.jsi'
        if style == 0: return p
        rel = posixpath.relpath(p, cur)
        return [rel, './' + rel, '../' + posixpath.basename(cur) + '/' + rel][style - 1]
    def js(s, body, f):
        o = ''
        for st in body:
            k = st[0]
            if k == 'ev': o += 'L.push("%s");\n' % st[1]
            elif k == 'main': o += 'L.push("%s"+Info.isMain());\n' % st[1]
            elif k == 'var': o += 'var %s = %d;\n' % st[1:]
            elif k in ('rd', 'rdl'): o += 'L.push(typeof %s === "undefined" ? "u" : "r"+%s);\n' % (st[1], st[1])
            elif k == 'throw': o += 'throw "%s";\n' % st[1]
            elif k == 'fn': o += '(function() { var loc = %d;\n%s})();\n' % (st[2], s.js(st[1], f))
            else:
                _, form, gs, op, how, style = st
                a = jstr(s.path(gs[0], f.dir, style)) if form != 'arr' else '[' + ', '.join(jstr(s.path(g, f.dir, style)) for g in gs) + ']'
                call = '%s(%s%s)' % ('import' if form == 'imp' else 'source', a, ', ' + json.dumps(op) if op or s.r.random() < .1 else '')
                o += {'plain': call + ';\n', 'try': 'try { %s; } catch(e) { c(e); }\n' % call, 'value': 'try { sv(%s); } catch(e) { c(e); }\n' % call}[how]
        return o
    def write(s):
        r = s.r
        for f in s.files:
            t = r.choice(['', '', '#!/usr/bin/env jsish\n', '// a comment\n\n', '/* more\n than one line */\n', '\n \n']) + s.js(f.body, f)
            if r.random() < .05: n = r.choice([8180, 8190, 16380, 16383, 16384, 20000]); t += 'L.push(%s.length);\n' % jstr('y' * n); f.long = n
            if f.bad: t += r.choice(['var = 1;\n', 'if (\n', '}\n', 'function () {\n'])
            elif f.imp: t += 'return {v:%d};' % f.value
            elif f.value: t += '%d+0' % f.value
            t += r.choice(['', '\n', '\n', '\n', ' // the end', '\n// end\n']) if not f.value or f.imp else r.choice(['', '\n', ' // the end', '\n\n'])
            if r.random() < .05 and '"%s"' % ('y' * 99) not in t: t = t.replace('\n', '\r\n')
            f.text = t; open(f.path, 'w').write(t)
        s.main.text = PRE + 'try {\n' + s.js(s.main.body, s.main) + '} catch(e) { c(e); }\nputs(JSON.stringify(L));\n'
        open(s.main.path, 'w').write(s.main.text)
    # the model
    def model(s):
        s.L = []; s.seen = {s.main.path}; s.G = {}; s.depth = 0; s.isM = True; s.maxd = s.maxdepth or 50; s.budget = 3000; s.warn = False
        try: s.ex(s.main.body, s.main, [{}])
        except Err as e: s.c(e)
        return s.L
    def c(s, e): s.L.append('c' + e.x if e.x else 'cERR')
    def ex(s, body, f, env):
        for st in body:
            s.budget -= 1
            if s.budget < 0: raise OverflowError
            k = st[0]
            if k == 'ev': s.L.append(st[1])
            elif k == 'main': s.L.append(st[1] + str(s.isM).lower())
            elif k == 'var':
                if env[0] is not None and ('fn' in env[0] or 'imp' in env[0]): env[0][st[1]] = st[2]
                else: s.G[st[1]] = st[2]
            elif k in ('rd', 'rdl'):
                v = next((e[st[1]] for e in env if e and st[1] in e), s.G.get(st[1])); s.L.append('u' if v is None else 'r%d' % v)
            elif k == 'throw': raise Err(st[1])
            elif k == 'fn': e = s.hoist(st[1], {'fn': 1, 'loc': st[2]}); s.ex(st[1], f, [e] + env)
            else:
                _, form, gs, op, how, style = st; s.kinds.add('%s%s' % ({'one': 'source', 'arr': 'source list', 'imp': 'import'}[form], ' ' + '+'.join(sorted(x for x in op if op[x])) if op else ''))
                try:
                    v = s.source(form, gs, op, env)
                    if how == 'value': s.L.append('v' + ('u' if v is None else '{"v":%d}' % v if form == 'imp' else str(v)))
                except Err as e:
                    if how == 'plain': raise
                    s.c(e)
    def hoist(s, body, e):
        for st in body:
            if st[0] == 'var': e.setdefault(st[1], None)
        return e
    def source(s, form, gs, op, env):
        if s.depth + 1 > s.maxd: s.kinds.add('too deep'); raise Err()
        s.depth += 1; om = s.isM; s.isM = bool(op.get('isMain')); v = None
        try:
            for g in gs:
                if g == 'missing':
                    s.kinds.add('missing file')
                    if op.get('exists'): continue
                    raise Err()
                if op.get('once') and g.path in s.seen: s.kinds.add('once again'); continue
                s.seen.add(g.path); v = None
                if g.bad: s.kinds.add('syntax error'); raise Err()
                if op.get('noEval'): continue
                try:
                    e = [{'imp': 1}] if form == 'imp' else [None]
                    if form == 'imp': s.hoist(g.body, e[0])
                    s.ex(g.body, g, e + ([] if op.get('global') else env))
                    if hasattr(g, 'long'): s.L.append(g.long)
                    v = g.value
                except Err as e:
                    if not op.get('noError'): raise
                    s.kinds.add('error ignored')
            return v
        finally: s.depth -= 1; s.isM = om

def case_source(ctx, i):
    r = ctx.sub('s%d' % i); d = os.path.realpath(os.path.join(ctx.tmp, 's%d' % i)); os.makedirs(d)
    s = Src(r, d); s.write()
    try: want = s.model()
    except OverflowError: return
    opt = ['--I', 'maxIncDepth:%d' % s.maxdepth] if s.maxdepth else []
    res = ctx.run(opt + [s.main.path], cwd=r.choice([d, '/', d + '/sub'])); judge(ctx, res, want, s, 'source', [s.main] + s.files)

def judge(ctx, res, want, s, what, files):
    txt = '\n'.join('=== %s\n%s' % (f.path, f.text) for f in files)
    for k in s.kinds: ctx.count(what + ': ' + k if not k.startswith(what) else k)
    ctx.case((what, tuple(sorted(s.kinds)), len(want)), sample={'kinds': sorted(s.kinds), 'events': want[:20]})
    if not ctx.sanity(res, what, txt, txt): return
    try: got = json.loads(res.text.strip().split('\n')[-1])
    except Exception: got = res.text[-300:] + ' / ' + res.etext[-400:]
    if got != want:
        n = next((j for j in range(len(want)) if not isinstance(got, list) or j >= len(got) or got[j] != want[j]), len(want))
        ctx.violation(what + ': ' + str(want[n] if n < len(want) else 'more'), '%s: event %d differs\nwant %r\ngot  %r\nstderr %s' % (what, n, want, got, res.etext[-500:]), txt)

# ---------------------------------------------------------------- packages
def norm(v):
    """The number of a version and what is known of its text."""
    if isinstance(v, str): p = (v.split('.') + ['0', '0'])[:3]; p = [int(x or 0) for x in p]; return p[0] * 10000 + p[1] * 100 + p[2]
    return int(v * 10000 + .5)
def vnum(n): return '%.15g' % (n / 10000)
def vstr(n): return '%d.%d.%d' % (n // 10000, n // 100 % 100, n % 100)

class Pkgs:
    def __init__(s, r, d):
        s.r = r; s.d = d; s.kinds = set(); s.n = 0; s.files = {}; s.order = []
        s.main = File(d + '/main.jsi'); s.names = ['Pa', 'Pb', 'pc', 'Pd1', 'P_e']; s.libs = []
        for x in ('lib1', 'lib2', 'li b3'): os.makedirs(d + '/' + x); s.libs.append(d + '/' + x)
        for k, nm in enumerate(s.names):
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                p = r.choice(s.libs + [d]) + '/' + r.choice(['', '', nm + '/']) + nm + '.jsi'
                if p in s.files: continue
                os.makedirs(posixpath.dirname(p), exist_ok=True); f = File(p); s.files[p] = f; f.i = k; f.name = nm
                f.form = r.choice(['provide', 'provide', 'provide', 'auto', 'func', 'module', 'none', 'other', 'bad'] if r.random() < .7 else ['provide'])
                if f.form in ('func', 'module') and nm in ('Pa', 'x'): f.form = 'provide'
                f.ver = r.choice([None, 1, 2, 1.5, 2.0304, '1.2', '1.2.3', '2.30.4', '3', '0.0.1', '99.99.99', 10.5])
                if f.form == 'auto': f.ver = None
                f.pre = s.reqs(k); f.post = s.reqs(k); f.throw = r.choice([None, None, None, None, 'before', 'after'])
        s.main.body = s.reqs(-1, r.randint(4, 9))
    def ver(s): r = s.r; return r.choice([None, None, None, 0, 1, 1.5, 1.51, 2, 3, '1.2', '1.2.4', '1.2.3', '2.30.4', '2.30.5', '0', '10.50', '99.99.99', 'x', '1.2a', '', 100, -1, '100.1'])
    def reqs(s, k, n=None):
        r = s.r; out = []
        for _ in range(r.choice([0, 0, 1]) if n is None else n):
            later = s.names[k + 1:] if r.random() < .9 or k < 0 else s.names[k:]   # sometimes itself
            if not later: continue
            out.append((r.choice(later + ['Pz'] if r.random() < .1 else later), s.ver() if k < 0 or r.random() < .3 else None, r.choice(['', '', 'opts']) , r.choice(['try', 'try', 'plain']) if k >= 0 else 'try', s.r.random() < .15 and k < 0))
        return out
    def js(s, reqs):
        o = ''
        for nm, v, op, how, prov in reqs:
            if prov: o += 'try { provide(%s, 7); L.push("prov"); } catch(e) { c(e); }\n' % jstr(nm + 'q' if len(nm) % 2 else nm); continue
            a = jstr(nm) + ('' if v is None else ', ' + (jstr(v) if isinstance(v, str) else repr(v)))
            if v is not None and op: o1 = 'rv(require(%s, {nofreeze:true}));' % a
            else: o1 = 'rv(require(%s));' % a
            o += o1 + '\n' if how == 'plain' else 'try { %s } catch(e) { c(e); }\n' % o1
        return o
    def write(s):
        PR = PRE + 'function rv(x:any) { L.push(typeof x === "object" ? x.name+" "+x.version+" "+x.verStr+" "+x.loadFile : "n"+x); }\n'
        for p, f in s.files.items():
            v = None if f.ver is None else jstr(f.ver) if isinstance(f.ver, str) else repr(f.ver); va = '' if v is None else ', ' + v
            t = 'L.push(%s);\n' % jstr('ld' + p[len(s.d):]) + s.js(f.pre)
            if f.throw == 'before': t += 'throw "x1";\n'
            nm = f.name
            t += {'provide': 'provide(%s%s);\n' % (jstr(nm), va), 'auto': 'provide();\n', 'func': 'function %s(a, o) { return 1; };\nprovide(%s%s);\n' % (nm, nm, va),
                  'module': 'function %s(a, o) { L.push("ran!"); return 1; };\nmodule(%s%s);\n' % (nm, nm, va), 'none': '', 'other': 'provide("%sX"%s);\n' % (nm, va), 'bad': 'provide(%s, 0);\n' % jstr(nm)}[f.form]
            t += s.js(f.post)
            if f.throw == 'after': t += 'throw "x2";\n'
            f.text = t; open(p, 'w').write(t)
        s.pkgdirs = s.r.choice([None, s.libs, s.libs[::-1], s.libs[:1]])
        s.main.text = PR + ('Interp.conf({pkgDirs:%s});\n' % json.dumps(s.pkgdirs) if s.pkgdirs else '') + s.js(s.main.body) + 'L.push(require().filter(function(x) { var q = /^[Pp]/; return q.test(x); }).sort());\nputs(JSON.stringify(L));\n'
        open(s.main.path, 'w').write(s.main.text)
    def model(s):
        s.L = []; s.P = {}; s.depth = 0; s.budget = 2000; s.fp = {}
        s.ex(s.main.body, s.main); s.L.append(sorted(s.P)); return s.L
    def c(s, e): s.L.append('c' + e.x if e.x else 'cERR')
    def ex(s, reqs, f):
        for nm, v, op, how, prov in reqs:
            if prov:
                try: s.provide(nm + 'q' if len(nm) % 2 else nm, 7, f); s.L.append('prov')
                except Err as e: s.c(e)
                continue
            try: s.require(nm, v, op and v is not None, f)
            except Err as e:
                if how == 'plain': raise
                s.c(e)
    def require(s, nm, v, op, f):
        n = 0
        if v is not None:
            if isinstance(v, str):
                if not re.fullmatch(r'[\d.]+', v) or not v[0].isdigit() or any(int(x or 0) >= 100 for x in v.split('.')[:3]): s.kinds.add('bad version'); raise Err()
            elif v < 0 or v >= 100: s.kinds.add('bad version'); raise Err()
            n = norm(v)
        p = s.P.get(nm)
        if p is None or p['err']: s.load(nm, f); p = s.P[nm]
        else: s.kinds.add('already loaded')
        if p['v'] < n: s.kinds.add('too low'); raise Err()
        if v is not None and not op: s.L.append('%s %s %s %s' % (nm, vnum(p['v']), vstr(p['v']), p['file'])); s.kinds.add('version ok')
        else: s.L.append('n' + vnum(p['v']))
    def provide(s, nm, v, f):
        p = s.P.get(nm)
        if p:
            if p['file'] != f.path: raise Err()
            return
        s.P[nm] = dict(v=norm(1 if v is None else v), file=f.path, err=False)
    def load(s, nm, f):
        s.budget -= 1
        if s.budget < 0: raise OverflowError
        if s.depth > 50: s.kinds.add('recursive require'); raise Err()
        s.depth += 1
        try:
            g = None
            for d in (s.pkgdirs or []) + [f.dir]:
                g = s.files.get('%s/%s.jsi' % (d, nm)) or s.files.get('%s/%s/%s.jsi' % (d, nm, nm))
                if g: break
            if not g: s.kinds.add('not found'); raise Err()
            try:
                s.L.append('ld' + g.path[len(s.d):]); s.ex(g.pre, g)
                if g.throw == 'before': raise Err('x1')
                if g.form == 'bad': raise Err()
                if g.form == 'other': s.provide(g.name + 'X', g.ver, g)
                elif g.form != 'none': s.provide(g.name, g.ver, g)
                s.ex(g.post, g)
                if g.throw == 'after': raise Err('x2')
                if nm not in s.P: s.kinds.add('no provide'); raise Err()
            except Err as e:
                s.kinds.add('error in the file')
                if nm in s.P: s.P[nm]['err'] = True
                raise
            s.P[nm]['err'] = False; s.P[nm]['file'] = g.path; s.kinds.add('loaded by ' + g.form)
        finally: s.depth -= 1

def case_pkgs(ctx, i):
    r = ctx.sub('p%d' % i); d = os.path.realpath(os.path.join(ctx.tmp, 'p%d' % i)); os.makedirs(d)
    s = Pkgs(r, d); s.write()
    try: want = s.model()
    except OverflowError: return
    res = ctx.run([s.main.path], cwd=r.choice([d, '/'])); judge(ctx, res, want, s, 'require', [s.main] + list(s.files.values()))

# ---------------------------------------------------------------- modules
def conv(a):
    """A word of the command line as an option value."""
    if a == 'true' or a == '1': return True
    if a == 'false' or a == '0': return False
    if a == 'null': return None
    if re.fullmatch(r'[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?', a): return float(a)
    if re.fullmatch(r'0[xX][0-9a-fA-F]+', a): return float(int(a, 16))
    return a
def kind(v): return 'bool' if isinstance(v, bool) else 'num' if isinstance(v, (int, float)) else 'str' if isinstance(v, str) else 'any'

def mopts(defs, conf):
    """moduleOpts(): the options or Err."""
    o = dict(defs)
    for k in sorted(conf, key=lambda k: k.encode()):
        v = conf[k]
        if k in ('Debug', 'Trace', 'Test', 'Assert'): d = 'bool'
        elif k not in defs: raise Err('unknown')
        else: d = kind(defs[k])
        if d == 'bool' and kind(v) == 'num' and v in (0, 1): v = v == 1
        if d != 'any' and d != kind(v): raise Err('type')
        o[k] = v
    return o

def words(r, defs):
    o = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.choice(sorted(defs) if r.random() < .93 or not defs else ['nope', 'Zz', '-a', '']) if defs else 'nope'
        w = {'bool': ['true', 'false', '1', '0', 'no', '7'], 'num': ['1.5', '42', '-3', '1e3', '0x1F', 'abc', '-7', '2'], 'str': ['abc', 'a b', '', '-x', '--', 'é', 'a"b', "it's", 'x=1', '12', '[1]'], 'any': ['abc', '5', 'true', 'null', '-q', '']}[kind(defs.get(k))]
        o += ['-' + k, r.choice(w)]
    k = r.random()
    if k < .1: o += ['--']
    if r.random() < .6: o += [r.choice(['file', 'a b', '7', 'é', ''] if True else []) for _ in range(r.randint(1, 3))] + ([r.choice(['-k', '--', 'z', '-a'])] if r.random() < .3 else [])
    elif r.random() < .08: o += ['-' + (sorted(defs)[0] if defs else 'q')]
    return o

def split(w):
    """The words as (args, options), or Err: an option without a value."""
    i = 0; conf = {}
    if w == ['-h']: raise Err('help')
    while i < len(w) and w[i][:1] == '-':
        if w[i] == '--': i += 1; break
        if i + 1 >= len(w): raise Err('missing')
        conf[w[i][1:]] = conv(w[i + 1]); i += 2
    return w[i:], conf

MOD = '''function NAME(args, conf) {
    var self = {}, options = DEFS;
    HOW
    return JSON.stringify([args, self]);
}
'''
def block_mod(ctx, i):
    r = ctx.sub('m%d' % i); d = os.path.realpath(os.path.join(ctx.tmp, 'm%d' % i)); os.makedirs(d)
    nm = 'Mod%d' % i; keys = r.sample(['a', 'b', 'count', 'name', 'zz', 'Big', 'x1', '_u', 'verbose'], r.randint(0, 5))
    defs = {k: r.choice([True, False, 0, 5, 2.5, 'x', '', 'two words', None, None]) for k in keys}
    how = r.choice(['moduleOpts(options, self, conf);', 'moduleOpts(options, self);' if False else 'moduleOpts(options, self, conf);', 'parseOpts(self, options, conf);', 'self = getOpts(options, conf, self);'])
    mod = MOD.replace('NAME', nm).replace('DEFS', json.dumps(defs)).replace('HOW', how) + '%s(%s, %s);\n' % (r.choice(['module', 'module', 'provide']) if r.random() < .7 else 'module', nm, json.dumps(r.choice([1, '1.2', 0.5])))
    open('%s/%s.jsi' % (d, nm), 'w').write(mod); parse = not how.startswith('moduleOpts')
    def result(args, conf):
        try: return [args, mopts(defs, conf) if not parse or not set(conf) & {'Debug', 'Test', 'Trace', 'Assert'} else None]
        except Err as e: return 'cERR'
    L = []; src = PRE + 'require(%s);\nfunction t(f) { try { L.push(JSON.parse(f())); } catch(e) { c(e); } }\n' % jstr(nm)
    K = set(); cur = []
    for _ in range(r.randint(4, 10)):
        k = r.random()
        if k < .7:
            w = words(r, defs); src += 't(function() { return moduleRun(%s, %s); });\n' % (r.choice([jstr(nm), jstr(nm), nm]), json.dumps(w))
            try: a, cf = split(w); L.append(result(a, cf)); K.add('moduleRun %d options' % len(cf))
            except Err: L.append('cERR'); K.add('missing value')
        else:
            a = [r.choice(['p', 5, '-x', True]) for _ in range(r.randint(0, 2))]; cf = {}
            for kk in (r.sample(keys, min(len(keys), r.randint(0, 3))) + (['nope'] if r.random() < .15 else []) + (['Debug'] if r.random() < .1 and not parse else [])):
                cf[kk] = r.choice([True, False, 0, 1, 3.5, 'str', '', None] + [defs[kk]] * 8 if kk in defs else [True])
            src += 't(function() { return %s(%s, %s); });\n' % (nm, json.dumps(a), json.dumps(cf)); L.append(result(a, cf)); K.add('direct call')
    src += 'puts(JSON.stringify(L));\n'; f = File(d + '/main.jsi'); f.text = src; open(f.path, 'w').write(src); m = File('%s/%s.jsi' % (d, nm)); m.text = mod
    class S: kinds = K
    res = ctx.run([f.path], cwd=r.choice([d, '/'])); judge(ctx, res, canonn(L), S, 'module', [f, m])
    # the module as the main program
    for _ in range(2):
        w = words(r, defs)
        res = ctx.run([m.path] + w, cwd='/'); ctx.count('module as the program')
        if 'module(' not in mod: want = ''
        else:
            try: a, cf = split(w); want = result(a, cf)
            except Err: want = 'cERR'
        txt = m.text + '\nargs: %r' % w
        ctx.case(('main', how[:5], len(w), want == 'cERR'))
        if not ctx.sanity(res, 'module main', txt, txt): continue
        if want == '': ok = res.text == ''
        elif want == 'cERR': ok = res.text == '' or res.rc != 0; ok = ok and (res.rc != 0 or res.etext.strip() != '')
        else:
            try: ok = canonn(json.loads(json.loads(res.text.strip().replace("\\'", "'")))) == canonn(want) and res.rc == 0
            except Exception: ok = False
        if not ok: ctx.violation('module main', 'as the program with arguments %r: want %r, got rc %s %r %r' % (w, want, res.rc, res.text[-400:], res.etext[-400:]), txt)

def canonn(x): return json.loads(json.dumps(x), parse_int=float)

def run(ctx):
    ctx.build()
    ctx.rule = 'what a program does with source/import/require (options, errors, order) or the shape of module options, per program'
    ctx.assumptions = ['the value of a source that was skipped (once, exists) is not compared', 'C extensions are not loaded']
    n = ctx.size(900, 20000)
    ctx.pmap(lambda i: case_source(ctx, i), range(n)); ctx.pmap(lambda i: case_pkgs(ctx, i), range(n)); ctx.pmap(lambda i: block_mod(ctx, i), range(n // 3))
