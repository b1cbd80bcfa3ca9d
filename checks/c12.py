"""C12: declared parameter and return types, counts and defaults against a model of the call rules, in the error, warning and unchecked modes."""
from vf.js import *
import json, os, re

TYPES = ['number', 'string', 'boolean', 'array', 'object', 'function', 'null', 'regexp', 'userobj', 'undefined', 'any']
VALS = [  # js, type, printed by S()
    ('1', 'number', '1'), ('-2.5', 'number', '-2.5'), ('0', 'number', '0'), ('NaN', 'number', 'NaN'), ('1e100', 'number', '1e+100'),
    ('"s"', 'string', '"s"'), ('""', 'string', '""'), ('"12"', 'string', '"12"'), ('"é"', 'string', '"\\u00e9"'), ('true', 'boolean', 'true'), ('false', 'boolean', 'false'),
    ('[]', 'array', '[]'), ('[1,"a"]', 'array', '[ 1, "a" ]'), ('{}', 'object', '{}'), ('{a:1}', 'object', '{ a:1 }'), ('new Ctor()', 'object', '{ x:1 }'),
    ('function () { return 1; }', 'function', 'function'), ('Math.abs', 'function', 'function'), ('null', 'null', 'null'), ('/a+/', 'regexp', '"/a+/"'),
    ('CH', 'userobj', 'userobj'), ('undefined', 'undefined', 'undefined'),
]
DEFS = [('5', 'number', '5'), ('-1', 'number', '-1'), ('"dd"', 'string', '"dd"'), ('true', 'boolean', 'true'), ('null', 'null', 'null'), ('void', 'void', 'undefined'), ('1.5', 'number', '1.5'), ('""', 'string', '""')]
PRE = r'''
function Ctor() { this.x = 1; }
var CH = new Channel(Info.script(), "r");
function S(v:any) { var t = typeof v; if (t == "number") return "" + v; if (t == "function" || t == "userobj" || t == "undefined") return t; if (t == "string") return JSON.stringify(v); return JSON.stringify(v, false); }
function A(a:array) { var r = []; for (var i=0; i<a.length; i++) r.push(S(a[i])); if (r.length == 0) return ""; return r.join("|"); }
function OUT(s:string) { puts("@" + s); }
'''
BUILT = [  # call with a variable of the wrong type, parameter named
    ('Math.abs(%s)', 'number'), ('Math.sqrt(%s)', 'number'), ('Math.pow(%s,2)', 'number'), ('Math.pow(2,%s)', 'number'), ('Math.atan2(1,%s)', 'number'), ('"abc".substr(%s)', 'number'), ('"abc".substr(0,%s)', 'number'),
    ('"a".repeat(%s)', 'number'), ('"abc".charAt(%s)', 'number'), ('"abc".charCodeAt(%s)', 'number'), ('JSON.parse(%s)', 'string'), ('[1].map(%s)', 'function'), ('[1].forEach(%s)', 'function'), ('[1].filter(%s)', 'function'),
    ('[1].some(%s)', 'function'), ('[1].every(%s)', 'function'), ('[1,2].join(%s)', 'string'), ('Util.hexStr(%s)', 'string'), ('Util.base64(%s)', 'string'), ('setTimeout(%s,1)', 'function'), ('Object.keys(%s)', 'object'), ('"a".concat(%s)', 'string'),
    ('"abc".indexOf(%s)', 'string'), ('"a b".split(%s)', 'string|null'), ('(5).toFixed(%s)', 'number'), ('isFinite(%s)', 'any'), ('Number.prototype.toFixed.call(1,%s)', 'number'), ('sleep(%s)', 'number'),
]

class F:
    """A random function signature."""
    def __init__(f, r):
        f.va = r.random() < .15; n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        f.p = []; dflt = False
        for i in range(n):
            ts = r.sample(TYPES, r.choice([0, 1, 1, 1, 2, 3])); 
            dflt = dflt or (r.random() < .3 and not f.va)
            d = r.choice(DEFS) if dflt else None
            f.p.append((['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta'][i], ts, d))
        f.ret = r.sample(TYPES[:9] + ['any', 'void'], r.choice([1, 1, 2])) if r.random() < .5 else []
    def sig(f):
        L = [n + (':' + '|'.join(ts) if ts else '') + ('=' + d[0] if d else '') for n, ts, d in f.p]
        if f.va: L.append('...')
        return ', '.join(L)
    def min(f): return next((i for i, (n, ts, d) in enumerate(f.p) if d), len(f.p))
    def check(f, args):
        """None, 'count' or the position of the first argument refused."""
        if len(args) < f.min() or (not f.va and len(args) > len(f.p)): return 'count'
        for i, (n, ts, d) in enumerate(f.p[:len(args)]):
            t = args[i][1]; typ = set(ts)
            if d: typ.add(d[1])
            if t == 'undefined' and not typ & {'undefined', 'any'}: return i
            if not typ or 'any' in typ or t in typ or not ts and not d: continue
            return i
        return None
    def bound(f, args):
        L = [a[2] for a in args[:len(f.p)]]
        for n, ts, d in f.p[len(L):]: L.append(d[2] if d else 'undefined')
        return '|'.join(L)

def mkcase(r, i, mode):
    f = F(r); nm = 'f%d' % i; lo, hi = f.min(), len(f.p) + (3 if f.va else 0)
    n = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), len(f.p)] + [max(0, lo - 1), hi + 1] * (r.random() < .3))
    args = []
    for k in range(n):
        good = [v for v in VALS if k >= len(f.p) or F.check(one(f, k), [v]) is None]
        args.append(r.choice(good) if good and r.random() < .82 else r.choice(VALS))
    if r.random() < .85: args = [a if a[1] != 'undefined' or r.random() < .3 else VALS[0] for a in args]
    rv = None
    if f.ret:
        good = [v for v in VALS if ok_ret(f.ret, v[1])]
        rv = r.choice(good) if good and r.random() < .7 else r.choice(VALS)
        if r.random() < .15: rv = ('', 'nothing', 'undefined')
    L = ['var %s_a%d = %s;' % (nm, k, a[0]) for k, a in enumerate(args)]
    av = ['%s_a%d' % (nm, k) for k in range(n)]
    names = [p[0] for p in f.p]
    body = 'OUT("B " + A([%s]));' % ', '.join(names)
    if rv and rv[1] == 'regexp': body += ' var rx = /a+/; return rx;'
    elif rv: body += ' return %s;' % rv[0] if rv[0] else ' return;'
    ret = ':' + '|'.join(f.ret) if f.ret else ''
    how = r.choice(['plain', 'plain', 'expr', 'method', 'call', 'apply', 'bind', 'alias', 'new', 'cb', 'nested', 'text', 'literal'])
    if how == 'new' and f.ret: how = 'plain'
    d = 'function %s(%s)%s { %s }' % (nm, f.sig(), ret, body); q = nm
    if how in ('expr', 'alias'): d = 'var %sx = function (%s)%s { %s };' % (nm, f.sig(), ret, body); q = nm + 'x'
    if how == 'alias': d += ' var %sy = %sx;' % (nm, nm); q = nm + 'y'
    if how == 'method': d = 'var %so = {m:function (%s)%s { %s }};' % (nm, f.sig(), ret, body); q = nm + 'o.m'
    if how == 'nested': d = 'function %sw() { %s return %s; } ' % (nm, d, nm) + 'var %sz = %sw();' % (nm, nm); q = nm + 'z'
    c = q + '(' + ', '.join(av) + ')'
    if how == 'call': c = '%s.call(%s)' % (q, ', '.join(['null'] + av))
    if how == 'apply': c = '%s.apply(null, [%s])' % (q, ', '.join(av))
    if how == 'bind': k = r.randint(0, n); d += ' var %sb = %s.bind(%s);' % (nm, q, ', '.join(['null'] + av[:k])); c = '%sb(%s)' % (nm, ', '.join(av[k:]))
    if how == 'new': c = 'new ' + c
    if how == 'cb': d += ' function %sh(g) { return g(%s); }' % (nm, ', '.join(av)); c = '%sh(%s)' % (nm, nm)
    if how == 'text': c = 'eval(%s)' % jstr(c + ';')
    if how == 'literal': c = 'eval(%s)' % jstr('%s(%s);' % (q, ', '.join(av[k] if a[1] in ('regexp', 'function', 'userobj', 'object') or a[0] == '"é"' else a[0] for k, a in enumerate(args))))
    L.append(d)
    L.append('try { OUT("C %d"); var %s_r = %s; OUT("R"); } catch(e) { OUT("E " + e); }' % (i, nm, c))
    bad = f.check(args); want = []
    badret = bool(rv) and not ok_ret(f.ret, rv[1])
    return dict(lines=L, f=f, args=args, bad=bad, badret=badret, how=how, names=names, i=i, n=n)

def one(f, k):
    g = F.__new__(F); g.va = False; g.p = [f.p[k]]; g.ret = []; return g
def ok_ret(ret, t):
    if 'any' in ret: return True
    if t in ('undefined', 'nothing'): return 'void' in ret
    return t in ret

def block(ctx, i, n):
    r = ctx.sub('b%d' % i); mode = r.choice(['error'] * 5 + ['warn', 'nocheck'])
    cs = [mkcase(r, j, mode) for j in range(n)]
    ref = []
    L = [PRE]
    for c in cs: L += c['lines']
    d = os.path.join(ctx.tmp, 'b%d' % i); os.makedirs(d); fn = d + '/s.jsi'
    nb = []
    if mode == 'error':
        for k in range(10):
            t, typ = r.choice(BUILT); v = r.choice(VALS); L.append('var bv%d = %s; try { OUT("C %d"); var br%d = %s; OUT("R"); } catch(e) { OUT("E " + e); }' % (k, v[0], n + k, k, t % ('bv%d' % k)))
            nb.append((t, typ, v))
    open(fn, 'w').write('\n'.join(L) + '\n')
    res = ctx.run({'error': [], 'warn': ['--I', 'noError:true'], 'nocheck': ['--I', 'noCheck:true']}[mode] + ['--I', 'typeWarnMax:0', fn], cwd=d)
    if not ctx.sanity(res, 'run', mode, '\n'.join(L) + '\n' + res.text[-3000:] + '\n' + res.etext[-3000:]): return
    got = {}; cur = None
    for l in res.text.splitlines():
        if l.startswith('@C '): cur = int(l[3:]); got[cur] = []
        elif l.startswith('@') and cur is not None: got[cur].append(l[1:])
    for c in cs:
        f = c['f']; g = got.get(c['i']); L = c['lines']
        def bad(k, msg): ctx.violation('%s %s' % (k, mode), '%s, %s mode, %s: %s; output %s' % (k, mode, c['how'], msg, g), '\n'.join(L) + '\n\n' + str(g) + '\n\n' + res.etext[-1500:])
        if g is None: bad('not run', 'the call was not reached (rc %s)' % res.rc); return
        b = c['bad']; ctx.case('%s %s %s' % (mode, c['how'], 'ok' if b is None and not c['badret'] else 'count' if b == 'count' else 'argument' if b is not None else 'return'))
        ctx.count('calls'); ctx.count('calls which break the declaration', int(b is not None or c['badret']))
        ran = [x for x in g if x.startswith('B ')]; errs = [x for x in g if x.startswith('E')]; want = 'B ' + f.bound(c['args'])
        if mode == 'error':
            if b is None:
                if ran != [want]: bad('arguments', 'expected %r' % want)
                elif c['badret']:
                    if not errs or 'R' in g: bad('return accepted', 'the returned value is not one of %s' % f.ret)
                elif errs or 'R' not in g: bad('refused', 'the call conforms')
            else:
                if ran or not errs: bad('accepted', 'expected the call to be refused: %s' % ('%d arguments' % c['n'] if b == 'count' else 'argument %d' % (b + 1)))
                elif b == 'count':
                    if 'got %d args' % c['n'] not in errs[0]: bad('message', 'does not give the number of arguments')
                elif "arg %d '%s'" % (b + 1, c['names'][b]) not in errs[0]: bad('message', "does not name argument %d '%s'" % (b + 1, c['names'][b]))
        elif mode == 'nocheck':
            if errs or ran != [want]: bad('restricted', 'expected %r without checks' % want)
        else:
            if errs or ran != [want]: bad('stopped', 'expected %r and a warning' % want)
            if b is not None and b != 'count' and "arg %d '%s'" % (b + 1, c['names'][b]) not in res.etext: bad('no warning', "no warning names argument %d '%s'" % (b + 1, c['names'][b]))
            if b == 'count' and 'got %d args' % c['n'] not in res.etext: bad('no warning', 'no warning about %d arguments' % c['n'])
    if mode == 'warn' and not any(c['bad'] is not None or c['badret'] for c in cs) and res.etext.strip(): ctx.violation('warning', 'a warning without reason: %s' % res.etext[:300], '\n'.join(L))
    if mode == 'nocheck' and 'warn' in res.etext and 'mismatch' in res.etext: ctx.violation('nocheck warns', res.etext[:300], '\n'.join(L))
    for k, (t, typ, v) in enumerate(nb):
        g = got.get(n + k); ts = typ.split('|')
        if g is None: ctx.violation('not run', 'builtin %s' % t, res.etext[-1000:]); return
        ctx.count('calls of builtins')
        if 'any' in ts: continue
        okv = v[1] in ts or (ts == ['object'] and v[1] in ('array', 'function', 'userobj', 'regexp'))
        err = [x for x in g if x.startswith('E')]
        if not okv and not err: ctx.violation('builtin accepted ' + t, '%s with %s is accepted' % (t, v[0]), str(g))

def run(ctx):
    ctx.build('asan')
    ctx.pmap(lambda i: block(ctx, i, 40), range(ctx.size(600, 6000)))
    ctx.rule = 'mode x way of calling x what breaks the declaration'
    ctx.assumptions = ['a default value adds its own type to the declared ones, as the engine documents by its signatures']
