"""C06: sort. Oracles: permutation, order under the requested order, comparator sees only elements, unique."""
from vf.js import *
import collections, functools

PRE = r'''
function D(v) {
  var t, s, i;
  if (v===null) { return "L"; }
  t = typeof v;
  if (t==="number") { return "n:"+v; }
  if (t==="boolean") { return v?"b:1":"b:0"; }
  if (t==="string") { return "s:\""+v+"\""; }
  if (Array.isArray(v)) { s="["; for (i=0; i<v.length; i++) { s+=(i?",":"")+(v[i]===undefined?"U":D(v[i])); } return s+"]"; }
  if (t==="object") { return "{k="+D(v.k)+" t="+D(v.t)+"}"; }
  return t;
}
function P(v) { puts(D(v)); }
'''
class O:
    def __init__(s, k, t): s.k, s.t = k, t

def show(v):
    if v is None: return 'L'
    if v is True: return 'b:1'
    if v is False: return 'b:0'
    if isinstance(v, (int, float)): return 'n:%.15g' % v
    if isinstance(v, str): return 's:"%s"' % v
    if isinstance(v, O): return '{k=%s t=%s}' % (show(v.k), show(v.t))
    return '[' + ','.join(show(x) for x in v) + ']'

def lit(v):
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, (int, float)): return '%.15g' % v
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, O): return '{k:%s,t:%s}' % (lit(v.k), lit(v.t))
    return '[' + ','.join(lit(x) for x in v) + ']'

def dictcmp(a, b):
    """Tcl's dictionary comparison: embedded digit runs by value, letters without case first, case and leading zeros as tie-breaks."""
    ta, tb = [re.findall(r'\d+|.', x) for x in (a, b)]
    sec = 0
    for x, y in zip(ta, tb):
        if x.isdigit() and y.isdigit():
            p, q = int(x), int(y)
            if p != q: return -1 if p < q else 1
            if not sec: sec = len(x) - len(y)
        elif x != y:
            p, q = (x[0], y[0])
            if p.lower() == q.lower():
                if not sec: sec = -1 if p.isupper() else 1
            else:
                return ord(p.lower()) - ord(q.lower())
    if len(ta) != len(tb): return -1 if len(ta) < len(tb) else 1
    return sec

WORDS = ['a', 'b', 'A', 'B', 'Z', 'z', 'ab', 'aB', 'Ab', 'abc', 'é', 'ü', 'zebra', 'Zebra', 'x1', 'x2', 'x10', 'x01', 'x1y2', 'x1y10', 'X1', '', '1', '10', '2', '02', 'a 1', 'a_1', 'aa', 'aaa', '日本']

def gen(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9, 17, 40, 150])
    kind = rng.choice(['int', 'float', 'str', 'word', 'dictstr', 'obj', 'obj', 'bool', 'mixed'])
    if kind == 'int': vs = [rng.choice([rng.randint(-5, 5), rng.randint(-10**6, 10**6), rng.randint(-2**40, 2**40)]) for _ in range(n)]
    elif kind == 'float': vs = [rng.choice([0.1, 0.2, 0.25, -0.5, -0.75, 1.5, 2e10, -3e-7, 0.30000001, rng.randint(-4, 4), round(rng.random(), 3)]) for _ in range(n)]
    elif kind == 'str': vs = [''.join(rng.choice('abcXYZ019 _~é') for _ in range(rng.randint(0, 4))) for _ in range(n)]
    elif kind == 'word': vs = [rng.choice(WORDS) for _ in range(n)]
    elif kind == 'dictstr': vs = [rng.choice('aAbB') + rng.choice(['', '1', '2', '10', '09', '9', '002', '100']) + rng.choice(['', 'x', 'X', '3', '-3', 'y20', 'y3']) for _ in range(n)]
    elif kind == 'obj': vs = [O(rng.choice([rng.randint(0, 6), rng.randint(-9, 9) / 4]), i) for i in range(n)]
    elif kind == 'bool': vs = [rng.choice([True, False]) for _ in range(n)]
    else: vs = [rng.choice([1, 2.5, 'a', '7', None, True, 'zz', -3]) for _ in range(n)]
    return kind, vs

sgn = lambda x: (x > 0) - (x < 0)

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one array, sort options and follow-up operations; distinct (elements, options)'
    ctx.assumptions = ['sort is not required to be stable', 'mixed-type and inconsistent comparisons are held to the permutation property only']
    rng = ctx.sub('s')
    cases, meta = [], []
    ctr = collections.Counter()
    for i in range(ctx.size(6000, 50000)):
        kind, vs = gen(rng)
        n = len(vs)
        strs = kind in ('str', 'word', 'dictstr')
        modes = ['none', 'default', 'desc', 'cmp', 'cmp', 'cmpopt', 'cmpdesc', 'throw', 'chaos']
        if kind == 'obj': modes = ['cmp', 'cmp', 'cmpopt', 'cmpdesc', 'throw', 'chaos']
        if strs: modes += ['dict', 'dict', 'nocase', 'nocase']
        if strs and any(ord(c) > 127 for v in vs for c in v): modes = [m for m in modes if m not in ('dict', 'nocase')]
        mode = rng.choice(modes)
        uniq = rng.random() < .3 and mode in ('default', 'desc', 'cmpopt', 'cmpdesc', 'dict', 'nocase')
        ctr[mode] += 1; ctr['unique'] += uniq
        key = (lambda v: v.k) if kind == 'obj' else (lambda v: v)
        acc = '.k' if kind == 'obj' else ''
        if mode in ('none', 'default', 'desc') and kind == 'mixed': order = None
        elif mode in ('none', 'default', 'cmp', 'cmpopt', 'throw'): order = (lambda a, b: sgn((a > b) - (a < b))) if kind != 'mixed' else None
        elif mode in ('desc', 'cmpdesc'): order = (lambda a, b: (a < b) - (a > b)) if kind != 'mixed' else None
        elif mode == 'dict': order = dictcmp
        elif mode == 'nocase': order = lambda a, b: (a.lower() > b.lower()) - (a.lower() < b.lower())
        else: order = None
        if strs and order and mode not in ('dict', 'nocase'):
            o2 = order; order = lambda a, b, o2=o2: o2(a.encode(), b.encode())
        thr = rng.randint(1, 6)
        if strs or kind == 'mixed': cb = 'x%s<y%s?-1:(x%s>y%s?1:0)' % (acc, acc, acc, acc)
        elif kind == 'bool': cb = '(x?1:0)-(y?1:0)'
        else: cb = rng.choice(['x%s-y%s' % (acc, acc), '(x%s-y%s)*0.001' % (acc, acc), 'x%s<y%s?-1:(x%s>y%s?1:0)' % (acc, acc, acc, acc)])
        if mode == 'chaos': cb = rng.choice(['1', '-1', '0', '(cnt%3)-1', '(cnt%2)*2-1'])
        track = 'cnt++; if (a0.indexOf(x)<0 && !isel(x)) { bad++; } if (!isel(y)) { bad++; }'
        fn = 'function(x,y) { cnt++; if (!isel(x)||!isel(y)) { bad++; } %sreturn %s; }' % ('if (cnt===%d) { throw "T"; } ' % thr if mode == 'throw' else '', cb)
        opt = {'none': '', 'default': '{%s}', 'desc': '{mode:"desc"%s}', 'dict': '{mode:"dict"%s}', 'nocase': '{mode:"nocase"%s}', 'cmp': fn, 'throw': fn, 'chaos': fn,
               'cmpopt': '{compare:%s' % fn.replace('%', '%%') + '%s}', 'cmpdesc': '{compare:%s,mode:"desc"' % fn.replace('%', '%%') + '%s}'}[mode]
        if '%s' in opt:
            u = 'unique:true' if uniq else rng.choice(['', 'unique:false'])
            opt = opt % ((',' if len(opt) > 4 and u else '') + u)
        c = 'var cnt=0, bad=0, tab={}, i, a0=%s, r, b=a0;\nfor (i=0; i<a0.length; i++) { tab[D(a0[i])]=1; }\nfunction isel(v) { return tab[D(v)]===1; }\n' % lit(vs)
        c += 'try { r=a0.sort(%s); puts("ok"); } catch(e) { puts("exc",e); r=a0; }\nP(a0); puts(cnt,bad,r.length===a0.length,b.length);\n' % opt
        c += 'a0.push(1); a0.push(2); a0.push("q"); a0.unshift("h"); P(a0); a0.splice(0,1); a0.pop(); a0.pop(); a0.pop(); P(b); P(a0.slice(0));'
        cases.append(c); meta.append((kind, vs, mode, uniq, order, key, thr))
    out = run_cases(ctx, cases, PRE, size=10)
    for c, o, (kind, vs, mode, uniq, order, key, thr) in zip(cases, out, meta):
        if o is None: continue
        ctx.case((kind, mode, uniq, [show(v) for v in vs]) if len(vs) > 1 else None, sample=dict(kind=kind, mode=mode, unique=bool(uniq), elements=show(vs)[:200], sorted=o[:200]))
        def bad(why):
            ctx.violation('sort:%s:%s' % (why.split(':')[0], c), '%s\n%s\ngot:\n%s' % (why, c, o[:1500]), batch_src([c], PRE))
        L = o.split('\n')
        if len(L) < 6: bad('no result'); continue
        src = [show(v) for v in vs]
        by = dict(zip(src, vs))
        def split(s):
            # elements have no commas or brackets inside except {k= t=}
            s = s[1:-1]
            return re.findall(r'\{[^}]*\}|s:"[^"]*"|[^,]+', s) if s else []
        got = split(L[1])
        cnt, badc, rl, bl = L[2].split()
        exc = L[0].startswith('exc')
        if exc != (mode == 'throw' and int(cnt) >= thr): bad('exception: wrong'); continue
        if exc and L[0] != 'exc T': bad('exception: not the thrown value'); continue
        if badc != '0': bad('comparator: was given a value that is not an element'); continue
        if len(vs) > 1 and mode.startswith('cmp') and int(cnt) < len(vs) - 1: bad('comparator: called too rarely'); continue
        if any(g not in by for g in got): bad('permutation: foreign element'); continue
        if not uniq or exc:
            if collections.Counter(got) != collections.Counter(src): bad('permutation: elements lost or duplicated'); continue
        else:
            if len(got) and set(got) - set(src): bad('unique: foreign'); continue
            cc = collections.Counter(src)
            if any(k > cc[g] for g, k in collections.Counter(got).items()): bad('unique: duplicated'); continue
        if order and not exc:
            ks = [key(by[g]) for g in got]
            for p, q in zip(ks, ks[1:]):
                d = order(p, q)
                if d > 0 or (uniq and d == 0): bad('order: %r before %r' % (p, q)); break
            if uniq:
                for v in vs:
                    if not any(order(key(v), k) == 0 for k in ks): bad('unique: %r vanished' % (key(v),)); break
        after = split(L[3])
        if after != ['s:"h"'] + got + ['n:1', 'n:2', 's:"q"']: bad('array unusable after sort: ' + L[3][:300]); continue
        if split(L[4]) != got or split(L[5]) != got: bad('array unusable after sort: ' + L[4][:300])
        if rl != 'true' or int(bl) != len(got): bad('length: wrong')
    ctx.notes['modes'] = dict(ctr)
