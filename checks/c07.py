"""C07: objects against a map model; freeze modes; getters and setters; shared references."""
from vf.js import *
import collections

PRE = r'''
function Q(s) { return '"'+s+'"'; }
function D(v) {
  var t, s, i, k;
  if (v===null) { return "L"; }
  t = typeof v;
  if (t==="number") { return "n:"+v; }
  if (t==="boolean") { return v?"b:1":"b:0"; }
  if (t==="string") { return "s:"+Q(v); }
  if (Array.isArray(v)) { s="["; for (i=0; i<v.length; i++) { s+=(i?",":"")+D(v[i]); } return s+"]"; }
  if (t==="object") { s="{"; i=0; for (k in v) { s+=(i++?",":"")+Q(k)+"="+D(v[k]); } return s+"}"; }
  return t;
}
function P(v) { puts(D(v)); }
function E(f) { try { f(); puts("ok"); } catch(e) { puts("err"); } }
'''
class Obj:
    def __init__(s, d=None):
        s.d = dict(d or {}); s.frozen = False; s.nomod = False; s.readchk = False; s.acc = {}

class Acc:   # accessor property: getter returns box value + 1, setter stores
    pass

def key(k): return k.encode()

def show(v):
    if v is None: return 'L'
    if v is True: return 'b:1'
    if v is False: return 'b:0'
    if isinstance(v, int): return 'n:%d' % v
    if isinstance(v, str): return 's:"%s"' % v
    if isinstance(v, list): return '[' + ','.join(show(x) for x in v) + ']'
    return '{' + ','.join('"%s"=%s' % (k, show(v.d[k])) for k in sorted(v.d, key=key)) + '}'

class H:
    def __init__(h, rng, kinds, big):
        h.r = rng; h.kinds = kinds; h.js = []; h.out = []
        h.pool = ['a', 'b', 'c', 'k1', 'k2', 'k10', '0', '1', '10', '9', '', 'c d', 'é', 'length', 'x.y', 'Zed', '_p', 'A', 'a very long property name indeed']
        if big: h.pool += ['k%d' % i for i in range(big)] + ['%d' % i for i in range(0, big, 2)]
        h.big = big
        h.v = {}
        for n in ('o0', 'o1', 'o2'):
            o, e = h.obj(0 if rng.random() < .3 else rng.randint(1, 5)); h.v[n] = o; h.js.append('var %s=%s;' % (n, e))
        h.js.append('var t, i, k, L;\nfunction S() { puts("S "+D(o0)+D(o1)+D(o2)); }')

    def scalar(h):
        k = h.r.random()
        if k < .5: v = h.r.randint(-9, 99); return v, str(v)
        if k < .8: v = h.r.choice(['', 'a', 'str', 'é', 'some longer text', '7']); return v, '"%s"' % v
        return h.r.choice([(None, 'null'), (True, 'true'), (False, 'false')])

    def obj(h, n, depth=1):
        d = {}; e = []
        for _ in range(n):
            k = h.r.choice(h.pool)
            v, s = h.val(depth)
            d[k] = v
            e.append('%s:%s' % (k if re.match(r'^[A-Za-z_]\w*$', k) and h.r.random() < .5 else '"%s"' % k, s))
        return Obj(d), '{' + ','.join(e) + '}'

    def val(h, depth=1):
        k = h.r.random()
        if k < .85 or depth <= 0: return h.scalar()
        if k < .93: return h.obj(h.r.randint(0, 2), depth - 1)
        a = [h.scalar() for _ in range(h.r.randint(0, 2))]
        return [x for x, _ in a], '[' + ','.join(e for _, e in a) + ']'

    def acc(h, n, k):
        if re.match(r'^[A-Za-z_]\w*$', k) and h.r.random() < .5: return '%s.%s' % (n, k)
        if k in ('0', '1', '9', '10') and h.r.random() < .5: return '%s[%s]' % (n, k)
        if h.r.random() < .2 and len(k) > 1: return '%s["%s"+"%s"]' % (n, k[:1], k[1:])
        return '%s["%s"]' % (n, k)

    def key(h, o, p=.6):
        if o.d and h.r.random() < p: return h.r.choice(sorted(o.d))
        return h.r.choice(h.pool)

    def canset(h, o, k):
        if not o.frozen: return True
        return not o.nomod and k in o.d

    def step(h):
        r = h.r
        n = r.choice(['o0', 'o1', 'o2']); o = h.v[n]
        A, W = h.js.append, h.out.append
        op = r.choice('set set set set get get del del in has keys values forin merge assign create literal alias opassign incr nested freeze local ident delin count'.split())
        h.kinds[op] += 1
        if op == 'set':
            k = h.key(o, .4); v, e = h.val()
            A('E(function() { %s=%s; });' % (h.acc(n, k), e))
            if h.canset(o, k): o.d[k] = v; W('ok')
            else: W('err')
        elif op == 'get':
            k = h.key(o)
            if k == 'length' and k not in o.d: return
            if k in o.d: A('P(%s);' % h.acc(n, k)); W(show(o.d[k]))
            elif o.frozen and o.readchk: A('E(function() { t=%s; });' % h.acc(n, k)); W('err')
            elif k == 'length': return
            else: A('puts(%s===undefined);' % h.acc(n, k)); W('true')
        elif op == 'del':
            k = h.key(o)
            if o.frozen: A('E(function() { delete %s; });' % h.acc(n, k)); W('err')
            else: A('delete %s;' % h.acc(n, k)); o.d.pop(k, None)
        elif op in ('in', 'has'):
            k = h.key(o, .5)
            A('puts("%s" in %s);' % (k, n) if op == 'in' else 'puts(%s.hasOwnProperty("%s"));' % (n, k))
            if op == 'has' and o.frozen and o.readchk: h.js.pop(); return
            W('true' if k in o.d else 'false')
        elif op == 'keys':
            A('L=Object.keys(%s); puts(L.length,L.join("|"));' % n); W('%d %s' % (len(o.d), '|'.join(sorted(o.d, key=key))))
        elif op == 'values':
            A('P(Object.values(%s));' % n); W(show([o.d[k] for k in sorted(o.d, key=key)]))
        elif op == 'count':
            A('i=0; for (k in %s) { i++; } puts(i);' % n); W(str(len(o.d)))
        elif op == 'forin':
            A('t=""; for (k in %s) { t+="<"+k+">"; } puts(t);' % n); W(''.join('<%s>' % k for k in sorted(o.d, key=key)))
        elif op == 'delin':
            if o.frozen: return
            c = r.choice(['all', 'odd'])
            A('i=0; for (k in %s) { if (%s) { delete %s[k]; } i++; }' % (n, 'true' if c == 'all' else 'i%2===1', n))
            ks = sorted(o.d, key=key)
            for i, k in enumerate(ks):
                if c == 'all' or i % 2: del o.d[k]
        elif op in ('merge', 'assign', 'create'):
            m = r.choice(['o0', 'o1', 'o2']); p = h.v[m]; d = r.choice(['o0', 'o1', 'o2'])
            if op == 'merge':
                if o.frozen and o.readchk: return
                A('%s=%s.merge(%s);' % (d, n, m)); x = Obj(o.d); x.d.update(p.d); h.v[d] = x
            elif op == 'create':
                A('%s=Object.create(null,%s);' % (d, m)); h.v[d] = Obj(p.d)
            elif r.random() < .5:
                A('%s=Object.assign({},%s,%s);' % (d, n, m)); x = Obj(o.d); x.d.update(p.d); h.v[d] = x
            else:
                if o is p: return
                ok = all(h.canset(o, k) for k in p.d)
                if o.frozen and not ok: return
                A('E(function() { Object.assign(%s,%s); });' % (n, m)); o.d.update(p.d); W('ok')
        elif op == 'literal':
            x, e = h.obj(r.randint(0, 6)); h.v[n] = x; A('%s=%s;' % (n, e))
        elif op == 'alias':
            d = r.choice(['o0', 'o1', 'o2']); h.v[d] = o; A('%s=%s;' % (d, n))
        elif op in ('opassign', 'incr'):
            ks = [k for k in sorted(o.d) if type(o.d[k]) is int]
            if not ks: return
            k = r.choice(ks); w = r.randint(1, 9); a = h.acc(n, k)
            if op == 'incr': f = r.choice(['%s++', '++%s', '%s--', '--%s']); nv = o.d[k] + (1 if '+' in f else -1); e = f % a
            else: e = '%s%s%d' % (a, *r.choice([('+=', w), ('-=', w)])); nv = o.d[k] + (w if '+=' in e else -w)
            A('E(function() { %s; });' % e)
            if h.canset(o, k): o.d[k] = nv; W('ok')
            else: W('err')
        elif op == 'nested':
            ks = [k for k in sorted(o.d) if isinstance(o.d[k], Obj)]
            if not ks: return
            k = r.choice(ks); k2 = r.choice(h.pool[:8]); v, e = h.scalar()
            A('E(function() { %s%s=%s; });' % (h.acc(n, k), '["%s"]' % k2, e))
            if h.canset(o.d[k], k2): o.d[k].d[k2] = v; W('ok')
            else: W('err')
        elif op == 'freeze':
            if r.random() < .4: A('Object.freeze(%s,false);' % n); o.frozen = o.nomod = False; o.readchk = True
            else:
                m, q = r.random() < .6, r.random() < .5
                A('Object.freeze(%s,true,%s,%s);' % (n, str(m).lower(), str(q).lower())); o.frozen, o.nomod, o.readchk = True, not m, q
        elif op == 'local':
            ks = [k for k in sorted(o.d) if type(o.d[k]) is int]
            if not ks: return
            k = r.choice(ks); v = o.d[k]
            A(r.choice(['t=%s; t++; puts(t);', 't=[%s]; ++t[0]; puts(t[0]);', 't={z:%s}; t.z+=1; puts(t.z);', 't=(function(z) { z++; return z; })(%s); puts(t);', 't=(function() { return %s; })(); t++; puts(t);']) % h.acc(n, k)); W(str(v + 1))
        elif op == 'ident':
            m = r.choice(['o0', 'o1', 'o2'])
            A('puts(%s===%s,%s==%s);' % (n, m, n, m)); s = str(o is h.v[m]).lower(); W('%s %s' % (s, s))
        if not h.big or r.random() < .08:
            A('S();'); W('S ' + ''.join(show(h.v[x]) for x in ('o0', 'o1', 'o2')))

def accessors(rng):
    """history over an object with accessors: reads give the getter's value, writes go to the setter only, plain properties do neither."""
    js = ['var lg="", st=%d, q={a:5}, t;' % 3, 'var g={get v() { lg+="g"; return st; }, set v(x) { lg+="s"+x; st=x; }, w:10};']
    out = []; st = 3; w = 10; a = 5; log = ''
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(['get', 'set', 'inc', 'add', 'w', 'winc', 'q', 'qinc', 'keys', 'loc'])
        n = rng.randint(0, 50)
        if k == 'get': js.append('P(g.v);'); out.append('n:%d' % st); log += 'g'
        elif k == 'set': js.append('g.v=%d;' % n); st = n; log += 's%d' % n
        elif k == 'inc': js.append('g.v++;'); log += 'g'; st += 1; log += 's%d' % st
        elif k == 'add': js.append('g.v+=%d;' % n); log += 'g'; st += n; log += 's%d' % st
        elif k == 'w': js.append('g.w=%d;' % n); w = n
        elif k == 'winc': js.append('g.w++;'); w += 1
        elif k == 'q': js.append('q.a=g.v;'); a = st; log += 'g'
        elif k == 'qinc': js.append(rng.choice(['q.a++;', '++q.a;'])); a += 1
        elif k == 'keys': js.append('puts(Object.keys(g).join(","));'); out.append('w')
        elif k == 'loc': js.append('t=g.v; t++; puts(t);'); log += 'g'; out.append(str(st + 1))
        js.append('puts(lg,st,g.w,q.a);'); out.append('%s %d %d %d' % (log, st, w, a))
    return '\n'.join(js), '\n'.join(out) + '\n'

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one history of property operations on up to three objects (or one accessor history); distinct history texts'
    ctx.assumptions = ['key order of enumeration is byte order of the names, as the dialect documents']
    kinds = collections.Counter()
    rng = ctx.sub('h')
    cases, exp = [], []
    for i in range(ctx.size(4000, 30000)):
        if i % 8 == 0:
            c, x = accessors(rng); kinds['accessor_history'] += 1
        else:
            big = rng.choice([0, 0, 0, 20, 300])
            h = H(rng, kinds, big)
            for _ in range(rng.choice([8, 25, 60]) * (4 if big == 300 else 1)): h.step()
            h.js.append('S();'); h.out.append('S ' + ''.join(show(h.v[x]) for x in ('o0', 'o1', 'o2')))
            c, x = '\n'.join(h.js), '\n'.join(h.out) + '\n'
        cases.append(c); exp.append(x)
    out = run_cases(ctx, cases, PRE, size=10)
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        ctx.case(c, sample=dict(history=c[:500], observed=x[-300:])); ctx.count('observations', x.count('\n'))
        if o != x:
            ol, xl = o.split('\n'), x.split('\n')
            i = next((i for i, (p, q) in enumerate(zip(ol, xl)) if p != q), min(len(ol), len(xl)))
            ctx.violation('hist:' + c, 'history:\n%s\nfirst difference at output line %d\nexpected: %s\ngot:      %s' % (c[-3000:], i, xl[max(0, i - 1):i + 1], ol[max(0, i - 1):i + 1]), batch_src([c], PRE))
    ctx.notes['operations'] = dict(kinds)
