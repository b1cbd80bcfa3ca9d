"""C05: arrays against a list model. Every operation's result and every array's content is predicted."""
from vf.js import *
import collections

PRE = r'''
function Q(s) { return '"'+s+'"'; }
function D(v) {
  if (v===null) { return "L"; }
  var t = typeof v, s, i;
  if (t==="number") { return "n:"+v; }
  if (t==="boolean") { return v?"b:1":"b:0"; }
  if (t==="string") { return "s:"+Q(v); }
  if (Array.isArray(v)) { s="["; for (i=0; i<v.length; i++) { s+=(i?",":"")+(v[i]===undefined?"U":D(v[i])); } return s+"]"; }
  return t;
}
function P(v) { puts(D(v)); }
'''

class Arr(list):
    __hash__ = object.__hash__
    def __eq__(s, o): return s is o
    def __ne__(s, o): return s is not o

def slice_range(n, st, en):
    """istart, iend inclusive, or None for nothing"""
    if st > n: return None
    if st < 0: st += n
    if st < 0: return None
    if n == 0: return None
    e = n - 1
    if en is not None:
        e = en
        if e >= n: e = n - 1
        if e < 0: e += n
        if e < 0: return None
    if e < st: return None
    return st, e

class H:
    def __init__(h, rng, kinds):
        h.r = rng; h.kinds = kinds
        h.vars = {}; h.js = []; h.out = []
        h.vars['L0'] = Arr([1, 'x']); h.vars['L1'] = Arr([])
        h.js.append('var L0=[1,"x"], L1=[], t;')
        n = rng.choice([0, 1, 3, 6])
        for k in ('a0', 'a1', 'a2'):
            v, s = [], []
            for _ in range(rng.randint(0, n)):
                x, e = h.val()
                v.append(x); s.append(e)
            h.vars[k] = Arr(v)
            h.js.append('var %s=[%s];' % (k, ','.join(s)))
        h.js.append('function S() { puts("S "+D(a0)+D(a1)+D(a2)+D(L0)+D(L1)); }')

    def scalar(h):
        k = h.r.random()
        if k < .5:
            v = h.r.randint(-3, 12); return v, str(v)
        if k < .8:
            v = h.r.choice(['', 'a', 'b', 'zz', '1', '7', 'é', 'longer text value']); return v, '"%s"' % v
        return h.r.choice([(None, 'null'), (True, 'true'), (False, 'false')])

    def val(h):
        k = h.r.random()
        if k < .78: return h.scalar()
        if k < .9 and 'L1' in h.vars:
            n = h.r.choice(['L0', 'L1']); return h.vars[n], n
        a = [h.scalar() for _ in range(h.r.randint(0, 3))]
        return Arr(x for x, _ in a), '[' + ','.join(e for _, e in a) + ']'

    def same(h, x, y):
        if isinstance(x, Arr) or isinstance(y, Arr): return x is y
        return type(x) is type(y) and x == y

    def idx(h, n):
        return h.r.choice([0, 0, 1, -1, n, n - 1, n + 1, -n, -n - 1, h.r.randint(-n - 3, n + 3)])

    def step(h):
        r = h.r
        k = r.choice(['a0', 'a1', 'a2', 'a0', 'a1', 'L0', 'L1'])
        a = h.vars[k]
        leaf = k[0] == 'L'
        n = len(a)
        val = h.scalar if leaf else h.val
        E, O = h.js.append, lambda v: h.out.append(pyD5(v))
        if leaf:
            op = r.choice(['push', 'pop', 'set', 'shift', 'unshift', 'reverse', 'splice'])
        else:
            op = r.choice('push push pop shift unshift splice splice slice slice concat reverse fill set set get alias assign map filter foreach reduce reduceRight find findIndex some every join indexOf lastIndexOf includes flat gap nested isArray forin forof len throwcb opassign swap copyel paramset'.split())
        h.kinds[op] += 1
        if op == 'push':
            vs = [val() for _ in range(r.choice([1, 1, 2, 3]))]
            if n > 40: return
            E('P(%s.push(%s));' % (k, ','.join(e for _, e in vs))); a.extend(v for v, _ in vs); O(len(a))
        elif op == 'unshift':
            vs = [val() for _ in range(r.choice([1, 1, 2, 3]))]
            if n > 40: return
            E('P(%s.unshift(%s));' % (k, ','.join(e for _, e in vs))); a[0:0] = [v for v, _ in vs]; O(len(a))
        elif op in ('pop', 'shift'):
            if n == 0:
                E('puts(%s.%s()===undefined);' % (k, op)); h.out.append('true')
            else:
                x = a.pop() if op == 'pop' else a.pop(0)
                E('P(%s.%s());' % (k, op)); O(x)
        elif op == 'splice':
            st = h.idx(n); args = [str(st)]
            how = None; ins = []
            if r.random() < .85:
                how = h.idx(n) if r.random() < .3 else r.choice([0, 1, 2, 3]); args.append(str(how))
                if n < 40:
                    ins = [val() for _ in range(r.choice([0, 0, 1, 2, 4]))]
            args += [e for _, e in ins]
            tgt = r.choice(['', 'a2=']) if not leaf and k != 'a2' else ''
            if st > n:
                res = Arr()
            else:
                s = st + n if st < 0 else st
                if s < 0: s = 0
                c = n - s if how is None or how < 0 or s + how > n else how
                res = Arr(a[s:s + c]); a[s:s + c] = [v for v, _ in ins]
            if tgt: h.vars['a2'] = res
            E('t=%s.splice(%s);P(t);%s' % (k, ','.join(args), tgt + 't;' if tgt else '')); O(res)
        elif op == 'slice':
            st = h.idx(n); en = h.idx(n) if r.random() < .7 else None
            q = slice_range(n, st, en)
            res = Arr() if q is None else Arr(a[q[0]:q[1] + 1])
            d = r.choice(['a0', 'a1', 'a2'])
            h.vars[d] = res
            E('%s=%s.slice(%s);' % (d, k, st if en is None else '%d,%d' % (st, en)))
        elif op == 'concat':
            res = Arr(a); args = []
            for _ in range(r.randint(1, 3)):
                v, e = r.choice([(h.vars[x], x) for x in ('a0', 'a1', 'a2')]) if r.random() < .5 else val()
                args.append(e)
                if isinstance(v, Arr): res.extend(v)
                else: res.append(v)
            if len(res) > 60: return
            d = r.choice(['a0', 'a1', 'a2']); h.vars[d] = res
            E('%s=%s.concat(%s);' % (d, k, ','.join(args)))
        elif op == 'reverse':
            a.reverse(); E('P(%s.reverse());' % k); O(a)
        elif op == 'fill':
            v, e = val(); st = h.idx(n) if r.random() < .7 else None; en = h.idx(n) if st is not None and r.random() < .6 else None
            q = slice_range(n, 0 if st is None else st, en)
            if q:
                for i in range(q[0], q[1] + 1): a[i] = v
            E('P(%s.fill(%s));' % (k, ','.join([e] + [str(x) for x in (st, en) if x is not None]))); O(a)
        elif op == 'set':
            if n > 40: return
            i = r.randint(0, n); v, e = val()
            if i == n: a.append(v)
            else: a[i] = v
            E('%s[%s]=%s;' % (k, i if r.random() < .7 else '(%d+%d)' % (i - 1, 1), e))
        elif op == 'opassign':
            ii = [i for i, x in enumerate(a) if type(x) is int]
            if not ii: return
            i = r.choice(ii); w = r.randint(-5, 5)
            o = r.choice(['+=', '-=', '++', 'pre', '*='])
            if o == '++': E('P(%s[%d]++);' % (k, i)); O(a[i]); a[i] += 1
            elif o == 'pre': E('P(--%s[%d]);' % (k, i)); a[i] -= 1; O(a[i])
            else:
                a[i] = {'+=': a[i] + w, '-=': a[i] - w, '*=': (a[i] * w) % 1000 if False else a[i] * w}[o]
                if abs(a[i]) > 10 ** 9: a[i] = 0; E('%s[%d]=0;' % (k, i))
                else: E('%s[%d]%s%s;' % (k, i, o, w if w >= 0 else '(%d)' % w))
        elif op == 'swap':
            if n < 2: return
            i, j = r.randrange(n), r.randrange(n)
            E('t=%s[%d];%s[%d]=%s[%d];%s[%d]=t;' % (k, i, k, i, k, j, k, j)); a[i], a[j] = a[j], a[i]
        elif op == 'copyel':
            d = r.choice(['a0', 'a1', 'a2']); b = h.vars[d]
            if not n or not b: return
            i, j = r.randrange(n), r.randrange(len(b))
            if isinstance(a[i], Arr) and not any(a[i] is h.vars[z] for z in ('L0', 'L1')) and d[0] == 'L': return
            b[j] = a[i]; E('%s[%d]=%s[%d];' % (d, j, k, i))
        elif op == 'get':
            i = r.choice([0, n - 1, n, n + 3, r.randint(0, n + 1)])
            if 0 <= i < n: E('P(%s[%d]);' % (k, i)); O(a[i])
            elif i >= 0: E('puts(%s[%d]===undefined);' % (k, i)); h.out.append('true')
        elif op == 'alias':
            d = r.choice(['a0', 'a1', 'a2']); h.vars[d] = a; E('%s=%s;' % (d, k))
        elif op == 'assign':
            v = [h.val() for _ in range(r.randint(0, 5))]
            h.vars[k] = Arr(x for x, _ in v); E('%s=[%s];' % (k, ','.join(e for _, e in v)))
        elif op == 'map':
            d = r.choice(['a0', 'a1', 'a2'])
            f = r.choice(['i', 'v', 'pair'])
            if f == 'i':
                res = Arr(i * 2 + n for i in range(n)); E('%s=%s.map(function(v,i,w) { return i*2+w.length; });' % (d, k))
            elif f == 'v':
                res = Arr(a); E('%s=%s.map(function(v) { return v; });' % (d, k))
            else:
                res = Arr(Arr([i, None if isinstance(x, Arr) else x]) for i, x in enumerate(a)); E('%s=%s.map(function(v,i) { return [i,Array.isArray(v)?null:v]; });' % (d, k))
            h.vars[d] = res
        elif op == 'filter':
            d = r.choice(['a0', 'a1', 'a2']); f = r.choice(['num', 'str', 'even'])
            if f == 'num': res = Arr(x for x in a if type(x) is int); c = 'typeof v==="number"'
            elif f == 'str': res = Arr(x for x in a if type(x) is str); c = 'typeof v==="string"'
            else: res = Arr(x for i, x in enumerate(a) if i % 2 == 0); c = 'i%2===0'
            h.vars[d] = res; E('%s=%s.filter(function(v,i) { return %s; });' % (d, k, c))
        elif op == 'foreach':
            E('%s.forEach(function(v,i,w) { puts("e",i,D(v),w.length); });' % k)
            for i, x in enumerate(a): h.out.append('e %d %s %d' % (i, pyD5(x), n))
        elif op in ('reduce', 'reduceRight'):
            seq = list(enumerate(a))
            if op == 'reduceRight': seq.reverse()
            E('puts(%s.%s(function(c,v,i,w) { return c+"|"+i+D(v); },"s"));' % (k, op))
            h.out.append('s' + ''.join('|%d%s' % (i, pyD5(x)) for i, x in seq))
        elif op in ('find', 'findIndex', 'some', 'every'):
            hit = r.choice(['num', 'str', 'null', 'never', 'always'])
            pr = {'num': lambda x: type(x) is int, 'str': lambda x: type(x) is str, 'null': lambda x: x is None, 'never': lambda x: False, 'always': lambda x: True}[hit]
            c = {'num': 'typeof v==="number"', 'str': 'typeof v==="string"', 'null': 'v===null', 'never': 'false', 'always': 'true'}[hit]
            calls = 0; res = None; found = False
            for i, x in enumerate(a):
                calls += 1; p = pr(x)
                if op == 'every':
                    if not p: found = True; break
                elif p: found = True; fi = i; break
            fn = 'function(v) { t++; return %s; }' % c
            if op == 'find':
                if found: E('t=0;P(%s.find(%s));puts(t);' % (k, fn)); O(a[fi]); h.out.append(str(calls))
                else: E('t=0;puts(%s.find(%s)===undefined,t);' % (k, fn)); h.out.append('true %d' % calls)
            elif op == 'findIndex': E('t=0;puts(%s.findIndex(%s),t);' % (k, fn)); h.out.append('%d %d' % (fi if found else -1, calls))
            elif op == 'some': E('t=0;puts(%s.some(%s),t);' % (k, fn)); h.out.append('%s %d' % ('true' if found else 'false', calls))
            else: E('t=0;puts(%s.every(%s),t);' % (k, fn)); h.out.append('%s %d' % ('false' if found else 'true', calls))
        elif op == 'join':
            if any(isinstance(x, Arr) for x in a): return
            sep = r.choice([None, ',', '', '--', 'é'])
            def st(x):
                return {None: 'null', True: 'true', False: 'false'}[x] if x is None or x is True or x is False else str(x)
            E('puts("["+%s.join(%s)+"]");' % (k, '' if sep is None else '"%s"' % sep)); h.out.append('[' + (sep or '').join(st(x) for x in a) + ']')
            a[:] = [st(x) for x in a]   # the dialect converts the joined elements in place (tests/array.jsi)
        elif op in ('indexOf', 'lastIndexOf', 'includes'):
            if a and r.random() < .6: v = r.choice(a)
            else: v = h.scalar()[0]
            if isinstance(v, Arr):
                nm = [x for x in ('L0', 'L1') if h.vars[x] is v]
                if not nm: return
                e = nm[0]
            elif v is None or v is True or v is False: e = {None: 'null', True: 'true', False: 'false'}[v]
            else: e = '"%s"' % v if isinstance(v, str) else str(v)
            pos = [i for i, x in enumerate(a) if h.same(x, v)]
            if op == 'includes': E('puts(%s.includes(%s));' % (k, e)); h.out.append('true' if pos else 'false')
            elif op == 'lastIndexOf': E('puts(%s.lastIndexOf(%s));' % (k, e)); h.out.append(str(pos[-1] if pos else -1))
            else:
                st = r.choice([None, 0, 1, n - 1, -1]) if n else None
                lo = 0 if st is None else st + n if st < 0 else st
                p2 = [i for i in pos if i >= lo]
                E('puts(%s.indexOf(%s%s));' % (k, e, '' if st is None else ',%d' % st)); h.out.append(str(p2[0] if p2 else -1))
        elif op == 'flat':
            res = Arr()
            def fl(b, d):
                for x in b:
                    if isinstance(x, Arr) and d > 0: fl(x, d - 1)
                    else: res.append(x)
            dd = r.choice([None, 1, 2]); fl(a, dd or 1)
            if len(res) > 60: return
            d = r.choice(['a0', 'a1', 'a2']); h.vars[d] = res; E('%s=%s.flat(%s);' % (d, k, '' if dd is None else dd))
        elif op == 'gap':
            g = r.randint(1, 30)
            if n > 40: return
            E('%s[%d]="g";P(%s);P(%s.length);' % (k, n + g, k, k))
            a.extend([Undef] * g); a.append('g'); O(a); O(len(a))
            E('for (t=%d; t<%d; t++) { %s[t]=t; }' % (n, n + g, k))
            for t in range(n, n + g): a[t] = t
        elif op == 'nested':
            ii = [i for i, x in enumerate(a) if isinstance(x, Arr)]
            if not ii: return
            i = r.choice(ii); v, e = h.scalar()
            if len(a[i]) > 20: return
            if r.random() < .6 or not a[i]: E('%s[%d].push(%s);' % (k, i, e)); a[i].append(v)
            else:
                j = r.randrange(len(a[i])); E('%s[%d][%d]=%s;' % (k, i, j, e)); a[i][j] = v
        elif op == 'isArray':
            i = r.randrange(n) if n else None
            if i is None: return
            E('puts(Array.isArray(%s[%d]),Array.isArray(%s));' % (k, i, k)); h.out.append('%s true' % ('true' if isinstance(a[i], Arr) else 'false'))
        elif op == 'forin':
            E('for (t in %s) { puts("k",t,D(%s[t])); }' % (k, k))
            for i, x in enumerate(a): h.out.append('k %d %s' % (i, pyD5(x)))
        elif op == 'forof':
            E('for (t of %s) { puts("o",D(t)); }' % k)
            for i, x in enumerate(a): h.out.append('o %s' % pyD5(x))
        elif op == 'len':
            E('puts(%s.length,%s.sizeOf());' % (k, k)); h.out.append('%d %d' % (n, n))
        elif op == 'paramset':
            m = r.choice(['map', 'filter', 'forEach', 'some', 'every', 'find', 'findIndex', 'reduce', 'reduceRight'])
            E('%s.%s(function(v%s) { v=77; %s return %s; });' % (k, m, ',w' if m[:2] == 're' or r.random() < .3 else '', 'w=5;' if m[:2] == 're' else '', 'true' if m == 'every' else 'false'))
        elif op == 'throwcb':
            if not n: return
            m = r.choice(['map', 'filter', 'forEach', 'some', 'every', 'find', 'findIndex'])
            at = r.randrange(n)
            E('try { %s.%s(function(v,i) { if (i===%d) { throw "T"+i; } return %s; }); puts("no"); } catch(e) { puts(e); }' % (k, m, at, 'true' if m == 'every' else 'false'))
            h.out.append('T%d' % at)
        E('S();')
        h.out.append('S ' + ''.join(pyD5(h.vars[x]) for x in ('a0', 'a1', 'a2', 'L0', 'L1')))

def pyD5(v):
    if v is Undef: return 'U'
    if v is None: return 'L'
    if v is True: return 'b:1'
    if v is False: return 'b:0'
    if isinstance(v, int): return 'n:%d' % v
    if isinstance(v, str): return 's:"%s"' % v
    return '[' + ','.join(pyD5(x) for x in v) + ']'

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one history of up to 40 operations on five arrays (three general, two shared as elements); distinct history texts'
    ctx.assumptions = ['the dialect rules of slice/fill (inclusive end) and of out-of-range splice are taken as documented behaviour']
    kinds = collections.Counter()
    rng = ctx.sub('h')
    cases, exp = [], []
    for _ in range(ctx.size(2500, 24000)):
        h = H(rng, kinds)
        for _ in range(rng.choice([5, 15, 40])): h.step()
        cases.append('\n'.join(h.js)); exp.append('\n'.join(h.out) + '\n')
    out = run_cases(ctx, cases, PRE, size=10)
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        ctx.case(c, sample=dict(history=c[:500], states=x[-300:])); ctx.count('observations', x.count('\n'))
        if o != x:
            ol, xl = o.split('\n'), x.split('\n')
            i = next((i for i, (p, q) in enumerate(zip(ol, xl)) if p != q), min(len(ol), len(xl)))
            # the statements up to the S() that produced the difference
            k = sum(1 for l in xl[:i] if l.startswith('S '))
            parts = c.split('\nS();')
            ctx.violation('hist:' + c, 'after:\n%s\nstep:\n%s\nexpected: %s\ngot:      %s' % ('\n'.join(parts[:k])[-1500:].replace('\nS();', ''), parts[k] if k < len(parts) else '', xl[max(0, i - 1):i + 1], ol[max(0, i - 1):i + 1]), batch_src([c], PRE))
    ctx.notes['operations'] = dict(kinds)
