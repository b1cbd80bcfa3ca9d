"""C08: string methods against a Python model counting characters (dialect: slice(start,count), inclusive substring end)."""
from vf.js import *
import collections

PRE = DUMP + 'function P(v) { puts(D(v)); }\nfunction E(f) { try { P(f()); } catch(e) { puts("err"); } }\n'
ASC = 'abcABC xyz019_-.,;$'
UNI = ASC + 'éßλЖ€漢字😀𝄞'

def up(s): return ''.join(c.upper() if ord(c) < 128 else c for c in s)
def lo(s): return ''.join(c.lower() if ord(c) < 128 else c for c in s)
def title(s): return up(s[:1]) + lo(s[1:])

def wrap(i, n):
    while i < 0: i += n
    return i

def m_substr(s, a, l=None):
    if not s: return ''
    if l is not None and l <= 0: return ''
    a = wrap(a, len(s))
    return s[a:] if l is None else s[a:a + l]

def m_substring(s, a, e=None):
    if e is None: return m_substr(s, a)
    e = min(e, len(s))
    if e < a: return ''
    return m_substr(s, a, e - a + 1)

def m_slice(s, a, e=None):
    n = len(s)
    if a < 0: a = max(0, n + a)
    if a >= n: a = n - 1
    c = n
    if e is not None:
        c = e
        if c < 0: c = n + c
        c = min(c, n)
        if c < a: c = a
    if not s: return ''
    return s[a:a + c]

def m_index(s, t, st=0):
    st = max(st, 0)
    if st > len(s): return -1
    return s.find(t, st)

def m_lindex(s, t, st=0):
    st = max(st, 0)
    if st > len(s): return -1
    return s.rfind(t, st)

def m_map(s, m, nc):
    o = []; i = 0
    while i < len(s):
        for a, b in m:
            if s.startswith(a, i) or (nc and lo(s[i:i + len(a)]) == lo(a)):
                o.append(b); i += len(a); break
        else:
            o.append(s[i]); i += 1
    return ''.join(o)

def strip(s, cs, l, r):
    if l: s = s.lstrip(cs)
    if r: s = s.rstrip(cs)
    return s

class G:
    def __init__(g, rng): g.r = rng
    def s(g, mx=12, alpha=None):
        r = g.r
        k = r.random()
        n = r.choice([0, 1, 1, 2, 3]) if k < .3 else r.randint(0, mx) if k < .92 else r.randint(20, 300)
        a = alpha or r.choice([ASC, UNI, UNI, 'ab', 'aé', 'é€😀'])
        return ''.join(r.choice(a) for _ in range(n))
    def part(g, s):
        """often a piece of s"""
        if s and g.r.random() < .7:
            i = g.r.randrange(len(s)); return s[i:i + g.r.randint(1, 3)]
        return g.s(3)
    def i(g, s):
        r = g.r.random()
        if r < .6: return g.r.randint(-len(s) - 1, len(s) + 1)
        if r < .9: return g.r.randint(-3, 3)
        return g.r.choice([100, -50, 1000, 2**31 - 1])

    def case(g, kinds):
        r = g.r; s = g.s(); js = ['var s=%s, r;' % jstr(s)]; out = []
        def P(e, v): js.append('P(%s);' % e); out.append(pyD(v))
        for _ in range(r.randint(1, 5)):
            k = r.choice('len at charAt code substr substr substring slice slice indexOf indexOf lastIndexOf split splitnull splitb concat repeat replace replacefn trim trimL trimR upper lower title map from search cmp join add'.split())
            kinds[k] += 1
            a, b = g.i(s), g.i(s)
            if a < -400: a = -5
            if k == 'len': P('s.length', len(s))
            elif k == 'at':
                if 0 <= a < len(s): P('s[%d]' % a, s[a])
                else: P('s[%d]===undefined' % a, True)
            elif k == 'charAt': P('s.charAt(%d)' % a, s[a] if 0 <= a < len(s) else '')
            elif k == 'code':
                if 0 <= a < len(s): P('s.charCodeAt(%d)' % a, ord(s[a]))
                else: P('isNaN(s.charCodeAt(%d))' % a, True)
            elif k in ('substr', 'substring', 'slice'):
                f = dict(substr=m_substr, substring=m_substring, slice=m_slice)[k]
                if r.random() < .3: P('s.%s(%d)' % (k, a), f(s, a))
                else: P('s.%s(%d,%d)' % (k, a, b), f(s, a, b))
            elif k in ('indexOf', 'lastIndexOf'):
                t = g.part(s)
                if not t: continue
                f = m_index if k == 'indexOf' else m_lindex
                if r.random() < .5: P('s.%s(%s)' % (k, jstr(t)), f(s, t))
                else: P('s.%s(%s,%d)' % (k, jstr(t), a), f(s, t, a))
            elif k == 'search':
                t = g.part(s)
                P('s.search(%s)' % jstr(t), s.find(t))
            elif k == 'split':
                t = g.part(s)
                if not t: continue
                P('s.split(%s)' % jstr(t), s.split(t))
                if r.random() < .5: P('s.split(%s).join(%s)' % (jstr(t), jstr(t)), s)
            elif k == 'splitnull': P('s.split(null)', s.split())
            elif k == 'splitb':
                if all(ord(c) < 128 for c in s) and s: P('s.split("")', list(s))
            elif k == 'concat':
                v = [g.s(4) for _ in range(r.randint(1, 3))]
                P('s.concat(%s)' % ','.join(map(jstr, v)), s + ''.join(v))
            elif k == 'repeat':
                n = r.choice([0, 1, 2, 3, 7, 40])
                if s: P('s.repeat(%d)' % n, s * n)
                else: js.append('E(function() { return s.repeat(%d); });' % n); out.append('err')
            elif k == 'replace':
                t, u = g.part(s), g.s(4); P('s.replace(%s,%s)' % (jstr(t), jstr(u)), s.replace(t, u, 1))
            elif k == 'replacefn':
                t = g.part(s)
                P('s.replace(%s,function(m) { return "<"+m+m.length+">"; })' % jstr(t), s.replace(t, '<%s%d>' % (t, len(t)), 1) if t in s else s)
            elif k in ('trim', 'trimL', 'trimR'):
                n = dict(trim='trim', trimL='trimLeft', trimR='trimRight')[k]
                l, rt = k != 'trimR', k != 'trimL'
                w = ''.join(r.choice(' \t\n\r') for _ in range(r.randint(0, 3))); w2 = ''.join(r.choice(' \t\n\r') for _ in range(r.randint(0, 3)))
                if r.random() < .5: P('(%s+s+%s).%s()' % (jstr(w), jstr(w2), n), strip(w + s + w2, ' \t\n\r', l, rt))
                else:
                    cs = ''.join(r.choice('abxy ') for _ in range(r.randint(1, 3)))
                    P('s.%s(%s)' % (n, jstr(cs)), strip(s, cs, l, rt))
            elif k == 'upper': P('s.toUpperCase()', up(s))
            elif k == 'lower': P('s.toLowerCase()', lo(s))
            elif k == 'title': P('s.toTitle()', title(s))
            elif k == 'map':
                m = [(g.part(s) or 'q', g.s(3)) for _ in range(r.randint(1, 3))]
                nc = r.random() < .3
                P('s.map([%s]%s)' % (','.join(jstr(x) for p in m for x in p), ',true' if nc else ''), m_map(s, m, nc))
            elif k == 'from':
                if not s: continue
                P('String.fromCharCode(%s)' % ','.join(str(ord(c)) for c in s[:20]), s[:20])
            elif k == 'cmp':
                t = r.choice([s, g.s(), s[:-1], s + 'a', g.part(s)])
                o = r.choice(['<', '>', '<=', '>=', '==', '!=', '===', '!=='])
                x, y = s.encode(), t.encode()
                if o in '<= >=' and (num(s) or num(t)): continue
                P('(s%s%s)' % (o, jstr(t)), {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '===': x == y, '!=': x != y, '!==': x != y}[o])
            elif k == 'join':
                v = [g.s(4) for _ in range(r.randint(1, 4))]; t = g.s(2)
                P('[%s].join(%s)' % (','.join(map(jstr, v)), jstr(t)), t.join(v))
            elif k == 'add':
                t = g.s(5); n = r.randint(-99, 99)
                P('(s+%s+%d)+%s' % (jstr(t), n, jstr(t)) if n >= 0 else '(s+%s+(%d))+%s' % (jstr(t), n, jstr(t)), s + t + str(n) + t)
            if k not in ('len', 'at') and r.random() < .3: P('s', s)     # the operation left its subject alone
            if r.random() < .15:
                n = g.s(6); js.append('s=s+%s;' % jstr(n)); s += n
        return '\n'.join(js), '\n'.join(out) + '\n' if out else ''

def num(s):
    return False

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one subject string with a sequence of method calls; distinct programs'
    ctx.assumptions = ['only ASCII letters change case', 'slice takes (start, count), substring an inclusive end and negative starts wrap, as the test suite pins them',
                       'separators and trim sets: whole strings and ASCII sets']
    kinds = collections.Counter(); g = G(ctx.sub('s'))
    cases, exp = [], []
    while len(cases) < ctx.size(40000, 250000):
        c, x = g.case(kinds)
        if x: cases.append(c); exp.append(x)
    out = run_cases(ctx, cases, PRE, size=50)
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        o = canon(o); ctx.case(c, sample=dict(program=c[:400], observed=x[-200:])); ctx.count('results', x.count('\n'))
        if o != x:
            ol, xl = o.split('\n'), x.split('\n')
            i = next((i for i, (p, q) in enumerate(zip(ol, xl)) if p != q), min(len(ol), len(xl)))
            ctx.violation('str:' + c, 'program:\n%s\nfirst difference at output line %d\nexpected: %s\ngot:      %s' % (c[-2000:], i, xl[i:i + 1], ol[i:i + 1]), batch_src([c], PRE))
    ctx.notes['operations'] = dict(kinds)
