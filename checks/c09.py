"""C09: numbers to text and back, against the C library conversions (through Python) of the same double."""
from vf.js import *
import collections, math, struct

PRE = DUMP + 'function P(f) { try { puts(f()); } catch(e) { puts("err"); } }\nfunction X(v) { return Number.toExponential(v,17); }\n'

def show(x):
    if x != x: return 'NaN'
    if x in (math.inf, -math.inf): return '+Infinity' if x > 0 else '-Infinity'
    if x == int(x) and abs(x) < 2**63:
        return str(int(x)) if abs(x) < 2**53 else None
    return '%.15g' % x

class G:
    def __init__(g, rng): g.r = rng
    def dbl(g):
        r = g.r; k = r.random()
        if k < .2: return float(r.randint(-1000, 1000))
        if k < .35: return float(r.choice([1, -1]) * r.randint(0, 2**53))
        if k < .5: return round(r.uniform(-1000, 1000), r.randint(0, 6))
        if k < .7: return r.uniform(-1, 1) * 10.0 ** r.randint(-15, 15)
        if k < .78: return r.choice([1, -1]) * (10.0 ** r.randint(-20, 22))
        if k < .86: return float(r.choice([1, -1]) * 2 ** r.randint(0, 62) + r.randint(-1, 1))
        if k < .9: return r.choice([1, -1]) * (r.randint(0, 4000) + .5) / r.choice([1, 2, 4, 10, 100])
        while 1:
            x = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
            if x == x and abs(x) != math.inf and (x == 0 or abs(x) > 1e-300): return x
    def text(g):
        """a decimal text"""
        r = g.r; k = r.random()
        d = lambda n: ''.join(r.choice('0123456789') for _ in range(n))
        if k < .25: return str(r.randint(1, 10**r.randint(1, 25)))
        if k < .45: return str(r.randint(0, 10**r.randint(1, 12))) + '.' + d(r.randint(1, 25))
        if k < .75:
            s = str(r.randint(1, 10**r.randint(1, 17)))
            if r.random() < .7: s += '.' + d(r.randint(1, 17))
            return s + r.choice('eE') + r.choice(['', '+', '-']) + str(r.randint(0, 300 if r.random() < .1 else 25))
        if k < .85: return '0.' + '0' * r.randint(0, 8) + d(r.randint(1, 20))
        return repr(abs(g.dbl()))
    def lit(g, x):
        s = repr(x)
        if s.endswith('.0'): s = s[:-2]
        return '(%s)' % s
    def case(g, kinds):
        r = g.r; out = []; js = []
        for _ in range(r.randint(2, 6)):
            k = r.choice(['lit', 'lit', 'num', 'num', 'print', 'print', 'back', 'fixed', 'fixed', 'exp', 'prec', 'radix', 'radix', 'pint', 'pint', 'pfloat', 'math1', 'math1', 'math2', 'minmax', 'is', 'round', 'hex', 'bad', 'arith'])
            x = g.dbl(); X = g.lit(x); e = v = None
            if k == 'lit':
                t = g.text(); v = float(t)
                e = 'X(%s)' % t; v = '%.17e' % v
            elif k == 'num':
                t = r.choice(['', '-', '+']) + g.text(); v = '%.17e' % float(t)
                e = r.choice(['X(Number(%s))', 'X(%s*1)', 'X(+%s)', 'X(%s-0)', 'X(new Number(%s)+0)']) % jstr(t)
            elif k == 'pfloat':
                t = r.choice(['', '-', '+']) + g.text(); v = '%.17e' % float(t); e = 'X(parseFloat(%s))' % jstr(t)
            elif k == 'hex':
                n = r.getrandbits(r.randint(1, 53)); t = ('0x%x' if r.random() < .5 else '0x%X') % n; v = '%.17e' % n
                e = r.choice(['X(%s)' % t, 'X(Number("%s"))' % t, 'X(parseInt("%s"))' % t, 'X(parseInt("%s",16))' % t])
            elif k == 'print':
                v = show(x); e = r.choice(["''+%s", "%s+''", "String(%s)", "%s.toString()", "[%s].join()", "'%%s'.replace('%%s',''+%s)"]) % X
                if '%%' in e: e = e.replace('%%', '%')
            elif k == 'back':
                v = '%.17e' % (x if x == int(x) and abs(x) < 2**53 else float('%.15g' % x))
                if show(x) is None: v = None
                e = 'X(Number(""+%s))' % X
            elif k == 'fixed':
                p = r.randint(0, 20)
                if abs(x) < 1e25: v = '%.*f' % (p, x)
                e = r.choice(['%s.toFixed(%d)' % (X, p), 'Number.toFixed(%s,%d)' % (X, p)]) if p or r.random() < .5 else '%s.toFixed()' % X
            elif k == 'exp':
                p = r.randint(0, 20); v = '%.*e' % (p, x); e = r.choice(['%s.toExponential(%d)', 'Number.toExponential(%s,%d)']) % (X, p)
            elif k == 'prec':
                p = r.randint(1, 15); s = '%.*f' % (p, x); w = p + (x < 0)
                if abs(x) < 10 ** p and not (x == 0 and str(x)[0] == '-'):
                    v = s[:w + 1]; v = v[:w] if v[w:] == '.' else v
                e = r.choice(['%s.toPrecision(%d)', 'Number.toPrecision(%s,%d)']) % (X, p)
            elif k == 'radix':
                n = r.randint(0, 2**r.randint(1, 53)); b = r.choice([16, 8, 10]); v = {16: '%x', 8: '%o', 10: '%d'}[b] % n
                e = '(%d).toString(%d)' % (n, b)
            elif k == 'pint':
                b = r.choice([None, None, 10, 16, 2, 8, 36, r.randint(2, 36)]); n = r.randint(0, 2**r.choice([4, 8, 16, 31, 33, 53, 60]) - 1)
                D = '0123456789abcdefghijklmnopqrstuvwxyz'; m = n; s = ''
                bb = b or 10
                while m: s = D[m % bb] + s; m //= bb
                s = s or '0'
                if r.random() < .3: s = s.upper()
                if r.random() < .3: s = '-' + s
                val = -n if s[0] == '-' else n
                if r.random() < .3: s += r.choice(['.9', '$', ' ', '.', '!x'])
                if b is None or r.random() < .8:
                    e = 'X(parseInt(%s%s))' % (jstr(s), '' if b is None else ',%d' % b); v = '%.17e' % val if val else '%.17e' % 0
                    if s.startswith('0X') or s.startswith('0x'): v = None
            elif k == 'bad':
                t = r.choice(['abc', 'x1', '1x', '1.2.3', '--1', '1e', 'e5', '.', '-', '12 px', 'one', '0xg', '1,000', '$5'])
                f = r.choice(['Number', 'parseFloat']); e = '%s(%s)' % (f, jstr(t)); v = 'NaN'
            elif k == 'math1':
                f = r.choice(['abs', 'acos', 'asin', 'atan', 'ceil', 'floor', 'cos', 'sin', 'tan', 'exp', 'log', 'sqrt'])
                if f in ('acos', 'asin'): x = r.uniform(-1, 1)
                elif f in ('cos', 'sin', 'tan'): x = r.uniform(-1000, 1000)
                elif f == 'exp': x = r.uniform(-600, 600)
                elif f in ('log', 'sqrt'): x = abs(x) or 1.0
                y = {'abs': abs}.get(f) or getattr(math, f); y = float(y(x))
                if abs(y) < 1e300: v = ('~' if f not in ('abs', 'ceil', 'floor', 'sqrt') else '') + '%.17e' % y
                if y == 0: v = None
                e = 'X(Math.%s(%s))' % (f, g.lit(x))
            elif k == 'round':
                if abs(x) < 2**51:
                    v = '%.17e' % math.copysign(math.floor(abs(x) + .5) if abs(x) - math.floor(abs(x)) != .49999999999999994 else 0, x)
                    if float(v) == 0: v = None
                e = 'X(Math.round(%s))' % X
            elif k == 'math2':
                if r.random() < .5:
                    a, b = r.uniform(0, 50), r.uniform(-20, 20)
                    if r.random() < .5: a, b = float(r.randint(-9, 9)), float(r.randint(0, 15))
                    f, y = 'pow', math.pow(a, b)
                else:
                    a, b = g.dbl(), g.dbl(); f, y = 'atan2', math.atan2(a, b)
                if y and 1e-300 < abs(y) < 1e300: v = '~%.17e' % y
                e = 'X(Math.%s(%s,%s))' % (f, g.lit(a), g.lit(b))
            elif k == 'minmax':
                l = [g.dbl() for _ in range(r.randint(2, 6))]; f = r.choice(['min', 'max'])
                v = '%.17e' % {'min': min, 'max': max}[f](l); e = 'X(Math.%s(%s))' % (f, ','.join(map(g.lit, l)))
                if float(v) == 0: v = None
            elif k == 'is':
                if r.random() < .3: x = float(r.choice([2**53, 2**53 - 1, -2**53, 2.0**60, .5]))
                f = r.choice(['isInteger', 'isFinite', 'isSafeInteger', 'isNaN'])
                b = {'isInteger': x == int(x) and abs(x) < 2**63, 'isFinite': True, 'isSafeInteger': x == int(x) and abs(x) <= 2**53 - 1, 'isNaN': False}[f]
                if abs(x) == 2**53 and f == 'isSafeInteger' or abs(x) >= 2**63: e = None
                else: e = '%s.%s()' % (g.lit(x), f); v = 'true' if b else 'false'
            elif k == 'arith':
                a, b = g.dbl(), g.dbl(); o = r.choice('+-*/')
                try: y = {'+': a + b, '-': a - b, '*': a * b, '/': a / b if b else math.nan}[o]
                except OverflowError: y = math.nan
                if y == y and abs(y) != math.inf and abs(y) > 1e-300: v = '%.17e' % y
                e = 'X(%s%s%s)' % (g.lit(a), o, g.lit(b))
            if e is None or v is None: continue
            kinds[k] += 1
            if r.random() < .15: js.append('(function() { var v=%s; P(function() { return v; }); })();' % e)
            else: js.append('P(function() { return %s; });' % e)
            out.append(v)
        return '\n'.join(js), out

def same(a, b):
    if not b.startswith('~'):
        if a == b: return True
        try: return a[:1] + b[:1] != '--' and '-' in a[:1] + b[:1] and float(a) == 0 == float(b) and a.lstrip('-') == b.lstrip('-')   # the sign of zero is not observed
        except ValueError: return False
    try: x, y = float(a), float(b[1:])
    except ValueError: return False
    return abs(x - y) <= 4e-16 * abs(y)

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one group of conversions; distinct groups'
    ctx.assumptions = ['the C library of this machine converts and rounds correctly (it is the oracle, through Python)', 'transcendental functions may differ by 1-2 units in the last place',
                       'toPrecision keeps that many characters of the fixed form and a text starting with 0 is octal to parseInt, as the test suite records']
    kinds = collections.Counter(); g = G(ctx.sub('n')); cases, exp = [], []
    while len(cases) < ctx.size(40000, 400000):
        c, x = g.case(kinds)
        if x: cases.append(c); exp.append(x)
    out = run_cases(ctx, cases, PRE, size=60)
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        ctx.case(c, sample=dict(program=c[:300], observed=o[-200:])); ol = o.rstrip('\n').split('\n'); ctx.count('conversions', len(x))
        for i, b in enumerate(x):
            a = ol[i] if i < len(ol) else '<none>'
            if not same(a, b):
                ctx.violation('num:' + c, 'program:\n%s\nline %d\nexpected: %s\ngot:      %s' % (c, i, b, a), batch_src([c], PRE)); break
    ctx.notes['kinds'] = dict(kinds)
