"""C01: expressions. Oracle: an independent evaluator of the dialect, written below."""
import math, re
from vf.js import *

class Err(Exception):
    pass

PREC = {',': 1, '=': 2, '?:': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '===': 9, '!==': 9,
        '<': 10, '>': 10, '<=': 10, '>=': 10, '<<': 11, '>>': 11, '>>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13,
        'un': 14, 'post': 15, 'prim': 17}

def num2s(x):
    if x != x: return 'NaN'
    if math.isinf(x): return 'Infinity' if x > 0 else '-Infinity'
    if x == int(x) and abs(x) < 2 ** 63: return str(int(x))
    return '%.15g' % x

def tos(v):
    if isinstance(v, str): return v
    if v is True: return 'true'
    if v is False: return 'false'
    if v is None: return 'null'
    return num2s(v)

NUMRE = re.compile(r'[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)$')

def ton(v):
    if v is True: return 1.0
    if v is False or v is None: return 0.0
    if isinstance(v, str):
        if v == '': return 0.0
        return float(v) if NUMRE.match(v) else math.nan
    return float(v)

def truthy(v):
    if isinstance(v, str): return v != ''
    if v is None: return False
    return bool(v) and v == v

def kind(v):
    return 'b' if isinstance(v, bool) else 's' if isinstance(v, str) else 'l' if v is None else 'n'

def looseeq(a, b):
    if kind(a) == kind(b):
        return a == b
    x, y = ton(a), ton(b)
    return x == y

def i32(x):
    n = int(x) & 0xffffffff
    return n - (1 << 32) if n >> 31 else n

class Skip(Exception):
    """The case leaves the domain the property speaks about."""

def binop(op, a, b):
    if op == '+':
        if isinstance(a, str) or isinstance(b, str):
            for v in (a, b):
                if isinstance(v, float) and (v != v): raise Skip()
            s = tos(a) + tos(b)
            if len(s) > 4000: raise Skip()
            return s
        a, b = ton(a), ton(b)
        if a != a or b != b: raise Err()
        return a + b
    if op in ('-', '*', '/', '%'):
        a, b = ton(a), ton(b)
        if a != a or b != b: raise Err()
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            if b == 0:
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            return a / b
        if b == 0 or math.isinf(a): return math.nan
        return math.fmod(a, b)
    if op in ('<', '>', '<=', '>='):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b: raise Skip()
        if isinstance(a, str) or isinstance(b, str):
            x, y = tos(a).encode(), tos(b).encode()
        else:
            x, y = ton(a), ton(b)
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    if op in ('==', '!='):
        for v in (a, b):
            if isinstance(v, float) and v != v: raise Skip()
        if kind(a) != kind(b):
            for v in (a, b):
                if isinstance(v, str) and ton(v) != ton(v): break
        r = looseeq(a, b)
        return r if op == '==' else not r
    if op in ('===', '!=='):
        r = kind(a) == kind(b) and a == b
        return r if op == '===' else not r
    if op in ('&', '|', '^'):
        x, y = ton(a), ton(b)
        if x != x or y != y: raise Err()
        if x < 0 or y < 0 or x >= 2 ** 53 or y >= 2 ** 53: raise Skip()
        x, y = int(x), int(y)
        return float({'&': x & y, '|': x | y, '^': x ^ y}[op])
    if op in ('<<', '>>', '>>>'):
        if isinstance(a, str) or isinstance(b, str): raise Skip()
        x, y = ton(a), ton(b)
        if x != x or y != y: raise Skip()
        if not (-2 ** 31 <= x < 2 ** 31) or not 0 <= y < 32 or y != int(y): raise Skip()
        x, y = int(x), int(y)
        if op == '<<': return float(i32(x << y))
        if op == '>>': return float(x >> y)
        return float((x & 0xffffffff) >> y)
    raise AssertionError(op)

class Ev:
    def __init__(s, env):
        s.env = env       # name -> value; 'o' is an object dict, 'r' a list
        s.log = []

    def ref(s, n):
        if n[0] == 'var': return (s.env, n[1])
        if n[0] == 'prop': return (s.env['o'], n[1])
        if n[0] == 'idx':
            return (s.env['r'], int(s.ev(n[1])))
        raise AssertionError

    def late(s, n):
        k = n[0]
        if k == 'var': return [n[1]]
        if k in ('asg', 'opasg', 'pre'): return s.late(n[2])
        if k in ('&&', '||'): return s.late(n[1]) + s.late(n[2])
        if k == '?:': return s.late(n[2]) + s.late(n[3])
        if k == ',': return s.late(n[2])
        return []

    def ev(s, n):
        k = n[0]
        if k == 'lit': return n[2]
        if k == 't':
            v = s.ev(n[2])
            s.log.append('t%d %s' % (n[1], pyD(v)))
            return v
        if k in ('var', 'prop', 'idx'):
            c, i = s.ref(n)
            return c[i]
        if k == 'bin':
            a = s.ev(n[2]); b = s.ev(n[3])
            for v in s.late(n[2]):       # a variable operand is read when its operator is applied
                if s.env[v] is not a: raise Skip()
            return binop(n[1], a, b)
        if k == '&&':
            a = s.ev(n[1]); return s.ev(n[2]) if truthy(a) else a
        if k == '||':
            a = s.ev(n[1]); return a if truthy(a) else s.ev(n[2])
        if k == '?:':
            return s.ev(n[2]) if truthy(s.ev(n[1])) else s.ev(n[3])
        if k == ',':
            s.ev(n[1]); return s.ev(n[2])
        if k == 'un':
            v = s.ev(n[2]); op = n[1]
            if op == '!':
                if isinstance(v, float) and v != v: raise Skip()
                return not truthy(v)
            if op == 'typeof':
                return {'b': 'boolean', 's': 'string', 'n': 'number'}.get(kind(v)) or 'null'
            if op == '-' or op == '+':
                x = ton(v)
                if x != x: raise Err()
                return -x if op == '-' else x
            if op == '~':
                if isinstance(v, str): raise Skip()
                x = ton(v)
                if x != x or not -2 ** 31 <= x < 2 ** 31: raise Skip()
                return float(~int(x))
        if k == 'asg':
            c, i = s.ref(n[2])
            v = s.ev(n[3])
            c[i] = v
            return v
        if k == 'opasg':
            c, i = s.ref(n[2])
            old = c[i]
            v = s.ev(n[3])
            if c[i] is not old: raise Skip()
            v = binop(n[1][:-1], old, v)
            c[i] = v
            return v
        if k in ('pre', 'post'):
            c, i = s.ref(n[2])
            x = ton(c[i])
            if not isinstance(c[i], float) or x != x or math.isinf(x): raise Skip()
            y = x + (1 if n[1] == '++' else -1)
            c[i] = y
            return y if k == 'pre' else x
        raise AssertionError(k)

def prec(n):
    k = n[0]
    if k == 'bin': return PREC[n[1]]
    if k in ('&&', '||', '?:', ','): return PREC[k]
    if k in ('asg', 'opasg'): return PREC['=']
    if k in ('un', 'pre'): return PREC['un']
    if k == 'post': return PREC['post']
    if k == 'lit' and n[1].startswith('-'): return PREC['un']
    return PREC['prim']

def show(n, rng):
    k = n[0]
    def sub(c, p):
        t = show(c, rng)
        return '(' + t + ')' if prec(c) < p or rng.random() < .06 else t
    if k == 'lit': return n[1]
    if k == 't': return 't(%d,%s)' % (n[1], sub(n[2], 2))
    if k == 'var': return n[1]
    if k == 'prop': return 'o.' + n[1] if rng.random() < .7 else 'o["%s"]' % n[1]
    if k == 'idx': return 'r[%s]' % show(n[1], rng)
    if k == 'bin':
        p = PREC[n[1]]
        return sub(n[2], p) + ' ' + n[1] + ' ' + sub(n[3], p + 1)
    if k in ('&&', '||'): return sub(n[1], PREC[k]) + ' ' + k + ' ' + sub(n[2], PREC[k] + 1)
    if k == '?:': return sub(n[1], 4) + ' ? ' + sub(n[2], 4) + ' : ' + sub(n[3], 3)
    if k == ',': return '(' + sub(n[1], 2) + ', ' + sub(n[2], 2) + ')'
    if k == 'un':
        t = sub(n[2], 14)
        return n[1] + (' ' if n[1] == 'typeof' or t[0] in '+-' else '') + t
    if k == 'asg': return show(n[2], rng) + ' = ' + sub(n[3], 2)
    if k == 'opasg': return show(n[2], rng) + ' ' + n[1] + ' ' + sub(n[3], 2)
    if k == 'pre': return n[1] + show(n[2], rng)
    if k == 'post': return show(n[2], rng) + n[1]
    raise AssertionError(k)

INTS = [0, 1, 2, 3, 5, 7, 10, 13, 31, 32, 42, 100, 255, 256, 1000, 65535, 65536, 100000, 2147483647, 2147483648, 4294967295, 4294967296, 1e15, 9007199254740991]
FLTS = [0.5, 0.25, 1.5, 2.75, 3.14159, 0.1, 1e-7, 123456.789, 1e21, 1e300, 0.001, 1e-300]
NSTR = ['5', '0', '12.5', '42', '-3', '1e3', '007', '.5', '100']
STRS = ['abc', 'b', '', 'Z9', 'a b', 'true', 'null', 'x"y', '9', '10']

class Gen:
    def __init__(s, rng):
        s.r = rng; s.t = 0

    def lit(s):
        r = s.r; c = r.random()
        if c < .45: v = r.choice(INTS) if r.random() < .6 else r.randrange(0, 50); return ('lit', num2lit(float(v)), float(v))
        if c < .60: v = r.choice(FLTS) if r.random() < .6 else round(r.uniform(0, 1000), r.randrange(1, 5)); return ('lit', num2lit(v), float(v))
        if c < .70: v = r.choice(NSTR); return ('lit', jstr(v), v)
        if c < .82: v = r.choice(STRS); return ('lit', jstr(v), v)
        if c < .92: v = r.random() < .5; return ('lit', 'true' if v else 'false', v)
        if c < .95: return ('lit', 'null', None)
        v = r.randrange(0, 1 << 31); return ('lit', hex(v), float(v))

    def num(s):
        v = s.r.choice(INTS[:17]) if s.r.random() < .5 else s.r.randrange(0, 70)
        return ('lit', num2lit(float(v)), float(v))

    def ref(s):
        c = s.r.random()
        if c < .5: return ('var', s.r.choice('xyzw'))
        if c < .75: return ('prop', s.r.choice('pq'))
        i = ('lit', str(s.r.randrange(3)), None)
        i = ('lit', i[1], float(i[1]))
        if s.r.random() < .3:
            s.t += 1; i = ('t', s.t, i)
        return ('idx', i)

    def expr(s, d):
        r = s.r
        if d <= 0 or r.random() < .08:
            e = s.lit() if r.random() < .6 else s.ref()
        else:
            c = r.random()
            if c < .34: e = ('bin', r.choice('+-*/%'), s.expr(d - 1), s.expr(d - 1))
            elif c < .46: e = ('bin', r.choice(['<', '>', '<=', '>=', '==', '!=', '===', '!==']), s.expr(d - 1), s.expr(d - 1))
            elif c < .54: e = ('bin', r.choice('&|^'), s.num() if r.random() < .6 else s.expr(d - 1), s.num() if r.random() < .6 else s.expr(d - 1))
            elif c < .60: e = ('bin', r.choice(['<<', '>>', '>>>']), s.expr(d - 1), ('lit', str(x := r.randrange(32)), float(x)))
            elif c < .68: e = (r.choice(['&&', '||']), s.expr(d - 1), s.expr(d - 1))
            elif c < .74: e = ('?:', s.expr(d - 1), s.expr(d - 1), s.expr(d - 1))
            elif c < .82: e = ('un', r.choice(['-', '+', '!', '!', '~', 'typeof']), s.expr(d - 1))
            elif c < .86: e = ('asg', '=', s.ref(), s.expr(d - 1))
            elif c < .91: e = ('opasg', r.choice(['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '>>>=']), s.ref(), s.expr(d - 1) if r.random() < .6 else s.num())
            elif c < .95: e = (r.choice(['pre', 'post']), r.choice(['++', '--']), s.ref())
            elif c < .97:
                s.t += 1
                e = (',', ('t', s.t, s.expr(d - 1)), s.expr(d - 1))
            else: e = s.lit()
        if r.random() < .22:
            s.t += 1
            e = ('t', s.t, e)
        return e

def num2lit(x):
    if x == int(x) and abs(x) < 1e16: return str(int(x))
    return repr(x)

ENV0 = dict(x=7.0, y='s1', z=2.5, w=True)

def env0():
    e = dict(ENV0); e['o'] = dict(p=3.0, q='20'); e['r'] = [4.0, 'u', 100.0]
    return e

PRE = DUMP + 'var L=[]; function t(k,v) { puts("t"+k+" "+D(v)); return v; }\n'
BODY = '''var x=7, y="s1", z=2.5, w=true, o={p:3,q:"20"}, r=[4,"u",100], v;
try { v = %s; puts("= "+D(v)); } catch(e) { puts("E"); }
puts(D([x,y,z,w,o,r]));'''

def predict(ast):
    ev = Ev(env0())
    try:
        v = ev.ev(ast)
        log = ev.log + ['= ' + pyD(v)]
    except Err:
        log = ev.log + ['E']
    except (OverflowError, Skip):
        return None
    e = ev.env
    log.append(pyD([e['x'], e['y'], e['z'], e['w'], e['o'], e['r']]))
    return '\n'.join(log) + '\n'

def has_nan_store(exp):
    return 'n:nan' in exp

def run(ctx):
    ctx.build('asan')
    ctx.rule = ('expression trees over all operators, literals of every operand kind, variables, properties and elements; '
                'non-trivial: distinct source text with at least one operator, inside the domain of the statement')
    ctx.assumptions = ['negative or >=2^53 operands of & | ^ and shifts outside int32/0..31 are not judged (dialect leaves them to the platform)']
    cases = []
    # every operator with every pair of operand kinds
    lits = []
    for v in [0, 1, 2, 7, 31, 1000, 2147483647, 4294967295]: lits.append(('lit', num2lit(float(v)), float(v)))
    for v in [0.5, 2.75, 1e-7, 1e300]: lits.append(('lit', num2lit(v), v))
    for v in ['5', '12.5', 'abc', '', '-3', '10']: lits.append(('lit', jstr(v), v))
    lits += [('lit', 'true', True), ('lit', 'false', False), ('lit', 'null', None), ('un', '-', ('lit', '13', 13.0)), ('un', '-', ('lit', '0.5', .5)),
             ('bin', '/', ('lit', '1', 1.0), ('lit', '0', 0.0))]
    for op in ['+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '&', '|', '^', '<<', '>>', '>>>']:
        for a in lits:
            for b in lits:
                cases.append(('bin', op, ('t', 1, a), ('t', 2, b)))
    for a in lits:
        for op in ['-', '+', '!', '~', 'typeof']: cases.append(('un', op, a))
        for b in lits[::3]:
            cases += [('&&', ('t', 1, a), ('t', 2, b)), ('||', ('t', 1, a), ('t', 2, b)), ('?:', ('t', 1, a), ('t', 2, b), ('t', 3, a))]
    rng = ctx.sub('g')
    n = ctx.size(12000, 80000)
    want = len(cases) + n
    while len(cases) < want:
        cases.append(Gen(rng).expr(rng.choice([1, 2, 2, 3, 3, 4])))
    src, exp = [], []
    for a in cases:
        p = predict(a)
        if p is None or len(p) > 20000:
            ctx.count('outside_domain'); continue
        t = show(a, rng)
        src.append(BODY % t); exp.append(p)
    outs = run_cases(ctx, src, PRE, size=60)
    for s, p, o in zip(src, exp, outs):
        if o is None: continue
        o = canon(o)
        ctx.case(s if len(s) > 150 else s, sample=dict(code=s.split('\n')[1], log=p))
        if '= ' in p: ctx.count('value')
        else: ctx.count('error_expected')
        ctx.count('trace_events', p.count('\n'))
        if o != p:
            ctx.violation('expr:' + s.split('\n')[1], 'code:\n%s\nexpected:\n%s\ngot:\n%s' % (s, p, o), batch_src([s], PRE))
