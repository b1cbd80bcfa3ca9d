"""C10: JSON both ways against Python's json module, plus rejection of texts broken in ways the strict parser must notice."""
from vf.js import *
import json, collections, math

PRE = DUMP + r'''
function P(v) { puts(D(v)); }
function W(s) { File.write(F, s); }
'''
STR = 'abcXYZ 0189_:,{}[]"\'\\/\n\t\r\b\f\x01\x1f\x7féßλ€漢\u2028\ud7ff\uffff😀𝄞'

def r15(x):
    return float('%.15g' % x)

class G:
    def __init__(g, rng): g.r = rng
    def s(g):
        r = g.r; k = r.random()
        n = 0 if k < .1 else r.randint(1, 4) if k < .7 else r.randint(5, 30) if k < .97 else r.randint(80, 300)
        return ''.join(r.choice(STR) for _ in range(n))
    def key(g):
        r = g.r
        while 1:
            s = g.s() if r.random() < .5 else r.choice(['a', 'b', 'c1', 'key', 'if', 'true', 'a b', '0', '12', '-1', 'é', '__x', 'x.y'])
            if s and s not in ('__proto__', 'length'): return s
    def num(g):
        r = g.r; k = r.random()
        if k < .4: return r.randint(-1000, 1000)
        if k < .55: return r.randint(-2**53, 2**53)
        if k < .8: return r15(r.uniform(-1, 1) * 10 ** r.randint(-20, 20))
        if k < .9: return r15(r.uniform(-1, 1) * 10 ** r.randint(-300, 300))
        return r.choice([0, 0.5, 1e21, 1e-7, 123456789.125, 2**53, 2**62, 1e300, 2.5e-308, -0.001, 4294967296, 0.1])
    def val(g, d=4):
        r = g.r; k = r.random()
        if d <= 0 or k < .5:
            j = r.random()
            return g.s() if j < .4 else g.num() if j < .75 else r.choice([True, False, None])
        n = r.choice([0, 1, 2, 3, 3, 5])
        if r.random() < .03: n = r.randint(40, 150)
        return [g.val(d - 1) for _ in range(n)] if r.random() < .5 else {g.key(): g.val(d - 1) for _ in range(n)}
    def cont(g):
        while 1:
            v = g.val()
            if isinstance(v, (list, dict)): return v
    def text(g, v):
        """a random valid spelling of v"""
        r = g.r
        def ws(): return '' if r.random() < .7 else ''.join(r.choice(' \t\n\r') for _ in range(r.randint(1, 3)))
        def st(s):
            o = []
            for c in s:
                k = r.random()
                if c in '"\\' or ord(c) < 32:
                    m = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}.get(c)
                    o.append(m if m and k < .7 else '\\u%04x' % ord(c))
                elif c == '/' and k < .5: o.append('\\/')
                elif k < .2:
                    u = c.encode('utf-16-be'); x = ''.join('\\u%02x%02x' % (u[i], u[i + 1]) for i in range(0, len(u), 2))
                    o.append(x.upper().replace('\\U', '\\u') if k < .1 else x)
                else: o.append(c)
            return '"' + ''.join(o) + '"'
        def n(x):
            k = r.random()
            if isinstance(x, int): return str(x) if k < .8 or x == 0 else '%de0' % x if k < .9 else '%d.0' % x
            s = repr(x)
            return s.replace('e', 'E') if k < .3 else s
        def f(x):
            if isinstance(x, str): return st(x)
            if x is None: return 'null'
            if x is True: return 'true'
            if x is False: return 'false'
            if isinstance(x, (int, float)): return n(x)
            if isinstance(x, list): return '[' + ws() + ','.join(ws() + f(y) + ws() for y in x) + ']'
            return '{' + ws() + ','.join(ws() + st(k) + ws() + ':' + ws() + f(y) + ws() for k, y in x.items()) + '}'
        return ws() + f(v) + ws()
    def lit(g, v):
        """a jsish literal of v"""
        if isinstance(v, str): return jstr(v)
        if v is None: return 'null'
        if v is True: return 'true'
        if v is False: return 'false'
        if isinstance(v, (int, float)): return '(%s)' % (repr(v) if isinstance(v, int) else '%.17g' % v)
        if isinstance(v, list): return '[' + ','.join(map(g.lit, v)) + ']'
        return '{' + ','.join('%s:%s' % (jstr(k), g.lit(x)) for k, x in v.items()) + '}'
    def broken(g):
        """text no strict JSON reader accepts, for one of the reasons the property names"""
        r = g.r
        t = g.text(g.cont()).strip()
        k = r.choice(['open', 'close', 'mismatch', 'unterminated', 'escape', 'hex', 'word', 'word', 'squote', 'ctl'])
        inner = t[1:-1].strip()
        sep = ',' if inner else ''
        arr = t[0] == '['
        def add(x): return '[' + (inner + sep if arr else t + ',') + x + ']'
        if k == 'open': return k, t[:-1] if r.random() < .5 else '[' + t
        if k == 'close': return k, t + t[-1]
        if k == 'mismatch': return k, t[:-1] + ('}' if arr else ']')
        if k == 'unterminated': return k, add('"abc').replace('"abc]', '"abc]')
        if k == 'escape': return k, add('"a\\%sb"' % r.choice("qxv'0UNae1 "))
        if k == 'hex': return k, add('"\\u%s"' % r.choice(['12', '12g4', '', 'zzzz', '00 1', '+123', '-001']))
        if k == 'word': return k, add(r.choice(['abc', 'x', 'NaN', 'Infinity', 'undefined', '_', '+1', '.5', '(1)', '$', '@', 'x:1', '/*c*/1', 'é', '*', ';']))
        if k == 'squote': return k, add("'a'")
        if k == 'ctl': return k, add(r.choice('\x01\x0b\x1f\x7f'))

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one value or text decoded, encoded, round-tripped or refused; distinct texts'
    ctx.assumptions = ['numbers are compared to the 15 significant digits the interpreter prints', 'keys __proto__ and length and NUL characters are outside the domain',
                       'the strict parser is required to notice unbalanced brackets, unterminated strings, bad escapes, unquoted words and characters; stray or missing separators are tolerated by design of its tokenizer']
    kinds = collections.Counter(); g = G(ctx.sub('j'))
    N = ctx.size(9000, 70000)
    def mk(v):
        if isinstance(v, float): return r15(v)
        if isinstance(v, list): return [mk(x) for x in v]
        if isinstance(v, dict): return {k: mk(x) for k, x in v.items()}
        return v
    cases, exp, meta = [], [], []
    while len(cases) < N:
        k = g.r.choice(['parse', 'parse', 'enc', 'enc', 'round', 'round', 'broken', 'broken', 'scalar', 'undef', 'fmt', 'deep', 'mut'])
        kinds[k] += 1
        strict = g.r.choice(['', '', ',true', ',false'])
        if k in ('parse', 'scalar'):
            v = g.cont() if k == 'parse' else g.r.choice([g.num(), g.s(), True, False, None])
            t = g.text(v)
            if k == 'scalar': t = t.lstrip() if isinstance(v, str) else t.strip()
            cases.append('var t=%s; P(JSON.check(t%s)); P(JSON.parse(t%s));' % (jstr(t), strict, strict)); exp.append('b:1\n' + pyD(v) + '\n'); meta.append(('lines', v))
        elif k == 'enc':
            v = g.cont() if g.r.random() < .8 else g.val(0)
            cases.append('var v=%s; puts(JSON.stringify(v));' % g.lit(v)); exp.append(v); meta.append(('json', v))
        elif k == 'fmt':
            v = g.cont(); ind = g.r.randint(1, 8)
            cases.append('var v=%s; puts(JSON.stringify(v%s));' % (g.lit(v), g.r.choice([',null', ',true,%d' % ind]))); exp.append(v); meta.append(('json', v))
        elif k == 'round':
            v = g.cont(); s2 = g.r.choice([('', ''), (',true', ',true'), (',false', ',false'), (',null', '')])
            cases.append('var v=%s, t=JSON.stringify(v%s), w=JSON.parse(t%s); P(w); P(v); P(JSON.stringify(w%s)===t);' % (g.lit(v), s2[0], s2[1], s2[0]))
            exp.append(pyD(v) + '\n' + pyD(v) + '\nb:1\n'); meta.append(('lines', v))
        elif k == 'undef':
            ks = sorted({g.key() for _ in range(g.r.randint(1, 5))}); v = {}; l = []
            for x in ks:
                if g.r.random() < .5: l.append('%s:undefined' % jstr(x))
                else: y = g.val(1); v[x] = y; l.append('%s:%s' % (jstr(x), g.lit(y)))
            cases.append('puts(JSON.stringify({%s}));puts(JSON.stringify([1,{%s},undefined,2]));' % (','.join(l), ','.join(l)))
            exp.append((v, [1, v, None, 2])); meta.append(('json2', v))
        elif k == 'deep':
            n = g.r.choice([5, 50, 150, 190, 1000, 3000]); o = g.r.choice(['[', '{"a":'])
            cases.append('var t=%s.repeat(%d)+"1"+%s.repeat(%d), r; P(JSON.check(t)); try { r=JSON.parse(t); var n=0; while (typeof r!=="number") { r=r[%s]; n++; } P(n); } catch(e) { puts("err"); }' % (jstr(o), n, jstr(']' if o == '[' else '}'), n, '0' if o == '[' else '"a"'))
            exp.append('b:1\n%s\n' % (pyD(n) if n <= 190 else 'err')); meta.append(('lines', None))
        elif k == 'broken':
            why, t = g.broken(); kinds['broken ' + why] += 1
            try:
                json.loads(t); continue
            except ValueError: pass
            cases.append('var t=%s; P(JSON.check(t)); try { JSON.parse(t); puts("accepted"); } catch(e) { puts("err"); } P(JSON.parse(%s));' % (jstr(t), jstr('[1,"a"]')))
            exp.append('b:0\nerr\n[n:1.0,s:"a"]\n'); meta.append(('lines', t))
        else:
            # any mutation: judged only when Python reads it as JSON; otherwise it must just not break the interpreter
            t = list(g.text(g.cont()))
            for _ in range(g.r.randint(1, 3)):
                i = g.r.randrange(len(t) + 1); m = g.r.random()
                if m < .3: del t[i:i + g.r.randint(1, 3)]
                elif m < .7: t.insert(i, g.r.choice(['{', '}', '[', ']', '"', ',', ':', '\\', '1', 'e', '-', 'null', ' ', 'u', '\\u', '\\ud800', '/', '.']))
                elif t: j = g.r.randrange(len(t)); i = min(i, len(t) - 1); t[i], t[j] = t[j], t[i]
            t = ''.join(t).strip(); t = t.replace('\x00', '')
            if not t: continue
            def nodup(p):
                if len({k for k, _ in p}) != len(p): raise KeyError
                return dict(p)
            try:
                v = json.loads(t, parse_constant=lambda c: 1 / 0, object_pairs_hook=nodup); ok = True
                s = json.dumps(v, ensure_ascii=False); s.encode()
                if '\\u0000' in s or '"__proto__"' in s or '"length"' in s or '""' in s or any(isinstance(x, float) and math.isinf(x) for x in flat(v)): continue
            except KeyError: continue
            except ZeroDivisionError: continue
            except UnicodeEncodeError: continue
            except ValueError: ok = False
            if ok and not isinstance(v, (list, dict)): continue
            kinds['mut valid' if ok else 'mut invalid'] += 1
            cases.append('var t=%s, c=JSON.check(t), v=0, k=true; try { v=JSON.parse(t); } catch(e) { k=false; } if (k!==c) puts("checkdiffers"); try { P(v); } catch(e) { puts("err"); } P(JSON.parse(%s));' % (jstr(t), jstr('[1,"a"]')))
            exp.append(pyD(v) + '\n[n:1.0,s:"a"]\n' if ok else None); meta.append(('lines', t))
    out = run_cases(ctx, cases, PRE, size=50)
    for c, o, x, (how, v) in zip(cases, out, exp, meta):
        if o is None: continue
        ctx.case(c, sample=dict(program=c[:300], observed=o[:200])); ctx.count('results')
        bad = None
        if how == 'lines':
            if x is None:
                if 'checkdiffers' in o or not o.endswith('[n:1,s:"a"]\n'): bad = 'JSON.check and JSON.parse disagree, or the next parse fails'
            elif same(o, x) is False: bad = 'expected: %s' % x
        else:
            want = [x] if how == 'json' else list(x)
            try:
                if how == 'json': got = [json.loads(o)]
                else: got = [json.loads(l) for l in o.split('\n')[:2]]
                if [norm(a) for a in got] != [norm(a) for a in want]: bad = 'expected the JSON of %r, an independent reader sees %r' % (want, got)
            except ValueError as e: bad = 'the text is not JSON (%s); expected %r' % (e, want)
        if bad: ctx.violation('json:' + c, 'program:\n%s\n%s\ngot:      %s' % (c[:2000], bad[:1500], o[:1500]), batch_src([c], PRE))
    ctx.notes['operations'] = dict(kinds)

def flat(v):
    if isinstance(v, list):
        for x in v: yield from flat(x)
    elif isinstance(v, dict):
        for x in v.values(): yield from flat(x)
    else: yield v

def norm(v):
    if isinstance(v, bool) or v is None or isinstance(v, str): return v
    if isinstance(v, (int, float)): return r15(float(v))
    if isinstance(v, list): return [norm(x) for x in v]
    return {k: norm(x) for k, x in v.items()}

_n = re.compile(r'n:([-+]?(?:inf|nan|[0-9.]+(?:e[-+]?\d+)?))')
def same(o, x):
    f = lambda m: 'n:%.15g' % (float(m.group(1)) + 0.0)
    return _n.sub(f, o) == _n.sub(f, canon(x))
