"""C36: evaluated text, functions from text and scopes, in every layout of the source, against Node running the same programs."""
from vf.js import *
import re

PRE_J = DUMP + r'''
var F=0;
function T(a, b:any=void) { puts("T "+a+" "+D(b)); return b; }
function TX(f:function) { var t = JSON.parse(JSON.stringify(f)); if (eval(f.toString()) !== t) puts("toString differs: "+t); return t; }
function fuel() { F += 1; return F < 400; }
'''
PRE_N = DUMP_NODE + r'''
var F=0;
function T(a, b) { console_log("T "+a+" "+D(b)); return b; }
function TX(f) { return "("+f.toString()+")"; }
function fuel() { F += 1; return F < 400; }
'''
TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|[A-Za-z_$][\w$]*|\d+(?:\.\d+)?|===|!==|==|!=|<=|>=|&&|\|\||\+\+|--|=>|\+=|-=|\*=|[-+*/%<>=!?:;,.(){}\[\]&|^~]''')

def layout(r, code, style):
    """The same tokens with other white space and comments between them."""
    toks = TOK.findall(code); out = []
    assert re.sub(r'\s', '', code) == re.sub(r'\s', '', ''.join(toks)), code
    word = lambda c: c.isalnum() or c in '_$'
    for i, t in enumerate(toks):
        out.append(t)
        if i + 1 == len(toks): break
        n = toks[i + 1]
        need = (word(t[-1]) and word(n[0])) or (t[-1] in '+-' and n[0] in '+-') or (t[-1] in '/<>=!&|*%+-' and n[0] in '/=<>&|*!')
        # a line end has a meaning here
        tied = t in ('return', 'break', 'continue', 'throw', 'var') or n in ('++', '--', '=>') or t == 'typeof'
        k = r.random()
        if style == 0: sp = ' ' if need or k < .5 else ''
        elif tied: sp = ' ' * r.choice([1, 1, 2]) if need or k < .5 else ''
        elif style == 1: sp = ('\n' + ' ' * r.choice([0, 1, 4])) if k < .45 else ' ' if need or k < .7 else ''
        elif style == 2: sp = r.choice(['\n', '\t', ' ', '\n\n', ' \n\t', '/**/', '/* a */', ' // c\n', ' //\n', ' /* "x */ ', "/* it's\n * \n */", '//}\n', '/*{*/', ' /* // */ ', '\r\n']) if k < .6 else ' ' if need else ''
        else: sp = '\n' if k < .9 else '\n\n' if k < .95 else ' '
        if sp == '' and need: sp = ' '
        if t[-1] == '/' and sp.startswith('/'): sp = ' ' + sp
        if sp.startswith('/') and t == '*': sp = ' ' + sp
        out.append(sp)
    return ''.join(out)

class G:
    def __init__(g, r): g.r = r; g.n = 0; g.nt = 0; g.lp = 0; g.kinds = set(); g.style = r.choice([0, 0, 1, 2, 2, 3])
    def name(g, p): g.n += 1; return p + str(g.n)
    def tag(g): g.nt += 1; return g.nt
    def ex(g, e, d=2):
        r = g.r; k = r.random()
        if d <= 0 or k < .25: return str(r.randint(0, 6))
        if k < .6 and e['v']: return '(%s*1)' % r.choice(e['v'])
        if k < .72: return '((%s+%s)%%7)' % (g.ex(e, d - 1), g.ex(e, d - 1))
        if k < .78: return '(%s%s%s?%s:%s)' % (g.ex(e, d - 1), r.choice(['<', '==', '!==', '>=']), g.ex(e, d - 1), g.ex(e, d - 1), g.ex(e, d - 1))
        if k < .86 and e['f']:
            f, n = r.choice(e['f']); return '%s(%s)' % (f, ','.join(g.ex(e, d - 1) for _ in range(n)))
        if k < .91: return 'T(%d,%s)' % (g.tag(), g.ex(e, d - 1))
        if k < .97 and e['ev'] < 3: g.kinds.add('eval expression'); return 'eval(%s)' % g.text(g.ex(dict(e, ev=e['ev'] + 1), d - 1))
        return '%s(%s).length' % ('', r.choice(['"a\\"b"', "'it\\'s'", '"//"', '"/*"', '"}"', '"\\\\"', '"\\n"', "'\"'"]))
    def text(g, code):
        """Code as a string literal, in another layout."""
        return jstr(layout(g.r, code, g.r.choice([0, 0, g.style])))
    def func(g, e):
        ps = [g.name('p') for _ in range(g.r.randint(0, 3))]
        ee = dict(v=e['v'] + ps, f=list(e['f']), ev=e['ev'], b=e['b'], d=e['d'] + 1)
        b = 'if (!fuel()) { return 0; }' + g.body(ee, g.r.randint(1, 4)) + 'return %s;' % g.ex(ee)
        g.kinds.add('function depth %d' % ee['d'])
        return 'function(%s) { %s }' % (','.join(ps), b), len(ps)
    def body(g, e, n): return ''.join(g.stmt(e) for _ in range(n))
    def inner(g, e, **k): return dict(e, v=list(e['v']), f=list(e['f']), b=e['b'] + 1, **k)
    def stmt(g, e):
        r = g.r; k = r.random(); deep = e['d'] >= 3 or e['b'] > 3 or g.n > 60
        if deep and .33 < k < .94: k /= 3
        def kind(x): g.kinds.add(x + (' in eval' * (e['ev'] > 0)))
        if k < .12: x = g.name('x'); s = 'var %s = %s;' % (x, g.ex(e)); e['v'].append(x); kind('declare'); return s
        if k < .25 and e['v']: kind('assign'); x = r.choice(e['v']); return '%s = %s%s;' % (x, r.choice(['', '', '(%s*1)+' % x]), g.ex(e))
        if k < .33: return 'T(%d,%s);' % (g.tag(), g.ex(e))
        if k < .45 and e['ev'] < 3:   # text in this scope: what it declares stays
            kind('eval statements'); e['ev'] += 1; s = g.body(e, r.randint(1, 3)); e['ev'] -= 1
            return 'eval(%s);' % g.text(s)
        if k < .52 and e['ev'] < 3:   # its last expression is its value
            kind('eval value'); x = g.name('x'); e['ev'] += 1; s = g.body(e, r.randint(0, 2)) + g.ex(e); e['ev'] -= 1
            e['v'].append(x); return 'var %s = eval(%s);' % (x, g.text(s))
        if k < .6 and not deep:
            f = g.name('f'); c, n = g.func(e); kind('function'); e['f'].append((f, n)); return 'var %s = %s;' % (f, c)
        if k < .66 and not deep and e['ev'] < 3:
            f = g.name('f'); c, n = g.func(dict(e, ev=e['ev'] + 1)); kind('function from text'); e['f'].append((f, n)); return 'var %s = eval(%s);' % (f, g.text('(' + c + ')'))
        if k < .7 and not deep and e['ev'] < 3:
            f = g.name('d'); c, n = g.func(dict(e, ev=e['ev'] + 1)); kind('function declared by text'); e['f'].append((f, n)); return 'eval(%s);' % g.text(c.replace('function(', 'function %s(' % f, 1) + ';')
        if k < .78 and e['f']:
            own = [x for x in e['f'] if x[0].startswith('f')]
            if own:      # the text of a function gives the same function
                f, n = r.choice(own); h = g.name('h'); kind('text of a function'); a = [str(r.randint(0, 6)) for _ in range(n)]
                e['f'].append((h, n)); return 'var %s = eval(TX(%s)); T(%d,%s(%s)); ' % (h, f, g.tag(), h, ','.join(a))
        if k < .80 and not deep:      # arrow functions end with their expression
            kind('arrow function'); n = r.randint(0, 3); ps = [g.name('p') for _ in range(n)]; ee = dict(g.inner(e), f=[]); ee['v'] = e['v'] + ps
            a = '%s=>%s' % (ps[0] if n == 1 else '(' + ','.join(ps) + ')', g.ex(ee))
            if r.random() < .6: f = g.name('f'); e['f'].append((f, n)); return 'var %s = %s;' % (f, a)
            if n == 1: return 'T(%d, [1,2,%s].map(%s));' % (g.tag(), g.ex(e, 1), a)
            if n == 2: return 'T(%d, [[1,2].map(%s=>%s), 3, (%s)(%s,%s)]);' % (g.tag(), ps[0], g.ex(dict(ee, v=e['v'] + ps[:1]), 1), a, g.ex(e, 1), g.ex(e, 1))
            f = g.name('f'); e['f'].append((f, n)); return 'var %s = eval(%s);' % (f, g.text('(' + a + ')')) if e['ev'] < 3 else 'var %s = %s;' % (f, a)
        if k < .815 and not deep and e['ev'] < 3:
            kind('this in text'); o = g.name('o'); q = g.name('p'); ee = dict(v=e['v'] + [q], f=list(e['f']), ev=e['ev'] + 1, b=9, d=9)
            return 'var %s = {v:%s, m:function(%s) { %s return eval(%s); }}; T(%d,%s.m(%s)); T(%d,%s.v);' % (o, g.ex(e, 1), q, g.body(dict(g.inner(ee), ev=3), 1), g.text('%s this.v = (this.v+%s)%%7; %s' % (g.body(ee, 1), g.ex(ee, 1), g.ex(ee, 1))), g.tag(), o, g.ex(e, 1), g.tag(), o)
        if k < .83 and e['ev'] < 3:
            kind('switch in text'); return 'eval(%s);' % g.text('switch (%s) { case 0: T(%d,0); case 1: T(%d,1); break; case 2: case 3: %s break; default: %s }' % (g.ex(e, 1), g.tag(), g.tag(), g.body(dict(g.inner(e), ev=3), 1), g.body(dict(g.inner(e), ev=3), 1)))
        if k < .84: return 'if (%s > 2) { %s } else { %s }' % (g.ex(e), g.body(g.inner(e), 1), g.body(g.inner(e), 1))
        if k < .87: i = g.name('i'); ee = g.inner(e); ee['v'].append(i); g.lp += 1; t = 'for (var %s = 0; %s < %d; %s++) { %s }' % (i, i, r.randint(1, 3), i, g.body(g.inner(dict(ee, v=e['v'])), 1) + 'T(%d,%s*1);' % (g.tag(), i)); g.lp -= 1; return t
        if k < .9:
            kind('callback'); q = g.name('p'); ee = dict(g.inner(e), d=e['d'] + 1); ee['v'].append(q)
            return '[1,2].forEach(function(%s) { if (!fuel()) { return; } %s });' % (q, g.body(ee, r.randint(1, 2)))
        if k < .94:
            kind('error in text'); c = g.name('c')
            bad = r.choice(['%sthrow "t"+%s;' % (g.body(dict(g.inner(e), ev=3), 1), g.ex(dict(e, ev=3))), 'var = 1;', '1 +', 'if (', 'nofn%d(1);' % g.n, '}', '"a'])
            return 'try { eval(%s); T(%d,0); } catch(%s) { T(%d, "caught"); }' % (jstr(bad), g.tag(), c, g.tag())
        if k < .97:
            kind('closure'); c = g.name('f'); x = g.name('x'); e['f'].append((c, 1)); ee = dict(g.inner(e), ev=3)
            mk = r.choice(['(function(%s) { return function(%s) { %s = (%s+%s)%%7; return %s*1; }; })(%s)', 'eval(%s)'])
            p = g.name('p'); full = '(function(%s) { return function(%s) { %s = (%s+%s)%%7; return %s*1; }; })(%s)' % (x, p, x, x, p, x, g.ex(ee))
            return 'var %s = %s;' % (c, full if mk[0] == '(' else 'eval(%s)' % g.text(full) if e['ev'] < 3 else full)
        return 'T(%d, typeof %s);' % (g.tag(), 'nosuch' if g.lp else r.choice(['nosuch', 'x1', 'p1', 'x2', 'f3', 'p5', 'x9']))
    def program(g):
        e = dict(v=[], f=[], ev=0, b=0, d=0)
        s = 'F = 0;' + g.body(e, g.r.randint(5, 10)) + ''.join('T(%d,%s);' % (g.tag(), v) for v in e['v'])
        return layout(g.r, s, g.style)

def run(ctx):
    ctx.build(); ctx.build("plain")
    ctx.rule = 'kind of statement (inside or outside of evaluated text) per program; layouts: plain, newlines, comments, one token per line'
    ctx.assumptions = ['Node runs the shared subset as the language defines', 'errors in text are compared as caught, not by message']
    n = ctx.size(5000, 80000); cases = []
    for i in range(n):
        g = G(ctx.sub('p%d' % i)); cases.append(g.program())
        for k in g.kinds: ctx.count(k)
    vs_node(ctx, cases, PRE_J, PRE_N, size=20)
    # A long history of texts that fail to parse must leave nothing behind.
    for bad in ['function(a) { var b=1; if ( ', '(function(a) { return (function(b) { ', 'var o={m:function() { var z; ', 'f=(a,b)=>{ var q; (']:
        src = ('for (var i=0; i<%d; i++) { try { eval(%s); puts("accepted"); } catch(e) { } }\n' % (ctx.size(4500, 9000), jstr(bad))
            + 'var r = eval("(function () { var a1=1; var f=function() { var zz=1; a1++; return a1; }; return f(); })()"); puts(r, typeof a1, typeof zz);\n')
        r = ctx.js(src, variant='plain'); ctx.count('history of failing texts')
        if ctx.sanity(r, 'hist:' + bad, src, src) and (r.text.strip().split('\n')[-1:] != ['2 undefined undefined'] or 'bug:' in r.etext):
            ctx.violation('hist:' + bad, 'after many texts that fail to parse a function sees other variables: %r %r' % (r.text[-300:], [l for l in r.etext.split('\n') if 'bug:' in l][:2]), src)
