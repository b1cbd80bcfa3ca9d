"""C30: the file, the line and the exit status of programs with one planted error, exit or nothing at all."""
from vf.js import *
import os, re

class G:
    # lines of a file are (text, mark); mark: part of the failing statement
    def __init__(g, rng, ctx, fault, d):
        g.r = rng; g.n = 0; g.fault = fault; g.d = d; g.files = {}; g.kinds = set(); g.badfile = None
    def id(g, p='v'): g.n += 1; return '%s%d' % (p, g.n)
    def t(g):
        k = g.id('t'); return 'puts("%s");' % k, [k]
    # -- statements which do nothing to the outcome
    def noise(g, depth=0):
        """(lines, trace)"""
        r = g.r; v = g.id(); k = r.randint(0, 21)
        if k == 0: return [''] * r.randint(1, 3), []
        if k == 1: return ['// note %s } ) "' % v], []
        if k == 2: return ['/* one', ' two * / "', '', '   three */'][:1] + [' x'] * r.randint(0, 4) + ['end **/'], []
        if k == 3: return ['var %s = [' % v, '  1,', '  2', '];'], []
        if k == 4: return ['var %s = {' % v, '  a:1,', '', '  b:"x\\n\\n",', '  c:[1,', '2]', '};'], []
        if k == 5: return ['function %s(a, b) {' % v, '  var q = a;', '', '  return q', '    + b;', '}'], []
        if k == 6: l, t = g.t(); return [l], t
        if k == 7: l, t = g.t(); return ['if (1 <', '  2) {', '  ' + l, '}'], t
        if k == 8: l, t = g.t(); return ['for (var %s=0; %s<2; %s++) {' % (v, v, v), l, '}'], t * 2
        if k == 9: l, t = g.t(); return ['function %s(x) {' % v, l, '  return x', ';', '}', 'var %sr = %s(' % (v, v), '  3);'], t
        if k == 10: l, t = g.t(); return ['try {', '  throw "in";', '} catch(e) {', l, '}'], t
        if k == 11: return ['var %s = "abc".replace(/[b]/, "x")' % v, '  .toUpperCase()', '  .substr(0, 2);'], []
        if k == 12: l, t = g.t(); return ['switch (1 +', '1) {', 'case 2:', l, 'break;', 'default: puts("no");', '}'], t
        if k == 13: return ['var %s = 1 +' % v, '2 *', '3', '- (4', ');'], []
        if k == 14: return ['var %s = "a\\' % v, 'b";'], []
        if k == 15: l, t = g.t(); return [l + ' ' + '/* c */ ' + '// d'], t
        if k == 16: return ['var %s = (1 == 1 ?' % v, ' "a" :', ' "b"', ' );'], []
        if k == 17: return [';;', '{', '}', ';'], []
        if k == 18: return ['var %s = function (a)' % v, '{', '  return a;}', ';'], []
        if k == 19: a, t1 = g.t(); b, t2 = g.t(); return [a + b], t1 + t2
        if k == 20: return ['var %s = `x' % v, 'y', 'z`;'] if TPL else ['var %s=[];' % v], []
        return ['\tvar %s = [[1,2],[3,[4]]][1]' % v, '\t[1]', '\t[0];'], []
    def noises(g, hi):
        L, T = [], []
        for _ in range(g.r.randint(0, hi)):
            l, t = g.noise(); L += l; T += t
        return [(x, 0) for x in L], T
    # -- the fault
    def bad(g):
        r = g.r; v = g.id()
        if g.fault[0] == 'exit':
            a = g.fault[1]; s = 'exit(%s);' % a if r.random() < .8 else ['exit(', a, ');']
            return [(x, 1) for x in ([s] if isinstance(s, str) else list(s))]
        if g.fault[0] == 'syntax':
            s = r.choice(['var = 3;', 'var %s = ;' % v, 'if (;', 'puts(1,;', '%s = = 2;' % v, 'var %s = [1,2;' % v, 'var %s = {a:};' % v, 'foo bar;', 'var %s = (1;' % v, ') ;',
                          'for (var i of) { }', 'while () { }', 'var %s = 1 2;' % v, '%s + * 3;' % v, 'catch(e) { }', 'function (a { }', 'return return 1;', '];', 'x =>> 1;', 'var %s = "a" "b";' % v])
            g.kinds.add('syntax ' + s.replace(v, 'v')); return [(s, 1)]
        pre, S = r.choice(ERRS)
        g.kinds.add(S[0])
        out = [(x.replace('V', v), 0) for x in pre]
        lead = [] 
        if len(S) == 1 and r.random() < .25: lead = ['/* c', '*/ ']; return out + [(lead[0], 0), (lead[1] + S[0].replace('V', v), 1)]
        if len(S) == 1 and r.random() < .2: return out + [('var %sz = 1; ' % v + S[0].replace('V', v) + ' var %sy = 2;' % v, 1)]
        return out + [(x.replace('V', v), 1) for x in S]
    def gen(g, depth):
        """(lines, trace up to the fault)"""
        r = g.r; A, TA = g.noises(4); B, TB = g.noises(3)
        if depth == 0: mid, T = g.bad(), []
        else: mid, T = g.wrap(depth)
        return A + mid + B, TA + T
    def wrap(g, depth):
        r = g.r; v = g.id('w')
        K = ['if', 'else', 'block', 'for', 'while', 'do', 'switch', 'forin']
        if g.fault[0] != 'syntax': K += ['func', 'func', 'method', 'new', 'foreach', 'map', 'sort', 'arrow', 'call', 'apply', 'replace', 'catch', 'trycatchin', 'source', 'source', 'require', 'nested', 'closure', 'evalcall', 'funcexpr', 'label']
        else: K += ['funcdef', 'source', 'source', 'funcdef']
        k = r.choice(K); g.kinds.add('in ' + k)
        I, TI = g.gen(depth - 1)
        M, TM = g.noises(2)
        W = lambda head, tail, times=0: ([(h, 0) for h in head] + I + [(x, 0) for x in tail], TI)
        if k == 'if': return W(r.choice([['if (true) {'], ['if (1) {', ''], ['if (1', '&& true)', '{']]), ['}'])
        if k == 'else': return W(['if (false) { puts("no");', '} else {'], ['}'])
        if k == 'block': return W(['{'], ['}'])
        if k == 'for': return W(['for (var %s=0;' % v, '%s<3;' % v, '%s++) {' % v, 'if (%s==0) continue;' % v], ['}'])
        if k == 'while': return W(['var %s = 0;' % v, 'while (%s<3) {' % v, '%s++;' % v], ['}'])
        if k == 'do': return W(['do {'], ['} while (false);'])
        if k == 'switch': return W(['switch (3) {', 'case 2: puts("no");', 'break;', 'case 3:'], ['break;', '}'])
        if k == 'forin': return W(['for (var %s in {a:1}) {' % v], ['}'])
        if k == 'label': return W(['%s: for (var %si=0; %si<2; %si++) {' % (v, v, v, v)], ['continue %s;' % v, '}'])
        if k == 'catch':   # what leaves a handler may be reported at the try statement
            return [(x, 2) for x in ('try {', '  throw "first";', '} catch(e) {')] + [(x, m or 2) for x, m in I] + [('}', 2)], TI
        if k == 'trycatchin': return W(['try {', '  puts("x%s");' % v, '} catch(e) {', 'puts("no");', '}'], []) [0], ['x' + v] + TI
        if k == 'funcdef': return W(['function %s(a,' % v, 'b) {'], ['}'] + ([] if any(m for x, m in I) else ['%s(1,2);' % v]))
        if k in ('source', 'require'):
            f = v + '.jsi'; g.files[f] = I
            if g.fault[0] == 'syntax' and any(m for x, m in I): TI = []
            return [("source('%s/%s');" % (g.d, f), 0)], TI
        call = None
        if k == 'func': h, t, call = ['function %s(a, b) {' % v], ['return 1;', '}'], ['%s(1, 2);' % v] if r.random() < .6 else ['var %sr =' % v, '  %s(1,' % v, '2) + 1;']
        if k == 'funcexpr': h, t, call = ['var %s = function(a)' % v, '{'], ['};'], ['%s("x");' % v]
        if k == 'method': h, t, call = ['var %s = { m:1,' % v, 'f:function(a) {'], ['}, z:3 };'], ['%s.f(1);' % v]
        if k == 'new': h, t, call = ['function %s(a) {' % v, 'this.a = a;'], ['}'], ['var %sn = new %s(4);' % (v, v)]
        if k == 'foreach': h, t, call = ['[5,6].forEach(function(x) {'], ['});'], []
        if k == 'map': h, t, call = ['var %s = [5,' % v, '6].map(function(x) {'], ['return x; });'], []
        if k == 'sort': h, t, call = ['[3,1,2].sort(function(x, y) {'], ['return 0;', '});'], []
        if k == 'replace': h, t, call = ['"abc".replace(/b/, function(m) {'], ['return m;', '});'], []
        if k == 'arrow': h, t, call = ['var %s = x => {' % v], ['};'], ['%s(1);' % v]
        if k == 'call': h, t, call = ['function %s(a) {' % v], ['}'], ['%s.call(null,' % v, '1);']
        if k == 'apply': h, t, call = ['function %s(a) {' % v], ['}'], ['%s.apply(null, [1]);' % v]
        if k == 'nested': h, t, call = ['function %s() {' % v, 'function %sb() {' % v], ['}', '%sb();' % v, '}'], ['%s();' % v]
        if k == 'closure': h, t, call = ['function %s(a) {' % v, 'return function() {', 'var %sq = a;' % v], ['};', '}'], ['%s(2)();' % v]
        if k == 'evalcall': h, t, call = ['function %s(a) {' % v], ['}'], ['eval("%s(1)");' % v]
        return [(x, 0) for x in h] + I + [(x, 0) for x in t] + (M if call else []) + [(x, 0) for x in call], (TM if call else []) + TI

TPL = False
ERRS = [  # (setup, failing statement)
    ([], ['throw "boom";']), ([], ['throw 42;']), ([], ['throw {a:1};']), ([], ['throw [1];']), ([], ['throw', '"boom"', ';']),
    ([], ['nofunV();']), ([], ['nofunV(', ' 1,', ' 2', ');']), ([], ['var xV = 1 + nofunV(2);']),
    (['var V = {};'], ['V.a.b(1);']), (['var V = {};'], ['V.nomethod();']), (['var V = [];'], ['V', '.nomethod(1);']),
    ([], ['JSON.parse("{");']), ([], ['JSON.parse(', '"[1,");']), (['var V = "x";'], ['Math.abs(V);']), (['var V = "x";'], ['Math.pow(V, 2);']),
    ([], ['new Channel("/nonexistent/x", "r");']), ([], ['File.read("/nonexistent/x");']), ([], ['"abc".repeat(-1);']),
    (['var V = {};'], ['var yV = V.u + 1;']), (['var V = {};'], ['var yV = [1,', '2,', 'V.u', '+ 3];']), (['var V = 3;'], ['V();']), ([], ['Info.nosub();']),
    ([], ['source("/nonexistent/f.jsi");']), (['var V = {a:1};', 'Object.freeze(V,true,false);'], ['V.a = 2;']),
    ([], ['"abc".match("(");']), ([], ['System.exec("exit 3");']), (['function V(a) { return a; }'], ['V(undefVarV);']),
]

def norm(L): return [x for x, m in L]

def case(ctx, i, quick):
    r = ctx.sub('p%d' % i); d = os.path.join(ctx.tmp, 'p%d' % i); os.makedirs(d)
    k = r.choice(['error'] * 6 + ['syntax'] * 2 + ['exit'] * 3 + ['none'] + ['caught'])
    fault = {'error': ('error',), 'syntax': ('syntax',), 'none': ('none',), 'caught': ('error',)}.get(k)
    want = None
    if k == 'exit':
        n = r.choice([0, 1, 2, 3, 5, 42, 126, 127, r.randint(0, 127)]); want = n
        e = r.choice([str(n), '%d+0' % n, 'Number("%d")' % n, 'parseInt("%d")' % n])
        if n == 0 and r.random() < .5: e = ''
        fault = ('exit', e)
    g = G(r, ctx, fault, d)
    if k == 'none':
        A, T = g.noises(30 if not quick else 15); L = A
    elif k == 'caught':
        I, TI = g.gen(r.randint(0, 3)); c, tc = g.t(); B, TB = g.noises(4)
        L = [('try {', 0)] + I + [('} catch(e) {', 0), (c, 0), ('puts("@" + Info.error().line + ":" + Info.error().file);', 0), ('}', 0)] + B; T = TI + tc + ['@'] + TB
    else:
        L, T = g.gen(r.randint(0, 5))
    if r.random() < .15: L = [('#!/usr/bin/env jsish', 0)] + L
    eol = '\r\n' if r.random() < .1 and not any(x.endswith('\\') for l in [L] + list(g.files.values()) for x, m in l) else '\n'
    if k == 'syntax' and any(m for x, m in L): T = []   # the file with the error prints nothing
    files = dict(g.files); files['main.jsi'] = L
    for f, l in files.items():
        with open(os.path.join(d, f), 'wb') as fp: fp.write((eol.join(norm(l)) + eol).encode())
    bad = [(os.path.join(d, f), [j + 1 for j, (x, m) in enumerate(l) if m == 1]) for f, l in files.items() if any(m == 1 for x, m in l)]
    main = os.path.join(d, 'main.jsi')
    res = ctx.run([main], cwd=d)
    txt = '\n'.join('==== %s\n%s' % (f, '\n'.join('%3d%s %s' % (j + 1, '*' if m else ' ', x) for j, (x, m) in enumerate(l))) for f, l in files.items())
    show = lambda: txt + '\n==== stdout\n%s\n==== stderr\n%s\n==== rc %s' % (res.text, res.etext, res.rc)
    kk = sorted(g.kinds)
    for q in kk: ctx.case('%s: %s' % (k, q))
    ctx.case(k)
    if not ctx.sanity(res, 'crash', txt, show()): return
    out = res.text.split()
    info = [x for x in out if x.startswith('@')] if k == 'caught' else []
    if info: out = [x[:1] if x in info else x for x in out]
    def bads(key, msg): ctx.violation(key, msg + ' [%s]' % ', '.join(kk), show())
    ctx.count('programs'); ctx.count('lines', sum(len(l) for l in files.values()))
    if k in ('none', 'caught', 'exit'):
        if out != T: return bads('trace ' + k, 'stdout %s, expected %s' % (out[-5:], T[-5:]))
        if res.etext.strip(): bads('stderr ' + k, 'standard error is not empty: %r' % res.etext[:200])
        w = want if k == 'exit' else 0
        if res.rc != w: bads('status ' + k, 'exit status %s, expected %s' % (res.rc, w))
        ctx.count('statuses checked')
        if k == 'caught' and not any('throw' in q for q in kk + ['throw'] * any(m == 2 for l in files.values() for x, m in l)):
            l, f = info[0][1:].split(':', 1); ctx.count('positions given by Info.error()')
            if f != bad[0][0] or int(l) not in bad[0][1]: bads('Info.error', 'Info.error() gives %s:%s, expected %s:%s' % (f, l, bad[0][0], bad[0][1]))
        return
    if out != T: return bads('trace ' + k, 'stdout %s, expected %s' % (out[-5:], T[-5:]))
    if res.rc == 0: bads('status 0 ' + k, 'exit status 0 after an uncaught error')
    pos = [m for m in re.finditer(r'^(/\S*?):(\d+): (error|parse|ERROR|PARSE|fatal)\b', res.etext, re.M)]
    if not pos: return bads('no position ' + k, 'no file and line reported: %r' % res.etext[:300])
    f, lines = bad[0]; within = {(os.path.join(d, ff), j + 1) for ff, l in files.items() for j, (x, m) in enumerate(l) if m == 2}; multi = len([1 for x, m in files[os.path.basename(f)] if m == 1]) > 1; ok = lambda m: m.group(1) == f and int(m.group(2)) in lines or (m.group(1), int(m.group(2))) in within
    p = pos[0]
    ctx.count('positions checked')
    if multi: ctx.count('positions in multi-line statements')
    if f != main: ctx.count('positions in sourced files')
    if not ok(p): bads('position ' + k, 'reported %s:%s, expected %s:%s' % (os.path.basename(p.group(1)), p.group(2), os.path.basename(f), lines))

def run(ctx):
    ctx.build('asan')
    n = ctx.size(2000, 30000)
    ctx.pmap(lambda i: case(ctx, i, n < 5000), range(n))
    ctx.rule = 'kind of program (uncaught error, syntax error, exit, caught error, no error) x failing statement x construct around it'
    ctx.assumptions = ['what leaves a catch handler may be reported at its try statement', 'errors in event callbacks are reported without ending the program and are not generated']
