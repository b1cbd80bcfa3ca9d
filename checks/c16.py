"""C16: programs driven just below, at and beyond each configured limit, with the exact point of the stop as oracle."""
from vf.js import *
import json, os, re

# Ways to recurse: source, levels used per step.
KINDS = {
 'call': ("function f(n) { if (n<=0) { return 0; } return f(n-1)+1; }", 1),
 'mutual': ("var g; function f(n) { if (n<=0) { return 0; } return g(n-1)+1; } g = function(n) { if (n<=0) { return 0; } return f(n-1)+1; };", 1),
 'method': ("var o={f:function(n) { if (n<=0) { return 0; } return this.f(n-1)+1; }}; function f(n) { return o.f(n); }", 1),
 'constructor': ("function K(n) { this.v = 0; if (n>0) { this.k = new K(n-1); this.v = this.k.v+1; } } function f(n) { return (new K(n)).v; }", 1),
 'eval': ("function f(n) { if (n<=0) { return 0; } return eval('f('+(n-1)+')')+1; }", 2),
 'map': ("function f(n) { if (n<=0) { return 0; } return [n-1].map(function(x,i,a) { return f(x); })[0]+1; }", 3),
 'forEach': ("function f(n) { if (n<=0) { return 0; } var q=[0]; [n-1].forEach(function(x,i,a) { q[0]=f(x); }); return q[0]+1; }", 3),
 'filter': ("function f(n) { if (n<=0) { return 0; } var q=[0]; [n-1].filter(function(x,i,a) { q[0]=f(x); return true; }); return q[0]+1; }", 3),
 'sort': ("function f(n) { if (n<=0) { return 0; } var q=0; [2,1].sort(function(x,y) { if (!q) { q = f(n-1)+1; } return x-y; }); return q; }", 3),
 'replace': ("function f(n) { if (n<=0) { return 0; } return parseFloat('a'.replace(/a/, function(s) { return ''+f(n-1); }))+1; }", 3),
 'apply': ("function f(n) { if (n<=0) { return 0; } return (function(m) { return f(m); }).apply(null,[n-1])+1; }", 2),
 'call()': ("function f(n) { if (n<=0) { return 0; } return f.call(null,n-1)+1; }", 1),
 'bind': ("function f(n) { if (n<=0) { return 0; } return f.bind(null)(n-1)+1; }", 2),
 'reduce': ("function f(n) { if (n<=0) { return 0; } return [0,n-1].reduce(function(x,y,i,a) { return f(y); },0)+1; }", 3),
 'try': ("function f(n) { if (n<=0) { return 0; } var r; try { r = f(n-1)+1; } finally { n = 0; } return r; }", 1),
 'uplevel': ("function f(n) { if (n<=0) { return 0; } return Interp.uplevel('f('+(n-1)+')')+1; }", 3),
}
BASE = "function rec(n) { if (n<=0) { return 0; } return rec(n-1)+1; } function T(x) { throw 'x'; }\n"
# Operations that end in an error or use levels: none may change how deep a later call can go.
OPS = [
 "T(1)", "rec(250)", "[3,1,2].sort(T)", "[1,2].map(function(a,b,c) { T(a); })", "[1].forEach(function(a,b,c) { rec(250); })", "'aa'.replace(/a/g, function(s) { throw 1; })", "eval('throw 3')",
 "eval('rec(250)')", "eval('syn tax')", "T.call(null,1)", "T.apply(null,[1])", "T.bind(null)(1)", "new T(1)", "(function() { try { T(1); } finally { rec(250); } })()",
 "(function() { for (var k of [1,2]) { T(k); } })()", "(function() { for (var k in {a:1}) { T(k); } })()", "undefinedfn()", "null.x", "rec(1,2,3)", "rec('x'*1)", "JSON.parse('{')", "[1,2].reduce(T)",
 "[1].filter(function(a,b,c) { T(a); })", "[1].find(function(a,b,c) { T(a); })", "Interp.uplevel('T(1)')", "Interp.uplevel('rec(250)')", "var o={}; Object.defineProperty(o,'p',{get:function() { throw 3; }}); o.p",
 "source('/nonexist')", "require('nonexist')", "import('nonexist')", "(function() { return eval('return 5'); })()", "(function f(){ switch (1) { case 1: T(1); } })()", "(new Interp()).eval('throw 1')",
 "var z=new Interp(); z.eval('function q() { throw 2; }'); z.call('q',[],true)", "new RegExp('(')", "[1,2,3].sort(function(a,b) { return rec(250); })", "File.read('/nonexist')", "var q=new Sqlite(); q.eval('bad sql')",
 "var q=new Sqlite(); q.query('select 1', {callback:function(v) { T(1); }})", "setTimeout(T,0); update(5)", "(function() { try { throw 1; } catch(e) { throw 2; } finally { throw 3; } })()", "var y = []; y.push(1); y[0].a.b",
 "printf('%d')", "throw undefined", "(function(a:number) { return a; })('x')", "quote(T(1))", "runModule('none')", "String(rec(250))", "[1].some(T)", "[1].every(T)", "clearInterval(99)", "rec(5)", "[1,2].map(function(a,b,c) { return rec(3); })",
 "var z=new Interp(); z.alias('al',function() { T(1); }); z.eval('al()')", "var z=new Interp(); z.eval('function r(n) { return r(n+1); } r(1)')", "return", "return rec(3)", "(function() { for (var k of [1,2,3]) { if (k==2) { return k; } } })()",
 "JSON.stringify({a:[1,{b:2}]})", "source('SRC/err.jsi')", "source('SRC/ok.jsi')", "source('SRC/deep.jsi')", "source(['SRC/ok.jsi','SRC/err.jsi','SRC/ok.jsi'])",
]
PRE = '''
function tryv(s:string) { try { return eval(s); } catch(e) { return 'E'; } }
'''

def inside(I, code):
    """Code running the text in interp I (None: here)."""
    return code if I is None else '%s.eval(%s)' % (I, jstr(code))

def go(ctx, what, code, args=(), rc=0, cwd=None):
    d = ctx.mkdir(); f = d + '/t.jsi'; open(f, 'w').write(code.replace('SRC/', d + '/'))
    open(d + '/ok.jsi', 'w').write('var okv = 1;\n'); open(d + '/err.jsi', 'w').write('var z = 1;\nthrow "inner";\n'); open(d + '/deep.jsi', 'w').write('source("%s/deep.jsi");\n' % d)
    open(d + '/chain.jsi', 'w').write("if (cn < clim) { cn++; source('%s/chain.jsi'); }\n" % d); open(d + '/chaina.jsi', 'w').write("if (cn < clim) { cn++; source(['%s/ok.jsi','%s/chaina.jsi']); }\n" % (d, d))
    open(d + '/InfM.jsi', 'w').write("require('InfM');\n")
    res = ctx.run([*args, f], timeout=300, cwd=d)
    if not ctx.sanity(res, 'run', what, code): return None
    if res.rc != rc: ctx.violation('rc', '%s: rc %s, not %s: %s' % (what, res.rc, rc, res.etext[-300:]), code + '\n' + res.text[-2000:]); return None
    return [l[1:] for l in res.text.split('\n') if l.startswith('@')], res

def depth(ctx, i, r):
    k = r.choice(sorted(KINDS)); src, c = KINDS[k]; d = r.choice([r.randint(20, 60), r.randint(60, 190), 200]); place = r.choice(['sub', 'sub', 'main', 'conf', 'nested', 'safe', 'default'])
    if place == 'default': d = 200
    I = None if place in ('main', 'default') else 'I'; ops = r.sample(OPS, r.randint(3, 10))
    pre = {'sub': 'var I = new Interp({maxDepth:%d});' % d, 'conf': 'var I = new Interp(); I.conf({maxDepth:%d});' % d, 'main': '', 'default': '',
           'nested': 'var J = new Interp({maxDepth:%d}); J.eval("var K = new Interp({maxDepth:%d});"); var I = {eval:function(s) { return J.eval("K.eval("+JSON.stringify(s)+")"); }};' % (r.randint(50, 190), d),
           'safe': 'var J = new Interp({isSafe:true, maxDepth:%d}); J.eval("var K = new Interp({maxDepth:%d, isSafe:true});"); var I = {eval:function(s) { return J.eval("K.eval("+JSON.stringify(s)+")"); }};' % (d, r.choice([200, 190, d + 5]))}[place]
    b = d // c; ns = sorted({x for x in [0, 1, 2, r.randint(0, b), *range(b - 7, b + 5), b * 2, b * 5, 1000] if x >= 0})
    ops = ["function() { %s; }" % o for o in ops]
    code = PRE + pre + '\n' + inside(I, BASE + src + ' 1') + ';\n'
    scan = "var R = '';\nfor (var n of %s) { var r; try { r = %s; R += r===n ? 'o' : 'W'+r; } catch(e) { R += (''+e).match(/depth/) ? 'e' : (''+e)==='' ? '?' : 'x'; } }\nputs('@'+R);\n" % (ns, 'f(n)' if I is None else "I.eval('f('+n+')')")
    code += scan
    for j, o in enumerate(ops):
        # A syntax error must not stop the program.
        code += "try { %s; for (var m=0; m<%d; m++) { try { %s; } catch(e) { } } } catch(e) { puts('@syntax', %s); }\n" % (inside(I, 'var op%d = %s; 1' % (j, o)), r.choice([3, 30, 300 // c]), inside(I, 'op%d()' % j), jstr(o))
    code += scan.replace('var ', '') + "puts('@done');\n"
    q = go(ctx, 'depth by %s, %s' % (k, place), code, ['--I', 'maxDepth:%d' % d] if place == 'main' else [])
    if not q: return
    out, res = q; ctx.case('depth: %s, %s' % (k, place)); ctx.count('depth probes', 2 * len(ns))
    if len(out) != 3 or out[2] != 'done': ctx.violation('depth', 'depth by %s: %r' % (k, out), code); return
    first = re.sub('[x?]', 'e', out[0])
    m = re.fullmatch(r'(o*)(e*)', first)
    if not m: ctx.violation('depth', 'recursion by %s with maxDepth %d (%s): depths %s give %s' % (k, d, place, ns, out[0]), code); return
    lo = ns[len(m[1]) - 1] if m[1] else -1
    if not b - 7 <= lo <= b + 1: ctx.violation('depth', 'recursion by %s with maxDepth %d (%s) works to a depth of %d (%d levels per step)' % (k, d, place, lo, c), code)
    elif out[1] != out[0] and re.sub('[x?]', 'e', out[1]) != first: ctx.violation('depth changed', 'recursion by %s with maxDepth %d (%s): first %s, after the operations %s' % (k, d, place, out[0], out[1]), code)

WORK = ["x = (x*7+k)%101;", "a.push(k); if (a.length>9) { a = []; }", "s = s+'y'; if (s.length>20) { s = ''; }", "x = F(k);", "try { if (k%3===0) { throw k; } x = k; } catch(e) { x = e; } finally { x++; }", "switch (k%4) { case 0: x++; break; case 1: x+=2; default: x+=3; }",
        "[1,2,3].forEach(function(q,w,e) { x+=q; });", "a = [5,3,k*1].sort(function(p,q) { return p-q; });", "o['k'+(k%5)] = k; for (var z in o) { x++; }", "x += eval('k*2');", "if (k%2) { x++; } else { x--; }", "for (var y=0; y<3; y++) { if (y===1) { continue; } x+=y; }",
        "s = 'abcabc'.replace(/b/g, function(m) { return 'q'; });", "x += JSON.parse(JSON.stringify([k*1,{a:2}]))[1].a;", "var t = 0; while (t<4) { t++; if (t===3) { break; } }"]
INF = ["for (;;) {}", "while (true) {}", "do { } while (1);", "while (1) { try { throw 1; } catch(e) {} }", "while (1) { try { F(1); } finally { x++; } }", "for (;;) { try { for (;;) { x++; } } catch(e) { x = 0; } finally { x = 1; } }", "while (1) { eval('x++'); }", "while (1) { a.push(1); a.pop(); }",
       "while (1) { [1,2].map(function(p,q,s) { return p; }); }", "function rr() { try { rr(); } catch(e) { rr(); } } rr();", "function ss(n) { if (n<=0) { return 0; } return ss(n-1)+ss(n-1); } ss(60);", "for (var k=0; k<10; k--) { x++; }", "[1,2,3].sort(function(p,q) { while (1) { x++; } });",
       "'aaa'.replace(/a/g, function(m) { while (1) { x++; } });", "var i1 = setInterval(function() { x++; }, 0); while (1) { update(1); }", "while (1) { switch (x) { case 1: x=0; break; default: x=1; } }", "L: while (1) { for (var k in {a:1}) { continue L; } }", "while (1) { source('SRC/ok.jsi'); }"]
WPRE = "var x=0, a=[], s='', o={}; function F(n) { return n*2; }\nfunction M() { puts('@'+Info.interp().opCnt); }\n"

def opcount(ctx, i, r):
    place = r.choice(['main', 'sub']); n = r.randint(6, 25); body = ' '.join(r.sample(WORK, r.randint(1, 4)))
    prog = WPRE + "for (var k=1; k<=%d; k++) { %s M(); }" % (n, body)
    if r.random() < .3: prog = WPRE + "function G(n) { for (var k=1; k<=n; k++) { %s M(); } return 1; }\nG(%d);" % (body, n)
    if r.random() < .3: prog = WPRE + "function G(n) { for (var k=1; k<=n; k++) { try { %s M(); } catch(e) { puts('@caught'); } finally { x++; } } return 1; }\ntry { G(%d); } catch(e) { puts('@caught'); }" % (body, n)
    def prg(N):
        if place == 'main': return PRE + prog + "\nputs('@total '+Info.interp().opCnt); puts('@end');\n"
        c = 'new Interp({maxOpCnt:%d})' % N if place == 'sub' else 'new Interp()'
        return PRE + "var I = %s, J = new Interp();\n%stry { I.eval(%s); puts('@total '+I.info().opCnt); } catch(e) { puts('@E'); }\ntry { I.eval('puts(\"@more\")'); } catch(e) { puts('@E2'); }\nputs('@sib', J.eval('var q=0; for (var w=0; w<500; w++) { q+=w; } q'));\nputs('@end');\n" % (c, '' if place == 'sub' else 'I.conf({maxOpCnt:%d});\n' % N, jstr(prog))
    A = lambda N: ['--I', 'maxOpCnt:%d' % N] if place == 'main' and N else []
    q = go(ctx, 'operation count, %s' % place, prg(0), A(0))
    if not q: return
    full = [int(l) for l in q[0] if l.isdigit()]; tot = next((int(l[6:]) for l in q[0] if l.startswith('total')), None)
    if len(full) != n or tot is None or full != sorted(full) or 'caught' in q[0]: ctx.violation('operation count', 'unlimited run, %s: %s' % (place, q[0]), prg(0)); return
    for N in [tot + 40 + r.randint(0, 100), r.randint(full[0] // 2, tot - 5), r.choice(full) + r.choice([-1, 30])]:
        if tot - 6 <= N < tot + 40: continue
        stop = N < tot; q = go(ctx, 'limit %d of %d operations, %s' % (N, tot, place), prg(N), A(N), 99 if stop and place == 'main' else 0)
        if not q: return
        out = q[0]; got = [int(l) for l in out if l.isdigit()]; ctx.case('operations: %s, %s' % (place, 'stopped' if stop else 'within')); ctx.count('operations limited', N)
        must, may = [v for v in full if v + 14 <= N or not stop], [v for v in full if v <= N or not stop]
        if not (got[:len(must)] == must and got == may[:len(got)]) or 'caught' in out: ctx.violation('operation count', 'limit %d, %s: markers at %s, of %s' % (N, place, out, full), prg(N)); return
        if place != 'main':
            if out[-1] != 'end' or 'sib 124750' not in out: ctx.violation('operation count', 'the parent did not go on: %s' % out, prg(N)); return
            if stop and 'more' in out: ctx.violation('operation count', 'the stopped interpreter went on: %s' % out, prg(N)); return
            if not stop and 'more' not in out and N > tot + 40: ctx.violation('operation count', 'an interpreter within its limit was stopped: %s' % out, prg(N)); return
        elif stop and 'end' in out: ctx.violation('operation count', 'not stopped: %s' % out, prg(N)); return
        elif not stop and 'end' not in out: ctx.violation('operation count', 'stopped: %s' % out, prg(N)); return
        if stop and 'CAP' not in q[1].text + q[1].etext and 'cap' not in q[1].etext: ctx.violation('operation count', 'the stop was not reported', prg(N)); return

def endless(ctx, i, r):
    k = i % len(INF); p = WPRE + "puts('@start');\n" + INF[k] + "\nputs('@after');\n"; N = r.randint(300, 30000); place = r.choice(['main', 'sub'])
    if place == 'main': code = p; q = go(ctx, 'endless: ' + INF[k], code, ['--I', 'maxOpCnt:%d' % N], 99)
    else: code = "var I = new Interp({maxOpCnt:%d});\ntry { I.eval(%s); } catch(e) { puts('@E'); }\nputs('@end');\n" % (N, jstr(p)); q = go(ctx, 'endless: ' + INF[k], code)
    if not q: return
    ctx.case('endless loop %d, %s' % (k, place))
    if 'after' in q[0] or q[0][:1] != ['start'] or place == 'sub' and q[0][-1] != 'end': ctx.violation('endless', '%s: %s' % (INF[k], q[0]), code)

NEW = ['new Sqlite()', 'new Interp()', 'new Socket()', "new Channel('SRC/ok.jsi')"]
def userobjs(ctx, i, r):
    N = r.randint(1, 12); place = r.choice(['sub', 'main', 'conf']); mix = r.choice([NEW, [r.choice(NEW)]]); L = [r.choice(mix) for _ in range(N + 4)]
    I = None if place == 'main' else 'I'
    code = {'sub': 'var I = new Interp({maxUserObjs:%d});\n' % N, 'conf': 'var I = new Interp(); I.conf({maxUserObjs:%d});\n' % N, 'main': ''}[place] + inside(I, 'var l=[], x; 1') + ';\n'
    for s in L:
        c = r.choice(['l.push(%s);', 'x = %s;', 'x = %s; x = null;', '(function() { var y = %s; })();', "eval('l.push(%s)');", 'var z = %s; delete z;']) % s.replace("'", '"' if 1 else '')
        if r.random() < .2: code += "try { %s; } catch(e) { }\n" % inside(I, "new Sqlite(1,2,3); 1")   # fails before it counts
        code += "try { %s; puts('@ok'); } catch(e) { puts('@E', e); }\n" % inside(I, c + ' 1')
    code += "puts('@v', %s);\nputs('@done');\n" % inside(I, '1+1')
    q = go(ctx, 'user objects, ' + place, code, ['--I', 'maxUserObjs:%d' % N] if place == 'main' else [])
    if not q: return
    ctx.case('user objects: %s, %s' % (place, 'mixed' if len(mix) > 1 else mix[0].split('(')[0])); ctx.count('user objects', len(L))
    out = [l[:2].strip() for l in q[0]]
    if out != ['ok'] * N + ['E'] * (len(L) - N) + ['v', 'do'] or 'v 2' not in q[0]: ctx.violation('user objects', 'maxUserObjs %d, %s: %s' % (N, place, q[0]), code)

def interps(ctx, i, r):
    d = r.randint(1, 9); place = r.choice(['sub', 'main', 'default']); mx = {'sub': d - 1, 'main': d, 'default': 10}[place]
    S = "function S(k) { if (k<=0) { return 0; } var j=new Interp(%s); j.eval('var SRC='+JSON.stringify(SRC)+'; 1'); j.eval(SRC+' 1'); var r = j.eval('S('+(k-1)+')'); delete j; return r+1; }" % r.choice(['', '{}', '{maxDepth:100}'])
    I = 'I' if place == 'sub' else None
    code = ('var I = new Interp({maxInterpDepth:%d});\n' % d if I else '') + inside(I, 'var SRC=%s; 1' % jstr(S)) + ';\n' + inside(I, S + ' 1') + ';\n'
    seq = [r.randint(0, mx + 2) for _ in range(10)] + [mx, mx + 1, mx]
    for k in seq: code += "try { puts('@'+%s); } catch(e) { puts('@E'); }\n" % inside(I, 'S(%d)' % k)
    q = go(ctx, 'interpreter depth, ' + place, code, ['--I', 'maxInterpDepth:%d' % d] if place == 'main' else [])
    if not q: return
    ctx.case('interpreter depth: %s %d' % (place, d)); want = [str(k) if k <= mx else 'E' for k in seq]
    if q[0] != want: ctx.violation('interpreter depth', 'maxInterpDepth %d, %s: nesting %s gives %s' % (d, place, seq, q[0]), code)

def includes(ctx, i, r):
    d = r.randint(1, 15); place = r.choice(['sub', 'main', 'conf', 'default']); d = 50 if place == 'default' else d; I = 'I' if place in ('sub', 'conf') else None; pre = {'sub': 'var I = new Interp({maxIncDepth:%d});\n' % d, 'conf': 'var I = new Interp(); I.conf({maxIncDepth:%d});\n' % d}.get(place, '')
    f = r.choice(['chain.jsi', 'chaina.jsi']); seq = [r.randint(1, d + 3) for _ in range(5)] + [d, d + 1, d]; code = pre + inside(I, 'var cn, clim; 1') + ';\n'; want = []
    bad = ["source('SRC/err.jsi')", "source('SRC/deep.jsi')", "source('SRC/none.jsi')", "source(['SRC/ok.jsi','SRC/err.jsi'])", "source('SRC/ok.jsi')", "source('SRC/ok.jsi',{bad:1})", "source(7)", "source('SRC/InfM.jsi')"]
    for k in seq:
        for _ in range(r.choice([0, 1, 10])): code += "try { %s; } catch(e) { }\n" % inside(I, r.choice(bad) + '; 1')
        n = 'ok.jsi' if k == 1 and f == 'chaina.jsi' else f
        code += "try { %s; puts('@'+%s); } catch(e) { puts('@E', e); }\n" % (inside(I, "cn = 1; clim = %d; source('SRC/%s'); 1" % (k, f)), inside(I, 'cn*1')); want.append(str(k) if k <= d else 'E')
    q = go(ctx, 'include depth, ' + place, code, ['--I', 'maxIncDepth:%d' % d] if place == 'main' else [])
    if not q: return
    ctx.case('include depth: %s %s' % (place, f)); got = ['E' if l.startswith('E') else l for l in q[0]]
    if got != want: ctx.violation('include depth', 'maxIncDepth %d, %s: nesting %s gives %s' % (d, place, seq, q[0]), code)

ARR = {
 'push': "var a=[]; for (var k=0;k<n;k++) { a.push(k); } a.length", 'index': "var a=[]; for (var k=0;k<n;k++) { a[k]=k; } a.length", 'unshift': "var a=[]; for (var k=0;k<n;k++) { a.unshift(k); } a.length",
 'push 3': "var a=[]; for (var k=0;k<n;k+=1) { if (k%3===0 && k+3<=n) { a.push(k,k,k); k+=2; } else { a.push(k); } } a.length", 'concat': "var a=[1], k; while (a.length<n) { k = n-a.length; a = a.concat(k>=a.length ? a : a.slice(0,k-1)); } a.length",
 'concat 1': "var a=[1]; while (a.length<n) { a = a.concat(7); } a.length", 'split': "('x,'.repeat(n-1)+'x').split(',').length", 'split chars': "'x'.repeat(n).split('').length", 'parse': "JSON.parse('['+'1,'.repeat(n-1)+'1]').length",
 'parse nested': "JSON.parse('{\"a\":{\"b\":['+'1,'.repeat(n-1)+'1]}}').a.b.length", 'keys': "var o={}; for (var k=0;k<n;k++) { o['k'+k]=k; } Object.keys(o).length", 'values': "var o={}; for (var k=0;k<n;k++) { o['k'+k]=k; } Object.values(o).length", 'Array': "(new Array(n)).length",
 'splice': "var a=[1]; for (var k=1;k<n;k++) { a.splice(1,0,k); } a.length", 'match': "'x'.repeat(n).match(/x/g).length", 'apply': "function F(...) { return arguments.length; } var a=[]; for (var k=0;k<n;k++) { a.push(k); } F.apply(null,a)",
 'arguments': "eval('(function(...) { return arguments.length; })('+'1,'.repeat(n-1)+'1)')", 'literal': "eval('['+'1,'.repeat(n-1)+'1].length')", 'map': "var a=[]; for (var k=0;k<n;k++) { a.push(k); } a.map(function(x,i,a) { return x; }).length",
 'query': "var db=new Sqlite(); db.query('WITH RECURSIVE t(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM t WHERE x<'+n+') SELECT x FROM t').length", 'query arrays': "var db=new Sqlite(); db.query('WITH RECURSIVE t(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM t WHERE x<'+n+') SELECT x FROM t', {mode:'arrays'}).length",
 'query 1d': "var db=new Sqlite(); db.query('WITH RECURSIVE t(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM t WHERE x<'+n+') SELECT x FROM t', {mode:'array1d'}).length",
 'stringify': "JSON.parse(JSON.stringify({a:'x'.repeat(n).split('')})).a.length",
}
def arrays(ctx, i, r):
    L = r.randint(64, 300); k = r.choice(sorted(ARR)); place = r.choice(['sub', 'conf', 'main']); I = None if place == 'main' else 'I'
    ns = sorted({1, 2, r.randint(3, L - 30), L - 30, L - 25, *[r.randint(L - 25, L) for _ in range(6)], L, L + 1, L + 7, 2 * L, 3 * L}); seq = ns + [r.choice(ns) for _ in range(8)]
    code = {'sub': 'var I = new Interp({maxArrayList:%d});\n' % L, 'conf': 'var I = new Interp(); I.conf({maxArrayList:%d});\n' % L, 'main': ''}[place]
    for n in seq: code += "try { puts('@'+%s); } catch(e) { puts('@E'); }\n" % inside(I, 'var n=%d; %s' % (n, ARR[k])) if I else "try { puts('@'+eval(%s)); } catch(e) { puts('@E'); }\n" % jstr('var n=%d; %s' % (n, ARR[k]))
    code += "puts('@done');\n"
    q = go(ctx, 'array size by %s' % k, code, ['--I', 'maxArrayList:%d' % L] if place == 'main' else [])
    if not q: return
    ctx.case('array size: %s, %s' % (k, place)); out = q[0]
    if len(out) != len(seq) + 1: ctx.violation('array size', '%s: %s' % (k, out), code); return
    res = {}
    for n, g in zip(seq, out):
        ok = g == str(n)
        if not ok and g != 'E' or ok and n > L or not ok and n <= L - 25 or res.setdefault(n, g) != g:
            ctx.violation('array size', 'maxArrayList %d (%s): an array of %d elements by %s gives %s' % (L, place, n, k, g), code); return
    b = [res[n] == 'E' for n in ns]
    if b != sorted(b): ctx.violation('array size', 'maxArrayList %d (%s), by %s: %s' % (L, place, k, res), code)

def spare(ctx, i, r):
    """Long histories on short arrays never come near the limit."""
    L = r.randint(64, 150); body = ' '.join(r.choice(["a = a.concat([]);", "a = a.concat(1); a.pop();", "a.push(k); a.shift();", "a.unshift(k); a.pop();", "a = a.slice(0);", "a.splice(1,1,k);", "a.reverse();", "a = a.map(function(x,i,q) { return x; });", "a = a.filter(function(x,i,q) { return true; });", "a.sort();",
        "a = JSON.parse(JSON.stringify(a));", "a[a.length] = 1; a.shift();", "a.fill(2);", "a = a.join(',').split(',');", "a.push(1,2,3); a.pop(); a.pop(); a.pop();", "a.splice(0,0,1,2); a.splice(0,2);"]) for _ in range(r.randint(1, 5)))
    code = "var I = new Interp({maxArrayList:%d});\nputs('@'+I.eval(%s));\n" % (L, jstr('var a=[1,2,3]; for (var k=0; k<%d; k++) { %s if (a.length>12) { a = [1,2,3]; } } 7' % (r.choice([50, 500]), body)))
    q = go(ctx, 'short arrays', code)
    if q:
        ctx.case('short arrays'); 
        if q[0] != ['7']: ctx.violation('array size', 'a short array met the limit %d: %s: %s %s' % (L, body, q[0], q[1].etext[-200:]), code)

def locks(ctx, i, r):
    """Code in a safe interpreter cannot lift the limits of that interpreter or of one it creates."""
    o, v, probe = r.choice([('maxDepth', r.randint(30, 100), None), ('maxArrayList', r.randint(64, 200), ARR['push']), ('maxInterpDepth', 3, None), ('maxUserObjs', 3, None), ('maxOpCnt', 3000, None)])
    up = {'maxDepth': 190, 'maxArrayList': 5000, 'maxInterpDepth': 9, 'maxUserObjs': 50, 'maxOpCnt': 10000000}[o]
    use = {'maxDepth': "function f(n) { if (n<=0) { return 0; } return f(n-1)+1; } f(150); puts('@beyond');", 'maxArrayList': "var n=400; %s; puts('@beyond');" % ARR['push'], 'maxInterpDepth': "var S='if (lv<6) { var j=new Interp(); j.eval(\"var lv=\"+(lv+1)+\"; var S=\"+JSON.stringify(S)+\"; 1\"); j.eval(S); } else { puts(\"@beyond\"); }'; var lv=0; eval(S);",
           'maxUserObjs': "var l=[]; for (var k=0; k<10; k++) { l.push(new Sqlite()); } puts('@beyond');", 'maxOpCnt': "for (var k=0; k<10000; k++) { k+=0; } puts('@beyond');"}[o]
    how = r.choice(['Interp.conf({%s:%d});' % (o, up), "var K = new Interp({%s:%d}); K.eval(%s);" % (o, up, jstr(use)), "var K = new Interp(); K.conf({%s:%d}); K.eval(%s);" % (o, up, jstr(use)), "var K = new Interp({isSafe:false, %s:%d}); K.eval(%s);" % (o, up, jstr(use)), "Interp.conf('%s', %d);" % (o, up), "Interp.conf({%s:0});" % o])
    code = "var J = new Interp({isSafe:true, %s:%d});\ntry { J.eval(%s); } catch(e) { }\ntry { J.eval(%s); } catch(e) { puts('@E'); }\nputs('@end');\n" % (o, v, jstr(how), jstr(use))
    q = go(ctx, 'locked ' + o, code)
    if not q: return
    ctx.case('locked %s: %s' % (o, how.split('(')[0]))
    if 'beyond' in q[0] or q[0][-1:] != ['end']: ctx.violation('locked', 'a safe interpreter lifted its %s %d by %s: %s' % (o, v, how, q[0]), code)

def bare(ctx):
    """Objects made by a constructor called without new."""
    code = "var I = new Interp({maxUserObjs:3});\nfor (var k=0; k<10; k++) { try { I.eval('Sqlite(); 1'); puts('@ok'); } catch(e) { puts('@E'); } }\n"
    q = go(ctx, 'user objects', code)
    if q and q[0].count('ok') > 4: ctx.violation('user objects without new', 'Sqlite() without new created %d objects with maxUserObjs 3' % q[0].count('ok'), code)

F = [(depth, 5), (opcount, 3), (endless, 2), (userobjs, 2), (interps, 1), (includes, 2), (arrays, 4), (spare, 1), (locks, 2)]
def run(ctx):
    ctx.build('asan')
    W = [f for f, n in F for _ in range(n)]
    def one(i):
        f = W[i % len(W)]; f(ctx, i // len(W), ctx.sub('%s %d' % (f.__name__, i)))
    ctx.pmap(one, range(ctx.size(440, 11000)))
    bare(ctx)
    ctx.rule = 'limit x way of using it up x where the limit is set'
    ctx.assumptions = ['depth limits are checked up to a few levels, array limits up to the allocation step of 16 elements, operation counts up to 14 operations']
