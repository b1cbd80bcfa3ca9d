"""C03: functions, closures, this, new, prototypes. Oracle: the event trace of the same program in node."""
from vf.js import *
from vf.gen import PRE_COMMON
import collections

POOL = ['a', 'b', 'c', 'd']

class G:
    def __init__(g, rng):
        g.r = rng; g.nt = 0; g.nf = 0; g.kinds = collections.Counter()
        g.classes = []       # (name, nparams, fields, methods{name:arity}, parent)

    def t(g):
        g.nt += 1
        return g.nt

    def ex(g, s, d=2):
        """int expression; s: scope dict(vars, funs[(name,arity)], objs[(name,cls)], this=cls or None, mks)"""
        r = g.r; k = r.random()
        if d <= 0 or k < .2: return str(r.randint(0, 9))
        if k < .5: return '(%s*1)' % r.choice(s['vars'])   # *1: a plain variable operand is read late in this dialect
        if k < .62: return '((%s+%s*2)%%97)' % (g.ex(s, d - 1), g.ex(s, d - 1))
        if k < .72 and s['funs']:
            f, n = r.choice(s['funs']); g.kinds['call'] += 1
            return g.callf(s, f, n, d)
        if k < .8 and s['objs']:
            o, c = r.choice(s['objs'])
            return g.objex(s, o, c, d)
        if k < .86 and s['this']:
            return g.objex(s, 'this', s['this'], d)
        if k < .92 and s['mks']:
            m = r.choice(s['mks']); g.kinds['counter'] += 1
            return r.choice(['%s.inc(%s)' % (m, g.ex(s, d - 1)), '%s.get()' % m])
        if k < .96:
            g.kinds['iife'] += 1
            p = r.choice(POOL)
            s2 = dict(s, vars=s['vars'] + [p], this=None)
            return '(function(%s) { %s=(%s*1+%s)%%97; return %s; })(%s)' % (p, p, p, g.ex(s2, d - 1), g.ex(s2, d - 1), g.ex(s, d - 1))
        return 'T(%d,%s)' % (g.t(), g.ex(s, d - 1))

    def args(g, s, n, d=1):
        return ','.join(g.ex(s, d - 1) for _ in range(n))

    def callf(g, s, f, n, d):
        r = g.r; k = r.random()
        if k < .6: return '%s(%s)' % (f, g.args(s, n, d))
        if k < .7:
            g.kinds['fcall'] += 1
            return '%s.call({q:%d}%s)' % (f, r.randint(0, 9), ''.join(',' + g.ex(s, d - 1) for _ in range(n)))
        if k < .8:
            g.kinds['apply'] += 1
            return '%s.apply({q:%d},[%s])' % (f, r.randint(0, 9), g.args(s, n, d))
        if k < .9:
            g.kinds['bind'] += 1
            m = r.randint(0, n)
            return '%s.bind({q:%d}%s)(%s)' % (f, r.randint(0, 9), ''.join(',' + g.ex(s, d - 1) for _ in range(m)), g.args(s, n - m, d))
        g.kinds['callback'] += 1
        return 'app%d(%s%s)' % (n, f, ''.join(',' + g.ex(s, d - 1) for _ in range(n)))

    def objex(g, s, o, c, d):
        r = g.r; k = r.random()
        name, np, fields, methods, parent = c
        fs = g.allfields(c); ms = g.allmethods(c)
        if k < .4 or not ms:
            g.kinds['field'] += 1
            return '%s.%s' % (o, r.choice(fs))
        m = r.choice(sorted(ms)); n = ms[m]
        g.kinds['method'] += 1
        if k < .85: return '%s.%s(%s)' % (o, m, g.args(s, n, d))
        if k < .92: return '%s["%s"](%s)' % (o, m, g.args(s, n, d))
        if s['objs']:
            o2 = [x for x, c2 in s['objs'] if g.isa(c2, c)]
            if o2:
                g.kinds['method_call_other_this'] += 1
                return '%s.%s.call(%s%s)' % (o, m, r.choice(o2), ''.join(',' + g.ex(s, d - 1) for _ in range(n)))
        return '%s.%s' % (o, r.choice(fs))

    def isa(g, c, p):
        while c:
            if c is p: return True
            c = c[4]
        return False

    def allfields(g, c):
        o = []
        while c:
            o += c[2]; c = c[4]
        return sorted(set(o))

    def allmethods(g, c):
        o = {}
        while c:
            for m in c[3]: o.setdefault(m, c[3][m])
            c = c[4]
        return o

    def stmt(g, s, d):
        r = g.r; k = r.random()
        if k < .25: return 'T(%d,%s);' % (g.t(), g.ex(s))
        if k < .5:
            v = r.choice(s['vars'])
            return r.choice(['%s=%s;', '%s=(%s)%%97;']) % (v, g.ex(s)) if r.random() < .7 else '%s%s=%d;' % (v, r.choice('+-*'), r.randint(0, 5))
        if k < .58 and d > 0: return 'if (%s<%s) { %s } else { %s }' % (g.ex(s), g.ex(s), g.stmt(s, 0), g.stmt(s, 0))
        if k < .64:
            g.kinds['loop'] += 1
            return 'for (var i%d=0; i%d<%d && F-->0; i%d++) { %s }' % (s['lv'], s['lv'], r.randint(1, 3), s['lv'], g.stmt(dict(s, lv=s['lv'] + 1), 0))
        if k < .72 and (s['objs'] or s['this']):
            o, c = r.choice(s['objs'] + ([('this', s['this'])] if s['this'] else []))
            g.kinds['setfield'] += 1
            f = r.choice(g.allfields(c))
            return r.choice(['%s.%s=%s;' % (o, f, g.ex(s)), '%s.%s+=%d;' % (o, f, r.randint(0, 9)), '%s.%s++;' % (o, f), '++%s.%s;' % (o, f)])
        if k < .78 and s['objs']:
            o, c = r.choice(s['objs']); g.kinds['instanceof'] += 1
            return 'T(%d,%s instanceof %s);' % (g.t(), o, r.choice(g.classes)[0])
        if k < .84 and s['funs'] and any(n == 1 for _, n in s['funs']):
            f = r.choice([f for f, n in s['funs'] if n == 1]); g.kinds['map'] += 1
            return 'T(%d,[%s].map(function(x) { return %s(x); }));' % (g.t(), g.args(s, r.randint(0, 3)), f)
        if k < .9 and s['objs']:
            # override a method on one instance / in the prototype later
            o, c = r.choice(s['objs']); ms = g.allmethods(c)
            if ms:
                m = r.choice(sorted(ms)); ps = ['p', 'q', 'w'][:ms[m]]
                s2 = dict(s, vars=s['vars'] + ps, this=c, funs=[], mks=[])
                tgt = r.choice([o, c[0] + '.prototype']); g.kinds['override'] += 1
                return '%s.%s=function(%s) { if (F--<=0) { return 0; } return %s; };' % (tgt, m, ','.join(ps), g.ex(s2, 2))
        if k < .93 and s['objs']:
            o, c = r.choice(s['objs']); ms = g.allmethods(c)
            if ms:
                m = r.choice(sorted(ms)); g.kinds['hasown'] += 1
                return 'T(%d,%s.hasOwnProperty("%s"));' % (g.t(), o, r.choice(sorted(ms) + g.allfields(c)))
        return 'T(%d,%s);' % (g.t(), g.ex(s, 3))

    def function(g, s, d, name=None, n=None, this=None, tail=None):
        """function text; nested functions see s"""
        r = g.r
        n = r.randint(0, 3) if n is None else n
        ps = r.sample(POOL, n)
        s2 = dict(s, vars=s['vars'] + ps * 2, funs=list(s['funs']), objs=list(s['objs']), mks=list(s['mks']), this=this)
        b = ['if (F--<=0) { return 0; }']
        locs = r.sample(POOL, r.randint(0, 2))
        for v in locs:
            if v not in ps:
                b.append('var %s=%s;' % (v, g.ex(dict(s2, vars=s['vars'] if False else [x for x in s2['vars'] if x not in locs] or ['1']), 1)))
        s2['vars'] = s2['vars'] + locs * 2
        if d > 0:
            for _ in range(r.choice([0, 1, 1, 2])):
                b.append(g.decl(s2, d - 1))
        for _ in range(r.randint(0, 3)):
            b.append(g.stmt(s2, 1))
        if n and r.random() < .15:
            g.kinds['arguments'] += 1
            b.append('T(%d,arguments.length);' % g.t())
            b.append('T(%d,arguments[%d]);' % (g.t(), r.randint(0, n - 1)))
        b.append(tail(s2) if tail else 'return (%s)%%97;' % g.ex(s2, 3))
        return 'function%s(%s) { %s }' % (' ' + name if name else '', ','.join(ps), ' '.join(b)), n

    def decl(g, s, d):
        """A declaration usable afterwards in scope s."""
        r = g.r; k = r.random()
        g.nf += 1; i = g.nf
        if k < .4:
            t, n = g.function(s, d, 'f%d' % i)
            s['funs'].append(('f%d' % i, n)); g.kinds['fundecl'] += 1
            return t + ''
        if k < .55:
            t, n = g.function(s, d)
            s['funs'].append(('f%d' % i, n)); g.kinds['funexpr'] += 1
            return 'var f%d=%s;' % (i, t)
        if k < .7:
            # function returning a closure
            m = r.randint(0, 2); g.kinds['returned_closure'] += 1
            def tail(s2):
                return 'return %s;' % g.function(s2, 0, None, m)[0]
            t, n = g.function(s, 0, None, None, None, tail)
            t = t.replace('if (F--<=0) { return 0; }', '', 1)
            t = 'var k%d=%s; var f%d=k%d(%s);' % (i, t, i, i, g.args(s, n, 2))
            s['funs'].append(('f%d' % i, m))
            return t
        if k < .85:
            # counter object sharing a closure
            g.kinds['counter_made'] += 1
            def tail(s2):
                v = r.choice(s2['vars'])
                return 'return {inc:function(x) { %s=(%s+x)%%97; return %s; }, get:function() { return %s; }};' % (v, v, g.ex(dict(s2, vars=s2['vars'] + ['x'], funs=[], objs=[], mks=[], this=None), 1), v)
            t, n = g.function(s, 0, None, None, None, tail)
            t = t.replace('if (F--<=0) { return 0; }', '', 1)
            a, b = 'm%da' % i, 'm%db' % i
            o = 'var k%d=%s; var %s=k%d(%s);' % (i, t, a, i, g.args(s, n, 2))
            s['mks'].append(a)
            if r.random() < .6:
                o += ' var %s=k%d(%s);' % (b, i, g.args(s, n, 2)); s['mks'].append(b)
            return o
        if k < .92:
            # recursion
            g.kinds['recursion'] += 1
            s2 = dict(s, vars=s['vars'] + ['n', 'z'], funs=[], this=None)
            t = 'function f%d(n) { if (n<=0 || F--<=0) { return %s; } var z=n; var y=f%d(n-%d); %s return (%s+y+z)%%97; }' % (
                i, g.ex(dict(s2, vars=s['vars'] + ['n']), 1), i, r.choice([1, 1, 2]), g.stmt(dict(s2, vars=['n', 'z', 'y']), 0), g.ex(s2, 1))
            s['funs'].append(('f%d' % i, 1))
            return t
        if g.classes:
            c = r.choice(g.classes)
            g.kinds['new'] += 1
            t = 'var o%d=new %s(%s);' % (i, c[0], g.args(s, c[1], 2))
            s['objs'].append(('o%d' % i, c))
            return t
        return ''

    def cls(g, s):
        r = g.r
        g.nf += 1
        name = 'K%d' % g.nf
        parent = r.choice(g.classes) if g.classes and r.random() < .6 else None
        n = r.randint(0, 2)
        ps = ['p', 'q'][:n]
        sp = dict(s, vars=s['vars'] + ps, this=None)
        fields = r.sample(['x', 'y', 'z', 'v'], r.randint(1, 3))
        b = []
        if parent:
            b.append('%s.call(this%s);' % (parent[0], ''.join(',' + g.ex(sp, 1) for _ in range(parent[1]))))
        for f in fields:
            if r.random() < .85 or not parent:
                b.append('this.%s=%s;' % (f, g.ex(sp, 1)))
        out = ['function %s(%s) { %s }' % (name, ','.join(ps), ' '.join(b))]
        methods = {}
        c = (name, n, fields, methods, parent)
        protof = []
        if parent: out.append('Object.setPrototypeOf(%s.prototype,%s.prototype);' % (name, parent[0]))
        for f in fields: out.append('%s.prototype.%s=%d;' % (name, f, r.randint(0, 9))); protof.append(f)
        for m in r.sample(['m1', 'm2', 'm3'], r.randint(1, 3)):
            am = g.allmethods(c)
            ar = am.get(m, r.randint(0, 2))
            t, ar = g.function(dict(s, funs=list(s['funs']), objs=list(s['objs']), mks=list(s['mks'])), 1, None, ar, c)
            out.append('%s.prototype.%s=%s;' % (name, m, t))
            methods[m] = ar
        g.classes.append(c)
        return ' '.join(out)

    def program(g):
        r = g.r
        s = dict(vars=list(POOL), funs=[], objs=[], mks=[], this=None, lv=1)
        out = ['F=%d; var a=%d,b=%d,c=%d,d=%d;' % tuple([r.choice([30, 60])] + [r.randint(0, 9) for _ in range(4)]),
               'function app0(f) { return f(); } function app1(f,a) { return f(a); } function app2(f,a,b) { return f(a,b); } function app3(f,a,b,c) { return f(a,b,c); }']
        for _ in range(r.randint(0, 3)): out.append(g.decl(s, 2))
        for _ in range(r.choice([0, 1, 2, 3])): out.append(g.cls(s))
        for _ in range(r.randint(1, 6)):
            out.append(g.decl(s, 2))
            for _ in range(r.randint(0, 3)): out.append(g.stmt(s, 1))
        for _ in range(r.randint(1, 4)): out.append(g.stmt(s, 1))
        out.append('T(0,[a,b,c,d]);')
        for o, c in s['objs']:
            out.append('T(1,[%s]);' % ','.join('%s.%s' % (o, f) for f in g.allfields(c)))
        for m in s['mks']: out.append('T(2,%s.get());' % m)
        return '\n'.join(out)

FIXED = ['''var p={f:1}, q=Object.create(p); q["f"]++; T(1,q.f); T(2,p.f); p.f=9; T(3,q.f);''',
         '''var p={f:1}, q=Object.create(p), r=Object.create(q); T(1,r.f); q.f=4; T(2,r.f); delete q.f; T(3,r.f); p.m=function(){ return this.z; }; r.z=7; T(4,r.m());''',
         '''function A(){ this.v=1; return {v:2}; } T(1,(new A()).v); function B(){ this.v=1; return 5; } T(2,(new B()).v);''',
         '''function A(x){ if (x>0) { this.c=new A(x-1); } this.x=x; } var a=new A(3); T(1,a.c.c.c.x);''',
         '''function f(a,b=5){ return a+b; } T(1,f(1)); T(2,f(1,2));''',
         '''var f=x=>x+1; T(1,f(2)); T(2,[1,2].map(x=>x*2));''',
         '''var o={n:0, add:function(x){ this.n+=x; return this; }}; T(1,o.add(1).add(2).add(3).n);''',
         '''T(1,[1,2,3].map(function(x){ return this.k*x; },{k:2}));''',
         '''function ev(n){ return n===0?true:od(n-1); } function od(n){ return n===0?false:ev(n-1); } T(1,ev(60)); T(2,ev(57));''']

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'random programs over nested functions, closures with shared and shadowed variables, recursion, call/apply/bind, constructors, prototype chains and overrides; non-trivial: distinct program whose trace has more than one event'
    ctx.assumptions = ['node executes the shared subset correctly']
    cases = list(FIXED)
    rng = ctx.sub('p')
    kinds = collections.Counter()
    for i in range(ctx.size(4000, 60000)):
        g = G(rng)
        cases.append(g.program())
        kinds.update(g.kinds)
    vs_node(ctx, cases, DUMP + PRE_COMMON, DUMP_NODE + PRE_COMMON)
    ctx.notes['constructs'] = dict(kinds)
