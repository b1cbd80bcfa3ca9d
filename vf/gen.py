"""Random structured programs in the subset that jsish and node share.

Every program is a body for one case: it defines functions before use, traces
through T(tag, value...) and is bounded by fuel F taken by every loop and call.
"""

PRE_COMMON = r'''
var F=0;
function T(a, b) { puts("T "+a+" "+D(b)); return b; }
'''

class Gen:
    def __init__(g, rng, exc=False, maxdepth=5, fuel=60):
        g.r = rng
        g.exc = exc
        g.maxd = maxdepth
        g.fuel = fuel
        g.nt = 0
        g.nv = 0
        g.funs = []
        g.kinds = set()
        g.shape = []

    def t(g):
        g.nt += 1
        return g.nt

    # ---- expressions: small non-negative integers
    def ex(g, env, d=2):
        r = g.r
        k = r.random()
        if d <= 0 or k < .3:
            return str(r.randint(0, 6))
        if k < .65 and env['vars']:
            return r.choice(env['vars'])
        if k < .8:
            return '((%s+%s)%%7)' % (g.ex(env, d - 1), g.ex(env, d - 1))
        if k < .87:
            return '((%s*%s)%%7)' % (g.ex(env, d - 1), g.ex(env, d - 1))
        if k < .94:
            return '(%s?%s:%s)' % (g.cond(env, d - 1), g.ex(env, d - 1), g.ex(env, d - 1))
        return 'T(%d,%s)' % (g.t(), g.ex(env, d - 1))

    def cond(g, env, d=2):
        r = g.r
        k = r.random()
        if k < .55 or d <= 0:
            return '%s %s %s' % (g.ex(env, d - 1), r.choice(['<', '>', '<=', '>=', '===', '!==', '==', '!=']), g.ex(env, d - 1))
        if k < .7:
            return '(%s) && (%s)' % (g.cond(env, d - 1), g.cond(env, d - 1))
        if k < .85:
            return '(%s) || (%s)' % (g.cond(env, d - 1), g.cond(env, d - 1))
        if k < .92:
            return '!(%s)' % g.cond(env, d - 1)
        return g.ex(env, d - 1)

    def block(g, env, d, n=None):
        """Statements in braces."""
        e = dict(env, vars=list(env['vars']))
        n = n if n is not None else g.r.choice([1, 1, 2, 2, 3])
        return '{ ' + ' '.join(g.stmt(e, d) for _ in range(n)) + ' }'

    def newvar(g, p='v'):
        g.nv += 1
        return '%s%d' % (p, g.nv)

    def loopenv(g, env, label, ctrlvars=()):
        return dict(env, loops=env['loops'] + [label], insw=False, vars=env['vars'] + list(ctrlvars))

    def stmt(g, env, d):
        r = g.r
        ch = [('trace', 4), ('assign', 3)]
        if d > 0:
            ch += [('if', 4), ('while', 2), ('do', 2), ('for', 3), ('forin', 2), ('forof', 2), ('switch', 3), ('block', .5)]
            if g.exc:
                ch += [('try', 8)]
        if env['loops'] or env['insw']:
            ch += [('break', 2.5)]
        if env['loops']:
            ch += [('continue', 2.5)]
        if env['infun'] and not env['nret']:
            ch += [('return', 1)]
        if g.exc:
            ch += [('throw', 2.5), ('engerr', .7)]
        if g.funs:
            ch += [('call', 3)]
        k = r.choices([c for c, _ in ch], [w for _, w in ch])[0]
        g.kinds.add(k)
        return getattr(g, 's_' + k)(env, d)

    def s_trace(g, env, d):
        return 'T(%d,%s);' % (g.t(), g.ex(env))

    def s_assign(g, env, d):
        r = g.r
        vs = [v for v in env['vars'] if v not in env['ro']]
        if vs and r.random() < .7:
            v = r.choice(vs)
            k = r.random()
            if k < .2:
                return '%s++; %s%%=7;' % (v, v)
            if k < .4:
                return '%s+=%s; %s%%=7;' % (v, g.ex(env), v)
            return '%s=%s;' % (v, g.ex(env))
        v = g.newvar()
        s = 'var %s=%s;' % (v, g.ex(env))
        env['vars'].append(v)
        return s

    def s_block(g, env, d):
        return g.block(env, d - 1)

    def sub(g, env, d):
        """A branch body: block or a single statement."""
        return g.block(env, d - 1)

    def s_if(g, env, d):
        r = g.r
        s = 'if (%s) %s' % (g.cond(env), g.sub(env, d))
        while r.random() < .3:
            s += ' else if (%s) %s' % (g.cond(env), g.sub(env, d))
        if r.random() < .5:
            s += ' else %s' % g.sub(env, d)
        return s

    def label(g, env):
        """labels of enclosing loops are often prefixes of one another"""
        if g.r.random() > .4: return None
        k = [x for x in ('L', 'L1', 'L12', 'L123', 'L1a', 'La', 'Lab', 'M', 'M1') if x not in env['loops']]
        return g.r.choice(k) if k else 'L%d' % (1000 + g.t())

    def lab(g, l):
        return l + ': ' if l else ''

    def s_while(g, env, d):
        l = g.label(env)
        return '%swhile (F-->0 && (%s)) %s' % (g.lab(l), g.cond(env), g.block(g.loopenv(env, l), d - 1))

    def s_do(g, env, d):
        l = g.label(env)
        return '%sdo %s while (F-->0 && (%s));' % (g.lab(l), g.block(g.loopenv(env, l), d - 1), g.cond(env))

    def s_for(g, env, d):
        r = g.r
        l = g.label(env)
        i = g.newvar('i')
        n = r.randint(0, 4)
        e = g.loopenv(env, l, [i])
        e['ro'] = e['ro'] | {i}
        k = r.random()
        env['vars'].append(i)
        env['ro'] = env['ro'] | {i}
        if k < .6:
            return '%sfor (var %s=0; %s<%d && F-->0; %s++) %s' % (g.lab(l), i, i, n, i, g.block(e, d - 1))
        if k < .8:
            return '%sfor (var %s=%d; F-->0 && %s>0; %s--) %s' % (g.lab(l), i, n, i, i, g.block(e, d - 1))
        if k < .9:
            j = g.newvar('i')
            e['ro'] = e['ro'] | {j}
            return '%sfor (var %s=0, %s=%d; %s<%s && F-->0; %s++, %s--) %s' % (g.lab(l), i, j, n + 2, i, j, i, j, g.block(e, d - 1))
        return 'var %s=0; %sfor (;;) { if (F--<=0 || %s>=%d) { break; } %s++; %s }' % (
            i, g.lab(l), i, n, i, ' '.join(g.stmt(e, d - 1) for _ in range(2)))

    def s_forin(g, env, d):
        r = g.r
        l = g.label(env)
        i = g.newvar('k')
        ks = sorted(r.sample(['a', 'b', 'c', 'd', 'e', 'ff'], r.randint(0, 4)))
        e = g.loopenv(env, l)
        b = g.block(e, d - 1)
        return '%sfor (var %s in {%s}) { F--; T(%d,%s); %s }' % (
            g.lab(l), i, ','.join('%s:%d' % (k, r.randint(0, 6)) for k in ks), g.t(), i, b)

    def s_forof(g, env, d):
        r = g.r
        l = g.label(env)
        i = g.newvar('o')
        e = g.loopenv(env, l, [i])
        e['ro'] = e['ro'] | {i}
        return '%sfor (var %s of [%s]) { F--; T(%d,%s); %s }' % (
            g.lab(l), i, ','.join(g.ex(env, 1) for _ in range(r.randint(0, 4))), g.t(), i, g.block(e, d - 1))

    def s_switch(g, env, d):
        r = g.r
        n = r.randint(0, 4)
        e = dict(env, insw=True, vars=list(env['vars']))
        strs = r.random() < .25
        labs = r.sample(range(7), min(n, 7))
        parts = []
        for x in labs:
            c = '"s%d"' % x if strs else ('T(%d,%d)' % (g.t(), x) if r.random() < .2 else str(x))
            e = dict(env, insw=True, vars=list(env['vars']))
            body = ' '.join(g.stmt(e, d - 1) for _ in range(r.choice([0, 1, 1, 2])))
            if r.random() < .5:
                body += ' break;'
            parts.append('case %s: %s' % (c, body))
        if r.random() < .6:
            e = dict(env, insw=True, vars=list(env['vars']))
            body = ' '.join(g.stmt(e, d - 1) for _ in range(r.choice([0, 1, 2])))
            if r.random() < .4:
                body += ' break;'
            parts.insert(r.choice([len(parts), r.randint(0, len(parts))]), 'default: ' + body)
        v = g.ex(env)
        if strs:
            v = '"s"+' + v
        return 'switch (%s) { %s }' % (v, ' '.join(parts))

    def s_break(g, env, d):
        r = g.r
        ls = [l for l in env['loops'] if l]
        k = 'break'
        if ls and r.random() < .5:
            k += ' ' + r.choice(ls)
        return '%sbreak%s;' % ('', k[5:]) if r.random() < .25 else 'if (%s) { %s; }' % (g.cond(env), k)

    def s_continue(g, env, d):
        r = g.r
        ls = [l for l in env['loops'] if l]
        k = 'continue'
        if ls and r.random() < .5:
            k += ' ' + r.choice(ls)
        return k + ';' if r.random() < .25 else 'if (%s) { %s; }' % (g.cond(env), k)

    def s_return(g, env, d):
        s = 'return T(%d,%s);' % (g.t(), g.ex(env))
        return s if g.r.random() < .2 else 'if (%s) { %s }' % (g.cond(env), s)

    def thrown(g, env):
        r = g.r
        k = r.random()
        if k < .5:
            return g.ex(env)
        if k < .75:
            return '"x%d"' % r.randint(0, 9)
        if k < .9:
            return '{a:%s,b:"q"}' % g.ex(env)
        return '[%s,%s]' % (g.ex(env), g.ex(env))

    def s_throw(g, env, d):
        s = 'throw %s;' % g.thrown(env)
        return s if g.r.random() < .3 else 'if (%s) { %s }' % (g.cond(env), s)

    def s_engerr(g, env, d):
        """An error the engine raises; the caught value differs by engine, so it is traced as "E" only."""
        s = g.r.choice(['null.zz;', 'nosuchfunction();', 'var zz=5; zz();', '({}).nomethod();', '"abc".nomethod();'])
        return s if g.r.random() < .3 else 'if (%s) { %s }' % (g.cond(env), s)

    def s_try(g, env, d):
        r = g.r
        k = r.random()
        env = dict(env, vars=list(env['vars']))
        hasf = k >= .5
        e = dict(env, nret=env['nret'] or hasf)
        s = 'try ' + g.block(e, d - 1)
        if k < .8:
            v = g.newvar('e')
            s += ' catch(%s) { T(%d, C(%s)); %s }' % (v, g.t(), v, ' '.join(
                g.stmt(dict(e, vars=list(e['vars'])), d - 1) for _ in range(r.choice([0, 1, 1, 2]))) +
                (' throw %s;' % v if r.random() < .15 else ''))
        if hasf:
            s += ' finally { T(%d,0); %s }' % (g.t(), ' '.join(
                g.stmt(dict(e, vars=list(e['vars'])), d - 1) for _ in range(r.choice([0, 0, 1, 2]))))
        return s

    def s_call(g, env, d):
        f, n = g.r.choice(g.funs)
        c = '%s(%s)' % (f, ','.join(g.ex(env, 1) for _ in range(n)))
        return 'T(%d,%s);' % (g.t(), c)

    def function(g):
        r = g.r
        f = 'f%d' % g.t()
        n = r.randint(0, 3)
        ps = [g.newvar('p') for _ in range(n)]
        env = dict(vars=list(ps) + ['G0', 'G1'], ro=frozenset(), loops=[], insw=False, infun=True, nret=False)
        body = ' '.join(g.stmt(env, g.maxd - 1) for _ in range(r.randint(1, 4)))
        s = 'function %s(%s) { if (F--<=0) { return 0; } %s return %s; }' % (f, ','.join(ps), body, g.ex(env))
        g.funs.append((f, n))
        return s

    def program(g):
        r = g.r
        out = ['F=%d; var G0=%d, G1=%d;' % (g.fuel, r.randint(0, 6), r.randint(0, 6))]
        for _ in range(r.randint(0, 3)):
            out.append(g.function())
        env = dict(vars=['G0', 'G1'], ro=frozenset(), loops=[], insw=False, infun=False, nret=True)
        for _ in range(r.randint(2, 5)):
            out.append(g.stmt(env, g.maxd))
        out.append('T(0,[G0,G1]);')
        return '\n'.join(out)
