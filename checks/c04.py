"""C04: exceptions. Oracle: the event trace of the same program in node."""
from vf.js import *
from vf.gen import Gen, PRE_COMMON
import collections

PRE_J = DUMP + PRE_COMMON + '''function C(e) { if (typeof e==="string") { if (e.charAt(0)==="x") { return e; } if (e.length<3) { return "EMPTY"; } return "E"; } return e; }
'''
PRE_N = DUMP_NODE + PRE_COMMON + 'function C(e) { return e instanceof Error ? "E" : e; }\n'

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'random structured programs with try/catch/finally, thrown values and engine errors in nested calls and loops; non-trivial: distinct program whose trace has more than one event'
    ctx.assumptions = ['node executes the shared subset correctly', 'return from inside a try that has a finally is not generated: the dialect leaves without running it (tests/tryreturn.jsi)']
    cases = []
    rng = ctx.sub('p')
    kinds = collections.Counter()
    for i in range(ctx.size(4000, 60000)):
        g = Gen(rng, exc=True, maxdepth=rng.choice([2, 3, 4, 5, 6]), fuel=rng.choice([20, 60, 150]))
        cases.append(g.program())
        kinds.update(g.kinds)
    vs_node(ctx, cases, PRE_J, PRE_N)
    ctx.notes['programs_with_construct'] = dict(kinds)
    messages(ctx)

# statements that raise, through script code, native callbacks and built-ins
RAISE = ['throw "v1";', 'throw 12;', 'throw {a:1};', 'throw [1,2];', 'throw null;', 'zz.foo();', 'null_.x=1;', '"a".foo();',
         '[3,2].sort({foo:1});', '[3,2].sort({mode:"bad"});', 'File.read("/nonexistent/x");', 'JSON.parse("{");', 'new RegExp("(");', 'parseInt();', '"abc".substr();', 'eval("throw \\"ev\\";");', 'eval("1+;");',
         'format("%d","zz");', '(function(a:number) { return a; })("x");', 'Object.keys(1);', 'require("NoSuchModule");', 'source("/nonexistent.jsi");', 'Interp.conf("nosuch");', '({}).a.b.c;', 'assert(1===2);', 'var u=1*"z";', '"z"*2;']
WRAPS = ['%s', '(function() { %s })();', '[1,2].forEach(function(x) { %s });', '[2,1].sort(function(a,b) { %s });', '[1].map(function(x) { %s });', '[1].filter(function(x) { [1].some(function(y) { %s }); });',
         '"aa".replace(/a/, function(m) { %s });', 'try { %s } finally { T(0,1); }', 'try { %s } catch(ee) { throw ee; }', '[1,2].reduce(function(a,b) { %s });', 'for (var i=0; i<2; i++) { if (i) { %s } }',
         'g.call(null,function() { %s });', 'g.apply(null,[function() { %s }]);', 'g.bind(null,function() { %s })();', 'new (function() { %s })();']
PRE_M = DUMP + 'function T(t,v) { puts("t",t); return v; }\nfunction g(f) { f(); }\nfunction M(e) { return typeof e==="string"?e:D(e); }\n'

def messages(ctx):
    """What a catch receives does not depend on what was thrown and caught before."""
    rng = ctx.sub('m')
    stm = [(r, w % r) for r in RAISE for w in WRAPS]
    body = lambda s, k: 'puts("#%d"); try { %s puts("none"); } catch(e) { puts("c",M(e)); }' % (k, s)
    alone = run_cases(ctx, [body(s, 0) for _, s in stm], PRE_M, size=1, key='msg')
    norm = lambda o: re.sub(r'\.js:\d+(\.\d+)?', '.js:N', re.sub(r'\d{5}\.js', '.js', o or ''))
    base = {}
    for (r, s), o in zip(stm, alone):
        if o is None or 'none' in o or '!EXC' in o: continue
        if '\nc ' not in o:
            ctx.violation('msg:nocatch:' + s, 'the catch did not run:\n%s\n%s' % (s, o)); continue
        base[s] = norm(o)
    ctx.notes['raising_statements'] = len(base)
    keys = sorted(base)
    # a thrown value arrives unchanged through every native caller
    for r, want in (('throw "v1";', 'v1'), ('throw 12;', 'n:12'), ('throw {a:1};', '{"a"=n:1}'), ('throw [1,2];', '[n:1,n:2]')):
        for w in WRAPS:
            s = w % r
            got = base.get(s, '').split('\n')
            ctx.case('value:' + s)
            if not any(l == 'c ' + want for l in got):
                ctx.violation('value:' + s, 'thrown value did not arrive unchanged:\n%s\ngot %r' % (s, got))
    cases, exp, ks_of = [], [], {}
    for _ in range(ctx.size(400, 6000)):
        ks = [rng.choice(keys) for _ in range(rng.randint(2, 9))]
        cases.append('\n'.join(body(s, i) for i, s in enumerate(ks)))
        ks_of[cases[-1]] = ks
        exp.append(''.join(base[s].replace('#0\n', '#%d\n' % i) for i, s in enumerate(ks)))
    out = run_cases(ctx, cases, PRE_M, size=4, key='msgseq')
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        ctx.case(c, sample=dict(program=c[:400], caught=x[:300]))
        o = norm(o)
        if o != x:
            i = next((i for i in range(len(ks_of[c])) if part(o, i) != part(x, i)), 0)
            ctx.violation('msgseq:' + c, 'what a catch receives depends on earlier exceptions:\n%s\nat: %s\nalone:      %s\nin sequence: %s' % (c, ks_of[c][i], part(x, i), part(o, i)), batch_src([c], PRE_M))

def part(t, i):
    m = re.search(r'(?s)#%d\n(.*?)(?=#\d+\n|\Z)' % i, t)
    return m.group(1) if m else None
