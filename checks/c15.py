"""C15: histories over a tree of interpreters against a model with separate memories."""
from vf.js import *
import copy, json

PRE = r'''
function OUT(v:any) { puts("@" + JSON.stringify(v)); }
function SAFE(f:function) { try { var v = f(); if (typeof v == "undefined") puts("@undef"); else OUT(v); } catch(e) { puts("@E " + e); } }
'''
INIT = 'var v0 = null; var v1 = null; var v2 = null; var store = null; var keep = {r:1}; var calls = null; var copyv = null; var n = 0; function gs(x:any) { var o = store; store = x; return o; } function bump(k) { n += k; return n; } function up(a:any, b:any) { calls = [a, b]; if (typeof b == "object") { b.seen = 1; } if (typeof b == "array") { b.push("seen"); } return keep; } function thr(x:any) { n += 1; throw "thrown"; } 1'
VARS = ['v0', 'v1', 'v2', 'store', 'keep', 'calls', 'copyv', 'n']
STR = ['', 'x', 'a b', 'été', '漢', '😀', 'q"\'\\', '\n\t', '{"a":1}', '[1]', 'null', '12', '\x01', '%s', 'x' * 300]

def value(r, d=0):
    k = r.random()
    if d < 3 and k < .25: return [value(r, d + 1) for _ in range(r.randint(0, 4))]
    if d < 3 and k < .5: return {r.choice(['a', 'b', 'c', 'dé', 'x y', '1']): value(r, d + 1) for _ in range(r.randint(0, 4))}
    return r.choice([None, True, False, 0, 1, -7, 2.5, 1e21, r.randint(-10**9, 10**9)] + [r.choice(STR)] * 4)

class Node:
    def __init__(s, name, parent):
        s.name = name; s.parent = parent; s.kids = {}; s.alias = None; s.funcs = set(); s.protos = set(); s.conf = {}; s.gone = False
        s.v = dict(v0=None, v1=None, v2=None, store=None, keep={'r': 1}, calls=None, copyv=None, n=0); s.queue = []
    def path(s): return (s.parent.path() if s.parent else 'main') + '/' + s.name
    def dead(s): return s.gone or bool(s.parent and s.parent.dead())
    def all(s):
        yield s
        for k in list(s.kids.values()): yield from k.all()

def inn(node, code):
    """An expression of main giving the value of code run in node."""
    code = code.rstrip('; ') if not code.startswith(('n = (;', 'exit')) else code
    if not node.parent: return 'eval(%s)' % jstr(code)
    e = '%s.eval(%s)' % (node.name, jstr(code))
    return e if not node.parent.parent else inn(node.parent, e)

def block(ctx, i, n):
    r = ctx.sub('b%d' % i); root = Node('M', None); src = [PRE + INIT + ';']; exp = []; serial = [0]
    optd = dict(maxDumpArgs=50, traceOp=0, typeWarnMax=50)
    def op(code, want, what): src.append('SAFE(function() { return %s; });' % code); exp.append((want, what, code)); ctx.count('operations')
    def new(p):
        serial[0] += 1; c = Node('i%d' % serial[0], p); p.kids[c.name] = c
        src.append('var %s = null;' % c.name) if not p.parent else None
        op(inn(p, '%s = new Interp(); %s.eval(%s);' % (('' if not p.parent else 'var ') + c.name, c.name, jstr(INIT))), 1, 'create ' + c.path()); return c
    for _ in range(2): new(root)
    U = ('undef',)
    for _ in range(n):
        live = [x for x in root.all() if not x.dead()]; subs = [x for x in live if x.parent]
        N = r.choice(subs or live); P = N.parent; k = r.choice(['set', 'set', 'get', 'mutate', 'mutate', 'pull', 'pull', 'call', 'call', 'alias', 'up', 'up', 'up', 'error', 'syntax', 'func', 'proto', 'conf', 'delete', 'exit', 'new', 'new', 'async', 'update', 'value', 'uplevel', 'bump', 'thr', 'dump', 'cthr', 'pmut', 'nofn'])
        v = r.choice(['v0', 'v1', 'v2']); x = value(r); w = k + ' ' + N.path()
        where = 'child' if P and not P.parent else 'grandchild'
        if k == 'new' or not P:
            if len(live) < 7 and (not P or not P.parent): new(N if P and r.random() < .6 else root)
            continue
        if k in ('delete', 'exit') and r.random() < .6: continue
        ctx.case('%s in a %s' % (k, where))
        if k == 'set': op(inn(N, '%s = %s; 1;' % (v, jstr(x) if isinstance(x, str) else json.dumps(x))), 1, w); N.v[v] = x
        elif k == 'get': op(inn(N, v + ';'), N.v[v], w)
        elif k == 'mutate' or k == 'pmut':
            T = N if k == 'mutate' else r.choice([root, P]); o = T.v[v]
            if isinstance(o, dict): o['m'] = x; op(inn(T, '%s.m = %s; %s;' % (v, json.dumps(x), v)), o, w)
            elif isinstance(o, list): o.append(x); op(inn(T, '%s.push(%s); %s;' % (v, json.dumps(x), v)), o, w)
            else: T.v[v] = x; op(inn(T, '%s = %s; %s;' % (v, json.dumps(x), v)), x, w)
        elif k in ('pull', 'value'):
            P.v['copyv'] = copy.deepcopy(N.v[v]); e = '%s.%s' % (N.name, 'eval("%s")' % v if k == 'pull' else 'value("%s")' % v)
            c = P.v['copyv']; m = ''
            if isinstance(c, dict): c['p'] = 1; m = ' copyv.p = 1;'
            elif isinstance(c, list): c.append('p'); m = ' copyv.push("p");'
            op(inn(P, 'copyv = %s;%s copyv;' % (e, m)), c, w); op(inn(N, v + ';'), N.v[v], w + ' (original)')
        elif k == 'call':
            o = P.v[v]; old = N.v['store']; N.v['store'] = copy.deepcopy(o); P.v['copyv'] = copy.deepcopy(old)
            op(inn(P, 'copyv = %s.call("gs", [%s], true); copyv;' % (N.name, v)), old, w)
            if isinstance(o, dict): o['late'] = 2; op(inn(P, v + '.late = 2; 1;'), 1, w)
            elif isinstance(o, list): o.append('late'); op(inn(P, v + '.push("late"); 1;'), 1, w)
            if isinstance(P.v['copyv'], dict): P.v['copyv']['late'] = 3; op(inn(P, 'copyv.late = 3; 1;'), 1, w)
            op(inn(N, 'store;'), N.v['store'], w + ' (argument)')
        elif k == 'alias':
            b = value(r, 2); N.alias = [b]
            op(inn(P, '%s.alias("pup", up, [%s]); 1;' % (N.name, json.dumps(b))), 1, w)
        elif k == 'up':
            if N.alias is None: continue
            b = copy.deepcopy(x); P.v['keep'] = value(r) if r.random() < .4 else P.v['keep']; kp = P.v['keep']
            op(inn(P, 'keep = %s; 1;' % json.dumps(kp)), 1, w)
            if isinstance(b, dict): b['seen'] = 1
            elif isinstance(b, list): b.append('seen')
            P.v['calls'] = [copy.deepcopy(N.alias[0]), b]
            z = copy.deepcopy(kp); m = ''
            if isinstance(z, dict): z['z'] = 9; m = ' %s.z = 9;' % v
            elif isinstance(z, list): z.append('z'); m = ' %s.push("z");' % v
            N.v['store'] = copy.deepcopy(x); N.v[v] = z
            op(inn(N, 'store = %s; %s = pup(store);%s [%s, store];' % (json.dumps(x), v, m, v)), [z, x], w)
            op(inn(P, '[calls, keep];'), [P.v['calls'], kp], w + ' (in the parent)')
        elif k == 'error':
            N.v[v] = x; t = r.choice(['throw "boom";', 'nosuch.x;', 'nofn();', 'throw {a:1};', 'null.x;', 'JSON.parse("{");'])
            op(inn(N, '%s = %s; %s n = -1;' % (v, json.dumps(x), t)), 'E', w)
        elif k == 'syntax': op(inn(N, r.choice(['n = 5; var = 3;', 'n = (;', 'function {', 'n = "'])), 'E', w)
        elif k == 'func':
            f = 'fn%d' % r.randint(0, 3); N.funcs.add(f); op(inn(N, 'function %s() { return 4; } 1;' % f), 1, w)
            for T in live: op(inn(T, 'typeof %s;' % f), 'function' if f in T.funcs else 'undefined', w + ' seen in ' + T.path())
        elif k == 'proto':
            f = '%s.prototype.pr%d' % (r.choice(['Array', 'String', 'Number', 'Function', 'RegExp']), r.randint(0, 1)); N.protos.add(f)
            op(inn(N, '%s = function() { return 4; }; 1;' % f), 1, w)
            for T in live: op(inn(T, 'typeof %s;' % f), 'function' if f in T.protos else 'undefined', w + ' seen in ' + T.path())
        elif k == 'conf':
            o = r.choice(sorted(optd)); y = r.randint(1, 99) if o != 'traceOp' else 0; y = y or 1 if o != 'traceOp' else 0
            N.conf[o] = y
            op(inn(P, '%s.conf({%s:%d}); 1;' % (N.name, o, y)) if r.random() < .5 else inn(N, 'Interp.conf({%s:%d}); 1;' % (o, y)), 1, w)
            for T in live:
                if o in T.conf: op(inn(T, 'Interp.conf("%s");' % o), T.conf[o], w + ' seen in ' + T.path())
        elif k == 'delete':
            del P.kids[N.name]; N.gone = True
            op(inn(P, 'delete %s; 1;' % N.name), 1, w); op(inn(P, 'typeof %s;' % N.name), 'undefined', w)
        elif k == 'exit':
            del P.kids[N.name]; N.gone = True
            src.append('try { %s; } catch(e) {}' % inn(N, 'exit(%d);' % r.randint(0, 5))); op(inn(P, '%s.eval("1");' % N.name), 'E', w + ' (later use)')
        elif k == 'async':
            y = r.randint(1, 100); N.queue.append(y)
            e = '%s.eval("bump(%d);", true); 1;' % (N.name, y) if r.random() < .5 else '%s.call("bump", [%d]); 1;' % (N.name, y)
            op(inn(P, e), 1, w); op(inn(N, 'n;'), N.v['n'], w + ' (not yet run)') if False else None
        elif k == 'update':
            pass
        elif k == 'uplevel':
            N.v[v] = x; op(inn(P, '%s.uplevel(%s);' % (N.name, jstr('%s = %s; n' % (v, json.dumps(x))))), N.v['n'], w)
        elif k == 'bump': N.v['n'] += 3; op(inn(P, '%s.call("bump", [3], true);' % N.name), N.v['n'], w)
        elif k == 'thr' : N.v['n'] += 1; op(inn(P, '%s.call("thr", [%s], true);' % (N.name, json.dumps(x))), 'E', w)
        elif k == 'cthr': N.v['n'] += 1; op(inn(N, 'var c = 0; try { thr(1); } catch(e) { c = 5; } c;'), 5, w)
        elif k == 'nofn': op(inn(P, '%s.call("nofn", [1], true);' % N.name), 'E', w)
        elif k == 'dump':
            for T in live: op(inn(T, '[%s];' % ','.join(VARS)), [T.v[a] for a in VARS], w + ' seen in ' + T.path())
        # Values recorded so far must not change with the model.
        exp[-1] = (copy.deepcopy(exp[-1][0]), *exp[-1][1:])
        for j in range(len(exp) - 1, max(len(exp) - 12, -1), -1): exp[j] = (copy.deepcopy(exp[j][0]), *exp[j][1:])
        if any(q for T in live for q in T.queue):
            # Queued work runs, once, when events are processed.
            src.append('update(%d);' % 0 if r.random() < .5 else 'sleep(1); update(1);')
            for T in live:
                if T.dead(): continue
                if T.queue: T.v['n'] += sum(T.queue); T.queue = []; op(inn(T, 'n;'), T.v['n'], 'queued work of ' + T.path())
    for T in root.all():
        if not T.dead(): op(inn(T, '[%s];' % ','.join(VARS)), copy.deepcopy([T.v[a] for a in VARS]), 'end: ' + T.path())
    src.append('puts("@done");')
    code = '\n'.join(src); f = ctx.tmp + '/b%d.jsi' % i; open(f, 'w').write(code)
    res = ctx.run([f], timeout=300)
    if not ctx.sanity(res, 'run', 'history', code): return
    out = [l for l in res.text.split('\n') if l.startswith('@')]
    for j, (want, what, c) in enumerate(exp):
        got = out[j] if j < len(out) else None
        try: g = 'E' if got[:2] == '@E' else ('undef',) if got == '@undef' else json.loads(got[1:])
        except Exception: g = ('?', got)
        if g != want:
            ctx.violation(what.split()[0], '%s: %s gives %s, not %s' % (what, c[:300], str(got)[:300], json.dumps(want)[:300]), 'operation %d: %s\n%s\n\n%s\n\n%s' % (j, what, code, '\n'.join(out), res.etext[-3000:])); return
    if out[-1:] != ['@done'] or len(out) != len(exp) + 1: ctx.violation('not finished', 'rc %s %s' % (res.rc, res.etext[-300:]), code)

def run(ctx):
    ctx.build('asan')
    ctx.pmap(lambda i: block(ctx, i, 60), range(ctx.size(600, 12000)))
    ctx.rule = 'operation x child or grandchild'
    ctx.assumptions = ['values exchanged are JSON data']
