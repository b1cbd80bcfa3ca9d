"""C28: histories of constructor options and conf() calls on interpreters, databases and sockets against a model of the option tables."""
from vf.js import *
import json, os

B = lambda s: {n: 'bool' for n in s.split()}
I = lambda s: {n: 'int' for n in s.split()}
U = lambda s: {n: 'uint' for n in s.split()}
K = lambda s: {n: 'str' for n in s.split()}
LOG = ['bug', 'assert', 'debug', 'trace', 'test', 'info', 'warn', 'error', 'parse']
T = {
 'interp': {**B('asserts coverage noAutoLoad noCheck noES6 noInput noLoad noNetwork noStderr noSubInterps profile tracePuts'),
   'maxDepth': 'depth', **I('busyInterval lockTimeout maxIncDepth maxInterpDepth maxUserObjs traceOp typeWarnMax'), **U('maxDumpStack maxDumpArgs'),
   **K('historyFile name'), 'autoFiles': 'array', 'pkgDirs': 'array', 'udata': 'obj', 'assertMode': ['log', 'puts', 'throw'],
   'log': ('bits', LOG), 'traceCall': ('bits', ['funcs', 'cmds', 'new', 'return', 'args', 'notrunc', 'noparent', 'full', 'before']), 'typeCheck': ('bits', ['noreturn', 'noundef', 'nowith', 'builtins', 'funcdecl']),
   'logOpts': {**B('before date file ftail full func isUTC time'), **K('timeFmt')}, 'debugOpts': {**B('doContinue forceBreak includeOnce includeTrace pkgTrace'), **I('minLevel')},
   'subOpts': {**B('logAllowDups logColNums noReadline noproto outUndef traceAccess'), **I('dblPrec'), **K('prompt prompt2')}},
 'sqlite': {**B('echo forceInt noJsonConv'), **I('maxRegexCache timeout'), **U('progressSteps'), 'stmtCacheMax': 'cache', 'debug': ('bits', ['eval', 'delete', 'prepare', 'step']), 'udata': 'obj',
   'onCommit': ('func', ['userobj']), 'onBusy': ('func', ['userobj', 'number']), 'onUpdate': ('func', ['userobj', 'string', 'string', 'string', 'number']), 'onNeedCollate': ('func', ['userobj', 'string']), 'onTrace': ('func', ['userobj', 'string']),
   'queryOpts': {**B('echo headers mapundef nocache retChanged'), **I('limit'), **K('cdata nullvalue separator table'), 'values': 'array', 'callback': ('func', ['object']),
       'mode': ['rows', 'arrays', 'array1d', 'list', 'column', 'json', 'json2', 'html', 'csv', 'insert', 'line', 'tabs', 'none'], 'typeCheck': ['convert', 'warn', 'error', 'disable'],
       'obj': {**B('defaultNull getSql noChecks noDefaults noTypes'), **K('name'), 'skip': 'array'}}},
 'socket': {**B('echo noUpdate'), **I('debug maxConnects'), 'udata': 'obj', 'onClose': ('func', ['userobj|null', 'number']), 'onCloseLast': ('func', ['userobj|null']), 'onOpen': ('func', ['userobj', 'object']), 'onRecv': ('func', ['userobj', 'number', 'string'])},
}
INIT = {  # may be given to the constructor only
 'interp': {'args': 'array', 'noEval': 'bool', 'noConfig': 'bool', 'maxOpCnt': 'big', 'interactive': 'bool', 'isSafe': 'bool', 'safeReadDirs': 'array', 'safeExecPattern': 'str', 'confFile': None, 'noError': None, 'hasOpenSSL': None, 'lockDown': None, 'memLeakCnt': None, 'onExit': None, 'safeMode': None, 'safeWriteDirs': None, 'scriptStr': None, 'subthread': None},
 'sqlite': {'bindWarn': 'bool', 'mutex': ['default', 'none', 'full'], 'noConfig': 'bool', 'noCreate': None, 'readonly': None, 'name': 'dstr', 'vfs': None},
 'socket': {'keepalive': 'bool', 'noConfig': 'bool', 'noAsync': 'bool', 'quiet': 'bool', 'timeout': 'num', 'recvTimeout': None, 'port': None, 'address': None, 'broadcast': 'bool', 'client': None, 'interface': None, 'mcastAddMember': None, 'mcastInterface': None, 'mcastNoLoop': None, 'mcastTtl': None, 'sendTimeout': None, 'srcAddress': None, 'srcPort': None, 'tos': None, 'ttl': None, 'udp': None},
}
RO = {'interp': ['retValue'], 'sqlite': ['errCnt', 'sortCnt', 'stepCnt', 'stmtCacheCnt', 'version'], 'socket': ['connectCnt', 'createLast', 'startTime', 'stats']}
LOCK = 'historyFile maxDepth maxDumpStack maxDumpArgs maxArrayList maxIncDepth maxInterpDepth maxUserObjs noAutoLoad noCheck noError noInput noLoad noNetwork noStderr noSubInterps'.split()
MORE = {'interp': 'busyCallback jsppCallback jsppChars memDebug onComplete onEval testMode stdinStr stdoutStr maxArrayList scriptFile'.split(), 'sqlite': 'changeCnt changeCntAll errorCode lastInsertId load onAuth onProfile onProgress onRollback onWalHook'.split(), 'socket': []}
MAKE = {'interp': 'new Interp(%s)', 'sqlite': 'new Sqlite(":memory:"%s)', 'socket': 'new Socket(%s)'}
PRE = r'''
var G;
function OUT(v:any) { puts("@" + JSON.stringify(v)); }
function DUMP(o:userobj) { var d = o.conf(); OUT(d); }
'''
class Fn:  # a function value
    def __init__(f, types): f.types = types
    def src(f): return 'function (%s) { return; }' % ', '.join('p%d:%s' % (i, t) for i, t in enumerate(f.types))
class Raw:
    def __init__(f, s, kind): f.s = s; f.kind = kind
    def src(f): return f.s
OTHER = [Raw('undefined', 'undefined'), Raw('/a+/', 'regexp'), Raw('NaN', 'nan'), Raw('Infinity', 'inf'), Raw('-Infinity', 'inf')]

def js(v):
    if isinstance(v, (Fn, Raw)): return v.src()
    if isinstance(v, dict): return '{' + ', '.join('%s:%s' % (jstr(k), js(x)) for k, x in v.items()) + '}'
    if isinstance(v, list): return '[' + ', '.join(js(x) for x in v) + ']'
    if isinstance(v, bool): return 'true' if v else 'false'
    if v is None: return 'null'
    if isinstance(v, str): return jstr(v)
    return repr(v) if v != int(v) else '%d' % v

def find(table, name):
    """The declared name meant by a name or unique prefix."""
    if name in table: return name
    m = [n for n in table if n.startswith(name)]
    return m[0] if len(m) == 1 else None

class Bad(Exception): pass
def store(kind, v, old):
    """The value stored by a conforming setting; raises Bad for one to be refused."""
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind == 'bool':
        if isinstance(v, bool): return v
        raise Bad
    if kind in ('int', 'uint', 'cache', 'big', 'depth'):
        if not num: raise Bad
        v = int(v); lo, hi = (-2**31, 2**31 - 1) if kind != 'uint' else (0, 2**32 - 1)
        if not lo <= v <= hi: raise Bad
        return v
    if kind == 'num':
        if num: return v
        raise Bad
    if kind == 'str':
        if v is None or isinstance(v, str): return v
        raise Bad
    if kind == 'dstr':
        if isinstance(v, str): return v
        if v is None: return ''
        raise Bad
    if kind == 'array':
        if v is None or isinstance(v, list): return v
        raise Bad
    if kind == 'obj':
        if v is None or isinstance(v, (dict, list)): return v
        if isinstance(v, Fn) or isinstance(v, Raw) and v.kind == 'regexp': return v
        raise Bad
    if isinstance(kind, list):
        if isinstance(v, str):
            m = find(kind, v) if v else None
            if m: return m
        raise Bad
    if isinstance(kind, tuple) and kind[0] == 'func':
        if v is None: return None
        if isinstance(v, Fn) and v.types == kind[1]: return v
        raise Bad
    if isinstance(kind, tuple):
        names = kind[1]; cur = set(old); L = None
        def put(n, on):
            m = find(names, n) if n else None
            if not m: raise Bad
            cur.add(m) if on else cur.discard(m)
        if isinstance(v, str):
            if v[:1] == '=': cur.clear(); v = v[1:]; ex = True
            else: ex = False
            for w in v.split(',') if v else []:
                if w[:1] == '!':
                    if ex: raise Bad
                    put(w[1:], False)
                else: put(w, True)
        elif isinstance(v, list):
            if not v: return []
            for i, w in enumerate(v):
                if not isinstance(w, str): raise Bad
                if i == 0 and w == '=': cur.clear(); continue
                put(w[1:], False) if w[:1] == '!' else put(w, True)
        elif isinstance(v, dict):
            for k, on in v.items():
                if not isinstance(on, bool): raise Bad
                put(k, on)
        else: raise Bad
        return [n for n in names if n in cur]
    raise AssertionError(kind)

def apply(table, state, opts, ctor, init, ro, touched, lock=(), more=()):
    """Apply opts in key order; True when accepted.  Names it may have changed are collected in touched."""
    names = list(table) + [n for n in init if n not in table] + ro + list(more)
    for k in sorted(opts, key=lambda s: s.encode()):
        n = find(names, k)
        if not n or n in ro or n in more or (n in init and (not ctor or init[n] is None)) or n in lock: return False
        kind = table.get(n) or init[n]; v = opts[k]
        touched.add(n)
        if isinstance(kind, dict):
            if v is None: state[n] = {a: False if b is True else 0 if isinstance(b, int) and not isinstance(b, bool) else None if isinstance(b, str) else b for a, b in state[n].items()}; continue
            if not isinstance(v, dict): return False
            sub = dict(state[n]); ok = apply(kind, sub, v, ctor, {}, [], set()); state[n] = sub
            if not ok: return False
            continue
        try: state[n] = store(kind, v, state.get(n))
        except Bad: return False
    return not ('stmtCacheMax' in touched and not 0 <= state['stmtCacheMax'] <= 10000)

def val(r, kind, wrong):
    """A value for an option kind, mostly conforming."""
    if wrong: kind = r.choice(['bool', 'int', 'str', 'array', 'obj', 'other', ('func', ['number']), 'int', 'uint', ['bad'], ('bits', ['bad', 'worse'])])
    if kind == 'bool': return r.random() < .5
    if kind in ('int', 'uint', 'cache', 'big', 'depth'): return r.choice([0, 1, r.randint(2, 90), r.randint(100, 10**6)] + ([2**31 - 1, 1.5, 77.25] if r.random() < .3 else []) + ([-1, -r.randint(1, 1000), 2**31, 2**32, -2**31, -2**31 - 1, 10**12, 1e100] if r.random() < .2 else [])) if kind not in ('cache', 'big', 'depth') else r.randint(60, 5000) if kind == 'depth' else r.choice([r.randint(0, 101), r.randint(9990, 10010)]) if kind == 'cache' else 10**8 + r.randint(0, 9999)
    if kind == 'num': return r.choice([0, .5, 1.25, 3])
    if kind in ('str', 'dstr'): return r.choice([None, '', 'x', 'a b', 'été', 'x' * r.choice([20, 300]), '{"a":1}', "q'\"\\", 'true', '12'])
    if kind == 'array': return r.choice([None, [], ['a'], [1, 2, [3]], ['x', None, True]])
    if kind == 'obj': return r.choice([{}, {'a': 1}, {'a': {'b': [1, 2]}}, [], [1], None])
    if kind == 'other': return r.choice(OTHER)
    if isinstance(kind, list): n = r.choice(kind); return n if r.random() < .8 else n[:r.randint(1, len(n))]
    if kind[0] == 'func': return r.choice([None] + [Fn(list(kind[1]))] * 5 + [Fn(kind[1][:-1] or ['number'])] + [Fn(kind[1] + ['string'])])
    names = kind[1]; f = r.randint(0, 2); some = r.sample(names, r.randint(0, min(3, len(names))))
    if r.random() < .1: some = some + ['nothing']
    if f == 0: return {n: r.random() < .5 for n in some}
    if f == 1: return (['='] if r.random() < .5 else []) + [('!' if r.random() < .4 else '') + n for n in some]
    e = r.random() < .4
    return '=' * e + ','.join(('!' if r.random() < (.05 if e else .4) else '') + n for n in some)

def opts(r, table, init, ro, ctor, n, more):
    o = {}; ok = [k for k in init if init[k] is not None]
    for _ in range(n):
        pool = list(table) + (ok if ctor and r.random() < .5 else [])
        k = r.choice(pool); kind = table.get(k) or init.get(k)
        x = r.random()
        if x < .03: k = r.choice(ro) if ro else k
        elif x < .07 and not ctor and init: k = r.choice(list(init))
        elif x < .10: k = r.choice(['nosuch', k + 'x', k.upper(), '', ' ' + k])
        elif x < .18 and init: k = k[:r.randint(2, len(k))]
        if isinstance(kind, dict):
            o[k] = opts(r, kind, {}, [], ctor, r.choice([0, 1, 1, 2, 3]), []) if r.random() < .93 else val(r, 'int', True)
            if o[k] is None and find(table, k) not in ('logOpts', 'debugOpts'): o[k] = 5
        else: o[k] = val(r, kind, r.random() < .15)
        if kind == 'obj' and not isinstance(o[k], (dict, list, type(None))): o[k] = 7 # a text is an object once copied to another interpreter
        if find(list(table) + list(init), k) == 'noError': del o[k] # reports errors as warnings
        elif kind == 'num' and isinstance(o[k], Raw): o[k] = 'x' # whether a time may be infinite is left open
    return o

def same(e, g):
    if isinstance(e, Fn): return isinstance(g, str) and g.startswith(e.src().split('{')[0])
    if isinstance(e, str) and e.startswith('function ('): return isinstance(g, str) and g.split('{')[0] == e.split('{')[0]
    if isinstance(e, Raw): return g == '/a+/' or g == {}
    if isinstance(e, dict): return isinstance(g, dict) and e.keys() == g.keys() and all(same(e[k], g[k]) for k in e)
    if isinstance(e, list): return isinstance(g, list) and len(e) == len(g) and all(map(same, e, g))
    if isinstance(e, bool) or isinstance(g, bool) or e is None or isinstance(e, str): return type(e) == type(g) and e == g
    return isinstance(g, (int, float)) and float(e) == float(g)

def usable(o, names, more, cls):
    """Leaves out what has effects of its own; functions reach another interpreter as text."""
    r = {}
    for k, v in o.items():
        if find(names, k) in more or k == 'udata' and isinstance(v, (str, Fn, Raw)) and cls == 'interp': continue
        if find(names, k) == 'maxDepth' and isinstance(v, (int, float)) and v < 60: continue
        if isinstance(v, dict): v = usable(v, [], [], cls)
        if isinstance(v, Fn) and cls == 'interp': v = v.src()
        if isinstance(v, Raw) and cls == 'interp': v = 'raw'
        r[k] = v
    return r

def block(ctx, i):
    r = ctx.sub('b%d' % i); cls = r.choice(['interp', 'interp', 'sqlite', 'sqlite', 'socket'])
    table, init, ro, more = T[cls], INIT[cls], RO[cls], MORE[cls]
    names = list(table) + list(init) + ro + more
    L = [PRE, 'var o0 = %s; DUMP(o0);' % ({'interp': 'new Interp()', 'sqlite': 'new Sqlite(":memory:")', 'socket': 'new Socket({port:0})'}[cls])]
    plan = []; objs = 1
    for k in range(40):
        x = r.random()
        if x < .25:
            o = opts(r, table, init, ro, True, r.choice([1, 2, 3, 5]), more); o = usable(o, names, more, cls)
            if cls == 'interp': o.pop('name', 0)
            if cls == 'socket': o['port'] = 0
            a = js(o); a = ', ' + a if cls == 'sqlite' else a
            L.append('var o%d = null; try { o%d = %s; OUT("ok"); DUMP(o%d); } catch(e) { OUT("E"); OUT("" + e); }' % (objs, objs, MAKE[cls] % a, objs))
            plan.append(('new', objs, o)); objs += 1
        elif x < .85:
            t = r.randrange(objs); o = opts(r, table, init, ro, False, r.choice([1, 1, 1, 2, 3]), more); o = usable(o, names, more, cls)
            L.append('if (o%d) { try { o%d.conf(%s); OUT("ok"); } catch(e) { OUT("E " + e); } DUMP(o%d); }' % (t, t, js(o), t))
            plan.append(('conf', t, o))
        else:
            t = r.randrange(objs); n = r.choice(list(table)); 
            if isinstance(table[n], dict) and r.random() < .7: n += '.' + r.choice(list(table[n]))
            q = r.choice([n] * 8 + ['nosuch', n + 'z', n + '.q'])
            L.append('if (o%d) { try { G = o%d.conf(%s); OUT(G); } catch(e) { OUT("E " + e); } }' % (t, t, jstr(q)))
            plan.append(('get', t, q))
    src = '\n'.join(L) + '\nputs("@done");\n'; fn = '%s/b%d.jsi' % (ctx.tmp, i); open(fn, 'w').write(src)
    res = ctx.run([fn], cwd=ctx.tmp)
    if not ctx.sanity(res, 'run', cls, src + '\n' + res.etext[-3000:]): return
    out = [l[1:] for l in res.text.splitlines() if l.startswith('@')]; pos = 0
    def nxt():
        nonlocal pos
        pos += 1; return out[pos - 1] if pos <= len(out) else None
    def rd():
        l = nxt()
        try: return json.loads(l, parse_constant=float)
        except Exception: return ('?', l)
    state = {}; locked = {}; noconf = {}
    d0 = rd()
    if not isinstance(d0, dict): ctx.violation('no dump', '%s: conf() returned %s; %s' % (cls, d0, res.etext[-300:]), src); return
    want = set(table) | set(init) | set(ro) | set(more)
    if set(d0) | {'retValue'} != want | {'retValue'}: ctx.violation('names', '%s: conf() lists other names: %s' % (cls, sorted(set(d0) ^ want)), src); return
    state[0] = d0
    for step, (op, t, o) in enumerate(plan):
        def bad(k, msg): ctx.violation('%s %s' % (cls, k), '%s: %s' % (cls, msg), 'step %d: %s o%d %s\n%s\n\n%s\n\n%s\n\n%s' % (step, op, t, js(o), msg, src, '\n'.join(out), res.etext[-1500:]))
        if op != 'new' and t not in state: continue
        ctx.count('operations')
        if op == 'new':
            ok = rd(); g = rd()
            if isinstance(ok, tuple) or isinstance(g, tuple) or ok == 'ok' and not isinstance(g, dict): bad('no answer', 'the constructor with %s gave %s %s' % (js(o), ok, g)); return
            s = json.loads(json.dumps(d0)); tch = set()
            if cls == 'socket': o = {k: v for k, v in o.items() if k != 'port'}
            e = apply(table, s, o, True, init, ro, tch, more=more)
            if 'isSafe' in tch or 'interactive' in tch or 'broadcast' in tch: # these have consequences of their own
                if ok == 'ok': 
                    if not e and 'broadcast' not in tch: bad('accepted', 'the constructor accepts %s' % js(o)); return
                    state[t] = g; locked[t] = LOCK if g.get('isSafe') else (); noconf[t] = g.get('noConfig')
                continue
            if ok == 'ok' and not e: bad('accepted', 'the constructor accepts %s' % js(o)); return
            if ok != 'ok' and e: bad('refused', 'the constructor refuses %s: %s' % (js(o), g)); return
            ctx.case('%s new %s' % (cls, e))
            if ok != 'ok': continue
            if 'udata' in tch and s['udata'] is None: s['udata'] = {}
            if 'args' in tch and s['args'] is None: s['args'] = []
            if cls == 'interp' and s['maxDepth'] > 200: s['maxDepth'] = 200
            if cls == 'socket': s['port'] = g.get('port'); s['startTime'] = g.get('startTime')
            if cls == 'sqlite' and 'name' in tch: s['name'] = g.get('name')
            dif = [k for k in s if not same(s[k], g.get(k))]
            if cls == 'interp' and 'asserts' in tch: dif = [k for k in dif if k not in ('log', 'assertMode')]
            if cls == 'interp' and 'pkgDirs' in tch: dif = [k for k in dif if k != 'pkgDirs']
            if dif: bad('constructor', 'after the constructor with %s, %s is %s, not %s' % (js(o), dif[0], g.get(dif[0]), s[dif[0]] if not isinstance(s[dif[0]], Fn) else s[dif[0]].src())); return
            state[t] = s; noconf[t] = s.get('noConfig')
            if cls == 'interp' and ({'asserts', 'pkgDirs'} & tch): state[t] = g
        elif op == 'conf':
            ok = rd(); g = rd(); old = state[t]; s = dict(old); tch = set()
            e = apply(table, s, o, False, init, ro, tch, locked.get(t, ()), more) and not (noconf.get(t) and cls != 'interp')
            if isinstance(ok, tuple) or not isinstance(g, dict): bad('no answer', 'conf(%s) gave %s %s' % (js(o), ok, str(g)[:100])); return
            if ok == 'ok' and not e: bad('accepted', 'conf accepts %s' % js(o)); return
            if ok != 'ok' and e: bad('refused', 'conf refuses %s: %s' % (js(o), ok)); return
            if noconf.get(t) and cls != 'interp': tch = set(); s = dict(old)
            for k in g.keys() | old.keys():
                if same(s.get(k), g.get(k)): continue
                if not e and k in tch and same(old.get(k), g.get(k)): continue
                if 'asserts' in tch and k in ('log', 'assertMode'): continue
                bad('value' if k in tch else 'another option', 'after conf(%s) (%s), %s is %s, not %s' % (js(o), ok, k, str(g.get(k))[:200], str(s.get(k))[:200])); return
            ctx.case('%s conf %s' % (cls, ' '.join(sorted(tch)) if e else 'refused'))
            state[t] = {k: (s[k] if same(s.get(k), g.get(k)) else g.get(k)) for k in g}
        else:
            g = rd(); s = state[t]; q = o.split('.')
            names = list(table) + list(init) + ro
            n = find(names, q[0]); x = s.get(n) if n else None; e = bool(n)
            if len(q) > 2: e = False
            if e and len(q) == 2:
                e = isinstance(table.get(n), dict); m = find(list(x), q[1]) if e else None; e = bool(m); x = x[m] if e else None
            if e and not same(x, g): bad('read back', 'conf(%s) gives %s, not %s' % (jstr(o), str(g)[:200], str(x)[:200])); return
            if not e and not (isinstance(g, str) and g.startswith('E ')): bad('unknown name', 'conf(%s) gives %s' % (jstr(o), str(g)[:200])); return
            ctx.case('%s get %s' % (cls, o))
    if out[-1:] != ['done']: ctx.violation('not finished', '%s: rc %s %s' % (cls, res.rc, res.etext[-300:]), src)

def probe(ctx):
    src = 'var x = new Interp(); x.conf({asserts:true}); puts(x.conf("log").join());'
    open(ctx.tmp + '/p.jsi', 'w').write(src); res = ctx.run([ctx.tmp + '/p.jsi']); ctx.case('asserts')
    if 'assert' not in res.text: ctx.violation('asserts log bit', 'conf({asserts:true}) sets log to %s, without "assert"' % res.text.strip(), src)

def run(ctx):
    ctx.build('asan')
    probe(ctx)
    ctx.pmap(lambda i: block(ctx, i), range(ctx.size(700, 5000)))
    ctx.rule = 'class of object x kind of call x options set or refused'
    ctx.assumptions = ['option tables of the classes as of this commit; a new option would have to be added']
