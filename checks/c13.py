"""C13: hostile calls, mutated scripts and container-mutating programs under ASan+UBSan: no report, no signal."""
from vf.js import *
from vf.core import san_key
import collections, glob, os, re, shutil

# values every built-in is called with
VALS = ['0', '1', '(-1)', '2', '3.7', '100', '255', '256', '(-2147483648)', '2147483647', '4294967295', '4294967296', '1e10', '(-1e10)', '1e300',
        'NaN', 'Infinity', '(-0)', '1e-310', '""', '"a"', '"abc"', '"%s%d"', '"%n%s%99999s%.9999f"', '"*"', '"["', '"\\\\"', '"é😀x"', '"a,b,c"', '"../x"', '"."', 'LS', '"1e5"',
        '"{"', '"null"', '"select 1"', '":memory:"', '"[1,2"', '"(a"', '"(a*)*b"', '"$1$&$`$"', '"x.txt"', '"key=val"', '"function(){}"', '"a\\nb\\r\\tc"', '"true"', '"%Y %d %"', '"rw+"', '"\u00ff\u0101"',
        '[]', '[1,2,3]', '[[1],[2,[3]]]', '["a","b","c"]', '[null,undefined,"x",{}]', 'LA', 'CA', '{}', '{a:1}', '{a:{b:{c:[1,{d:2}]}}}', '{mode:"list"}', '{length:5}', '{a:undefined,b:null}', 'CO', 'FO', 'GO', 'PO',
        'function(){}', 'function(a,b){return a;}', 'function(){throw "x";}', 'function(){return {};}', 'function(a){return [a,a];}', 'puts', 'Math.sin', 'String', 'Array',
        '/a/', '/b*/g', '/(x)|(y)/i', 'null', 'true', 'false', 'undefined', 'this', 'Math', 'IN', 'CH', 'DB', 'new Number(3)', 'new String("st")', 'new Boolean(true)']
PRE = r'''
var OK=0;
var LS="xyz%s*[".repeat(700), LA=[], CA=[1], CO={}, i; for (i=0;i<300;i++) { LA.push(i%2?i:"s"+i); } CA.push(CA); CO.self=CO; CO.a=[CO];
var FO=Object.freeze({a:1,b:[2]}), GO={a:1}; Object.defineProperty?0:0; var PO=Object.create({p:1,q:[1]});
function UC(a) { this.v=a; } UC.prototype?0:0;
'''
PRE2 = 'var IN=null, CH=null, DB=null; try { IN=new Interp({isSafe:true}); } catch(e) {} try { CH=new Channel("c.txt","w+"); CH.puts("line1\\nline2"); } catch(e) {} try { DB=new Sqlite(":memory:"); DB.eval("create table t(a,b); insert into t values(1,2),(3,\'x\')"); } catch(e) {}\n'
SKIP = {'exit', 'sleep', 'Signal.kill', 'Signal.alarm', 'update', 'Event.update', 'Socket.update', 'console.input', 'exec', 'unload', 'System.exit', 'System.sleep', 'System.exec', 'System.update', 'File.chdir', 'Util.setenv',
        'Signal.handle', 'Signal.ignore', 'Signal.callback', 'Socket.names', 'Interp.conf', 'Vfs.exec'}
INST = {'Array': ['[]', '[1,2,3]', 'LA.slice(0)', 'CA', '[[1],["b"]]', '["x",null,{}]'], 'String': ['"abc"', '""', '"é😀x"', 'LS', '"a,b"'], 'Number': ['(12.5)', '(-7)', '(1e300)', '(0/1)'],
        'Object': ['({a:1})', 'FO', 'PO', 'CO', '({})'], 'Function': ['(function(a){return a;})', 'puts', 'Math.sin', '(function(){throw "q";})'], 'RegExp': ['/a(b)?/g', '/x*/', '/^/m'],
        'Channel': ['CH', 'new Channel("d.txt","w+")'], 'Sqlite': ['DB', 'new Sqlite(":memory:")'], 'Interp': ['IN', 'new Interp()'], 'Boolean': ['true'], 'Event': [], 'Socket': []}

def commands(ctx):
    """every command with its declared argument types and option names, as the interpreter itself lists them"""
    r = ctx.js(r"""
function one(n) {
  var d; try { d=Info.cmds(n); } catch(e) { return; }
  if (typeof d!=="object") return;
  var o=[], i; if (d.options) { for (i=0;i<d.options.length;i++) o.push(d.options[i].name+":"+d.options[i].type); }
  puts("@"+n+"\t"+(d.args?d.args:"")+"\t"+(d.minArgs?d.minArgs:0)+"\t"+(d.maxArgs===undefined?-1:d.maxArgs)+"\t"+o.join(","));
}
var c=Info.cmds("*",{full:true}), i;
for (i=0;i<c.length;i++) { one(c[i]); var s=Info.cmds(c[i]+".*"); for (var j=0;j<s.length;j++) one(c[i]+"."+s[j]); }""")
    d = {}
    for l in r.text.split('\n'):
        if l.startswith('@'):
            n, a, mn, mx, o = l[1:].split('\t')
            d[n] = (a, int(float(mn)), int(float(mx)), [x.split(':') for x in o.split(',') if ':' in x])
    return d

BY = {
 'string': [v for v in VALS if v[0] == '"' or v == 'LS'], 'number': VALS[:19] + ['(12.5)', '7', '16', '36', '1e15'], 'boolean': ['true', 'false'],
 'array': ['[]', '[1,2,3]', '[[1],[2,[3]]]', '["a","b","c"]', '[null,undefined,"x",{}]', 'LA', 'CA', '[1]', '["--a","1","-b"]'],
 'object': ['{}', '{a:1}', '{a:{b:{c:[1,{d:2}]}}}', '{length:5}', '{a:undefined,b:null}', 'CO', 'FO', 'PO'],
 'function': ['function(){}', 'function(a,b){return a;}', 'function(){throw "x";}', 'function(){return {};}', 'function(a){return [a,a];}', 'function(a){return "z"+a;}', 'function(a){return 1;}', 'puts', 'Math.sin'],
 'regexp': ['/a/', '/b*/g', '/(x)|(y)/i', '/^/m', '/[^a]*/g', '/$/g'], 'null': ['null'], 'userobj': ['IN', 'CH', 'DB'], 'undefined': ['undefined'],
}

def typed(rng, decl, opts):
    t = decl.split('=')[0].partition(':')[2].strip().split('|')
    k = rng.choice(t)
    if k == 'object' and opts and rng.random() < .8:
        return optobj(rng, opts)
    return rng.choice(BY[k]) if k in BY else rng.choice(VALS)

def optobj(rng, opts):
    def v(ty):
        if rng.random() < .15: return rng.choice(VALS)
        k = {'BOOL': 'boolean', 'INT': 'number', 'UINT': 'number', 'DOUBLE': 'number', 'WIDE': 'number', 'UINT64': 'number', 'INT64': 'number', 'STRING': 'string', 'STRKEY': 'string', 'DSTRING': 'string', 'FUNC': 'function', 'ARRAY': 'array',
             'OBJ': 'object', 'REGEXP': 'regexp', 'USEROBJ': 'userobj', 'VALUE': None, 'VAR': None}.get(ty, 'string')
        return rng.choice(BY[k]) if k else rng.choice(VALS)
    o = [x for x in opts if x[0] not in ('busyCallback', 'stdinStr', 'subthread')]
    return '{' + ','.join('%s:%s' % (n, v(ty)) for n, ty in rng.sample(o, min(len(o), rng.choice([1, 1, 2, 3])))) + '}'

def hostile(rng, cmds, n, kinds):
    flat = []
    for c in sorted(cmds):
        m, _, f = c.partition('.')
        if c in SKIP or f in SKIP and m == 'System': continue
        flat.append(('static' if f else 'fn', m, f, c))
        if f and m in INST and INST[m]: flat += [('inst', m, f, c)] * 2
        if not f and m[0].isupper() and m not in ('LogDebug',): flat.append(('new', m, '', c))
    out = []
    for i in range(n):
        how, m, f, c = flat[i % len(flat)] if i < 3 * len(flat) else rng.choice(flat)
        decl, mn, mx, opts = cmds[c]
        ds = [d for d in split_args(decl)]
        if rng.random() < .25 or not ds:
            a = [rng.choice(VALS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if mx >= 0 and rng.random() < .8: a = a[:mx]
        else:
            k = rng.randint(min(mn, len(ds)), len(ds))
            a = []
            for d in ds[:k]:
                if '...' in d: a += [rng.choice(VALS) for _ in range(rng.randint(0, 4))]
                elif rng.random() < .08: a.append(rng.choice(VALS))
                else: a.append(typed(rng, d, opts))
        a = ','.join(a)
        if how == 'static': e = '%s.%s(%s)' % (m, f, a)
        elif how == 'new': e = 'new %s(%s)' % (m, a)
        elif how == 'fn': e = '%s(%s)' % (m, a)
        else: e = 'o.%s(%s)' % (f, a)
        kinds[c] += 1
        pre = 'var o=%s;' % rng.choice(INST[m]) if how == 'inst' else ''
        post = rng.choice(['', '', 'var s=""+r;', 'JSON.stringify(r);', 'var s=0; for (var k in r) { s=r[k]; }', 'r=r.concat(r);', 'puts(r);', 'r.a=r; r=null;', 'r=r[0];', 'o=null; r=null;'])
        if how == 'inst' and rng.random() < .3: post += ' r=o.%s(%s);' % (f, a)
        out.append('%s var r=%s; OK++; %s' % (pre, e, post))
    return out

def split_args(s):
    o, d, q = [''], 0, None
    for ch in s:
        if q:
            if ch == q: q = None
        elif ch in '\'"': q = ch
        elif ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        elif ch == ',' and d == 0: o.append(''); continue
        o[-1] += ch
    return [x.strip() for x in o if x.strip()]

# programs whose callbacks change what is being walked
def mutators(rng, n):
    out = []
    act = ['a.pop()', 'a.push(1,2,3,4,5,6,7,8)', 'a.shift()', 'a.unshift("u",{},[])', 'a.splice(0,2)', 'a.splice(1,0,[9],"z")', 'a.reverse()', 'a.sort()', 'a=null', 'a=[]', 'a[500]=1', 'a.length=0', 'a.splice(0)', 'o.x=a', 'delete o.x', 'o={}',
           'o["k"+i++]=a', 'a.push(a)', 'a[0]=a[1]', 'b=a.slice(1)', 'a=a.concat(a)', 's+=s', 's=null', 'throw i', 'o=null', 'delete o["k"+(i-1)]', 'Object.freeze(o)', 'f=null', 'f=function(){return 1;}', 'a.forEach(function(x){b.push(x);})', 'b=a;', 'for (var q in o) { delete o[q]; }', 'IN.eval("var z=1;")', 'IN.value("zz")', 'CH.puts("q")', 'DB.eval("select 1")', 'JSON.parse("[1,{\\"a\\":2}]")', 'a.map(function(x){return x;})', 'o.valueOf()', '"x".replace(/x/,function(m){a=null;return m;})', 'clearInterval(ev)', 'ev=setTimeout(function(){a=null;},0)', 'update(0)']
    walk = ['a.forEach(F)', 'a.map(F)', 'a.filter(F)', 'a.reduce(F,0)', 'a.reduceRight(F,0)', 'a.some(F)', 'a.every(F)', 'a.find(F)', 'a.findIndex(F)', 'a.sort(F)', 'for (var k in o) { F(k); }', 'for (var k of a) { F(k); }', 's.replace(/./g,F)', 's.replace(/(b)(c)?/,F)', 's.replace("b",F)', 'DB.query("select 1 as x, 2 as y union select 3,4",F)', 'DB.eval("select fn(1,2)")', 'F.call(a,1,2)', 'F.apply(o,a)', 'F.bind(a,1)(2)', 'new F(1)', 'setTimeout(F,0); update(10)', 'ev=setInterval(F,0); update(5); clearInterval(ev)', 'o.m=F; o.m(o)', 'for (var x=0;x<a.length;x++) { F(a[x]); }', 'a.sort({compare:F})', 'a.sort({compare:F,unique:true})', '[a,a].forEach(function(z){F(z);})', 'a.concat(a).forEach(F)', 'try { F(1); } finally { F(2); }', 'switch (F(1)) { case 1: F(2); default: F(3); }', 'IN.alias("F",F); IN.eval("F(1);")', 'a.push(F(a))', 'a[F(1)]=F(2)', 'o[F(1)]=F(a)', 's=s+F(1)+s', 'a.splice(F(0),F(1),F(2))', 'Object.keys(o).forEach(F)', 'JSON.stringify({a:F(1),b:a})', 'a=[F(1),F(2),[F(3)]]', 'o={a:F(1),b:F(2)}', 'a.flat().map(F)', 'Object.create(o).m', 'CH.seek(0); while ((s=CH.gets())!==undefined) { F(s); }', 'DB.transaction(F)', 'Info.locals(); F(1)', 'format("%s %d",F(1),F(2))', 'a.fill(F(1))', 'F(F(F(1)))']
    for _ in range(n):
        body = '; '.join('if (n%%%d===%d) { %s; }' % (rng.randint(1, 3), rng.randint(0, 1), rng.choice(act)) for _ in range(rng.randint(1, 4)))
        ret = rng.choice(['1', 'x', 'y', 'a', 'o', 's', 'true', '-1', 'n%2', '"r"', '[x]', '{v:x}', 'undefined', 'f'])
        w = '; '.join('try { %s; } catch(e) {}' % rng.choice(walk) if rng.random() < .7 else rng.choice(walk) for _ in range(rng.randint(1, 4)))
        out.append('''var a=[3,1,"b",[2],{c:1}], b=[], o={x:1,y:[2],k0:"s"}, s="abcabc", i=0, n=0, ev=0, f=function(q){return q;};
var F=function(x,y) { n++; if (n>60) throw "stop"; %s; return %s; };
%s; a=null; o=null; b=null;''' % (body, ret, w))
    return out

def sources():
    out = []
    for p in sorted(glob.glob('/repo/tests/*.js*') + glob.glob('/repo/lib/*.jsi') + glob.glob('/repo/js-demos/*.jsi')):
        s = open(p, errors='surrogateescape').read()
        if re.search(r'\bexit\s*\(|kill|Socket|WebSocket|threaded|while *\(1\)|setInterval|sleep', s) and 'tests/' not in p: continue
        s = s.split('=!EXPECTSTART!=')[0]
        if len(s) < 20000: out.append((os.path.basename(p), s))
    return out

TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_$][\w$]*|\d+\.?\d*|\s+|[<>=!+\-*/&|^%]+|.', re.S)
FRAG = ['(', ')', '{', '}', '[', ']', ';', ',', '.', ':', '?', '=', '==', '+', '++', '-', '!', '/', '//', '/*', '*/', '"', "'", '`', '\\', 'function', 'function(){', 'return', 'var', 'if', 'else', 'for', 'while', 'do', 'switch', 'case', 'default:', 'break', 'continue', 'try', 'catch(e)', 'finally', 'throw', 'new', 'delete', 'typeof', 'in', 'of', 'instanceof', 'this', 'null', 'undefined', 'arguments', 'with', 'let', 'const', 'class', 'get', 'set', '=>', '...', '0x', '1e', '0b', '1.', '.5', '\\u12', '${', '\x00', '\x01', '\xff', '\n', '#', '@', 'abc:', '/[/', '/(/', '"\\u', '"use', '#!', '$1', '__proto__', 'x', '0', '[0]', '(x)', 'eval', '; ;', '[[[[', '{{{{', '((((', 'a?b:c', '%', '<<', '>>>=', '&&', '||', ',,']

def mutate(rng, src):
    t = TOK.findall(src)
    if len(t) > 60 and rng.random() < .7:
        i = rng.randrange(len(t)); t = t[i:i + rng.randint(20, 400)]
    for _ in range(rng.choice([1, 1, 2, 3, 5, 10])):
        if not t: break
        i = rng.randrange(len(t)); k = rng.random()
        if k < .25: del t[i:i + rng.choice([1, 1, 2, 5])]
        elif k < .5: t.insert(i, rng.choice(FRAG))
        elif k < .65: t[i] = rng.choice(FRAG)
        elif k < .8: j = rng.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif k < .9: j = rng.randrange(len(t)); t[i:i] = t[j:j + rng.randint(1, 12)]
        elif k < .95: t = t[:i]
        else: t[i] = t[i][:1]
    s = ''.join(t)
    s = re.sub(r'\b(exit|kill|alarm|sleep|exec|chdir|update)\b', 'noOp', s)
    s = re.sub(r'while *\((1|true)\)', 'while (0)', s)
    return s.encode('utf-8', 'surrogateescape')

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one hostile call, container-mutating program or mutated script run to its end; distinct texts'
    ctx.assumptions = ['runs as an unprivileged user in scratch directories', 'running out of memory and exceeding the time limit are not judged here',
                       'commands that end, signal or delay the process are left out of the hostile calls']
    kinds = collections.Counter()
    cmds = commands(ctx)
    ctx.sanity_done = 0
    env = {'ASAN_OPTIONS_EXTRA': ''}
    def one(code, opts=(), timeout=20):
        f = ctx.path('.js')
        with open(f, 'wb') as h: h.write(code if isinstance(code, bytes) else code.encode('utf-8', 'surrogateescape'))
        os.chmod(f, 0o644)
        r = ctx.run(list(opts) + [f], user=True, timeout=timeout, retry=False, lowmem=True)
        os.unlink(f); ctx.count('processes')
        return r
    def bad(r):
        if r.timeout: ctx.count('timeouts'); return False
        if 'allocation-size-too-big' in r.san or 'out-of-memory' in r.san or 'out of memory' in r.san: ctx.count('out_of_memory'); return False
        return r.crashed
    def report(r, code):
        k = san_key(r.san) if r.san else 'signal%d' % r.rc
        ctx.violation('crash:' + k, '%s\n%s' % (r.san[:5000], r.etext[-500:]), code)
    def src(cs): return batch_src(cs, PRE + PRE2) + 'puts("@@K "+OK);\n'
    def batch(g):
        for c in g: ctx.case(c, sample=c[:200])
        r = one(src(g))
        if not bad(r):
            if '@@E' in r.text: ctx.count('batches_completed')
            mm = re.search(r'@@K (\d+)', r.text)
            if mm: ctx.count('hostile_calls_accepted', int(mm.group(1)))
            return
        n = 0
        for c in g:
            q = one(src([c]))
            if bad(q): report(q, src([c])); n += 1
        if not n: report(r, src(g))
    def groups(cs, k): return [cs[i:i + k] for i in range(0, len(cs), k)]
    h = hostile(ctx.sub('h'), cmds, ctx.size(12000, 200000), kinds)
    m = mutators(ctx.sub('m'), ctx.size(4000, 60000))
    ctx.pmap(batch, groups(h, 30) + groups(m, 20))
    srcs = sources(); rng = ctx.sub('s')
    def script(c):
        ctx.case(c); r = one(c, timeout=10)
        if bad(r): report(r, c)
    ctx.pmap(script, [mutate(rng, rng.choice(srcs)[1]) for _ in range(ctx.size(1500, 25000))])
    ctx.notes['commands_called'] = len(kinds)
    ctx.notes['least_called'] = min(kinds.values())
