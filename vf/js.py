"""Helpers to generate jsish programs and read their event logs."""
import re

def jstr(s):
    """A string literal both jsish and node read as s."""
    o = ['"']
    for c in s:
        if c == '"' or c == '\\':
            o.append('\\' + c)
        elif c == '\n':
            o.append('\\n')
        elif c == '\t':
            o.append('\\t')
        elif c == '\r':
            o.append('\\r')
        elif ord(c) < 32 or ord(c) == 127:
            o.append('\\u%04x' % ord(c))
        else:
            o.append(c)
    o.append('"')
    return ''.join(o)

# D(v): canonical one-line text of a value
DUMP = r'''
function D(v) {
  if (v===undefined) return "U";
  if (v===null) return "L";
  var t = typeof v, s, i, k;
  if (t==="number") { if (isNaN(v)) return "n:nan"; return "n:"+format("%.17g",v); }
  if (t==="boolean") return v?"b:1":"b:0";
  if (t==="string") return "s:"+Q(v);
  if (t==="function") return "F";
  if (Array.isArray(v)) { s="["; for (i=0; i<v.length; i++) s+=(i?",":"")+D(v[i]); return s+"]"; }
  if (t==="regexp") return "R";
  var ks=[]; for (k in v) ks.push(k); ks.sort();
  s="{"; for (i=0; i<ks.length; i++) s+=(i?",":"")+Q(ks[i])+"="+D(v[ks[i]]); return s+"}";
}
function Q(s) { if (s.indexOf("\\")>=0) s=s.split("\\").join("\\\\"); if (s.indexOf("\n")>=0) s=s.split("\n").join("\\n"); if (s.indexOf('"')>=0) s=s.split('"').join("\\q"); return '"'+s+'"'; }
'''
DUMP_NODE = r'''
function D(v) {
  if (v===undefined) return "U";
  if (v===null) return "L";
  var t = typeof v, s, i, k;
  if (t==="number") { if (v!==v) return "n:nan"; return "n:"+(v===Infinity?"inf":v===-Infinity?"-inf":(Object.is(v,-0)?"-0":""+v)); }
  if (t==="boolean") return v?"b:1":"b:0";
  if (t==="string") return "s:"+Q(v);
  if (t==="function") return "F";
  if (Array.isArray(v)) { s="["; for (i=0; i<v.length; i++) s+=(i?",":"")+D(v[i]); return s+"]"; }
  if (v instanceof RegExp) return "R";
  var ks=[]; for (k in v) ks.push(k); ks.sort();
  s="{"; for (i=0; i<ks.length; i++) s+=(i?",":"")+Q(ks[i])+"="+D(v[ks[i]]); return s+"}";
}
function Q(s) { return '"'+s.replace(/\\/g,"\\\\").replace(/\n/g,"\\n").replace(/"/g,"\\q")+'"'; }
'''
_num = re.compile(r'n:([-+]?(?:inf(?:inity)?|nan|[0-9.]+(?:e[-+]?\d+)?))', re.I)

def canon(text):
    """Make number spellings comparable: every n:<number> becomes its repr."""
    def f(m):
        t = m.group(1).lower()
        if 'nan' in t:
            return 'n:nan'
        x = float(t.replace('infinity', 'inf'))
        return 'n:%r' % (x + 0.0 if x else 0.0)
    return _num.sub(f, text)

def pyD(v):
    """The text D prints for a Python value (float/int/str/bool/None=null/Undef/list/dict)."""
    if v is Undef:
        return 'U'
    if v is None:
        return 'L'
    if v is True:
        return 'b:1'
    if v is False:
        return 'b:0'
    if isinstance(v, (int, float)):
        x = float(v)
        return 'n:nan' if x != x else 'n:%r' % (x if x else 0.0)
    if isinstance(v, str):
        return 's:' + pyQ(v)
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(pyD(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join(pyQ(k) + '=' + pyD(v[k]) for k in sorted(v)) + '}'
    return str(v)

def pyQ(s):
    return '"' + s.replace('\\', '\\\\').replace('\n', '\\n').replace('"', '\\q') + '"'

class _U:
    def __repr__(s): return 'undefined'
    def __bool__(s): return False
Undef = _U()

WRAP = '''puts("@@B %d");
try { (function() {
%s
})(); } catch(e__) { puts("!EXC"); }
'''

def batch_src(cases, prelude=DUMP, base=0):
    return prelude + ''.join(WRAP % (base + i, c) for i, c in enumerate(cases)) + 'puts("@@E");\n'

def split_out(text, n, base=0):
    """Outputs per case; None where a case did not start."""
    res = [None] * n
    done = False
    for part in ('\n' + text).split('\n@@')[1:]:
        if part.startswith('B '):
            h, _, b = part.partition('\n')
            try:
                i = int(h[2:]) - base
            except ValueError:
                continue
            if 0 <= i < n:
                res[i] = b if b.endswith('\n') or not b else b + '\n'
        elif part.startswith('E'):
            done = True
    return res, done

def run_cases(ctx, cases, prelude=DUMP, size=25, opts=(), timeout=60, variant='asan', key='case', env=None, stderr_ok=True):
    """Run cases (code bodies) in batches; returns the output text of each (None: it could not be
    obtained, already reported as a violation)."""
    groups = [list(range(i, min(i + size, len(cases)))) for i in range(0, len(cases), size)]
    out = [None] * len(cases)

    def go(g):
        r = ctx.js(batch_src([cases[i] for i in g], prelude), opts=opts, timeout=timeout, variant=variant, env=env)
        ctx.count('processes')
        o, done = split_out(r.text, len(g))
        if done and r.rc == 0 and not r.crashed and not r.timeout and all(x is not None for x in o):
            for i, x in zip(g, o):
                out[i] = x
            return
        for i in g:
            src = batch_src([cases[i]], prelude)
            r = ctx.js(src, opts=opts, timeout=timeout, variant=variant, env=env)
            ctx.count('processes')
            if not ctx.sanity(r, key=key, what=cases[i][:2000], replay=src):
                continue
            o, done = split_out(r.text, 1)
            if o[0] is None:
                out[i] = '!NOSTART rc=%s %s\n' % (r.rc, r.etext[-400:])
            elif not done:
                out[i] = o[0] + '!DIED rc=%s %s\n' % (r.rc, r.etext[-400:])
            else:
                out[i] = o[0]
    ctx.pmap(go, groups)
    return out

NODE_WRAP = '''console_log("@@B %d");
try { (function() {
%s
})(); } catch(e__) { console_log("!EXC"); }
'''

def run_node(ctx, cases, prelude=DUMP_NODE, size=200):
    """Same cases in node (the reference engine)."""
    import subprocess, os
    groups = [list(range(i, min(i + size, len(cases)))) for i in range(0, len(cases), size)]
    out = [None] * len(cases)

    def go(g):
        src = 'var __o=[]; function console_log(s){__o.push(String(s));} var puts=console_log;\n' + prelude
        src += ''.join(NODE_WRAP % (k, cases[i]) for k, i in enumerate(g)) + 'puts("@@E");process.stdout.write(__o.join("\\n")+"\\n");\n'
        f = ctx.path('n.js')
        open(f, 'w').write(src)
        p = subprocess.run(['node', '--stack-size=4000', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        os.unlink(f)
        o, done = split_out(p.stdout.decode('utf-8', 'surrogateescape'), len(g))
        if not done:
            if len(g) == 1:
                raise RuntimeError('node could not run: ' + p.stderr.decode()[:2000] + cases[g[0]])
            # find the bad one
            raise RuntimeError('node could not run a batch: ' + p.stderr.decode()[:1500])
        for i, x in zip(g, o):
            out[i] = x
    ctx.pmap(go, groups)
    return out

def vs_node(ctx, cases, pre_j, pre_n, size=20, key='prog', timeout=60, opts=()):
    """Run every case in jsish and in node; report differing traces. Returns the traces."""
    ref = run_node(ctx, cases, pre_n)
    out = run_cases(ctx, cases, pre_j, size=size, key=key, timeout=timeout, opts=opts)
    for c, a, b in zip(cases, out, ref):
        if a is None:
            continue
        a, b = canon(a), canon(b)
        ctx.count('trace_events', b.count('\n'))
        ctx.case(c if b.count('\n') > 1 else None, sample=dict(program=c[:700], trace=b[:300]))
        if a != b:
            ctx.violation('%s:%s' % (key, c), 'program:\n%s\nreference trace:\n%s\njsish trace:\n%s' % (c, b, a), batch_src([c], pre_j))
    return out, ref
