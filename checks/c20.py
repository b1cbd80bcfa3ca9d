"""C20: File commands and Channel objects against a model of a file tree; the real tree is read back by Python afterwards."""
from vf.js import *
import collections, os, shutil, stat, fnmatch, posixpath

PRE = DUMP + r'''
function P(f) { var r; try { r=f(); } catch(e) { puts("err"); return; } puts(r===undefined?"U":typeof r=="string"?"s:"+Util.hash(r,{type:"md5"}):typeof r=="array"?"a:"+r.sort().join(";"):""+r); }
'''
import hashlib
def md(b): return "s:" + hashlib.md5(b).hexdigest()

class Ino:
    def __init__(s, data): s.data = bytearray(data); s.mode = 0o644

class Tree:
    """nodes: dict (directory), Ino (file), str (symbolic link)"""
    def __init__(t): t.root = {}
    def look(t, path, follow=True, depth=0):
        cur = t.root; parts = [p for p in path.split('/') if p]; at = []
        for i, p in enumerate(parts):
            if not isinstance(cur, dict) or p not in cur: return None
            n = cur[p]
            if isinstance(n, str) and (follow or i < len(parts) - 1):
                if depth > 5: return None
                n = t.look('/'.join(at + [n]), True, depth + 1)
            cur = n; at.append(p)
        return cur
    def parent(t, path):
        d, b = posixpath.split(path); p = t.look(d) if d else t.root
        return (p if isinstance(p, dict) else None), b
    def exists(t, p): return t.look(p) is not None
    def dump(t, d=None, pre=''):
        o = {}
        for k, n in (t.root if d is None else d).items():
            if isinstance(n, dict): o[pre + k] = 'd'; o.update(t.dump(n, pre + k + '/'))
            elif isinstance(n, str): o[pre + k] = 'l:' + n
            else: o[pre + k] = ('f', bytes(n.data), n.mode)
        return o

def real(root):
    o = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x); k = os.path.relpath(p, root); s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode): o[k] = 'l:' + os.readlink(p)
            elif stat.S_ISDIR(s.st_mode): o[k] = 'd'
            else: o[k] = ('f', open(p, 'rb').read(), s.st_mode & 0o777)
    return o

NAMES = ['a', 'b', 'c.txt', 'dd', 'e.js', 'f g', '.h', 'd1', 'd2', 'd1/a', 'd1/b.txt', 'd1/s', 'd1/s/x', 'd2/a', 'd2/c.txt', 'no/x', 'é']
CH = 'abcdefgh\n\n \t"\'\\xyz019{}é漢😀'

class G:
    def __init__(g, rng): g.r = rng
    def data(g, nul=True):
        r = g.r; k = r.random()
        n = 0 if k < .1 else r.randint(1, 12) if k < .6 else r.randint(13, 200) if k < .93 else r.choice([1000, 4095, 4096, 8191, 8192, 8193, 9000, 20000])
        s = ''.join(r.choice(CH) for _ in range(min(n, 60)))
        if n > 60: s = (s * (n // 60 + 1))[:n]
        if r.random() < .05: s = s.replace('\n', 'n')
        return s
    def name(g, want=None):
        r = g.r
        if want and r.random() < .8:
            c = [n for n in g.all if (lambda x: x is not None and (want == 'any' or (want == 'f') == isinstance(x, Ino)))(g.t.look(n))]
            if c: return r.choice(c)
        return r.choice(NAMES)
    def case(g, kinds, D):
        r = g.r; g.t = t = Tree(); g.all = NAMES; js = ['var D=%s;' % jstr(D)]; out = []; chan = {}
        def P(e, v): js.append('P(function() { return %s; });' % e); out.append(v)
        q = lambda n: 'D+' + jstr('/' + n)
        def busy(n):
            x = t.look(n); return any(c['ino'] is x for c in chan.values()) and x is not None
        def used(n):   # the node or anything below is open
            x = t.look(n, False)
            def sub(y): return [y] if isinstance(y, Ino) else sum((sub(z) for z in y.values()), []) if isinstance(y, dict) else []
            ids = [id(i) for i in sub(x)]; return any(id(c['ino']) in ids for c in chan.values())
        for n in r.sample(['d1', 'd2', 'd1/s'], r.randint(0, 3)):
            p, b = t.parent(n)
            if p is not None and b not in p: p[b] = {}; js.append('File.mkdir(%s);' % q(n))
        for _ in range(r.randint(5, 25)):
            k = r.choice(['write', 'write', 'write', 'append', 'read', 'read', 'copy', 'copy', 'rename', 'rename', 'remove', 'mkdir', 'link', 'trunc', 'info', 'info', 'info', 'chmod', 'glob', 'glob', 'open', 'open'] + ['chan'] * (14 if chan else 0))
            if k in ('write', 'append'):
                n = g.name('f' if r.random() < .5 else None); s = g.data(); b = s.encode()
                p, base = t.parent(n); x = t.look(n)
                if busy(n) or (p is not None and isinstance(p.get(base), str)): continue
                e = 'File.write(%s,%s%s)' % (q(n), jstr(s), '' if k == 'write' else ',"%s"' % r.choice(['ab', 'a', 'ab+']))
                if k == 'write' and r.random() < .2: e = e[:-1] + ',"%s")' % r.choice(['w', 'wb', 'w+'])
                if p is None or isinstance(x, dict): P(e, 'err')
                else:
                    if x is None: x = p[base] = Ino(b'')
                    if k == 'write': x.data[:] = b
                    else: x.data += b
                    P(e, str(len(b)))
            elif k == 'read':
                n = g.name('f'); x = t.look(n)
                if busy(n): continue
                P('File.read(%s)' % q(n), md(bytes(x.data)) if isinstance(x, Ino) else 'err')
            elif k == 'copy':
                a, b = g.name('f'), g.name('f' if r.random() < .5 else None); f = r.random() < .5
                x, y = t.look(a), t.look(b); p, base = t.parent(b)
                if busy(a) or busy(b) or isinstance(y, dict) or isinstance(x, dict) or (p is not None and isinstance(p.get(base), str)): continue
                e = 'File.copy(%s,%s%s)' % (q(a), q(b), ',true' if f else '')
                if x is None or p is None or (y is not None and not f): P(e, 'err')
                else:
                    z = Ino(x.data); z.mode = x.mode if y is not x else None
                    p[base] = z         # an existing target is replaced, not overwritten
                    P(e, 'U')
            elif k == 'rename':
                a, b = g.name('any'), g.name('any' if r.random() < .4 else None); f = r.random() < .5
                x, y = t.look(a, False), t.look(b, False); p, base = t.parent(b); pa, ba = t.parent(a)
                if isinstance(x, str) or isinstance(y, str) or used(a) or used(b): continue
                e = 'File.rename(%s,%s%s)' % (q(a), q(b), ',true' if f else '')
                if x is not None and x is y and a != b:
                    if not f: P(e, 'err')
                    continue
                if x is None or p is None or (y is not None and not f): P(e, 'err')
                elif isinstance(x, dict) and (b + '/').startswith(a + '/') and a != b: P(e, 'err')
                elif y is not None and isinstance(x, dict) != isinstance(y, dict): P(e, 'err')
                elif isinstance(y, dict) and y and a != b: P(e, 'err')
                else:
                    if a != b: del pa[ba]; p[base] = x
                    P(e, 'U')
            elif k == 'remove':
                n = g.name('any'); f = r.random() < .5; x = t.look(n, False); p, base = t.parent(n)
                if used(n): continue
                e = 'File.remove(%s%s)' % (q(n), ',true' if f else '')
                if x is None: P(e, 'U' if f else 'err')
                elif isinstance(x, dict) and x and not f: P(e, 'err')
                else: del p[base]; P(e, 'U')
            elif k == 'mkdir':
                n = r.choice(['d1', 'd2', 'd1/s', 'd1/s/t', 'd2/q/r', 'x/y/z', g.name()]); f = r.random() < .4; p, base = t.parent(n); x = t.look(n, False)
                e = 'File.mkdir(%s%s)' % (q(n), ',true' if f else '')
                if not f:
                    if p is None or x is not None: P(e, 'err')
                    else: p[base] = {}; P(e, 'U')
                else:
                    cur = t.root; ok = True
                    for c in n.split('/'):
                        if isinstance(cur, dict) and (c not in cur or isinstance(cur[c], dict)): cur = cur.setdefault(c, {}) if ok else None
                        else: ok = False; break
                    if ok and x is None: P(e, 'U')
                    elif ok: js.append('try { %s; } catch(e) {}' % e)
                    else: js.append('try { %s; } catch(e) {}' % e)
            elif k == 'link':
                a, b = g.name('f'), g.name(); h = r.random() < .5; x = t.look(a, False); p, base = t.parent(b)
                if h:
                    if isinstance(x, (str, dict)): continue
                    e = 'File.link(%s,%s,true)' % (q(a), q(b))
                    if x is None or p is None or base in p: P(e, 'err')
                    else: p[base] = x; P(e, 'U')
                else:
                    if '/' in b or '/' in a: continue
                    js.append('var od_=File.pwd(); File.chdir(D);')
                    if base in p: P('File.link(%s,%s)' % (jstr(a), jstr(b)), 'err')
                    else: p[base] = a; P('File.link(%s,%s)' % (jstr(a), jstr(b)), 'U'); P('File.readlink(%s)' % jstr(b), md(a.encode()))
                    js.append('File.chdir(od_);')
            elif k == 'trunc':
                n = g.name('f'); x = t.look(n); m = r.choice([0, 1, r.randint(0, 50), 5000])
                if busy(n): continue
                if isinstance(x, Ino):
                    P('File.truncate(%s,%d)' % (q(n), m), 'U'); x.data[:] = (bytes(x.data) + b'\0' * m)[:m]
                else: P('File.truncate(%s,%d)' % (q(n), m), 'err')
            elif k == 'chmod':
                n = g.name('f'); x = t.look(n); m = r.choice([0o600, 0o644, 0o700, 0o666, 0o640])
                if busy(n): continue
                if isinstance(x, Ino):
                    P('File.chmod(%s,%d)' % (q(n), m), 'U'); x.mode = m; P('File.perms(%s)' % q(n), md(stat.filemode(0o100000 | m).encode()))
                elif x is None: P('File.chmod(%s,%d)' % (q(n), m), 'err')
            elif k == 'info':
                n = g.name('any'); x = t.look(n)
                if busy(n): continue
                w = r.choice(['exists', 'isdir', 'isfile', 'size', 'stat'])
                if w == 'exists': P('File.exists(%s)' % q(n), 'true' if x is not None else 'false')
                elif w == 'isdir': P('File.isdir(%s)' % q(n), 'true' if isinstance(x, dict) else 'false')
                elif w == 'isfile': P('File.isfile(%s)' % q(n), 'true' if isinstance(x, Ino) else 'false')
                elif isinstance(x, Ino): P('File.size(%s)' % q(n) if w == 'size' else 'File.stat(%s).size' % q(n), str(len(x.data)))
                elif x is None: P('File.%s(%s)' % (w, q(n)), 'err')
            elif k == 'glob':
                d = r.choice(['', '', 'd1', 'd2', 'd1/s']); x = t.look(d) if d else t.root
                pat = r.choice(['*', '*', '*.txt', '*.*', 'a*', '?', '[a-c]*', '*s', 'x', 'd*'])
                if not isinstance(x, dict): P('File.glob(%s,{dir:%s})' % (jstr(pat), q(d)), 'err'); continue
                rec = r.random() < .3; ty = r.choice([None, None, 'f', 'd']); flt = r.random() < .15
                def walk(dd, pre, dep=0):
                    o = []
                    for nm in dd:
                        if nm.startswith('.'): continue
                        y = t.look(posixpath.join(d, pre + nm))
                        if y is None: continue
                        isd = isinstance(y, dict)
                        if isd and rec and dep < 6: o += walk(y, pre + nm + '/', dep + 1)
                        if ty == 'f' and isd or ty == 'd' and not isd: continue
                        if ty and isinstance(dd[nm], str) and not isd: continue
                        if not fnmatch.fnmatchcase(nm, pat): continue
                        if flt and len(nm.encode()) > 1: continue
                        o.append(pre + nm)
                    return o
                if ty and any(isinstance(v, str) for v in t.dump().values() if v != 'd'): continue
                if rec and ty == 'd': continue          # a directory is listed instead of searched
                l = sorted(walk(x, ''), key=lambda s: s.encode())
                m = r.choice(['list', 'list', 'count', 'tails', 'prefix'])
                opts = ['dir:%s' % q(d) if d else 'dir:D']
                if rec: opts.append('recurse:true')
                if ty: opts.append('types:"%s"' % ty)
                if flt: opts.append('filter:function(x) { return x.length<2; }')
                if m == 'count': opts.append('retCount:true'); v = str(len(l))
                elif m == 'tails': opts.append('tails:true'); v = 'a:' + ';'.join(sorted((posixpath.basename(z) for z in l), key=lambda s: s.encode()))
                elif m == 'prefix': opts.append('prefix:"P_"'); v = None
                else: v = 'a:' + ';'.join(l)
                if m == 'prefix': opts.pop(); v = 'a:' + ';'.join(l)
                if flt and 'é' in ''.join(l + list(t.root)): continue
                P('File.glob(%s,{%s})' % (jstr(pat), ','.join(opts)), v)
            elif k == 'open':
                if len(chan) >= 2: continue
                v = 'c%d' % len(js); n = g.name('f'); m = r.choice(['r', 'r', 'r+', 'w', 'w+', 'a', 'a+', 'rb', 'wb+'])
                x = t.look(n); p, base = t.parent(n)
                if busy(n) or p is not None and isinstance(p.get(base), str): continue
                js.append('var %s;' % v)
                bad = isinstance(x, dict) or (x is None and (m[0] == 'r' or p is None))
                P('(%s=new Channel(%s,"%s"))?"ok":"no"' % (v, q(n), m), 'err' if bad else md(b'ok'))
                if bad: continue
                if x is None: x = p[base] = Ino(b'')
                if m[0] == 'w': x.data[:] = b''
                chan[v] = dict(ino=x, pos=0, mode=m, eof=False, last=None, rd=m[0] == 'r' or '+' in m, wr=m[0] != 'r' or '+' in m, app=m[0] == 'a')
            else:
                v = r.choice(list(chan)); c = chan[v]; x = c['ino']; dt = x.data
                o = r.choice(['read', 'read', 'gets', 'gets', 'write', 'write', 'puts', 'seek', 'seek', 'tell', 'eof', 'trunc', 'close', 'flush', 'size'])
                kinds['chan.' + o] += 1
                def sync():
                    if c['last'] == 'w' or c['last'] == 'r':
                        P('%s.seek(%d,"set")' % (v, c['pos']), '0'); c['eof'] = False; c['last'] = None
                if o in ('read', 'gets'):
                    if not c['rd']: continue
                    if c['last'] == 'w': sync()
                    c['last'] = 'r'; rest = bytes(dt[c['pos']:])
                    if o == 'read':
                        if r.random() < .6:
                            n = r.choice([0, 1, 2, r.randint(1, 50), 8192, 8193, 10000]); b = rest[:n]; e = '%s.read(%d)' % (v, n)
                            if n == 0: P(e, md(b'')); continue
                            if len(b) < n: c['eof'] = True
                        else: b = rest; e = '%s.read()' % v; c['eof'] = True
                        c['pos'] += len(b)
                        try: b.decode()
                        except UnicodeDecodeError: e = '"x"+(%s,1)' % e; P(e, md(b'x1')); continue
                        P(e, md(b) if b else 'U')
                    else:
                        i = rest.find(b'\n'); b = rest[:i] if i >= 0 else rest
                        if b'\0' in b: c['last'] = None; sync() if c['last'] else None; continue
                        c['pos'] += len(b) + (i >= 0)
                        if i < 0: c['eof'] = True
                        try: b.decode()
                        except UnicodeDecodeError: P('"x"+(%s.gets(),1)' % v, md(b'x1')); continue
                        P('%s.gets()' % v, md(b) if rest else 'U')
                elif o in ('write', 'puts'):
                    s = g.data(); b = s.encode() + (b'\n' if o == 'puts' else b'')
                    if not c['wr']:
                        if o == 'write' and s: P('%s.write(%s)' % (v, jstr(s)), '0')
                        continue
                    if c['last'] == 'r': sync()
                    if o == 'write' and not s: continue
                    c['last'] = 'w'; c['eof'] = c['eof'] and False
                    if c['app']: c['pos'] = len(dt)
                    if c['pos'] > len(dt): dt += b'\0' * (c['pos'] - len(dt))
                    dt[c['pos']:c['pos'] + len(b)] = b; c['pos'] += len(b)
                    P('%s.%s(%s)' % (v, o, jstr(s)), str(len(b)) if o == 'write' else 'true')
                elif o == 'seek':
                    w = r.choice(['set', 'cur', 'end']); L = len(dt); at = {'set': 0, 'cur': c['pos'], 'end': L}[w]
                    if c['app'] and w == 'cur' and c['last'] is None: continue
                    to = r.choice([0, L, r.randint(0, L), r.randint(0, L), L + r.randint(0, 20)]); d = to - at
                    P('%s.seek(%s%d%s,"%s")' % (v, '(' if d < 0 else '', d, ')' if d < 0 else '', w), '0'); c['pos'] = to; c['eof'] = False; c['last'] = None
                    c['sk'] = 1
                elif o == 'tell':
                    if c['app'] and c['last'] is None and not c.get('sk'): continue
                    P('%s.tell()' % v, str(c['pos']))
                elif o == 'eof':
                    if c['last'] == 'w': continue
                    P('%s.eof()' % v, 'true' if c['eof'] else 'false')
                elif o == 'flush': 
                    if c['last'] != 'r': P('%s.flush()' % v, '0')
                elif o == 'size':
                    if c['last'] == 'w': P('%s.flush()' % v, '0')
                    P('%s.stat().size' % v, str(len(dt)))
                elif o == 'trunc':
                    if not c['wr']: continue
                    m = r.choice([0, r.randint(0, len(dt)), len(dt), len(dt) + 10]); P('%s.truncate(%d)' % (v, m), '0'); x.data[:] = (bytes(dt) + b'\0' * m)[:m]
                    P('%s.seek(%d,"set")' % (v, min(c['pos'], m)), '0'); c['pos'] = min(c['pos'], m); c['eof'] = False; c['last'] = None; c['sk'] = 1
                elif o == 'close':
                    P('%s.close()' % v, 'true'); del chan[v]
                    if r.random() < .3: P('%s.gets()' % v, 'U'); P('%s.write("z")' % v, '0')
            kinds[k] += 1
        for v in chan: P('%s.close()' % v, 'true')
        return '\n'.join(js), out, t.dump()

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one history of file commands and channel calls with its final tree; distinct programs'
    ctx.assumptions = ['a switch between reading and writing of one channel is separated by a seek (C stdio)', 'contents of an open file are looked at through its own channel or after closing',
                       'lines read by gets hold no NUL byte']
    kinds = collections.Counter(); g = G(ctx.sub('f')); cases, exp, trees, roots = [], [], [], []
    base = os.path.join(ctx.tmp, 'trees'); os.makedirs(base)
    while len(cases) < ctx.size(6000, 60000):
        D = '%s/%d' % (base, len(cases)); os.makedirs(D)
        c, x, t = g.case(kinds, D)
        cases.append(c); exp.append(x); trees.append(t); roots.append(D)
    out = run_cases(ctx, cases, PRE, size=40)
    for c, o, x, t, D in zip(cases, out, exp, trees, roots):
        if o is not None:
            o = o.rstrip('\n').split('\n') if o else []
            ctx.case(c.replace(D, '@'), sample=dict(program=c.replace(D, '@')[:500], observed=o[-4:])); ctx.count('results', len(x)); ctx.count('files_compared', len(t))
            bad = next((i for i in range(max(len(x), len(o))) if i >= len(x) or i >= len(o) or x[i] != o[i]), None)
            if bad is not None:
                ctx.violation('file:' + c.replace(D, '@'), 'program:\n%s\nresult %d\nexpected: %s\ngot:      %s' % (c[-3000:], bad, x[bad:bad + 1], o[bad:bad + 1]), batch_src([c], PRE))
            else:
                rt = real(D); mism = sorted(k for k in set(rt) | set(t) if not (rt.get(k) == t.get(k) or (isinstance(t.get(k), tuple) and isinstance(rt.get(k), tuple) and t[k][2] is None and rt[k][:2] == t[k][:2])))
                if mism:
                    k = mism[0]
                    ctx.violation('tree:' + c.replace(D, '@'), 'program:\n%s\nfile %s\nexpected: %s\non disk:  %s' % (c[-3000:], mism, str(t.get(k))[:300], str(rt.get(k))[:300]), batch_src([c], PRE))
        shutil.rmtree(D, ignore_errors=True)
    ctx.notes['operations'] = dict(kinds)
