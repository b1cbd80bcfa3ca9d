"""C11: regular expressions against the C library's regcomp/regexec driven directly, with a model of the global scans."""
from vf.js import *
import json, os, ctypes, locale

SRC = r'''
function T(f) { try { return f(); } catch(e) { return "ERR "+(e===""?"":"m"); } }
function mk(k) {
  if (k==0) return function() { return "<>"; };
  if (k==1) return function(m) { return "<"+m+">"; };
  if (k==2) return function(m,a) { return "<"+m+","+a+">"; };
  return null;
}
function one(c,R) {
  var o = {}, p = c[0], f = c[1], s = c[2], w = c[3], n = c[4], i, x, L = [];
  try { var r = R ? R() : new RegExp(p,f); } catch(e) { return {bad:(""+e).length>0}; }
  o.test = r.test(s);
  o.match = s.match(r);
  o.search = s.search(r);
  o.rep = s.replace(r, w);
  o.f1 = s.replace(r, function(m) { return "<"+m.toUpperCase()+">"; });
  if (n==0) o.fn = s.replace(r, function(m,o,t) { return "("+m+"|"+o+"|"+t+")"; });
  if (n==1) o.fn = s.replace(r, function(m,a,o,t) { return "("+m+"|"+a+"|"+o+"|"+t+")"; });
  if (n==2) o.fn = s.replace(r, function(m,a,b,o,t) { return "("+m+"|"+a+"|"+b+"|"+o+"|"+t+")"; });
  if (n==3) o.fn = s.replace(r, function(m,a,b,c,o,t) { return "("+m+"|"+a+"|"+b+"|"+c+"|"+o+"|"+t+")"; });
  var q = new RegExp(p,f);
  for (i=0; i<c[5].length; i++) {
    if (c[5][i]>=0) { if (f.indexOf("g")<0) continue; r.lastIndex = c[5][i]*1; }
    x = r.exec(s); L.push([x, f.indexOf("g")<0?0:r.lastIndex]);
    if (i==1 && f.indexOf("g")>=0) L.push([q.exec(s), q.lastIndex]);
  }
  o.exec = L;
  if (f=="" && p.indexOf("/")<0) o.sm = s.match(p);
  o.again = s.match(r);
  if (c[6]!="") { o.si = s.search(c[6]); o.sr = s.replace(c[6], c[3]); o.sf = s.replace(c[6], function(m) { return "{"+m+"}"; }); if (s!="") o.sp = s.split(c[6]); }
  return o;
}
'''
TAIL = r'''
var P = JSON.parse(File.read(console.args[0]));
for (var i=0; i<P.length; i++) puts(JSON.stringify(one(P[i], (LIT[i]?LIT[i]:null))));
'''
EXTENDED, ICASE, NEWLINE, STARTEND, NSUB = 1, 2, 4, 4, 48

class Rx:
    """The C library's matcher."""
    lib = ctypes.CDLL(None)
    class M(ctypes.Structure): _fields_ = [('so', ctypes.c_int), ('eo', ctypes.c_int)]
    def __init__(x, pat, flags):
        x.buf = ctypes.create_string_buffer(512)
        x.ok = x.lib.regcomp(x.buf, pat, EXTENDED | (ICASE if 'i' in flags else 0) | (NEWLINE if 'm' in flags else 0)) == 0
        x.nsub = ctypes.c_size_t.from_buffer(x.buf, NSUB).value if x.ok else 0
    def at(x, s, start):
        m = (x.M * 256)(); m[0].so = start; m[0].eo = len(s)
        if x.lib.regexec(x.buf, s, 256, m, STARTEND): return None
        return [(m[i].so, m[i].eo) for i in range(x.nsub + 1)]
    def consistent(x, s):
        """The matcher gives the same span whether or not the groups are asked for (it has faults there)."""
        for st in range(len(s) + 1):
            m = x.at(s, st); a = (x.M * 1)(); a[0].so = st; a[0].eo = len(s)
            n = x.lib.regexec(x.buf, s, 1, a, STARTEND)
            if (m is None) != (n != 0) or m and m[0] != (a[0].so, a[0].eo): return False
        return True
    def __del__(x):
        if x.ok: x.lib.regfree(x.buf)

def clen(b, i):
    n = 1
    while i + n < len(b) and b[i + n] & 0xC0 == 0x80: n += 1
    return n
def nch(b): return len(b.decode())
def bofs(b, k):
    i = 0
    while k > 0 and i <= len(b): i += clen(b, i); k -= 1
    return i

def model(c, cov):
    p, f, s, w, n, li, lit = c[:7]
    x = Rx(p.encode(), f)
    if not x.ok or not p: return dict(bad=None)
    b = s.encode(); g = 'g' in f; o = {}
    def sub(m, i): return None if m[i][0] < 0 else b[m[i][0]:m[i][1]].decode()
    def scan(glob):
        st, r = 0, []
        while st <= len(b):
            m = x.at(b, st)
            if not m: break
            r.append(m); st = m[0][1]
            if m[0][0] == m[0][1]: st += clen(b, st); cov['empty matches'] = cov.get('empty matches', 0) + 1
            if not glob: break
        return r
    ms = scan(g); cov['matches'] = cov.get('matches', 0) + len(ms)
    first = x.at(b, 0)
    o['test'] = first is not None
    one = lambda m: [sub(m, i) for i in range(x.nsub + 1)]
    for m in ms:
        for i in range(1, x.nsub + 1): k = 'unmatched groups' if m[i][0] < 0 else 'matched groups'; cov[k] = cov.get(k, 0) + 1
    o['match'] = o['again'] = None if not ms else [sub(m, 0) for m in ms] if g else one(ms[0])
    o['search'] = nch(b[:first[0][0]]) if first else -1
    def rep(fn):
        out, e = [], 0
        for m in ms: out.append(b[e:m[0][0]]); out.append(fn(m)); e = m[0][1]
        return (b''.join(out) + b[e:]).decode()
    def text(m):
        wb = w.encode(); r = b''; j = 0
        while j < len(wb):
            ch = wb[j:j + 1]; nx = wb[j + 1:j + 2]
            if ch != b'$' or not nx: r += ch; j += 1; continue
            j += 2
            if nx.isdigit(): k = int(nx); r += b[m[k][0]:m[k][1]] if k <= x.nsub and m[k][0] >= 0 else b''
            elif nx == b'&': r += b[m[0][0]:m[0][1]]
            elif nx == b'$': r += b'$'
            elif nx == b"'": r += b[m[0][1]:]
            elif nx == b'`': r += b[:m[0][0]]
            else: r += b'$' + nx
        return r
    o['rep'] = rep(text)
    up = lambda t: bytes(ch - 32 if 97 <= ch <= 122 else ch for ch in t)
    o['f1'] = rep(lambda m: b'<' + up(b[m[0][0]:m[0][1]]) + b'>')
    if n == x.nsub and n <= 3:
        o['fn'] = rep(lambda m: ('(' + '|'.join(['null' if v is None else v for v in one(m)] + [str(nch(b[:m[0][0]])), s]) + ')').encode())
    L = []; last = 0; ql = 0
    for i, k in enumerate(li):
        if k >= 0:
            if not g: continue
            last = k
        def ex(last):
            st = bofs(b, last) if g else 0
            m = x.at(b, st) if st <= len(b) else None
            return [one(m) if m else None, (nch(b[:m[0][1]]) if m else 0) if g else 0]
        L.append(ex(last)); last = L[-1][1]
        if i == 1 and g: L.append(ex(0))
    o['exec'] = L
    if f == '' and '/' not in p: o['sm'] = o['match']
    if lit:
        o['si'] = s.find(lit); o['sr'] = s.replace(lit, w, 1); o['sf'] = s.replace(lit, '{' + lit + '}', 1)
        if s: o['sp'] = s.split(lit)
    return o

class G:
    def __init__(g, r): g.r = r; g.uni = r.random() < .15; g.depth = 0; g.groups = 0; g.ref = r.random() < .06
    def lit(g):
        k = g.r.random()
        if g.uni and k < .3: return g.r.choice(['(é)', '(漢)', 'é', '漢b', 'aé'])
        if k < .8: return g.r.choice('aaabbcAB1 x-_,')
        return g.r.choice(['\\.', '\\*', '\\+', '\\?', '\\(', '\\)', '\\[', '\\]', '\\{', '\\}', '\\|', '\\^', '\\$', '\\\\', '/', '"', "'", '\t', ':', '=', '@', '#', '%', '&', '~'])
    def cset(g):
        neg = '^' if not g.uni and g.r.random() < .3 else ''
        parts = ''.join(g.r.choice(['a', 'b', 'c', 'a-c', 'A-B', '0-9', '1', ' ', '[:alpha:]', '[:digit:]', '[:space:]', '[:upper:]', '[:punct:]', '.', '*', '_', '$', '\\', '(', '|', 'x-z']) for _ in range(g.r.randint(1, 3)))
        return '[' + neg + g.r.choice([']', '', '', '', '']) + parts + g.r.choice(['-', '', '', '']) + ']'
    def atom(g, d):
        k = g.r.random()
        if k < .45: return g.lit(), False
        if k < .55: return '.' if not g.uni else 'a', False
        if k < .67: return g.cset(), False
        if k < .73: return g.r.choice(['\\w', '\\s'] + ([] if g.uni else ['\\W', '\\S'])), False
        if g.ref and g.groups and k < .8: return '\\%d' % g.r.randint(1, min(g.groups, 9)), True
        if d > 0:
            g.groups += 1
            t, n = g.alt(d - 1)
            return '(' + t + ')', n
        return g.lit(), False
    def piece(g, d):
        """A piece of a pattern and whether it can match nothing."""
        k = g.r.random()
        if k < .06: return '^', True
        if k < .12: return '$', True
        if k < .17: return g.r.choice(['\\b', '\\<', '\\>'] + ([] if g.uni else ['\\B'])), True
        a, null = g.atom(d); k = g.r.random()
        if g.uni and not a.endswith(')') and ord(a[-1]) > 127: return a, null
        if null:      # the C library's matcher may not end on a repeated group which can be empty
            return a + ('?' if k < .3 else ''), True
        if k < .12: return a + '*', True
        if k < .24: return a + '?', True
        if k < .33: return a + '+', False
        if k < .4:
            m = g.r.randint(0, 3); return a + g.r.choice(['{%d}' % m, '{%d,}' % m, '{%d,%d}' % (m, m + g.r.randint(0, 3))]), m == 0
        return a, False
    def seq(g, d):
        ps = [g.piece(d) for _ in range(g.r.choice([0, 1, 1, 2, 2, 3, 4]) if d < 2 else g.r.randint(1, 4))]
        return ''.join(p for p, _ in ps), all(n for _, n in ps)
    def alt(g, d):
        ss = [g.seq(d) for _ in range(g.r.choice([1, 1, 1, 2, 2, 3]))]
        return '|'.join(s for s, _ in ss), any(n for _, n in ss)
    def pattern(g):
        p, _ = g.alt(g.r.choice([0, 1, 1, 2, 2, 3] if not g.ref else [1]))
        if g.r.random() < .04:     # break it
            i = g.r.randint(0, len(p)); p = p[:i] + g.r.choice(['(', ')', '[', '*', '{', '{3', '{2,1}', '\\', '[[:foo:]]', '[b-a]', '+', '[:a:]', '\\9']) + p[i:]
        return p
    def subject(g):
        n = g.r.choice([0, 1, 2, 3, 5, 8, 12, 20])
        return ''.join(g.r.choice('aaabbbccABx1  -_,.\n/(*' + ('é漢é' if g.uni else '')) for _ in range(n))
    def repl(g):
        return ''.join(g.r.choice(['$1', '$2', '$&', '$$', "$'", '$`', '$0', '$9', '$', '$x', 'Z', '-', '', '<>', 'é', '\\1', '$10', '&']) for _ in range(g.r.choice([0, 1, 1, 2, 3, 4])))
    def case(g):
        p = g.pattern(); f = ''.join(x for x in 'gim' if g.r.random() < (.5 if x == 'g' else .25))
        if g.r.random() < .3: f = f[::-1]
        s = g.subject()
        if g.r.random() < .5:     # letters of the pattern in its order, several times
            t = ''.join(x for x in p if x.isalnum() or x in ' -_,éèab漢' or g.r.random() < .1); s = ''.join(g.r.choice([t, t, t[:3], s[:2], t[:1], '\n']) for _ in range(g.r.randint(1, 4)))[:60]
        li = [-1 if g.r.random() < .8 else g.r.choice([0, 1, 2, 3, 5, 9, len(s), len(s) + 1]) for _ in range(6)]
        lit = ''.join(g.r.choice('abc A.$(\n' + ('é' if g.uni else '')) for _ in range(g.r.choice([0, 1, 1, 2])))
        return [p, f, s, g.repl(), 0, li, lit]

def block(ctx, i, n):
    r = ctx.sub('b%d' % i); cov = {}; cases = []; exp = []
    for _ in range(n):
        c = G(r).case(); x = Rx(c[0].encode(), c[1]); c[4] = x.nsub if x.ok else 0
        if x.ok and not x.consistent(c[2].encode()): cov['skipped: the reference contradicts itself'] = cov.get('skipped: the reference contradicts itself', 0) + 1; continue
        cases.append(c); exp.append(model(c, cov))
    # half of the valid patterns that can be written as a literal are
    lits = []
    for j, (c, e) in enumerate(zip(cases, exp)):
        p = c[0]
        if 'bad' in e or r.random() < .5 or '\n' in p or '/' in p or p[-1] == '\\' or p[0] == '*' or '"' in p or "'" in p or '\t' in p: continue
        lits.append('LIT[%d] = function() { var q = /%s/%s; return q; };\n' % (j, p, c[1]))
    d = ctx.mkdir(); f = os.path.join(d, 'd.json'); json.dump([c[:7] for c in cases], open(f, 'w'))
    src = SRC + 'var LIT = [];\n' + ''.join(lits) + TAIL
    R = ctx.js(src, args=[f], timeout=120)
    rep = 'pattern cases (file): %s\n%s' % (json.dumps(cases)[:20000], src)
    if not ctx.sanity(R, key='crash', what='regex block %d' % i, replay=rep): return
    lines = [l for l in R.text.split('\n') if l]
    n = len(cases)
    if len(lines) != n:
        ctx.violation('stopped', 'block %d ended after %d of %d cases: %r' % (i, len(lines), n, R.etext[-300:]), replay=rep); return
    for c, e, l in zip(cases, exp, lines):
        ctx.case((''.join(sorted(c[1])), c[4], 'bad' if 'bad' in e else min(len(e['match'] or []), 6), '$' in c[3], ''.join(x for x in '^$|*?{[.\\' if x in c[0])))
        try: got = json.loads(l)
        except ValueError: ctx.violation('output', 'unreadable result %r for %r' % (l[:200], c), replay=json.dumps(c)); continue
        if 'bad' in e:
            ctx.count('invalid patterns')
            if 'bad' not in got: ctx.violation('invalid accepted', 'the invalid pattern %r was accepted' % c[0], replay=json.dumps(c))
            elif not got['bad'] and c[0]: ctx.violation('invalid message', 'no message for %r' % c[0], replay=json.dumps(c))
            continue
        for k in e:
            if got.get(k) != e[k]:
                ctx.violation(k, '%s of %r flags %r on %r (replacement %r): got %s, expected %s' % (k, c[0], c[1], c[2], c[3], json.dumps(got.get(k)), json.dumps(e[k])), replay=json.dumps(c)); break
            ctx.count('observations')
    ctx.count('literal patterns', len(lits))
    for k, v in cov.items(): ctx.count(k, v)

def run(ctx):
    locale.setlocale(locale.LC_ALL, 'C')
    ctx.build()
    ctx.rule = 'pattern construct x flags x function (test, exec with lastIndex, match, search, replace by text and by function, split)'
    ctx.assumptions = ['glibc regcomp/regexec in the C locale is the reference for the pattern language', 'non-ASCII text is matched as bytes: patterns that can split a character are not generated for such subjects']
    n = ctx.size(250, 6000); per = 120
    ctx.pmap(lambda i: block(ctx, i, per), range(n))
