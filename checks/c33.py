"""C33: path functions against Python's posixpath and the real file system, in a scratch tree with symlinks."""
from vf.js import *
import json, os, posixpath as pp, pwd

SRC = r'''
var P = JSON.parse(File.read(console.args[0]));
var F = ["realpath","normalize","dirname","tail","rootname","extension","isrelative"];
for (var i=0; i<P.length; i++) {
  var o = {}, p = P[i][0], q = P[i][1];
  for (var j=0; j<F.length; j++) { try { var v = File[F[j]](p); o[F[j]] = v; if (F[j]=="normalize") o.twice = File.normalize(v); if (F[j]=="realpath") o.rtwice = File.realpath(v); } catch(e) { o[F[j]] = "ERR "+e; } }
  try { o.join = File.join(p,q); } catch(e) { o.join = "ERR "+e; }
  puts(JSON.stringify(o));
}
'''

class G:
    def __init__(g, r, names): g.r = r; g.names = names
    def comp(g):
        r = g.r; k = r.random()
        if k < .22: return '..'
        if k < .34: return '.'
        if k < .75: return r.choice(g.names)
        if k < .8: return r.choice(['...', '..a', '.a', 'a.', '.a.b', 'a..b', '~', 'a~', '-', ' ', 'é漢', 'x y', '.tar.gz', '..', 'a.b.c', '.', '\\', 'a\\b', '%s', 'C:', '*'])
        return ''.join(r.choice('abc.é ') for _ in range(r.randint(1, 6)))
    def path(g, root):
        r = g.r; n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 12] + [60] * (r.random() < .1))
        s = ''
        for i in range(n):
            s += g.comp() + '/' * r.choice([1] * 8 + [2, 3])
        if r.random() < .8: s = s.rstrip('/')
        k = r.random()
        if k < .35: s = root + '/' * r.choice([1, 1, 1, 2]) + s
        elif k < .5: s = '/' * r.choice([1, 1, 2, 3]) + s
        elif k < .55: s = '~/' + s
        elif k < .57: s = '~'
        return s or r.choice(['.', '/', '..'])

def expand(p, home): return home + p[1:] if p == '~' or p.startswith('~/') else p

def tree(root, r):
    names = ['a', 'b', 'c', 'd.e', 'f.txt', 'ln', 'lf', 'lu', 'la', 'no', 'b.c']
    for d in ['a', 'a/b', 'a/b/c', 'b', 'b/a', 'b/a/d.e', 'c', 'c/b.c', 'a/c']: os.makedirs(os.path.join(root, d), exist_ok=True)
    for f in ['f.txt', 'a/f.txt', 'a/b/f.txt', 'b/a/f.txt', 'c/f.txt']: open(os.path.join(root, f), 'w').close()
    for l, t in [('ln', 'a/b'), ('a/ln', '../b/a'), ('b/ln', root + '/c'), ('lf', 'a/f.txt'), ('a/b/lu', '..'), ('c/lu', '../..'), ('la', root), ('b/lf', 'none')]: os.symlink(t, os.path.join(root, l))
    return names

def kept(p, cwd):
    """Components after the first one which does not exist: no symlink among the names may matter there."""
    full = p if p.startswith('/') else cwd + '/' + p
    cur = '/'
    cs = [c for c in full.split('/')]
    for i, c in enumerate(cs):
        nx = cur + '/' + c if c else cur
        if not os.path.exists(nx): return [x for x in cs[i:] if x]
        cur = nx
    return None

def block(ctx, i, n):
    r = ctx.sub('b%d' % i); root = os.path.join(ctx.tmp, 'b%d' % i, 't'); os.makedirs(root); root = os.path.realpath(root)
    names = tree(root, r); cwd = r.choice([root, root, root + '/a', root + '/a/b', root + '/b/a', root + '/ln', root + '/c', '/'])
    g = G(r, names)
    P = [(g.path(root), g.path(root)) for _ in range(n)]
    f = root + '/../in.json'; open(f, 'w').write(json.dumps(P))
    s = root + '/../s.jsi'; open(s, 'w').write(SRC)
    res = ctx.run([s, f], cwd=cwd, timeout=120, env={'HOME': pwd.getpwuid(os.getuid()).pw_dir})
    if not ctx.sanity(res, 'run', 'paths', json.dumps(P)[:20000] + '\n' + res.etext): return
    out = [json.loads(l) for l in res.text.splitlines() if l.startswith('{')]
    if len(out) != n: ctx.violation('short', 'only %d of %d answers; stderr %s' % (len(out), n, res.etext[:500]), json.dumps(P)); return
    cwd = os.path.realpath(cwd); home = pwd.getpwuid(os.getuid()).pw_dir
    slinks = {'ln', 'lf', 'lu', 'la'}
    for (p, q), o in zip(P, out):
        def bad(k, msg, *a): ctx.violation(k, '%s: path %r cwd %r: got %r %s' % (k, p, cwd, a and a[0], msg), json.dumps([p, q, cwd, o], ensure_ascii=False, indent=1))
        def real(x): x = expand(x, home); return os.path.realpath(x if x.startswith('/') else cwd + '/' + x)
        def known(x):
            t = kept(expand(x, home), cwd)
            if t is None: ctx.count('existing'); return True
            ctx.count('missing')
            return not (set(t) & slinks)
        ctx.count('paths')
        kd = 'abs' if p[0] == '/' else 'tilde' if p[0] == '~' else 'rel'
        shape = '%s %s %s %s' % (kd, 'dotdot' if '..' in p.split('/') else '', 'dot' if '.' in p.split('/') else '', 'slashes' if '//' in p or p.endswith('/') else '')
        ctx.case(shape)
        # realpath: the path of the same file without links, . and ..
        if known(p):
            w = real(p)
            if o['realpath'] != w: bad('realpath', 'expected %r' % w, o['realpath'])
            elif o.get('rtwice') != w: bad('realpath twice', 'expected %r' % w, o.get('rtwice'))
        # normalize: an absolute name of the same file, without empty and . parts inside, unchanged by a second pass
        nz = o['normalize']; e = expand(p, home); full = e if e.startswith('/') else cwd + '/' + e
        if not isinstance(nz, str) or not nz.startswith('/'): bad('normalize', 'is not an absolute path', nz)
        else:
            if o.get('twice') != nz: bad('normalize twice', 'and %r the second time' % o.get('twice'), nz)
            w = [c for c in full.split('/') if c not in ('', '.')]
            if [c for c in nz.split('/') if c not in ('', '.')] != w: bad('normalize', 'expected /%s' % '/'.join(w), nz)
            if '//' in nz or '/./' in nz: bad('normalize', 'still has empty or . parts', nz)
        # parts
        if '/' in p and p.rindex('/') == len(p) - 1: wt = ''
        else: wt = p.split('/')[-1]
        if o['tail'] != wt: bad('tail', 'expected %r' % wt, o['tail'])
        if p != '..':
            d = o['dirname']
            if not isinstance(d, str) or d == '': bad('dirname', 'is no path', d)
            elif '/' not in p: 
                if d != '.': bad('dirname', "expected '.'", d)
            elif [c for c in (d + '/' + wt).split('/') if c] != [c for c in p.split('/') if c] or (d[0] == '/') != (p[0] == '/'): bad('dirname', 'does not recombine with %r' % wt, d)
        we = wt[wt.rindex('.'):] if '.' in wt else ''
        if o['extension'] != we: bad('extension', 'expected %r' % we, o['extension'])
        wr = p[:len(p) - len(we)]
        if o['rootname'] != wr: bad('rootname', 'expected %r' % wr, o['rootname'])
        if p[0] != '~' and o['isrelative'] is not (p[0] != '/'): bad('isrelative', '', o['isrelative'])
        # join
        j = q if q[0] in '/~' else p + '/' + q
        if known(j):
            if o['join'] != real(j): bad('join', 'with %r expected %r' % (q, real(j)), o['join'])

def run(ctx):
    ctx.build('asan')
    nb = ctx.size(160, 3000)
    ctx.pmap(lambda i: block(ctx, i, 200), range(nb))
    ctx.rule = 'form of the path (absolute, relative, ~) x parts in it (.., ., doubled or trailing slashes)'
    ctx.assumptions = ['os.path.realpath resolves links and .. as the kernel does', 'no symlink lies behind a missing part of a path (there is nothing to compare with)', 'isrelative of ~ paths and dirname of ".." are not judged']
