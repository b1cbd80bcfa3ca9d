"""C17: safe mode. Random programs of file, database, exec, load, sub-interpreter and settings operations with hostile path
spellings run as an unprivileged user in a scratch tree: everything outside the granted directories must stay as it was and
its (random) contents and names must never appear in the output; the same operations inside the grants must do their work."""
from vf.js import *
import os, random, shutil, sqlite3, subprocess, zipfile

PRE = r'''
function P(r) { if (r===undefined) return "undef"; if (typeof r=="string") return r; var s; try { s=JSON.stringify(r); } catch(e) { s="obj"; } return ""+s; }
'''
SO = r'''#include <unistd.h>
#include <string.h>
__attribute__((constructor)) static void f(void){const char*s="%s\n";write(1,s,strlen(s));}
int Jsi_Initevil(void*i,int r){return 0;}
'''

def tree(r, d, so):
    """the scratch tree and its secrets"""
    tok = lambda p: p + ''.join(r.choice('ABCDEFGHJKLMNPQR') for _ in range(12))
    T = {'sec': tok('SECRET'), 'name': tok('NAME'), 'so': SOTOK}
    def w(p, s):
        p = os.path.join(d, p); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(s)
    w('g/ro/a.txt', 'alpha\n'); w('g/ro/sub/b.txt', 'beta\n'); w('g/ro/mod.jsi', 'puts("modran");\n')
    w('g/rw/x.txt', 'xx\n'); w('g/rw/d/e/f.txt', 'deep\n'); w('g/rw/w/keep', 'k'); w('g/rw/out/secret.txt', 'inside\n'); w('g/rw/out/new.txt', 'inside\n')
    for p in ('out', 'g/roX', 'g/rw2', 'g/out'):
        w(p + '/secret.txt', T['sec'] + '\n'); w(p + '/secret.jsi', 'puts("%s");\n' % T['sec']); w(p + '/dir/' + T['name'], 'n\n')
        w(p + '/bad.jsi', 'var %s = = 3;\n' % T['sec']); w(p + '/conf.json', '{isSafe:false, safeReadDirs:["/"], name:"%s"}' % T['sec'])
        w(p + '/big', 'z' * 4321)
        w(p + '/tab.txt', 'a\t%s\n' % T['sec'])
        db = sqlite3.connect(os.path.join(d, p, 's.db')); db.execute('create table s(v)'); db.execute('insert into s values(?)', (T['sec'],)); db.commit(); db.close()
        with zipfile.ZipFile(os.path.join(d, p, 'z.zip'), 'w', zipfile.ZIP_STORED) as z: z.writestr('f.txt', T['sec'])
        shutil.copy(so, os.path.join(d, p, 'libevil.so'))
    shutil.copy(os.path.join(d, 'out/libevil.so'), os.path.join(d, 'g/ro/evil.so'))
    w('g/ro/conf.json', '{isSafe:false, noLoad:false, safeMode:"writeRead", safeReadDirs:["/"], safeWriteDirs:["/"]}')
    for g in ('ro', 'rw'):
        for n, t in (('lf', '../../out/secret.txt'), ('ld', '../../out'), ('ldb', '../../out/s.db'), ('dang', '../../out/newfile'), ('dangd', '../../out/newdir'),
                     ('labs', os.path.join(d, 'out/secret.txt')), ('chain', 'lf'), ('lsub', '../../out/dir'), ('up', '..')):
            os.symlink(t, os.path.join(d, 'g', g, n))
    os.symlink('sub', os.path.join(d, 'g/ro/lin')); os.symlink('d/e', os.path.join(d, 'g/rw/s')); os.symlink('../g/rw/d/e', os.path.join(d, 'out/back'))
    for b, ds, fs in os.walk(d):
        os.lchown(b, 65534, 65534); os.utime(b, (1e9, 1e9))
        for f in fs + ds: os.lchown(os.path.join(b, f), 65534, 65534)
    return T

def snap(d, writable):
    o = {}
    for b, ds, fs in os.walk(d):
        rel = os.path.relpath(b, d)
        ds[:] = [x for x in ds if os.path.normpath(os.path.join(rel, x)) not in writable]
        if rel not in WATCHSKIP: o[rel + '/'] = (os.lstat(b).st_mode, os.lstat(b).st_mtime_ns, tuple(sorted(ds)))
        for f in fs + [x for x in ds if os.path.islink(os.path.join(b, x))]:
            p = os.path.join(b, f); q = os.path.normpath(os.path.join(rel, f))
            if q in WATCHSKIP: continue
            st = os.lstat(p)
            o[q] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_nlink, os.readlink(p) if os.path.islink(p) else open(p, 'rb').read())
    return o
WATCHSKIP = set()
SOTOK = 'EVILLIBRARYRAN'

class H:
    def __init__(h, r, d, mode, chk):
        h.r = r; h.d = d; h.n = 0; h.mode = mode; h.o = []; h.exp = {}; h.kinds = []; h.files = {}; h.chk = chk; h.cwd = d; h.mustex = {}
    # ---- paths
    def outside(h, kind='f'):
        r = h.r; base = r.choice(['out', 'out', 'g/roX', 'g/rw2', 'g/out'])
        leaf = {'f': ['secret.txt', 'secret.jsi', 'bad.jsi', 'tab.txt', 'big'], 'd': ['', 'dir'], 'db': ['s.db'], 'so': ['libevil.so'], 'zip': ['z.zip'], 'new': ['new%d' % r.randint(0, 9), 'dir/new.txt'], 'conf': ['conf.json'], 'jsi': ['secret.jsi', 'bad.jsi']}[kind]
        return os.path.join(h.d, base, r.choice(leaf)).rstrip('/')
    def spell(h, p, plain=False):
        """another spelling of the absolute path p (which may not exist)"""
        r = h.r; k = r.random()
        parts = p.split('/')[1:]; out = []
        for i, c in enumerate(parts):
            out.append(c)
            if i + 1 < len(parts) and r.random() < .15: out.append('.')
            if i + 1 < len(parts) and r.random() < .12: out.append('')
            if r.random() < .1 and i + 1 < len(parts) and os.path.isdir('/' + '/'.join(parts[:i + 1])) and i > 2:
                out += ['..', c]
        s = '/' + '/'.join(out)
        if plain or k < .35: return s if r.random() < .6 else p
        if k < .55:
            return os.path.relpath(p, h.cwd) if r.random() < .7 else './' + os.path.relpath(p, h.cwd)
        if k < .72:   # down into a grant and back up
            g = os.path.join(h.d, 'g', r.choice(['ro', 'rw', 'ro/sub', 'rw/d', 'rw/d/e']))
            return g + '/' + os.path.relpath(p, g)
        if k < .8:    # through a missing directory
            g = os.path.join(h.d, 'g', r.choice(['ro', 'rw'])); return g + '/nosuch/../' + os.path.relpath(p, g)
        if k < .9:    # lexically outside, really inside, or the reverse: rw/s -> rw/d/e
            g = os.path.join(h.d, 'g/rw'); return g + '/s/' + r.choice(['../../', '../', '../../../']) + os.path.relpath(p, g)
        if k < .95: return p + r.choice(['/', '/.', '//'])
        return '/' + './/' * r.choice([5, 700, 1400]) + p[1:]
    def hostile(h, kind):
        """a path that means something outside the grants"""
        r = h.r; k = r.random(); G = os.path.join(h.d, 'g', r.choice(['ro', 'rw']))
        if k < .6: return h.spell(h.outside(kind))
        if kind == 'f': return G + r.choice(['/lf', '/labs', '/chain', '/ld/secret.txt', '/up/out/secret.txt', '/up/roX/secret.txt', '/../roX/secret.txt', '/ld/../out/secret.txt'])
        if kind == 'd': return G + r.choice(['/ld', '/lsub', '/ld/dir', '/up/out', '/up', '/..', '/ld/', '/ld/.'])
        if kind == 'db': return r.choice([G + '/ldb', G + '/ld/s.db', G + '/up/out/s.db', os.path.join(h.d, 'g/rw/s/../../out/s.db'), 'file:' + h.d + '/out/s.db', 'file:' + h.d + '/out/s.db?mode=ro'])
        if kind == 'new': return G + r.choice(['/dang', '/ld/nn', '/dangd/x', '/up/nn2', '/ld/dir/q', '/up/out/zz', '/dangd', '/../roX/new2', '/s/../../../nn5', '/ld/nd/../nn'])
        if kind == 'zip': return G + '/ld/z.zip'
        if kind == 'so': return r.choice([G + '/ld/libevil.so', os.path.join(h.d, 'g/ro/evil.so')])
        if kind == 'conf': return r.choice([G + '/ld/conf.json', os.path.join(h.d, 'g/ro/conf.json')])
        if kind == 'jsi': return G + '/ld/secret.jsi'
    def direct(h, kind): return h.spell(h.outside(kind), True)
    def inn(h, p, rw=True): return h.spell(os.path.join(h.d, 'g', 'rw' if rw else 'ro', p), True)
    def newin(h): h.n += 1; return os.path.join(h.d, 'g/rw', 'h%d' % h.n)
    # ---- emit
    def put(h, kind, js, must=None, exp=None):
        i = len(h.kinds); h.kinds.append(kind)
        h.o.append('try { puts("#%d ok "+P(%s)); } catch(e) { puts("#%d ex "+e); }' % (i, js, i))
        if must: h.mustex[i] = (must, js)
        if exp is not None: h.exp[i] = (exp, js)
    def fn(h, body): return '(function() { %s })()' % body
    def attack(h):
        r = h.r; q = jstr
        k = r.choice(['read', 'read', 'write', 'append', 'chanr', 'chanw', 'copyout', 'copyin', 'copy2', 'rename', 'renin', 'link', 'hard', 'readlink', 'remove', 'rmdir', 'rmforce', 'mkdir', 'mkdirf', 'mknod',
                      'chmod', 'temp', 'trunc', 'trunc2', 'glob', 'globr', 'globp', 'stat', 'lstat', 'size', 'chdir', 'chdirin', 'source', 'sourcebad', 'require', 'load', 'import', 'dbopen', 'dbnew', 'attach', 'attachnew', 'vacinto', 'backup', 'restore', 'dbimport', 'dbload', 'dbro', 'pragma',
                      'exec', 'execb', 'exec2', 'conf', 'sub', 'sub', 'subconf', 'sublock', 'zmount', 'zlist', 'zcreate', 'vmount', 'vexec', 'relink', 'relink2', 'long', 'pkg', 'auto', 'linkdb', 'fileconf', 'parent', 'lock'])
        D = h.direct
        if k == 'read': h.put(k, 'File.read(%s)' % q(h.hostile('f')))
        elif k == 'write': h.put(k, 'File.write(%s,"PWN")' % q(h.hostile(r.choice(['f', 'new']))))
        elif k == 'append': h.put(k, 'new Channel(%s,"%s").write("PWN")' % (q(h.hostile(r.choice(['f', 'new']))), r.choice(['a', 'a+', 'ab'])))
        elif k == 'chanr': h.put(k, 'new Channel(%s,"%s").read()' % (q(h.hostile('f')), r.choice(['r', 'rb', 'r+'])))
        elif k == 'chanw': h.put(k, 'new Channel(%s,"%s").puts("PWN")' % (q(h.hostile(r.choice(['f', 'new']))), r.choice(['w', 'wb', 'w+', 'r+'])))
        elif k == 'copyout': h.put(k, 'File.copy(%s,%s%s)' % (q(h.inn('x.txt')), q(h.hostile(r.choice(['f', 'new']))), r.choice(['', ',true'])))
        elif k in ('copyin', 'copy2'):
            t = h.newin(); h.put(k, h.fn('File.copy(%s,%s); return File.read(%s);' % (q(h.hostile('f')), q(t), q(t))))
        elif k == 'rename': h.put(k, 'File.rename(%s,%s%s)' % (q(h.inn('x.txt')), q(h.hostile('new')), r.choice(['', ',true'])))
        elif k == 'renin':
            t = h.newin(); h.put(k, h.fn('File.rename(%s,%s); return File.read(%s);' % (q(h.hostile('f')), q(t), q(t))))
        elif k in ('link', 'hard'):
            t = h.newin(); h.put(k, h.fn('try { File.link(%s,%s%s); } catch(e) {}; return File.read(%s);' % (q(h.hostile('f')), q(t), ',true' if k == 'hard' else r.choice(['', ',false']), q(t))))
        elif k == 'readlink': h.put(k, 'File.readlink(%s)' % q(os.path.join(h.d, 'out/back')), k)
        elif k == 'remove': h.put(k, 'File.remove(%s)' % q(h.hostile('f')))
        elif k == 'rmdir': h.put(k, 'File.remove(%s)' % q(h.hostile('d')))
        elif k == 'rmforce': h.put(k, 'File.remove(%s,true)' % q(h.hostile(r.choice(['f', 'd']))))
        elif k == 'mkdir': h.put(k, 'File.mkdir(%s)' % q(h.hostile('new')))
        elif k == 'mkdirf': h.put(k, 'File.mkdir(%s,true)' % q(h.hostile('new') + '/p/q'))
        elif k == 'mknod': h.put(k, 'File.mknod(%s,4480,0)' % q(h.hostile('new')))
        elif k == 'chmod': h.put(k, 'File.chmod(%s,448)' % q(h.hostile(r.choice(['f', 'd']))))
        elif k == 'temp': h.put(k, 'File.tempfile(%s)' % q(h.hostile('new') + 'XXXXXX'))
        elif k == 'trunc': h.put(k, 'File.truncate(%s,2)' % q(h.hostile('f')))
        elif k == 'trunc2': h.put(k, 'new Channel(%s,"r+").truncate(2)' % q(h.hostile('f')))
        elif k == 'glob': h.put(k, 'File.glob(%s)' % q(h.hostile('d') + r.choice(['/*', '/*/*', '/'])))
        elif k == 'globr': h.put(k, 'File.glob(%s,{recurse:true,retInfo:false})' % q(r.choice([h.d + '/g/rw', h.d + '/g/ro', h.d, h.d + '/out', 'g', '.'])))
        elif k == 'globp': h.put(k, 'File.glob("*",{dir:%s%s})' % (q(h.hostile('d')), r.choice(['', ',recurse:true', ',types:"fd"', ',tails:true'])))
        elif k in ('stat', 'lstat', 'size'): h.put(k, 'File.%s(%s)' % (k, q(D('f'))), k)
        elif k == 'chdir': h.put(k, h.fn('File.chdir(%s); return File.read("secret.txt");' % q(h.hostile('d'))))
        elif k == 'chdirin':
            p = r.choice(['g/rw', 'g/rw/d', 'g/ro', 'g/ro/sub'])
            h.put(k, 'File.chdir(%s)' % q(os.path.join(h.d, p)))
            if h.mode['r'] and (p.startswith('g/ro') or h.mode['rwread']): h.cwd = os.path.join(h.d, p)
        elif k == 'source': h.put(k, 'source(%s)' % q(h.hostile('jsi')))
        elif k == 'sourcebad': h.put(k, 'source([%s,%s]%s)' % (q(D('jsi')), q(D('f')), r.choice(['', ',{exists:true}', ',{noError:true}'])))
        elif k == 'require': h.put(k, h.fn('Interp.conf({pkgDirs:[%s]}); return require("secret");' % q(h.hostile('d'))))
        elif k == 'pkg': h.put(k, h.fn('Interp.conf({pkgDirs:[%s]}); return require("libevil");' % q(h.hostile('d'))))
        elif k == 'auto': h.put(k, h.fn('Interp.conf({autoFiles:[%s]}); return NoSuchCmd%d(1);' % (q(h.hostile('jsi')), r.randint(0, 9))))
        elif k == 'load': h.put(k, 'load(%s)' % q(h.hostile('so')))
        elif k == 'import': h.put(k, 'import(%s)' % q(h.hostile('jsi')))
        elif k == 'dbopen': h.put(k, h.fn('var db=new Sqlite(%s); return db.query("select * from s",{mode:"json"});' % q(h.hostile('db'))))
        elif k == 'dbro': h.put(k, h.fn('var db=new Sqlite(%s,{readonly:true}); return db.onecolumn("select v from s");' % q(h.hostile('db'))))
        elif k == 'dbnew': h.put(k, h.fn('var db=new Sqlite(%s); db.eval("create table t(a); insert into t values(1)"); return 1;' % q(h.hostile('new'))))
        elif k == 'attach': h.put(k, h.fn('var db=new Sqlite(%s%s); db.%s; return db.onecolumn("select v from z.s");' % (r.choice(['":memory:"', q(h.newin())]), r.choice(['', ',{onAuth:function(db,a,b,c,d,e) { return "SQLITE_OK"; }}']),
            r.choice(["eval(%s)", "query(%s)"]) % q("attach %s as z" % sq(r, h.hostile('db'))))))
        elif k == 'attachnew': h.put(k, h.fn('var db=new Sqlite(%s); db.eval(%s); db.eval("create table z.t(a)"); return 1;' % (q(h.newin()), q("attach %s as z" % sq(r, h.hostile('new'))))))
        elif k == 'vacinto': h.put(k, h.fn('var db=new Sqlite(%s); db.eval("create table t(a)"); db.eval(%s); return 1;' % (r.choice(['":memory:"', q(h.newin())]), q("vacuum into %s" % sq(r, h.hostile('new'))))))
        elif k == 'backup': h.put(k, h.fn('var db=new Sqlite(":memory:"); db.eval("create table t(a)"); db.backup(%s); return 1;' % q(h.hostile(r.choice(['new', 'db'])))))
        elif k == 'restore': h.put(k, h.fn('var db=new Sqlite(%s); db.restore(%s); return db.query("select * from s",{mode:"json"});' % (r.choice(['":memory:"', q(h.newin())]), q(h.hostile('db')))))
        elif k == 'dbimport': h.put(k, h.fn('var db=new Sqlite(":memory:"); db.eval("create table t(a,b)"); db.import("t",%s); return db.query("select * from t",{mode:"json"});' % q(h.hostile('f'))))
        elif k == 'dbload': h.put(k, h.fn('var db=new Sqlite(":memory:",{load:true}); return db.onecolumn(%s);' % q("select load_extension('%s','Jsi_Initevil')" % h.hostile('so'))))
        elif k == 'pragma': h.put(k, h.fn('var db=new Sqlite(":memory:"); db.eval(%s); db.eval("create temp table q(a); insert into q values(zeroblob(3000000))"); return db.onecolumn("pragma temp_store_directory");' % q("pragma temp_store_directory='%s/out'" % h.d)))
        elif k == 'exec': h.put(k, 'exec(%s%s)' % (q(r.choice(['cat %s', 'touch %s', 'ls %s', 'echo PWN >%s']) % h.hostile(r.choice(['f', 'd', 'new']))), r.choice(['', ',{noShell:true}', ',{bg:true}', ',"in"', ',{retAll:true}'])))
        elif k in ('execb', 'exec2'):
            p = h.hostile('f') if r.random() < .5 else h.outside('new')
            h.put(k, 'exec(%s)' % q(r.choice(['echo hi\ncat %s', 'echo hi;cat %s', 'echo $(cat %s)', 'echo `cat %s`', 'echo hi|cat %s', 'echo hi && cat %s', 'echo hi>%s', 'echo<%s', '\necho hi\ncat %s', 'echo hi\r\ncat %s', 'echo "a\nb"\ntouch %s', 'X=1 echo hi\ntouch %s', 'echo hi & cat %s', 'cat %s\necho hi']) % p))
        elif k == 'conf':
            h.put(k, h.fn('try { Interp.conf(%s); } catch(e) {}; return File.read(%s);' % (r.choice(['{isSafe:false}', '{safeReadDirs:["/"]}', '{safeReadDirs:[%s]}' % q(h.d + '/out'), '{safeMode:"none"}', '{safeMode:"writeRead"}', '{safeExecPattern:"."}', '{noLoad:false}', '{lockDown:%s}' % q(h.d), '{noConfig:false,isSafe:false}', '{subOpts:{isSafe:false}}', '{confFile:%s}' % q(h.d + '/g/ro/conf.json'), '{historyFile:%s}' % q(h.d + '/out/hist')]), q(D('f')))), 'conf')
        elif k == 'lock': h.put(k, h.fn('try { Interp.conf({lockDown:"."}); } catch(e) {}; return exec("fossil ls %s");' % h.outside('d')), k)
        elif k in ('sub', 'subconf', 'sublock', 'parent'):
            opt = []
            for o in r.sample(['isSafe:false', 'safeReadDirs:[%s]' % q(h.d), 'safeReadDirs:["/"]', 'safeWriteDirs:[%s]' % q(h.d), 'safeExecPattern:"."', 'safeMode:"%s"' % r.choice(['none', 'read', 'write', 'writeRead', 'lockdown']), 'noLoad:false', 'confFile:%s' % q(h.hostile('conf')),
                               'lockDown:%s' % q(r.choice([h.d, h.d + '/out'])), 'scriptFile:%s' % q(h.hostile('jsi')), 'pkgDirs:[%s]' % q(h.d + '/out'), 'subthread:true', 'name:"n%d"' % r.randint(0, 9), 'debugOpts:{}', 'subOpts:{privKeys:true}', 'autoFiles:[%s]' % q(h.d + '/out/secret.jsi')], r.randint(0, 4)): opt.append(o)
            if k == 'subconf': opt.append('confFile:%s' % q(h.hostile('conf')))
            if k == 'sublock': opt.append('lockDown:%s' % q(r.choice([h.d, h.d + '/out'])))
            seen = set(); opt = [o for o in opt if not (o.split(':')[0] in seen or seen.add(o.split(':')[0]))]
            f = h.hostile('f'); nw = h.hostile('new')
            code = r.choice(['puts(File.read(%s));' % q(f), 'File.write(%s,"PWN");' % q(nw), 'puts(exec("cat %s"));' % f, 'source(%s);' % q(h.hostile('jsi')), 'puts(new Sqlite(%s).onecolumn("select v from s"));' % q(h.hostile('db')), 'puts(File.glob(%s));' % q(h.outside('d') + '/*'), 'load(%s);' % q(h.hostile('so')),
                             'var j=new Interp({safeReadDirs:[%s],lockDown:%s}); j.eval(%s);' % (q(h.d), q(h.d + '/out'), q('puts(File.read(%s));' % q(f))), 'NoSuch1(2);'])
            meth = r.choice(['eval', 'eval', 'source', 'uplevel', 'call'])
            if meth == 'eval': call = 'i.eval(%s)' % q(code)
            elif meth == 'source': call = 'i.source(%s)' % q(h.hostile('jsi'))
            elif meth == 'uplevel': call = 'i.uplevel(%s)' % q(code)
            else: call = 'i.call(%s,[%s])' % (q(r.choice(['File.read', 'source', 'exec', 'load', 'File.glob'])), q(h.hostile(r.choice(['f', 'jsi', 'd']))))
            h.put(k, h.fn('var i=new Interp({%s}); return %s;' % (','.join(opt), call)))
        elif k == 'zmount': h.put(k, h.fn('Zvfs.mount(%s,"/zz%d"); return File.read("/zz%d/f.txt");' % (q(h.hostile('zip')), h.n, h.n)))
        elif k == 'zlist': h.put(k, 'Zvfs.%s(%s)' % (r.choice(['list', 'offset']), q(D('zip'))))
        elif k == 'zcreate':
            t = h.newin(); h.put(k, h.fn(r.choice(['Zvfs.create(%s,[%s]); ' % (q(t), q(h.hostile('f'))), 'Zvfs.create(%s,[%s]); ' % (q(h.hostile('new')), q(h.inn('x.txt'))), 'Zvfs.append(%s,[%s],"");' % (q(h.hostile('zip')), q(h.inn('x.txt'))), 'Zvfs.truncate(%s);' % q(h.hostile('zip'))]) + 'return File.read(%s);' % q(t)))
        elif k == 'vmount': h.put(k, h.fn('Vfs.mount("zip",%s,"/vv"); return File.read("/vv/f.txt");' % q(h.hostile('zip'))))
        elif k == 'vexec': h.put(k, 'Vfs.exec(%s)' % q(r.choice(['fossil info \ncat %s', 'fossil ls \ntouch %s', 'fossil cat %s']) % h.outside('f')))
        elif k in ('relink', 'relink2'):
            t = 'rl%d' % h.n; h.n += 1; rw = h.d + '/g/rw'
            if k == 'relink': h.put(k, h.fn('File.chdir(%s); try { File.link("../../out",%s); } catch(e) {}; return File.read(%s);' % (q(rw + '/d/e'), q(rw + '/' + t), q(rw + '/' + t + '/secret.txt'))))
            else: h.put(k, h.fn('File.link(%s,%s); return File.%s;' % (q(rw + '/d/e'), q(rw + '/' + t), r.choice(['read(%s)' % q(rw + '/' + t + '/../../../out/secret.txt'), 'write(%s,"PWN")' % q(rw + '/' + t + '/../../nn7'), 'write(%s,"PWN")' % q('%s/%s/../../../%s' % (rw, t, 'out/nn8'))]))))
            h.o.append('try { File.chdir(%s); } catch(e) {};' % q(h.cwd))
        elif k == 'linkdb':
            rw = h.d + '/g/rw'; h.put(k, h.fn('File.mkdir(%s,true); File.write(%s,""); return new Sqlite(%s).onecolumn("select v from s");' % (q(rw + '/out'), q(rw + '/out/s.db'), q(rw + '/s/../../out/s.db'))))
        elif k == 'long': h.put(k, 'File.%s' % r.choice(['read("%s".repeat(%d))', 'write("%s".repeat(%d),"x")', 'glob("%s".repeat(%d))', 'realpath("%s".repeat(%d))', 'mkdir("%s".repeat(%d))', 'chdir("%s".repeat(%d))']) % (r.choice(['a', 'ab/', './', '../', '/x']), r.choice([1000, 2047, 4090, 4096, 5000])))
        elif k == 'fileconf': h.put(k, 'Vfs.fileconf(%s)' % q(h.hostile('conf')))
    def work(h):
        """an operation inside the grants that has to work"""
        r = h.r; q = jstr; m = h.mode; ro = h.d + '/g/ro'; W = h.d + '/g/rw/w'
        h.n += 1; t = '%s/f%d' % (W, h.n); s = 'data%d' % r.randint(0, 10**6)
        ks = []
        if m['r']: ks += ['read', 'readlin', 'glob', 'stat', 'chan', 'src', 'size', 'exists']
        if m['w'] and m['rwread']: ks += ['wr', 'wr', 'mkdir', 'copy', 'ren', 'link', 'db', 'chan2', 'trunc', 'rm', 'chmod', 'temp', 'append', 'rel', 'attach', 'backup', 'mkdirp', 'vac', 'import']
        if m['x']: ks += ['exec']
        if not ks: return
        k = r.choice(ks); sp = lambda p: q(h.spell(p, True))
        if k == 'read': h.put('+' + k, 'File.read(%s)' % sp(ro + '/a.txt'), exp='alpha\n')
        elif k == 'readlin': h.put('+' + k, 'File.read(%s)' % q(ro + '/lin/b.txt'), exp='beta\n')
        elif k == 'glob': h.put('+' + k, 'File.glob(%s)' % q(ro + '/*.txt'), exp='[ "%s" ]' % (ro + '/a.txt'))
        elif k == 'exists': h.put('+' + k, 'File.exists(%s)' % sp(ro + '/sub/b.txt'), exp='true')
        elif k == 'stat': h.put('+' + k, 'File.stat(%s).size' % sp(ro + '/a.txt'), exp='6')
        elif k == 'size': h.put('+' + k, 'File.size(%s)' % sp(ro + '/sub/b.txt'), exp='5')
        elif k == 'chan': h.put('+' + k, 'new Channel(%s,"r").gets()' % sp(ro + '/a.txt'), exp='alpha')
        elif k == 'src': h.put('+' + k, h.fn('source(%s); return 5;' % sp(ro + '/mod.jsi')), exp='5')
        elif k == 'wr':
            h.put('+' + k, h.fn('File.write(%s,%s); return File.read(%s);' % (sp(t), q(s), sp(t))), exp=s); h.files[t] = s
        elif k == 'append':
            h.put('+' + k, h.fn('File.write(%s,"a"); var c=new Channel(%s,"a"); c.write(%s); c.close(); return File.read(%s);' % (sp(t), sp(t), q(s), sp(t))), exp='a' + s); h.files[t] = 'a' + s
        elif k == 'rel':
            h.put('+' + k, h.fn('File.chdir(%s); File.write(%s,%s); var v=File.read(%s); File.chdir(%s); return v;' % (q(W), q('./' + os.path.basename(t)), q(s), q('../w/' + os.path.basename(t)), q(W))), exp=s); h.files[t] = s; h.cwd = W
        elif k == 'mkdir': h.put('+' + k, h.fn('File.mkdir(%s); return File.isdir(%s);' % (sp(t), sp(t))), exp='true')
        elif k == 'mkdirp': h.put('+' + k, h.fn('File.mkdir(%s,true); return File.isdir(%s);' % (sp(t + '/a/b'), sp(t + '/a/b'))), exp='true')
        elif k == 'copy': h.put('+' + k, h.fn('File.copy(%s,%s); return File.read(%s);' % (sp(ro + '/a.txt'), sp(t), sp(t))), exp='alpha\n'); h.files[t] = 'alpha\n'
        elif k == 'ren': h.put('+' + k, h.fn('File.write(%s,%s); File.rename(%s,%s); return File.exists(%s)+":"+File.read(%s);' % (sp(t), q(s), sp(t), sp(t + 'r'), sp(t), sp(t + 'r'))), exp='false:' + s); h.files[t + 'r'] = s
        elif k == 'link': h.put('+' + k, h.fn('File.write(%s,%s); File.link(%s,%s); return File.read(%s);' % (sp(t), q(s), q(t), sp(t + 'l'), sp(t + 'l'))), exp=s); h.files[t] = s
        elif k == 'rm': h.put('+' + k, h.fn('File.write(%s,"q"); File.remove(%s); return File.exists(%s);' % (sp(t), sp(t), sp(t))), exp='false'); h.files[t] = None
        elif k == 'chmod': h.put('+' + k, h.fn('File.write(%s,%s); File.chmod(%s,416); return File.perms(%s);' % (sp(t), q(s), sp(t), sp(t)))); h.files[t] = s
        elif k == 'temp': h.put('+' + k, h.fn('var f=File.tempfile(%s); File.write(f,"tt"); return File.read(f);' % sp(t + 'XXXXXX')), exp='tt')
        elif k == 'trunc': h.put('+' + k, h.fn('File.write(%s,%s); File.truncate(%s,3); return File.read(%s);' % (sp(t), q(s), sp(t), sp(t))), exp=s[:3]); h.files[t] = s[:3]
        elif k == 'chan2': h.put('+' + k, h.fn('var c=new Channel(%s,"w"); c.puts(%s); c.close(); return File.read(%s);' % (sp(t), q(s), sp(t))), exp=s + '\n'); h.files[t] = s + '\n'
        elif k == 'db': h.put('+' + k, h.fn('var db=new Sqlite(%s); db.eval("create table t(a)"); db.query("insert into t values(?)",[%s]); return db.onecolumn("select a from t");' % (sp(t), q(s))), exp=s)
        elif k == 'attach': h.put('+' + k, h.fn('var db=new Sqlite(":memory:"); db.eval(%s); db.eval("create table z.t(a); insert into z.t values(7)"); return db.onecolumn("select a from z.t");' % q("attach '%s' as z" % t)), exp='7')
        elif k == 'backup': h.put('+' + k, h.fn('var db=new Sqlite(":memory:"); db.eval("create table t(a); insert into t values(8)"); db.backup(%s); var e=new Sqlite(":memory:"); e.restore(%s); return e.onecolumn("select a from t");' % (sp(t), sp(t))), exp='8')
        elif k == 'vac': h.put('+' + k, h.fn('var db=new Sqlite(%s); db.eval("create table t(a); insert into t values(9)"); db.eval("vacuum"); return db.onecolumn("select a from t");' % sp(t)), exp='9')
        elif k == 'import': h.put('+' + k, h.fn('File.write(%s,"1\\t2\\n3\\t4\\n"); var db=new Sqlite(":memory:"); db.eval("create table t(a,b)"); db.import("t",%s); return db.onecolumn("select sum(a*b) from t");' % (sp(t), sp(t))), exp='14')
        elif k == 'exec': h.put('+' + k, 'exec("echo hi7").trim()', exp='hi7')

def sq(r, p):
    k = r.random(); a = "'%s'" % p.replace("'", "''")
    if k < .7: return a
    if k < .8: return '"%s"' % p
    n = len(p) // 2
    return "('%s'||'%s')" % (p[:n].replace("'", "''"), p[n:].replace("'", "''"))

def modes(r):
    k = r.random()
    if k < .62:
        m = {'how': 'sub', 'r': True, 'w': r.random() < .8, 'rwread': r.random() < .85, 'x': r.random() < .35, 'load': r.random() < .5}
        if m['w'] is False: m['rwread'] = True
        return m
    if k < .7: return {'how': 'none', 'r': False, 'w': False, 'rwread': False, 'x': False, 'load': False}
    return {'how': r.choice(['-s', 'read', 'write', 'writeRead', 'lockdown', 'lockDown', 'main', 'mainrw']), 'r': True, 'w': True, 'rwread': True, 'x': False, 'load': False}

def one(ctx, seed, so):
    r = random.Random(seed)
    d = os.path.join(ctx.userdir(), 's%x' % seed); os.makedirs(d); os.chmod(d, 0o755)
    m = modes(r); how = m['how']; ro, rw = d + '/g/ro', d + '/g/rw'
    T = tree(r, d, so)
    sl = lambda p: p
    writable = set()
    h = H(r, d, m, ctx)
    ex = 'safeExecPattern:"^echo "' if m['x'] else ''
    opts = []
    if how == 'sub':
        rd = [ro] + ([rw] if m['rwread'] else [])
        r.shuffle(rd)
        o = 'isSafe:true, safeReadDirs:%s' % jarr(rd)
        if m['w']: o += ', safeWriteDirs:%s' % jarr([rw]); writable.add('g/rw')
        if m['x']: o += ', ' + ex
    elif how == 'none': o = 'isSafe:true'
    nwork = r.randint(2, 8); nat = r.randint(8, 25)
    if how in ('read', 'write', 'writeRead', 'lockdown', '-s'):   # the script's directory and the current one
        m.update(r=False, w=False, rwread=False)
        nwork = 0
        if how in ('write', 'writeRead', 'lockdown'): writable.add('g/rw')
    elif how == 'lockDown': m.update(r=False, w=False); nwork = 0; writable.add('g/rw')
    elif how in ('main', 'mainrw'):
        if how == 'mainrw': writable.add('g/rw')
        else: m['w'] = False
        open(d + '/main.json', 'w').write('{isSafe:true, safeReadDirs:["%s","%s"]%s}' % (ro, rw, ', safeWriteDirs:["%s"]' % rw if how == 'mainrw' else ''))
        opts = ['--I', 'confFile:' + d + '/main.json']
    plan = ['a'] * nat + ['w'] * nwork; r.shuffle(plan)
    if how in ('-s', 'read', 'write', 'writeRead', 'lockdown', 'lockDown'): h.cwd = rw
    for p in plan:
        (h.attack if p == 'a' else h.work)()
    # known-good chdir state is not needed: work ops are absolute
    body = PRE + '\n'.join(h.o) + '\nputs("END");\n'
    cwd = d
    if how in ('sub', 'none'):
        open(d + '/body.jsi', 'w').write(body)
        via = r.choice(['eval', 'str', 'call'])
        main = {'eval': 'var i=new Interp({%s}); i.eval(File.read(%s));' % (o, jstr(d + '/body.jsi')), 'str': 'var i=new Interp({%s, scriptStr:File.read(%s)});' % (o, jstr(d + '/body.jsi')),
                'call': 'var i=new Interp({%s}); i.eval("function go(s) { eval(s); }"); i.call("go",[File.read(%s)]);' % (o, jstr(d + '/body.jsi'))}[via]
        open(d + '/main.jsi', 'w').write(main); args = [d + '/main.jsi']
    else:
        script = rw + '/main.jsi'; open(script, 'w').write(body); cwd = rw
        if how == '-s': args = ['-s', script]
        elif how == 'lockDown': args = ['--I', 'lockDown:' + rw, script]
        elif how in ('main', 'mainrw'): args = opts + [script]; cwd = d
        else: args = ['--I', 'safeMode:' + how, script]
    for f in ('body.jsi', 'main.json', 'main.jsi', 'g/rw/main.jsi'):
        if os.path.exists(d + '/' + f): os.chmod(d + '/' + f, 0o644)
    before = snap(d, writable)
    st = os.stat(cwd)
    res = ctx.run(args, cwd=cwd, user=True, timeout=60, retry=False, env={'HOME': d + '/out'})
    os.chown(cwd, st.st_uid, st.st_gid)
    after = snap(d, writable)
    out = res.text + '\n' + res.etext
    rep = 'seed %d mode %s args %r\n%s\n----- stdout\n%s\n----- stderr\n%s' % (seed, m, args, body, res.text[:6000], res.etext[:3000])
    ctx.count('programs'); ctx.count('mode ' + how)
    ctx.sanity(res, 'safe', 'safe-mode program', rep)
    if res.timeout: ctx.count('timeouts')
    got = {}
    for ln in res.text.split('\n'):
        if ln[:1] == '#' and ' ' in ln:
            a = ln[1:].split(' ', 2)
            if a[0].isdigit(): got[int(a[0])] = (a[1], ln)
    def opof(tok):   # which operation printed it
        last = None
        for ln in out.split('\n'):
            if tok in ln and ln[:1] == '#': return h.kinds[int(ln[1:].split(' ')[0])] if ln[1:].split(' ')[0].isdigit() else '?'
            if tok in ln: return (h.kinds[last + 1] if last is not None and last + 1 < len(h.kinds) else '?')
            if ln[:1] == '#' and ln[1:].split(' ')[0].isdigit(): last = int(ln[1:].split(' ')[0])
        return '?'
    for t, v in T.items():
        if v in out:
            ctx.violation('leak-%s:%s' % (t, opof(v)), 'contents or names from outside the granted directories were obtained (%s, operation %s)' % (how, opof(v)), rep)
    ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    ch = [k for k in ch if not (k.endswith('/') and any(x != k and x.startswith(k.lstrip('./')) for x in ch))] or ch
    if ch: ctx.violation('changed:%s' % ','.join(sorted(set(x if len(x) < 30 else x[:30] for x in ch)))[:80], 'files outside the writable directories changed: %s (mode %s)' % (ch[:5], how), rep)
    for i, (k, js) in h.mustex.items():
        if got.get(i, ('',))[0] == 'ok': ctx.violation('allowed:' + k, '%s on a file outside succeeded: %s' % (k, got[i][1][:200]), rep)
    if 'END' not in res.text.split('\n')[-3:] and not res.crashed and not res.timeout:
        ctx.count('unfinished')
        ctx.violation('unfinished:' + (h.kinds[max(got) + 1] if got and max(got) + 1 < len(h.kinds) else '?'), 'the program did not run to its end', rep)
    for i, (e, js) in h.exp.items():
        lines = '\n' + res.text
        want = '\n#%d ok %s\n' % (i, e)
        if i in got and want not in lines: ctx.violation('denied:' + h.kinds[i], 'an operation inside the grants gave %s instead of %r: %s' % (got[i][1][:200], e, js[:200]), rep)
        ctx.count('inside ops checked')
    for f, s in h.files.items():
        idx = [1]
        if res.timeout or res.crashed: break
        real = open(f, newline='').read() if os.path.exists(f) and os.path.isfile(f) else None
        if real != s: ctx.violation('work:file', 'file %s written inside the grant holds %r instead of %r' % (f, real, s), rep)
    for i, k in enumerate(h.kinds):
        if i in got:
            ctx.case((how, k, got[i][0])); ctx.count('ops ok' if got[i][0] == 'ok' else 'ops refused')
    shutil.rmtree(d, True)

def jarr(a): return '[' + ','.join(jstr(x) for x in a) + ']'

def run(ctx):
    ctx.build('asan')
    global SOTOK
    c = ctx.path('evil.c'); so = ctx.path('evil.so')
    open(c, 'w').write(SO % SOTOK)
    subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-o', so, c], check=True)
    os.chmod(so, 0o755)
    rr = ctx.sub('safe')
    n = ctx.size(450, 6000)
    seeds = [rr.getrandbits(40) for _ in range(n)]
    ctx.pmap(lambda s: one(ctx, s, so), seeds)
    ctx.rule = 'one random program run in one safety mode; distinct safety mode x operation x outcome'
    ctx.assumptions = ['the programs run as an unprivileged user in a scratch tree that this user owns, so that only safe mode protects it', 'grants are canonical paths', 'no other process changes the tree between check and use',
                       'metadata queries (exists, isdir, mtime, perms, realpath) are not confined by design', 'network access is a separate setting']
