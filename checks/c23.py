"""C23: transactions. Random nestings against a stack-of-copies model (an independent connection watches the committed
state while the transaction is open), and processes killed or given I/O errors at every system call that changes the
database files; the file left behind is read by Python's sqlite3."""
from vf.js import *
import collections, os, shutil, signal, sqlite3, subprocess

PRE = r'''
function S(db) { return db.onecolumn("select count(*)||':'||coalesce(sum(v),0)||':'||coalesce(sum(k*v),0) from t"); }
'''

class Thrown(Exception): pass
class Ret(Exception): pass

class G:
    def __init__(g, rng): g.r = rng; g.n = 0
    def body(g, d, intx, incb=False):
        r = g.r; out = []
        for _ in range(r.randint(1, 4 if d < 4 else 2)):
            k = r.random()
            if k < .14: out.append(('ins', r.randint(1, 30), r.randint(1, 99)))
            elif k < .2: out.append(('insm', r.randint(1, 30), r.randint(1, 4), r.randint(1, 9)))
            elif k < .28: out.append(('repl', r.randint(1, 30), r.randint(1, 99)))
            elif k < .34: out.append(('updall', r.randint(1, 5)))
            elif k < .4: out.append(('del', r.randint(1, 30)))
            elif k < .44: out.append(('jf', r.randint(31, 40), r.randint(0, 3)))
            elif k < .56: out.append(('chk',))
            elif k < .66 and intx: out.append(('throw', r.randint(0, 2)))
            elif k < .7 and intx: out.append(('ret',))
            elif k < .74 and d < 5: out.append(('cb', r.randint(1, 3), g.body(d + 1, intx, True)))
            elif d < 5: out.append(g.tx(d, intx))
            if out and out[-1][0] in ('throw', 'ret') and r.random() < .9: break
        return out or [('chk',)]
    def tx(g, d, intx):
        r = g.r
        b = ('tx', r.choice(['', '', 'deferred', 'immediate', 'exclusive']), g.body(d + 1, True), r.random() < .2)
        g.n += 1
        return ('try', g.n, [b]) if not intx or r.random() < .6 else b
    def case(g):
        r = g.r; out = [('ins', i, i) for i in range(1, r.randint(2, 6))]
        for _ in range(r.randint(2, 5)):
            k = r.random(); g.n += 1
            if k < .2: out.append(('try', g.n, [('oc', r.choice(['true', 'false', 'throw'])), ('tx', r.choice(['', 'immediate']), g.body(1, True), False)])); out.append(('oc', ''))
            elif k < .35: out.append(('busy', g.n, r.choice(['', 'immediate', 'exclusive']), g.body(2, True)))
            elif k < .45: out.append(('conf',))
            else: out.append(g.tx(0, False))
            if r.random() < .4: out.append(('try', g.n + 1000, g.body(2, False)))
            out.append(('chk',))
        return out
    def js(g, b):
        o = []
        for s in b:
            k = s[0]
            if k == 'ins': o.append('db.query("insert into t values(?,?)",[%d,%d]);' % s[1:])
            elif k == 'insm': o.append('db.eval("with recursive c(x) as (select %d union all select x+1 from c where x<%d) insert into t select x,%d from c");' % (s[1], s[1] + s[2] - 1, s[3]))
            elif k == 'repl': o.append('db.query("replace into t values(?,?)",[%d,%d]);' % s[1:])
            elif k == 'updall': o.append('db.eval("update t set v=v+%d");' % s[1])
            elif k == 'del': o.append('db.query("delete from t where k=?",[%d]);' % s[1])
            elif k == 'jf': o.append('db.query("insert into t select %d+x,jt(x,%d) from nums");' % (s[1] * 10, s[2]))
            elif k == 'chk': o.append('puts("q "+S(db)); puts("w "+W());')
            elif k == 'throw': o.append(['throw "E";', 'throw {a:1};', 'nosuchfunc();'][s[1]])
            elif k == 'ret': o.append('return;')
            elif k == 'cb': o.append('db.query("select x from nums limit %d",function(o) { %s return false; });' % (s[1], g.js(s[2])))
            elif k == 'tx': o.append('db.transaction(function() { %s %s }%s);' % (g.js(s[2]), 'return 1;' if s[3] else '', s[1] and ',"%s"' % s[1]))
            elif k == 'try': o.append('try { %s puts("ok %d"); } catch(e) { puts("caught %d"); }' % (g.js(s[2]), s[1], s[1]))
            elif k == 'oc': o.append('db.conf({onCommit:%s});' % ('null' if not s[1] else 'function(db) { puts("oc"); %s; }' % ('throw "C"' if s[1] == 'throw' else 'return ' + s[1])))
            elif k == 'conf': o.append('db.conf({echo:false}); db.conf("changeCnt");')
            elif k == 'busy': o.append('d2.query("select x from nums limit 1",function(o) { try { db.transaction(function() { %s }%s); puts("ok %d"); } catch(e) { puts("caught %d"); } return false; });' % (g.js(s[3]), s[2] and ',"%s"' % s[2], s[1], s[1]))
        return '\n'.join(o)

class M:
    """the model: a dict, copied at every transaction start"""
    def __init__(m): m.t = {}; m.depth = 0; m.log = []; m.oc = ''; m.busy = False; m.excl = False; m.wrote = False; m.committed = {}; m.st = collections.Counter()
    def sig(m, t): return '%d:%d:%d' % (len(t), sum(t.values()), sum(k * v for k, v in t.items()))
    def write(m, new):
        """a statement that changes the table to new (None: it fails)"""
        if m.depth: m.wrote = True
        if new is None: raise Thrown
        if not m.depth:
            if m.oc:
                m.log.append('oc')
                if m.oc != 'false': raise Thrown
            m.committed = dict(new)
        m.t = new
    def run(m, b):
        for s in b:
            k = s[0]
            if k == 'ins': m.write(None if s[1] in m.t else {**m.t, s[1]: s[2]})
            elif k == 'insm':
                ks = range(s[1], s[1] + s[2]); m.write(None if any(x in m.t for x in ks) else {**m.t, **{x: s[3] for x in ks}})
            elif k == 'repl': m.write({**m.t, s[1]: s[2]})
            elif k == 'updall': m.write({a: v + s[1] for a, v in m.t.items()})
            elif k == 'del': m.write({a: v for a, v in m.t.items() if a != s[1]})
            elif k == 'jf':
                ks = [s[1] * 10 + x for x in (1, 2, 3)]; m.write(None if s[2] or any(x in m.t for x in ks) else {**m.t, **{x: i + 1 for i, x in enumerate(ks)}})
            elif k == 'chk':
                m.log.append('q ' + m.sig(m.t)); m.log.append('w ' + ('locked' if m.excl else m.sig(m.committed))); m.st['states_watched'] += 1
            elif k == 'throw': raise Thrown
            elif k == 'ret': raise Ret
            elif k == 'cb':
                for _ in range(s[1]):
                    try: m.run(s[2])
                    except Ret: pass
            elif k == 'tx': m.tx(s[1], s[2])
            elif k == 'try':
                try: m.run(s[2]); m.log.append('ok %d' % s[1])
                except Thrown: m.log.append('caught %d' % s[1])
            elif k == 'oc': m.oc = s[1]
            elif k == 'busy':
                m.busy = True
                try: m.tx(s[2], s[3]); m.log.append('ok %d' % s[1])
                except Thrown: m.log.append('caught %d' % s[1])
                m.busy = False
    def tx(m, ty, body):
        if m.depth == 0:
            m.wrote = ty in ('immediate', 'exclusive'); m.excl = ty == 'exclusive'
            if m.busy and ty == 'exclusive': m.excl = False; raise Thrown
        save = dict(m.t); m.depth += 1; m.st['transactions'] += 1; m.st['deepest'] = max(m.st['deepest'], m.depth)
        try:
            try: m.run(body)
            except Ret: pass
            if m.depth == 1 and m.wrote:
                if m.oc:
                    m.log.append('oc')
                    if m.oc != 'false': m.st['vetoed'] += 1; raise Thrown
                if m.busy: m.st['busy'] += 1; raise Thrown
            m.st['committed'] += 1
        except Thrown:
            m.t = save; m.st['undone'] += 1; raise
        finally:
            m.depth -= 1
            if m.depth == 0: m.committed = dict(m.t); m.excl = False

def nestings(ctx):
    g = G(ctx.sub('nest')); cases, exp, fins, fns = [], [], [], []; st = collections.Counter(); seen = set()
    base = os.path.join(ctx.tmp, 'db'); os.makedirs(base)
    while len(cases) < ctx.size(2500, 40000):
        g.n = 0; ast = g.case(); m = M()
        try: m.run(ast)
        except Thrown: continue
        if sum(1 for x in m.log if x[0] in 'oc') < 1 or len(m.log) > 300: continue
        fn = '%s/%d.db' % (base, len(cases))
        js = 'var db=new Sqlite("%s",{timeout:1}), d2;\n' % fn
        js += 'db.eval("create table nums(x); insert into nums values(1),(2),(3); create table t(k integer primary key,v integer)");\nd2=new Sqlite("%s",{timeout:1});\n' % fn
        js += 'function W() { var r; try { r=S(d2); } catch(e) { r="locked"; } return r; }\n'
        js += 'db.func("jt",function(x,at) { if (x==at) throw "J"; return x; });\n' + g.js(ast) + '\ndelete db; delete d2;'
        cases.append(js); exp.append(m.log); fins.append(m.t); fns.append(fn); st.update({k: v for k, v in m.st.items() if k != 'deepest'}); st['deepest'] = max(st['deepest'], m.st['deepest'])
    out = run_cases(ctx, cases, PRE, size=25)
    for c, o, x, t, fn in zip(cases, out, exp, fins, fns):
        if o is None: continue
        o = o.rstrip('\n').split('\n'); why = None; cc = c.replace(fn, '@')
        ctx.case(cc, sample=dict(program=cc[:900], observed=o[-5:]))
        if o != x:
            i = next((i for i in range(min(len(o), len(x))) if o[i] != x[i]), min(len(o), len(x)))
            why = 'event %d of the log\nexpected: %s\ngot:      %s' % (i, x[max(0, i - 3):i + 2], o[max(0, i - 3):i + 2])
        else:
            try:
                d = sqlite3.connect(fn); got = dict(d.execute('select k,v from t').fetchall()); d.close()
                if got != t: why = 'contents of the file\nexpected: %r\non disk:  %r' % (t, got)
            except sqlite3.Error as e: why = 'database file: %s' % e
        if why: ctx.violation('nest:' + cc, 'program:\n%s\n%s' % (cc[:3500], why), batch_src([c], PRE))
    shutil.rmtree(base, ignore_errors=True); ctx.notes['nestings'] = dict(st)

# ---- kill points and I/O errors -------------------------------------------
def driver(r):
    """-> program text with @ for the database and # for the log, {txn: expected rows}"""
    jm = r.choice(['delete', 'delete', 'truncate', 'persist', 'wal']); rows = {}; imps = 0
    js = 'var L=new Channel("#","a"); function log(s) { L.puts(s); L.flush(); }\nvar db=new Sqlite("@",{timeout:1});\ndb.query("pragma journal_mode=%s"); db.eval("pragma cache_size=%d");\n' % (jm, r.choice([2, 5, -2000]))
    js += 'db.eval("create table if not exists c(n); create table if not exists t(i int,j int,p)");\ndb.transaction(function() { db.eval("insert into c select 0 where not exists(select 1 from c)"); });\nlog("start");\n'
    js = js.replace('function log(', 'function LOG(').replace('log("start")', 'LOG("start")')
    for i in range(1, r.randint(3, 6)):
        mine = []; b = ''
        for _ in range(r.randint(1, 4)):
            k = r.random(); j0 = len(mine) + 1; n = r.choice([1, 2, 3, 30]); pad = r.choice([0, 10, 800])
            ins = lambda a, n: 'for (j=%d; j<%d; j++) db.query("insert into t values(%d,@j,zeroblob(%d))");' % (a, a + n, i, pad)
            if k < .5: b += ins(j0, n); mine += range(j0, j0 + n)
            elif k < .7: b += 'db.transaction(function() { var j; %s });' % ins(j0, n); mine += range(j0, j0 + n)
            elif k < .85: b += 'try { db.transaction(function() { var j; %s throw "mine"; }); } catch(e) { if (e!=="mine") throw e; }' % ins(1000, n)
            elif k < .94:
                bad = r.random() < .4; a = 1000 if bad else j0
                js = js.replace('LOG("start");', 'File.write("@.csv%d", "%s");LOG("start");' % (imps, ''.join('%d,%d,x\\n' % (i, j) for j in range(a, a + n)) + ('1\\n' if bad else '')))
                b += ('try { %s } catch(e) { if (typeof e!=="string" || e.indexOf("expected 3 columns")<0) throw e; }' if bad else '%s') % ('db.import("t","@.csv%d",{csv:true});' % imps); imps += 1
                if not bad: mine += range(j0, j0 + n)
            else: b += 'db.transaction(function() { var j; %s db.transaction(function() { var j; %s }); try { db.transaction(function() { db.eval("delete from t"); throw "mine"; }); } catch(e) { if (e!=="mine") throw e; } });' % (
                ins(j0, n), ins(j0 + n, 2)); mine += range(j0, j0 + n + 2)
        end = r.choice(['', '', '', 'throw "undo";', 'nosuch();'])
        rows[i] = (sorted(mine), bool(end))
        js += 'try { db.transaction(function() { var j; db.eval("update c set n=n+1"); %s %s }%s); LOG("ack %d"); } catch(e) { LOG("nak %d"); }\n' % (b, end, r.choice(['', ',"immediate"', ',"exclusive"']), i, i)
    return js + 'LOG("end");\n' + r.choice(['', 'db.transaction(function() { db.eval("delete from t"); exit(0); });', 'db.eval("begin; delete from t"); exit(0);']), rows, jm

def judge(dbf, logf, rows):
    """-> complaint or None, summary"""
    log = open(logf).read().split('\n') if os.path.exists(logf) else []
    acks = {int(l[4:]) for l in log if l.startswith('ack ')}; naks = {int(l[4:]) for l in log if l.startswith('nak ')}
    nxt = max(acks | naks | {0}) + 1
    if 'start' not in log: return None, 'before'
    try:
        d = sqlite3.connect(dbf); ok = d.execute('pragma integrity_check').fetchall(); got = collections.defaultdict(list)
        for i, j in d.execute('select i,j from t order by i,j'): got[i].append(j)
        n = d.execute('select n from c').fetchall(); d.close()
    except sqlite3.Error as e: return 'reopened database: %s' % e, ''
    if ok != [('ok',)]: return 'integrity_check: %r' % ok, ''
    for i in rows:
        want, undone = rows[i]
        if i in acks:
            if undone: return 'transaction %d ended by an exception but was reported as done' % i, ''
            if got.get(i, []) != want: return 'committed transaction %d: rows %r, not %r' % (i, got.get(i), want), ''
        elif i in naks or i != nxt or undone or 'end' in log:
            if i in got: return 'transaction %d was %s, but left rows %r' % (i, 'reported as failed' if i in naks else 'undone or never reached', got[i]), ''
        elif i in got and got[i] != want: return 'interrupted transaction %d: rows %r of %r' % (i, got[i], want), ''
    tot = sum(1 for i in got)
    empty = {i for i in rows if not rows[i][0] and not rows[i][1]}      # committed without rows: only the counter tells
    lo = len([i for i in acks]); hi = lo + (1 if nxt in rows and nxt not in naks and not rows[nxt][1] else 0)
    if len(n) != 1 or not lo <= n[0][0] <= hi: return 'the counter is %r with %d transactions committed' % (n, lo), ''
    if nxt in got and n[0][0] != lo + 1: return 'the counter and the rows of transaction %d disagree' % nxt, ''
    return None, 'acks=%d naks=%d extra=%d' % (len(acks), len(naks), n[0][0] - lo)

def kills(ctx):
    so = os.path.join(ctx.tmp, 'iofault.so')
    subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'iofault.c'), '-ldl'], check=True)
    r = ctx.sub('kill'); jobs = []; drv = []; st = collections.Counter(); modes = collections.Counter(); sums = collections.Counter()
    for n in range(ctx.size(12, 60)):
        drv.append(driver(r))
    def one(job):
        di, mode, at, once = job; js, rows, jm = drv[di]; d = ctx.mkdir(); dbf, logf = d + '/x.vfdb', d + '/log'
        f = d + '/p.jsi'; open(f, 'w').write((js if at != -2 else js.split('LOG("start");')[0]).replace('#', logf).replace('"@"', jstr(dbf)))
        env = {'LD_PRELOAD': so, 'VF_IO_MATCH': '.vfdb', 'VF_IO_COUNT': d + '/n', 'VF_IO_MODE': mode, 'VF_IO_AT': str(at)}
        if once: env['VF_IO_ONCE'] = '1'
        res = ctx.run([f], variant='plain', env=env, cwd=d, timeout=60)
        try: n = int(open(d + '/n').read().split()[0])
        except (OSError, ValueError, IndexError): n = 0
        why, s = judge(dbf, logf, rows); log = open(logf).read() if os.path.exists(logf) else ''
        if mode in ('kill', 'torn') and at > 0 and n >= at and res.rc != -signal.SIGKILL: why = why or 'harness: not killed (status %s)' % res.rc
        if mode not in ('kill', 'torn') and res.rc < 0: why = why or 'died by signal %d after an I/O error' % -res.rc
        if at == -1 and 'end' not in log: why = why or 'the program did not finish: ' + res.etext()[:500]
        shutil.rmtree(d, True)
        return why, s, n, log, res.rc
    counts = {}
    for di, (why, s, n, log, rc) in enumerate(ctx.pmap(one, [(di, 'kill', -1, False) for di in range(len(drv))])):
        counts[di] = n; ctx.case('run:' + drv[di][0])
        if why: ctx.violation('undisturbed:' + drv[di][0], why + '\nlog: ' + log + '\n' + drv[di][0], drv[di][0])
    starts = {di: x[2] for di, x in enumerate(ctx.pmap(one, [(di, 'kill', -2, False) for di in range(len(drv))]))}
    per = ctx.size(45, 600)
    for di in counts:
        pts = [(di, m, at, o) for at in range(max(1, starts[di] - 3), counts[di] + 1) for m, o in (('kill', 0), ('torn', 0), ('err', 1), ('err', 0), ('full', 1), ('full', 0))]
        jobs += pts if len(pts) <= per else r.sample(pts, per)
    for job, (why, s, n, log, rc) in zip(jobs, ctx.pmap(one, jobs)):
        di, mode, at, once = job; ctx.case('%d:%s:%d:%d:%s' % (di, mode, at, once, drv[di][0]), sample=dict(mode=mode, call=at, of=counts[di], journal=drv[di][2], outcome=s))
        modes[mode + ('' if not once else '-once')] += 1; sums[s] += 1; ctx.count('kill_and_fault_points')
        if why:
            ctx.violation('%s:%s' % (mode, drv[di][0]), '%s at call %d of %d (once: %s), journal_mode %s\n%s\nlog: %s\nprogram (@ is the database, # the log; run with harness/iofault.c preloaded):\n%s'
                          % (mode, at, counts[di], bool(once), drv[di][2], why, log.replace('\n', ' '), drv[di][0]), drv[di][0])
    ctx.notes['faults'] = dict(modes); ctx.notes['outcomes'] = dict(sums.most_common(20)); ctx.notes['calls_per_driver'] = list(counts.values())

def run(ctx):
    ctx.build('asan', 'plain')
    ctx.rule = 'one nesting program, or one driver stopped at one system call; distinct programs and distinct stop points'
    ctx.assumptions = ['SQLite itself is trusted', 'scripts do not mix their own BEGIN/COMMIT with db.transaction', 'power loss (unsynced data lost) is not simulated: processes die, the system stays up',
                       'an I/O error inside a nested transaction is not swallowed by the enclosing function']
    nestings(ctx)
    kills(ctx)
