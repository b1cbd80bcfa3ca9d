"""C22: the Sqlite module against Python's own binding of the same library: one history is run by both,
query results are decoded from every output mode and the database file is read back independently."""
from vf.js import *
import collections, html, json, os, re, shutil, sqlite3

PRE = DUMP + r'''
function P(f) { var r; try { r=f(); } catch(e) { puts("err"); return; } puts(r===undefined?"U":D(r)); }
'''
INJ = ["'", "';drop table t0;--", '"', "x'y''z", '?', '@v1', '$v1', ':v1', '%v', '%s', '--', '/*', 'null', 'NULL', '', ' ', '1', '01', '1e5', '-0', '0x10', 'true', 'a,b', 'a|b', 'a\tb', 'a;;b',
       'line1\nline2', '<b>&amp;</b>', '&', '\\', '\\n', 'é漢😀', '{"a":1}', '[1,2]', "it's", '"q"', 'x"y', 'a\rb', '\x01', ' lead', 'trail ']
COLT = ['', '', 'INTEGER', 'TEXT', 'REAL', 'BLOB', 'NUMERIC', 'BOOL', 'VARCHAR(10)', 'BOOLEAN']

class B(bytes): pass

def jlit(v):
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, str): return jstr(v)
    if isinstance(v, bytes): return jstr(v.decode())
    r = repr(float(v))
    if r.endswith('.0'): r = r[:-2]
    return r

def sqlv(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, (int, float)): return float(v)
    return v

def num15(v):
    if isinstance(v, int): return str(v)
    return str(int(v)) if abs(v) <= 2**53 and v == int(v) else '%.15g' % v

def unq(line):
    """the text of a D() string line"""
    if not line.startswith('s:"'): return None
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 'q': '"', '\\': '\\'}[m.group(1)], line[3:-1], flags=re.S)

def csvparse(text, sep):
    rows, row, i, n = [], [], 0, len(text)
    while True:
        if i < n and text[i] == '"':
            i += 1; f = ''
            while i < n:
                if text[i] == '"':
                    if text[i:i + 2] == '""': f += '"'; i += 2; continue
                    i += 1; break
                f += text[i]; i += 1
            row.append(f)
        else:
            j = i
            while j < n and text[j] != '\n' and not text.startswith(sep, j): j += 1
            row.append(text[i:j]); i = j
        if text.startswith(sep, i): i += len(sep); continue
        rows.append(row); row = []
        if i >= n: return rows
        i += 1

class Exp:
    """an expected result line: a text, or a function judging the line (returns None or the complaint)"""

def J(v, bools):
    if v in (0, 1) and isinstance(v, int) and bools: return bool(v)
    if isinstance(v, bytes): return v.decode()
    return v

class G:
    def __init__(g, rng): g.r = rng
    def val(g, blob=True):
        r = g.r; k = r.random()
        if k < .1: return None
        if k < .16: return r.random() < .5
        if k < .45: return float(r.choice([0, 1, -1, 2, 3, 10, 255, 2**31, -2**31, 2**40, 2**53, -2**53, r.randint(-100, 100), r.randint(-100, 100)]))
        if k < .6: return r.choice([.5, -.25, 1e10, 1.5e300, 1e-7, 3.14159, r.random() * 1000, 123456.789, 1e15, 2.5])
        if k < .8: return r.choice(INJ)
        s = ''.join(r.choice("abcxyz'\"\\,;|\n\t %?@$:é漢😀<>&-") for _ in range(r.randint(0, 12)))
        if k < .84: s *= r.choice([20, 200])
        return s
    def case(g, kinds, fn):
        r = g.r; js = []; out = []; g.db = db = sqlite3.connect(':memory:', isolation_level=None)
        db.text_factory = str; regs = set(); nv = [0]
        opt = []
        if r.random() < .5: opt.append('stmtCacheMax:%d' % r.choice([0, 1, 2, 3, 100]))
        force = r.random() < .15
        if force: opt.append('forceInt:true')
        js.append('var db=new Sqlite(%s%s);' % (jstr(fn), ',{%s}' % ','.join(opt) if opt else ''))
        def sv(v):
            v = sqlv(v)
            return int(v) if force and isinstance(v, float) and abs(v) < 2**62 and v == int(v) else v
        def P(e, x): js.append('P(function() { return %s; });' % e); out.append(x)
        tabs = {}
        def create(t):
            cols = ['c%d' % i for i in range(r.randint(1, 4))]; ty = [r.choice(COLT) for _ in cols]
            un = r.random() < .2
            s = 'create table %s(%s)' % (t, ','.join('%s %s%s' % (c, y, ' unique' if un and i == 0 else '') for i, (c, y) in enumerate(zip(cols, ty))))
            db.execute(s); tabs[t] = dict(zip(cols, ty)); P('db.eval(%s)' % jstr(s), None)
        create('t0')
        if r.random() < .5: create('t1')
        def bind(vals, need_in=None):
            """-> (placeholders, option text or None, declarations)"""
            st = r.choice(['v', 'v', 'named', 'named', 'obj', 'arr'])
            kinds['bind.' + st] += 1
            if st == 'v': return ['?'] * len(vals), '[%s]' % ','.join(map(jlit, vals)) if vals else None, [sv(x) for x in vals]
            if st == 'named':
                ph = []; pv = []
                for v in vals:
                    n = 'w%d' % nv[0]; nv[0] += 1; js.append('var %s=%s;' % (n, jlit(v))); ph.append(r.choice('@:$') + n); pv.append(sv(v))
                return ph, None, pv
            n = 'w%d' % nv[0]; nv[0] += 1; ph = []; pv = []; items = []
            for i, v in enumerate(vals):
                ty = ''
                x = sv(v)
                k = r.random()
                if isinstance(v, str) and k < .2: ty = ':blob'; x = v.encode()
                elif isinstance(v, str) and k < .3: ty = ':string'
                elif isinstance(v, float) and k < .3 and abs(v) < 2**62 and v == int(v): ty = ':integer'; x = int(v)
                elif isinstance(v, float) and k < .5: ty = ':double'
                if st == 'obj': ph.append('$%s(f%d%s)' % (n, i, ty)); items.append('f%d:%s' % (i, jlit(v)))
                else: ph.append('$%s(%d%s)' % (n, i, ty)); items.append(jlit(v))
                pv.append(x)
            js.append('var %s=%s%s%s;' % (n, '{' if st == 'obj' else '[', ','.join(items), '}' if st == 'obj' else ']'))
            return ph, None, pv
        def run(sql_fmt, vals):
            """sql text for jsish, its option, and the model's cursor or exception"""
            ph, o, pv = bind(vals); sql = sql_fmt % tuple(ph) if vals else sql_fmt
            try: cur = db.execute(sql_fmt % (('?',) * len(vals)) if vals else sql_fmt, pv); rows = cur.fetchall(); d = [x[0] for x in cur.description] if cur.description else []
            except sqlite3.Error: return sql, o, None, None
            return sql, o, rows, d
        def rowsD(rows, names, bl):
            return pyD([{n: J(v, b) for n, v, b in zip(names, row, bl)} for row in rows])
        for _ in range(r.randint(4, 18)):
            t = r.choice(list(tabs)); cols = list(tabs[t]); ty = tabs[t]
            k = r.choice(['ins', 'ins', 'ins', 'ins', 'obj', 'upd', 'del', 'sel', 'sel', 'sel', 'sel', 'one', 'exists', 'cb', 'nest', 'func', 'coll', 'bad', 'ddl', 'changed', 'multi', 'regexp', 'import', 'backup'])
            kinds[k] += 1
            if k == 'ins':
                verb = r.choice(['insert', 'insert', 'insert or ignore', 'replace'])
                sub = [c for c in cols if r.random() < .8] or cols[:1]
                sql, o, rows, _d = run(verb + ' into ' + t + '(' + ','.join(sub) + ') values(' + ','.join(['%s'] * len(sub)) + ')', [g.val() for _ in sub])
                P('db.query(%s%s)' % (jstr(sql), ',' + o if o else ''), 'err' if rows is None else '[]')
            elif k == 'obj':
                vals = {c: g.val() for c in cols if r.random() < .8} or {cols[0]: 1.0}
                n = 'w%d' % nv[0]; nv[0] += 1; js.append('var %s={%s};' % (n, ','.join('%s:%s' % (c, jlit(v)) for c, v in vals.items())))
                if r.random() < .6:
                    try: db.execute('insert into %s(%s) values(%s)' % (t, ','.join(vals), ','.join('?' * len(vals))), [sv(v) for v in vals.values()]); x = '[]'
                    except sqlite3.Error: x = 'err'
                    P('db.query("insert into %s %%v",%s)' % (t, jstr(n)), x)
                else:
                    try: db.execute('update %s set %s where rowid=2' % (t, ','.join(c + '=?' for c in vals)), [sv(v) for v in vals.values()]); x = '[]'
                    except sqlite3.Error: x = 'err'
                    P('db.query("update %s %%v where rowid=2",{obj:{name:%s}})' % (t, jstr(n)), x)
            elif k == 'upd':
                c, w = r.choice(cols), r.choice(cols); op = r.choice(['=', '=', '<', '>', '!=', 'is'])
                sql, o, rows, _d = run('update %s set %s=%%s where %s %s %%s' % (t, c, w, op), [g.val(), g.val()])
                P('db.query(%s%s)' % (jstr(sql), ',' + o if o else ''), 'err' if rows is None else '[]')
            elif k == 'del':
                if r.random() < .6: continue
                sql, o, rows, _d = run('delete from %s where rowid=%%s or %s=%%s' % (t, r.choice(cols)), [float(r.randint(1, 9)), g.val()])
                P('db.query(%s%s)' % (jstr(sql), ',' + o if o else ''), 'err' if rows is None else '[]')
            elif k == 'sel':
                items = []; bl = []
                for i in range(r.randint(1, 4)):
                    q = r.random()
                    if q < .55:
                        c = r.choice(cols); items.append('%s as x%d' % (c, i)); bl.append(ty[c].lower().startswith('bool'))
                    else:
                        c = r.choice(cols); items.append('%s as x%d' % (r.choice(['typeof(%s)' % c, '%s||\'!\'' % c, 'length(%s)' % c, '%s is null' % c, 'rowid', '5', '2.5', "'it''s'", 'null', 'quote(%s)' % c, 'hex(%s)' % c,
                                                                                 'coalesce(%s,\'none\')' % c]), i)); bl.append(False)
                vals = []; wh = ''
                if r.random() < .4: wh = ' where %s %s %%s' % (r.choice(cols), r.choice(['=', '<', '>=', 'is not', '!='])); vals = [g.val()]
                if r.random() < .15: items = ['count(*) as x0', 'max(%s) as x1' % r.choice(cols)]; bl = [False, False]
                lim = r.choice([0, 0, 0, 1, 2, 3])
                sql, o, rows, names = run('select %s from %s%s order by rowid' % (','.join(items), t, wh), vals)
                if rows is None: P('db.query(%s%s)' % (jstr(sql), ',' + o if o else ''), 'err'); continue
                if lim: rows = rows[:lim]
                mode = r.choice(['rows', 'rows', 'arrays', 'array1d', 'list', 'csv', 'tabs', 'html', 'json', 'json2', 'insert', 'line', 'column'])
                kinds['mode.' + mode] += 1; hd = r.random() < .4; nul = r.choice([None, None, 'NUL', '-'])
                op = ['mode:"%s"' % mode] if mode != 'rows' or r.random() < .5 else []
                if o: op.append('values:' + o)
                if hd: op.append('headers:true')
                if lim: op.append('limit:%d' % lim)
                if nul: op.append('nullvalue:"%s"' % nul)
                sep = None
                if mode in ('list', 'csv', 'tabs') and r.random() < .3: sep = r.choice([';', '|', ';;', '::', ' ']); op.append('separator:"%s"' % sep)
                e = 'db.query(%s%s)' % (jstr(sql), ',{%s}' % ','.join(op) if op else '')
                P(e, g.expect(mode, rows, names, bl, hd and mode != 'rows', nul, sep))
            elif k == 'one':
                c = r.choice(cols); sql, o, rows, _d = run('select %s from %s order by rowid' % (c, t), [])
                P('db.onecolumn(%s)' % jstr(sql), pyD(J(rows[0][0], ty[c].lower().startswith('bool'))) if rows else 'U')
            elif k == 'exists':
                w = r.choice(cols)
                while True:
                    v = [g.val()]; mark = len(js), nv[0]; sql, o, rows, _d = run('select 1 from %s where %s=%%s' % (t, w), v)
                    if o is None: break
                    del js[mark[0]:]
                P('db.exists(%s)' % jstr(sql), pyD(bool(rows)))
            elif k in ('cb', 'nest'):
                sql = 'select rowid as id,%s as x from %s order by rowid' % (cols[0], t); rows = db.execute(sql).fetchall(); b = ty[cols[0]].lower().startswith('bool')
                if k == 'cb':
                    m = r.randint(1, 5); how = r.choice(['stop', 'stop', 'throw']); got = []
                    thr = False
                    for i, (a, x) in enumerate(rows):
                        got.append([a, J(x, b)])
                        if i + 1 == m: thr = how == 'throw'; break
                    P('(function() { var l=[],z="ok"; try { db.query(%s,function(o) { l.push([o.id,o.x]); if (l.length==%d) %s; return false; }); } catch(e) { z="thrown:"+e; } return [l,z]; })()'
                      % (jstr(sql), m, 'return true' if how == 'stop' else 'throw "E1"'), None if thr else pyD([got, 'ok']))
                    if thr: out[-1] = ('prefix', pyD([got])[:-1] + ',s:"thrown:')
                else:
                    rows = rows[:5]; sql = sql + ' limit 5'
                    inner = [[a, J(x, b)] for a, x in rows]
                    P('(function() { var l=[]; db.query(%s,function(o) { var k=[]; db.query(%s,function(p) { k.push([p.id,p.x]); return false; }); l.push([o.id,o.x,k]); return false; }); return l; })()' % (jstr(sql), jstr(sql)),
                      pyD([[a, x, inner] for a, x in inner]))
            elif k == 'func':
                if 'f' not in regs:
                    regs.add('f')
                    js.append('db.func("jcat",function(a,b) { return (a===null?"N":""+a)+"|"+(b===null?"N":""+b); }); db.func("jadd",function(a,b) { if (typeof a!="number" || typeof b!="number") return null; return a+b; }); db.func("jt",function(a) { return a===null?"null":typeof a; }); db.func("jb",function(a) { return a===null; });')
                    db.create_function('jcat', 2, lambda a, b: '|'.join('N' if x is None else x if isinstance(x, str) else x.decode() if isinstance(x, bytes) else num15(float(x)) for x in (a, b)))
                    db.create_function('jadd', 2, lambda a, b: float(a) + float(b) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else None)
                    db.create_function('jt', 1, lambda a: 'null' if a is None else 'number' if isinstance(a, (int, float)) else 'string')
                    db.create_function('jb', 1, lambda a: int(a is None))
                a, b = r.choice(cols), r.choice(cols); e = r.choice(['jcat(%s,%s)' % (a, b), 'jadd(%s,%s)' % (a, b), 'jt(%s)' % a, 'jb(%s)' % a, 'typeof(jadd(%s,%s))' % (a, b), 'sum(jadd(rowid,1))'])
                sql, o, rows, names = run('select %s as x0 from %s order by rowid' % (e, t), []); P('db.query(%s)' % jstr(sql), rowsD(rows, names, [False]))
            elif k == 'coll':
                if 'c' not in regs:
                    regs.add('c'); js.append('db.collate("jrev",function(d,a,b) { return a<b?1:a>b?-1:0; }); db.collate("jlen",function(d,a,b) { return a.length-b.length; });')
                    db.create_collation('jrev', lambda a, b: (a.encode() < b.encode()) - (a.encode() > b.encode())); db.create_collation('jlen', lambda a, b: len(a) - len(b))
                c = r.choice(cols); sql, o, rows, names = run('select %s as x0 from %s order by %s collate %s,rowid' % (c, t, c, r.choice(['jrev', 'jlen', 'nocase'])), [])
                P('db.query(%s)' % jstr(sql), rowsD(rows, names, [ty[c].lower().startswith('bool')]))
            elif k == 'bad':
                P(r.choice(['db.query("selec 1")', 'db.query("insert into nosuch values(1)")', 'db.query("select ? as a")', 'db.query("select @nosuchvar")', 'db.query("select ?,?",[1])', 'db.eval("create table")',
                            'db.query("select nosuchfunc(1)")', 'db.query("insert into t0(%s) values(1); selec 2")' % 'nosuchcol', 'db.onecolumn("select nosuch from t0")', 'db.query("insert into t0 %v","nosuchobj")']), 'err')
            elif k == 'ddl':
                q = r.random()
                if q < .4 and len(cols) < 5:
                    s = 'alter table %s add column c%d %s' % (t, len(cols), 'TEXT'); db.execute(s); ty['c%d' % len(cols)] = 'TEXT'; P('db.query(%s)' % jstr(s), '[]')
                elif q < .6: db.execute('drop table ' + t); P('db.query("drop table %s")' % t, '[]'); create(t)
                else:
                    s = 'create index if not exists i_%s on %s(%s)' % (t, t, cols[-1]); db.execute(s); P('db.query(%s)' % jstr(s), '[]')
            elif k == 'changed':
                cur = db.execute('update %s set %s=%s where rowid>2' % (t, cols[-1], cols[-1])); n = cur.rowcount
                P('db.query("update %s set %s=%s where rowid>2",{retChanged:true})' % (t, cols[-1], cols[-1]), pyD(float(n)))
                P('db.conf().changeCnt', pyD(float(n)))
            elif k == 'multi':
                sqls = ['delete from %s where rowid>20' % t, "update %s set %s='m' where rowid=3" % (t, cols[-1])]
                ok = True
                try:
                    for s in sqls: db.execute(s)
                except sqlite3.Error: ok = False
                fn_ = r.choice(['eval', 'query']); P('db.%s(%s)' % (fn_, jstr(' ; '.join(sqls) + r.choice(['', ';', '; -- end', ' ;\n /* c */ ']))), None if fn_ == 'eval' and ok else '[]' if ok else 'err')
            elif k == 'regexp':
                pat, py = r.choice([('^a', '^a'), ('[0-9]+', '[0-9]'), ('x.*y', 'x.*y'), ('e$', 'e$'), ('A', 'A')]); fl = r.random() < .5
                c = r.choice(cols); rows = db.execute('select typeof(%s), cast(%s as text) from %s order by rowid' % (c, c, t)).fetchall()
                if any(y == 'real' or (y == 'blob') or (s and ('\n' in s)) for y, s in rows): continue
                x = [None if s is None else int(bool(re.search(py, s, re.I if fl else 0))) for y, s in rows]
                P('db.query("select regexp(\'%s\',%s%s) as x from %s order by rowid",{mode:"array1d"})' % (pat, c, ",'i'" if fl else '', t), pyD(x))
            elif k == 'import':
                f = fn + '.%d.csv' % nv[0]; nv[0] += 1; csv = r.random() < .6; sep = ',' if csv else '\t'; data = []; lines = []
                for _i in range(r.randint(0, 4)):
                    row = []
                    for c in cols:
                        v = r.choice(['1', '2.5', 'abc', 'x y', 'é', "it's", '', 'a;b', '-7']) if not csv or r.random() < .7 else r.choice(['a,b', 'say "hi"', '"', 'p\nq', ',,', 'end"', '""'])
                        row.append(v)
                    data.append(row)
                    lines.append(sep.join('"%s"' % v.replace('"', '""') if csv and (any(ch in v for ch in ',"\n') or (v and r.random() < .2)) else v for v in row))
                open(f, 'w').write(''.join(l + '\n' for l in lines))
                try:
                    db.execute('begin')
                    for row in data: db.execute('insert into %s values(%s)' % (t, ','.join('?' * len(cols))), [v if v else None for v in row])
                    db.execute('commit'); x = None
                except sqlite3.Error:
                    if db.in_transaction: db.execute('rollback')
                    x = 'err'
                if len(cols) == 1 and any(not row[0] for row in data) and False: continue
                P('db.import(%s,%s,{csv:%s,conflict:"ABORT"})' % (jstr(t), jstr(f), 'true' if csv else 'false'), 'err' if x else None)
            elif k == 'backup':
                if r.random() < .5: continue
                P('(db.backup(%s),1)' % jstr(fn + '.bak'), None); js.append('var d2=new Sqlite(%s);' % jstr(fn + '.bak'))
                rows = db.execute('select * from %s order by rowid' % t).fetchall()
                P('d2.query("select * from %s order by rowid",{mode:"arrays"})' % t, pyD([[J(v, y.lower().startswith('bool')) for v, y in zip(row, ty.values())] for row in rows])); js.append('delete d2;')
        js.append('delete db;')
        fin = {}
        for t in tabs: fin[t] = db.execute('select rowid,* from %s order by rowid' % t).fetchall()
        db.close()
        return '\n'.join(js), out, fin
    def expect(g, mode, rows, names, bl, hd, nul, sep):
        if mode == 'rows': return pyD([{n: J(v, b) for n, v, b in zip(names, row, bl)} for row in rows])
        if mode == 'arrays': return pyD(([list(names)] if hd and rows else []) + [[J(v, b) for v, b in zip(row, bl)] for row in rows])
        if mode == 'array1d': return pyD((list(names) if hd and rows else []) + [J(v, b) for row in rows for v, b in zip(row, bl)])
        def cell(v, b):
            if v is None: return nul or ''
            if b and isinstance(v, int) and v in (0, 1): return 'true' if v else 'false'
            if isinstance(v, bytes): return v.decode()
            return v if isinstance(v, str) else num15(v)
        cells = [[cell(v, b) for v, b in zip(row, bl)] for row in rows]
        tab = ([list(names)] if hd and rows else []) + cells
        if mode in ('list', 'tabs'): return pyD((('\n' if False else '') + '\n'.join((sep or ('|' if mode == 'list' else '\t')).join(x) for x in tab)))
        if mode == 'line':
            w = max([5] + [len(n) for n in names]); return pyD(''.join(('\n' if i else '') + '%*s = %s' % (w, n, c) for i, row in enumerate(cells) for n, c in zip(names, row)))
        if mode == 'csv':
            def f(line):
                t = unq(line)
                if t is None: return 'no text'
                p = csvparse(t, sep or ',') if tab else ([] if t == '' else [[t]])
                return None if p == tab else 'decodes to %r, not %r' % (p, tab)
            return f
        if mode == 'html':
            def f(line):
                t = unq(line)
                if t is None: return 'no text'
                rest = re.sub(r'<TR>((?:<T[DH]>[^<>]*</T[DH]>)+)</TR>', '', t)
                p = [[html.unescape(c) for c in re.findall(r'<T[DH]>([^<>]*)</T[DH]>', m)] for m in re.findall(r'<TR>((?:<T[DH]>[^<>]*</T[DH]>)+)</TR>', t)]
                return None if p == tab and not rest.strip('\n') else 'decodes to %r, not %r' % (p, tab)
            return f
        if mode in ('json', 'json2'):
            want = [[J(v, b) for v, b in zip(row, bl)] for row in rows]
            def same(a, b):
                if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str): return a is b if not isinstance(a, str) else a == b
                return float('%.15g' % a) == float('%.15g' % b)
            def f(line):
                t = unq(line)
                if t is None: return 'no text'
                if mode == 'json2' and not rows: return None if t == '' else 'text for no rows'
                try: p = json.loads(t, strict=False)
                except ValueError as e: return 'not JSON: %s' % e
                if mode == 'json2':
                    if p.get('names') != list(names): return 'names %r' % p.get('names')
                    p = p['values']
                elif hd:
                    if rows:
                        if p[:1] != [list(names)]: return 'header %r' % p[:1]
                        p = p[1:]
                else:
                    if any(list(x) != list(names) for x in p): return 'names in %r' % p
                    p = [list(x.values()) for x in p]
                ok = len(p) == len(want) and all(len(x) == len(y) and all(same(c, d) for c, d in zip(x, y)) for x, y in zip(p, want))
                return None if ok else 'decodes to %r, not %r' % (p, want)
            return f
        if mode == 'insert':
            def f(line):
                t = unq(line)
                if t is None: return 'no text'
                d = sqlite3.connect(':memory:'); d.execute('create table "table"(%s)' % ','.join(names))
                try: d.executescript(t)
                except sqlite3.Error as e: return 'not SQL: %s' % e
                p = d.execute('select * from "table" order by rowid').fetchall()
                def n(v, b=False):
                    return v if v is None or isinstance(v, (str, bytes)) else int(v) if b and v in (0, 1) else float('%.15g' % v)
                a, b = [[n(v) for v in x] for x in p], [[n(v) for v in x] for x in rows]
                return None if a == b else 'inserts %r, not %r' % (a, b)
            return f
        if mode == 'column':
            def f(line):
                t = unq(line)
                if t is None: return 'no text'
                if not rows or any('\n' in c or any(ord(z) > 127 for z in c) for row in cells for c in row): return None
                w = [max(10, len(n)) for n in names]; want = [' '.join(c[:k].ljust(k) for c, k in zip(row, w)) for row in cells]
                have = t.split('\n')[-len(rows):] if hd else None
                if have is None:
                    return None if t.endswith('\n'.join(want)) else 'rows %r, not %r' % (t, want)
                return None if have == want else 'rows %r, not %r' % (have, want)
            return f

def norm(v):
    return v

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one database history: every result decoded, final file read by an independent client; distinct programs'
    ctx.assumptions = ['no NUL characters and no infinities in values', 'result columns have distinct names', 'numbers in text modes have 15 digits (the interpreter prints no more)']
    kinds = collections.Counter(); g = G(ctx.sub('f')); cases, exp, fins, fns = [], [], [], []
    base = os.path.join(ctx.tmp, 'db'); os.makedirs(base)
    while len(cases) < ctx.size(4000, 25000):
        fn = '%s/%d.db' % (base, len(cases))
        c, x, t = g.case(kinds, fn); cases.append(c); exp.append(x); fins.append(t); fns.append(fn)
    out = run_cases(ctx, cases, PRE, size=25)
    for c, o, x, t, fn in zip(cases, out, exp, fins, fns):
        if o is None: continue
        o = o.rstrip('\n').split('\n') if o else []; o = [canon_line(l) for l in o]
        ctx.case(c.replace(fn, '@'), sample=dict(program=c.replace(fn, '@')[:600], observed=[l[:200] for l in o[-3:]])); ctx.count('results', len(x))
        why = None
        for i in range(max(len(x), len(o))):
            if i >= len(x) or i >= len(o): why = 'result %d: %s' % (i, 'missing' if i >= len(o) else 'unexpected ' + o[i][:300])
            elif x[i] is None:
                if o[i] == 'err': why = 'result %d: an error' % i
            elif isinstance(x[i], tuple):
                if not o[i].startswith(x[i][1]): why = 'result %d\nexpected: %s...\ngot:      %s' % (i, x[i][1], o[i])
            elif callable(x[i]):
                w = x[i](o[i])
                if w: why = 'result %d: %s\ngot: %s' % (i, w, o[i][:1500])
            elif x[i] != o[i]: why = 'result %d\nexpected: %s\ngot:      %s' % (i, x[i][:1500], o[i][:1500])
            if why: break
        if not why:
            try:
                d = sqlite3.connect(fn); d.text_factory = str
                for tb, rows in t.items():
                    got = d.execute('select rowid,* from %s order by rowid' % tb).fetchall(); ctx.count('rows_read_back', len(got))
                    if [[(type(v), v) for v in q] for q in got] != [[(type(v), v) for v in q] for q in rows]:
                        k = next((i for i, (a, b) in enumerate(zip(got, rows)) if a != b or list(map(type, a)) != list(map(type, b))), None)
                        why = 'table %s in the file\nexpected: %r\non disk:  %r' % (tb, rows[k] if k is not None else len(rows), got[k] if k is not None else len(got)); break
                d.close()
            except sqlite3.Error as e: why = 'database file: %s' % e
        if why: ctx.violation('db:' + c.replace(fn, '@'), 'program:\n%s\n%s' % (c[-3500:], why), batch_src([c], PRE))
    shutil.rmtree(base, ignore_errors=True)
    ctx.notes['operations'] = dict(kinds)

def canon_line(l):
    # numbers only outside of quoted text
    return ''.join(p if i % 2 else canon(p) for i, p in enumerate(re.split(r'("(?:[^"\\]|\\.)*")', l)))
