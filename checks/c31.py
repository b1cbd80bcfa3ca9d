"""C31: the test runner (-t, --T) against scripts whose output is known."""
from vf.js import *
import os

CH = 'abcXYZ 019._-+=:,/@%^~{}[]()$;&|<>*?!#é漢😀'
PRE = 'function id(x) { return x; }\nfunction thr(s) { throw s; }\n'

def text(r, n=None, q="'"):
    s = ''.join(r.choice(CH) for _ in range(r.randint(0, 12) if n is None else n)).replace('*/', '*')
    return r.choice(['', '', '$&', '$1', '%s', '%d', '^(', '\u00e9', '.*', '==>', '"']) + s

def script(r):
    """Script lines and what they print under test mode; flags say what is special about it."""
    L = []; out = ''; fl = set()
    for _ in range(r.randint(1, 8)):
        k = r.choice(['expr'] * 4 + ['str'] * 3 + ['comment', 'throw', 'puts', 'puts', 'plain', 'blank'])
        if k == 'expr':
            a, b = r.randint(-99, 99), r.randint(1, 99); e, v = r.choice([('%d + %d' % (a, b), a + b), ('%d*%d' % (a, b), a * b), ('id(%d)' % a, a), ('%d < %d' % (a, b), str(a < b).lower()), ('[%d,%d].join(",")' % (a, b), '%d,%d' % (a, b)), ('(%d,%d)' % (a, b), b)])
            L.append(';%s;' % e); out += '%s ==> %s\n' % (e, v)
        elif k == 'str':
            t = text(r); e = "id('%s')" % t
            if r.random() < .1: t = text(r, r.choice([200, 1000])); e = "id('%s')" % t
            L.append(';%s;' % e); out += '%s ==> %s\n' % (e, t)
        elif k == 'comment': t = text(r); L.append(";'%s';" % t); out += "'%s'\n" % t
        elif k == 'throw':
            t = text(r).replace('"', '')
            if r.random() < .85: e = "thr('%s')" % t; m = '[PASS]!: err = %s' % t
            else: e = "id('%s')" % t; m = '[FAIL]!: expected a throw\n'; fl.add('FAIL')
            L.append(';//%s%s;' % (r.choice(['', ' ', '   ']), e)); out += '%s ==>\n%s\n' % (e, m); fl.add('throw')
        elif k == 'puts':
            t = text(r) + r.choice(['', '', '\n' + text(r), '\n', '\n\n' + text(r)]); L.append('puts(%s);' % jstr(t)); out += t + '\n'
        elif k == 'plain': t = text(r); L.append('printf("%%s", %s);' % jstr(t)); out += t
        else: L.append(r.choice(['', '// a comment', 'var v;' if 'var v;' not in L else '']))
    if r.random() < .04: L.append('puts("x*" + "/");'); out += 'x*/\n'; fl.add('star')
    if r.random() < .08: L.append("thr('end');"); fl.add('error')
    return L, out, fl

def block(ctx, i):
    r = ctx.sub('b%d' % i); d = os.path.join(ctx.tmp, 'b%d' % i); os.makedirs(d); f = d + '/' + r.choice(['t.jsi', 't.js', 'my test.jsi', 'té.jsi'])
    L, want, fl = script(r); inp = args = None; tail = ''
    if r.random() < .25: inp = ''.join(text(r) + '\n' for _ in range(r.randint(1, 3))); L.insert(0, 'var ln; while (typeof (ln = console.input()) == "string") puts("<" + ln + ">");'); want = ''.join('<%s>\n' % x for x in inp.split('\n')[:-1]) + want; tail += '/*\n=!INPUTSTART!=\n%s=!INPUTEND!=\n*/\n' % inp; fl.add('input')
    if r.random() < .2: args = ' '.join('%s%d' % (r.choice(['a', '-b', 'x=']), r.randint(0, 9)) for _ in range(r.randint(1, 3))); L.append('puts("args", console.args.join("|"));') if 'error' not in fl else None; want += 'args %s\n' % args.replace(' ', '|') if 'error' not in fl else ''; tail += '/*\n=!ARGSTART!=\n%s\n=!ARGEND!=\n*/\n' % args; fl.add('args')
    if inp and '*/' in inp: return block(ctx, i + 100000)   # it is kept in a comment
    body = PRE + '\n'.join(L) + r.choice(['\n', '\n', '']) ; body += ('\n' if tail else '') + tail
    fl.discard('star')
    if '*/' in want: fl.add('star')
    log = []
    def save(b): open(f, 'wb').write(b)
    def read(): return open(f, 'rb').read()
    def go(*a):
        res = ctx.run(['-t', *a, f], cwd=d, timeout=120); log.append('jsish -t %s\nrc %s\n%s%s' % (' '.join(a), res.rc, res.text, res.etext[-500:])); ctx.count('runs')
        return res
    what = ' '.join(sorted(fl)) or 'plain'
    def bad(k, msg): ctx.violation(k, '%s (script with %s): %s' % (k, what, msg), '\n'.join(log)[-3000:] + '\n--- expected output\n' + want + '\n--- script\n' + read().decode('utf8', 'replace'))
    def verdict(res, ok, why):
        p, q = '[PASS] ' + f in res.text, '[FAIL]' in res.text.replace('[FAIL]!: expected a throw', '').replace('[FAIL]!: use', '') or 'ERROR' in res.text + res.etext or 'error' in res.etext
        if not ctx.sanity(res, 'run', 'test runner', read().decode('utf8', 'replace')): return False
        ctx.case('%s: %s, %s' % (what, why, 'PASS' if ok else 'FAIL'))
        if ok and (res.rc or not p): bad('not PASS', '%s: rc %s, %s' % (why, res.rc, res.text[:300])); return False
        if not ok and (not res.rc or p): bad('not FAIL', '%s: rc %s, %s' % (why, res.rc, res.text[:300])); return False
        return True
    save(body.encode())
    # The transformed output itself.
    if 'input' not in fl and 'args' not in fl:
        res = ctx.run(['--T', f], cwd=d, timeout=120); log.append('--T rc %s %s' % (res.rc, res.etext[-300:]))
        if res.text != want: bad('--T output', 'prints %r, not %r' % (res.text[-400:], want[-400:])); return
        if bool(res.rc) != ('error' in fl): bad('--T status', 'rc %s' % res.rc); return
        if read() != body.encode(): bad('script changed', 'by --T'); return
    if not verdict(go(), not fl & {'error', 'throw'}, 'no expectation'): return
    if read() != body.encode(): bad('script changed', 'by a test run'); return
    def update(old, new, why, ref):
        force = 'FAIL' in fl and r.random() < .5
        res = go(*(['-update', 'true'] + (['-force', 'true'] if force else [])))
        if not ctx.sanity(res, 'run', 'test runner', body): return False
        ctx.case('%s: update, %s%s' % (what, why, ', forced' if force else ''))
        if fl & {'error', 'star'} or 'FAIL' in fl and not force and '\n[FAIL]!:' in want:
            if not res.rc: bad('update accepted', 'rc 0: %s' % res.text[:300]); return False
            if read() != old: bad('update refused', 'but the script changed'); return False
            return None
        if res.rc or ref not in res.text: bad('update failed', 'rc %s, %s' % (res.rc, res.text[:300])); return False
        if read() != new: bad('update', '%s: the script is not its old text with the new expectation' % why); return False
        return True
    S, E = '=!EXPECTSTART!=\n', '=!EXPECTEND!='
    done = (body + '\n/*\n' + S + want + E + '\n*/\n').encode()
    k = update(body.encode(), done, 'new', 'Created')
    if k is False: return
    if k is None: return # the expectation cannot be stored in the script
    if not verdict(go(), True, 'after update'): return
    if r.random() < .5 and 'input' not in fl and ' ' not in f and not verdict(go('-exec', 'true'), True, 'exec'): return
    if update(done, done, 'same', 'Unchanged') is False: return
    for _ in range(2):
        # Another expectation: anything that differs must fail.
        w = want; m = r.choice(['char', 'drop', 'add', 'line', 'swap', 'newline', 'space', 'empty', 'case'])
        p = r.randrange(len(w) + 1)
        if m == 'char' and w: p = min(p, len(w) - 1); w = w[:p] + ('x' if w[p] != 'x' else 'y') + w[p + 1:]
        elif m == 'drop': w = w[:p] + w[p + 1:]
        elif m == 'add': w = w[:p] + r.choice('z\n 7é') + w[p:]
        elif m == 'line': l = w.split('\n'); l.insert(r.randrange(len(l)), text(r)); w = '\n'.join(l)
        elif m == 'swap': l = w.split('\n'); r.shuffle(l); w = '\n'.join(l)
        elif m == 'newline': w = w[:-1] if w.endswith('\n') else w + '\n'
        elif m == 'space': w = w.rstrip('\n') + ' \n'
        elif m == 'empty': w = ''
        elif m == 'case': w = w.swapcase()
        if w == want or '*/' in w or E in w: continue
        extra = r.choice(['', '', 'puts("");', '// after\n', '\nvar q1 = 3;\n']); w2 = want + ('\n' if extra == 'puts("");' else '')
        old = (body + '\n/*\n' + S + w + E + '\n*/\n' + extra).encode(); save(old)
        if w != w2 and not verdict(go(), False, 'another expectation (%s)' % m): return
        new = (body + '\n/*\n' + S + w2 + E + '\n*/\n' + extra).encode()
        if not update(old, new, 'replaces', 'Updated' if w != w2 else 'Unchanged'): return
        if not verdict(go(*([] if r.random() < .6 or 'input' in fl or ' ' in f else ['-exec', 'true'])), True, 'after another update'): return

def many(ctx, i):
    """A directory or list of scripts."""
    r = ctx.sub('m%d' % i); d = os.path.join(ctx.tmp, 'm%d' % i); os.makedirs(d + '/t'); fs = []; exp = {}
    for j in range(r.randint(2, 7)):
        n = '%s/t/%s%d.%s' % (d, r.choice('abc'), j, r.choice(['jsi', 'js'])); ok = r.random() < .6; a = r.randint(0, 99)
        kind = r.choice(['expect', 'none' if ok else 'error'])
        s = ';%d+1;\n' % a
        if kind == 'expect': s += '/*\n=!EXPECTSTART!=\n%d+1 ==> %d\n=!EXPECTEND!=\n*/\n' % (a, a + 1 + (not ok))
        if kind == 'error': s += 'throw "bad";\n'
        open(n, 'w').write(s); fs.append(n); exp[n] = ok
    for x in ['readme.txt', 'z.jsi.bak']: open(d + '/t/' + x, 'w').write('throw 1;')
    a = []; fm = 0
    if r.random() < .4: fm = r.randint(1, 3); a = ['-failMax', str(fm)]
    if r.random() < .5: order = sorted(fs); arg = [d + '/t']
    else: r.shuffle(fs); order = fs; arg = fs
    res = ctx.run(['-t', *a, *arg], cwd=d, timeout=120)
    if not ctx.sanity(res, 'run', 'test runner', ' '.join(a + arg)): return
    run, bad = [], 0
    for n in order:
        run.append(n); bad += not exp[n]
        if fm and bad >= fm: break
    def err(k, msg): ctx.violation(k, 'several scripts: ' + msg, ' '.join(a + arg) + '\n' + repr(exp) + '\n' + res.text + res.etext)
    got = [(l.split()[1], l.split()[0].endswith('[PASS]')) for l in res.text.replace('\r', '\n').replace(' [PASS]', '\n[PASS]').replace(' [FAIL]', '\n[FAIL]').split('\n') if l.startswith(('[PASS] ', '[FAIL] '))]
    ctx.case('%s, %d of %d fail%s' % ('directory' if arg[0][-2:] == '/t' else 'list', bad, len(run), ', failMax' if fm else ''))
    if got != [(n, exp[n]) for n in run]: err('verdicts', 'verdicts %s, expected %s' % (got, [(n, exp[n]) for n in run])); return
    if res.rc != bad: err('status', 'status %s with %d failing' % (res.rc, bad))
    if len(run) > 1 and '%d FAIL, %d PASS' % (bad, len(run) - bad) not in res.text: err('summary', 'summary %r' % res.text[-100:])

def run(ctx):
    ctx.build('asan')
    ctx.pmap(lambda j: block(ctx, j[1]) if j[0] == 'b' else many(ctx, j[1]), [('b', i) for i in range(ctx.size(140, 4000))] + [('m', i) for i in range(ctx.size(40, 800))])
    ctx.rule = 'what the script contains (exceptions, input, arguments, uncaught error, comment terminator) x phase (no expectation, update, right or changed expectation, exec, several scripts) x verdict'
    ctx.assumptions = ['scripts do not print or contain the EXPECT, INPUT and ARG markers outside their sections']
