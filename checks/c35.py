"""C35: exec against commands whose output, input and exit status are known."""
from vf.js import *
import json, os, subprocess, time

SRC = r'''
var P = JSON.parse(File.read(console.args[0])), cwd0 = File.pwd();
function X(s) { if (s==="") return ""; return Util.hexStr(s); }
for (var i=0; i<P.length; i++) {
  var c = P[i], o = {}, v, inp = c.inp ? File.read(c.inp,"rb") : null, op = c.o;
  if (inp !== null && op) op.inputStr = inp;
  try {
    if (inp !== null && !op) v = exec(c.cmd, inp);
    else if (op) v = exec(c.cmd, op);
    else v = exec(c.cmd);
    o.type = typeof v;
    if (typeof v == "object") { o.code = v.code; o.status = v.status; o.data = X(v.data); }
    else if (typeof v == "string") o.data = X(v);
    else o.code = v;
  } catch(e) { o.err = 1; }
  o.cwd = (File.pwd() === cwd0);
  puts("@" + JSON.stringify(o));
}
for (i=0; i<P.length; i++) if (P[i].wait) for (var n=0; n<1000 && !File.exists(P[i].wait); n++) sleep(20);
'''
WORDCH = 'abcXYZ019._-+=:,/@%^~{}[]()$;&|<>*?!#"\'\\`é漢'
META = '<>|;&$`=\n'

def content(r, big):
    k = r.random()
    n = r.choice([0, 0, 1, 2, 3, 10, 100, 1000, 8191, 8192, 8193, 65535, 65536, 65537] + ([200000, 1000003] if big else []))
    if k < .4: return r.randbytes(n)
    if k < .7: return ''.join(r.choice('abc é漢😀\n\t') for _ in range(n // 2)).encode()
    return (b'line of text\n' * (n // 13 + 1))[:n] + r.choice([b'', b'\n', b' \n\n', b'  ', b'\t\r\n'])

def block(ctx, i, n):
    r = ctx.sub('b%d' % i); d = os.path.join(ctx.tmp, 'b%d' % i); os.makedirs(d + '/sub dir'); os.makedirs(d + '/cd')
    P = []; W = []; nf = 0
    for j in range(n):
        k = r.choice(['out'] * 5 + ['in'] * 3 + ['words'] * 2 + ['sig', 'nocmd', 'redir', 'bg', 'cd', 'interactive'])
        st = r.choice([0, 0, 0, 1, 2, 3, 77, 126, 127, 128, 129, 254, 255]); data = content(r, r.random() < .2); ctx.count('bytes', len(data))
        f = '%s/f%d' % (d, j); w = dict(k=k, st=st)
        o = {}
        form = r.choice(['plain', 'plain', 'empty', 'retCode', 'retAll', 'noError', 'trim', 'retAll trim', 'noError trim'])
        for x in form.split():
            if x not in ('plain', 'empty'): o[x] = True
        err = None
        if k in ('out', 'sig', 'cd', 'interactive', 'nocmd'):
            open(f, 'wb').write(data)
            end = 'exit %d' % st
            cmd = r.choice(['cat %s; %s', 'cat < "%s"; %s', '(head -c 1 %s; tail -c +2 %s); %s', 'cat %s; echo noise >&2; %s']); cmd = cmd % ((f,) * (cmd.count('%s') - 1) + (end,))
            if k == 'sig': sg = r.choice([6, 9, 15]); cmd = 'cat %s; kill -%d $$; sleep 5' % (f, sg); w['st'] = st = 128 + sg; w['sig'] = sg
            if k == 'nocmd': cmd = r.choice(['/nonexistent/prog', 'no_such_command_x a b', './none']); data = b''; w['st'] = st = 127
            if k == 'interactive': o['noShell'] = True; cmd = r.choice(['cat %s' % f, ' cat   %s ' % f, '/bin/cat %s' % f]); w['st'] = st = 0
            if k == 'cd': o['chdir'] = d + '/sub dir'; cmd = 'cat ../f%d; %s' % (j, end)
            if 'retAll' in o: w['want'] = dict(type='object', code=st, status=w.get('sig', 0), data=data)
            elif 'retCode' in o: w['want'] = dict(type='number', code=st)
            elif st and 'noError' not in o: w['want'] = 'err'
            else: w['want'] = dict(type='string', data=data)
            if 'trim' in o and isinstance(w['want'], dict) and 'data' in w['want']: w['want']['data'] = data.rstrip(b' \t\n\r\v\f')
            if k == 'nocmd' or 'noise' in cmd: cmd += ' 2>/dev/null' if 'noise' not in cmd else ''
        elif k == 'in':
            open(f, 'wb').write(data); g = f + '.out'
            o = {x: o[x] for x in o if x in ('retCode', 'noError')}
            m = r.choice(['cat', 'part', 'none'])
            cmd = {'cat': 'cat > %s; exit %d' % (g, st), 'part': 'head -c 10 > %s; exit %d' % (g, st), 'none': 'true > %s; exit %d' % (g, st)}[m]
            if r.random() < .3 and st == 0 and m == 'cat': cmd = 'tee %s' % g; o['noShell'] = True; cmd = 'dd of=%s status=none' % g
            w.update(want=dict(type='number', code=st), file=g, data={'cat': data, 'part': data[:10], 'none': b''}[m], mode=m)
        elif k == 'words':
            ws = [''.join(r.choice(WORDCH) for _ in range(r.randint(1, 8))) for _ in range(r.randint(0, 6))]
            o = {'noShell': True}; cmd = 'printf %s|'
            for x in ws: cmd += r.choice([' ', ' ', '  ', '   ']) + x
            if cmd[-1] == '&': cmd += 'x'; ws[-1] += 'x'
            w['want'] = dict(type='string', data=''.join(x + '|' for x in ws).encode() if ws else b'|')
        elif k == 'redir':
            o = {'noRedir': True}; open(f, 'wb').write(data)
            if r.random() < .5: cmd = 'cat %s' % f; w['want'] = dict(type='string', data=data)
            else: ch = r.choice(META); cmd = 'echo hi%stouch %s.made' % (ch + (' ' if r.random() < .5 else ''), f); w['want'] = 'err'; w['absent'] = f + '.made'
        elif k == 'bg':
            o = {'bg': True} if r.random() < .5 else {}; cmd = '(sleep .05; cat %s > %s.tmp; mv %s.tmp %s.out) > /dev/null' % (f, f, f, f) + ('' if o else ' &')
            open(f, 'wb').write(data); w.update(want=dict(type='number', code=0), file=f + '.out', data=data, wait=True)
        c = dict(cmd=cmd)
        if k == 'in': c['inp'] = f
        if k == 'bg': c['wait'] = w['file']
        if o or form == 'empty': c['o'] = o
        w['form'] = ('string input' if k == 'in' and 'o' not in c else ' '.join(sorted(o)) or form)
        P.append(c); W.append(w)
    open(d + '/in.json', 'w').write(json.dumps(P, ensure_ascii=False)); open(d + '/s.jsi', 'w').write(SRC)
    res = ctx.run([d + '/s.jsi', d + '/in.json'], cwd=d + '/cd', timeout=300)
    if not ctx.sanity(res, 'run', 'exec', json.dumps(P)[:20000] + '\n' + res.etext): return
    out = [json.loads(l[1:]) for l in res.text.splitlines() if l.startswith('@')]
    if len(out) != len(P): ctx.violation('short', 'only %d of %d commands ran to the end; rc %s stderr %s' % (len(out), len(P), res.rc, res.etext[:500]), json.dumps(P)); return
    for c, w, o in zip(P, W, out):
        def bad(k, msg): ctx.violation('%s %s' % (w['k'], k), '%s: exec(%r, %s): %s' % (k, c['cmd'], c.get('o', 'input' if 'inp' in c else ''), msg), json.dumps([c, {x: repr(y)[:2000] for x, y in w.items()}, {x: str(y)[:2000] for x, y in o.items()}], indent=1))
        ctx.case('%s, %s, status %s' % (w['k'], w['form'], 'ok' if not w['st'] else 'nonzero')); ctx.count('commands')
        if not o['cwd']: bad('directory', 'the current directory changed')
        want = w['want']
        if want == 'err':
            if 'err' not in o: bad('no error', 'gives %s' % str(o)[:200])
            if 'absent' in w and os.path.exists(w['absent']): bad('ran', 'a refused command was run')
            continue
        if 'err' in o: bad('error', 'raised an error, expected %s' % str({a: b if a != 'data' else b[:50] for a, b in want.items()})); continue
        for a, b in want.items():
            v = o.get(a)
            if a == 'data': v = bytes.fromhex(v or '')
            if v != b: bad(a, 'expected %r, got %r%s' % ((b, v, '') if a != 'data' else (b[:60], v[:60], ' (%d and %d bytes)' % (len(b), len(v)))))
        if 'file' in w:
            if w.get('wait'):
                ctx.count('background commands')
            got = open(w['file'], 'rb').read() if os.path.exists(w['file']) else None
            if got != w['data']: bad('input', 'the command got %s bytes, expected %d' % (None if got is None else len(got), len(w['data'])))

def run(ctx):
    ctx.build('asan')
    ctx.pmap(lambda i: block(ctx, i, 40), range(ctx.size(100, 1500)))
    ctx.rule = 'kind of command (output, input, words without a shell, signal, unknown command, refused redirection, background, other directory) x options x success'
    ctx.assumptions = ['/bin/sh and the coreutils of the sandbox do what they are asked to']
