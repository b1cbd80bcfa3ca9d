#!/usr/bin/env python3
"""Shrink a differing program: tools/reduce.py C04 REPLAYFILE  (program text between 'program:' and 'reference trace:')."""
import sys, re, subprocess, importlib, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.js import *
mod = importlib.import_module('checks.' + sys.argv[1].lower())
txt = open(sys.argv[2]).read()
src = txt.split('program:\n', 1)[1].split('\nreference trace:', 1)[0]
PJ = getattr(mod, 'PRE_J', None) or DUMP + mod.PRE_COMMON
PN = getattr(mod, 'PRE_N', None) or DUMP_NODE + mod.PRE_COMMON

PN = PN.replace('function C(e) {', 'function C(e) { if (e instanceof ReferenceError && !/nosuch/.test(e.message)) process.exit(3);')
def outs(c):
    open('/tmp/_r.js', 'w').write(batch_src([c], PJ))
    try:
        a = subprocess.run(['/verif/.build/asan/jsish', '/tmp/_r.js'], capture_output=True, timeout=10, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        n = 'var __o=[]; function console_log(s){__o.push(String(s));} var puts=console_log;\n' + PN + NODE_WRAP % (0, c) + 'puts("@@E");process.stdout.write(__o.join("\\n")+"\\n");'
        open('/tmp/_rn.js', 'w').write(n)
        n = n.replace('catch(e__) {', 'catch(e__) { if (e__ instanceof ReferenceError) process.exit(3);')
        open('/tmp/_rn.js', 'w').write(n)
        b = subprocess.run(['node', '/tmp/_rn.js'], capture_output=True, timeout=10)
    except subprocess.TimeoutExpired:
        return None
    if b.returncode: return None
    x = split_out(a.stdout.decode('utf-8', 'replace'), 1)[0][0]
    y = split_out(b.stdout.decode('utf-8', 'replace'), 1)[0][0]
    if x is None:
        if b'parse' in a.stderr or b'syntax' in a.stderr: return None
        x = 'NONE ' + a.stderr.decode()[-200:]
    return canon(x), canon(y or '')

def bad(c):
    o = outs(c)
    if o is None or ' U' in o[1]: return False
    if len(sys.argv) > 3 and not re.search(sys.argv[3], o[0]): return False
    if o[0].count('!EXC') != base_j: return False
    return o[0] != o[1] and not ('!EXC' in o[1] and '!EXC' not in o[0]) and o[1].count('!EXC') == base_exc

toks = re.findall(r'\s+|\w+|"(?:\\.|[^"\\])*"|[^\w\s]', src)
o = outs(src); base_exc = o[1].count('!EXC'); base_j = o[0].count('!EXC')
print('initial differs:', o[0] != o[1], len(toks))
# candidate spans: balanced groups, statements
def spans(t):
    st, out, start = [], [], [0]
    for i, x in enumerate(t):
        if x in '([{' and len(x) == 1:
            st.append(i); start.append(i + 1)
        elif x in ')]}' and st:
            b = st.pop(); s = start.pop()
            if x == '}':
                out.append((b + 1, i)); out.append((start[-1], i + 1)); start[-1] = i + 1
                out.append(('unwrap', start[-1] if 0 else b, i))
            else:
                out.append((b, i + 1))
        elif x == ';':
            out.append((start[-1], i + 1)); start[-1] = i + 1
    return out
changed = True
while changed:
    changed = False
    sp = spans(toks)
    sp.sort(key=lambda s: -(s[-1] - s[-2]))
    for s in sp:
        if s[0] == 'unwrap':
            # drop the header and braces: keep the content
            b, e = s[1], s[2]
            h = b
            depth = 0
            while h > 0 and not (depth == 0 and toks[h - 1] in (';', '{', '}')):
                if toks[h - 1] == ')': depth += 1
                if toks[h - 1] == '(': depth -= 1
                h -= 1
            cand = toks[:h] + [' '] + toks[b + 1:e] + toks[e + 1:]
        else:
            if s[1] - s[0] < 1: continue
            cand = toks[:s[0]] + toks[s[1]:]
        if len(cand) < len(toks) and bad(''.join(cand)):
            toks = cand; changed = True; break
    # simple constants
print(''.join(toks))
print('jsish / node:', *outs(''.join(toks)), sep='\n')
