"""C25: format() and printf against the C library's snprintf, called directly through ctypes."""
from vf.js import *
import collections, ctypes, json, math, struct

libc = ctypes.CDLL(None)
BIG = 1 << 20
buf = ctypes.create_string_buffer(BIG)

PRE = r'''
function X(s) { if (s==="") return ""; return Util.hexStr(s); }
function P(f) { var r; try { r=f(); } catch(e) { puts("err"); return; } puts(X(r)); }
'''

def cfmt(spec, v):
    n = libc.snprintf(buf, ctypes.c_size_t(BIG), spec.encode(), v)
    assert 0 <= n < BIG, spec
    return buf.raw[:n]

def num(r, d):
    """A JS literal and its double."""
    t = repr(d)
    if t == 'inf': return 'Infinity'
    if t == '-inf': return '-Infinity'
    if t == 'nan': return 'NaN'
    if t.endswith('.0'): t = t[:-2]
    return t

class G:
    def __init__(g, rng): g.r = rng
    def intv(g):
        r = g.r; k = r.random()
        if k < .3: return r.randint(-20, 20)
        if k < .5: return r.choice([0, 1, -1, 7, 8, 9, 10, 15, 16, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**53, -2**53])
        return r.choice([1, -1]) * r.getrandbits(r.randint(1, 53))
    def dblv(g):
        r = g.r; k = r.random()
        if k < .2: return float(r.randint(-1000, 1000))
        if k < .4: return r.choice([0.0, -0.0, .5, 1.5, 2.5, .1, 1e-5, 9.5, 99.5, 999999.5, 1e15, 1e16, 1e21, 1e100, 1e300, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, math.nan, 123456789.0, 1e-4, 9.9999e-5])
        if k < .8: return r.choice([1, -1]) * r.random() * 10 ** r.randint(-8, 20)
        d = struct.unpack('<d', r.randbytes(8))[0]
        return d
    def strv(g):
        r = g.r; return ''.join(r.choice('abcxyz %dé漢😀\\"\'\n\t ') for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 13, 40]))).replace('@@', '@')
    def lit(g):
        return ''.join(g.r.choice('abc .:é漢😀|-0 123*#\n') for _ in range(g.r.choice([0, 0, 1, 1, 2, 4])))
    def jval(g, depth=2):
        """value for %q: (js, text in the dialect's JSON-like form)"""
        r = g.r; k = r.choice(['n', 'b', 'l'] if depth == 0 else ['n', 'b', 'l', 'a', 'o'])
        if k == 'n': i = r.randint(-9999, 9999); return str(i), str(i)
        if k == 'b': t = r.choice(['true', 'false']); return t, t
        if k == 'l': return 'null', 'null'
        n = r.randint(1, 3)
        def el():
            if r.random() < .3: s = ''.join(r.choice('abz "é\\\n') for _ in range(r.randint(0, 5))); return jstr(s), json.dumps(s)
            return g.jval(depth - 1)
        es = [el() for _ in range(n)]
        if k == 'a': return '[%s]' % ','.join(a for a, b in es), '[ %s ]' % ', '.join(b for a, b in es)
        ks = r.sample('abcdef', n); ks.sort()
        return '{%s}' % ','.join('%s:%s' % (q, a) for q, (a, b) in zip(ks, es)), '{ %s }' % ', '.join('%s:%s' % (q, b) for q, (a, b) in zip(ks, es))
    def wp(g, top):
        """flags-independent width and precision: (text in spec, extra js args, value or None)"""
        r = g.r
        if r.random() < .45: return '', [], None
        n = r.choice([0, 1, 2, 3, 5, 8, 10, 17, 20, 24, 25, 40, 60, 99, 100, 101, 120, 320, 321, 350]) if r.random() < .9 else r.randint(0, top)
        if r.random() < .3:
            if r.random() < .3: n = -n
            return '*', [str(n)], n
        return (str(n) if n or r.random() < .5 else ''), [], n
    def conv(g, kinds):
        """one conversion: (spec, js args, expected bytes)"""
        r = g.r; k = r.choice('ddiuoxXaAeEfgGffeegsssSqqcC'); kinds[k] += 1
        ft = ('-' if r.random() < .3 else '') if k in 'sSqcC' else ''.join(r.sample('-+ #0', r.choice([0, 0, 1, 1, 2, 3, 5])))
        if r.random() < .03: ft = ft * r.randint(1, 5)
        if k in 'diu': ft = ft.replace('#', '')
        w, wa, wn = g.wp(3000 if k in 'diuoxXsSq' else 400)
        while wn is not None and not wa and w == '0': w, wa, wn = g.wp(400)
        p, pa, pn = g.wp(2000) if k not in 'cC' else ('', [], None)
        hasp = pn is not None or (k not in 'cC' and r.random() < .03)
        if k in 'aA' and pn and abs(pn) > 30: pn %= 30; p, pa = str(pn), []
        mod = r.choice(['', '', '', '', '', 'l', 'll']) if k in 'diuoxXaAeEfgG' else ''
        spec = '%' + ft + w + ('.' + p if hasp else '') + mod + k
        cspec = '%' + ft + (str(wn) if wn else '') + ('.' + str(pn or 0) if hasp and (pn or 0) >= 0 else '')
        if wn is not None and wn < 0: cspec = '%-' + cspec[1:].replace(str(wn), str(-wn), 1)
        if k in 'diuoxX':
            v = g.intv()
            if r.random() < .2 and mod != 'll': vj = v + r.choice([.25, .5, .75, -.5]) if abs(v) < 2**40 else v; js = num(r, float(vj)); v = int(vj)
            else: js = str(v)
            if r.random() < .1 and mod == '': spec = spec[:-1] + 'h' + k; v = r.randint(0, 30000); js = str(v)
            e = cfmt(cspec + 'll' + k, ctypes.c_longlong(v))
        elif k in 'aAeEfgG': d = g.dblv(); js = num(r, d); d = abs(d) if d != d else d; d = d if js != '-0' else (-0.0 if 1 else 0); e = cfmt(cspec + k, ctypes.c_double(d))
        elif k in 'cC':
            q = r.random()
            if q < .6 or k == 'c' and q < .8: c = r.choice('aZ5 %é"')[:1]
            else: c = None
            if c and len(c.encode()) == 1: js, raw = jstr(c), c.encode()
            elif c or k == 'C': n = r.randint(1, 255); js, raw = str(n), chr(n).encode() if k == 'C' else bytes([n])
            else: n = r.randint(1, 255); js, raw = str(n), bytes([n])
            pad = b' ' * max(0, abs(wn or 0) - 1)      # one character wide
            e = raw + pad if '-' in cspec else pad + raw
        else:
            if k == 's' or (k in 'qS' and r.random() < .3): s = g.strv(); js, raw = jstr(s), s.encode()
            elif k == 'q': js, t = g.jval(); raw = t.encode()
            else:
                js = r.choice(['true', 'false', 'null', str(r.randint(-999, 999)), '[1,2]', '{a:1}']); raw = {'[1,2]': '[ 1, 2 ]', '{a:1}': '{ a:1 }'}.get(js, js).encode()
            e = cfmt(cspec + 's', ctypes.c_char_p(raw))
        return spec, wa + pa + [js], e
    def bad(g, kinds):
        """a call that must raise"""
        r = g.r; k = r.choice(['few', 'type', 'type', 'unk', 'end', 'char', 'star', 'huge', 'flags']); kinds['bad-' + k] += 1
        pre = r.choice(['', 'a', '%%', 'é'])
        if k == 'few':
            cs = [g.conv(collections.Counter()) for _ in range(r.randint(1, 3))]; args = sum((c[1] for c in cs), [])[:-1]
            return jstr(pre + ' '.join(c[0] for c in cs)), args
        if k == 'type':
            c = r.choice('dixXfgaes')
            v = r.choice(['12', 'true', 'null', '[1]', '{}', '1.5'] if c == 's' else ['"12"', '""', '"x"', 'true', 'false', 'null', '[1]', '{a:1}'])
            return jstr(pre + '%' + r.choice(['', '5', '.3', '-8']) + c), [v]
        if k == 'unk': return jstr(pre + '%' + r.choice(['', '5', '.3', '+', 'l']) + r.choice('bjkmnprtvwyzBDHIJKMNOPQRTUVWYZ!@é漢$')), ['1']
        if k == 'end': return jstr(pre + '%' + r.choice(['', '5', '.3', '+', 'l', '-', '5.', '*'])), ['1', '2'] if r.random() < .8 else []
        if k == 'char': return jstr(pre + '%c'), [r.choice(['"ab"', '""', '"é"', '-1', '256', '1e9', 'true', 'null', '[65]', 'NaN'])]
        if k == 'star': return jstr(pre + r.choice(['%*d', '%.*d', '%*.*f'])), [r.choice(['"x"', '[1]', '{}']), '1', '1']
        if k == 'huge': return jstr(pre + '%' + r.choice(['', '.', '-', '5.']) + str(r.choice([2**31 - 1, 2**31, 2**32, 2**32 + 5, 2**63, 2**64 + 1, 10**11, 10**25])) + r.choice('dxfsc')), [r.choice(['1', '"a"'])]
        return jstr(pre + '%' + r.choice('+-#0 ') * r.randint(100, 400) + r.choice('dfx')), ['1']
    def case(g, kinds):
        r = g.r; js, out = [], []
        for i in range(r.randint(2, 6)):
            if r.random() < .15:
                f, a = g.bad(kinds); js.append('P(function() { return format(%s); });' % ','.join([f] + a)); out.append(b'err')
                continue
            f, args, e = '', [], b''
            for j in range(r.choice([1, 1, 1, 2, 3, 5])):
                l = g.lit(); f += l.replace('%', '%%'); e += l.encode()
                if r.random() < .1: f += '%%'; e += b'%'
                s, a, x = g.conv(kinds); f += s; args += a; e += x
            l = g.lit(); f += l; e += l.encode()
            if r.random() < .1: args.append(r.choice(['1', '"extra"', 'null']))
            if r.random() < .15 and b'@@' not in e and b'\n' not in e and b'\0' not in e and b'\r' not in e:
                try: e.decode()
                except UnicodeDecodeError: pass
                else: kinds['printf'] += 1; js.append('printf(%s); puts("|");' % ','.join([jstr(f)] + args)); out.append(b'=' + e + b'|'); continue
            js.append('P(function() { return format(%s); });' % ','.join([jstr(f)] + args)); out.append(e)
        return '\n'.join(js), [o.decode() if o == b'err' else o[1:].decode().strip() if o[:1] == b'=' and o[-1:] == b'|' and 'printf' in j[:6] else o.hex() for j, o in zip(js, out)]

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one program of format/printf calls, distinct texts'
    ctx.assumptions = ['widths and precisions count bytes, as in C; %c and %C count one', 'length modifiers h, l, ll are accepted and ignored', 'NaN is printed by the C library as nan']
    kinds = collections.Counter(); g = G(ctx.sub('f')); cases, exp = [], []
    # every flag combination x conversion x a few widths and precisions
    for k in 'diuoxXaAeEfgG':
        js, ex = [], []
        for m in range(32):
            fl = ''.join(c for i, c in enumerate('-+ #0') if m >> i & 1)
            if k in 'diu' and '#' in fl: continue
            for w in ('', '1', '12'):
                for p in ('', '.', '.0', '.4'):
                    for v in (0, -5, 1234):
                        d = v + .625 if k in 'aAeEfgG' else v
                        js.append('puts(X(format("%%%s%s%s%s",%s)));' % (fl, w, p, k, d)); ex.append((cfmt('%' + fl + w + p + k, ctypes.c_double(d)) if k in 'aAeEfgG' else cfmt('%' + fl + w + p + 'll' + k, ctypes.c_longlong(v))).hex())
        for a in range(0, len(js), 100): cases.append('\n'.join(js[a:a + 100])); exp.append(ex[a:a + 100])
    ctx.notes['exhaustive_specs'] = sum(map(len, exp))
    while len(cases) < ctx.size(12000, 80000):
        c, x = g.case(kinds); cases.append(c); exp.append(x)
    out = run_cases(ctx, cases, PRE, size=60)
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        o = [l.strip() for l in o.rstrip('\n').split('\n')]; o += [''] * (len(x) - len(o)); ctx.case(c, sample=dict(program=c[:300], observed=[l[:80] for l in o[:3]])); ctx.count('results', len(x))
        if o != x:
            i = next((i for i in range(min(len(o), len(x))) if o[i] != x[i]), min(len(o), len(x)))
            def un(s):
                try: return repr(bytes.fromhex(s))
                except ValueError: return s
            ctx.violation('fmt:' + c, 'program:\n%s\nresult %d\nexpected: %s\ngot:      %s' % (c[:3000], i, un((x[i:i + 1] or ['nothing'])[0])[:600], un((o[i:i + 1] or ['nothing'])[0])[:600]), batch_src([c], PRE))
    ctx.notes['conversions'] = dict(kinds)
