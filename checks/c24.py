"""C24: digests, checksums and reversible encodings against Python's hashlib, zlib, base64 and urllib."""
from vf.js import *
import base64, collections, hashlib, os, re, urllib.parse, zlib

PRE = r'''
function P(f) { var r; try { r=f(); } catch(e) { puts("err"); return; } puts(r); }
function H(h) { if (h=="") return ""; return Util.hexStr(h,true); }
function X(s) { if (s==="") return ""; return Util.hexStr(s); }
function LO(s) { var a=s.split("%"), i, o=a[0]; for (i=1; i<a.length; i++) o+="%"+a[i].substr(0,2).toLowerCase()+(a[i].length>2?a[i].substr(2):""); return o; }
'''
HASH = {'sha256': hashlib.sha256, 'sha1': hashlib.sha1, 'md5': hashlib.md5, 'sha3_224': hashlib.sha3_224, 'sha3_256': hashlib.sha3_256, 'sha3_384': hashlib.sha3_384, 'sha3_512': hashlib.sha3_512}

def b64(b):
    s = base64.b64encode(b).decode(); return ''.join(s[i:i + 72] + ('\n' if i + 72 <= len(s) else '') for i in range(0, len(s), 72))

def lo(s): return re.sub('%..', lambda m: m.group(0).lower(), s)

class G:
    def __init__(g, rng): g.r = rng
    def data(g, n=None):
        r = g.r
        if n is None: n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 53, 54, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 105, 111, 112, 119, 120, 127, 128, 135, 136, 137, 143, 144, 145, 200, r.randint(0, 400), r.randint(0, 3000)])
        k = r.random()
        if k < .5: return r.randbytes(n)
        if k < .6: return bytes([r.choice([0, 255, 128, 65])]) * n
        if k < .8: return bytes(r.choice(b'\0\x7f\x80\xff\n=+/A') for _ in range(n))
        return ''.join(r.choice("abc \n'\"%+&=;/?:@$,#-_.!~*()é漢😀\t<>\\[]{}|^`") for _ in range(n)).encode()[:n].decode('utf-8', 'ignore').encode()
    def hx(g, b):
        h = b.hex(); h = h.upper() if g.r.random() < .2 else h
        return 'H("%s")' % h
    def case(g, kinds, base, n):
        r = g.r; js, out = [], []
        def P(e, v): js.append('P(function() { return %s; });' % e); out.append(v)
        for i in range(r.randint(2, 6)):
            k = r.choice(['hash', 'hash', 'hash', 'file', 'file2', 'bin', 'cash', 'crc', 'crc2', 'b64', 'b64', 'unb64', 'unb64ws', 'hex', 'unhex', 'badhex', 'enc', 'enc', 'wrong', 'uri', 'uri', 'uric', 'deuri', 'utf', 'trunc'])
            kinds[k] += 1; d = g.data(); t, f = r.choice(list(HASH.items())); o = '{type:"%s"}' % t
            if k == 'hash':
                P('Util.hash(%s%s)' % (g.hx(d), ',' + o if t != 'sha256' or r.random() < .5 else ''), f(d).hexdigest())
            elif k in ('file', 'file2'):
                p = '%s/%d-%d' % (base, n, i)
                if r.random() < .1: d = d * (70000 // (len(d) + 1))
                open(p, 'wb').write(d); pre = g.data(r.randint(1, 90)) if k == 'file2' else b''
                P('Util.hash(%s,{type:"%s",file:"%s"})' % (g.hx(pre), t, p), f(pre + d).hexdigest())
            elif k == 'bin': P('X(Util.hash(%s,{type:"%s",noHex:true}))' % (g.hx(d), t), f(d).hexdigest())
            elif k == 'cash':
                bits = r.randint(1, 10); z = 0; d = d[:100] or b'x'
                while 1:
                    h = f(d + b':%08x' % z).digest()
                    if int.from_bytes(h[:4], 'big') >> (32 - bits) == 0: break
                    z += 1
                P('Util.hash(%s,{type:"%s",hashcash:%d})' % (g.hx(d), t, bits), h.hex())
            elif k == 'crc': P('Util.crc32(%s)' % g.hx(d), str(zlib.crc32(d)))
            elif k == 'crc2': m = len(d) // 2; P('Util.crc32(%s,Util.crc32(%s))' % (g.hx(d[m:]), g.hx(d[:m])), str(zlib.crc32(d)))
            elif k == 'b64': P('X(Util.base64(%s))' % g.hx(d), b64(d).encode().hex())
            elif k == 'unb64': P('X(Util.base64(%s,true))' % jstr(base64.b64encode(d).decode()), d.hex())
            elif k == 'unb64ws':
                s = base64.b64encode(d).decode(); w = r.randint(1, 80); P('X(Util.base64(%s,true))' % jstr(r.choice(['\n', '\r\n']).join(s[j:j + w] for j in range(0, len(s), w))), d.hex())
            elif k == 'hex': d = d or b'q'; P('Util.hexStr(%s)' % g.hx(d), d.hex())
            elif k == 'unhex': d = d or b'q'; P('Util.crc32(Util.hexStr("%s",true))' % d.hex(), str(zlib.crc32(d)))
            elif k == 'badhex': d = d[:20] or b'q'; h = list(d.hex()); h[r.randrange(len(h))] = r.choice('gz -.'); P('Util.hexStr("%s",true).length' % ''.join(h), 'err')
            elif k in ('enc', 'wrong', 'trunc'):
                d = d or b'!'; ky = g.data(r.choice([1, 5, 16, 31, 32, 33, 64])) or b'k'
                js.append('var e%d; try { e%d=Util.encrypt(%s,%s); } catch(e) { e%d="failed"; }' % (i, i, g.hx(d), g.hx(ky), i))
                if k == 'enc': P('X(Util.decrypt(e%d,%s))' % (i, g.hx(ky)), d.hex()); (P('X(e%d).substr(0,%d)=="%s"' % (i, 2 * len(d), d.hex()), 'false') if len(d) > 8 else None)
                elif k == 'wrong' and len(d) > 8:
                    w = bytearray(ky); w[r.randrange(len(w))] ^= 1 << r.randrange(8); P('(function() { try { return X(Util.decrypt(e%d,%s))=="%s"; } catch(e) { return false; } })()' % (i, g.hx(bytes(w)), d.hex()), 'false')
                elif k == 'trunc': P('Util.decrypt(Util.hexStr(X(e%d)+"%s",true),%s).length' % (i, r.choice(['00', '0000', '000000']), g.hx(ky)), 'err')
            else:
                s = ''.join(r.choice("abcXYZ019 %+&=;/?:@$,#-_.!~*()'é漢😀\t\n\"<>\\[]{}|^`") for _ in range(r.randint(1, 30))).replace("@@", "@.")
                raw = ''.join(c for c in s if ord(c) > 127)
                if k == 'uri': P('LO(encodeURI(%s))' % jstr(s), lo(urllib.parse.quote(s, safe=";,/?:@&=+$#-_.!~*'()" + raw))); P('decodeURI(encodeURI(%s))==%s' % (jstr(s), jstr(s)), 'true')
                elif k == 'uric':
                    P('LO(encodeURIComponent(%s))' % jstr(s), lo(urllib.parse.quote(s, safe="-_.!~*'() " + raw).replace(' ', '+'))); P('decodeURIComponent(encodeURIComponent(%s))==%s' % (jstr(s), jstr(s)), 'true')
                elif k == 'deuri': P('decodeURIComponent(%s)==%s' % (jstr(urllib.parse.quote(s, safe='')), jstr(s)), 'true')
                elif k == 'utf': P('X(%s)' % ''.join(jstr(s)), s.encode().hex())
        return '\n'.join(js), out

# quote() leaves non-ASCII characters only when listed: work on bytes instead
_q = urllib.parse.quote
def quote(s, safe=''):
    return ''.join(c if ord(c) > 127 and c in safe else _q(c, safe=''.join(x for x in safe if ord(x) < 128)) for c in s)

def run(ctx):
    urllib.parse.quote = quote
    ctx.build('asan')
    ctx.rule = 'one program of digest and encoding calls, distinct texts; plus every length 0..N for every hash'
    ctx.assumptions = ['base64 output is wrapped after every 72 characters', 'URI encoding leaves non-ASCII characters as they are and writes a space in a component as +, as the dialect does']
    kinds = collections.Counter(); g = G(ctx.sub('f')); cases, exp = [], []; base = os.path.join(ctx.tmp, 'f'); os.makedirs(base)
    for t, f in HASH.items():
        top = ctx.size(300, 1200); d = g.r.randbytes(top)
        for a in range(0, top, 50):
            cases.append('var s="%s", i; for (i=%d; i<%d; i++) P(function() { return Util.hash(H(s.substr(0,2*i)),{type:"%s"}); });' % (d.hex(), a, a + 50, t)); exp.append([f(d[:i]).hexdigest() for i in range(a, a + 50)])
    while len(cases) < ctx.size(8000, 40000):
        c, x = g.case(kinds, base, len(cases)); cases.append(c); exp.append(x)
    out = run_cases(ctx, cases, PRE, size=50)
    for c, o, x in zip(cases, out, exp):
        if o is None: continue
        o = o.rstrip('\n').split('\n'); o += [''] * (len(x) - len(o)); ctx.case(c.replace(base, '@'), sample=dict(program=c[:300], observed=[l[:80] for l in o[:3]])); ctx.count('results', len(x))
        if o != x and (x or o != ['']):
            i = next((i for i in range(min(len(o), len(x))) if o[i] != x[i]), min(len(o), len(x)))
            ctx.violation('enc:' + c.replace(base, '@'), 'program:\n%s\nresult %d\nexpected: %s\ngot:      %s' % (c[:3000], i, (x[i:i + 1] or ['nothing'])[0][:600], (o[i:i + 1] or ['nothing'])[0][:600]), batch_src([c], PRE))
    ctx.notes['operations'] = dict(kinds)
