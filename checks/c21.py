"""C21: deflate/inflate, compressed channels and zip archives against Python's zlib, gzip and zipfile."""
from vf.js import *
import json, os, zlib, gzip, zipfile, time, io

FLATE = r'''
var P = JSON.parse(File.read(console.args[0]));
for (var i=0; i<P.length; i++) {
  var o = {}, f = P[i];
  try { var x = File.read(f+".in","rb"), y = Zvfs.deflate(x); File.write(f+".def",y,"wb"); } catch(e) { o.deflate = "ERR "+e; }
  var k = 0;
  while (File.exists(f+".z"+k)) { try { File.write(f+".u"+k, Zvfs.inflate(File.read(f+".z"+k,"rb")), "wb"); } catch(e) { o["u"+k] = "ERR "; } k++; }
  puts(JSON.stringify(o));
}
'''
GZ = r'''
var P = JSON.parse(File.read(console.args[0]));
for (var i=0; i<P.length; i++) {
  var p = P[i], o = [], f = null;
  try {
    if (p.data) {
      var x = File.read(p.data,"rb"), at = 0; f = new Channel(p.file, p.mode);
      for (var j=0; j<p.ops.length; j++) { var n = p.ops[j]; if (n<0) f.flush(); else { f.write(x.substr(at, n)); at += n; } }
      f.close(); o.push("ok");
    } else {
      f = new Channel(p.file, p.mode); var s = "", n = 0, j = 0;
      if (p.ops[0] === -2) { var ln; while ((ln = f.gets()) !== undefined) { s += ln+"\n"; if (++n > 100000) break; } }
      else if (p.ops[0] === -1) { s = f.read(); if (s === undefined) s = ""; }
      else { var t; while (true) { t = f.read(p.ops[j++ % p.ops.length]); if (t === undefined) break; s += t; if (++n > 1000000) break; } }
      f.close(); File.write(p.out, s, "wb"); o.push("ok");
    }
  } catch(e) { o.push("ERR "+e); try { f.close(); } catch(e) {} }
  puts(JSON.stringify(o));
}
'''
ZIP = r'''
var P = JSON.parse(File.read(console.args[0])), R = {};
function rec(k, v:any=void) { R[k] = v===undefined ? "UNDEF" : v; puts(k+"\t"+JSON.stringify(R[k])); }
function step(k, f) { try { rec(k, f()); } catch(e) { rec(k, "ERR"); } }
File.chdir(P.cwd);
if (P.create) { step("create", function() { Zvfs.create.apply(null, [P.zip].concat(P.create)); return "ok"; }); }
for (var i=0; i<P.append.length; i++) { var A = P.append[i]; step("append"+i, function() { Zvfs.append.apply(null, [P.zip].concat(A)); return "ok"; }); }
step("list", function() { return Zvfs.list(P.zip); });
step("offset", function() { return Zvfs.offset(P.zip); });
var M = "";
step("mount", function() { M = P.mount===false ? Zvfs.mount(P.zip) : Zvfs.mount(P.zip, P.mount); return M; });
if (R.mount !== "ERR") {
  step("names", function() { return [Zvfs.names(), Zvfs.names(M)]; });
  step("glob", function() { return File.glob("*", {dir:M, recurse:true}).sort(); });
  for (var i=0; i<P.files.length; i++) {
    var f = M+"/"+P.files[i][0], g = P.out+"/"+i;
    step("f"+i, function() { var s = File.read(f,"rb"); File.write(g, s===undefined ? "" : s, "wb"); var t = Zvfs.stat(f); return [File.exists(f), File.isfile(f), File.isdir(f), File.size(f), File.mtime(f), File.stat(f).perms, t.size, t.offset]; });
    var ops = P.files[i][1];
    if (ops) step("s"+i, function() {
      var ch = new Channel(f, "rb"), L = [];
      for (var j=0; j<ops.length; j++) {
        var o = ops[j];
        if (o[0]=="s") ch.seek(o[1], o[2]);
        else if (o[0]=="t") L.push(ch.tell());
        else { var t = ch.read(o[1]); L.push(t===undefined ? "" : Util.hexStr(t)); }
      }
      ch.close(); return L; });
  }
  for (var i=0; i<P.dirs.length; i++) { var f = M+"/"+P.dirs[i]; step("d"+i, function() { return [File.exists(f), File.isfile(f), File.isdir(f)]; }); }
  step("missing", function() { return File.exists(M+"/no such file") ? 1 : 0; });
  step("readonly", function() { File.write(M+"/"+(P.files.length?P.files[0][0]:"x"), "new"); return 1; });
  step("again", function() { Zvfs.mount(P.zip); return 1; });
  step("unmount", function() { Zvfs.unmount(M); return 1; });
  step("gone", function() { return P.files.length && File.exists(M+"/"+P.files[0][0]) && P.mount!=="" ? 1 : 0; });
}
step("truncate", function() { if (!P.trunc) return 0; return Zvfs.truncate(P.zip); });
puts("END");
'''

def content(r, big=1):
    n = r.choice([0, 1, 2, 3, 7, 20, 100, 500, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 16384, 20000, 33000, 66000, 100000][:21 if big else 15])
    if r.random() < .5: n = max(0, n + r.randint(-20, 20))
    k = r.random()
    if k < .35: return bytes(r.getrandbits(8) for _ in range(n))
    if k < .5: return bytes([r.randrange(256)]) * n
    if k < .75:
        w = [bytes(r.getrandbits(8) for _ in range(r.randint(1, 12))) for _ in range(r.randint(1, 40))]; o = b''
        while len(o) < n: o += r.choice(w)
        return o[:n]
    if k < .9: return ('line of text %d\n' * 1 % r.randint(0, 9)).encode() * (n // 15) + b'x' * (n % 15)
    return bytes(r.choice(b'ab\n\0') for _ in range(n))

def damage(r, z):
    z = bytearray(z); k = r.random()
    if not z: return bytes(z)
    if k < .4: return bytes(z[:r.randrange(len(z))])
    for _ in range(r.choice([1, 1, 2, 8])): z[r.randrange(len(z))] ^= 1 << r.randrange(8)
    return bytes(z)

def lines(ctx, res, n, what, txt):
    out = []
    for l in res.text.split('\n'):
        try: out.append(json.loads(l))
        except ValueError: pass
    if len(out) != n:
        ctx.violation(what + ': stopped', '%d results of %d, rc %s\n%s' % (len(out), n, res.rc, res.etext[-500:]), txt); return None
    return out

def flate(ctx, i, n):
    r = ctx.sub('f%d' % i); d = ctx.mkdir(); fs = []; info = []
    for k in range(n):
        f = '%s/%d' % (d, k); b = content(r); open(f + '.in', 'wb').write(b); zs = []
        for _ in range(r.randint(1, 3)):
            c = zlib.compressobj(r.randint(0, 9), zlib.DEFLATED, 15, r.randint(1, 9), r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED]))
            z = b''; at = 0
            while at < len(b): m = r.choice([1, 100, 5000, 10 ** 6]); z += c.compress(b[at:at + m]); at += m; z += c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH])) if r.random() < .2 and m > 1 else b''
            z += c.flush(); ok = r.random() < .6; zs.append((ok, z if ok else damage(r, z)))
        for j, (ok, z) in enumerate(zs): open('%s.z%d' % (f, j), 'wb').write(z)
        fs.append(f); info.append((b, zs))
    open(d + '/p.json', 'w').write(json.dumps(fs))
    res = ctx.js(FLATE, args=[d + '/p.json'], timeout=120); txt = FLATE + json.dumps(fs)
    if not ctx.sanity(res, 'deflate', txt, txt): return
    out = lines(ctx, res, n, 'deflate', txt)
    if out is None: return
    rd = lambda p: open(p, 'rb').read() if os.path.exists(p) else None
    for f, (b, zs), o in zip(fs, info, out):
        y = rd(f + '.def')
        try: back = zlib.decompress(y) if y is not None else None
        except zlib.error: back = 'not decompressible'
        ctx.case(('deflate', len(b).bit_length(), len(y or b'').bit_length()))
        if back != b: ctx.violation('deflate', 'deflate of %d bytes %r..: %s' % (len(b), b[:40], o.get('deflate') or ('%d bytes' % len(y or b'') if not isinstance(back, str) else back)), txt)
        for j, (ok, z) in enumerate(zs):
            u = rd('%s.u%d' % (f, j)); ctx.case(('inflate', ok, u is None, len(b).bit_length())); ctx.count('inflate of ' + ('good' if ok else 'damaged, refused' if u is None else 'damaged, same bytes') + ' data')
            if u is None and ok: ctx.violation('inflate fails', 'inflate of valid data for %d bytes fails, compressed %r..' % (len(b), z[:60]), txt)
            elif u is not None and u != b: ctx.violation('inflate wrong bytes', 'inflate of %s data gives %d bytes, want %d; compressed %r..' % ('valid' if ok else 'damaged', len(u), len(b), z[:60]), txt)

def member(r, b, raw):
    """Data compressed by Python, as gzip (with an optional header) or zlib stream."""
    if raw: return zlib.compress(b, r.randint(0, 9))
    if r.random() < .3: return gzip.compress(b, r.randint(0, 9))
    fl = r.choice([0, 1, 2, 4, 8, 16, 8 | 16, 4 | 8, 31]); h = bytes([31, 139, 8, fl, 1, 2, 3, 4, 0, 3])
    if fl & 4: x = bytes(r.getrandbits(8) for _ in range(r.randint(0, 300))); h += len(x).to_bytes(2, 'little') + x
    if fl & 8: h += b'name.txt\0'
    if fl & 16: h += b'a comment\0'
    if fl & 2: h += (zlib.crc32(h) & 0xffff).to_bytes(2, 'little')
    c = zlib.compressobj(r.randint(0, 9), zlib.DEFLATED, -15); z = c.compress(b) + c.flush()
    return h + z + zlib.crc32(b).to_bytes(4, 'little') + (len(b) & 0xffffffff).to_bytes(4, 'little')

def gz(ctx, i, n):
    r = ctx.sub('g%d' % i); d = ctx.mkdir(); ps = []; info = []
    for k in range(n):
        b = content(r); raw = r.random() < .4; f = '%s/%d' % (d, k); letter = 'Z' if raw else 'z'
        if r.random() < .5:
            b = bytes((x & 127) or 64 for x in b) # substr counts characters
            ops = []; at = 0
            while at < len(b): m = r.choice([1, 10, 1000, 8192, 10 ** 6]) if len(ops) < 200 else 10 ** 6; ops.append(min(m, len(b) - at)); at += m; ops += [-1] if r.random() < .1 else []
            open(f + '.in', 'wb').write(b)
            old = b''; md = 'w'
            if r.random() < .2: old = content(r, 0); open(f, 'wb').write(member(r, old, raw)); md = 'a'
            ps.append({'file': f, 'data': f + '.in', 'mode': md + r.choice(['b', '']) + letter + r.choice(['', '1', '6', '9']), 'ops': ops}); info.append(('write', raw, b, old, f))
        else:
            ok = r.random() < .75; z = member(r, b, raw); line = r.random() < .25
            if line: b = bytes((x & 127) or 65 for x in b[:20000]); b = b'\n'.join(x[:500] for x in b.split(b'\n')) + b'\n'; z = member(r, b, raw)
            open(f, 'wb').write(z if ok else damage(r, z))
            ps.append({'file': f, 'mode': 'r' + r.choice(['b', '']) + letter, 'out': f + '.out', 'ops': [-2] if line else [-1] if r.random() < .5 else [r.choice([1, 3, 100, 4096, 8192, 8193, 20000]) for _ in range(3)] if len(b) < 3000 else [r.choice([100, 4096, 8192, 8193, 20000])]})
            info.append(('read', raw, b, ok, f + '.out'))
    open(d + '/p.json', 'w').write(json.dumps(ps))
    res = ctx.js(GZ, args=[d + '/p.json'], timeout=120); txt = GZ + json.dumps(ps)
    if not ctx.sanity(res, 'compressed channel', txt, txt): return
    out = lines(ctx, res, n, 'compressed channel', txt)
    if out is None: return
    for p, (k, raw, b, x, f), o in zip(ps, info, out):
        y = open(f, 'rb').read() if os.path.exists(f) else None
        ctx.case(('channel', k, raw, len(b).bit_length(), len(p['ops']) > 1)); ctx.count('channel ' + k + (' zlib' if raw else ' gzip') + (' damaged' if k == 'read' and not x else ' append' if x and k == 'write' else ''))
        what = '%s %s with %s of %d bytes: %s' % (k, p['mode'], str(p['ops'])[:60], len(b), o)
        if k == 'write':
            try:
                if raw: D = zlib.decompressobj(); back = D.decompress(y) + D.flush(); rest = D.unused_data; back += zlib.decompress(rest) if rest else b''
                else: back = gzip.decompress(y)
            except Exception as e: back = repr(e)
            if o != ['ok'] or back != x + b: ctx.violation('channel write' + (' append' if x else ''), what + ' does not read back: %s' % (back if isinstance(back, str) else '%d bytes %r' % (len(back), back[:30])), txt)
        elif x:
            if o != ['ok'] or y != b: ctx.violation('channel read', what + ' got %r' % ((y if y is None else (len(y), y[:60])),), txt)
        elif raw and o == ['ok'] and p['ops'] == [-1] and y != b: ctx.violation('channel read damaged', what + ' no error and wrong bytes: %d' % len(y), txt)

def build(r, d):
    """A tree of files."""
    names = ['a', 'b.txt', 'c d', 'é', '.hid', 'x.', 'e..f', '...', 'UP', 'long' * 20, 'n' * 200]
    dirs = ['']; files = {}
    for _ in range(r.randint(0, 4)): dirs.append((r.choice(dirs) + '/' + r.choice(['d1', 'd2', 'd 3', 'dé', 'd.x'])).strip('/'))
    dirs = sorted(set(dirs))
    for _ in range(r.choice([0, 1, 3, 8, 20])):
        p = (r.choice(dirs) + '/' + r.choice(names)).strip('/')
        if p not in dirs: files[p] = content(r, r.random() < .3)
    for x in dirs: os.makedirs(d + '/' + x, exist_ok=True)
    for p, b in files.items():
        open(d + '/' + p, 'wb').write(b); os.chmod(d + '/' + p, r.choice([0o644, 0o600, 0o755, 0o444])); t = r.randrange(347155200 + 10 ** 6, 2 ** 31 - 10 ** 6); os.utime(d + '/' + p, (t, t))
    return [x for x in dirs if x], files

def seekops(r, b):
    ops = []; pos = 0; want = []
    for _ in range(r.randint(1, 12)):
        k = r.random()
        if k < .45:
            w = r.choice([0, 0, 1, 2]); o = r.choice([0, 1, 5, 100, 8192, len(b) // 2, len(b), len(b) - 1, -1, -5, -len(b) // 3])
            if w == 0: np = o
            elif w == 1: np = pos + o
            else: o = -abs(o); np = len(b) + o
            if not 0 <= np <= len(b): continue
            pos = np; ops.append(['s', o, ['set', 'cur', 'end'][w]])
        elif k < .6: ops.append(['t']); want.append(pos)
        else: n = r.choice([1, 2, 10, 100, 8192, 9000]); x = b[pos:pos + n]; pos += len(x); ops.append(['r', n]); want.append(x.hex())
    return ops, want

def case_zip(ctx, i):
    r = ctx.sub('z%d' % i); d = os.path.realpath(ctx.mkdir()); os.makedirs(d + '/t'); os.makedirs(d + '/out')
    zf = d + '/' + r.choice(['x.zip', 'arch', 'a b.zip']); kind = r.choice(['own', 'own', 'py', 'py', 'bad']); P = {'cwd': d, 'zip': zf, 'out': d + '/out', 'append': [], 'create': None}
    want = []; pre = b''  # (name, bytes or None)
    trees = []
    for k in range(r.randint(1, 3)): dd = d + '/t%d' % k; os.makedirs(dd); trees.append((dd,) + build(r, dd))
    seen = set()
    def pick(t):
        dd, ds, fs = t; l = sorted(ds) + [f for f in fs]
        if r.random() < .5: l = sorted(l)
        return [x for x in l if x not in seen and not seen.add(x)]
    if kind == 'own' or kind == 'bad' and r.random() < .5:
        if r.random() < .3: pre = content(r, 0); pre = pre if b'PK' not in pre else b''
        if pre: open(zf, 'wb').write(pre)
        P['create'] = []
        for j, t in enumerate(trees):
            l = pick(t); want += [(x, t[2].get(x), t[0]) for x in l]; arg = [l, t[0]]
            if j and r.random() < .5 and (P['append'] or any(a for a in P['create'][::2])): P['append'].append(arg)   # an empty archive stays in front of what is appended
            elif P['append']: P['append'][-1] += arg
            else: P['create'] += arg
        own = True
    else:
        own = False; bio = io.BytesIO(); stream = r.random() < .25
        class W:   # cannot seek: data descriptors
            def write(s, b): return bio.write(b)
            def flush(s): pass
        with zipfile.ZipFile(W() if stream else bio, 'w') as z:
            for t in trees:
                l = pick(t)
                for x in l:
                    b = t[2].get(x)
                    if stream and b == b'': b = t[2][x] = b'e'
                    tm = time.localtime(max(os.stat(t[0] + '/' + x).st_mtime, 347155200)); zi = zipfile.ZipInfo(x + ('/' if b is None else ''), tm[:6])
                    zi.external_attr = (0o40755 if b is None else os.stat(t[0] + '/' + x).st_mode) << 16; zi.compress_type = zipfile.ZIP_STORED if b is None or r.random() < .4 else zipfile.ZIP_DEFLATED
                    if r.random() < .1: zi.extra = b'\x99\x99\x04\0abcd'
                    if r.random() < .1: zi.comment = b'a comment'
                    z.writestr(zi, b or b'', compresslevel=r.randint(0, 9)); want.append((x, b, t[0]))
        raw = bio.getvalue(); open(zf, 'wb').write(raw)
        if kind == 'py' and want and r.random() < .4:
            ad = d + '/add'; os.makedirs(ad); t = (ad,) + build(r, ad); l = pick(t); want += [(x, t[2].get(x), ad) for x in l]; P['append'].append([l, ad])
    if kind == 'bad':
        if own:
            z0 = ctx.js('var P = JSON.parse(File.read(console.args[0])); Zvfs.create.apply(null, [P.zip].concat(P.create)); for (var i=0; i<P.append.length; i++) Zvfs.append.apply(null, [P.zip].concat(P.append[i]));', args=[wr(d, P)]); P['append'] = []; P['create'] = None
        z = open(zf, 'rb').read()
        k = r.random()
        if k < .5 and len(z) > 30: # damage of the directory
            z = bytearray(z); at = r.choice([j for j in range(len(z) - 3) if z[j:j + 2] == b'PK' and z[j + 2] < 10] or [0])
            for _ in range(r.choice([1, 2, 5])): z[min(len(z) - 1, at + r.randrange(46))] = r.choice([0, 1, 255, 127, 128, r.getrandbits(8)])
            z = bytes(z)
        else: z = damage(r, z)
        open(zf, 'wb').write(z)
    P['mount'] = r.choice([False, '', d + '/mnt', '/zz/m', d + '/deep/er'])
    P['trunc'] = own and kind != 'bad'; fl = [w for w in want if w[1] is not None]; dl = [w[0] for w in want if w[1] is None]
    P['files'] = []; sw = {}
    for j, w in enumerate(fl):
        ops = None
        if r.random() < .4: ops, sw[j] = seekops(r, w[1])
        P['files'].append([w[0], ops])
    P['dirs'] = dl
    res = ctx.js(ZIP, args=[wr(d, P)], timeout=60, cwd=d); txt = 'kind %s\n' % kind + ZIP + json.dumps(P)
    ctx.case(('zip', kind, own, len(fl), len(dl), len(P['append']), bool(pre), str(P['mount'])[:1]), sample={'kind': kind, 'files': len(fl), 'dirs': len(dl)}); ctx.count('archives: ' + {'own': 'made here', 'py': 'made by zipfile', 'bad': 'damaged'}[kind])
    if not ctx.sanity(res, 'archive ' + kind, txt, txt): return
    if not res.text.rstrip().endswith('END'):
        ctx.violation('archive: stopped', 'script ended early rc %s\n%s' % (res.rc, res.etext[-500:]), txt); return
    R = {}
    for l in res.text.split('\n'):
        if '\t' in l: k, v = l.split('\t', 1); R[k] = json.loads(v)
    bad = lambda k, t: ctx.violation('archive %s: %s' % ('' if own else 'of zipfile', k), t[:1500] + '\n' + res.etext[-300:], txt)
    if kind == 'bad':
        ctx.count('damaged: ' + ('mounted' if R.get('mount') != 'ERR' else 'refused'))
        for j, w in enumerate(fl):
            if len(R.get('f%d' % j, '')) == 8 and isinstance(R['f%d' % j], list): ctx.count('damaged: files read')
        return
    if P['create'] is not None and R.get('create') != 'ok': return bad('create', 'create: %r' % R.get('create'))
    for j in range(len(P['append'])):
        if R.get('append%d' % j) != 'ok': return bad('append', 'append: %r' % R.get('append%d' % j))
    nm = [w[0] + ('/' if w[1] is None else '') for w in want]
    # the archive as seen by zipfile (before truncation: a copy is made by the script's order, so read back only when not truncated)
    L = R.get('list')
    if not isinstance(L, list) or L[0] != ['Name', 'Date', 'Special', 'Offset', 'Bytes', 'BytesCompressed', 'CRC']: return bad('list', 'list gives %r' % (L if not isinstance(L, list) else L[0]))
    rows = {x[0]: x for x in L[1:]}
    if sorted(rows) != sorted(nm) or len(L) != len(nm) + 1: bad('list', 'list gives %r, want %r' % (sorted(rows), sorted(nm)))
    for (x, b, dd), n in zip(want, nm):
        if n in rows and b is not None and (rows[n][4] != len(b) or int(rows[n][6], 16) != zlib.crc32(b)): bad('list', 'list of %r gives %r, want size %d crc %x' % (n, rows[n], len(b), zlib.crc32(b)))
        if n in rows and b is not None:
            tm = time.localtime(os.stat(dd + '/' + x).st_mtime)
            dt = '%02d-%s-%d %02d:%02d:%02d' % (tm.tm_mday, 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[tm.tm_mon - 1], tm.tm_year, tm.tm_hour, tm.tm_min, tm.tm_sec & ~1)
            if rows[n][1] != dt: bad('date', 'list gives %r for %r of %s' % (rows[n], n, dt))
    if R.get('offset') != (len(pre) if own else 0): bad('offset', 'offset %r, want %d' % (R.get('offset'), len(pre)))
    mnt = P['mount'] if P['mount'] else zf if P['mount'] == '' else '/zvfs1'
    if R.get('mount') != mnt: return bad('mount', 'mount gives %r, want %r' % (R.get('mount'), mnt))
    if mnt not in R['names'][0] or R['names'][1] != zf: bad('names', 'names: %r' % R['names'])
    for j, w in enumerate(fl):
        x, b, dd = w; v = R.get('f%d' % j); st = os.stat(dd + '/' + x); of = '%s/out/%d' % (d, j); got = open(of, 'rb').read() if os.path.exists(of) else None
        if got != b: bad('read', 'reading %r gives %s, want %d bytes %r' % (x, v if got is None else (len(got), got[:50]), len(b), b[:50])); continue
        if v[:4] != [True, True, False, len(b)] or v[6] != len(b): bad('stat', 'exists, isfile, isdir, size of %r: %r, want size %d' % (x, v, len(b)))
        if abs(v[4] - st.st_mtime) > 2: bad('mtime', 'mtime of %r: %r, want %r' % (x, v[4], st.st_mtime))
        if j in sw and R.get('s%d' % j) != sw[j]: bad('seek', '%r of %d bytes: %s gives %s, want %s' % (x, len(b), P['files'][j][1], str(R.get('s%d' % j))[:500], str(sw[j])[:500]))
    for j, x in enumerate(dl):
        if R.get('d%d' % j) != [True, False, True]: bad('directory', 'exists, isfile, isdir of directory %r: %r' % (x, R.get('d%d' % j)))
    top = set(w[0] for w in want)
    full = all(os.path.dirname(x) in ('',) or os.path.dirname(x) in dl for x in top)
    top = [x for x in top if not os.path.basename(x).startswith('.')]
    if full and P['mount'] != '' and R.get('glob') != sorted(top, key=lambda s: s.encode()): bad('glob', 'glob gives %r, want %r' % (R.get('glob'), sorted(top)))
    if R.get('missing') != 0 or R.get('gone') != 0 or R.get('unmount') != 1 or R.get('again') != 'ERR' or R.get('readonly') != 'ERR': bad('mounting', 'missing %r gone %r unmount %r again %r readonly %r' % tuple(R.get(k) for k in ('missing', 'gone', 'unmount', 'again', 'readonly')))
    if P['trunc']:
        if R.get('truncate') != len(pre) or open(zf, 'rb').read() != pre: bad('truncate', 'truncate gives %r, leaves %d bytes, want %d' % (R.get('truncate'), os.path.getsize(zf), len(pre)))
    if own:   # write it again and look at it with zipfile
        P2 = dict(P, append=P['append']); res = ctx.js('var P = JSON.parse(File.read(console.args[0])); Zvfs.create.apply(null, [P.zip].concat(P.create)); for (var i=0; i<P.append.length; i++) Zvfs.append.apply(null, [P.zip].concat(P.append[i]));', args=[wr(d, P2)], cwd=d)
        if not ctx.sanity(res, 'create', txt, txt): return
    try:
        with zipfile.ZipFile(zf) as z:
            if z.namelist() != nm and sorted(z.namelist()) != sorted(nm): bad('zipfile names', 'zipfile lists %r, want %r' % (z.namelist(), nm))
            for (x, b, dd), n in zip(want, nm):
                zi = z.getinfo(n); got = z.read(n)
                if got != (b or b''): bad('zipfile bytes', 'zipfile reads %d bytes of %r, want %d' % (len(got), n, len(b or b'')))
                if b is not None and own and (zi.external_attr >> 16) != os.stat(dd + '/' + x).st_mode: bad('mode', 'mode of %r is %o' % (n, zi.external_attr >> 16))
                if b is not None and tuple(zi.date_time[:5]) != tuple(time.localtime(os.stat(dd + '/' + x).st_mtime)[:5]): bad('date', 'zipfile dates %r %r, file %r' % (n, zi.date_time, time.localtime(os.stat(dd + '/' + x).st_mtime)[:6]))
    except Exception as e:
        if want: bad('zipfile', 'zipfile: %r' % e)

def wr(d, P):
    p = d + '/p.json'; open(p, 'w').write(json.dumps(P)); return p

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'deflate gives zlib data which zlib decompresses to the input; inflate of valid data gives the data, of damaged data the data or an error; gzip and zlib channels likewise, through any chunking, flushes and appends; archives list and give back exactly the names and bytes of the files put in, by mounting, seeking and to zipfile, and likewise archives made by zipfile; damaged archives never crash or hang'
    ctx.assumptions = ['archives: names are not repeated; directory listings are compared when the archive has entries for its directories; CRCs of damaged archives are not enforced']
    n = ctx.size(600, 16000)
    jobs = [(k, i) for i in range(n // 20) for k in 'fg'] + [('z', i) for i in range(n)]
    ctx.pmap(lambda j: {'f': lambda: flate(ctx, j[1], 12), 'g': lambda: gz(ctx, j[1], 16), 'z': lambda: case_zip(ctx, j[1])}[j[0]](), jobs)
