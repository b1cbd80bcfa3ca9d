"""C26: strftime/strptime against the proleptic Gregorian calendar (Python datetime) in UTC and the C library in other zones."""
from vf.js import *
import datetime as dt, json, os, subprocess, sys

SRC = r'''
var P = JSON.parse(File.read(console.args[0])), out = [];
for (var i=0; i<P.length; i++) {
  var c = P[i], o = {}, v;
  try {
    if (c.k == "f") { o.s = strftime(c.t, c.o); v = strptime(o.s, c.o); o.t = isNaN(v) ? null : v; if (!isNaN(v)) o.s2 = strftime(v, c.o); }
    else if (c.k == "p") { v = strptime(c.s, c.o); o.t = isNaN(v) ? null : v; }
    else if (c.k == "d") { v = strptime(c.s, {utc:c.u}); o.t = isNaN(v) ? null : v; }
    else if (c.k == "x") { try { o.s = strftime(c.t*c.m, c.o); } catch(e) { o.err = 1; } }
  } catch(e) { o.err = "" + e; }
  puts(JSON.stringify(o));
}
'''
LIBC = r'''
import sys, json, time
for t, f in json.load(sys.stdin):
    lt = time.localtime(t); s = time.strftime(f, lt)
    amb = any(time.localtime(t + d)[:6] == lt[:6] for d in (-7200, -3600, -1800, 1800, 3600, 7200))
    print(json.dumps([s, amb]))
'''
EPOCH = dt.datetime(1970, 1, 1)
DAY = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MON = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
FULL = ['%Y-%m-%d %H:%M:%S.%f', '%Y-%m-%dT%H:%M:%S.%f', '%d.%m.%Y %H:%M:%S.%f', '%H:%M:%S.%f %d/%m/%Y', '%F %T.%f', '%Y%m%d%H%M%S%f', '%d %b %Y %I:%M:%S %p %f', '%j %Y %H:%M:%S.%f', '%A, %e %B %Y, %T.%f end', '%Y-%m-%d %H:%M:%S.%fZ', 'x%f %% %F %T', '%F %R:%S,%f|%y']
SECS = ['%Y-%m-%d %H:%M:%S', '%F %T', '%s', '%d/%b/%Y:%H:%M:%S', '%a, %d %b %Y %H:%M:%S', '%c', '%Y %j %H %M %S', '%m/%d/%Y %I:%M:%S %p']
PART = ['%Y', '%m', '%d', '%H', '%M', '%S', '%j', '%y', '%e', '%p', '%I', '%a', '%A', '%b', '%B', '%u', '%w', '%U', '%W', '%V', '%G', '%D', '%F', '%R', '%T', '%r', '%n', '%t', '%%', '%h', '%k', '%l', '%g']

def week(d, first):   # %U (6) and %W (0)
    return (d.timetuple().tm_yday + 6 - (d.weekday() - first) % 7) // 7

def model(d, ms, f):
    """strftime in UTC by hand."""
    out = ''; i = 0; iso = None
    while i < len(f):
        c = f[i]
        if c != '%' or i + 1 >= len(f): out += c; i += 1; continue
        k = f[i + 1]; i += 2
        if k in 'FTRDrc':
            out += model(d, ms, {'F': '%Y-%m-%d', 'T': '%H:%M:%S', 'R': '%H:%M', 'D': '%m/%d/%y', 'r': '%I:%M:%S %p', 'c': '%a %b %e %H:%M:%S %Y'}[k]); continue
        out += {'Y': lambda: str(d.year), 'm': lambda: '%02d' % d.month, 'd': lambda: '%02d' % d.day, 'H': lambda: '%02d' % d.hour, 'M': lambda: '%02d' % d.minute, 'S': lambda: '%02d' % d.second,
                'j': lambda: '%03d' % d.timetuple().tm_yday, 'y': lambda: '%02d' % (d.year % 100), 'e': lambda: '%2d' % d.day, 'p': lambda: 'AM' if d.hour < 12 else 'PM', 'I': lambda: '%02d' % ((d.hour + 11) % 12 + 1),
                'a': lambda: DAY[d.weekday()][:3], 'A': lambda: DAY[d.weekday()], 'b': lambda: MON[d.month - 1][:3], 'h': lambda: MON[d.month - 1][:3], 'B': lambda: MON[d.month - 1], 'u': lambda: str(d.weekday() + 1), 'w': lambda: str((d.weekday() + 1) % 7),
                'U': lambda: '%02d' % week(d, 6), 'W': lambda: '%02d' % week(d, 0), 'V': lambda: '%02d' % d.isocalendar()[1], 'G': lambda: str(d.isocalendar()[0]), 'g': lambda: '%02d' % (d.isocalendar()[0] % 100), 'C': lambda: '%02d' % (d.year // 100),
                'n': lambda: '\n', 't': lambda: '\t', '%': lambda: '%', 'f': lambda: '%03d' % ms, 'k': lambda: '%2d' % d.hour, 'l': lambda: '%2d' % ((d.hour + 11) % 12 + 1), 's': lambda: str(int((d - EPOCH).total_seconds()))}[k]()
    return out

def instant(r):
    """(ms since 1970, kind)"""
    k = r.choice(['near', 'wide', 'leap', 'yearend', 'neg', 'edge', 'recent', 'sec'])
    def ms(d): return int((d - EPOCH) // dt.timedelta(milliseconds=1))
    if k == 'near': t = r.randint(-10**5, 10**5)
    elif k == 'wide': t = r.randint(ms(dt.datetime(1, 1, 1)), ms(dt.datetime(9999, 12, 31)))
    elif k == 'leap': y = r.choice([4, 100, 400, 1600, 1700, 1896, 1900, 1904, 1996, 2000, 2004, 2024, 2100, 2400, r.randint(1, 9998)]); t = ms(dt.datetime(y, r.choice([2, 3]), 1)) + r.randint(-2, 29) * 86400000 + r.randint(-1500, 1500)
    elif k == 'yearend': t = ms(dt.datetime(r.choice([r.randint(2, 9998), r.randint(1890, 2110)]), 1, 1)) + r.choice([-86400000, -1, 0, 1, -1000, 999, r.randint(-10**9, 10**9)])
    elif k == 'neg': t = -r.randint(0, 10**12)
    elif k == 'edge': t = r.choice([0, -1, 1, 999, 1000, -999, -1000, -1001, 2**31 * 1000, 2**31 * 1000 - 1, -2**31 * 1000, -2**31 * 1000 - 1, 2**32 * 1000, 951782400000, 253402300799999, -62135596800000, -86400000, 86399999])
    elif k == 'recent': t = r.randint(0, 4 * 10**12)
    else: t = r.randint(-10**9, 10**10) * 1000
    t = max(t, ms(dt.datetime(1, 1, 1))); t = min(t, 253402300799999)
    return t, k

def fmt(r):
    k = r.random()
    if k < .3: return r.choice(FULL), 'full'
    if k < .45: return r.choice(SECS), 'secs'
    if k < .5: return None, 'default'
    s = ''
    for _ in range(r.randint(1, 8)): s += r.choice(PART) + r.choice(['', ' ', '-', '/', 'x', ':', ', ', 'é', '.'])
    if r.random() < .3: s = 'a' + s + ' %f' + r.choice(['', ' z', '%H'])
    return s, 'parts'

def block(ctx, i, n):
    r = ctx.sub('b%d' % i); P = []; W = []
    TZ = r.choice(['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XST-5:30', 'ABC+11', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0'])
    need = []
    for _ in range(n):
        k = r.choice(['f', 'f', 'f', 'fl', 'p', 'd', 'bad', 'x'] if TZ != 'UTC' else ['f', 'f', 'f', 'p', 'd', 'bad', 'x'])
        if k in ('f', 'fl'):
            t, kind = instant(r); f, fk = fmt(r); o = {}
            if k == 'f': o['utc'] = True
            elif t < 0: t = -t   # rules of zones do not reach back
            if t > 4 * 10**12 and k == 'fl': t %= 4 * 10**12
            if f: o['fmt'] = f
            ff = f or '%Y-%m-%d %H:%M:%S'
            if f is None and r.random() < .4: o['iso'] = True; ff = '%FT%T.%f'; fk = 'iso'
            c = dict(k='f', t=t, o=o)
            if r.random() < .15 and t % 1000 == 0: c['o'] = dict(o, secs=True); c['t'] = t // 1000
            P.append(c)
            sec, ms = t // 1000, t % 1000
            if k == 'f': W.append(('f', kind, fk, ff, t, model(EPOCH + dt.timedelta(seconds=sec), ms, ff), False))
            else: need.append((len(W), sec, ms, ff)); W.append(['fl', kind, fk, ff, t, None, None])
        elif k == 'x':
            m = r.choice([1, -1]); t = r.choice([1e300, 1e21, 1e20, 9e19])
            P.append(dict(k='x', t=t, m=m, o={'utc': True})); W.append(('x',))
        elif k == 'bad':
            y, mo, d, h, mi, s = r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
            f = ['%04d', '%02d', '%02d', '%02d', '%02d', '%02d']; v = [y, mo, d, h, mi, s]; j = r.randint(1, 5)
            T = [a % b for a, b in zip(f, v)]
            T[j] = r.choice(['xx', '', '9x', {1: '13', 2: '32', 3: '24', 4: '60', 5: '62'}[j], '-1', '00' if j in (1, 2) else 'zz' if j == 5 else '99'])
            if T[j] == '9x' : T[j] = 'q'
            P.append(dict(k='p', s='%s-%s-%s %s:%s:%s' % tuple(T) if T[5] else 'none', o={'utc': True, 'fmt': '%Y-%m-%d %H:%M:%S'})); W.append(('bad', T[j]))
        else:
            t, kind = instant(r); sec, ms = t // 1000, t % 1000; d = EPOCH + dt.timedelta(seconds=sec)
            f = r.choice(['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M', '%Y-%m-%dT%H:%M', '%Y-%m-%d'])
            s = '%04d-%02d-%02d' % (d.year, d.month, d.day)
            w = (d - EPOCH) // dt.timedelta(milliseconds=1)
            if 'H' in f:
                s += 'T' if 'T' in f else ' '; s += '%02d:%02d' % (d.hour, d.minute)
                if 'S' in f: s += ':%02d' % d.second
                else: w -= d.second * 1000
                if 'S' in f and r.random() < .6: s += '.%03d' % ms + r.choice(['', '', '456', '999999']); w += ms
                if r.random() < .3:
                    hh, mm = r.randint(0, 14), r.choice([0, 30, 45]); sg = r.choice('+-'); s += r.choice(['', ' ']) + '%s%02d:%02d' % (sg, hh, mm); w -= (1 if sg == '+' else -1) * (hh * 60 + mm) * 60000
            else: w -= w % 86400000
            if k == 'p': P.append(dict(k='p', s=s, o={'utc': True, 'fmt': f}))
            else: P.append(dict(k='d', s=s, u=True))
            W.append(('p', kind, f, s, w))
    if need:
        q = subprocess.run([sys.executable, '-c', LIBC], input=json.dumps([(sec, ff.replace('%%', '\x01').replace('%f', '%03d' % ms).replace('\x01', '%%')) for j, sec, ms, ff in need]), env=dict(os.environ, TZ=TZ, LC_ALL='C.UTF-8'), capture_output=True, text=True, check=True)
        for (j, sec, ms, ff), l in zip(need, q.stdout.splitlines()): W[j][5:7] = json.loads(l)
    d = os.path.join(ctx.tmp, 'b%d' % i); os.makedirs(d)
    open(d + '/in.json', 'w').write(json.dumps(P)); open(d + '/s.jsi', 'w').write(SRC)
    res = ctx.run([d + '/s.jsi', d + '/in.json'], cwd=d, timeout=120, env={'TZ': TZ, 'LC_ALL': 'C.UTF-8'})
    if not ctx.sanity(res, 'run', TZ, json.dumps(P)[:20000] + '\n' + res.etext): return
    out = [json.loads(l) for l in res.text.splitlines() if l.startswith('{')]
    if len(out) != len(P): ctx.violation('short', 'only %d of %d answers; stderr %s' % (len(out), len(P), res.etext[:500]), json.dumps(P)); return
    for c, w, o in zip(P, W, out):
        def bad(k, msg): ctx.violation(k, '%s, TZ=%s: %s' % (k, TZ, msg), json.dumps([c, o, w], ensure_ascii=False, indent=1))
        ctx.count('conversions')
        if w[0] in ('f', 'fl'):
            _, kind, fk, ff, t, text, amb = w; ctx.case('%s %s %s' % (w[0], kind, fk))
            if ff == '%s' and w[0] == 'f' and TZ != 'UTC': continue   # a local matter in the C library
            if o.get('s') != text: bad('strftime ' + w[0], '%d ms with %r gives %r, expected %r' % (t, ff, o.get('s', o.get('err')), text)); continue
            if fk == 'parts' or ff == '%s' and t < 0: continue
            got = o.get('t')
            if c['o'].get('secs') and got is not None: got *= 1000
            want = t if '%f' in ff else t - t % 1000
            if (EPOCH + dt.timedelta(milliseconds=t)).year < 1000 and ('%j' in ff or '%Y%m' in ff): continue   # %Y has no leading zeros
            if '%y' in ff:
                y = (EPOCH + dt.timedelta(milliseconds=t)).year
                if not 1970 <= y <= 2067: continue
            ctx.count('round trips')
            if amb: ctx.count('ambiguous local times')
            if got != want and not (amb and o.get('s2') == text): bad('round trip ' + w[0], '%r of %r gives %s, expected %d' % (text, ff, got, want))
        elif w[0] == 'x':
            ctx.case('out of range')
            if 'err' not in o: bad('range', 'strftime(%s*%s) gives %r' % (c['t'], c['m'], o.get('s')))
        elif w[0] == 'bad':
            ctx.case('no date: ' + w[1])
            if o.get('t') is not None: bad('bad text', 'strptime of %r gives %s' % (c['s'], o['t']))
        else:
            _, kind, f, s, want = w; ctx.case('%s %s %s' % (c['k'], kind, f))
            if o.get('t') != want: bad('strptime', '%r gives %s, expected %d' % (s, o.get('t', o.get('err')), want))

def run(ctx):
    ctx.build('asan')
    ctx.pmap(lambda i: block(ctx, i, 250), range(ctx.size(600, 12000)))
    ctx.rule = 'direction (format and back, parse, text that is no date, out of range) x region of the time line x kind of format'
    ctx.assumptions = ['years 1 to 9999', 'local time is compared with the C library of the sandbox under POSIX zone rules, after 1970; an ambiguous local time may come back as either instant']
