"""C19: timers under a virtual clock (harness/vclock.c): an offline trace checker over the log of sets, clears, firings and updates."""
from vf.js import *
import collections, os, subprocess

PRE = r'''
var IDS=[], budget=60, BODY=[], CUR=0;
function L(s) { puts("@"+s+" "+format("%.3f",strptime())); }
function SET(kind,d,b) {
  if (budget--<=0) return;
  var k=IDS.length; IDS.push(-1);
  var f=function() { var sv=CUR; CUR=k; L("F "+k); try { if (b>=0) BODY[b](); } catch(e) { CUR=sv; L("E "+k); throw e; } CUR=sv; L("E "+k); };
  L("S "+k+" "+kind+" "+d);
  IDS[k]=(kind=="t"?setTimeout(f,d):setInterval(f,d));
  L("I "+k+" "+IDS[k]);
}
function CLR(k) { if (k<0) k+=IDS.length; if (k<0||k>=IDS.length) return; var r; try { clearInterval(IDS[k]); r="ok"; } catch(e) { r="err"; } L("C "+k+" "+r); }
function BAD(id) { var r; try { clearInterval(id); r="ok"; } catch(e) { r="err"; } L("X "+r); }
function UPD(o,s) { if (budget--<=0) return; L("U "+s); var v; if (s=="0,-1,0,1") v=update(); else v=update(o); L("V "+v); }
function NAM() { var a=Event.names(), i, s=""; for (i=0; i<a.length; i++) s+=(i?",":"")+a[i]; L("N "+s+";"); }
function INF(k) { if (k>=IDS.length) return; var o=Event.info(IDS[k]); if (o===undefined) L("Q "+k+" none"); else L("Q "+k+" "+o.once+" "+o.initial+" "+o.type); }
'''

class G:
    def __init__(g, rng): g.r = rng
    def delay(g):
        r = g.r; return r.choice([0, 0, 1, 1, 2, 3, 5, 5, 10, 10, 20, 30, 50, 100, r.randint(0, 60), r.randint(900, 1100), -5])
    def upd(g, top):
        r = g.r; k = r.random()
        if k < .35: mt, me, mp, sl = 0, -1, 0, 1
        else:
            mt = r.choice([0, 1, 5, 10, 20, 40, 60, 110, 250] + ([1005] if top else []))
            me = r.choice([-1, -1, -1, 0, 1, 2, 3, 5]); mp = r.choice([0, 0, 0, 1, 2, 3, 7]); sl = r.choice([1, 1, 1, 2, 5, 20])
            if r.random() < .3 and (mp or me >= 0): mt = 3000 if r.random() < .5 else -1
            if mt < 0 and not mp: mp = r.randint(1, 30)
        s = '%d,%d,%d,%d' % (mt, me, mp, sl)
        if (me, mp, sl) == (-1, 0, 1) and mt and r.random() < .7: return 'UPD(%d,"%s");' % (mt, s)
        o = []
        if mt or r.random() < .3: o.append('minTime:%d' % mt)
        if me >= 0 or r.random() < .3: o.append('maxEvents:%d' % me)
        if mp: o.append('maxPasses:%d' % mp)
        if sl != 1 or r.random() < .2: o.append('sleep:%d' % sl)
        return 'UPD({%s},"%s");' % (','.join(o), s)
    def op(g, top, nb):
        r = g.r; k = r.choice(['set'] * 6 + ['clr'] * 3 + ['upd'] * (6 if top else 2) + ['sleep'] * 2 + ['nam', 'inf', 'bad'] + ([] if top else ['throw']))
        if k == 'set': return 'SET("%s",%d,%d);' % (r.choice('tti'), g.delay(), r.randint(-nb, nb - 1) if nb else -1)
        if k == 'clr': return 'CLR(%s);' % r.choice([-1, -2, -3, r.randint(0, 12), r.randint(0, 4), 'CUR', 'CUR'])
        if k == 'upd': return g.upd(top)
        if k == 'sleep': return 'sleep(%d);' % r.choice([1, 2, 5, 10, 30, 100])
        if k == 'nam': return 'NAM();'
        if k == 'inf': return 'INF(%d);' % r.randint(0, 10)
        if k == 'bad': return 'BAD(%d);' % r.choice([0, 999, 100000, -1])
        return 'throw "boom";'
    def program(g):
        r = g.r; nb = r.randint(1, 6); out = []
        for b in range(nb): out.append('BODY[%d]=function() { %s };' % (b, ' '.join(g.op(False, nb) for _ in range(r.choice([0, 1, 1, 2, 3])))))
        hb = r.random() < .5
        if hb: out.append('SET("i",0,-1);')
        for _ in range(r.randint(4, 25)): out.append(g.op(True, nb))
        return out, hb

class Trace(Exception): pass

def check(lines, stats):
    """Judge one log; raises Trace with the first broken rule."""
    T = {}      # k -> dict(kind,d,lo,hi (bounds of next due), id, set(line), fires, state live|gone, busy)
    ups = []    # active updates: dict(opts,t,line,count,setbefore)
    running = []
    prevhb = collections.defaultdict(list)
    ended = False
    last = 0
    for n, l in enumerate(lines):
        w = l.split(); t = float(w[-1]); ft = int(t)
        if t < last: raise Trace('line %d: time went back' % n)
        last = t; c = w[0]; stats[c] += 1
        if c == 'S':
            d = max(0, int(w[3])); T[int(w[1])] = dict(kind=w[2], d=d, lo=ft + d, hi=None, set=n, fires=0, live=False, busy=False, id=None, t0=ft)
        elif c == 'I':
            x = T[int(w[1])]; x['id'] = int(w[2]); x['live'] = True; x['hi'] = ft + x['d']
            if x['id'] in [y['id'] for y in T.values() if y is not x]: raise Trace('line %d: event id %d given twice' % (n, x['id']))
        elif c == 'C':
            x = T[int(w[1])]
            if (w[2] == 'ok') != x['live']: raise Trace('line %d: clearing timer %s gave %s but it was %s' % (n, w[1], w[2], 'live' if x['live'] else 'not live'))
            x['live'] = False; stats['clear-' + ('busy' if x['busy'] else w[2])] += 1
        elif c == 'X':
            if w[1] != 'err': raise Trace('line %d: clearing an unknown id raised nothing' % n)
        elif c == 'N':
            got = sorted(int(q) for q in w[1].rstrip(';').split(',') if q) if w[1] != ';' else []
            exp = sorted(x['id'] for x in T.values() if x['live'])
            if got != exp: raise Trace('line %d: Event.names() gives %s, live timers are %s' % (n, got, exp))
        elif c == 'Q':
            x = T[int(w[1])]
            if not x['live']:
                if w[2] != 'none': raise Trace('line %d: Event.info of a dead timer gives data' % n)
            elif w[2:5] != ['true' if x['kind'] == 't' else 'false', str(x['d']), 'timer']: raise Trace('line %d: Event.info gives %s' % (n, w[2:5]))
        elif c == 'U':
            ups.append(dict(o=list(map(int, w[1].split(','))), t=t, n=n, count=0, hb=[], fired=set(), depth=len(running),
                            due=[k for k, x in T.items() if x['live'] and not x['busy'] and x['hi'] <= ft]))
            if len(ups) > 1: stats['nested-update'] += 1; ups[-2]['nest'] = True
        elif c == 'V':
            u = ups.pop(); mt, me, mp, sl = u['o']
            if len(running) != u['depth']: raise Trace('line %d: update returned while a handler runs' % n)
            if int(w[1]) != u['count']: raise Trace('line %d: update returned %s but ran %d events' % (n, w[1], u['count']))
            if me >= 0 and u['count'] > me: raise Trace('line %d: update ran %d events, maxEvents %d' % (n, u['count'], me))
            if me < 0:
                for k in u['due']:
                    x = T[k]
                    if k not in u['fired'] and x['live'] and not x['busy'] and k not in u.get('inner', ()):
                        raise Trace('line %d: update returned but timer %d, due before it began (line %d), has not run' % (n, k, u['n']))
            if not T.get(0, {}).get('live') or u.get('nest') or not u.get('steady'): u['hb'] = []
            full = not (me >= 0 and u['count'] >= me) and not (mp and (not u['hb'] or len(u['hb']) >= mp))
            if full and mt > 0 and ft < int(u['t']) + mt: raise Trace('line %d: update(%d) returned after %g ms' % (n, mt, t - u['t']))
            hb = u['hb']; stats['passes'] += len(hb)
            if hb and u.get('steady'):
                if mp and mt != 0 and len(hb) > mp: raise Trace('line %d: update made %d passes, maxPasses %d' % (n, len(hb), mp))
                if mt == 0 and len(hb) > 1: raise Trace('line %d: update() with no time made %d passes' % (n, len(hb)))
                if mt > 0 and len(hb) >= 2 and hb[-2] >= int(hb[0]) + mt + 1: raise Trace('line %d: update(%d) went on %g ms' % (n, mt, hb[-1] - hb[0]))
            if ups: ups[-1].setdefault('inner', set()).update(u['fired'] | u.get('inner', set()))
        elif c == 'F':
            k = int(w[1]); x = T[k]
            if not ups: raise Trace('line %d: timer %d ran outside update' % (n, k))
            if not x['live']: raise Trace('line %d: timer %d ran after it was %s' % (n, k, 'run' if x['fires'] and x['kind'] == 't' else 'cleared'))
            if x['busy']: raise Trace('line %d: timer %d ran inside its own handler' % (n, k))
            if ft < x['lo']: raise Trace('line %d: timer %d ran at %g, due at %d' % (n, k, t, x['lo']))
            u = ups[-1]
            if u['depth'] != len(running): raise Trace('line %d: handler started inside another without an update' % n)
            if not x['fires']:
                for j, y in T.items():      # anything set earlier, due no later, and waiting since before this update goes first
                    if j != k and y['live'] and not y['busy'] and not y['fires'] and y['set'] < u['n'] and x['set'] < u['n'] and (y['hi'] < x['lo'] or (y['set'] < x['set'] and y['d'] <= x['d'])):
                        raise Trace('line %d: timer %d ran before timer %d, which was due no later and set before' % (n, k, j))
                stats['ordered'] += 1
            u['count'] += 1; u['fired'].add(k)
            if k == 0 and x['kind'] == 'i' and x['d'] == 0:
                u['steady'] = x['set'] < u['n']; u['hb'].append(t)
                if len(u['hb']) >= 3 and u['o'][1] < 0 and not u.get('nest'):
                    for j, y in T.items():
                        if y['live'] and not y['busy'] and y['hi'] is not None and y['hi'] <= int(u['hb'][-3]) and y['set'] < u['n'] and j != 0:
                            raise Trace('line %d: timer %d was due at %d and missed a whole pass' % (n, j, y['hi']))
            x['busy'] = True; x['fires'] += 1; running.append(k)
            x['lo'] = x['t0'] + (x['fires'] + 1) * x['d'] if x['kind'] == 'i' else x['lo']; x['hi'] = ft + x['d'] if x['kind'] == 'i' else x['hi']
        elif c == 'E':
            k = int(w[1]); x = T[k]
            if not running or running[-1] != k: raise Trace('line %d: handler order' % n)
            running.pop(); x['busy'] = False
            if x['kind'] == 't': x['live'] = False
        elif c == 'Z': ended = True
    if not ended: raise Trace('the program did not reach its end')
    if ups: raise Trace('an update did not return')

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'one timer program, judged by a trace checker over its log; distinct programs'
    ctx.assumptions = ['time is the virtual clock of harness/vclock.c (gettimeofday, usleep, sleep), at millisecond resolution', 'a timer set while an update pass runs waits for the next pass']
    so = os.path.join(ctx.tmp, 'vclock.so')
    subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'vclock.c')], check=True)
    g = G(ctx.sub('t')); progs = [g.program() for _ in range(ctx.size(2500, 40000))]; clk = [g.r.choice([1700000000, 1000000, 2**31 - 1]) * 1000000 + g.r.choice([0, 999000, 990000, 950000, g.r.randint(0, 999999)]) for _ in progs]; stp = [g.r.choice([0, 5, 50, 300, 1500]) for _ in progs]
    stats = collections.Counter()
    def one(i):
        src = PRE + '\n'.join(progs[i][0]) + '\nNAM(); L("Z");\n'
        return src, ctx.js(src, env={'LD_PRELOAD': so, 'VF_CLOCK': str(clk[i]), 'VF_STEP': str(stp[i])}, timeout=60)
    for i, (src, r) in enumerate(ctx.pmap(one, range(len(progs)))):
        txt = '\n'.join(progs[i][0])
        log = [l[1:] for l in r.out.decode('utf-8','replace').split('\n') if l[:1] == '@']
        ctx.case(txt, sample=dict(program=txt[:300], observed=log[:5])); ctx.count('log_events', len(log)); st = collections.Counter()
        if not ctx.sanity(r, 'timer', txt, src): continue
        try: check(log, st)
        except Trace as e: ctx.violation('timer:' + txt, '%s\nclock %d step %d\nprogram:\n%s\nlog:\n%s\nstderr: %s' % (e, clk[i], stp[i], txt[:4000], '\n'.join('%d %s' % q for q in enumerate(log))[-5000:], r.err[-300:].decode('utf-8','replace')), src)
        stats.update(st)
    ctx.notes['observed'] = dict(stats)
