"""C02: control flow. Oracle: the event trace of the same program in node."""
from vf.js import *
from vf.gen import Gen, PRE_COMMON
import collections

FIXED = '''var x=2; switch(x){ default: T(1,0); case 1: T(2,0); break; case 2: T(3,0); case 3: T(4,0); }
a: for (var i=0;i<3;i++) { for (var j=0;j<3;j++) { switch(j){ case 1: continue a; case 2: break a; default: T(1,i*10+j); } } }
a: while(1) { do { T(1,1); break a; } while(0); }
for (var i=0;i<3;i++) if (i===1) continue; else T(1,i);
var i=5; while (i --> 0) { if (i%3) { continue; } T(1,i); }
if (0) T(1,1); else if (0) T(2,1); else T(3,1);
for (var k in {b:1,a:2,c:3}) { T(1,0); break; }
var n=0; for (var i=0;i<300;i++) { for (var j=0;j<20;j++) { if ((i*j)%7===3) { continue; } n++; } } T(1,n);'''.split('\n')

def run(ctx):
    ctx.build('asan')
    ctx.rule = 'random structured programs (control statements nested up to depth 6 in and out of functions); non-trivial: distinct program whose trace has more than one event'
    ctx.assumptions = ['node executes the shared subset correctly']
    cases = list(FIXED)
    rng = ctx.sub('p')
    kinds = collections.Counter()
    for i in range(ctx.size(8000, 60000)):
        g = Gen(rng, exc=False, maxdepth=rng.choice([2, 3, 4, 5, 6]), fuel=rng.choice([20, 60, 150]))
        cases.append(g.program())
        kinds.update(g.kinds)
    vs_node(ctx, cases, DUMP + PRE_COMMON, DUMP_NODE + PRE_COMMON)
    ctx.notes['programs_with_construct'] = dict(kinds)
