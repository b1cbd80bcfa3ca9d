"""C34: the containers of the embedding API against simple models, in a C harness linked to the real library."""
import os, re
from vf import build

KINDS = [('hash', 300, 700), ('tree', 300, 700), ('maphash', 100, 500), ('maptree', 150, 500), ('list', 150, 1500), ('dstring', 250, 200), ('stack', 40, 2500)]


def run(ctx):
    ctx.rule = ('random histories of insert, lookup, delete, iterate, delete while iterating, clear, delete and reuse on hash tables, trees, maps, lists, dynamic strings and stacks, '
                'over nine key types and many key distributions; every step is compared with a model, trees also with the red-black invariants, and every value freed is logged')
    ctx.assumptions = ['values are non-NULL where the free procedure has to run (it is not called for NULL values, and storing a new value does not free the old one)',
                       'a tree search ends early when an entry is deleted during it; only hash and list searches must survive deletion of the current entry']
    B = ctx.build('asan'); exe = build.harness('containers.c', os.path.join(ctx.tmp, 'containers'))
    jobs = []; r = ctx.sub('seeds')
    for kind, n, ops in KINDS:
        n = ctx.size(n, n * 22)
        for k in range(0, n, 25): jobs.append((kind, r.randint(1, 1 << 40), min(25, n - k), ops))

    def one(j):
        return j, ctx.run([str(x) for x in j], exe=exe, leaks=True, timeout=300)
    for j, res in ctx.pmap(one, jobs):
        kind, seed, n, ops = j
        m = re.findall(r'SEED (\d+)', res.text); last = m[-1] if m else str(seed)
        rep = '%s %s 1 %d' % (kind, last, ops)
        bad = re.search(r'^BAD (\S+) (.*)', res.text, re.M)
        if bad:
            ctx.violation('%s:%s' % (kind, bad.group(1)), '%s: %s (history %s)' % (kind, bad.group(2), rep), rep); continue
        if not ctx.sanity(res, kind, 'container history: ' + rep, rep): continue
        ev = re.search(r'^EVENTS (\d+)', res.text, re.M)
        if not ev:
            ctx.violation('%s:end' % kind, 'the harness ended with status %s and no result: %s' % (res.rc, res.etext[-500:]), rep); continue
        ctx.count('events_' + kind, int(ev.group(1)))
        for k in range(n): ctx.case((kind, seed + k))
        if len(ctx.samples) < 6: ctx.samples.append(dict(kind=kind, first_seed=seed, histories=n, operations_each=ops, compared_events=int(ev.group(1))))
