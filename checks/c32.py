"""C32: typed C fields through the options API, against an independent memory image, in a C harness linked to the real library."""
import os, re
from vf import build


def run(ctx):
    ctx.rule = ('random histories of stores, increments, whole-array, sub-structure and multi-field stores, wrong types, values at and beyond the limits of each type, wrong names and indexes, reads and dumps, on a structure of '
                '100 fields of every C type the options API knows with guard bytes in between; after each step every byte of the structure is compared with an image computed by independent rules')
    ctx.assumptions = ['negative numbers stored in 64-bit unsigned fields are converted as C does; a failed multi-field store keeps the fields before the bad one',
                       'the CData command is not part of the built program and its generated accessors (bit fields) are not driven']
    ctx.build('asan'); exe = build.harness('cdata.c', os.path.join(ctx.tmp, 'cdata'))
    r = ctx.sub('seeds'); jobs = []
    for k in range(0, ctx.size(6000, 150000), 25): jobs.append((r.randint(1, 1 << 40), 25, 300))
    one = lambda j: (j, ctx.run([str(x) for x in j], exe=exe, leaks=True, timeout=300))
    for j, res in ctx.pmap(one, jobs):
        seed, n, ops = j
        m = re.findall(r'SEED (\d+)', res.text); last = m[-1] if m else str(seed); rep = '%s 1 %d trace' % (last, ops)
        bad = re.search(r'^BAD (\S+) (.*)', res.text, re.M)
        if bad: ctx.violation(bad.group(1), '%s (harness cdata %s)' % (bad.group(2), rep), rep); continue
        if not ctx.sanity(res, 'cdata', 'history: ' + rep, rep): continue
        ev = re.search(r'^EVENTS (\d+) SETS (\d+) ERRORS (\d+)', res.text, re.M)
        if not ev: ctx.violation('end', 'the harness ended with status %s and no result: %s' % (res.rc, res.etext[-500:]), rep); continue
        for k, x in zip(('events', 'stores', 'refused'), ev.groups()): ctx.count(k, int(x))
        for k in range(n): ctx.case(seed + k)
        if len(ctx.samples) < 6: ctx.samples.append(dict(first_seed=seed, histories=n, steps_each=ops, events=int(ev.group(1)), stores=int(ev.group(2)), refused=int(ev.group(3))))
