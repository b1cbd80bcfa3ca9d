"""Plant a bug: seed(id, prop, edits, demo, needs, breaks) writes /verif/seeded/<id>/ and confirms it
(applies, builds, passes the stable tests, demo passes without and fails with it) and says whether the check catches it."""
import os, subprocess, json, sys, shutil
R='/repo'; V='/verif'; J='/repo/_build/copy-of-repo-that-build.sh-synchronises-and-builds-in/jsish'
DEMO='''#!/bin/bash
# prints of demo.jsi must be those of demo.exp
d=$(cd "$(dirname "$0")" && pwd)
J=%s
t=$(mktemp -d); cd "$t"
out=$(timeout 60 "$J" "$d/demo.jsi" 2>&1 | sed "s#$d#DIR#g"); cd /; rm -rf "$t"
[ "$out" = "$(cat "$d/demo.exp")" ] || { echo "got: $out" | head -20; exit 1; }
exit 0
''' % J
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): 
    r=sh('bash /opt/vp/build.sh'); return r.returncode==0
def clean(): sh('git -C /repo checkout -- .')
def seed(id, prop, edits, demo=None, needs='', breaks='', demosh=None, files={}, check=True, tests=True):
    d=f'{V}/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok=False
    try:
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
        for f,t in files.items(): open(f'{d}/{f}','w').write(t)
        if demosh: open(f'{d}/demo.sh','w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nJ=%s\n'%J+demosh)
        else:
            open(f'{d}/demo.jsi','w').write(demo); open(f'{d}/demo.sh','w').write(DEMO)
        assert build(),'base build'
        if not demosh:
            r=sh(f'cd /tmp && timeout 60 {J} {d}/demo.jsi 2>&1 | sed "s#{d}#DIR#g"'); open(f'{d}/demo.exp','w').write(r.stdout); print('base out:',r.stdout[:600])
        r=sh(f'cd /repo && timeout 300 bash {d}/demo.sh'); assert r.returncode==0, 'demo fails on base '+r.stdout[-500:]+r.stderr[-300:]
        for f,a,b in edits:
            s=open(f'{R}/{f}').read(); assert s.count(a)==1,(f,a,s.count(a)); open(f'{R}/{f}','w').write(s.replace(a,b))
        p=sh('git -C /repo diff').stdout; open(f'{d}/patch.diff','w').write(p)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(f'{d}/meta.json','w'),indent=1)
        if tests:
            r=sh(f'{V}/tools/stable'); print(r.stdout[:400]); assert 'missing: []' in r.stdout
        else: assert build()
        r=sh(f'cd /repo && timeout 300 bash {d}/demo.sh'); print('patched demo rc',r.returncode, r.stdout[:500], r.stderr[:200]); assert r.returncode!=0
        ok=True
        if check:
            e=dict(os.environ,VERIF_CCACHE='1',VF_SHOW='1',VF_LEN='300')
            r=sh(f'cd {V} && ./check {prop}',env=e); o=r.stdout.strip().split('\n')
            print('SEED',id,'check',prop,'rc',r.returncode,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+prop in r.stdout else 'MISSED'); print(r.stdout[:300]); print(o[-1][:200])
    except AssertionError as e: print('SEED',id,'REJECTED',e)
    finally: clean()
    if not ok: shutil.rmtree(d, ignore_errors=True)
    return ok
def rerun(id):
    d=f'{V}/seeded/{id}'; prop=json.load(open(f'{d}/meta.json'))['property']
    r=sh(f'git -C /repo apply {d}/patch.diff'); 
    if r.returncode: print(id,'NOAPPLY',r.stderr[:200]); return
    try:
        e=dict(os.environ,VERIF_CCACHE='1',VF_SHOW='1',VF_LEN='300')
        r=sh(f'cd {V} && ./check {prop}',env=e); o=r.stdout.strip().split('\n')
        print('SEED',id,'check',prop,'rc',r.returncode,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+prop in r.stdout else 'MISSED',o[-1][:160])
    finally: clean()
if __name__=='__main__':
    for i in sys.argv[1:] or sorted(os.listdir(V+'/seeded')): rerun(i)
