"""Builds instrumented variants of jsish from /repo's current working tree.

Every variant lives in /verif/.build/<variant>/ (git-ignored): the sources are
rsynced by checksum, so only changed files are recompiled, and a change of
anything but a .c file wipes the objects first.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BROOT = os.path.join(VERIF, '.build')

UB = ('-fsanitize=undefined -fno-sanitize=alignment,shift,function,float-cast-overflow,'
      'pointer-overflow,vptr -fno-sanitize-recover=null')
VARIANTS = {
    # address + undefined-behaviour sanitizer: the default monitor build
    'asan': dict(cc='clang', opts='-g1 -O1 -fno-omit-frame-pointer -fsanitize=address ' + UB,
                 ld='-fsanitize=address,undefined'),
    # the same with the project's own allocation ledger compiled in
    'mem': dict(cc='clang', opts='-g1 -O1 -fno-omit-frame-pointer -fsanitize=address ' + UB, ld='',
                memdebug=True),
    'tsan': dict(cc='clang', opts='-g1 -O1 -fno-omit-frame-pointer -fsanitize=thread', ld=''),
    'plain': dict(cc='gcc', opts='-g1 -O2', ld=''),
}
HOOK_GUARD = 'JSI__VERIF'


class BuildError(Exception):
    pass


def _sh(cmd, cwd, env, log):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, shell=True,
                       executable='/bin/bash')
    if p.returncode:
        log.flush()
        tail = open(log.name, errors='replace').read()[-3000:]
        raise BuildError('build step failed: %s\n%s' % (cmd, tail))


def build(variant='asan', hooks=True):
    v = VARIANTS[variant]
    os.makedirs(BROOT, exist_ok=True)
    lock = open(os.path.join(BROOT, variant + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, v, hooks)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(variant, v, hooks):
    t0 = time.time()
    B = os.path.join(BROOT, variant)
    os.makedirs(B, exist_ok=True)
    r = subprocess.run(
        ['rsync', '-rlpci', '--delete', '--exclude=/.git', '--exclude=/_build', '--exclude=/.depend',
         '--exclude=/make.conf', '--exclude=/src/parser.h', '--exclude=/src/parser.c',
         '--exclude=/src/parser.output', '--exclude=/src/*.o', '--exclude=/src/*.d',
         '--exclude=/miniz/*.o', '--exclude=/miniz/*.d', '--exclude=/jsish', '--exclude=/jsish_',
         '--exclude=/*.so', '--exclude=/libjsi.a', '--exclude=/zhash.txt', '--exclude=/.stamp',
         '--exclude=/build.log', '--exclude=/jsimin', '--exclude=/libjsi.so',
         REPO + '/', B + '/'], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError('rsync failed')
    changed = [l.split(' ', 1)[1] for l in r.stdout.splitlines()
               if ' ' in l and not l.startswith('.d') and not l.startswith('.f')]
    optkey = repr(sorted(v.items())) + repr(hooks)
    stamp = os.path.join(B, '.stamp')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    exe = os.path.join(B, 'jsish')
    # files that come and go with each make (generated ones tracked by git) are ignored here
    gen = {'jsish.c', '.depend', 'src/parser.h'}
    changed = [c for c in changed if c not in gen]
    if old == optkey and not changed and os.path.exists(exe):
        return B
    if os.path.exists(stamp):
        os.remove(stamp)
    if old != optkey or any(not (c.startswith('src/') and c.endswith('.c')) for c in changed):
        for d in ('src', 'miniz'):
            for f in os.listdir(os.path.join(B, d)):
                if f.endswith('.o') or f.endswith('.d'):
                    os.remove(os.path.join(B, d, f))
    conf = open(os.path.join(B, 'Configs/make_default.conf')).read()
    out = []
    for l in conf.splitlines():
        l = l.replace('-DJSI__WEBSOCKET=1', '-DJSI__WEBSOCKET=0')
        if l.startswith('WITH_EXT_WEBSOCKET=1'):
            l = 'WITH_EXT_WEBSOCKET=0'
        if l.startswith('BUILDIN_') and l.endswith('=1'):
            l = l[:-1] + '0'
        if v.get('memdebug'):
            l = l.replace('-DJSI__MEMDEBUG=0', '-DJSI__MEMDEBUG=1')
        if l.startswith('PROGFLAGS=') and hooks:
            l += ' -D%s=1' % HOOK_GUARD
        out.append(l)
    open(os.path.join(B, 'make.conf'), 'w').write('\n'.join(out) + '\n')
    open(os.path.join(B, '.depend'), 'w').write('-include $(wildcard src/*.d miniz/*.d)\n')
    for f in ('jsish', 'jsish_', 'libjsi.a', 'libjsi.so', 'zhash.txt', 'jsimin'):
        p = os.path.join(B, f)
        if os.path.exists(p):
            os.remove(p)
    cc = v['cc']
    env = dict(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root',
               LC_ALL='C.UTF-8', CFLAGS='-MMD -MP', TZ='UTC',
               ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='report_bugs=0',
               UBSAN_OPTIONS='print_stacktrace=0')
    if os.environ.get('VERIF_CCACHE') and shutil.which('ccache'):
        env.update(CCACHE_DIR=os.path.join(BROOT, 'ccache'), CCACHE_NOHASHDIR='1')
        cc = 'ccache ' + cc
    mk = "make CC='%s' SQLITELIB= EXTRALD=-lsqlite3 OPTS='%s'" % (cc, v['opts'])
    with open(os.path.join(B, 'build.log'), 'w') as log:
        _sh(mk + ' src/parser.c', B, env, log)
        _sh(mk + ' -j8 libjsi.so', B, env, log)
        _sh(mk + ' jsish', B, env, log)
    if not os.path.exists(exe):
        raise BuildError('no jsish was built')
    open(stamp, 'w').write(optkey)
    return B


def harness(src, out, variant='asan', extra=''):
    """Compile /verif/harness/<src> against the library of a built variant."""
    import re
    B = os.path.join(BROOT, variant)
    line = [l for l in open(os.path.join(B, 'build.log'), errors='replace') if '-DJSI__MAIN=1' in l][-1]
    defs = ' '.join(sorted(set(re.findall(r'-DJSI__[A-Z0-9_]+=\d+', line)) - {'-DJSI__MAIN=1'}))
    v = VARIANTS[variant]
    cmd = '%s -w %s %s -I. -Isrc -Iminiz %s -o %s %s libjsi.a -rdynamic -lsqlite3 -lm -ldl -lpthread' % (
        v['cc'], v['opts'], defs, extra, out, os.path.join(VERIF, 'harness', src))
    p = subprocess.run(cmd, cwd=B, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('harness does not build: %s\n%s' % (cmd, p.stdout.decode('utf-8', 'replace')[-2000:]))
    return out


if __name__ == '__main__':
    for a in sys.argv[1:] or ['asan']:
        t = time.time()
        print(build(a), '%.1fs' % (time.time() - t))
