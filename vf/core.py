"""Run context shared by all checks: scratch space, process runner with
sanitizer-report collection, verdicts, known findings, evidence."""
import atexit, collections, concurrent.futures as cf, glob, hashlib, json, os, random, re, resource
import shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build as vbuild

NCPU = 8


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'san', 'args', 'wall')

    def __init__(s, rc, out, err, timeout, san, args, wall):
        s.rc, s.out, s.err, s.timeout, s.san, s.args, s.wall = rc, out, err, timeout, san, args, wall

    @property
    def text(s):
        return s.out.decode('utf-8', 'surrogateescape')

    @property
    def etext(s):
        return s.err.decode('utf-8', 'surrogateescape')

    @property
    def crashed(s):
        """Ended by a signal the test did not send, or a sanitizer wrote a report."""
        return bool(s.san) or (s.rc is not None and s.rc in (-11, -6, -8, -7, -4, -5))


def san_key(text):
    """Stable identity of a sanitizer report: kind plus the top frames in jsish code."""
    kind = 'crash'
    m = re.search(r'(AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([a-zA-Z-]+( race)?)', text)
    if m:
        kind = m.group(2)
    m = re.search(r'runtime error: (.*)', text)
    if m:
        kind = 'ub:' + re.sub(r"[-+]?(0x)?\d[\w.+]*", 'N', m.group(1))[:60]
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in ((?:[Jj]si|jsi|yy|linenoise|mz_|tinfl|tdefl|zvfs|db)\w*)', text)
    if not frames:
        frames = re.findall(r'#\d+ ((?:[Jj]si|yy|mz_|db)\w+)', text)
    m = re.search(r'(\w+\.c):\d+:\d+: runtime error', text)
    loc = m.group(1) if m else ''
    return '%s@%s%s' % (kind, loc, '<'.join(frames[:2]))


class Enough(Exception): pass


class Ctx:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evals = 0
        self.distinct = set()
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.rule = ''
        self.assumptions = []
        self.notes = {}
        self.inconclusive = 0
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir='/tmp')
        os.chmod(self.tmp, 0o755)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.n = 0
        self.known = load_known(prop)
        shutil.rmtree(os.path.join(VERIF, 'replay', prop), True)
        self.dirs = {}
        self.procs = set()
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))

    # ---- sizes -------------------------------------------------------------
    def size(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 8)

    def sub(self, tag):
        return random.Random('%s/%d/%s' % (self.prop, self.seed, tag))

    # ---- building ----------------------------------------------------------
    def build(self, *variants):
        for v in variants or ('asan',):
            try:
                self.dirs[v] = vbuild.build(v)
            except vbuild.BuildError as e:
                print('build of variant %s failed: %s' % (v, e), file=sys.stderr)
                self.cleanup()
                sys.exit(2)

    def exe(self, variant='asan'):
        return os.path.join(self.dirs[variant], 'jsish')

    # ---- running -----------------------------------------------------------
    def path(self, suffix=''):
        with self.lock:
            self.n += 1
            n = self.n
        return os.path.join(self.tmp, '%05d%s' % (n, suffix))

    def mkdir(self):
        p = self.path('d')
        os.mkdir(p)
        return p

    def env(self, variant, logp, leaks=False):
        o = 'log_path=%s:halt_on_error=1:abort_on_error=0:exitcode=77:handle_abort=1:' % logp
        return {
            'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': self.tmp, 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8',
            'TERM': 'dumb',
            'ASAN_OPTIONS': o + 'detect_stack_use_after_return=0:allocator_may_return_null=1:'
                                'detect_leaks=%d:max_allocation_size_mb=3000:detect_odr_violation=0' % (1 if leaks else 0),
            'UBSAN_OPTIONS': 'log_path=%s:print_stacktrace=1:halt_on_error=0' % logp,
            'TSAN_OPTIONS': 'log_path=%s:halt_on_error=0:exitcode=0:second_deadlock_stack=1:'
                            'report_signal_unsafe=0' % logp,
            'LSAN_OPTIONS': 'exitcode=78',
        }

    def run(self, args, stdin=b'', timeout=60, variant='asan', cwd=None, env=None, leaks=False, limit_as=None,
            retry=True, preexec=None, maxout=32 << 20, user=False, lowmem=False, exe=None):
        """Run jsish (args after the executable) and gather its behaviour.
        user: as an unprivileged user, for workloads that may touch files or processes."""
        logp = self.path('san')
        sanp = os.path.join(self.userdir(), os.path.basename(logp)) if user else logp
        e = self.env(variant, sanp, leaks)
        if lowmem:
            e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('size_mb=3000', 'size_mb=600').replace('may_return_null=1', 'may_return_null=0')
        if env:
            e.update(env)
        if isinstance(args, str):
            args = [args]
        exe = exe or self.exe(variant)
        if user:
            exe = self.userexe(variant)
        cmd = [exe] + list(args)
        t = time.time()
        own = cwd is None
        cwd = cwd or self.mkdir()
        if user:
            os.chown(cwd, 65534, 65534)
        if isinstance(stdin, str):
            stdin = stdin.encode('utf-8', 'surrogateescape')
        outf = open(logp + '.o', 'w+b')
        errf = open(logp + '.e', 'w+b')

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
            if user:
                resource.setrlimit(resource.RLIMIT_NPROC, (4000, 4000))
                os.setgroups([]); os.setgid(65534); os.setuid(65534)
                os.umask(0o022)
            if preexec:
                preexec()
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=outf, stderr=errf, cwd=cwd, env=e,
                             preexec_fn=pre)
        to = False
        try:
            p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
        except BrokenPipeError:
            p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        outf.seek(0); errf.seek(0)
        out = outf.read(maxout); err = errf.read(maxout)
        outf.close(); errf.close()
        os.unlink(logp + '.o'); os.unlink(logp + '.e')
        san = ''
        for f in glob.glob(sanp + '.*'):
            san += open(f, errors='replace').read()
            os.unlink(f)
        if own:
            shutil.rmtree(cwd, True)
        r = Result(p.returncode, out, err, to, san, cmd, time.time() - t)
        if to and retry:
            return self.run(args, stdin, timeout * 2, variant, None if own else cwd, env, leaks, limit_as, False, preexec, maxout, user, lowmem, exe)
        return r

    def userdir(self):
        d = os.path.join(self.tmp, 'u')
        if not os.path.isdir(d):
            os.makedirs(d, exist_ok=True)
            os.chmod(d, 0o1777)
        return d

    def userexe(self, variant):
        with self.lock:
            p = os.path.join(self.tmp, 'jsish-' + variant)
            if not os.path.exists(p):
                shutil.copy(self.exe(variant), p + '~')
                os.chmod(p + '~', 0o755)
                os.rename(p + '~', p)
            return p

    def js(self, code, opts=(), args=(), **kw):
        f = self.path('.js')
        with open(f, 'wb') as h:
            h.write(code if isinstance(code, bytes) else code.encode('utf-8', 'surrogateescape'))
        r = self.run(list(opts) + [f] + list(args), **kw)
        os.unlink(f)
        return r

    def pmap(self, fn, items, workers=NCPU):
        def one(x):
            if self.violations and time.time() - self.t0 > (300 if self.tier == 'quick' else 700):
                raise Enough()          # something is found and running on would take too long (hanging code)
            return fn(x)
        with cf.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(one, items))

    # ---- bookkeeping -------------------------------------------------------
    def case(self, key, sample=None, n=1):
        """One oracle-judged case; key identifies it when non-trivial (None: trivial)."""
        with self.lock:
            self.evals += n
            if key is not None:
                self.distinct.add(hashlib.md5(repr(key).encode('utf-8', 'surrogateescape')).digest()[:8])
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample if isinstance(sample, (dict, list)) else str(sample)[:1500])

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] += n

    def sanity(self, r, key='', what='', replay=None):
        """Report a crash/sanitizer/hang of a run. True if the run was clean."""
        if r.timeout:
            self.violation('hang:' + key, 'no end within the time limit, twice: %s' % what, replay)
            return False
        if r.crashed:
            k = san_key(r.san) if r.san else 'signal%d' % r.rc
            self.violation('crash:' + k, '%s\n%s\n%s' % (what, r.san[:6000], r.etext[-1000:]), replay)
            return False
        return True

    def violation(self, key, detail, replay=None):
        with self.lock:
            if key in self.known:
                self.known_hit.setdefault(key, detail)
                return
            if any(v['key'] == key for v in self.violations):
                self.counts['violations_repeated'] += 1
                return
            if len(self.violations) >= 40:
                self.counts['violations_more'] += 1
                return
            rd = os.path.join(VERIF, 'replay', self.prop)
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, '%s.txt' % hashlib.md5(key.encode('utf-8', 'surrogateescape')).hexdigest()[:12])
            with open(p, 'w', errors='surrogateescape') as h:
                h.write('property: %s\nseed: %d tier: %s\nkey: %s\n\n%s\n' % (self.prop, self.seed, self.tier, key, detail))
                if replay:
                    h.write('\n----- replay -----\n%s\n' % (replay if isinstance(replay, str) else replay.decode('utf-8', 'surrogateescape')))
            self.violations.append(dict(key=key, detail=detail, path=p))

    def cleanup(self):
        shutil.rmtree(self.tmp, True)

    def finish(self):
        self.cleanup()
        for k, what in sorted(self.known.items()):
            if k in self.known_hit:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.prop, what, k))
            else:
                print('note: listed finding not seen in this run: property=%s %s' % (self.prop, k))
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ['none'])
        for k, v in self.counts.items():
            cov[k] = v
        cov.update(self.notes)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            h.write(json.dumps(ev, indent=1, ensure_ascii=True, default=str) + '\n')
        for v in self.violations[:int(os.environ.get('VF_SHOW','40'))]:
            print('VIOLATION property=%s replay=%s' % (self.prop, v['path']))
            print('  key: %s' % v['key'].encode('ascii', 'backslashreplace').decode())
            print('  ' + v['detail'][:int(os.environ.get('VF_LEN','1200'))].encode('ascii', 'backslashreplace').decode().replace('\n', '\n  '))
        if self.violations:
            sys.stdout.flush()
            os._exit(1)
        if self.evals == 0 or not self.distinct:
            print('the check observed nothing', file=sys.stderr)
            os._exit(2)
        print('OK property=%s evaluations=%d distinct=%d wall=%.1fs %s' % (
            self.prop, self.evals, len(self.distinct), time.time() - self.t0, dict(self.counts)))
        sys.stdout.flush()
        os._exit(0)


def load_known(prop):
    d = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', l)
            if m and m.group(1) == prop:
                d[m.group(2)] = m.group(3)
    return d
