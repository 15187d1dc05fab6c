#!/usr/bin/env python3
"""Driver of the monitors.  Usage:
  run.py setup            build every instrumented tree and every monitor
  run.py <ID>             decide property <ID> (VERIF_SEED, VERIF_TIER select the workload)
  run.py --replay FILE    re-run the case a replay file names, printing what the monitor reports
Exit 0: held on everything observed; 1: VIOLATION line printed; 2: no verdict (build failure, nothing observed)."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
NCPU = os.cpu_count() or 8

COMMON = ['-DCMAKE_BUILD_TYPE=None', '-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
          '-DBUILD_TESTING=OFF', '-DBUILD_DOCUMENTATION=OFF', '-DBUILD_AUDIOINTERFACES_JACK=ON',
          '-DBUILD_AUDIOINTERFACES_PORTAUDIO=ON', '-DBUILD_STANDALONE_APPLICATIONS=OFF',
          '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DCMAKE_POSITION_INDEPENDENT_CODE=ON', '-DBUILD_LIBRARY_TYPE_FOR_APPS=shared',
          '-DBUILD_INSTALL_STATIC_LIBRARIES=OFF', '-DBUILD_INSTALL_STATIC_PIC_LIBRARIES=OFF']
ASAN_FLAGS = ('-O1 -g1 -fno-omit-frame-pointer -Wno-error -w -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined '
              '-fno-sanitize=vptr -fno-sanitize-recover=all')
TSAN_FLAGS = '-O1 -g1 -fno-omit-frame-pointer -Wno-error -w -fsanitize=thread'
CONFIGS = {
    'asan': {'flags': ASAN_FLAGS, 'cmake': ['-DBUILD_PYTHON_BINDINGS=OFF']},
    'tsan': {'flags': TSAN_FLAGS, 'cmake': ['-DBUILD_PYTHON_BINDINGS=OFF', '-DBUILD_RUNTIME_SYSTEM_PROFILING=ON'],
             'hflags': '-DVISR_RRL_RUNTIME_SYSTEM_PROFILING=1'},
    'asanpy': {'flags': '-O0 -g1 -fno-omit-frame-pointer -fvisibility-inlines-hidden -Wno-error -w -D_GLIBCXX_ASSERTIONS -fsanitize=address',
               'cmake': ['-DBUILD_PYTHON_BINDINGS=ON', '-DPYTHON_EXECUTABLE=/usr/bin/python3'],
               'targets': ['pythonexternals', 'pythoncomponents_shared', 'audiointerfaces_shared', 'apputilities_shared']},
}
LIBS = ['efl', 'visr', 'rbbl', 'pml', 'rrl', 'rcl', 'objectmodel', 'panning', 'panningdsp', 'reverbobject', 'signalflows',
        'signalflowspython', 'audiointerfaces', 'apputilities', 'pythonsupport', 'pythoncomponents']
# Libraries only some monitors need are picked by a "// LIBS:" line in the source.

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- build
def source_hashes():
    out = {}
    for top in ('src', '3rd', 'cmake_modules', 'config', 'CMakeLists.txt'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, dn, fn in os.walk(p):
                files += [os.path.join(d, f) for f in fn if f.endswith(('.cpp', '.hpp', '.c', '.h', '.txt', '.cmake', '.in', '.S', '.s'))]
        for f in files:
            try:
                with open(f, 'rb') as fh:
                    out[os.path.relpath(f, REPO)] = hashlib.sha1(fh.read()).hexdigest()
            except OSError:
                pass
    return out

def sh(cmd, logf, cwd=None):
    with open(logf, 'ab') as lf:
        r = subprocess.run(cmd, cwd=cwd, stdout=lf, stderr=subprocess.STDOUT)
    return r.returncode

def tail(f, n=4000):
    try:
        with open(f, 'rb') as fh:
            return fh.read()[-n:].decode('utf-8', 'replace')
    except OSError:
        return ''

def build_libs(cfg, hashes):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    logf = os.path.join(BUILD, cfg + '.log')
    stampf = os.path.join(d, 'verif-stamp.json')
    conf = hashlib.sha1(json.dumps([c, COMMON]).encode()).hexdigest()
    stamp = None
    try:
        stamp = json.load(open(stampf))
    except Exception:
        pass
    wipe = stamp is None or stamp.get('conf') != conf
    if stamp and not wipe:
        # A source whose content changed without a newer time stamp would be missed by ninja.
        for f, h in hashes.items():
            if stamp['hashes'].get(f) != h and f in stamp['hashes'] and os.path.getmtime(os.path.join(REPO, f)) <= stamp['time']:
                wipe = True
                break
        if stamp['hashes'] == hashes:
            return
    if wipe:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    open(logf, 'wb').close()
    t0 = time.time()
    if not os.path.exists(os.path.join(d, 'build.ninja')):
        cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_CXX_FLAGS=' + c['flags'], '-DCMAKE_C_FLAGS=' + c['flags'].replace('-D_GLIBCXX_ASSERTIONS', '')]
        if sh(cmd + COMMON + c['cmake'], logf):
            raise RuntimeError('cmake failed for %s:\n%s' % (cfg, tail(logf)))
    if sh(['ninja', '-C', d] + c.get('targets', []), logf):
        # A configure step or dependency log that no longer fits the tree: start from nothing once.
        if stamp is not None and not wipe:
            shutil.rmtree(d, ignore_errors=True)
            return build_libs(cfg, hashes)
        raise RuntimeError('build failed for %s:\n%s' % (cfg, tail(logf)))
    json.dump({'conf': conf, 'time': t0, 'hashes': hashes}, open(stampf, 'w'))
    log('[build] %s libraries: %.1f s' % (cfg, time.time() - t0))

def build_harness(cfg, names):
    d = os.path.join(BUILD, cfg)
    h = os.path.join(d, 'h')
    os.makedirs(h, exist_ok=True)
    flags = CONFIGS[cfg]['flags'] + ' ' + CONFIGS[cfg].get('hflags', '')
    inc = '-I%s/lib -I%s/src -I%s/src -I%s/3rd' % (HERE, REPO, d, REPO)
    stamp = os.path.join(d, 'verif-stamp.json')
    lines = ['rule cxx', '  command = g++ -std=c++17 %s %s -MMD -MF $out.d -c $in -o $out' % (flags, inc),
             '  depfile = $out.d', '  deps = gcc',
             'rule link', '  command = g++ %s $in -o $out -L%s/lib -Wl,-rpath,%s/lib $libs -lboost_system -lboost_filesystem -lpthread -ldl' % (flags, d, d),
             '']
    every = sorted(f[:-4] for f in os.listdir(os.path.join(HERE, 'harness')) if f.endswith('.cpp'))
    for n in every:
        src = os.path.join(HERE, 'harness', n + '.cpp')
        m = re.search(r'^// LIBS:(.*)$', open(src).read(), re.M)
        libs = m.group(1).split() if m else ['rrl', 'pml', 'rcl', 'rbbl', 'visr', 'efl']
        lines.append('build %s/%s.o: cxx %s' % (h, n, src))
        lines.append('build %s/%s: link %s/%s.o | %s' % (h, n, h, n, ' '.join('%s/lib/lib%s.so' % (d, l) for l in libs if l in LIBS)))
        lines.append('  libs = ' + ' '.join('-l' + l for l in libs))
    nf = os.path.join(h, 'build.ninja')
    text = '\n'.join(lines) + '\n'
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, 'w').write(text)
    logf = os.path.join(BUILD, cfg + '-harness.log')
    open(logf, 'wb').close()
    if sh(['ninja', '-C', h] + ['%s/%s' % (h, n) for n in names], logf):
        raise RuntimeError('monitor build failed for %s:\n%s' % (cfg, tail(logf)))

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def ensure(jobs):
    need = {}
    for j in jobs:
        need.setdefault(j['cfg'], set())
        if 'bin' in j:
            need[j['cfg']].add(j['bin'])
    with Lock():
        hashes = source_hashes()
        for cfg, names in sorted(need.items()):
            build_libs(cfg, hashes)
            if names:
                build_harness(cfg, sorted(names))
    # One tree per configuration is built while the lock is held; running needs no lock.

# ---------------------------------------------------------------- running
def env_for(cfg, job):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4'
    e['LC_ALL'] = 'C'
    e.pop('LD_PRELOAD', None)
    for k, v in job.get('env', {}).items():
        e[k] = v.replace('@BUILD@', os.path.join(BUILD, cfg)).replace('@HERE@', HERE).replace('@REPO@', REPO).replace('@PRELOAD@', preload() if '@PRELOAD@' in v else '')
    return e

def preload():
    # The interpreter is not instrumented, so it has to load the sanitizer runtime (and what that intercepts) first.
    return ' '.join(subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip() for n in ('libasan.so', 'libstdc++.so.6'))

def command(job, seed, tier, scratch):
    if 'py' in job:
        base = [job.get('python', '/usr/bin/python3'), os.path.join(HERE, 'harness', job['py'])]
    else:
        base = [os.path.join(BUILD, job['cfg'], 'h', job['bin'])]
    return base + ['--seed', str(seed), '--mode', job.get('mode', ''), '--tier', tier, '--scratch', scratch]

FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (\S+?)(?::(\d+))?(?::\d+)?(?:\s|$)')

def crash_key(err, rc):
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = 'asan-' + m.group(1)
    m2 = re.search(r'runtime error: (.*)', err)
    if m2 and not m:
        kind = 'ubsan-' + re.sub(r'0x[0-9a-f]+|-?\d[\d.e+-]*|[^\w ]', '', m2.group(1))[:50].strip().replace(' ', '_')
    m3 = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if m3:
        kind = 'tsan-' + m3.group(1).strip().replace(' ', '-')
    m4 = re.search(r'Assertion [`\'](.*?)\' failed', err)
    if m4:
        kind = 'assert-' + re.sub(r'\W+', '_', m4.group(1))[:50]
    if 'terminate called' in err:
        m5 = re.search(r"instance of '([\w:]+)'", err)
        kind = 'terminate-' + (m5.group(1) if m5 else 'unknown')
    if kind is None:
        kind = 'exit-%d' % rc
    where = ''
    for m in FRAME.finditer(err):
        if '/repo/' in m.group(2) or REPO + '/' in m.group(2):
            where = re.sub(r'\(.*', '', m.group(1))
            where = re.sub(r'<.*', '', where)
            break
    if not where:
        m = re.search(r'(?:^|\s)(/\S*?/src/\S+?):\d+', err)
        if m:
            where = os.path.basename(m.group(1))
    return 'crash:%s:%s' % (kind, where)

class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.viols = {}       # key -> record
        self.evals = self.events = self.nviol = 0
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.notes = []
        self.errors = []
        self.planned = 0
        self.truncated = False
        self.hurry = None       # seconds to go on after the first violation
        self.first = None

    def deadline(self, d):
        return d if self.hurry is None or self.first is None else min(d, self.first + self.hurry)

    def viol(self, job, key, case, detail, stderr=''):
        key = job.get('keyprefix', '') + key
        with self.lock:
            self.first = self.first or time.time()
            self.nviol += 1
            if key not in self.viols:
                self.viols[key] = {'key': key, 'job': job, 'case': case, 'detail': detail, 'stderr': stderr[-6000:]}

def run_once(job, seed, tier, scratch, start, stride, cases, only, res, deadline, case_limit):
    """Run one process.  Returns ('done'|'crash'|'hang'|'timeout', case, stderr, rc)."""
    os.makedirs(scratch, exist_ok=True)
    prog = os.path.join(scratch, 'progress')
    outf = os.path.join(scratch, 'out')
    errf = os.path.join(scratch, 'err')
    for f in (prog, outf, errf):
        if os.path.exists(f):
            os.unlink(f)
    work = os.path.join(scratch, 'work')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cmd = command(job, seed, tier, work) + ['--start', str(start), '--stride', str(stride), '--cases', str(cases),
                                            '--progress', prog, '--out', outf]
    if only is not None:
        cmd += ['--only', str(only)]
    with open(errf, 'wb') as ef:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env_for(job['cfg'], job), cwd=work, start_new_session=True)
    last, last_t, status = None, time.time(), 'done'
    def case_now():
        try:
            return int(open(prog).read().split()[0])
        except Exception:
            return start
    while True:
        try:
            p.wait(timeout=0.05 if time.time() - last_t < 2 else 0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        c = case_now()
        if c != last:
            last, last_t = c, now
        if now - last_t > case_limit:
            status = 'hang'
        elif now > res.deadline(deadline):
            status = 'timeout'
        if res.first is None and os.path.exists(outf) and os.path.getsize(outf) > 0 and b'"t":"viol"' in open(outf, 'rb').read(20):
            res.first = now
        if status != 'done':
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    err = tail(errf, 60000)
    ended = False
    try:
        lines = open(outf, errors='replace').read().split('\n')
    except OSError:
        lines = []
    for l in lines:
        try:
            r = json.loads(l)
        except Exception:
            continue
        if r['t'] == 'viol':
            res.viol(job, r['key'], r['case'], r['detail'])
        elif r['t'] == 'end':
            ended = True
            with res.lock:
                res.evals += r['evaluations']
                res.events += r['events']
                for k, v in r['counters'].items():
                    res.counters[k] = res.counters.get(k, 0) + v
                for s in r['samples']:
                    if len(res.samples) < 12:
                        res.samples.append(s)
                res.distinct.update(r['distinct'])
    shutil.rmtree(work, ignore_errors=True)
    if status != 'done':
        return status, case_now(), err, None
    if p.returncode != 0 or not ended:
        return ('error' if p.returncode == 2 and not ended and 'Sanitizer' not in err else 'crash'), case_now(), err, p.returncode
    return 'done', None, err, 0

def run_shard(job, shard, seed, tier, scratch, res, deadline):
    shards, cases = job['shards'], job['cases']
    start, crashes = shard, 0
    limit = job.get('case_limit', 90)
    while start < cases:
        st, case, err, rc = run_once(job, seed, tier, scratch, start, shards, cases, None, res, deadline, limit)
        if st == 'done':
            return
        if st == 'error':
            with res.lock:
                res.errors.append('%s: monitor error: %s' % (job['name'], err[-1500:]))
            return
        if st == 'timeout':
            with res.lock:
                res.truncated = True
                res.notes.append('%s shard %d stopped by the overall time limit at case %s' % (job['name'], shard, case))
            return
        # count what was executed before the crash
        with res.lock:
            res.evals += (case - start) // shards + 1
        if st == 'crash':
            res.viol(job, crash_key(err, rc), case, 'process ended with status %s' % rc, err)
        elif st == 'hang':
            tmp = Result()
            st2, c2, err2, rc2 = run_once(job, seed, tier, scratch + 'h', case, 1, case + 1, case, tmp, time.time() + 2 * limit + 30, 2 * limit)
            if st2 in ('hang', 'timeout'):
                res.viol(job, 'hang', case, 'case makes no progress for %d s, twice' % limit, '')
            elif st2 == 'crash':
                res.viol(job, crash_key(err2, rc2), case, 'process ended with status %s' % rc2, err2)
            else:
                with res.lock:
                    res.notes.append('%s case %d was slow once, finished on a re-run' % (job['name'], case))
                for k, v in tmp.viols.items():
                    res.viols.setdefault(k, v)
        crashes += 1
        start = case + shards
        if crashes >= 6:
            with res.lock:
                res.notes.append('%s shard %d: gave up after %d crashes' % (job['name'], shard, crashes))
            return

def known_findings():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    except FileNotFoundError:
        return []

def run_check(pid):
    import checks
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    chk = checks.CHECKS[pid]
    jobs = []
    for j in chk['jobs']:
        j = dict(j)
        j['cases'] = j['thorough'] if tier == 'thorough' else j['quick']
        if not j['cases']:
            continue
        j['shards'] = min(j.get('shards', 8), j['cases'])
        j['name'] = '%s/%s/%s' % (j['cfg'], j.get('bin', j.get('py')), j.get('mode', ''))
        jobs.append(j)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evf = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(evf):
        os.unlink(evf)
    try:
        ensure(jobs)
    except RuntimeError as ex:
        log(ex)
        print('INCONCLUSIVE property=%s the instrumented tree does not build' % pid)
        return 2
    tb = time.time() - t0
    res = Result()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_SCRATCH') or None)
    budget = 480 if tier == 'quick' else 6 * 3600
    deadline = time.time() + budget
    if tier == 'quick' and not [k for k in known_findings() if k['property'] == pid and k['status'] == 'known']:
        res.hurry = 60
    queue = []
    for j in jobs:
        for s in range(j['shards']):
            queue.append((j, s))
    queue.sort(key=lambda x: (-x[0].get('prio', 0)))
    qlock = threading.Lock()
    def worker(i):
        while True:
            with qlock:
                if not queue:
                    return
                j, s = queue.pop(0)
            try:
                run_shard(j, s, seed, tier, os.path.join(scratch, 'w%d' % i), res, deadline)
            except Exception as ex:
                with res.lock:
                    res.errors.append('%s: driver: %r' % (j['name'], ex))
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(chk.get('parallel', NCPU))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    shutil.rmtree(scratch, ignore_errors=True)
    planned = sum(j['cases'] for j in jobs)
    known, new = [], []
    kf = [k for k in known_findings() if k['property'] == pid and k['status'] == 'known']
    for v in res.viols.values():
        hit = [k for k in kf if re.fullmatch(k['key'], v['key']) and re.search(k.get('detail', ''), v['detail'])]
        (known if hit else new).append((v, hit))
    seen = set()
    for v, hit in known:
        for k in hit:
            if k['id'] not in seen:
                seen.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': res.evals, 'distinct_nontrivial': len(res.distinct), 'rule': chk['rule'],
                       'samples': res.samples or ['(none)'], 'oracle_comparisons': res.events, 'planned_cases': planned,
                       'observed': res.counters, 'jobs': [{'job': j['name'], 'cases': j['cases'], 'sanitizer': j['cfg']} for j in jobs],
                       'truncated': res.truncated, 'notes': res.notes[:20]},
          'assumptions': chk.get('assumptions', []) + ['held on the executions observed; says nothing about paths the workload does not drive'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(evf, 'w'), indent=1)
    if new:
        rd = os.path.join(BUILD, 'replays')
        os.makedirs(rd, exist_ok=True)
        for v, _ in sorted(new, key=lambda x: x[0]['key'])[:8]:
            f = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha1(v['key'].encode()).hexdigest()[:10]))
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'case': v['case'], 'job': v['job'], 'key': v['key'], 'detail': v['detail'],
                       'stderr': v['stderr'], 'rerun': 'python3 run.py --replay ' + f}, open(f, 'w'), indent=1)
            log('--- %s case %s: %s\n    %s' % (v['job']['name'], v['case'], v['key'], v['detail'][:600]))
            if v['stderr']:
                log('    ' + '\n    '.join(v['stderr'].strip().split('\n')[:25]))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    for e in res.errors[:5]:
        log('[error] ' + e)
    if res.errors or res.events == 0 or len(res.distinct) == 0 or res.evals < planned * 0.1:
        print('INCONCLUSIVE property=%s evaluations=%d of %d events=%d errors=%d' % (pid, res.evals, planned, res.events, len(res.errors)))
        return 2
    miss = [k for k in chk.get('require', []) if res.counters.get(k, 0) == 0]
    if miss and not res.truncated:
        print('INCONCLUSIVE property=%s never observed: %s' % (pid, ', '.join(miss)))
        return 2
    print('HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d oracle_comparisons=%d build=%.1fs wall=%.1fs'
          % (pid, tier, seed, res.evals, len(res.distinct), res.events, tb, time.time() - t0))
    return 0

def setup():
    import checks
    jobs = [j for c in checks.CHECKS.values() for j in c['jobs']]
    t0 = time.time()
    try:
        ensure(jobs)
    except RuntimeError as ex:
        log(ex)
        return 1
    log('[setup] %.1f s' % (time.time() - t0))
    return 0

def replay(f):
    r = json.load(open(f))
    ensure([r['job']])
    d = tempfile.mkdtemp(prefix='verif-replay-')
    job = r['job']
    cmd = command(job, r['seed'], r['tier'], d) + ['--start', '0', '--stride', '1', '--cases', str(job['cases']), '--only', str(r['case'])]
    log(' '.join(cmd))
    rc = subprocess.run(cmd, env=env_for(job['cfg'], job), cwd=d).returncode
    shutil.rmtree(d, ignore_errors=True)
    return rc

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == 'setup':
        sys.exit(setup())
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    sys.exit(run_check(a[0]))
