#!/usr/bin/env python3
"""Builds /repo's working tree in the variants a property needs, runs the monitors over all cores,
judges what they report, writes evidence/<id>.json.

  tools/check.py <ID>               quick or thorough, after VERIF_TIER; random choices after VERIF_SEED
  tools/check.py --replay <file>    runs the one recorded case again, verbosely
  tools/check.py --build-all        builds every variant (setup)
Exit 0: held. 1: VIOLATION. 2: the check itself could not give an answer."""
import array, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, BINS, VARIANTS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
WORKERS = 8
LOCALES = {'tr_TR.ISO-8859-9': ('tr_TR', 'ISO-8859-9'), 'de_DE.ISO-8859-1': ('de_DE', 'ISO-8859-1'), 'ru_RU.KOI8-R': ('ru_RU', 'KOI8-R'), 'fa_IR.UTF-8': ('fa_IR', 'UTF-8'), 'fr_FR.UTF-8': ('fr_FR', 'UTF-8')}
ENV = dict(os.environ, LC_ALL='C', LOCPATH=os.path.join(BUILD, 'locales'),
           ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:check_initialization_order=1:strict_string_checks=1:'
                        'max_allocation_size_mb=2048:hard_rss_limit_mb=3200:exitcode=77:allocator_may_return_null=0:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4')


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    for base in ('CMakeLists.txt', 'src', 'cmake'):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as s:
                h.update(s.read())
            h.update(b'\0')
    return h.hexdigest()[:24]


def mon_hash(src):
    h = hashlib.sha256()
    d = os.path.join(HERE, 'mon')
    for f in sorted(os.listdir(d)):
        if f.endswith('.h') or f == src:
            with open(os.path.join(d, f), 'rb') as s:
                h.update(f.encode() + s.read())
    return h.hexdigest()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise Broken('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-6000:]))


def build_lib(variant, tree):
    v = VARIANTS[variant]
    key = hashlib.sha256((tree + repr(sorted(v.items()))).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, key))
    stamp = os.path.join(d, 'done')
    if not os.path.exists(stamp):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        flags = ['-DCMAKE_CXX_FLAGS=' + v['lib']] if v['lib'] else []
        run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_TESTS=OFF',
             '-DCMAKE_CXX_COMPILER=' + v['cxx'], '-DCMAKE_C_COMPILER=' + v['cc']] + flags)
        run(['cmake', '--build', d, '-j', '8'])
        for a in ('src/rel/libexpr_rel.a', 'src/expr/libexpr.a'):
            if not os.path.exists(os.path.join(d, a)):
                raise Broken('the build gave no ' + a)
        open(stamp, 'w').close()
    os.utime(d)
    return d, key


def build_obj(variant, src, tree, extra):
    v = VARIANTS[variant]
    key = hashlib.sha256((tree + mon_hash(src) + v['mon'] + extra).encode()).hexdigest()[:16]
    o = os.path.join(BUILD, 'obj-%s-%s-%s.o' % (variant, src.split('.')[0], key))
    if not os.path.exists(o):
        run([v['cxx'], '-std=c++17', '-Wall', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'mon')] + v['mon'].split() + extra.split() +
            ['-c', os.path.join(HERE, 'mon', src), '-o', o + '.tmp'])
        os.rename(o + '.tmp', o)
    os.utime(o)
    return o


def build_locales():
    """Locales for programs to run in; those which cannot be made are missing in what the monitor counts."""
    d = ENV['LOCPATH']
    os.makedirs(d, exist_ok=True)
    def one(name):
        if not os.path.exists(os.path.join(d, name)):
            t = os.path.join(d, '.' + name)
            shutil.rmtree(t, ignore_errors=True)
            try:
                subprocess.run(['localedef', '-c', '--no-archive', '-i', LOCALES[name][0], '-f', LOCALES[name][1], t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                os.rename(t, os.path.join(d, name))
            except (OSError, subprocess.TimeoutExpired) as e:
                log('no locale', name, e)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, LOCALES))


def build(names):
    """Returns {bin name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if any(BINS[n].get('locales') for n in names):
            build_locales()
        now = time.time()
        entries = sorted((os.path.join(BUILD, e) for e in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
        for e in [e for e in entries if os.path.basename(e).startswith(('lib-', 'obj-', 'bin-'))][44:]:   # disk
            shutil.rmtree(e, ignore_errors=True) if os.path.isdir(e) else os.unlink(e)
        for e in entries:
            if os.path.basename(e).startswith('run-') and os.path.exists(e) and now - os.path.getmtime(e) > 7200:
                shutil.rmtree(e, ignore_errors=True)
        tree = tree_hash()
        with ThreadPoolExecutor(16) as ex:
            libs = {v: ex.submit(build_lib, v, tree) for v in {BINS[n]['variant'] for n in names}}
            objs = {n: ex.submit(build_obj, BINS[n]['variant'], BINS[n]['src'], tree, BINS[n].get('cflags', '')) for n in names}
            libs = {k: f.result() for k, f in libs.items()}
            objs = {k: f.result() for k, f in objs.items()}
        out = {}
        for n in names:
            b = BINS[n]
            v = VARIANTS[b['variant']]
            d, key = libs[b['variant']]
            path = os.path.join(BUILD, 'bin-%s-%s' % (n, hashlib.sha256((key + objs[n] + v['link']).encode()).hexdigest()[:16]))
            if not os.path.exists(path):
                run([v['cxx'], objs[n], os.path.join(d, 'src/rel/libexpr_rel.a'), os.path.join(d, 'src/expr/libexpr.a'), '-pthread'] +
                    (b.get('link') or v['link']).split() + ['-o', path + '.tmp'])
                os.rename(path + '.tmp', path)
            os.utime(path)
            out[n] = path
        return out


# ---------------------------------------------------------------- running

def limits(plain, space=3 << 30):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 8 << 20
        if hard == resource.RLIM_INFINITY or hard >= want:
            resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        if plain:
            resource.setrlimit(resource.RLIMIT_AS, (space, space))
    return f


class Job:
    def __init__(self, stage, bins, args, rundir, tag):
        self.stage, self.tag = stage, tag
        self.status = os.path.join(rundir, tag + '.status')
        self.out = os.path.join(rundir, tag + '.json')
        self.hashes = os.path.join(rundir, tag + '.hashes')
        self.err = os.path.join(rundir, tag + '.err')
        self.cmd = (['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--num-callers=20'] if stage.get('valgrind') else []) + \
            [bins[stage['bin']], '--out', self.out, '--status', self.status, '--hashes', self.hashes] + args
        self.variant = BINS[stage['bin']]['variant']
        self.last = (None, time.time())
        self.hung = False

    def start(self):
        for f in (self.status, self.out, self.hashes):
            if os.path.exists(f):
                os.unlink(f)
        with open(self.err, 'wb') as e:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=ENV, start_new_session=True,
                                      preexec_fn=limits(self.variant in ('plain', 'ub') and not self.stage.get('valgrind'), self.stage.get('address_space', 3 << 30)))
        self.t0 = time.time()
        self.last = (None, self.t0)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def where(self):
        """(case index or None, text of what was running)"""
        try:
            with open(self.status, 'rb') as f:
                b = f.read()
            i = int.from_bytes(b[:8], 'little')
            return i, b[16:].split(b'\0')[0].decode('latin1')
        except OSError:
            return None, ''

    def finished(self):
        return self.where()[0] == (1 << 64) - 1

    def stderr(self, n=5000):
        with open(self.err, 'rb') as f:
            b = f.read().decode('utf8', 'replace')
        return b if len(b) <= n else b[:n * 3 // 4] + '\n...\n' + b[-n // 4:]


def supervise(jobs, stall, deadline):
    """Runs all jobs at once until they end; one that makes no progress for `stall` seconds is stopped (hung)."""
    for j in jobs:
        j.start()
    live = list(jobs)
    late = False
    while live:
        time.sleep(0.05)
        now = time.time()
        for j in list(live):
            if j.p.poll() is not None:
                live.remove(j)
                continue
            w = j.where()[0]
            # progress: another case, or another announced step of it
            try:
                with open(j.status, 'rb') as f:
                    mark = hashlib.md5(f.read()).digest()
            except OSError:
                mark = None
            if mark != j.last[0]:
                j.last = (mark, now)
            elif now - j.last[1] > stall:
                j.hung = True
                j.kill()
                live.remove(j)
            elif now > deadline:
                late = True
                j.late = True
                j.kill()
                live.remove(j)
    return late


def case_args(stage, seed, thorough):
    return ['--prop', stage['prop'], '--seed', str(seed)] + (['--thorough'] if thorough else [])


def run_stage(pid, stage, bins, seed, thorough, rundir, no, deadline):
    """Returns (result dict, [violations])"""
    n = stage['thorough'] if thorough else stage['quick']
    seed = seed + stage.get('seed_shift', 0)
    if stage['bin'] == 'fuzz':
        return run_fuzz(pid, stage, bins, seed, thorough, rundir, no, deadline, n)
    base = case_args(stage, seed, thorough)
    first = stage.get('first', 0)
    workers = min(stage.get('workers', WORKERS), n)
    jobs = [Job(stage, bins, base + ['--first', str(first), '--cases', str(n), '--worker', str(w), '--workers', str(workers)], rundir, 's%dw%d' % (no, w)) for w in range(workers)]
    stall = 150 if stage.get('valgrind') else 60
    late = supervise(jobs, stall, deadline)
    res = {'cases': 0, 'evaluations': 0, 'counters': {}, 'samples': [], 'capped': False, 'hashes': set(), 'late': late}
    viol = []
    for j in jobs:
        if getattr(j, 'late', False):
            continue
        rc = j.p.returncode
        idx, text = j.where()
        if not j.hung and rc in (0, 1) and j.finished():
            with open(j.out) as f:
                d = json.load(f)
            with open(j.hashes, 'rb') as f:
                a = array.array('Q')
                a.frombytes(f.read())
            res['hashes'].update(a)
            res['cases'] += d['cases']
            res['evaluations'] += d['evaluations']
            res['capped'] |= d['capped']
            res['samples'] += d['samples'][:1]
            for k, v in d['counters'].items():
                res['counters'][k] = max(res['counters'].get(k, 0), v) if k.startswith(('most', 'longest', 'largest', 'highest', 'max')) else res['counters'].get(k, 0) + v
            for v in d['violations']:
                viol.append(dict(v, stage=stage, seed=seed))
            continue
        if not j.hung and rc == 2:
            raise Broken('monitor reported a problem of its own: ' + j.stderr())
        err = j.stderr()
        if 'FATAL: ThreadSanitizer' in err or 'ThreadSanitizer: unexpected memory mapping' in err:
            raise Broken('ThreadSanitizer cannot run here: ' + err)
        if idx is None or idx == (1 << 64) - 1:
            if j.hung or idx is None:
                raise Broken('the monitor died before its first case (%s): %s' % (rc, err))
            viol.append({'idx': -1, 'key': 'crash-at-exit', 'detail': 'the process ended with status %s after its last case\n%s' % (rc, err), 'stage': stage, 'seed': seed})
            continue
        if j.hung and any(v['key'] == 'hang' for v in viol):
            continue   # one that was confirmed is enough
        # crashed or hung in case idx: once more, alone
        k = Job(stage, bins, base + ['--only', str(idx)], rundir, 's%dalone' % no)
        supervise([k], 1.5 * stall, time.time() + 2 * stall)
        again = 'hang' if k.hung else 'status %s' % k.p.returncode
        if j.hung:
            if k.hung:
                viol.append({'idx': idx, 'key': 'hang', 'detail': 'no progress for %d s (and again alone) in: %s' % (stall, text), 'stage': stage, 'seed': seed})
            else:
                log('case %d made no progress for %d s but ends when run alone (%s)' % (idx, stall, again))
                res['late'] = True
                if k.p.returncode == 1:
                    with open(k.out) as f:
                        viol += [dict(v, stage=stage, seed=seed) for v in json.load(f)['violations']]
            continue
        if rc == -signal.SIGKILL and not k.hung and k.p.returncode in (0, 1):
            raise Broken('a monitor was killed from outside (memory?) in case %d' % idx)
        viol.append({'idx': idx, 'key': 'crash', 'detail': 'the process ended with status %s in: %s\n%s\n(the case alone: %s)' % (rc, text, err, again), 'stage': stage, 'seed': seed})
    return res, viol


def run_fuzz(pid, stage, bins, seed, thorough, rundir, no, deadline, n):
    procs = []
    for w in range(WORKERS):
        d = os.path.join(rundir, 'fuzz%d_%d' % (no, w))
        os.makedirs(os.path.join(d, 'corpus'))
        art = os.path.join(d, 'art-')
        e = open(os.path.join(d, 'err'), 'wb')
        cmd = [bins['fuzz'], '-runs=%d' % (n // WORKERS), '-seed=%d' % (seed * 1000 + w + 1), '-max_len=400', '-timeout=100', '-rss_limit_mb=3000',
               '-artifact_prefix=' + art, '-print_final_stats=1', '-detect_leaks=0', os.path.join(d, 'corpus')]
        if thorough:
            cmd.insert(1, '-max_total_time=%d' % max(30, int(deadline - time.time() - 20)))
        procs.append((d, subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=dict(ENV, FUZZ_PROP=stage['prop']), preexec_fn=limits(False), start_new_session=True)))
    res = {'cases': 0, 'evaluations': 0, 'counters': {}, 'samples': [], 'capped': False, 'hashes': set(), 'late': False}
    viol = []
    for w, (d, p) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            res['late'] = True
            continue
        with open(os.path.join(d, 'err'), 'rb') as f:
            err = f.read().decode('utf8', 'replace')
        m = re.search(r'number_of_executed_units: (\d+)', err)
        if m:
            res['evaluations'] += int(m.group(1))
            res['cases'] += int(m.group(1))
        covs = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', err)
        if covs:
            res['counters']['most edges covered by one fuzzer'] = max(res['counters'].get('most edges covered by one fuzzer', 0), int(covs[-1][0]))
            res['counters']['corpus units kept'] = res['counters'].get('corpus units kept', 0) + int(covs[-1][2])
        if rc == 0:
            continue
        arts = [a for a in os.listdir(d) if a.startswith('art-')]
        if not arts:
            raise Broken('a fuzzer ended with status %d: %s' % (rc, err[-3000:]))
        if any(a.startswith('art-slow-unit') for a in arts) and len(arts) == 1:
            continue
        a = [x for x in arts if not x.startswith('art-slow-unit')][0]
        with open(os.path.join(d, a), 'rb') as f:
            data = f.read()
        # once more, alone: a time-out on a loaded machine is no violation
        q = subprocess.run([bins['fuzz'], '-timeout=300', '-rss_limit_mb=3000', '-detect_leaks=0', os.path.join(d, a)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(ENV, FUZZ_PROP=stage['prop']), preexec_fn=limits(False))
        if q.returncode == 0:
            if a.startswith(('art-timeout', 'art-oom')):
                log('a fuzzer input counted as %s does not fail alone' % a)
                continue
        body = [l for l in err.splitlines() if 'REDUCE' not in l and 'NEW' not in l and not l.startswith('INFO')]
        viol.append({'idx': -1, 'key': 'fuzz-' + a.split('-')[1], 'detail': 'input ' + data.hex() + '\n' + '\n'.join(body)[:5000], 'stage': stage, 'seed': seed, 'input': data.hex()})
    return res, viol


# ---------------------------------------------------------------- findings, evidence

def known_findings():
    """Lines 'finding: property=<id> match=<regular expression over key and detail> what=<text>' ('fixed:' lines suppress nothing)."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+match=(\S+)\s+what=(.*)$', l)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def replay_file(pid, v, tier):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    st = v['stage']
    rec = {'property': pid, 'bin': st['bin'], 'prop': st['prop'], 'valgrind': bool(st.get('valgrind')), 'seed': v['seed'], 'tier': tier, 'case': v['idx'], 'key': v['key'],
           'detail': v['detail'], 'again': 'python3 /verif/tools/check.py --replay <this file>'}
    if 'input' in v:
        rec['input'] = v['input']
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
        f.write('\n')
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    bins = build([rec['bin']])
    if rec['bin'] == 'fuzz':
        with tempfile.NamedTemporaryFile(dir=BUILD, suffix='.bin') as t:
            t.write(bytes.fromhex(rec['input']))
            t.flush()
            return subprocess.run([bins['fuzz'], t.name], env=dict(ENV, FUZZ_PROP=rec['prop'])).returncode and 1
    if rec['case'] < 0:
        print(rec['detail'])
        return 2
    rc = subprocess.run((['valgrind', '-q', '--error-exitcode=99'] if rec['valgrind'] else []) +
                        [bins[rec['bin']], '--prop', rec['prop'], '--seed', str(rec['seed']), '--only', str(rec['case']), '--workers', '8', '--verbose'] +
                        (['--thorough'] if rec['tier'] == 'thorough' else []), env=ENV, preexec_fn=limits(False)).returncode
    print('replay ended with status', rc)
    return 1 if rc else 0


def main():
    if sys.argv[1:2] == ['--build-all']:
        build(sorted(BINS))
        return 0
    if sys.argv[1:2] == ['--replay']:
        return replay(sys.argv[2])
    pid = sys.argv[1]
    plan = PLAN[pid]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    thorough = tier == 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ['VERIF_SEED'].encode()).digest()[:4], 'little')
    seed = abs(seed)
    t0 = time.time()
    evidence = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    stages = [s for s in plan['stages'] if (s['thorough'] if thorough else s['quick'])]
    bins = build(sorted({s['bin'] for s in stages}))
    built = time.time() - t0
    budget = float(os.environ.get('VERIF_BUDGET') or (5400 if thorough else 600))
    deadline = time.time() + budget
    rundir = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    allh, evals, samples, stagecov, viol, capped = set(), 0, [], [], [], False
    try:
        for no, st in enumerate(stages):
            ts = time.time()
            if ts > deadline:
                break
            res, vs = run_stage(pid, st, bins, seed, thorough, rundir, no, deadline)
            viol += vs
            evals += res['evaluations']
            allh |= res['hashes']
            capped |= res['capped']
            samples += [st['bin'] + ': ' + s for s in res['samples'][:3]]
            stagecov.append({'monitor': st['bin'] + '/' + st['prop'] + (' under memcheck' if st.get('valgrind') else ''), 'instrumentation': VARIANTS[BINS[st['bin']]['variant']]['what'] + (', valgrind memcheck' if st.get('valgrind') else ''),
                             'cases': res['cases'], 'evaluations': res['evaluations'], 'distinct': len(res['hashes']), 'observed': res['counters'],
                             'cut short': bool(res['late']), 'wall_s': round(time.time() - ts, 2)})
            if not vs and not res['evaluations']:
                raise Broken('stage %s observed nothing' % st['bin'])
            if vs:
                break
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    for want in plan.get('must_see', []):
        if not viol and not any(want in k for s in stagecov for k in s['observed']):
            raise Broken('the run never observed "%s"' % want)
    fresh, hit = [], {}
    for v in viol:
        for fp, rx, what in known_findings():
            if fp == pid and rx.search(v['key'] + '\n' + v['detail']):
                hit[what] = v
                break
        else:
            fresh.append(v)
    cov = {'evaluations': evals, 'distinct_nontrivial': len(allh), 'rule': plan['rule'] + (' (Counting of distinct cases stopped at a full table in some process: a lower bound.)' if capped else ''),
           'samples': samples[:8] or ['none'], 'stages': stagecov, 'build_s': round(built, 2), 'processes': WORKERS}
    rec = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': plan['assumptions'],
           'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(evidence, 'w') as f:
        json.dump(rec, f, indent=1)
        f.write('\n')
    for what in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if fresh:
        v = fresh[0]
        path = replay_file(pid, v, tier)
        print('%s: %s\n%s' % (pid, v['key'], v['detail'][:4000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s held: %d executions judged, %d distinct, %.1f s (build %.1f s)' % (pid, evals, len(allh), time.time() - t0, built))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        log('CHECK-ERROR', e)
        sys.exit(2)
