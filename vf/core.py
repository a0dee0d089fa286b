"""Runs a check: builds the tree, hands cases to worker processes, collects verdicts, writes evidence.

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 with VIOLATION lines, exit 3
(inconclusive: too little was observed, or the machinery itself failed).
"""
import hashlib, importlib, json, os, re, select, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class RepoError(Exception):
    """The code under test failed on an input for which it has to deliver"""
    def __init__(self, what, exc):
        super().__init__('%s: %s: %s' % (what, type(exc).__name__, str(exc)[:300]))
        self.mech = 'exception:%s' % type(exc).__name__
        self.what = what


def call(what, fn, *a, **k):
    """Call the code under test. Any exception is its failure"""
    try:
        return fn(*a, **k)
    except RepoError:
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, MemoryError):
            raise
        raise RepoError(what, e)


class Obs:
    """What one case observed"""
    def __init__(self):
        self.viol, self.stats, self.events, self.nontrivial, self.key, self.sample = [], {}, 0, False, None, None
        self.keys = []

    def bad(self, mech, msg):
        if len(self.viol) < 10:
            self.viol.append([mech, str(msg)[:600]])

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + int(n)

    def event(self, n=1):
        self.events += int(n)

    def case(self, nontrivial, *parts):
        """One evaluated input: `parts` identify it"""
        self.events += 1
        if nontrivial:
            self.nontrivial = True
            self.keys.append(digest(*parts))


def digest(*parts):
    import numpy as np
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str((p.shape, p.dtype.str)).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
        h.update(b'|')
    return h.hexdigest()


# ------------------------------------------------------------------------------------- worker side

def worker_main(check_id, tree):
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    log = os.open(os.environ['VF_LOG'], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(log, 1)
    if not os.environ.get('VF_KEEP_STDERR'):
        os.dup2(log, 2)
    os.close(log)
    sys.path.insert(0, tree)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('vf.checks.' + check_id.lower())
    if getattr(mod, 'NEEDS_MALSTROEM', True):
        try:
            import malstroem
            from malstroem.algorithms import speedups
        except Exception as e:
            proto.write(json.dumps({'fatal': 'import failed: %r' % e}) + '\n')
            return
        assert os.path.abspath(malstroem.__file__).startswith(os.path.abspath(tree)), malstroem.__file__
        if not speedups.available:
            proto.write(json.dumps({'fatal': 'native extensions do not load: %s' %
                                    getattr(speedups, 'import_error_msg', None)}) + '\n')
            return
    proto.write(json.dumps({'ready': 1}) + '\n')
    scratch = os.environ['VF_SCRATCH']
    for line in sys.stdin:
        case = json.loads(line)
        o = Obs()
        err = None
        d = tempfile.mkdtemp(prefix='case-', dir=scratch)
        try:
            mod.run_case(case, o, d)
        except RepoError as e:
            o.bad(e.mech, str(e))
        except Exception:
            err = traceback.format_exc()[-3000:]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        proto.write(json.dumps({'viol': o.viol, 'stats': o.stats, 'events': o.events, 'keys': o.keys,
                                'sample': o.sample, 'err': err}) + '\n')


# ------------------------------------------------------------------------------------- parent side

class Worker:
    def __init__(self, check_id, tree, run_dir, n, extra_env=None):
        self.scratch = os.path.join(run_dir, 'w%d' % n)
        os.makedirs(self.scratch, exist_ok=True)
        self.log = os.path.join(run_dir, 'w%d.log' % n)
        env = worker_env(self.scratch)
        env['VF_LOG'] = self.log
        env.update(extra_env or {})
        self.p = subprocess.Popen([PY, '-m', 'vf.worker', check_id, tree], cwd=self.scratch, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  start_new_session=True)
        self.buf = b''
        self.case = None
        self.ready = False
        self.t0 = time.time()
        self.cpu0 = 0.0

    def send(self, case):
        self.case = case
        self.t0 = time.time()
        self.cpu0 = self.cpu()
        try:
            self.p.stdin.write(json.dumps(case[0]).encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                x = f.read().rsplit(')', 1)[1].split()
            return (int(x[11]) + int(x[12]) + int(x[13]) + int(x[14])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            return 0.0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass

    def log_tail(self, n=3000):
        try:
            with open(self.log, 'rb') as f:
                return f.read()[-n:].decode('utf-8', 'replace')
        except OSError:
            return ''


def worker_env(scratch):
    keep = ('PATH', 'LANG', 'LC_ALL', 'HOME')
    env = {k: os.environ[k] for k in keep if k in os.environ}
    tmp = os.path.join(scratch, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    env.update(PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PROJ_NETWORK='OFF', TMPDIR=tmp, VF_SCRATCH=scratch)
    return env


def load_findings():
    """[(property, mechanism, text)] of the known findings which are not repaired"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) mechanism=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


class Result:
    def __init__(self):
        self.events = 0
        self.cases = 0
        self.keys = set()
        self.stats = {}
        self.samples = []
        self.viol = []          # (mech, msg, case)
        self.errors = []
        self.skipped = 0
        self.hung = 0


def run_cases(check_id, tree, cases, nworkers, cpu_limit, deadline, extra_env=None, res=None,
              crash_reader=None, wall_factor=6, max_viol=40):
    """Distribute the cases. Crashes and endless loops are confirmed by running the case again."""
    res = res or Result()
    run_dir = tempfile.mkdtemp(prefix='vf-')
    pending = [(c, 0) for c in reversed(cases)]
    workers, seq = [], 0
    try:
        nworkers = max(1, min(nworkers, len(pending)))
        for _ in range(nworkers):
            workers.append(Worker(check_id, tree, run_dir, seq, extra_env))
            seq += 1
        tries = {}

        def replace(w):
            nonlocal seq
            w.kill()
            workers.remove(w)
            shutil.rmtree(w.scratch, ignore_errors=True)
            workers.append(Worker(check_id, tree, run_dir, seq, extra_env))
            seq += 1

        while True:
            busy = [w for w in workers if w.case is not None or not w.ready]
            if not busy and (not pending or time.time() > deadline or len(res.viol) >= max_viol):
                break
            rl, _, _ = select.select([w.p.stdout for w in workers], [], [], 1.0)
            for w in list(workers):
                if w.p.stdout in rl:
                    chunk = os.read(w.p.stdout.fileno(), 1 << 16)
                    if not chunk:
                        w.p.wait()
                        rc = w.p.returncode
                        case = w.case
                        if case is None:
                            res.errors.append('worker died before work: rc %s %s' % (rc, w.log_tail()))
                            return res
                        c, n = case
                        what = crash_reader(w) if crash_reader else None
                        if what:
                            res.viol.append((what[0], what[1], c))
                        elif rc == -signal.SIGKILL:
                            res.errors.append('worker was killed (memory?)')
                        elif n < 1:
                            pending.append((c, n + 1))
                        else:
                            res.viol.append(('crash:signal%d' % -rc if rc < 0 else 'crash:exit%d' % rc,
                                             'the process running the code ended (%s) %s' % (rc, w.log_tail(600)), c))
                        replace(w)
                        continue
                    w.buf += chunk
                    while b'\n' in w.buf:
                        line, w.buf = w.buf.split(b'\n', 1)
                        m = json.loads(line)
                        if 'fatal' in m:
                            res.errors.append(m['fatal'])
                            return res
                        if 'ready' in m:
                            w.ready = True
                            continue
                        c, n = w.case
                        w.case = None
                        if m['err']:
                            res.errors.append('case %s: %s' % (json.dumps(c)[:300], m['err']))
                            if len(res.errors) > 5:
                                return res
                            continue
                        res.cases += 1
                        res.events += m['events']
                        res.keys.update(m['keys'])
                        for k, x in m['stats'].items():
                            if k.startswith('max_'):
                                res.stats[k] = max(res.stats.get(k, 0), x)
                            else:
                                res.stats[k] = res.stats.get(k, 0) + x
                        if m['sample'] is not None and len(res.samples) < 6:
                            res.samples.append(m['sample'])
                        for mech, msg in m['viol']:
                            res.viol.append((mech, msg, c))
                if w in workers and w.ready and w.case is None and pending and time.time() < deadline \
                        and len(res.viol) < max_viol:
                    w.send(pending.pop())
                elif w in workers and w.case is not None:
                    wall = time.time() - w.t0
                    c, n = w.case
                    lim = c.get('cpu', cpu_limit) if isinstance(c, dict) else cpu_limit
                    if wall > 5 and w.cpu() - w.cpu0 > lim:
                        if n < 1:
                            pending.append((c, n + 1))
                        else:
                            res.viol.append(('hang', 'no result after %d CPU seconds' % lim, c))
                        res.hung += 1
                        replace(w)
                    elif wall > lim * wall_factor:
                        res.errors.append('watchdog: no result after %d s wall, case %s' % (wall, json.dumps(w.case[0])[:300]))
                        replace(w)
                elif w in workers and not w.ready and time.time() - w.t0 > 120:
                    res.errors.append('worker does not start: %s' % w.log_tail())
                    return res
        res.skipped += len(pending)
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(run_dir, ignore_errors=True)
    return res


def main(check_id, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import build
    mod = importlib.import_module('vf.checks.' + check_id.lower())
    try:
        trees = build.build(getattr(mod, 'VARIANTS', ('rel',)))
    except build.BuildError as e:
        print('INCONCLUSIVE property=%s the tree does not build: %s' % (check_id, e))
        return 3
    budget = float(os.environ.get('VF_BUDGET', 150 if tier == 'quick' else getattr(mod, 'THOROUGH_S', 1500)))
    deadline = time.time() + budget
    nw = int(os.environ.get('VF_WORKERS', '8'))
    cpu = getattr(mod, 'CPU_LIMIT', 60)
    if hasattr(mod, 'run_all'):
        res = mod.run_all(trees, seed, tier, deadline, nw)
    else:
        cases = mod.cases(seed, tier)
        res = run_cases(check_id, trees[getattr(mod, 'VARIANTS', ('rel',))[0]], cases, nw, cpu, deadline)
    return finish(check_id, mod, res, tier, seed, t0)


def finish(check_id, mod, res, tier, seed, t0):
    known = [f for f in load_findings() if f[0] == check_id]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    new, seen_known, seen = [], {}, {}
    for mech, msg, case in res.viol:
        k = next((f for f in known if f[1] == mech), None)
        if k:
            seen_known[mech] = seen_known.get(mech, 0) + 1
            continue
        seen[mech] = seen.get(mech, 0) + 1
        if seen[mech] <= 3:
            new.append((mech, msg, case))
    for prop, mech, text in known:
        if seen_known.get(mech):
            print('KNOWN-FINDING: property=%s %s (mechanism %s, seen %d times)' % (check_id, text, mech, seen_known[mech]))
        elif getattr(mod, 'LIST_KNOWN', True):
            print('KNOWN-FINDING: property=%s %s (mechanism %s, not met in this run)' % (check_id, text, mech))
    for i, (mech, msg, case) in enumerate(new[:12]):
        p = os.path.join(VERIF, 'replays', '%s-%d.json' % (check_id, i))
        with open(p, 'w') as f:
            json.dump(dict(property=check_id, mechanism=mech, message=msg, case=case, seed=seed, tier=tier), f)
        print('VIOLATION property=%s replay=%s' % (check_id, p))
        print('    %s: %s' % (mech, msg.replace('\n', ' ')[:500]))
    cov = dict(evaluations=res.events, distinct_nontrivial=len(res.keys), rule=mod.RULE, cases=res.cases,
               samples=res.samples[:6] or ['(none)'], observed=res.stats, skipped_for_time=res.skipped,
               known_findings_seen=seen_known)
    ev = dict(property=check_id, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(res.viol) - sum(seen_known.values()))
    text = json.dumps(ev, indent=1, default=str)
    if len(text) > 60000:
        cov['samples'] = [str(s)[:1000] for s in cov['samples'][:3]]
        text = json.dumps(ev, indent=1, default=str)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check_id + '.json'), 'w') as f:
        f.write(text)
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d cases, %s, %.1f s' % (
        check_id, tier, seed, res.events, len(res.keys), res.cases, res.stats, time.time() - t0))
    if new:
        return 1
    need = getattr(mod, 'MIN_EVENTS', 50)
    missing = [k for k in getattr(mod, 'MUST_OBSERVE', []) if not res.stats.get(k)]
    if res.errors:
        print('INCONCLUSIVE property=%s harness: %s' % (check_id, '\n'.join(res.errors[:3])))
        return 3
    if res.events < need or missing:
        print('INCONCLUSIVE property=%s observed too little: %d evaluations, missing %s' % (check_id, res.events, missing))
        return 3
    print('HELD property=%s' % check_id)
    return 0


def replay(path):
    from . import build
    r = json.load(open(path))
    mod = importlib.import_module('vf.checks.' + r['property'].lower())
    trees = build.build(getattr(mod, 'VARIANTS', ('rel',)))
    if hasattr(mod, 'replay'):
        res = mod.replay(trees, r)
    else:
        res = run_cases(r['property'], list(trees.values())[0], [r['case']], 1, getattr(mod, 'CPU_LIMIT', 60) , time.time() + 600)
    for mech, msg, case in res.viol:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        print('   ', mech, msg)
    for e in res.errors:
        print(e)
    return 1 if res.viol else 0
