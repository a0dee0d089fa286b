"""C34: a run that is killed or interrupted harms nothing and does not pass for a finished one"""
import gc, os, resource, shutil, signal, sqlite3, sys, tempfile, time
import numpy as np
from vf import gen, pipe, cli
from vf.checks import c23
from vf.checks.c26 import Window, Cmd, forked, traced, limit

RULE = ('every command ended at enumerated points: on any line of malstroem it passes (killed, terminated, interrupted), at random times within native code (killed, interrupted), within the write that crosses a chosen size (killed by the kernel), writing to new outputs and '
        'to GeoPackage or SQLite files which hold layers of earlier runs; all inputs and earlier layers compared before and after, temporary directory listed after interrupts, another run in the same process after interrupts, the command started over on what a killed one left; non-trivial: the '
        'run was ended early; distinct by command, way and point')
KINDS = ['line_kill', 'line_term', 'line_int', 'time_kill', 'time_int', 'write_kill']
MUST_OBSERVE = KINDS + ['ended_early', 'finished', 'inputs', 'earlier_layers', 'started_over', 'added_layer', 'after_interrupt', 'listed', 'used_outdir', 'commands', 'complete']
MIN_EVENTS = 400
CPU_LIMIT = 240


def cases(seed, tier):
    k = 1 if tier == 'quick' else 20
    out = []
    for i in range(24 * k):
        out.append(dict(t='chain', seed=seed * 1000003 + i, n=10 if tier == 'quick' else 40, part=i % 8))
    for i in range(6 * k):
        out.append(dict(t='complete', seed=seed * 1000003 + i, n=14 if tier == 'quick' else 60))
    return out


class At(Window):
    """Sends a signal to this process when line number a runs"""

    def __init__(self, a, sig):
        Window.__init__(self, a, None)
        self.sig = sig

    def line(self, fr, ev, arg):
        if ev == 'line':
            self.n += 1
            if self.n == self.a:
                os.kill(os.getpid(), self.sig)
        return self.line


def run_case(case, o, d):
    rng = np.random.default_rng([case['seed'], 34])
    z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES + ['white', 'pits', 'white'])), shape=[int(x) for x in rng.integers(8, 45, 2)], scale='unit'))
    b = os.path.join(d, 'base')
    os.makedirs(b)
    dem = cli.write_tif(os.path.join(b, 'dem.tif'), z)
    fmt = str(rng.choice(['gpkg', 'gpkg', 'SQLite', 'GeoJSON']))
    mm, res = float(rng.choice([5, 20, 100])), float(rng.choice([.1, .5]))
    filt = pipe.FILTERS[int(rng.integers(len(pipe.FILTERS)))] if rng.random() < .3 else None
    cli.write_tif(os.path.join(b, 'rain.tif'), (rng.random(z.shape) * 50).astype('f4'))
    st = c23.steps(b, dem, fmt, mm, res, filt)
    if case['t'] == 'complete':
        st = [s for s in st if s[0] == 'complete']
        os.makedirs(os.path.join(b, 'outdir'))
    else:
        st = [s for s in st if s[0] != 'complete']
    todo = []
    for k, (name, args, outs) in enumerate(st):
        c = Cmd(name, args, outs, b)
        t = time.time()
        cli.ok(c.argv(lambda n: os.path.join(b, n)))
        c.time = time.time() - t
        if case['t'] == 'complete' or k % 8 == case['part']:
            todo.append(c.reference())
    for c in todo:
        o.count('commands')
        o.count('complete', c.name == 'complete')
        w = Window()
        c.lines = forked(lambda: traced(c, d, w))
        for k in range(case['n']):
            end(o, c, d, b, rng, KINDS[k % len(KINDS)], fmt, '%d' % k)


def old_layers(c, b, out, fmt, rng):
    """Earlier layers in the data source to be written to"""
    ext = {os.path.splitext(x[0])[1] for x in c.outs if isinstance(x, tuple)}
    if not ext or not ext <= {'.gpkg', '.sqlite'} or rng.random() < .25:
        return None
    e = ext.pop()
    n = c.outs[0][0]
    have = [x for x in os.listdir(b) if x.endswith(e) and x != n]
    if not have:
        return None
    src = os.path.join(b, sorted(have)[int(rng.integers(len(have)))])
    p = os.path.join(out, n)
    shutil.copy(src, p)
    mine = {x[1] for x in c.outs}
    names = [x for x in cli.layers(p) if x not in mine]
    return (p, {x: c23.content((p, x)) for x in names}) if names and len(names) == len(cli.layers(p)) else os.remove(p)


def end(o, c, d, b, rng, kind, fmt, key):
    out = os.path.join(d, 'out')
    tmp = os.path.join(d, 'tmp')
    for p in (out, tmp):
        os.makedirs(p)
    q = lambda n: os.path.join(out, n)
    if c.name == 'complete':
        os.makedirs(q('outdir'))
    earlier = old_layers(c, b, out, fmt, rng)
    at = c.lines['at']
    a = int(at[int(rng.integers(len(at)))]) if rng.random() < .7 else int(rng.integers(1, c.lines['n'] + 1))
    fs = sorted(c.files().values())
    L = int(rng.integers(0, max(fs[-1], 1) + 1))
    if earlier:
        L = os.path.getsize(earlier[0]) - 8192 + int(rng.integers(0, 80000))
    T = max(.002, float(rng.random()) * 1.1 * c.time)
    point = dict(line=a, time=None, write=L)[kind.split('_')[0]]
    text = '%s (%s, %s%s)' % (c.name, kind, point if point is not None else '%.3f s of %.3f s' % (T, c.time), ', earlier layers' if earlier else '')

    def go():
        os.environ['TMPDIR'] = tmp
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        tempfile.tempdir = None
        for s in (signal.SIGTERM, signal.SIGXFSZ, signal.SIGALRM):
            signal.signal(s, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        tr = None
        if kind.startswith('line'):
            tr = At(a, dict(line_kill=signal.SIGKILL, line_term=signal.SIGTERM, line_int=signal.SIGINT)[kind])
        elif kind == 'write_kill':
            limit(L)
        elif kind == 'time_int':
            signal.signal(signal.SIGALRM, signal.default_int_handler)
        hit = False
        code, txt, exc = None, '', None
        try:
            try:
                if kind.startswith('time'):
                    signal.setitimer(signal.ITIMER_REAL, T)
                if tr:
                    sys.settrace(tr)
                code, txt, exc = cli.run(c.argv(q))
            finally:
                sys.settrace(None)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except KeyboardInterrupt:
            # met outside the command
            code, hit = code if code is not None else 130, True
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        limit(None)
        r = dict(code=code, exc=repr(exc)[:200] if exc else '')
        exc = None
        gc.collect()
        if kind == 'line_int' and not hit:
            r['left'] = os.listdir(tmp)
        if code == 0:
            r['bad'] = c.verdict(out)[0]
        if kind.endswith('int'):
            # the same process goes on working
            os.makedirs(os.path.join(d, 'next', 'outdir'))
            k, txt, exc = cli.run(c.argv(lambda n: os.path.join(d, 'next', n)))
            r['next'] = 'status %s %s' % (k, repr(exc)[:150]) if k else c.verdict(os.path.join(d, 'next'))[0]
        return r
    before = cli.tree_digest(b)
    r = forked(go, 60)
    if 'harness' in r:
        raise RuntimeError('%s: %s' % (text, r['harness']))
    o.event()
    o.count(kind)
    after = cli.tree_digest(b)
    if 'hang' in r:
        o.bad('hang:' + c.name, '%s does not end' % text)
    early = 'signal' in r or r.get('code') != 0
    o.count('ended_early' if early else 'finished')
    if r.get('code') == 0 and r.get('bad'):
        o.bad('success:' + c.name, '%s: status zero, but output %s' % (text, r['bad']))
    if r.get('signal') in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
        o.bad('crash:' + c.name, '%s: ended by signal %d' % (text, r['signal']))
    if before != after:
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        o.bad('inputs:' + c.name, '%s: changed %s' % (text, ch[:5]))
    o.count('inputs')
    if r.get('left'):
        o.bad('left:' + c.name, '%s: left %s in the temporary directory' % (text, r['left'][:5]))
    o.count('listed', 'left' in r)
    if 'next' in r:
        o.count('after_interrupt', early)
        if r['next']:
            o.bad('next:' + c.name, '%s: the next run in the process: %s' % (text, r['next']))
    if earlier:
        # SQLite undoes a write cut short when the file is next opened for writing
        db = sqlite3.connect(earlier[0])
        try:
            db.execute('select count(*) from sqlite_master').fetchall()
        except sqlite3.Error as e:
            o.bad('earlier:' + c.name, '%s: the data source of earlier runs is broken: %r' % (text, e))
        db.close()
        for n, want in earlier[1].items():
            try:
                got = c23.content((earlier[0], n))
            except Exception as e:
                got = repr(e)[:150]
            if got != want:
                o.bad('earlier:' + c.name, '%s: layer %s of an earlier run is not as before (%s)' % (text, n, got if len(got) < 160 else 'differs'))
                break
        o.count('earlier_layers', len(earlier[1]))
    if 'signal' in r:
        over(o, c, d, b, out, q, earlier, fmt, text)
    o.case(early, c.name, kind, a, L, round(T, 4))
    o.sample = o.sample or ('%s: %s' % (text, r))
    for p in (out, tmp, os.path.join(d, 'next')):
        shutil.rmtree(p, ignore_errors=True)


def over(o, c, d, b, out, q, earlier, fmt, text):
    """Start over on what a killed run left"""
    if c.name == 'complete':
        left = os.listdir(q('outdir'))
        mid = cli.tree_digest(q('outdir'))
        code, txt, exc = cli.run(c.argv(q))
        if left:
            o.count('used_outdir')
            if code == 0 or cli.tree_digest(q('outdir')) != mid:
                o.bad('used:complete', '%s: started over in the same directory, status %s with %s there' % (text, code, left[:4]))
        elif code or c.verdict(out)[0]:
            o.bad('over:complete', '%s: started over in the empty directory: status %s %s' % (text, code, repr(exc)[:100]))
    elif not any(isinstance(x, tuple) for x in c.outs):
        code, txt, exc = cli.run(c.argv(q))
        # GDAL does not replace a GeoTIFF cut within its directory: an error then
        bad = None if code else c.verdict(out)[0]
        if bad:
            o.bad('over:' + c.name, '%s: started over with the same outputs: %s' % (text, bad))
        o.count('started_over', code == 0)
        o.count('over_refused', code != 0)
    elif earlier:
        # the data source still takes further layers
        src = os.path.join(b, 'wsheds.tif')
        n = os.path.basename(earlier[0])
        f = 'gpkg' if n.endswith('.gpkg') else 'SQLite'
        want = os.path.join(d, 'want.' + n)
        cli.ok(['polys', '-raster', src, '-out', want, '-layername', 'further', '-format', f])
        code, txt, exc = cli.run(['polys', '-raster', src, '-out', earlier[0], '-layername', 'further', '-format', f])
        try:
            bad = 'status %s %s' % (code, repr(exc)[:150]) if code else '' if c23.content((earlier[0], 'further')) == c23.content((want, 'further')) else 'other content'
        except Exception as e:
            bad = repr(e)[:150]
        if bad:
            o.bad('further:' + c.name, '%s: a layer added afterwards: %s' % (text, bad))
        os.remove(want)
        o.count('added_layer')
