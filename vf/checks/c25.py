"""C25: runs at the same time do not affect each other"""
import hashlib, os, random, shutil, subprocess, sys, tempfile, threading, time
import numpy as np
from osgeo import gdal, ogr
from vf import gen, orc, pipe, cli, ref
from vf.core import call, RepoError, PY
from vf.checks import c23

RULE = ('groups of 2 to 6 runs (complete, chains, single tools, some of them failing) executed at the same time in processes sharing working and temporary directory with random pauses injected at lines of malstroem.io, vector and network, and in '
        'threads of one process with a switch interval of 1 us and random yields at lines of malstroem; histories of runs in one process; processes with other hash seeds, locales, working and temporary directories; each output compared with that '
        'of the run alone; directory listings before and after; non-trivial: terrain with bluespots; distinct by interleaving (hash of the order in which the threads or processes passed the traced lines) or by run')
MUST_OBSERVE = ['processes', 'threads', 'histories', 'environments', 'overlapping', 'switches', 'interleavings', 'listings', 'failing_run', 'failed_write', 'failing_beside', 'tools', 'shared_dem', 'shared_layer', 'writers']
MIN_EVENTS = 200
CPU_LIMIT = 100
LEVEL = 'exploration'


def cases(seed, tier):
    k = 1 if tier == 'quick' else 30
    out = []
    for i in range(14 * k):
        out.append(dict(t='procs', seed=seed * 1000003 + i))
    for i in range(40 * k):
        out.append(dict(t='threads', seed=seed * 1000003 + i))
    for i in range(24 * k):
        out.append(dict(t='writers', seed=seed * 1000003 + i))
    for i in range(16 * k):
        out.append(dict(t='history', seed=seed * 1000003 + i))
    for i in range(10 * k):
        out.append(dict(t='env', seed=seed * 1000003 + i))
    for i in range(16 * k):
        out.append(dict(t='left', seed=seed * 1000003 + i))
    return out


def run_case(case, o, d):
    dict(procs=procs, threads=threads, writers=writers, history=history, env=env, left=left)[case['t']](case, o, d)


class Job:
    """A run: argument lists with {out} for its own place"""
    def __init__(self, rng, d, i, dems):
        self.i = i
        self.z, self.dem = dems[int(rng.integers(len(dems)))]
        self.kind = ['complete', 'chain', 'complete', 'rain'][int(rng.integers(4))]
        self.mm, self.res = float(rng.choice([0, 5, 20, 100])), float(rng.choice([.25, .5]))
        self.filt = pipe.FILTERS[int(rng.integers(len(pipe.FILTERS)))]
        self.fmt = str(rng.choice(['gpkg', 'GeoJSON', 'SQLite']))
        self.base = os.path.join(d, 'shared')

    def commands(self, out):
        if self.kind == 'complete':
            return [cli.complete_args(self.dem, out, self.mm, self.res, self.filt, True, True)]
        q = lambda n: os.path.join(out, n)
        st = c23.steps(out, self.dem, self.fmt, self.mm, self.res, self.filt)
        skip = ('complete', 'initvolumes_pr')
        if self.kind == 'chain':
            return [[n] + a(q) for n, a, _ in st if n not in skip]
        # another event on layers which all runs share
        x = os.path.join(self.base, 'vec.gpkg')
        return [['initvolumes', '-nodes', x, '-nodes_layer', 'nodes', '-mm', self.mm + 1, '-out', q('iv.gpkg'), '-out_layer', 'iv', '-format', 'gpkg'],
                ['finalvolumes', '-inputvolumes', q('iv.gpkg'), '-inputvolumes_layer', 'iv', '-out', q('fv.gpkg'), '-out_layer', 'fv', '-format', 'gpkg'],
                ['finallevels', '-finalvols', q('fv.gpkg'), '-finalvols_layer', 'fv', '-hyps', x, '-hyps_layer', 'hyps', '-out', q('fv.gpkg'), '-out_layer', 'lv', '-format', 'gpkg'],
                ['finalbluespots', '-bluespots', os.path.join(self.base, 'bluespots.tif'), '-dem', os.path.join(self.base, 'dem.tif'), '-finallevels', q('fv.gpkg'), '-finallevels_layer', 'lv',
                 '-out_depths', q('d.tif'), '-out_bluespots', q('b.tif')],
                ['polys', '-raster', q('b.tif'), '-out', q('p.geojson'), '-layername', 'p', '-format', 'GeoJSON']]

    def text(self):
        return '%s run %d (%s mm, filter %s)' % (self.kind, self.i, self.mm, self.filt)


def outputs(out):
    """Content of everything in an output directory"""
    r = {}
    for n in sorted(os.listdir(out)):
        p = os.path.join(out, n)
        if n.endswith('.tif'):
            r[n] = c23.content(p)
        elif n.endswith(('.gpkg', '.sqlite', '.geojson')):
            for l in cli.layers(p):
                r[n, l] = c23.content((p, l))
        else:
            r[n] = 'file'
    return r


def compare(o, want, got, text, how):
    for k in sorted(set(want) | set(got), key=str):
        if want.get(k) != got.get(k):
            o.bad('%s:%s' % (how, k[0] if isinstance(k, tuple) else k), '%s: output %s %s' % (text, k, 'is missing' if k not in got else 'is written only then' if k not in want else 'differs from that of the run alone'))
    o.event(len(want))


def prepare(rng, d, n):
    """Shared inputs, jobs and what each yields alone"""
    dems = []
    for k in range(2):
        e = os.path.join(d, 'in%d' % k)
        os.makedirs(e)
        dems.append(c23.dem_file(rng, e))
    s = os.path.join(d, 'shared')
    os.makedirs(s)
    cli.write_tif(os.path.join(s, 'dem.tif'), gen.dem(dict(seed=int(rng.integers(1 << 31)), kind='white', shape=[18, 17], scale='unit')))
    cli.chain(os.path.join(s, 'dem.tif'), s)
    jobs = [Job(rng, d, i, dems) for i in range(n)]
    for j in jobs:
        out = os.path.join(d, 'alone%d' % j.i)
        os.makedirs(out)
        for a in j.commands(out):
            cli.ok(a)
        j.want = outputs(out)
    return jobs


def listing(*dirs):
    return {d: sorted(os.path.relpath(os.path.join(b, x), d) for b, ds, fs in os.walk(d) for x in ds + fs) for d in dirs}


# pauses at lines of malstroem, and a record of the lines passed
PAUSE = '''
import random, os, sys, time
_r = random.Random(%d)
_log = open(%r, 'a')
def _l(fr, ev, arg):
    if ev == 'line' and _r.random() < %f:
        _log.write('%%d %%s %%d\\n' %% (time.time_ns(), %r, fr.f_lineno)); _log.flush()
        time.sleep(_r.random() * .006)
    return _l
def _g(fr, ev, arg):
    f = fr.f_code.co_filename
    return _l if f.endswith(('malstroem/io.py', 'malstroem/vector.py', 'malstroem/network.py', 'malstroem/streams.py', 'malstroem/rain.py', 'scripts/complete.py', 'tempfile.py')) else None
sys.settrace(_g)
'''


def procs(case, o, d):
    import malstroem
    tree = os.path.dirname(os.path.dirname(os.path.abspath(malstroem.__file__)))
    rng = np.random.default_rng([case['seed'], 25])
    n = int(rng.integers(2, 6))
    jobs = prepare(rng, d, n)
    tmp, cwd = os.path.join(d, 'tmp'), os.path.join(d, 'cwd')
    os.makedirs(tmp)
    os.makedirs(cwd)
    log = os.path.join(d, 'log')
    bad = int(rng.integers(n)) if rng.random() < .4 else None
    before = listing(tmp, cwd, os.path.join(d, 'shared'), os.path.join(d, 'in0'), os.path.join(d, 'in1'))
    ps = []
    for j in jobs:
        out = os.path.join(d, 'out%d' % j.i)
        os.makedirs(out)
        e = dict(os.environ, TMPDIR=tmp, PYTHONPATH=tree)
        body = 'import sys, json\nsys.path.insert(0, %r)\nfrom malstroem.scripts.cli import cli\n%s\nfor a in json.loads(sys.argv[1]):\n    cli.main(args=a, standalone_mode=False)\n' % (
            tree, PAUSE % (case['seed'] * 100 + j.i, log, float(rng.choice([.002, .02, .1])), str(j.i)))
        import json
        j.p = subprocess.Popen([PY, '-W', 'ignore', '-c', body, json.dumps([[str(x) for x in a] for a in j.commands(out)])], cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if rng.random() < .4:
            time.sleep(float(rng.random() * .3))
    if bad is not None:
        # one more which fails
        e = dict(os.environ, TMPDIR=tmp, PYTHONPATH=tree)
        q = subprocess.run([PY, '-W', 'ignore', '-c', 'import sys\nsys.path.insert(0, %r)\nfrom malstroem.scripts.cli import cli\ncli()' % tree, 'initvolumes', '-nodes', os.path.join(d, 'nothing.gpkg'), '-mm', '5', '-out', 'x.gpkg'],
                           cwd=cwd, env=e, capture_output=True, timeout=80)
        o.count('failing_beside')
    for j in jobs:
        try:
            _, err = j.p.communicate(timeout=85)
        except subprocess.TimeoutExpired:
            for x in jobs:
                x.p.kill()
            raise
        if j.p.returncode:
            o.bad('process:fails', '%s fails beside %d others: %s' % (j.text(), n - 1, err[-300:]))
    for j in jobs:
        if j.p.returncode == 0:
            compare(o, j.want, outputs(os.path.join(d, 'out%d' % j.i)), '%s beside %d others in processes' % (j.text(), n - 1), 'process')
        o.count('processes')
    o.count('shared_dem', len(set(j.dem for j in jobs)) < n)
    o.count('shared_layer', sum(j.kind == 'rain' for j in jobs))
    after = listing(*before)
    left = {k: sorted(set(after[k]) - set(before[k]) - {'x.gpkg'}) for k in before}
    if any(left.values()):
        o.bad('left', 'after %d processes there are new files %s' % (n, str({k: v[:4] for k, v in left.items() if v})[:300]))
    o.count('listings')
    order = []
    if os.path.exists(log):
        rows = sorted((x.split() for x in open(log)), key=lambda x: int(x[0]))
        order = [(x[1], x[2]) for x in rows]
        o.count('overlapping', sum(a[0] != b[0] for a, b in zip(order, order[1:])))
        o.count('interleavings', len(order) > 0)
    o.case(True, 'procs', order)
    o.sample = '%d processes, %d recorded lines, %d changes between them' % (n, len(order), sum(a[0] != b[0] for a, b in zip(order, order[1:])))


class Yields:
    """Random yields of threads at lines of malstroem"""
    def __init__(self, seed, share):
        self.r, self.share, self.order = random.Random(seed), share, []

    def start(self, me):
        r, share, order = random.Random(self.r.random()), self.share, self.order

        def line(fr, ev, arg):
            if ev == 'line' and r.random() < share:
                order.append((me, fr.f_lineno))
                time.sleep(r.choice([0, 0, .0002, .002]))
            return line

        def glob(fr, ev, arg):
            return line if 'malstroem' + os.sep in fr.f_code.co_filename or fr.f_code.co_filename.endswith('tempfile.py') else None
        sys.settrace(glob)

    def switches(self):
        return sum(a[0] != b[0] for a, b in zip(self.order, self.order[1:]))


def together(o, fns, seed, share):
    """Run the functions in threads. Exceptions by index"""
    y = Yields(seed, share)
    errs, gate = {}, threading.Barrier(len(fns))

    def body(k, fn):
        gate.wait(30)
        y.start(k)
        try:
            fn()
        except BaseException as e:
            errs[k] = '%s: %s' % (type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    o.count('switches', y.switches())
    o.count('interleavings', y.switches() > 0)
    return errs, y


def threads(case, o, d):
    from malstroem.scripts.cli import cli as main
    rng = np.random.default_rng([case['seed'], 26])
    n = int(rng.integers(2, 5))
    jobs = prepare(rng, d, n)
    tmp = os.environ['TMPDIR']
    before = listing(tmp)

    def runner(j, out):
        def fn():
            for a in j.commands(out):
                main.main(args=[str(x) for x in a], standalone_mode=False)
        return fn
    fns = []
    for j in jobs:
        out = os.path.join(d, 'out%d' % j.i)
        os.makedirs(out)
        fns.append(runner(j, out))
    fail = rng.random() < .3
    if fail:
        def failing():
            for k in range(3):
                try:
                    main.main(args=['initvolumes', '-nodes', os.path.join(d, 'nothing.gpkg'), '-mm', '5', '-out', os.path.join(d, 'x.gpkg')], standalone_mode=False)
                except BaseException:
                    pass
        fns.append(failing)
    errs, y = together(o, fns, case['seed'], float(rng.choice([.002, .01, .05])))
    for j in jobs:
        if j.i in errs:
            o.bad('thread:fails', '%s fails beside %d others in threads: %s' % (j.text(), len(fns) - 1, errs[j.i]))
            continue
        compare(o, j.want, outputs(os.path.join(d, 'out%d' % j.i)), '%s beside %d others in threads' % (j.text(), len(fns) - 1), 'thread')
        o.count('threads')
    o.count('failing_beside', fail)
    left = sorted(set(listing(tmp)[tmp]) - set(before[tmp]))
    if left:
        o.bad('left', 'after %d threads the temporary directory has %s' % (n, left[:4]))
    o.count('listings')
    o.case(True, 'threads', y.order)
    o.sample = '%d threads, %d switches at traced lines' % (len(fns), y.switches())


def writers(case, o, d):
    """Tools of the library on objects in memory, and writers and readers, in threads"""
    from malstroem import io, network, rain, streams, hyps
    from malstroem import dem as demtool, bluespots as bs
    from malstroem.algorithms import flow, fill, label
    rng = np.random.default_rng([case['seed'], 27])
    n = int(rng.integers(2, 6))
    tmp = os.environ['TMPDIR']
    before = listing(tmp)
    work = []
    for k in range(n):
        kind = ['write', 'write', 'tools', 'raster', 'network'][int(rng.integers(5))]
        work.append(make_work(kind, rng, d, k))
    want = [w('alone') for w in work]
    got = [None] * n

    def fn(k):
        def g():
            got[k] = work[k]('beside')
        return g
    errs, y = together(o, [fn(k) for k in range(n)], case['seed'], float(rng.choice([.01, .05, .2])))
    for k in range(n):
        if k in errs:
            o.bad('tool:fails', '%s fails beside %d others in threads: %s' % (work[k].kind, n - 1, errs[k]))
        elif got[k] != want[k]:
            o.bad('tool:' + work[k].kind, '%s beside %d others in threads (%s) gives another result than alone' % (work[k].kind, n - 1, ', '.join(w.kind for w in work)))
        o.count('tools', work[k].kind in ('tools', 'network'))
        o.count('writers', work[k].kind in ('write', 'raster'))
        o.event()
    left = sorted(set(listing(tmp)[tmp]) - set(before[tmp]))
    if left:
        o.bad('left', 'after threads the temporary directory has %s' % left[:4])
    o.count('listings')
    o.case(True, 'writers', y.order)


def make_work(kind, rng, d, k):
    from malstroem import io, network
    from malstroem import dem as demtool, bluespots as bs
    seed = int(rng.integers(1 << 31))
    if kind == 'write':
        fmt = str(rng.choice(['gpkg', 'GeoJSON', 'SQLite']))
        fs = [dict(type='Feature', geometry=dict(type='Point', coordinates=[float(i), float(k)]), properties=dict(nodeid=i, who='w%d' % k, v=float(i) / 7)) for i in range(int(rng.choice([1, 30, 200])))]

        def f(tag):
            p = os.path.join(d, '%s%d.%s' % (tag, k, {'gpkg': 'gpkg', 'GeoJSON': 'geojson', 'SQLite': 'sqlite'}[fmt]))
            w = io.VectorWriter(fmt, p, 'lay', None, ogr.wkbPoint, cli.wkt())
            w.write_geojson_features(fs)
            a = [(x['properties'], x['geometry']) for x in io.VectorReader(p, 'lay').read_geojson_features()]
            return repr(a), c23.content((p, 'lay'))
    elif kind == 'raster':
        a = np.random.default_rng(seed).normal(size=(int(rng.integers(1, 400)), 70)).astype('f4')

        def f(tag):
            p = os.path.join(d, '%s%d.tif' % (tag, k))
            io.RasterWriter(p, cli.GT, cli.wkt(), 3.0).write(a)
            return io.RasterReader(p, nodatasubst=-1).read().tobytes(), c23.content(p)
    elif kind == 'tools':
        z = gen.dem(dict(seed=seed, kind=str(rng.choice(gen.NAMES)), shape=[24, 25], scale='unit'))

        def f(tag):
            w = [cli.MemRaster() for _ in range(4)]
            demtool.DemTool(cli.MemRaster(z), *w).process()
            r = [x.written[0] for x in w]
            lab, ws, pp = cli.MemRaster(), cli.MemRaster(), cli.MemVector()
            bs.BluespotTool(cli.MemRaster(r[2]), cli.MemRaster(r[1]), cli.MemRaster(r[3]), cli.MemRaster(z), lambda s: s['area'] > 1, pp, ws, lab).process() if False else \
                bs.BluespotTool(input_depths=cli.MemRaster(r[2]), input_flowdir=cli.MemRaster(r[1]), input_bluespot_filter_function=lambda s: s['area'] > 1, input_accum=cli.MemRaster(r[3]), input_dem=cli.MemRaster(z),
                                output_labeled_raster=lab, output_labeled_vector=None, output_pourpoints=pp, output_watersheds_raster=ws, output_watersheds_vector=None).process()
            return [x.tobytes() for x in r + lab.written + ws.written], repr(pp.written)
    else:
        q = np.random.default_rng(seed)
        m = int(q.integers(3, 60))
        nodes = [dict(type='Feature', id=i, geometry=None, properties=dict(nodeid=i, nodetype='pourpoint', dstrnodeid=(int(q.integers(0, i)) if i else None), bspot_id=i, bspot_vol=float(q.integers(0, 20)), wshed_area=float(q.integers(1, 50)),
                                                                        inputv=float(q.integers(0, 30)))) for i in range(m)]

        def f(tag):
            out = cli.MemVector()
            network.FinalStateCalculator(cli.MemVector(nodes), 'inputv', out).process()
            return repr(out.written)
    f.kind = kind
    return f


def history(case, o, d):
    """Runs one after the other in one process, failing ones between them"""
    rng = np.random.default_rng([case['seed'], 28])
    jobs = prepare(rng, d, 3)
    old = os.getcwd()
    for step in range(7):
        j = jobs[int(rng.integers(3))]
        if rng.random() < .5:
            c = fail(rng, d, j, step)
            code, text, exc = cli.run(c)
            if code == 0:
                o.count('unexpected_success')
            o.count('failing_run')
        out = os.path.join(d, 'h%d' % step)
        os.makedirs(out)
        for a in j.commands(out):
            cli.ok(a)
        compare(o, j.want, outputs(out), '%s as number %d of a sequence' % (j.text(), step), 'history')
        if os.getcwd() != old:
            o.bad('cwd', '%s changes the working directory' % j.text())
            os.chdir(old)
        o.count('histories')
        o.case(True, 'history', case['seed'], step)


def fail(rng, d, j, k):
    """A command which cannot succeed"""
    P = lambda n: os.path.join(d, n)
    s = os.path.join(d, 'shared')
    return [
        ['filled', '-dem', j.dem, '-out', P('no/such/dir/f.tif')],
        ['complete', '-dem', j.dem, '-outdir', s, '-mm', '5', '-zresolution', '.5'],
        ['initvolumes', '-nodes', os.path.join(s, 'vec.gpkg'), '-nodes_layer', 'nodes', '-mm', '5', '-out', P('no/such/dir/f.gpkg'), '-format', 'gpkg'],
        ['initvolumes', '-nodes', os.path.join(s, 'vec.gpkg'), '-nodes_layer', 'nolayer', '-mm', '5', '-out', P('nf%d.gpkg' % k), '-format', 'gpkg'],
        ['finalvolumes', '-inputvolumes', os.path.join(s, 'vec.gpkg'), '-inputvolumes_layer', 'streams', '-out', P('ns%d.gpkg' % k), '-format', 'gpkg'],
        ['bspots', '-depths', os.path.join(s, 'depths.tif'), '-out', P('b%d.tif' % k), '-filter', 'area >'],
        ['network', '-bluespots', os.path.join(s, 'bluespots.tif'), '-flowdir', os.path.join(s, 'flowdir.tif'), '-pourpoints', os.path.join(s, 'vec.gpkg'), '-pourpoints_layer', 'hyps', '-out', P('n%d.gpkg' % k), '-format', 'gpkg'],
        ['polys', '-raster', os.path.join(s, 'bluespots.tif'), '-out', P('no/such/dir/f.gpkg'), '-format', 'gpkg'],
        ['hyps', '-bluespots', os.path.join(s, 'bluespots.tif'), '-dem', j.dem, '-pourpoints', os.path.join(s, 'vec.gpkg'), '-pourpoints_layer', 'nolayer', '-zresolution', '.5', '-out', P('h%d.gpkg' % k), '-format', 'gpkg'],
        ['initvolumes', '-nodes', os.path.join(s, 'vec.gpkg'), '-nodes_layer', 'nodes', '-mm', '5', '-out', P('x%d.xyz' % k), '-format', 'NoSuchDriver'],
    ][int(rng.integers(10))]


def env(case, o, d):
    """Processes with other environments"""
    import json
    import malstroem
    tree = os.path.dirname(os.path.dirname(os.path.abspath(malstroem.__file__)))
    rng = np.random.default_rng([case['seed'], 29])
    jobs = prepare(rng, d, 2)
    ps = []
    for k in range(4):
        j = jobs[k % 2]
        out = os.path.join(d, 'e%d' % k)
        os.makedirs(out)
        cwd, tmp = os.path.join(d, ['cwd', 'with space', 'ø☂', 'c%d' % k][k]), os.path.join(d, ['t', 't m p', 'tø', 'tm.p'][k])
        os.makedirs(cwd)
        os.makedirs(tmp)
        e = dict(os.environ, TMPDIR=tmp, PYTHONPATH=tree, PYTHONHASHSEED=str(int(rng.integers(1, 1 << 30))), **[dict(LC_ALL='C'), dict(LC_ALL='C.UTF-8'), dict(LC_ALL='POSIX', TZ='Asia/Tokyo'), dict(LANG='C.UTF-8', OMP_NUM_THREADS='4', HOME=tmp)][k])
        body = 'import sys, json\nsys.path.insert(0, %r)\nfrom malstroem.scripts.cli import cli\nfor a in json.loads(sys.argv[1]):\n    cli.main(args=a, standalone_mode=False)\n' % tree
        ps.append((j, out, cwd, tmp, e, subprocess.Popen([PY, '-W', 'ignore'] + (['-O'] if k == 9 else []) + ['-c', body, json.dumps([[str(x) for x in a] for a in j.commands(out)])], cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for j, out, cwd, tmp, e, p in ps:
        _, err = p.communicate(timeout=85)
        if p.returncode:
            o.bad('env:fails', '%s fails in directory %s: %s' % (j.text(), os.path.basename(cwd), err[-300:]))
            continue
        compare(o, j.want, outputs(out), '%s in another process (hash seed %s, directory %s)' % (j.text(), e['PYTHONHASHSEED'], os.path.basename(cwd)), 'env')
        if os.listdir(cwd) or os.listdir(tmp):
            o.bad('left', '%s leaves %s in the working directory and %s in the temporary directory' % (j.text(), os.listdir(cwd)[:3], os.listdir(tmp)[:3]))
        o.count('environments')
        o.count('listings')
        o.case(True, 'env', case['seed'], e['PYTHONHASHSEED'])


class Boom(Exception):
    pass


def left(case, o, d):
    """Nothing is left behind, with or without an error"""
    from malstroem import io
    rng = np.random.default_rng([case['seed'], 30])
    tmp = os.environ['TMPDIR']
    jobs = prepare(rng, d, 2)
    cwd = os.path.join(d, 'cwd')
    os.makedirs(cwd)
    watch = [tmp, cwd, os.path.join(d, 'shared'), os.path.join(d, 'in0'), os.path.join(d, 'in1')]

    def check(before, text):
        after = listing(*watch)
        for k in before:
            new = sorted(set(after[k]) - set(before[k]))
            if new:
                o.bad('left', '%s leaves %s in %s' % (text, new[:4], 'the temporary directory' if k == tmp else os.path.basename(k)))
        o.count('listings')
        o.event()
    for k, j in enumerate(jobs):
        out = os.path.join(d, 'l%d' % k)
        os.makedirs(out)
        for a in j.commands(out):
            before = listing(*watch)
            cli.ok(a, cwd=cwd)
            check(before, 'command %s' % a[0])
        stray = [n for n in outputs(out) if isinstance(n, str) and not n.endswith('.tif')]
        if stray:
            o.bad('left', '%s leaves %s beside its outputs' % (j.kind, stray[:4]))
        for i in range(5):
            c = fail(rng, d, j, 10 * k + i)
            before = listing(*watch)
            cli.run(c, cwd=cwd)
            check(before, 'failing command %s' % c[0])
            o.count('failing_run')
    # writes which fail at some feature
    good = [dict(type='Feature', geometry=dict(type='Point', coordinates=[1.0, 2.0]), properties=dict(a=i)) for i in range(20)]

    def source(n, what):
        for i, f in enumerate(good):
            if i == n:
                if what == 'raise':
                    raise Boom()
                yield dict(f, properties=dict(a=object())) if what == 'json' else 'not a feature' if what == 'text' else f
            else:
                yield f
    for k in range(8):
        what = ['raise', 'json', 'text', 'interrupt', 'place'][int(rng.integers(5))]
        p = os.path.join(d, 'w%d.gpkg' % k) if what != 'place' else os.path.join(d, 'no', 'dir', 'w.gpkg')
        before = listing(*watch)
        w = io.VectorWriter('gpkg', p, 'lay', None, ogr.wkbPoint, cli.wkt())
        try:
            if what == 'interrupt':
                def src():
                    yield good[0]
                    raise KeyboardInterrupt()
                w.write_geojson_features(src())
            else:
                w.write_geojson_features(source(int(rng.integers(20)), what))
        except (Exception, KeyboardInterrupt):
            o.count('failed_write')
        w = None
        import gc
        gc.collect()
        check(before, 'a write which fails (%s)' % what)
    o.case(True, 'left', case['seed'])
