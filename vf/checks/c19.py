"""C19: the native code under sanitizers, bounds checks and differently filled memory"""
import json, os, shutil, tempfile, time
import numpy as np
from vf import gen, orc, pipe, cli, ref, core
from vf.core import call, digest
from vf.checks import c18

RULE = ('every native entry point on random valid inputs (all shapes from 1x1, layouts, element types, label counts) and whole library pipelines, each executed in an address+undefined behaviour sanitizer build, a bounds-checked build, and two '
        'builds whose automatic variables and heap are filled differently, whose results must be the same; invalid element types; non-trivial: input with more than one distinct value; distinct by build, function and input')
VARIANTS = ('asan', 'bounds', 'auto0', 'autop')
FUNCS = c18.FUNCS
MUST_OBSERVE = ['v_' + v for v in VARIANTS] + ['f_' + f for f in FUNCS] + ['compared', 'refused', 'pipeline', 'narrow', 'asan_loaded', 'line', 'large']
MIN_EVENTS = 1500
CPU_LIMIT = 200
ASAN = '/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so'


def cases(seed, tier):
    n = 80 if tier == 'quick' else 3000
    out = []
    for i in range(n):
        out.append(dict(t='calls', seed=seed * 1000003 + i, f=FUNCS[i % len(FUNCS)], id='%d' % i))
    for i in range(n // 6):
        out.append(dict(t='pipeline', seed=seed * 1000003 + i, id='p%d' % i))
    for i in range(4):
        out.append(dict(t='types', seed=seed * 1000003 + i, id='t%d' % i))
    return out


def env_of(v, out):
    e = dict(VF_VARIANT=v, VF_OUT=out, PYTHONMALLOC='malloc')
    if v == 'asan':
        e.update(LD_PRELOAD=ASAN, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=1:detect_odr_violation=0',
                 UBSAN_OPTIONS='print_stacktrace=1:exitcode=66')
    if v == 'auto0':
        e['MALLOC_PERTURB_'] = '0'
    if v == 'autop':
        e['MALLOC_PERTURB_'] = '165'
    return e


def crash(w):
    t = w.log_tail(60000)
    for key, mech in (('ERROR: AddressSanitizer:', 'asan'), ('runtime error:', 'ubsan')):
        i = t.rfind(key)
        if i >= 0:
            line = t[i:i + 200].split('\n')[0]
            kind = line[len(key):].split()[0] if mech == 'asan' else 'undefined'
            stack = [x.strip()[:120] for x in t[i:i + 6000].split('\n') if '.c:' in x or '.pyx' in x or 'speedups' in x][:3]
            return ('%s:%s' % (mech, kind), '%s | %s' % (line[:250], ' | '.join(stack)))
    return None


def run_all(trees, seed, tier, deadline, nw, only=None, variants=VARIANTS):
    res = core.Result()
    out = tempfile.mkdtemp(prefix='vf19-')
    cs = only or cases(seed, tier)
    t0 = time.time()
    try:
        for i, v in enumerate(variants):
            vd = os.path.join(out, v)
            os.makedirs(vd)
            share = t0 + (deadline - t0) * (i + 1) / len(variants)
            core.run_cases('C19', trees[v], [dict(c, v=v) for c in cs], nw, CPU_LIMIT, max(share, time.time() + 20), env_of(v, vd), res, crash)
            if res.errors:
                return res
        a, b = os.path.join(out, 'auto0'), os.path.join(out, 'autop')
        if os.path.isdir(a) and os.path.isdir(b):
            for c in cs:
                p, q = os.path.join(a, c['id']), os.path.join(b, c['id'])
                if os.path.exists(p) and os.path.exists(q):
                    x, y = json.load(open(p)), json.load(open(q))
                    res.stats['compared'] = res.stats.get('compared', 0) + len(x)
                    for i, (m, n) in enumerate(zip(x, y)):
                        if m != n:
                            res.viol.append(('uninitialised:%s' % m[0], 'result of %s depends on how unused memory is filled: call %d, %s and %s' % (m[0], i, m[1], n[1]), dict(c, v='autop')))
                            break
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return res


def replay(trees, r):
    c = r['case']
    vs = ('auto0', 'autop') if c['v'].startswith('auto') else (c['v'],)
    return run_all(trees, 1, 'quick', time.time() + 600, 1, [c], vs)


def narrow(rng, f):
    args = None
    for _ in range(20):
        args = c18.make(rng, f)
        if min(args[0].shape) < 4:
            return args
    return args


def run_case(case, o, d):
    v = os.environ['VF_VARIANT']
    o.count('v_' + v)
    if v == 'asan':
        with open('/proc/self/maps') as f:
            o.count('asan_loaded', 'libasan' in f.read())
    log = []
    try:
        if case['t'] == 'calls':
            calls(case, o, log, v)
        elif case['t'] == 'pipeline':
            pipeline(case, o, log, v)
        else:
            types(case, o, v)
    except core.RepoError as e:
        if v == 'bounds' and 'IndexError' in e.mech:
            o.bad('out-of-bounds', 'element access outside the bounds of an array: %s (%s)' % (e, json.dumps(case)))
        else:
            raise
    with open(os.path.join(os.environ['VF_OUT'], case['id']), 'w') as f:
        json.dump(log, f)


def calls(case, o, log, v):
    fill, flow, label, sp = c18.modules()
    f = case['f']
    for rep in range(16):
        rng = np.random.default_rng([case['seed'], rep])
        if rep == 15:
            args = c18.make(rng, f, int(rng.integers(60, 130)))
            o.count('large')
        else:
            args = narrow(rng, f) if rep % 3 == 2 else c18.make(rng, f)
        got = c18.do(f, args)
        log.append([f, digest(*[np.asarray(x) for x in got])])
        o.count('f_' + f); o.count('narrow', min(args[0].shape) < 4); o.count('line', min(args[0].shape) == 1)
        o.case(len(np.unique(args[0])) > 1, v, f, *[x for x in args if isinstance(x, np.ndarray)])
    o.sample = '%s: %s %s' % (v, f, args[0].shape)


def pipeline(case, o, log, v):
    """The tools, in memory"""
    from malstroem import dem, bluespots, streams, hyps
    rng = np.random.default_rng([case['seed'], 19])
    h, w = gen.shapes(rng, 40)
    c = dict(seed=case['seed'], kind=str(rng.choice(gen.NAMES)), shape=[h, w], scale=str(rng.choice(['unit', 'unit', 'low'])) if 'unit' in gen.SCALES else str(rng.choice(gen.SCALES)))
    z = gen.dem(c)
    M = cli.MemRaster
    fl, fd, dp, ac = M(), M(), M(), M()
    call('DemTool', dem.DemTool(M(gen.layout(z, str(rng.choice(gen.LAYOUTS)))), fl, fd, dp, ac).process)
    lab, ws, pp = M(), M(), cli.MemVector()
    acc = bool(rng.random() < .5)
    call('BluespotTool', bluespots.BluespotTool(M(dp.written[0]), M(fd.written[0]), None if rng.random() < .5 else (lambda s: s['max'] > .5), lab, pp, ws, input_accum=M(ac.written[0]) if acc else None, input_dem=M(z)).process)
    nodes, st = cli.MemVector(), cli.MemVector()
    call('StreamTool', streams.StreamTool(cli.MemVector(pp.written[0]), M(lab.written[0]), M(fd.written[0]), nodes, st).process)
    hy = cli.MemVector()
    call('hypsometry', hyps.bluespot_hypsometry_io, M(lab.written[0]), M(z), cli.MemVector(pp.written[0]), max(.1, float(np.abs(z).max()) / 500), hy)
    log.append(['pipeline', digest(fl.written[0], fd.written[0], dp.written[0], ac.written[0], lab.written[0], ws.written[0], repr(pp.written[0]), repr(nodes.written[0]), repr(st.written[0]), repr(hy.written[0]))])
    o.count('pipeline')
    o.case(lab.written[0].max() > 0, v, 'pipeline', z)
    o.sample = '%s: pipeline %s %s' % (v, c['kind'], z.shape)


def types(case, o, v):
    """Invalid element types are refused"""
    fill, flow, label, sp = c18.modules()
    rng = np.random.default_rng([case['seed'], 3])
    fd = gen.draining_flowdir(rng, 6, 7)
    z = rng.random((6, 7))
    lab = rng.integers(0, 3, (6, 7)).astype('i4')

    def refuse(what, fn, *a):
        try:
            r = fn(*a)
        except Exception:
            o.count('refused')
            o.case(True, v, what)
            return
        o.bad('type:' + what, '%s processes invalid input and returns %r' % (what, str(r)[:80]))
    for dt in ('f4', 'f8', 'c16', 'O', 'U3', 'S3', 'i8', 'u2', 'M8[s]', 'V8'):
        a = np.zeros((6, 7), dt) if dt[0] in 'MV' else fd.astype(dt)
        refuse('accumulated_flow(%s)' % dt, flow.accumulated_flow, a)
        refuse('trace_accumulated_flow(%s)' % dt, flow.trace_accumulated_flow, a, np.zeros((6, 7)), (2, 2))
        refuse('watersheds_from_labels(%s)' % dt, flow.watersheds_from_labels, a, lab.copy(), 0)
    for dt in ('O', 'U5', 'S5', 'M8[s]', 'V8'):
        a = np.full((6, 7), 'abc', object) if dt == 'O' else np.zeros((6, 7), dt)
        for n in ('label_stats', 'label_min_index', 'label_data'):
            refuse('%s(%s)' % (n, dt), getattr(label, n), a, lab)
        refuse('fill_terrain(%s)' % dt, fill.fill_terrain, a)
        refuse('fill_terrain_no_flats(%s)' % dt, fill.fill_terrain_no_flats, a, .1, .1)
        refuse('terrain_flowdirection(%s)' % dt, flow.terrain_flowdirection, a)
    for dt in ('f4', 'i4', 'u1'):
        refuse('terrain_flowdirection(%s)' % dt, flow.terrain_flowdirection, z.astype(dt))
    for n in ('label_stats', 'label_min_index', 'label_data'):
        for dt in ('U5', 'S5', 'M8[s]'):
            refuse('%s(labels %s)' % (n, dt), getattr(label, n), z, lab.astype('i8').astype(dt), 3)
    # dimensions
    for a in (fd[0], fd[None]):
        refuse('accumulated_flow(%dD)' % a.ndim, flow.accumulated_flow, a)
    o.sample = '%s: invalid types' % v
