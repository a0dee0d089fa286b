"""C18: native and pure code compute the same"""
import os, sys, types
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('each speeded-up function called native and pure on the same random input over element types, layouts, label types, label counts and shapes; complete run in both modes; random histories of enable/disable with results '
        'checked and executed Python lines counted after each switch; complete in processes which cannot import one or all compiled modules; non-trivial: input with more than one distinct value; distinct by function and input')
FUNCS = ['fill', 'noflats', 'flowdir', 'accum', 'trace', 'wsheds', 'assign', 'stats', 'minindex', 'data']
MUST_OBSERVE = ['f_' + f for f in FUNCS] + ['switches', 'histories', 'complete', 'tool', 'mode_native', 'mode_pure', 'narrow', 'absent']
MIN_EVENTS = 2000
CPU_LIMIT = 120


def cases(seed, tier):
    n = 300 if tier == 'quick' else 8000
    out = []
    for i in range(n):
        out.append(dict(t='pair', seed=seed * 1000003 + i, f=FUNCS[i % len(FUNCS)]))
    for i in range(n // 8):
        out.append(dict(t='history', seed=seed * 1000003 + i))
    rng = np.random.default_rng([seed, 118])
    for i in range(n // 8):
        p = pipe.params(rng, 0, mode='complete')
        p['shape'] = [min(x, 26) for x in p['shape']]
        out.append(dict(p, t='complete' if i % 8 else 'absent', which=int(rng.integers(4))))
    return out


def modules():
    from malstroem.algorithms import fill, flow, label, speedups
    return fill, flow, label, speedups


def make(rng, f, n=None):
    """(arguments) of one call"""
    h, w = gen.shapes(rng, 26) if n is None else (n, n)
    if n is None and rng.random() < .08:
        h, w = [(1, 1), (1, 9), (9, 1), (2, 2), (3, 3), (2, 12), (12, 2)][int(rng.integers(7))]
    lay = str(rng.choice(gen.LAYOUTS))
    if f in ('fill', 'noflats'):
        z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=[h, w], scale=str(rng.choice(gen.SCALES))))
        dt = str(rng.choice(['f4', 'f4', 'f8', 'f2', 'i2', 'u1', '>f4']))
        if dt in ('f2', 'i2', 'u1'):
            z = np.clip(np.round(z), 0 if dt == 'u1' else -200, 200)
        z = gen.layout(z.astype(dt), lay)
        if f == 'fill':
            return (z,)
        s = float(rng.choice([0, 1e-6, .01, 1.0, 2.0 ** -20]))
        return z, s, s * 2 ** .5 if rng.random() < .7 else float(rng.random() * s)
    if f == 'flowdir':
        z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=[h, w], scale=str(rng.choice(gen.SCALES))))
        s, dg = ref.increments(z)
        a = ref.flood(z, float(s), float(dg)) if rng.random() < .7 else z.astype('f8')
        return gen.layout(a, lay), bool(rng.random() < .7)
    nodir = float(rng.choice([0, 0, .05, .4]))
    if f in ('accum', 'trace', 'wsheds', 'assign'):
        fd = gen.draining_flowdir(rng, h, w) if rng.random() < .5 else gen.random_flowdir(rng, h, w)
        if nodir:
            fd[rng.random(fd.shape) < nodir] = 8
        fd = gen.layout(fd, lay)
        if f == 'accum':
            return (fd,)
        if f == 'trace':
            k = [(r, c) for r in range(fd.shape[0]) for c in range(fd.shape[1])]
            return fd, [k[i] for i in rng.integers(0, len(k), 40)]
        bg = int(rng.choice([0, 0, 0, 7, -1]))
        dt = str(rng.choice(['i4', 'i8', 'i2', 'i4', 'u2', 'u1', 'u4', 'u8']))
        if bg < 0 and dt[0] == 'u':
            bg = 0
        l = np.full(fd.shape, bg)
        m = rng.random(fd.shape) < rng.choice([.02, .1, .5])
        l[m] = rng.integers(0 if bg else 1, 60, m.sum())
        l = gen.layout(l.astype(dt), str(rng.choice(gen.LAYOUTS)))
        if f == 'wsheds':
            return fd, l, bg
        return fd, l, (int(rng.integers(h)), int(rng.integers(w))) if fd.shape == (h, w) else (0, 0), bg
    return labelled(rng, h, w, f, lay)


def labelled(rng, h, w, f, lay):
    dt = str(rng.choice(['f4', 'f8', 'f4', 'f8', 'i4', 'i8', 'u1', 'i2', 'f2', 'u4', '>f4', '>f8', '?']))
    if dt[-2:] in ('f4', 'f8', 'f2'):
        k = int(rng.integers(4))
        d = [rng.random((h, w)), rng.normal(size=(h, w)) * 1e6, rng.integers(-3, 4, (h, w)) / 4.0, -rng.random((h, w)) - 5][k]
        if dt == 'f2':
            d = np.clip(d, -6e4, 6e4)
        d = d.astype(dt)
    elif dt == '?':
        d = rng.random((h, w)) < .4
    else:
        info = np.iinfo(dt)
        d = rng.integers(max(info.min, -1000), min(info.max, 1000), (h, w)).astype(dt)
    n = int(rng.choice([0, 1, 3, 20, 200]))
    l = rng.integers(0, n + 1, (h, w))
    if n > 3 and rng.random() < .5:
        l[l % 3 == 1] = 0
    if rng.random() < .15:
        l = np.full((h, w), int(rng.integers(1, 9)))
    ldt = str(rng.choice(['i4', 'i8', 'i4', 'i2', 'u1', 'u2', 'u4', '>i4']))
    l = l.astype(ldt)
    m = int(l.max())
    nl = [None, m, m + int(rng.integers(1, 5)), None][int(rng.integers(4))]
    a = [gen.layout(d, lay), gen.layout(l, str(rng.choice(gen.LAYOUTS))), nl]
    if f == 'data':
        a.append(int(rng.choice([0, 0, 1, m, -1])))
    return tuple(a)


def do(f, args):
    """Call in the current mode. List of arrays observed"""
    fill, flow, label, sp = modules()
    if f == 'fill':
        return [call(f, fill.fill_terrain, args[0])]
    if f == 'noflats':
        return [call(f, fill.fill_terrain_no_flats, *args)]
    if f == 'flowdir':
        return [call(f, flow.terrain_flowdirection, args[0], edges_flow_outward=args[1])]
    if f == 'accum':
        return [call(f, flow.accumulated_flow, args[0])]
    if f == 'trace':
        acc = np.zeros(args[0].shape, dtype='f8')
        for c in args[1]:
            call(f, flow.trace_accumulated_flow, args[0], acc, c)
        return [acc]
    if f == 'wsheds':
        l = copy_layout(args[1])
        call(f, flow.watersheds_from_labels, args[0], l, args[2])
        return [l]
    if f == 'assign':
        l = copy_layout(args[1])
        call(f, flow.assign_watersheds_upstream, args[0], l, args[2], args[3])
        return [l]
    if f == 'stats':
        r = call(f, label.label_stats, *args)
        return [np.asarray(r[k]) for k in ('min', 'max', 'sum', 'count')]
    if f == 'minindex':
        r = call(f, label.label_min_index, *args)
        return [np.asarray(r[k]) for k in ('value', 'row', 'col')]
    r = call(f, label.label_data, args[0], args[1], args[2], background=args[3])
    return [np.array([len(x) for x in r])] + [np.array([float(v) for v in x]) for x in r]


def copy_layout(l):
    """Copy with the same strides"""
    base = l
    while base.base is not None and isinstance(base.base, np.ndarray):
        base = base.base
    b = base.copy()
    off = (l.__array_interface__['data'][0] - base.__array_interface__['data'][0])
    # a copy of a base array in another order keeps the values, not the strides
    if b.strides == base.strides:
        return np.ndarray(l.shape, l.dtype, b, off, l.strides)
    return l.copy()


def same(f, args, a, b):
    """None, or what differs"""
    if len(a) != len(b):
        return 'number of results %d and %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return 'result %d has shapes %s and %s' % (i, x.shape, y.shape)
        if f in ('fill', 'noflats', 'flowdir', 'accum') and x.dtype.newbyteorder('=') != y.dtype.newbyteorder('='):
            return 'result %d has element types %s and %s' % (i, x.dtype, y.dtype)
        x, y = np.asarray(x, dtype='f8'), np.asarray(y, dtype='f8')
        d = x != y
        if not d.any():
            continue
        if f == 'flowdir':
            d = d & ~tie(args[0], x, y)
            if not d.any():
                continue
        p, n = orc.first(d)
        return '%d values differ, first at %s of result %d: native %r pure %r' % (n, p, i, x[p], y[p])
    return None


def tie(z, x, y):
    """Cells whose slopes in the two directions are the same to within rounding"""
    h, w = z.shape
    z = z.astype('f8')
    out = np.zeros((h, w), bool)
    for r, c in np.argwhere(x != y):
        s = []
        for k in (int(x[r, c]), int(y[r, c])):
            if not 0 <= k <= 7 or not (0 <= r + ref.DR[k] < h and 0 <= c + ref.DC[k] < w):
                break
            s.append((z[r, c] - z[r + ref.DR[k], c + ref.DC[k]]) / (2 ** .5 if k % 2 else 1))
        out[r, c] = len(s) == 2 and abs(s[0] - s[1]) <= 1e-12 * abs(s[0])
    return out


def run_case(case, o, d):
    fill, flow, label, sp = modules()
    try:
        if case['t'] == 'pair':
            pair(case, o)
        elif case['t'] == 'history':
            history(case, o)
        elif case['t'] == 'absent':
            absent(case, o, d)
        else:
            whole(case, o, d)
    finally:
        sp.disable()
        sp.enable()


def pair(case, o):
    fill, flow, label, sp = modules()
    f = case['f']
    for rep in range(12):
        rng = np.random.default_rng([case['seed'], rep])
        args = make(rng, f)
        keep = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
        sp.enable()
        a = do(f, args)
        sp.disable()
        b = do(f, args)
        for k, (x, y) in enumerate(zip(args, keep)):
            if isinstance(x, np.ndarray) and not np.array_equal(x, y):
                o.bad('input:' + f, '%s changes its argument %d' % (f, k))
        w = same(f, args, a, b)
        tag = ', '.join('%s%s' % (x.dtype.str, x.shape) if isinstance(x, np.ndarray) else repr(x)[:40] for x in args)
        if w:
            o.bad('differs:' + f, '%s(%s): %s' % (f, tag, w))
        o.count('f_' + f)
        o.count('narrow', min(args[0].shape) < 3)
        o.case(len(np.unique(args[0])) > 1, f, *[x for x in args if isinstance(x, np.ndarray)])
        if rep == 0:
            o.sample = '%s(%s)' % (f, tag)


class Lines:
    """Number of lines of malstroem executed by Python"""
    def __enter__(self):
        self.n = 0
        me = self

        def local(fr, ev, arg):
            if ev == 'line':
                me.n += 1
            return local

        def glob(fr, ev, arg):
            return local if 'malstroem' + os.sep in fr.f_code.co_filename else None
        self.old = sys.gettrace()
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


PUBLIC = dict(accum=('flow', 'accumulated_flow'), trace=('flow', 'trace_accumulated_flow'), assign=('flow', 'assign_watersheds_upstream'), stats=('label', 'label_stats'),
              minindex=('label', 'label_min_index'), data=('label', 'label_data'))


def history(case, o):
    """After any sequence of switches the library is in the mode last asked for"""
    fill, flow, label, sp = modules()
    rng = np.random.default_rng([case['seed'], 5])
    n = 30
    jobs = []
    for f in FUNCS:
        args = make(np.random.default_rng([case['seed'], 6]), f, n)
        if f in ('fill', 'noflats'):
            args = (gen.layout(gen.dem(dict(seed=case['seed'], kind='smooth', shape=[n, n], scale='unit')), 'C'),) + args[1:]
        jobs.append((f, args))
    sp.disable()
    base = {f: do(f, a) for f, a in jobs}
    seq = []
    for _ in range(int(rng.integers(3, 7))):
        k = int(rng.integers(1, 4))
        for _ in range(k):
            on = bool(rng.random() < .5)
            (sp.enable if on else sp.disable)()
            seq.append('E' if on else 'D')
            o.count('switches')
        if bool(sp.enabled) != on:
            o.bad('flag', 'enabled is %r after %s' % (sp.enabled, ''.join(seq)))
        for j in rng.choice(len(jobs), 4, replace=False):
            f, args = jobs[int(j)]
            with Lines() as ln:
                got = do(f, args)
            w = same(f, args, got, base[f])
            if w:
                o.bad('history:' + f, '%s after %s: %s' % (f, ''.join(seq), w))
            o.event()
            if f == 'trace':
                continue
            cells = args[0].size
            if on:
                o.count('mode_native')
                if ln.n > 1.5 * cells:
                    o.bad('mode:' + f, '%s executes %d lines of Python on %d cells although speedups are enabled (%s)' % (f, ln.n, cells, ''.join(seq)))
            else:
                o.count('mode_pure')
                m = PUBLIC.get(f)
                py = m and isinstance(getattr(dict(flow=flow, label=label)[m[0]], m[1]), types.FunctionType)
                if ln.n < cells / 4 and not py and f != 'assign':
                    o.bad('mode:' + f, '%s executes %d lines of Python on %d cells although speedups are disabled (%s)' % (f, ln.n, cells, ''.join(seq)))
    o.count('histories')
    o.case(True, 'history', ''.join(seq), case['seed'])


ABSENT = """
class Absent:
    def find_spec(self, name, path=None, target=None):
        if name in %r:
            raise ImportError('not compiled here')
sys.meta_path.insert(0, Absent())
import warnings
warnings.simplefilter('ignore')
from malstroem.algorithms import speedups
assert not speedups.available, 'available'
assert not speedups.enabled, 'enabled'
for f in (speedups.enable, speedups.disable, speedups.enable, speedups.enable):
    f()
    assert not speedups.enabled, 'enabled later'
"""


def absent(case, o, d):
    """Compiled modules which cannot be imported"""
    import malstroem
    tree = os.path.dirname(os.path.dirname(os.path.abspath(malstroem.__file__)))
    names = ['malstroem.algorithms.speedups._' + n for n in ('fill', 'flow', 'label')]
    names = names if case['which'] == 3 else [names[case['which']]]
    b = pipe.run(dict(case, native=False), d)
    out = os.path.join(d, 'absent')
    os.makedirs(out)
    r = cli.proc(tree, cli.complete_args(os.path.join(d, 'dem.tif'), out, mm=case['mm'], res=case['res'], filt=pipe.filt(case), accum=case['accum'], vector=case['vector']), py_pre=ABSENT % (names,))
    tag = '%s %s without %s' % (case['kind'], case['shape'], ', '.join(n.split('.')[-1] for n in names))
    if r.returncode:
        o.bad('absent', '%s: complete ends with %s: %s' % (tag, r.returncode, r.stderr[-300:]))
        return
    got = cli.load_complete(out, case['accum'], case['vector'])
    for k in got:
        if k[:2] == 'L_':
            if got[k]['feats'] != b.l(k[2:]):
                o.bad('absent:layer:' + k, '%s: layer %s differs from that of the pure code' % (tag, k))
        else:
            orc.same(o, 'absent:' + k, got[k]['a'], b.a(k), tag, k)
    o.count('absent')
    o.case(b.a('bluespots').max() > 0, 'absent', b.z, names)


def whole(case, o, d):
    fill, flow, label, sp = modules()
    res = {}
    for native in (True, False):
        dd = os.path.join(d, str(native))
        os.makedirs(dd)
        res[native] = pipe.run(dict(case, native=native), dd)
    a, b = res[True], res[False]
    fa, fb = a.a('flowdir'), b.a('flowdir')
    tag = '%s %s' % (case['kind'], case['shape'])
    for k in ('filled', 'depths', 'bluespots'):
        orc.same(o, 'complete:' + k, a.a(k), b.a(k), tag, k)
    if not np.array_equal(fa, fb):
        nf = pipe.judge_nf(a)
        if (~tie(nf, fa.astype('f8'), fb.astype('f8')) & (fa != fb)).any():
            o.bad('complete:flowdir', '%s: flow directions of the two modes differ where slopes do not tie' % tag)
        o.count('tied_runs')
    else:
        for k in ('accum', 'watersheds', 'finaldepths', 'finalbluespots'):
            if k in a.raw:
                orc.same(o, 'complete:' + k, a.a(k), b.a(k), tag, k)
        for k in cli.LAYERS:
            if 'L_' + k in a.raw and a.l(k) != b.l(k):
                o.bad('complete:layer:' + k, '%s: layer %s differs between the modes' % (tag, k))
        o.count('complete')
    # the tool on the artefacts of one of them
    from malstroem import bluespots
    out = []
    for native in (True, False):
        (sp.enable if native else sp.disable)()
        lab, ws, pp = cli.MemRaster(gt=a.gt), cli.MemRaster(gt=a.gt), cli.MemVector()
        acc = cli.MemRaster(ref.accum(fa)[0].astype('f8'), a.gt) if case['accum'] else None
        t = bluespots.BluespotTool(cli.MemRaster(a.a('depths'), a.gt), cli.MemRaster(fa, a.gt), None, lab, pp, ws, input_accum=acc, input_dem=cli.MemRaster(a.z, a.gt))
        call('BluespotTool', t.process)
        out.append((lab.written[0], ws.written[0], pp.written[0]))
    sp.enable()
    for i, n in enumerate(('bluespots', 'watersheds')):
        orc.same(o, 'tool:' + n, out[0][i], out[1][i], tag, n)
    if out[0][2] != out[1][2]:
        o.bad('tool:pourpoints', '%s: pour points differ between the modes' % tag)
    o.count('tool')
    o.case(a.a('bluespots').max() > 0, 'complete', a.z)
    o.sample = pipe.sample(case, a)
