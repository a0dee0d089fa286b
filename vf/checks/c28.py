"""C28: inputs which do not belong together are refused"""
import hashlib, os, shutil
import numpy as np
from osgeo import ogr
from vf import gen, orc, pipe, cli
from vf.core import call, RepoError
from vf.checks import c23

RULE = ('every command taking several rasters x every one of them replaced by the same product of a DEM of other dimensions (a row or column more or less, transposed, one row, one column, one cell, same number of cells, much larger), '
        'tools and public functions with arrays of different shapes, types and layouts, native and pure, layers lacking a record, missing and unreadable inputs, missing and contradictory options, cells which are not square; '
        'output location empty or holding earlier outputs; every command also run with proper inputs; non-trivial: the replaced input is valid on its own; distinct by command, input and replacement')
RASTERS = dict(depths=['dem.tif', 'filled.tif'], wsheds=['bluespots.tif', 'flowdir.tif'], pourpts=['bluespots.tif', 'depths.tif', 'wsheds.tif', 'dem.tif', 'accum.tif'],
               network=['bluespots.tif', 'flowdir.tif'], initvolumes_pr=['wsheds.tif', 'rain.tif'], hyps=['bluespots.tif', 'dem.tif'], finalbluespots=['bluespots.tif', 'dem.tif'])
SIZES = ['row_less', 'col_less', 'row_more', 'col_more', 'transposed', 'one_row', 'one_col', 'one_cell', 'same_count', 'large', 'row_more_col_less']
REQUIRED = dict(filled=['-dem', '-out'], depths=['-dem', '-filled', '-out'], flowdir=['-dem', '-out'], accum=['-flowdir', '-out'], bspots=['-depths', '-out'], wsheds=['-bluespots', '-flowdir', '-out'],
                pourpts=['-bluespots', '-depths', '-watersheds', '-out'], polys=['-raster', '-out'], network=['-bluespots', '-flowdir', '-pourpoints', '-out'], initvolumes=['-nodes', '-out', '-mm'],
                initvolumes_pr=['-nodes', '-out', '-bluespots', '-pr'], finalvolumes=['-inputvolumes', '-out'], hyps=['-bluespots', '-dem', '-pourpoints', '-zresolution', '-out'],
                finallevels=['-finalvols', '-hyps', '-out'], finalbluespots=['-bluespots', '-dem', '-finallevels'], complete=['-dem', '-outdir', '-mm', '-zresolution'])
INPUTS = dict(filled=['-dem'], depths=['-dem', '-filled'], flowdir=['-dem'], accum=['-flowdir'], bspots=['-depths'], wsheds=['-bluespots', '-flowdir'], pourpts=['-bluespots', '-depths', '-watersheds', '-dem', '-accum'],
              polys=['-raster'], network=['-bluespots', '-flowdir', '-pourpoints'], initvolumes=['-nodes'], initvolumes_pr=['-nodes', '-bluespots', '-pr'], finalvolumes=['-inputvolumes'],
              hyps=['-bluespots', '-dem', '-pourpoints'], finallevels=['-finalvols', '-hyps'], finalbluespots=['-bluespots', '-dem', '-finallevels'], complete=['-dem'])
MISUSE = ['both_waters', 'no_water', 'no_bluespots', 'zero_and_raster', 'no_direction_source', 'no_outputs', 'zres_zero', 'zres_negative', 'zres_nan', 'complete_zres', 'complete_oblong', 'complete_oblong_rotated',
          'other_count_more', 'other_count_less', 'other_cells', 'levels_lack', 'levels_lack_last', 'hyps_lack', 'pourpoints_lack', 'no_layer', 'no_attribute', 'no_format', 'no_unit']
FUNCS = ['stats', 'minindex', 'maxindex', 'data', 'watersheds', 'hypso', 'approx']
TOOLS = ['BluespotTool depths', 'BluespotTool flowdir', 'BluespotTool dem', 'BluespotTool accum', 'StreamTool', 'RasterVolumeTool', 'bluespot_hypsometry_io', 'approx_bluespots_io', 'DemTool oblong', 'BluespotTool oblong']
MUST_OBSERVE = ['s_%s_%s' % (c, r) for c in RASTERS for r in RASTERS[c]] + ['z_' + s for s in SIZES] + ['m_' + m for m in MISUSE] + ['f_' + f for f in FUNCS] + ['t_' + t for t in TOOLS] + \
    ['option_missing', 'input_missing', 'input_text', 'accepted', 'earlier_outputs', 'empty_place', 'native', 'pure']
MIN_EVENTS = 500
CPU_LIMIT = 90


def cases(seed, tier):
    n = 44 if tier == 'quick' else 1200
    out = []
    for i in range(n):
        out.append(dict(t='commands', seed=seed * 1000003 + i, first=i))
        out.append(dict(t='arrays', seed=seed * 1000003 + i, first=i))
    return out


def run_case(case, o, d):
    dict(commands=commands, arrays=arrays)[case['t']](case, o, d)


def other_shape(rng, how, h, w):
    return {'row_less': (h - 1, w), 'col_less': (h, w - 1), 'row_more': (h + 1, w), 'col_more': (h, w + 1), 'transposed': (w, h), 'one_row': (1, w), 'one_col': (h, 1), 'one_cell': (1, 1),
            'same_count': (h * 2, w // 2), 'large': (h * 3 + 1, w * 4), 'row_more_col_less': (h + 1, w - 1)}[how]


def products(rng, d, shape, like=None):
    """A DEM with everything derived from it"""
    os.makedirs(d, exist_ok=True)
    z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(['pits', 'white', 'pitgrid', 'quant'])), shape=list(shape), scale='unit'))
    dem = cli.write_tif(os.path.join(d, 'dem.tif'), z)
    cli.write_tif(os.path.join(d, 'rain.tif'), (rng.random(shape) * 50).astype('f4'))
    return z, dem


def stored(path):
    """Everything below a directory"""
    out = {}
    for b, ds, fs in os.walk(path):
        for f in fs:
            p = os.path.join(b, f)
            out[os.path.relpath(p, path)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        for f in ds:
            out[os.path.relpath(os.path.join(b, f), path)] = 'dir'
    return out


def refused(o, name, args, place, tag, whole=True):
    """The command must fail and leave the place of its outputs as it is"""
    before = stored(place)
    code, text, exc = cli.run(args)
    if code == 0:
        o.bad('accepted', '%s ends with exit status 0' % tag)
    after = stored(place)
    if whole and after != before:
        new = sorted(set(after) - set(before))
        diff = [k for k in before if after.get(k) != before[k]]
        o.bad('output', '%s was refused, but left new files %s and changed %s' % (tag, new[:4], diff[:4]))
    o.count('earlier_outputs' if before else 'empty_place')
    return code, text, exc


def without(args, opt):
    i = args.index(opt)
    return args[:i] + args[i + 2:]


def instead(args, opt, val):
    args = list(args)
    args[args.index(opt) + 1] = val
    return args


def lacking(src, layer, dst, dst_layer, drop):
    """Copy of a layer without some records"""
    s = ogr.Open(src)
    L = s.GetLayerByName(layer)
    ds = ogr.GetDriverByName('GPKG').CreateDataSource(dst)
    q = ds.CopyLayer(L, dst_layer)
    for f in list(q):
        if drop(f):
            q.DeleteFeature(f.GetFID())
    q = None
    ds = None
    L = None
    s = None
    return dst


def commands(case, o, d):
    rng = np.random.default_rng([case['seed'], 281])
    h, w = (int(x) for x in rng.integers(7, 20, 2))
    h += h == w
    w += w % 2
    h += h == w
    A = os.path.join(d, 'a')
    z, dem = products(rng, A, (h, w))
    fmt = str(rng.choice(['gpkg', 'gpkg', 'GeoJSON', 'SQLite']))
    acc = bool(rng.random() < .5)
    mk = lambda D: c23.steps(D, os.path.join(D, 'dem.tif'), fmt, 5.0 if acc else 20.0, .1, None)
    S = {n: (f, outs) for n, f, outs in mk(A)}
    for n in S:
        f = S[n][0]
        if n == 'complete':
            os.mkdir(os.path.join(A, 'outdir'))
        cli.ok([n.split('_')[0]] + f(lambda x: os.path.join(A, x)))
        o.count('accepted')
    nb = int(cli.arr(os.path.join(A, 'bluespots.tif')).max())

    def place():
        """Where the refused command is to write: nothing there, or outputs of an earlier run"""
        p = os.path.join(d, 'out%d' % len(os.listdir(d)))
        os.mkdir(p)
        if rng.random() < .5:
            for n in S:
                for x in S[n][1]:
                    x = x[0] if isinstance(x, tuple) else x
                    if os.path.isfile(os.path.join(A, x)) and not os.path.exists(os.path.join(p, x)):
                        shutil.copy(os.path.join(A, x), os.path.join(p, x))
        return p

    def args(n, p):
        return S[n][0](lambda x: os.path.join(p, x))

    what = '%s DEM, %s' % ((h, w), fmt)
    # rasters of other dimensions
    names = [(c, r) for c in RASTERS for r in RASTERS[c]]
    size = SIZES[case['first'] % len(SIZES)]
    osh = other_shape(rng, size, h, w)
    B = os.path.join(d, 'b')
    products(rng, B, osh)
    for n, f, outs in mk(B)[:6]:
        cli.ok([n] + f(lambda x: os.path.join(B, x)))
    for c, r in names:
        if r == ('dem.tif' if acc else 'accum.tif') and c == 'pourpts':
            continue
        p = place()
        a = args(c, p)
        src = os.path.join(A, r)
        a = [os.path.join(B, r) if x == src else x for x in a]
        refused(o, c, [c.split('_')[0]] + a, p, '%s with %s of shape %s (%s)' % (c, r, osh, what))
        o.count('s_%s_%s' % (c, r)); o.count('z_' + size)
        o.case(True, c, r, osh, z)
    # options left out, inputs missing
    bad = os.path.join(d, 'text.tif')
    open(bad, 'w').write('no raster and no layer\n' * 30)
    cs = list(REQUIRED)
    for j in range(4):
        c = cs[(case['first'] * 4 + j) % len(cs)]
        for opt in REQUIRED[c]:
            p = place() if c != 'complete' else os.path.join(d, 'cdir%d' % len(os.listdir(d)))
            if c == 'complete':
                os.makedirs(os.path.join(p, 'outdir'))
            refused(o, c, [c.split('_')[0]] + without(args(c, p), opt), p, '%s without %s (%s)' % (c, opt, what))
            o.count('option_missing')
        for opt in INPUTS[c]:
            if opt not in args(c, d):
                continue
            for k, v in (('input_missing', os.path.join(d, 'not', 'there.tif')), ('input_text', bad)):
                p = place() if c != 'complete' else os.path.join(d, 'cdir%d' % len(os.listdir(d)))
                if c == 'complete':
                    os.makedirs(os.path.join(p, 'outdir'))
                refused(o, c, [c.split('_')[0]] + instead(args(c, p), opt, v), p, '%s with %s for %s (%s)' % (c, k, opt, what))
                o.count(k)
    for m in MISUSE:
        misuse(m, o, d, A, S, args, place, rng, what, fmt, nb, z, acc)


def misuse(m, o, d, A, S, args, place, rng, what, fmt, nb, z, acc):
    P = lambda n: os.path.join(A, n)
    p = place()
    whole = True
    layer = {n: outs[0] for n, (f, outs) in S.items() if isinstance(outs[0], tuple)}
    iv = lambda: args('initvolumes', p)
    ip = lambda: args('initvolumes_pr', p)
    if m == 'both_waters':
        n, a = 'initvolumes', iv() + ['-pr', P('rain.tif'), '-bluespots', P('wsheds.tif')]
    elif m == 'zero_and_raster':
        n, a = 'initvolumes', ip() + ['-mm', '0']
    elif m == 'no_water':
        n, a = 'initvolumes', without(iv(), '-mm')
    elif m == 'no_bluespots':
        n, a = 'initvolumes', without(ip(), '-bluespots')
    elif m == 'no_direction_source':
        n, a = 'pourpts', without(args('pourpts', p), '-accum' if acc else '-dem')
    elif m == 'no_outputs':
        n, a = 'finalbluespots', without(without(args('finalbluespots', p), '-out_depths'), '-out_bluespots')
    elif m in ('zres_zero', 'zres_negative', 'zres_nan'):
        n, a = 'hyps', instead(args('hyps', p), '-zresolution', {'zres_zero': '0', 'zres_negative': '-0.1', 'zres_nan': 'nan'}[m])
    elif m[:8] == 'complete':
        p = os.path.join(d, 'c_' + m)
        os.makedirs(os.path.join(p, 'outdir'))
        n, a = 'complete', args('complete', p)
        if m == 'complete_zres':
            a = instead(a, '-zresolution', str(rng.choice(['0', '-1', '0.0'])))
            whole = False
        else:
            k = float(rng.choice([2, .5, 1.2, 1.02, .97]))
            gt = (5.0, 2.0, 0.0, 9.0, 0.0, -2.0 * k) if m == 'complete_oblong' else (5.0, 1.2, 1.6 * k, 9.0, 1.6, -1.2 * k)
            a = instead(a, '-dem', cli.write_tif(os.path.join(d, m + '.tif'), z, gt=gt))
    elif m in ('other_count_more', 'other_count_less'):
        if nb < 2:
            return
        l = cli.arr(P('bluespots.tif'))
        l = np.where(l == nb, 0, l) if m == 'other_count_less' else np.where((np.arange(l.size) == 3).reshape(l.shape), nb + 1, l)
        q = cli.write_tif(os.path.join(d, m + '.tif'), l.astype('i4'), nodata=0)
        n, a = 'hyps', instead(args('hyps', p), '-bluespots', q)
    elif m == 'other_cells':
        q = cli.write_tif(os.path.join(d, m + '.tif'), z, gt=tuple(x * 2 for x in cli.GT))
        n, a = 'hyps', instead(args('hyps', p), '-dem', q)
    elif m in ('levels_lack', 'levels_lack_last', 'hyps_lack', 'pourpoints_lack'):
        if nb < 2:
            return
        k = nb if m == 'levels_lack_last' else int(rng.integers(1, nb))
        n, opt, src = {'l': ('finalbluespots', '-finallevels', 'finallevels'), 'h': ('finallevels', '-hyps', 'hyps'), 'p': ('hyps', '-pourpoints', 'pourpts')}[m[0]]
        q = lacking(P(layer[src][0]), layer[src][1], os.path.join(d, m + '.gpkg'), 'L', lambda f: f.GetField('bspot_id') == k)
        if len(cli.read_layer(q, 'L')['feats']) >= len(cli.read_layer(P(layer[src][0]), layer[src][1])['feats']):
            raise AssertionError('nothing left out')
        a = instead(instead(args(n, p), opt, q), opt + '_layer', 'L')
    elif m == 'no_layer':
        n = str(rng.choice(['network', 'initvolumes', 'initvolumes_pr', 'finalvolumes', 'hyps', 'finallevels', 'finalbluespots']))
        a = args(n, p)
        opts = [x for x in a if isinstance(x, str) and x.endswith('_layer') and not x.startswith('-out')]
        a = instead(a, str(rng.choice(opts)), 'no such layer')
    elif m == 'no_attribute':
        n, a = 'finalvolumes', args('finalvolumes', p) + ['-a', 'nosuch']
    elif m == 'no_format':
        # an existing data source is written to whatever its format
        p = os.path.join(d, 'fmt')
        os.mkdir(p)
        n = str(rng.choice(['pourpts', 'polys', 'network', 'initvolumes', 'finalvolumes', 'hyps', 'finallevels']))
        a = instead(args(n, p), '-format', 'no such format')
    elif m == 'no_unit':
        n, a = 'initvolumes', instead(ip(), '-pr_unit', str(rng.choice(['cm', 'MM', 'inch', ''])))
    refused(o, n, [n.split('_')[0]] + a, p, '%s: %s (%s)' % (n, m, what), whole)
    o.count('m_' + m)
    o.case(True, m, what, z)


def refuse(o, tag, fn):
    try:
        fn()
    except Exception:
        return True
    o.bad('accepted', '%s is accepted' % tag)
    return False


def arrays(case, o, d):
    from malstroem.algorithms import label, flow, speedups
    from malstroem import hyps, approx, bluespots, streams, rain, dem as demtool
    rng = np.random.default_rng([case['seed'], 282])
    for rep in range(6):
        h, w = (int(x) for x in rng.integers(4, 24, 2))
        h += h == w
        w += w % 2
        h += h == w
        native = bool((case['first'] + rep) % 2)
        size = SIZES[(case['first'] + rep) % len(SIZES)]
        osh = other_shape(rng, size, h, w)
        small = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind='white', shape=[h, w], scale='unit'))
        (speedups.enable if native else speedups.disable)()
        try:
            def lab(shape, t=None):
                return gen.layout(rng.integers(0, 5, shape).astype(t or str(rng.choice(['i4', 'i4', 'i8', 'i2', 'u1', 'u2']))), str(rng.choice(gen.LAYOUTS)))

            def dat(shape):
                return gen.layout((rng.random(shape) * 9).astype(str(rng.choice(['f4', 'f8', 'i2']))), str(rng.choice(gen.LAYOUTS)))

            def fdir(shape):
                return np.full(shape, int(rng.integers(8)), 'u1')
            lv = {k: float(k) for k in range(5)}
            F = dict(stats=lambda x, l: label.label_stats(x, l), minindex=lambda x, l: label.label_min_index(x, l), maxindex=lambda x, l: label.label_max_index(x, l), data=lambda x, l: list(label.label_data(x, l)),
                     hypso=lambda x, l: list(hyps.bluespot_hypsometry_stats(l, x, .5)), approx=lambda x, l: approx.approx_bluespots(l, lv, x))
            for f in FUNCS:
                for sx, sl in (((h, w), osh), (osh, (h, w))):
                    tag = '%s of %s by %s (%s)' % (f, sx, sl, 'native' if native else 'pure')
                    if f == 'watersheds':
                        x, l = fdir(sx), np.ascontiguousarray(lab(sl, str(rng.choice(['i4', 'i8', 'i2']))))
                        fn = lambda: flow.watersheds_from_labels(x, l, 0)
                    else:
                        x, l = dat(sx), lab(sl)
                        if l.max() == 0:
                            continue
                        fn = lambda: F[f](x, l)
                    kx, kl = x.copy(), l.copy()
                    refuse(o, tag, fn)
                    if f != 'approx' and not (np.array_equal(x, kx) and np.array_equal(l, kl)):
                        o.bad('changed', '%s changes the arrays' % tag)
                    o.count('f_' + f); o.count('native' if native else 'pure')
                    o.case(True, f, sx, sl, kx, kl)
                # what belongs together is accepted
                x, l = dat((h, w)), lab((h, w))
                if f == 'watersheds':
                    l = np.ascontiguousarray(lab((h, w), 'i4'))
                    call(f, flow.watersheds_from_labels, fdir((h, w)), l, 0)
                elif l.max() == 4:
                    call(f, F[f], x, l)
                o.count('accepted')
            tools(o, rng, small, (h, w), osh, native)
        finally:
            speedups.enable()


def tools(o, rng, z, sh, osh, native):
    from malstroem import bluespots, streams, rain, hyps, approx, dem as demtool
    R, V = cli.MemRaster, cli.MemVector
    gt = pipe.GTS[0]

    def rasters(z):
        W = {k: R(None, gt) for k in ('filled', 'flowdir', 'depths', 'accum')}
        call('DemTool', demtool.DemTool(R(z, gt), W['filled'], W['flowdir'], W['depths'], W['accum']).process)
        return {k: v.written[0] for k, v in W.items()}
    a = rasters(z)
    a['dem'] = z
    y = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind='white', shape=list(osh), scale='unit'))
    b = rasters(y)
    b['dem'] = y

    def spots(r, gt=gt):
        lab, pp, ws = R(None, gt), V(), R(None, gt)
        use = 'accum' if 'accum' in r else 'dem'
        return (lab, pp, ws), bluespots.BluespotTool(R(r['depths'], gt), R(r['flowdir'], gt), None, lab, pp, ws, **{'input_' + use: R(r[use], gt)})
    for use in ('accum', 'dem'):
        good = {k: a[k] for k in ('depths', 'flowdir', use)}
        (lab, pp, ws), t = spots(good)
        call('BluespotTool', t.process)
        for k in good:
            r = dict(good, **{k: b[k]})
            (l2, p2, w2), t = spots(r)
            refuse(o, 'BluespotTool with %s of %s for %s' % (k, osh, sh), t.process)
            if p2.written:
                o.bad('output', 'BluespotTool with %s of %s for %s writes pour points' % (k, osh, sh))
            o.count('t_BluespotTool ' + k)
    L, P, W = lab.written[0], pp.written[0], ws.written[0]
    (lab, pp, ws), t = spots({k: b[k] for k in ('depths', 'flowdir', 'dem')})
    call('BluespotTool', t.process)
    Lb, Wb = lab.written[0], ws.written[0]
    for l, f in ((L, b['flowdir']), (Lb, a['flowdir'])):
        n, s = V(), V()
        refuse(o, 'StreamTool with labels %s and directions %s' % (l.shape, f.shape), streams.StreamTool(V(P), R(l, gt), R(f, gt), n, s).process)
        if n.written or s.written:
            o.bad('output', 'StreamTool with labels %s and directions %s writes' % (l.shape, f.shape))
    o.count('t_StreamTool')
    n, s = V(), V()
    call('StreamTool', streams.StreamTool(V(P), R(L, gt), R(a['flowdir'], gt), n, s).process)
    N = n.written[0]
    for l, x in ((W, y), (Wb, z)):
        v = V()
        refuse(o, 'RasterVolumeTool with IDs %s and water %s' % (l.shape, x.shape), rain.RasterVolumeTool(V(N), R(l, gt), R(x, gt), rain.Unit.mm, v, 'inputv').process)
        if v.written:
            o.bad('output', 'RasterVolumeTool with IDs %s and water %s writes' % (l.shape, x.shape))
    o.count('t_RasterVolumeTool')
    lev = [dict(type='Feature', id=k, geometry=None, properties=dict(bspot_id=k, nodetype='pourpoint', approx_z=float(k))) for k in range(max(int(L.max()), int(Lb.max())) + 1)]
    for l, x in ((L, y), (Lb, z)):
        v = V()
        refuse(o, 'bluespot_hypsometry_io with IDs %s and terrain %s' % (l.shape, x.shape), lambda: hyps.bluespot_hypsometry_io(R(l, gt), R(x, gt), V(P), .5, v))
        q, u = R(None, gt), R(None, gt)
        refuse(o, 'approx_bluespots_io with IDs %s and terrain %s' % (l.shape, x.shape), lambda: approx.approx_bluespots_io(R(l, gt), V(lev), R(x, gt), q, u))
        if v.written or q.written or u.written:
            o.bad('output', 'IDs %s and terrain %s are refused after writing' % (l.shape, x.shape))
    o.count('t_bluespot_hypsometry_io'); o.count('t_approx_bluespots_io')
    k = float(rng.choice([2, .5, 1.2, 1.02, .97, 1.5]))
    ob = [(5.0, 2.0, 0.0, 9.0, 0.0, -2.0 * k), (5.0, 1.2, 1.6 * k, 9.0, 1.6, -1.2 * k), (5.0, -2.0 * k, 0.0, 9.0, 0.0, 2.0), (5.0, 0.0, 2.0, 9.0, 2.0 * k, 0.0)][int(rng.integers(4))]
    W4 = [R(None, ob) for _ in range(4)]
    refuse(o, 'DemTool with cells of transform %s' % (ob,), demtool.DemTool(R(z, ob), *W4).process)
    o.count('t_DemTool oblong')
    (lab, pp, ws), t = spots({k: a[k] for k in ('depths', 'flowdir', 'dem')}, ob)
    refuse(o, 'BluespotTool with cells of transform %s' % (ob,), t.process)
    if any(x.written for x in W4) or lab.written or pp.written or ws.written:
        o.bad('output', 'cells of transform %s are refused after writing' % (ob,))
    o.count('t_BluespotTool oblong')
    sq = [(5.0, 2.0, 0.0, 9.0, 0.0, -2.008), (5.0, 1.2, 1.6, 9.0, 1.6, -1.2), (5.0, -2.0, 0.0, 9.0, 0.0, 2.0), (5.0, 0.0, 2.0, 9.0, 2.0, 0.0)][int(rng.integers(4))]
    call('DemTool', demtool.DemTool(R(z, sq), *[R(None, sq) for _ in range(4)]).process)
    (lab, pp, ws), t = spots({k: a[k] for k in ('depths', 'flowdir', 'dem')}, sq)
    call('BluespotTool', t.process)
    o.count('accepted', 2)
