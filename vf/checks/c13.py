"""C13: hypsometry"""
import json, os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('terrain of every scale (negative, straddling zero, large offsets, whole multiples of the resolution) x label rasters x resolutions x element types x layouts, native and pure, through '
        'bluespot_hypsometry_stats, bluespot_hypsometry_io with read back, the hyps command in four formats and complete/chain; non-trivial: a bluespot with more than one bin; '
        'distinct by inputs and route')
MUST_OBSERVE = ['beyond_65535_ids', 'bins', 'api', 'io', 'command', 'pipeline', 'native', 'pure', 'read_back', 'negative_terrain', 'gap_labels', 'other_background']
MIN_EVENTS = 300
RES = [.1, .1, .05, .25, .01, .3, 1 / 3, 1.0, 2.5, 10.0, .7, .2]


def cases(seed, tier):
    rng = np.random.default_rng([seed, 113])
    n = 600 if tier == 'quick' else 12000
    out = []
    for i in range(n):
        t = ['api', 'io', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4), t=t))
            continue
        out.append(dict(t=t, seed=int(rng.integers(1 << 31)), shape=gen.shapes(rng, 26), kind=str(rng.choice(gen.NAMES)), scale=str(rng.choice(['unit', 'cm', 'neg', 'straddle', 'big', 'low', 'int', 'grid', 'grid', 'tiny'])),
                        res=float(rng.choice(RES)), dtype=str(rng.choice(['f4', 'f4', 'f4', 'f8', 'i2', 'i4'])), ltype=str(rng.choice(['i4', 'i4', 'u1', 'i2', 'u2', 'i8'])), layout=str(rng.choice(gen.LAYOUTS)),
                        native=bool(rng.random() < .6), labels=str(rng.choice(['blobs', 'dense', 'single', 'row'])), fmt=str(rng.choice(['gpkg', 'CSV', 'GeoJSON', 'SQLite'])),
                        gt=int(rng.integers(len(pipe.GTS))), given=bool(rng.random() < .5), reps=8 if t == 'api' else 4 if t == 'io' else 1))
    # more cells in a bin than 16 bit integers count
    for k in range(3 if tier == 'quick' else 20):
        out.insert(0, dict(t=['api', 'io', 'command'][k % 3], seed=int(rng.integers(1 << 31)), shape=[290, int(rng.integers(270, 400))], kind=str(rng.choice(['const', 'quant', 'pits'])), scale='int', res=float(rng.choice([10.0, 2.5])), dtype=['f4', 'i2'][k // 3 % 2],
                           ltype='i4', layout='C', native=True, labels='whole', fmt=str(rng.choice(['gpkg', 'CSV', 'GeoJSON', 'SQLite'])), gt=int(rng.integers(len(pipe.GTS))), given=True, reps=1))
    # a bluespot of more than a million cells
    out.insert(0, dict(t=['api', 'io'][seed % 2], seed=int(rng.integers(1 << 31)), shape=[1090, 1001], kind='quant', scale='int', res=2.5, dtype='f4', ltype='i4', layout='C', native=True, labels='whole', fmt='gpkg', gt=0, given=True, reps=1))
    # more IDs than 16 bits hold
    for k in range(2 if tier == 'quick' else 12):
        out.insert(0, dict(t=['api', 'io', 'command'][k % 3], seed=int(rng.integers(1 << 31)), shape=[525, 531 + k], kind='white', scale='unit', res=.25, dtype='f4', ltype='i4', layout='C', native=True, labels='dots',
                           fmt='gpkg', gt=int(rng.integers(len(pipe.GTS))), given=bool(k % 2), reps=1))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def inputs(case, rep):
    rng = np.random.default_rng([case['seed'], rep, 13])
    h, w = case['shape'] if rep % 2 == 0 else case['shape'][::-1]
    res = case['res']
    if case['scale'] == 'grid':
        # elevations on, just above and just below bin borders
        z = rng.integers(-30, 30, (h, w)) * res + rng.choice([0, 0, 0, res / 2, 1e-7, -1e-7], (h, w))
        if rep % 4 == 1:
            # decimals as they are written, which are not always below the multiple of the resolution
            z = np.round(z, 10)
        if case['dtype'] != 'f8':
            z = z.astype('f4')
    else:
        z = gen.dem(dict(seed=[case['seed'], rep], kind=case['kind'], shape=[h, w], scale=case['scale']))
    if case['dtype'][0] == 'i':
        z = np.clip(np.round(z.astype('f8')), -30000, 30000)
    z = z.astype(case['dtype'])
    span = float(z.max()) - float(z.min())
    while span / res > 3000:
        res *= 10
    how = case['labels']
    if how == 'blobs':
        lab = ref.regions((gen.smooth(rng, h, w, 2) > .5).astype('i8'))[0]
    elif how == 'whole':
        lab = np.ones((h, w), 'i8')
        lab[0, :3] = 0
    elif how == 'dense':
        lab = rng.integers(0, 9, (h, w))
    elif how == 'single':
        lab = np.zeros((h, w), 'i8')
        lab.ravel()[rng.choice(h * w, min(5, h * w), replace=False)] = np.arange(1, min(5, h * w) + 1)
    else:
        lab = np.repeat(np.arange(h)[:, None], w, 1) + int(rng.random() < .5)
    if how == 'dots':
        return rng, z, gen.dots(h, w).astype(case['ltype']), res
    lab = np.minimum(lab, 120)
    # every ID from 1 to the highest occurs, as in every ID raster
    if case['t'] != 'api':
        lab.ravel()[0] = 0
    u = np.unique(np.concatenate(([0], lab.ravel())))
    lab = np.searchsorted(u, lab).astype(case['ltype'])
    return rng, z, lab, res


def pps(lab, gt):
    out = []
    for k in range(int(lab.max()) + 1):
        x, y = orc.center(gt, k % lab.shape[0], 0)
        out.append(dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[x, y]),
                        properties=dict(bspot_id=k, cell_row=k % lab.shape[0], cell_col=0, bspot_dmax=k * .3, bspot_area=float((lab == k).sum()), bspot_vol=k / 7, wshed_area=k + 5.25, bspot_fumm=k * 1.1)))
    return out


def back(o, feats, z, lab, res, tag, prec=0.0):
    """The statistics survive being written and read back"""
    from malstroem.hyps import hypsometrystats_from_flatdict
    st = ref.stats(z, lab, int(lab.max()))
    for f in feats:
        p = f['props']
        k = int(p['bspot_id'])
        h = call('hypsometrystats_from_flatdict', hypsometrystats_from_flatdict, p)
        b = h.zhistogram.bins
        if k:
            orc.bins(o, k, st[k]['values'], dict(counts=h.zhistogram.counts, num_bins=b.num_bins, lower=b.lower_bound, upper=b.upper_bound, res=b.resolution, zmin=h.zmin, zmax=h.zmax), res,
                     tag + ' read back', z.dtype == np.float32, prec)
            o.count('read_back')
        elif len(h.zhistogram.counts):
            o.bad('background', '%s: the background has a histogram' % tag)


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    from malstroem import hyps
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        orc.hyps(o, art.l('hypsometry'), art.z, art.a('bluespots'), case['res'], case['mode'], art.l('pourpoints'))
        back(o, art.l('hypsometry'), art.z, art.a('bluespots'), case['res'], case['mode'])
        o.count('pipeline')
        o.case(art.a('bluespots').max() > 0, art.z, case['mode'], case['filt'], case['res'])
        o.sample = pipe.sample(case, art)
        return
    gt = pipe.GTS[case['gt']]
    for rep in range(case['reps']):
        rng, z, lab, res = inputs(case, rep)
        n = int(lab.max())
        tag = '%s %s %s %s %s res %r' % (t, case['labels'], case['dtype'], case['ltype'], z.shape, res)
        o.count('beyond_65535_ids', n > 65535)
        o.count('native' if case['native'] else 'pure'); o.count('negative_terrain', z.min() < 0)
        (speedups.enable if case['native'] else speedups.disable)()
        try:
            if t == 'api':
                lmax = n
                a, b = gen.layout(z, case['layout']), gen.layout(lab, case['layout'])
                bg = 0
                if rep % 3 == 2 and len(np.unique(lab)) == n + 1:
                    bg = int(rng.integers(n + 1))
                    o.count('other_background', bg != 0)
                    got = call('bluespot_hypsometry_stats', lambda: list(hyps.bluespot_hypsometry_stats(b, a, res, n if case['given'] else None, background=bg)))
                elif case['given']:
                    # labels without cells at the end are not asked for: they have no terrain
                    got = call('bluespot_hypsometry_stats', lambda: list(hyps.bluespot_hypsometry_stats(b, a, res, n)))
                else:
                    got = call('bluespot_hypsometry_stats', lambda: list(hyps.bluespot_hypsometry_stats(b, a, res)))
                if [k for k, _ in got] != list(range(n + 1)):
                    o.bad('ids', '%s: statistics of labels %s, expected 0..%d' % (tag, [k for k, _ in got][:10], n))
                    continue
                st = ref.stats(z, lab, n)
                for k, s in got:
                    q = s.zhistogram.bins
                    if k == bg and len(s.zhistogram.counts):
                        o.bad('background', '%s: the background %d has a histogram' % (tag, bg))
                    if k != bg:
                        orc.bins(o, k, st[k]['values'], dict(counts=s.zhistogram.counts, num_bins=q.num_bins, lower=q.lower_bound, upper=q.upper_bound, res=q.resolution, zmin=s.zmin, zmax=s.zmax),
                                 res, tag, z.dtype == np.float32)
                        try:
                            hyps.assert_hypsometrystats_valid(s)
                        except AssertionError as e:
                            o.bad('valid', '%s: the library rejects its own statistics: %s' % (tag, e))
                if not np.array_equal(a, z) or not np.array_equal(b, lab):
                    o.bad('input', '%s: inputs were changed' % tag)
                o.count('api')
            else:
                # two labels of the layer in another order
                P = pps(lab, gt)
                if rep % 2:
                    P = [P[i] for i in rng.permutation(len(P))]
                    o.count('gap_labels')
                before = cli.as_feats(P)
                if t == 'io':
                    w = cli.MemVector()
                    call('bluespot_hypsometry_io', hyps.bluespot_hypsometry_io, cli.MemRaster(gen.layout(lab, case['layout']), gt), cli.MemRaster(gen.layout(z, case['layout']), gt), cli.MemVector(P), res, w)
                    feats = cli.as_feats(w.written[0])
                    o.count('io')
                else:
                    Q = lambda x: os.path.join(d, x)
                    l4 = lab.astype('i4') if case['ltype'] == 'i8' else lab
                    cli.write_tif(Q('z.tif'), z, gt=gt); cli.write_tif(Q('l.tif'), l4, gt=gt, nodata=0)
                    with open(Q('pp.geojson'), 'w') as f:
                        json.dump(dict(type='FeatureCollection', features=P), f)
                    fmt = case['fmt']
                    out = Q('hyps.' + cli.EXT[fmt])
                    cli.ok(['hyps', '-bluespots', Q('l.tif'), '-dem', Q('z.tif'), '-pourpoints', Q('pp.geojson'), '-pourpoints_layer', 'pp', '-zresolution', repr(res), '-out', out, '-format', fmt])
                    feats = cli.read_layer(out, 'hyps')['feats']
                    if fmt == 'CSV':
                        for f in feats:
                            f['props'] = {a: v if a == 'hist_counts' or v in ('', None) else float(v) for a, v in f['props'].items()}
                    o.count('command')
                # text formats keep 15 digits
                prec = 6e-15 if t == 'command' and case['fmt'] in ('CSV', 'GeoJSON') else 0.0
                orc.hyps(o, feats, z, lab, res, tag, before, prec)
                back(o, feats, z, lab, res, tag, prec)
                ca = orc.cell_area(gt)
                for f in feats:
                    if not orc.close(f['props'].get('cell_area'), ca, 1e-9):
                        o.bad('cellarea', '%s: cell area %r, the cells measure %r' % (tag, f['props'].get('cell_area'), ca))
                        break
        finally:
            speedups.enable()
        o.case(n > 0 and float(z.max()) - float(z.min()) > res, z, lab, res, t, case['native'])
