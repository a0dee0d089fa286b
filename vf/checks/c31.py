"""C31: results keep their form when the terrain is scaled, mirrored or turned"""
import json, os
import numpy as np
from vf import gen, orc, pipe, cli
from vf.core import call

RULE = ('terrain x elevations multiplied by powers of two from 2^-48 to 2^40 (rain, resolution and thresholds along with them), cells enlarged or reduced by powers of two, both; complete runs and chains; every raster and layer '
        'compared exactly after undoing the scale; the eight mirrored and turned versions of a terrain: filled terrain, slope-preserving fill, depths, bluespots with their measures, number and area of watersheds; non-trivial: at least one bluespot; distinct by terrain and change')
MUST_OBSERVE = ['z_up', 'z_down', 'z_far_up', 'z_far_down', 'cells_up', 'cells_down', 'both', 'turned', 'chain', 'complete', 'filtered', 'accum', 'pure', 'partly_filled', 'api_fill', 'bluespots']
MIN_EVENTS = 300
CPU_LIMIT = 90


def cases(seed, tier):
    rng = np.random.default_rng([seed, 131])
    n = 100 if tier == 'quick' else 4000
    out = []
    for i in range(n):
        t = ['scale', 'turn'][i % 2]
        p = pipe.params(rng, i // 2, nodata='')
        if p['scale'] in ('huge', 'tiny'):
            p['scale'] = 'unit'
            p['res'] = .1
        p['t'] = t
        p['res'] = float(rng.choice([.1, .25, .05, .5]))
        if rng.random() < .25:
            p['native'] = False
            p['shape'] = [min(s, 24) for s in p['shape']]
        p['change'] = int(rng.integers(6))
        out.append(p)
    return out


def filters(rng, fz, fa):
    """The same filter in both units"""
    def th(f, v):
        return np.format_float_positional(float(v) * f, trim='0')
    k = int(rng.integers(6))
    a, m, v = float(rng.integers(1, 6)), float(rng.choice([.25, .5, 1, 1.5])), float(rng.choice([.5, 2, 3]))
    mk = lambda fz, fa: [None, None, 'area > ' + th(fa, a), 'maxdepth >= ' + th(fz, m), 'volume > %s or area < %s' % (th(fa * fz, v), th(fa, a)), 'maxdepth > %s and volume < %s' % (th(fz, m), th(fa * fz, v * 8))][k]
    return mk(1.0, 1.0), mk(fz, fa)


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    (speedups.enable if case['native'] else speedups.disable)()
    try:
        (scale if case['t'] == 'scale' else turn)(case, o, d)
    finally:
        speedups.enable()
    o.count('pure', not case['native'])


def go(case, d, z, gt, mm, res, filt):
    os.makedirs(d)
    dem = os.path.join(d, 'dem.tif')
    cli.write_tif(dem, z, gt=gt)
    if case['mode'] == 'complete':
        return cli.complete(dem, os.path.join(d, 'out'), mm=repr(mm), res=repr(res), filt=filt, accum=case['accum'], vector=False)
    os.makedirs(os.path.join(d, 'chain'))
    return cli.load_chain(cli.chain(dem, os.path.join(d, 'chain'), mm=repr(mm), res=repr(res), filt=filt, accum=case['accum'], polys=False))


# powers of (elevation, cell area) in each attribute
UNITS = dict(bspot_area=(0, 1), wshed_area=(0, 1), cell_area=(0, 1), bspot_vol=(1, 1), inputv=(1, 1), v=(1, 1), spillv=(1, 1), bspot_dmax=(1, 0), bspot_fumm=(1, 0), zmin=(1, 0), zmax=(1, 0),
             hist_lower_bound=(1, 0), hist_upper_bound=(1, 0), hist_resolution=(1, 0), approx_z=(1, 0), approx_dmax=(1, 0))
PLAIN = {'bspot_id', 'cell_row', 'cell_col', 'nodeid', 'nodetype', 'dstrnodeid', 'pctv', 'hist_counts', 'hist_num_bins'}


def scale(case, o, d):
    rng = np.random.default_rng([case['seed'], 31])
    z, _, _ = pipe.make_dem(case)
    z = z.astype('f4')
    gt = pipe.GTS[case['gt']]
    ch = case['change']
    ez = [int(rng.integers(1, 5)), -int(rng.integers(1, 5)), int(rng.integers(12, 41)), -int(rng.integers(12, 49)), 0, int(rng.integers(-6, 7))][ch]
    ec = [0, 0, 0, 0, int(rng.choice([-3, -2, -1, 1, 2, 3])), int(rng.choice([-2, -1, 1, 2]))][ch]
    fz, fc = 2.0 ** ez, 2.0 ** ec
    nz = np.abs(z[z != 0])
    if z.size and nz.size and (nz.min() < 1e-20 or nz.max() > 1e20):
        return
    f1, f2 = filters(rng, fz, fc * fc)
    mm = float(rng.choice([1, 5, 20, 100, 12.34, 500]))
    z2 = (z.astype('f8') * fz).astype('f4')
    a = go(case, os.path.join(d, 'a'), z, gt, mm, case['res'], f1)
    b = go(case, os.path.join(d, 'b'), z2, tuple(x * fc for x in gt), mm * fz, case['res'] * fz, f2)
    tag = '%s %s %s elevation x 2^%d, cells x 2^%d, res %g, filter %s' % (case['kind'], case['shape'], case['mode'], ez, ec, case['res'], f1)
    for k in cli.RASTERS:
        if k == 'accum' and not case['accum']:
            continue
        x, y = a[k]['a'].astype('f8'), b[k]['a'].astype('f8')
        if k in ('filled', 'depths', 'finaldepths'):
            x = x * fz
        if x.shape != y.shape or not np.array_equal(x, y):
            if x.shape != y.shape:
                o.bad('scale:' + k, '%s: %s has other dimensions' % (tag, k))
                continue
            p, n = orc.first(x != y)
            o.bad('scale:' + k, '%s: %s at %s is %r, expected %r (%d cells)' % (tag, k, p, y[p], x[p], n))
    for k in cli.LAYERS:
        if 'L_' + k not in a or k in ('finalbluespots', 'bluespots', 'watersheds'):
            continue
        A, B = a['L_' + k]['feats'], b['L_' + k]['feats']
        if len(A) != len(B):
            o.bad('scale:' + k, '%s: layer %s has %d and %d features' % (tag, k, len(A), len(B)))
            continue
        order = lambda f: tuple(float(f['props'][n]) if f['props'].get(n) is not None else -1 for n in ('nodeid', 'bspot_id'))
        for f, g in zip(sorted(A, key=order), sorted(B, key=order)):
            done = False
            for n, v in f['props'].items():
                w = g['props'].get(n)
                u = UNITS.get(n)
                if k == 'hypsometry' and f['props'].get('bspot_id') == 0 and n.startswith(('hist', 'z')):
                    # no statistics of the background
                    continue
                if u is None and n not in PLAIN:
                    continue
                want = v if u is None or v is None else float(v) * fz ** u[0] * (fc * fc) ** u[1]
                if want != w and not (isinstance(want, float) and orc.close(want, w, 1e-12, 0)):
                    o.bad('scale:%s:%s' % (k, n), '%s: %s of %s is %r, expected %r' % (tag, n, {q: f['props'].get(q) for q in ('nodeid', 'bspot_id')}, w, want))
                    done = True
                    break
            if f['geom'] and not done:
                for p, q in zip(f['geom']['coordinates'], g['geom']['coordinates']):
                    if any(not orc.close(p[j] * fc, q[j], 1e-12, 1e-9 * fc) for j in (0, 1)):
                        o.bad('scale:%s:geometry' % k, '%s: %s, expected %s times 2^%d' % (tag, q, p, ec))
                        done = True
                        break
            if done:
                break
    for f in a['L_finalstate']['feats']:
        o.count('partly_filled', 0 < f['props']['v'] < f['props']['bspot_vol'])
    nb = int(a['bluespots']['a'].max())
    o.count(['z_up', 'z_down', 'z_far_up', 'z_far_down', 'cells_up' if ec > 0 else 'cells_down', 'both'][ch])
    o.count(case['mode']); o.count('filtered', f1 is not None); o.count('accum', case['accum']); o.count('bluespots', nb)
    o.event(8)
    # the algorithms, in 64 bits
    from malstroem.algorithms import fill, flow, label
    zz = z.astype('f8') + rng.random(z.shape) * 1e-6
    s, dg = call('minimum_safe_short_and_diag', fill.minimum_safe_short_and_diag, zz)
    s2, dg2 = call('minimum_safe_short_and_diag', fill.minimum_safe_short_and_diag, zz * fz)
    n1 = call('fill_terrain_no_flats', fill.fill_terrain_no_flats, zz, s, dg)
    n2 = call('fill_terrain_no_flats', fill.fill_terrain_no_flats, zz * fz, s * fz, dg * fz)
    if not np.array_equal(n1 * fz, n2):
        o.bad('scale:no_flats', '%s: slope-preserving fill differs at %s' % (tag, orc.first(n1 * fz != n2)))
    if not np.array_equal(call('terrain_flowdirection', flow.terrain_flowdirection, n1), call('terrain_flowdirection', flow.terrain_flowdirection, n2)):
        o.bad('scale:flowdir', '%s: flow directions of the slope-preserving fill differ' % tag)
    if not np.array_equal(call('fill_terrain', fill.fill_terrain, zz) * fz, call('fill_terrain', fill.fill_terrain, zz * fz)):
        o.bad('scale:fill', '%s: filled terrain differs' % tag)
    o.count('api_fill')
    o.case(nb > 0, z, f1, ez, ec)
    o.sample = dict(case=case, bluespots=nb, factor=[ez, ec])


def form(lab, depths):
    """Bluespots without their IDs: cells in order of the first cell"""
    out = []
    n = int(lab.max())
    if not n:
        return out
    o = np.argsort(lab, axis=None, kind='stable')
    l = lab.reshape(-1)[o]
    cuts = np.searchsorted(l, np.arange(1, n + 2))
    return sorted(tuple(o[cuts[i]:cuts[i + 1]].tolist()) for i in range(n))


def turn(case, o, d):
    from malstroem.algorithms import fill
    rng = np.random.default_rng([case['seed'], 32])
    z, _, _ = pipe.make_dem(case)
    z = z.astype('f4')
    g = pipe.GTS[case['gt']]
    f = [None, None, 'area > 3.5', 'maxdepth > .3', 'area < 20.25 or maxdepth >= 1', 'maxdepth <= 2.5'][case['change']]
    mm = float(case['mm'])
    base = None
    k = [(int(i % 4), bool(i // 4)) for i in rng.permutation(8)[:3]]
    T = lambda a, j, m: np.ascontiguousarray(np.rot90(a.T if m else a, j))
    back = lambda a, j, m: (lambda b: b.T if m else b)(np.rot90(a, -j))
    a = go(case, os.path.join(d, 'a'), z, g, mm, case['res'], f)
    s, dg = fill.minimum_safe_short_and_diag(z)
    nf = call('fill_terrain_no_flats', fill.fill_terrain_no_flats, z, s, dg)
    nb = int(a['bluespots']['a'].max())
    ca = abs(g[1] * g[5] - g[2] * g[4])
    for n, (j, m) in enumerate(k):
        zt = T(z, j, m)
        tag = '%s %s %s turned by %d, mirrored %s, filter %s' % (case['kind'], case['shape'], case['mode'], j * 90, m, f)
        b = go(case, os.path.join(d, 'b%d' % n), zt, g, mm, case['res'], f)
        for q in ('filled', 'depths'):
            x, y = a[q]['a'], back(b[q]['a'], j, m)
            if x.shape != y.shape or not np.array_equal(x, y):
                p, c = orc.first(x != y) if x.shape == y.shape else (None, None)
                o.bad('turn:' + q, '%s: %s differs at %s' % (tag, q, p))
        y = call('fill_terrain_no_flats', fill.fill_terrain_no_flats, zt, s, dg)
        if not np.array_equal(back(y, j, m), nf):
            o.bad('turn:no_flats', '%s: slope-preserving fill differs at %s' % (tag, orc.first(back(y, j, m) != nf)))
        la, lb = a['bluespots']['a'], back(b['bluespots']['a'], j, m)
        if form(la, None) != form(lb, None):
            o.bad('turn:bluespots', '%s: bluespots are not the same cells (%d and %d bluespots)' % (tag, nb, int(lb.max())))
            continue
        # ID in one for ID in the other
        idx = {int(i): int(l) for i, l in zip(la.reshape(-1), np.ascontiguousarray(lb).reshape(-1)) if i}
        A = {int(x['props']['bspot_id']): x['props'] for x in a['L_pourpoints']['feats'] if x['props']['bspot_id']}
        B = {int(x['props']['bspot_id']): x['props'] for x in b['L_pourpoints']['feats'] if x['props']['bspot_id']}
        for i, p in A.items():
            q = B.get(idx.get(i))
            if q is None:
                o.bad('turn:pourpoints', '%s: bluespot %s has no pour point' % (tag, i))
                break
            for w in ('bspot_area', 'bspot_vol', 'bspot_dmax'):
                if not orc.close(float(p[w]), float(q[w]), 1e-9, 1e-12):
                    o.bad('turn:' + w, '%s: %s of bluespot %s is %r and %r' % (tag, w, i, p[w], q[w]))
                    break
        H = {int(x['props']['bspot_id']): x['props'] for x in a['L_hypsometry']['feats']}
        I = {int(x['props']['bspot_id']): x['props'] for x in b['L_hypsometry']['feats']}
        for i, p in H.items():
            q = I.get(idx.get(i, 0) if i else 0)
            if i and q is not None and any(p[w] != q[w] for w in ('hist_counts', 'hist_num_bins', 'hist_lower_bound', 'hist_resolution', 'zmin', 'zmax')):
                o.bad('turn:hypsometry', '%s: hypsometry of bluespot %s differs' % (tag, i))
                break
        W = lambda r: sum(float(x['props']['wshed_area'] or 0) for x in r['L_pourpoints']['feats'])
        V = lambda r: sum(float(x['props']['inputv'] or 0) for x in r['L_initvolumes']['feats'])
        if not orc.close(W(a), W(b), 1e-9, 0) or not orc.close(W(a), ca * z.size, 1e-9, 0) or not orc.close(V(a), V(b), 1e-9, 1e-12):
            o.bad('turn:totals', '%s: watersheds of %r and %r, input water %r and %r' % (tag, W(a), W(b), V(a), V(b)))
        o.count('turned')
        o.event(6)
    o.count(case['mode']); o.count('filtered', f is not None); o.count('accum', case['accum']); o.count('bluespots', nb)
    o.case(nb > 0, z, f, *k)
    o.sample = dict(case=case, bluespots=nb, turned=[list(x) for x in k])
