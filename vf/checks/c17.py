"""C17: the chain of subcommands equals complete"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('one complete run and the documented sequence of subcommands on the same DEM, filter, rain, resolution and pour point method, intermediate layers in one GeoPackage, in several files, or in a mix of '
        'GeoPackage, SQLite, Shapefile, GeoJSON and CSV, default and other layer names; all rasters and layers compared; non-trivial: at least one bluespot; distinct by terrain and options')
MUST_OBSERVE = ['rasters_equal', 'layers_equal', 'polygons', 'fmt_gpkg', 'fmt_SQLite', 'fmt_mixed', 'accum', 'filtered', 'nodata', 'several_files', 'exact_threshold']
MIN_EVENTS = 100
CPU_LIMIT = 90


def cases(seed, tier):
    rng = np.random.default_rng([seed, 117])
    n = 170 if tier == 'quick' else 4000
    out = []
    for i in range(n):
        p = pipe.params(rng, 0, mode='complete', vector=bool(i % 2))
        p['fmt'] = ['gpkg', 'SQLite', 'mixed', 'gpkg'][i % 4]
        p['single'] = bool(rng.random() < .5)
        p['names'] = bool(rng.random() < .4)
        if i % 5 == 2:
            # a threshold which bluespots meet exactly
            gt = pipe.GTS[p['gt']]
            p['filter'] = str(rng.choice(['area >= %r', 'area <= %r', 'area>=%r and maxdepth > .01', 'area > %r', 'area < %r'])) % (int(rng.integers(1, 5)) * abs(gt[1] * gt[5] - gt[2] * gt[4]))
        out.append(p)
    return out


def key(f):
    p = f['props']
    v = p.get('nodeid')
    return (v is None, conv(v if v is not None else p.get('bspot_id')))


def conv(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return v


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    art = pipe.run(case, d)
    filt = pipe.filt(case)
    cd = os.path.join(d, 'chain')
    os.makedirs(cd)
    names = dict(pourpoints='pp', nodes='mynodes', streams='strs', initvolumes='iv20', finalvolumes='fv20', hyps='hyp1', finallevels='lev_a', polys='pl') if case['names'] else None
    fmts = None
    if case['fmt'] == 'mixed':
        # every step in one of the formats able to hold its result
        rng = np.random.default_rng([case['seed'], 4])
        pick = lambda *a: str(rng.choice(a))
        names = None
        fmts = dict(pourpoints=pick('GeoJSON', 'SQLite', 'gpkg'), network=pick('SQLite', 'gpkg'), initvolumes=pick('GeoJSON', 'SQLite'), finalvolumes=pick('GeoJSON', 'SQLite'),
                    hyps=pick('CSV', 'GeoJSON', 'SQLite'), finallevels=pick('GeoJSON', 'SQLite', 'gpkg'), polys=pick('GeoJSON', 'SQLite', 'gpkg'))
    # numbers of text formats have 15 digits: a level may fall on the other side of a terrain it touches
    rounded = fmts is not None and any(v in ('GeoJSON', 'CSV') for v in fmts.values())
    (speedups.enable if case['native'] else speedups.disable)()
    try:
        raw = cli.load_chain(cli.chain(os.path.join(d, 'dem.tif'), cd, mm=case['mm'], res=case['res'], filt=filt, accum=case['accum'], vector=case['vector'],
                                       fmt='gpkg' if case['fmt'] == 'mixed' else case['fmt'], single=case['single'], names=names, fmts=fmts))
    finally:
        speedups.enable()
    o.count('fmt_' + case['fmt']); o.count('accum', case['accum']); o.count('filtered', filt is not None); o.count('nodata', case['nodata'] != ''); o.count('several_files', not case['single'])
    if case.get('filter') and '=' in filt:
        x = float(filt.split('=')[1].split('and')[0])
        o.count('exact_threshold', sum(f['props']['bspot_area'] == x for f in art.l('pourpoints')))
    text = case['fmt'] == 'mixed'
    tol = 1e-9 * max(1.0, float(np.abs(art.z).max()))
    tag = '%s %s %s' % (case['kind'], case['shape'], case['fmt'])
    for k in cli.RASTERS:
        if k == 'accum' and not case['accum']:
            continue
        a, b = art.raw[k], raw[k]
        exact = k not in ('finaldepths', 'finalbluespots') or not rounded
        if a['a'].shape != b['a'].shape:
            o.bad('raster:' + k, '%s: %s has shape %s in complete, %s in the chain' % (tag, k, a['a'].shape, b['a'].shape))
            return
        x, y = a['a'].astype('f8'), b['a'].astype('f8')
        if exact and not np.array_equal(x, y):
            p, n = orc.first(x != y)
            o.bad('raster:' + k, '%s: %s differs at %d cells, first %s: complete %r, chain %r' % (tag, k, n, p, x[p], y[p]))
        elif k == 'finaldepths' and not np.allclose(x, y, rtol=1e-6, atol=tol * 100):
            o.bad('raster:' + k, '%s: %s differs' % (tag, k))
        elif k == 'finalbluespots':
            w = (x != y) & (np.maximum(art.a('finaldepths'), raw['finaldepths']['a']) > tol * 100)
            if w.any():
                o.bad('raster:' + k, '%s: %s differs at %s' % (tag, k, orc.first(w)))
        if a['gt'] != b['gt']:
            o.bad('georef', '%s: %s has transform %s in complete, %s in the chain' % (tag, k, a['gt'], b['gt']))
        if (a['nodata'] is None) != (b['nodata'] is None) and k in ('bluespots', 'watersheds', 'finalbluespots'):
            o.bad('nodata', '%s: %s declares nodata %s in complete, %s in the chain' % (tag, k, a['nodata'], b['nodata']))
        o.count('rasters_equal')
    for k in cli.LAYERS:
        if 'L_' + k not in raw:
            continue
        a, b = art.l(k), raw['L_' + k]['feats']
        if k in ('bluespots', 'watersheds', 'finalbluespots'):
            if k != 'finalbluespots' or not rounded:
                polys(o, a, b, k, tag, text)
            continue
        if len(a) != len(b):
            o.bad('layer:' + k, '%s: %s has %d features in complete, %d in the chain' % (tag, k, len(a), len(b)))
            continue
        rel = 1e-9 if text else 0.0
        A, B = sorted(a, key=key), sorted(b, key=key)
        done = False
        for f, g in zip(A, B):
            miss = set(f['props']) ^ set(g['props'])
            if miss:
                o.bad('fields:' + k, '%s: fields %s of %s are not in both' % (tag, sorted(miss), k))
                break
            for n, v in f['props'].items():
                u = g['props'][n]
                if u == v or conv(u) == conv(v) or orc.close(u, v, rel or 1e-14, 1e-13 if text else 0):
                    continue
                if n in ('v', 'spillv', 'pctv', 'approx_z', 'approx_dmax') and text and orc.close(u, v, 1e-6, 1e-6):
                    continue
                if u in ('', None) and v in ('', None):
                    continue
                o.bad('layer:' + k, '%s: %s of %s in %s is %r in complete, %r in the chain' % (tag, n, key(f)[1], k, v, u))
                done = True
                break
            ga, gb = f['geom'], g['geom']
            if (ga is None) != (gb is None):
                o.bad('geometry:' + k, '%s: %s %s has a geometry in one of both' % (tag, k, key(f)[1]))
                done = True
            elif ga is not None:
                ca, cb = ga['coordinates'], gb['coordinates']
                if len(ca) != len(cb) or any(max(abs(p[0] - q[0]), abs(p[1] - q[1])) > (1e-6 if text else 0) for p, q in zip(ca, cb)):
                    o.bad('geometry:' + k, '%s: geometry of %s %s differs' % (tag, k, key(f)[1]))
                    done = True
            if done:
                break
        o.count('layers_equal')
    o.case(art.a('bluespots').max() > 0, art.z, filt, case['mm'], case['res'], case['accum'], case['fmt'])
    o.sample = pipe.sample(case, art)


def polys(o, a, b, k, tag, text):
    from osgeo import ogr
    import json

    def form(fs):
        out = []
        for f in fs:
            g = ogr.CreateGeometryFromJson(json.dumps(f['geom']))
            e = g.GetEnvelope()
            ids = [v for n, v in f['props'].items() if n.lower() in ('bspot_id', 'dn')]
            out.append((int(ids[0]), round(e[0], 4), round(e[2], 4), round(e[1], 4), round(e[3], 4), round(g.Area(), 4)))
        return sorted(out)
    A, B = form(a), form(b)
    if A != B:
        x = [p for p in A if p not in B][:2]; y = [p for p in B if p not in A][:2]
        o.bad('polygons:' + k, '%s: polygons of %s differ, only in complete %s, only in the chain %s' % (tag, k, x, y))
    o.count('polygons', len(A))
