"""C14: water levels"""
import json, os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('bluespots of many shapes (gentle, steep, flat bottomed, two-storey, one cell, whole bins empty) x resolutions (finer and coarser than the bluespot) x volumes from empty to full, '
        'through approx_water_level_io and the finallevels command, complete/chain; non-trivial: a partly filled bluespot; distinct by terrain, resolution and volume')
MUST_OBSERVE = ['many', 'levels', 'levels_partly', 'tool', 'command', 'pipeline', 'pairs', 'empty', 'full']
MIN_EVENTS = 300


def cases(seed, tier):
    rng = np.random.default_rng([seed, 114])
    n = 500 if tier == 'quick' else 10000
    out = []
    for i in range(n):
        t = ['tool', 'tool', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4, mm=float(rng.choice([1, 5, 20, 100]))), t=t))
        else:
            out.append(dict(t=t, seed=int(rng.integers(1 << 31)), gt=int(rng.integers(len(pipe.GTS))), res=float(rng.choice([.1, .1, .05, .25, .01, .3, 1.0, 2.5, 10.0])),
                            fmt=str(rng.choice(['gpkg', 'SQLite', 'GeoJSON'])), hfmt=str(rng.choice(['gpkg', 'CSV', 'GeoJSON'])), offset=float(rng.choice([0, 0, 0, -3.7, -500, 1234.5, -.05])),
                            reps=3 if t == 'tool' else 1))
    # many bluespots
    for k, m in enumerate([33000, 1500] if tier == 'quick' else [33000, 66000, 1500, 5000, 12000]):
        out.insert(0, dict(t=['tool', 'command'][k % 2], m=m, seed=int(rng.integers(1 << 31)), gt=0, res=.1, fmt='gpkg', hfmt='gpkg', offset=0.0, reps=1))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def spot(rng, res, small=False):
    """Terrain cells of one bluespot and its full level"""
    n = int(rng.choice([1, 2, 3, 10]) if small else rng.choice([1, 2, 3, 10, 60, 250] if rng.random() < .98 else [40000, 70001]))
    how = rng.integers(8)
    if how == 0:
        z = rng.random(n) * rng.choice([1, .2, 5])
    elif how == 1:
        z = np.linspace(0, rng.choice([.05, 1, 4]), n)
    elif how == 2:
        z = np.zeros(n)
    elif how == 3:
        z = np.where(rng.random(n) < .5, 0.0, rng.choice([1.0, 3.3]))
    elif how == 4:
        z = rng.random(n) ** 4 * 3
    elif how == 5:
        z = np.round(rng.random(n) * 3 / res) * res
    elif how == 7:
        # hundreds of levels deep
        z = np.sort(rng.random(n)) * min(500 * res, 12.0)
    else:
        z = rng.random(n) ** .25 * 2
    full = z.max() + rng.choice([1e-3, .05, res, 1.0, 4.0, res * .5])
    return z, float(full)


def setup(case, rep):
    rng = np.random.default_rng([case['seed'], rep, 14])
    gt = pipe.GTS[case['gt']]
    ca = orc.cell_area(gt)
    m = case.get('m') or int(rng.integers(1, 7))
    spots = [spot(rng, case['res'], 'm' in case) for _ in range(m)]
    w = max(len(z) for z, _ in spots) + 1
    dem = np.full((m, w), 50.0, 'f4')
    lab = np.zeros((m, w), 'i4')
    feats = []
    order = rng.permutation(m)
    caps = {}
    for i, (z, full) in enumerate(spots):
        k = int(order[i]) + 1
        zz = (z + case['offset']).astype('f4')
        fl = np.float32(full + case['offset'])
        if not (fl > zz.max()):
            fl = np.nextafter(zz.max(), np.float32(np.inf))
        dem[i, :len(z)] = zz
        lab[i, :len(z)] = k
        dep = (fl - zz).astype('f4').astype('f8')
        caps[k] = (float(dep.sum()) * ca, float(dep.max()))
        x, y = orc.center(gt, i, 0)
        feats.append((k, i, x, y, len(z)))
    pp = [dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[x, y]),
               properties=dict(bspot_id=k, cell_row=i, cell_col=0, bspot_dmax=caps[k][1], bspot_area=n * ca, bspot_vol=caps[k][0], wshed_area=n * ca * 2, bspot_fumm=1.5)) for k, i, x, y, n in feats]
    x, y = orc.center(gt, 0, w - 1)
    pp.append(dict(type='Feature', id=0, geometry=dict(type='Point', coordinates=[x, y]),
                   properties=dict(bspot_id=0, cell_row=0, cell_col=w - 1, bspot_dmax=0.0, bspot_area=5.0, bspot_vol=0.0, wshed_area=9.0, bspot_fumm=0.0)))
    return rng, gt, ca, dem, lab, pp, caps


def finalvols(pp, v, junction=True):
    out = []
    for f in pp:
        p = f['properties']
        k = p['bspot_id']
        out.append(dict(type='Feature', id=k, geometry=f['geometry'], properties=dict(nodeid=k, dstrnodeid=None if k == 0 else 0, nodetype='pourpoint', bspot_id=k, bspot_vol=p['bspot_vol'], v=v[k], spillv=0.25)))
    if junction:
        out.append(dict(type='Feature', id=len(pp) + 99, geometry=pp[0]['geometry'], properties=dict(nodeid=len(pp) + 99, dstrnodeid=0, nodetype='junction', bspot_id=None, bspot_vol=0.0, v=0.0, spillv=1.5)))
    return out


def run_case(case, o, d):
    from malstroem import hyps, approx
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        orc.levels(o, art.l('finallevels'), art.l('hypsometry'), art.z, art.a('bluespots'), art.gt, case['res'], case['mode'])
        o.count('pipeline')
        o.case(art.a('bluespots').max() > 0, art.z, case['mode'], case['filt'], case['res'], case['mm'])
        o.sample = pipe.sample(case, art)
        return
    for rep in range(case['reps']):
        rng, gt, ca, dem, lab, pp, caps = setup(case, rep)
        res = case['res']
        tag = '%s res %r' % (t, res)
        w = cli.MemVector()
        call('bluespot_hypsometry_io', hyps.bluespot_hypsometry_io, cli.MemRaster(lab, gt), cli.MemRaster(dem, gt), cli.MemVector(pp), res, w)
        hy = w.written[0]
        fr = [0.0, 1.0, 1.0 - 1e-13, .5, 1e-6, .999, .9998, .99995] + list(rng.random(8)) + [float(1 - 10 ** rng.uniform(-5, -1.5)) for _ in range(4)]
        if 'm' in case:
            fr = [.5, float(rng.random())]
            o.count('many', case['m'] > 32768)
        if t == 'command':
            fr = [float(rng.choice(fr))]
        st = ref.stats(dem, lab, int(lab.max()))
        got = {k: [] for k in caps}
        H = {f['properties']['bspot_id']: f['properties'] for f in hy}
        for q in fr:
            v = {k: c[0] * (q if rng.random() < .8 or t == 'tool' else float(rng.random())) for k, c in caps.items()}
            v[0] = 0.0
            fv = finalvols(pp, v, rng.random() < .7)
            if rng.random() < .5:
                fv = [fv[i] for i in rng.permutation(len(fv))]
            if t == 'tool':
                w = cli.MemVector()
                call('approx_water_level_io', approx.approx_water_level_io, cli.MemVector(fv), cli.MemVector(hy), w)
                lev = cli.as_feats(w.written[0])
                o.count('tool')
            else:
                P = lambda n: os.path.join(d, n)
                with open(P('fv.geojson'), 'w') as f:
                    json.dump(dict(type='FeatureCollection', features=fv), f)
                cli.write_tif(P('l.tif'), lab, gt=gt, nodata=0); cli.write_tif(P('z.tif'), dem, gt=gt)
                with open(P('pp.geojson'), 'w') as f:
                    json.dump(dict(type='FeatureCollection', features=pp), f)
                hf = case['hfmt']
                hp = P('hyps.' + cli.EXT[hf])
                cli.ok(['hyps', '-bluespots', P('l.tif'), '-dem', P('z.tif'), '-pourpoints', P('pp.geojson'), '-pourpoints_layer', 'pp', '-zresolution', repr(res), '-out', hp, '-format', hf])
                out = P('lev.' + cli.EXT[case['fmt']])
                cli.ok(['finallevels', '-finalvols', P('fv.geojson'), '-finalvols_layer', 'fv', '-hyps', hp, '-out', out, '-format', case['fmt']])
                lev = cli.read_layer(out, 'finallevels')['feats']
                o.count('command')
            ids = sorted(f['props']['bspot_id'] for f in lev)
            if ids != sorted([0] + list(caps)):
                o.bad('ids', '%s: levels of IDs %s, expected %s' % (tag, ids, sorted([0] + list(caps))))
                break
            for f in lev:
                p = f['props']
                k = p['bspot_id']
                if not k:
                    continue
                orc.level(o, k, st[k]['values'], ca, res, v[k], caps[k][0], caps[k][1], st[k]['min'], p.get('approx_z'), p.get('approx_dmax'), tag)
                got[k].append((v[k], p.get('approx_z')))
                o.count('empty', v[k] == 0); o.count('full', v[k] == caps[k][0])
                o.case(0 < v[k] < caps[k][0], st[k]['values'], res, v[k], t)
                if p.get('v') != v[k] and not orc.close(p.get('v'), v[k], 1e-12):
                    o.bad('carried', '%s: volume of %s changed from %r to %r' % (tag, k, v[k], p.get('v')))
        for k, x in got.items():
            x = sorted(y for y in x if y[1] is not None)
            for a, b in zip(x[:-1], x[1:]):
                o.count('pairs')
                if b[1] < a[1] - 1e-12 * max(abs(a[1]), abs(b[1])) and b[0] > a[0]:
                    o.bad('monotone', '%s: bluespot %s with %r has level %r, with %r only %r' % (tag, k, a[0], a[1], b[0], b[1]))
                    break
