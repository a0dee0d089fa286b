"""C15: final depths and extents"""
import json, os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('ID rasters x water levels (below, inside, above and exactly at terrain) x terrain of every scale with nodata, element types and layouts, through approx_bluespots_io (either or both writers), '
        'approx_bluespots, the finalbluespots command (either or both outputs) and complete/chain; non-trivial: bluespot cells both wet and dry; distinct by inputs and route')
MUST_OBSERVE = ['beyond_65535_ids', 'wet_cells', 'dry_bluespot_cells', 'level_cells', 'io', 'memory', 'command', 'pipeline', 'nodata', 'depths_only', 'extent_only', 'levels_next_to_terrain']
MIN_EVENTS = 300


def cases(seed, tier):
    rng = np.random.default_rng([seed, 115])
    n = 700 if tier == 'quick' else 14000
    out = []
    for i in range(n):
        t = ['io', 'memory', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4, mm=float(rng.choice([1, 5, 20, 100]))), t=t))
        else:
            out.append(dict(t=t, seed=int(rng.integers(1 << 31)), shape=gen.shapes(rng, 30), kind=str(rng.choice(gen.NAMES)), scale=str(rng.choice(gen.SCALES)), gt=int(rng.integers(len(pipe.GTS))),
                            dtype=str(rng.choice(['f4', 'f4', 'f4', 'f8', 'i2'])), ltype=str(rng.choice(['i4', 'i4', 'u1', 'i2', 'u2', 'i8'])), layout=str(rng.choice(gen.LAYOUTS)),
                            fmt=str(rng.choice(['gpkg', 'GeoJSON', 'SQLite'])), nodata=bool(rng.random() < .4), which=str(rng.choice(['both', 'both', 'depths', 'extent'])),
                            labels=str(rng.choice(['blobs', 'dense', 'dense', 'cols'])), reps=6 if t != 'command' else 1))
    # more IDs than 16 bits hold
    for k in range(3 if tier == 'quick' else 12):
        out.insert(0, dict(out[4 + k % 3], t=['io', 'memory', 'command'][k % 3], shape=[525, 531 + k], kind='white', scale='unit', dtype='f4', ltype='i4', labels='dots', fmt='gpkg', reps=1))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def inputs(case, rep):
    rng = np.random.default_rng([case['seed'], rep, 15])
    h, w = case['shape'] if rep % 2 == 0 else case['shape'][::-1]
    z = gen.dem(dict(seed=[case['seed'], rep], kind=case['kind'], shape=[h, w], scale=case['scale']))
    if case['dtype'] == 'i2':
        z = np.clip(np.round(z), -3000, 3000)
    z = z.astype(case['dtype'])
    how = case['labels']
    if how == 'blobs':
        lab = ref.regions((gen.smooth(rng, h, w, 2) > .3).astype('i8'))[0]
    elif how == 'dense':
        lab = rng.integers(0, 7, (h, w))
    else:
        lab = np.repeat(np.arange(w)[None], h, 0)
    if how == 'dots':
        lab = gen.dots(h, w).astype(case['ltype'])
        lev = dict(enumerate([5.0] + (z[lab > 0].astype('f8') + rng.integers(-2, 3, int(lab.max())) / 4).tolist()))
        return rng, z, lab, lev
    lab = np.minimum(lab, 100)
    u = np.unique(np.concatenate(([0], lab.ravel())))
    lab = np.searchsorted(u, lab).astype(case['ltype'])
    lev = {}
    for k in range(int(lab.max()) + 1):
        v = z[lab == k]
        if not len(v):
            lev[k] = 0.0
            continue
        v = np.sort(v.astype('f8'))
        q = rng.integers(9)
        lev[k] = float([v[0], v[-1], v[len(v) // 2], v[0] + rng.random() * (v[-1] - v[0]), v[-1] + rng.choice([.1, 2.5]), v[0] - rng.choice([.1, 3]),
                         # next to the terrain: a level has 64 bits
                         np.nextafter(v[len(v) // 2], -np.inf), np.nextafter(v[len(v) // 2], np.inf), v[-1] * (1 - 1e-12) + 1e-12][q])
    # the level of ID 0 is not that of a bluespot
    lev[0] = float(rng.choice([0.0, 1e6, -5.0, lev[0]]))
    return rng, z, lab, lev


def run_case(case, o, d):
    from malstroem import approx
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        lev = {f['props']['bspot_id']: f['props']['approx_z'] for f in art.l('finallevels')}
        orc.finals(o, art.z, art.a('bluespots'), lev, art.a('finaldepths'), art.a('finalbluespots'), case['mode'])
        o.count('pipeline')
        o.case(art.a('bluespots').max() > 0, art.z, case['mode'], case['filt'], case['mm'])
        o.sample = pipe.sample(case, art)
        return
    gt = pipe.GTS[case['gt']]
    for rep in range(case['reps']):
        rng, z, lab, lev = inputs(case, rep)
        tag = '%s %s %s %s %s' % (t, case['dtype'], case['ltype'], z.shape, case['layout'])
        rows = []
        for k, v in lev.items():
            rows.append(dict(type='Feature', id=k, geometry=None, properties=dict(nodeid=k, nodetype='pourpoint', bspot_id=k, approx_z=v, approx_dmax=1.0)))
        rows = [rows[i] for i in rng.permutation(len(rows))]
        dep = ext = None
        o.count('beyond_65535_ids', len(lev) > 65536)
        seen = z
        if t == 'memory':
            a, b = gen.layout(lab.copy(), case['layout']), gen.layout(z, case['layout'])
            ext, dep = call('approx_bluespots', approx.approx_bluespots, a, lev, b)
            if not np.array_equal(b, z):
                o.bad('input', '%s: terrain was changed' % tag)
            o.count('memory')
        elif t == 'io':
            wd = cli.MemRaster() if case['which'] != 'extent' else None
            we = cli.MemRaster() if case['which'] != 'depths' else None
            call('approx_bluespots_io', approx.approx_bluespots_io, cli.MemRaster(gen.layout(lab, case['layout']), gt), cli.MemVector(rows), cli.MemRaster(gen.layout(z, case['layout']), gt), wd, we)
            dep = wd.written[0] if wd else None
            ext = we.written[0] if we else None
            o.count('io')
        else:
            P = lambda n: os.path.join(d, n)
            nd = None
            st = z
            if case['nodata'] and case['dtype'][0] == 'f':
                nd = -9999.0
                m = rng.random(z.shape) < .1
                st = np.where(m, np.float32(nd), z).astype(z.dtype)
                seen = np.where(m, -999, z).astype(z.dtype)
                o.count('nodata', m.sum())
            cli.write_tif(P('z.tif'), st, gt=gt, nodata=nd)
            cli.write_tif(P('l.tif'), lab.astype('i4') if case['ltype'] == 'i8' else lab, gt=gt, nodata=0)
            fmt = case['fmt']
            src = P('lev.' + cli.EXT[fmt])
            from malstroem import io
            from osgeo import ogr
            call('VectorWriter', io.VectorWriter(fmt, src, 'finallevels', None, ogr.wkbNone, cli.wkt()).write_geojson_features, rows)
            a = []
            if case['which'] != 'extent':
                a += ['-out_depths', P('d.tif')]
            if case['which'] != 'depths':
                a += ['-out_bluespots', P('b.tif')]
            cli.ok(['finalbluespots', '-bluespots', P('l.tif'), '-dem', P('z.tif'), '-finallevels', src] + a)
            dep = cli.arr(P('d.tif')) if case['which'] != 'extent' else None
            ext = cli.arr(P('b.tif')) if case['which'] != 'depths' else None
            if fmt == 'GeoJSON':
                # text holds 15 digits or more: the level is the one in the file
                now = {f['props']['bspot_id']: f['props']['approx_z'] for f in cli.read_layer(src)['feats']}
                if set(now) != set(lev) or any(abs(now[k] - v) > 1e-12 * abs(v) + 1e-300 for k, v in lev.items()):
                    o.bad('levels', '%s: the layer holds other levels: %s' % (tag, [(k, v, now.get(k)) for k, v in lev.items() if k not in now or not abs(now[k] - v) <= 1e-12 * abs(v) + 1e-300][:3]))
                lev = now
            o.count('command')
        o.count('depths_only', ext is None); o.count('extent_only', dep is None)
        for x, n in ((dep, 'depth'), (ext, 'extent')):
            if x is not None and np.asarray(x).shape != z.shape:
                o.bad('shape', '%s: %s raster has shape %s' % (tag, n, np.asarray(x).shape))
                return
        orc.finals(o, seen, lab, lev, dep, ext, tag)
        o.case(bool((lab > 0).any()), z, lab, repr(sorted(lev.items())), t, case['which'])
