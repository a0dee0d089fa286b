"""C11: input water volumes"""
import json, os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('uniform rain in complete/chain runs and SimpleVolumeTool; water rasters of seven element types, three units, declared nodata, any cell size, over bluespot or watershed IDs through '
        'RasterVolumeTool and the initvolumes command in four formats; non-trivial: some node receives water; distinct by inputs and route')
MUST_OBSERVE = ['beyond_65535_ids', 'pipeline', 'uniform_tool', 'raster_tool', 'raster_command', 'uniform_command', 'unit_mm', 'unit_l', 'unit_m3', 'junction_nodes', 'nodata_cells', 'other_attribute']
MIN_EVENTS = 200
TYPES = ['f4', 'f8', 'u1', 'i2', 'u2', 'i4', 'f4']


def cases(seed, tier):
    rng = np.random.default_rng([seed, 111])
    n = 500 if tier == 'quick' else 10000
    out = []
    for i in range(n):
        t = ['pipeline', 'raster', 'rcommand', 'uniform', 'ucommand', 'raster'][i % 6]
        c = dict(pipe.params(rng, i // 6, mm=float(rng.choice([0, .5, 1, 7.25, 20, 100, 1234.5]))), t=t, unit=str(rng.choice(['mm', 'l', 'm3'])), dtype=str(rng.choice(TYPES)),
                 attr=str(rng.choice(['inputv', 'inputv', 'rain20', 'v_in'])), fmt=str(rng.choice(['gpkg', 'GeoJSON', 'SQLite', 'ESRI Shapefile'])),
                 ids=str(rng.choice(['blobs', 'wsheds', 'sparse', 'one'])), layout=str(rng.choice(gen.LAYOUTS)), ltype=str(rng.choice(['i4', 'i4', 'u1', 'i2', 'u2', 'i8'])),
                 reps=6 if t in ('raster', 'uniform') else 1)
        out.append(c)
    # more IDs than 16 bits hold
    for k in range(2 if tier == 'quick' else 10):
        out.insert(0, dict(out[2], t=['raster', 'rcommand', 'uniform', 'ucommand'][k % 4], shape=[525, 531 + k], ids='dots', ltype='i4', reps=1, seed=int(rng.integers(1 << 31)), fmt='gpkg', dtype='f4'))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline', unit='mm', dtype='f4', attr='inputv', fmt='gpkg', ids='one', layout='C', ltype='i4', reps=1) for k in range(2 if tier == 'quick' else 12)]
    return out


def id_raster(rng, how, h, w, lt):
    if how == 'one':
        lab = np.zeros((h, w), 'i8')
        lab[int(rng.integers(h)), int(rng.integers(w))] = 1
    elif how == 'sparse':
        lab = np.zeros((h, w), 'i8')
        m = rng.random((h, w)) < .1
        lab[m] = rng.integers(1, 40, m.sum())
    else:
        lab = ref.regions((gen.smooth(rng, h, w, 2) > .6).astype('i8'))[0]
        if how == 'wsheds' and lab.max():
            fd = gen.draining_flowdir(rng, h, w)
            lab = ref.watersheds(fd, lab)
    if how == 'dots':
        return gen.dots(h, w).astype(lt)
    lab = np.minimum(lab, 120)
    return lab.astype(lt)


def node_feats(rng, top, gt, h, w):
    feats = []
    ids = list(range(top + 1)) + [top + 1 + i for i in range(int(rng.integers(0, 4)))]
    rng.shuffle(ids)
    for k in ids:
        k = int(k)
        r, c = int(rng.integers(h)), int(rng.integers(w))
        x, y = orc.center(gt, r, c)
        j = k > top
        feats.append(dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[x, y]),
                          properties=dict(nodeid=k, dstrnodeid=None if rng.random() < .3 else int(rng.integers(top + 1)), nodetype='junction' if j else 'pourpoint', cell_row=r, cell_col=c,
                                          bspot_id=None if j else k, bspot_area=0.0 if j else float(rng.random() * 100), bspot_vol=0.0 if j else float(rng.random() * 1e3),
                                          wshed_area=0.0 if j else float(rng.choice([0.25, 1e6 / 7, 33.3, rng.random() * 1e4])))))
    if not any(f['properties']['dstrnodeid'] is not None for f in feats):
        feats[0]['properties']['dstrnodeid'] = 0
    return feats, len(ids) - top - 1


def judge_raster(o, before, after, water, lab, factor, attr, tag, nodata=None, prec=0.0):
    orc.carried(o, before, after, {attr}, tag)
    wv = np.asarray(water).astype('f8')
    if nodata is not None:
        wv = np.where(np.isnan(wv) if nodata != nodata else np.asarray(water) == nodata, 0.0, wv)
    n = int(lab.max())
    st = ref.stats(wv, lab, n)
    tot = 0.0
    for f in after:
        p = f['props']
        k = int(p['nodeid'])
        j = p['nodetype'] == 'junction'
        want = 0.0 if j or k > n else st[k]['sum'] * factor
        slack = 0.0 if j or k > n else 1e-9 * st[k].get('abssum', 0.0) * factor
        got = p.get(attr)
        if got is None or abs(float(got) - want) > slack + prec + 1e-300:
            o.bad('water', '%s: node %s receives %r, its ID area holds %r' % (tag, k, got, want))
            return
        tot += float(got)
    want = float(np.abs(wv).sum())
    if {int(f['props']['nodeid']) for f in after} >= set(range(n + 1)) and abs(tot - float(wv.sum()) * factor) > 1e-8 * want * factor + prec * len(after) + 1e-300:
        o.bad('total', '%s: input volumes add up to %r, the raster holds %r' % (tag, tot, float(wv.sum()) * factor))


def run_case(case, o, d):
    from malstroem import rain
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        orc.rain_uniform(o, art.l('nodes'), art.l('initvolumes'), case['mm'], 'inputv', case['mode'], art.z.size * orc.cell_area(art.gt))
        o.count('pipeline'); o.count('junction_nodes', sum(f['props']['nodetype'] == 'junction' for f in art.l('nodes')))
        o.case(case['mm'] > 0, art.z, case['mode'], case['filt'], case['mm'])
        # the same nodes with a water raster over the watersheds
        from osgeo import gdal
        rng = np.random.default_rng([case['seed'], 9])
        ws = art.a('watersheds')
        water = rng.random(ws.shape).astype('f4') * 50
        P = lambda n: os.path.join(d, n)
        cli.write_tif(P('rain.tif'), water, gt=art.gt, nodata=-1.0)
        cli.write_tif(P('ids.tif'), ws, gt=art.gt, nodata=0)
        if case['mode'] == 'complete':
            src, lay = P('out/malstroem.gpkg'), 'nodes'
        else:
            src, lay = P('chain/vec.gpkg'), 'nodes'
        u = case['unit']
        cli.ok(['initvolumes', '-nodes', src, '-nodes_layer', lay, '-pr', P('rain.tif'), '-pr_unit', u, '-bluespots', P('ids.tif'), '-out', P('iv.gpkg'), '-format', 'gpkg'])
        ca = orc.cell_area(art.gt)
        judge_raster(o, art.l('nodes'), cli.read_layer(P('iv.gpkg'), 'initvolumes')['feats'], water, ws, dict(mm=1e-3 * ca, l=1e-3, m3=1.0)[u], 'inputv', case['mode'] + ' water raster')
        o.sample = pipe.sample(case, art)
        return
    gt = pipe.GTS[case['gt']]
    ca = orc.cell_area(gt)
    for rep in range(case['reps']):
        rng = np.random.default_rng([case['seed'], rep, 11])
        h, w = case['shape']
        lab = id_raster(rng, case['ids'], h, w, case['ltype'])
        feats, nj = node_feats(rng, int(lab.max()), gt, h, w)
        before = cli.as_feats(feats)
        o.count('beyond_65535_ids', lab.max() > 65535)
        attr, fmt = case['attr'], case['fmt']
        tag = '%s %s %s %s' % (t, case['unit'], case['dtype'], (h, w))
        o.count('junction_nodes', nj); o.count('other_attribute', attr != 'inputv')
        P = lambda n: os.path.join(d, n)
        out = P('iv.' + (cli.EXT[fmt] or 'shp'))
        lay = 'iv' if fmt != 'ESRI Shapefile' else None
        if t in ('uniform', 'ucommand'):
            if t == 'uniform':
                wr = cli.MemVector()
                call('SimpleVolumeTool', rain.SimpleVolumeTool(cli.MemVector(feats), wr, attr, case['mm']).process)
                after = cli.as_feats(wr.written[0])
                o.count('uniform_tool')
            else:
                with open(P('n.geojson'), 'w') as f:
                    json.dump(dict(type='FeatureCollection', features=feats), f)
                cli.ok(['initvolumes', '-nodes', P('n.geojson'), '-nodes_layer', 'n', '-mm', case['mm'], '-out', out, '-format', fmt, '-out_attribute', attr] + (['-out_layer', lay] if lay else ['-out_layer', 'iv']))
                after = cli.read_layer(out, 'iv')['feats']
                o.count('uniform_command')
            orc.rain_uniform(o, before, after, case['mm'], attr, tag)
            o.case(case['mm'] > 0, json.dumps(feats), case['mm'], t)
            continue
        dt = case['dtype']
        nd = None
        if dt[0] == 'f':
            water = (rng.random((h, w)) * rng.choice([1, 1e-3, 1e4])).astype(dt)
        else:
            water = rng.integers(0, 120 if rng.random() < .7 else min(np.iinfo(dt).max, 10 ** 7), (h, w)).astype(dt)
        if dt[0] != 'u' and rng.random() < .35:
            # Losses
            water[rng.random((h, w)) < .4] *= -1
            o.count('negative_cells', (water < 0).sum())
        u = case['unit']
        fac = dict(mm=1e-3 * ca, l=1e-3, m3=1.0)[u]
        o.count('unit_' + u)
        if t == 'raster':
            wr = cli.MemVector()
            a, b = gen.layout(water, case['layout']), gen.layout(lab, case['layout'])
            call('RasterVolumeTool', rain.RasterVolumeTool(cli.MemVector(feats), cli.MemRaster(b, gt), cli.MemRaster(a, gt), rain.Unit[u], wr, attr).process)
            after = cli.as_feats(wr.written[0])
            o.count('raster_tool')
        else:
            if rng.random() < .5:
                nd = {'f': -99999.0 if rng.random() < .7 else float('nan'), 'u': 255, 'i': -77}[dt[0]]
                m = rng.random((h, w)) < .2
                water[m] = nd
                o.count('nodata_cells', m.sum())
            lt = lab if lab.dtype.str[1:] != 'i8' else lab.astype('i4')
            cli.write_tif(P('r.tif'), water, gt=gt, nodata=nd); cli.write_tif(P('l.tif'), lt, gt=gt, nodata=0)
            with open(P('n.geojson'), 'w') as f:
                json.dump(dict(type='FeatureCollection', features=feats), f)
            cli.ok(['initvolumes', '-nodes', P('n.geojson'), '-nodes_layer', 'n', '-pr', P('r.tif'), '-bluespots', P('l.tif'), '-out', out, '-out_layer', 'iv', '-format', fmt,
                    '-out_attribute', attr] + (['-pr_unit', u] if u != 'mm' or rep % 2 else []))
            after = cli.read_layer(out, 'iv')['feats']
            o.count('raster_command')
        judge_raster(o, before, after, water, lab, fac, attr, tag, nd,
                     1e-14 if t == 'rcommand' and fmt == 'ESRI Shapefile' else 0.0)
        o.case(bool((water != 0).any()), water, lab, json.dumps(feats), u, t)
