"""C10: stream network"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('complete/chain runs, StreamTool with recording writers and network command over generated terrain (many valleys joining) and over draining flow directions with arbitrary '
        'labels and pour points, pour point rows shuffled, five vector formats; non-trivial: at least two pour points; distinct by inputs, row order and route')
MUST_OBSERVE = ['long_stream', 'beyond_65535_ids', 'junctions', 'nodes', 'stream_steps', 'shuffled', 'command', 'pipeline', 'synthetic', 'without_streams']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 110])
    n = 520 if tier == 'quick' else 10000
    out = [dict(t='wide', seed=int(rng.integers(1 << 31)), n=260)] if tier == 'quick' else [dict(t='wide', seed=i, n=int(x)) for i, x in enumerate([300, 700, 1200])]
    for i in range(n):
        t = ['pipeline', 'tool', 'synthetic', 'command'][i % 4]
        kinds = ['comb', 'comb', 'dendritic', 'valley', 'white', 'pitgrid', 'quant', 'nested', 'smooth', 'pits', 'snake', 'spiral', 'walls', 'plateau']
        out.append(dict(pipe.params(rng, i // 4, kinds=kinds), t=t, fmt=str(rng.choice(['gpkg', 'GeoJSON', 'ESRI Shapefile', 'SQLite'])),
                        reps=dict(tool=4, synthetic=8).get(t, 1), streams=bool(rng.random() < .85)))
    # streams of many thousand cells
    out.insert(0, dict(t='river', seed=int(rng.integers(1 << 31)), shape=[int(x) for x in rng.integers(280, 360, 2)]))
    # more IDs than 16 bits hold
    out.insert(0, dict(t='dots', seed=int(rng.integers(1 << 31)), shape=[525, 531]))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline', fmt='gpkg', reps=1, streams=True) for k in range(2 if tier == 'quick' else 12)]
    return out


def synthetic(rng, h, w):
    """Draining flow directions, labels which every stream path enters properly, and one pour point per label"""
    fd = gen.draining_flowdir(rng, h, w)
    how = rng.choice(['points', 'blobs', 'dense'])
    lab = np.zeros((h, w), 'i4')
    if how == 'points':
        n = int(rng.integers(1, max(2, h * w // 12)))
        cells = rng.choice(h * w, min(n, h * w), replace=False)
        lab.ravel()[cells] = np.arange(1, len(cells) + 1)
    elif how == 'blobs':
        lab = ref.regions((gen.smooth(rng, h, w, 2) > .9).astype('i8'))[0].astype('i4')
    else:
        lab = rng.integers(0, int(rng.integers(2, 12)), (h, w)).astype('i4')
        u = np.unique(np.concatenate(([0], lab.ravel())))
        lab = np.searchsorted(u, lab).astype('i4')
    # bluespots never touch the raster edge
    lab[0] = lab[-1] = 0
    lab[:, 0] = lab[:, -1] = 0
    u = np.unique(np.concatenate(([0], lab.ravel())))
    lab = np.searchsorted(u, lab).astype('i4')
    ws = ref.watersheds(fd, lab)
    acc = ref.accum(fd)[0]
    return fd, lab, ws, acc


def pour(fd, lab, acc, gt):
    """Pour point features by highest accumulated flow"""
    n = int(lab.max())
    feats = []
    for k in range(n + 1):
        m = np.where(lab == k, acc, -1)
        if not (m >= 0).any():
            continue
        r, c = np.unravel_index(int(np.argmax(m)), m.shape)
        x, y = orc.center(gt, r, c)
        feats.append(dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[x, y]),
                          properties=dict(bspot_id=k, cell_row=int(r), cell_col=int(c), bspot_area=float((lab == k).sum()), bspot_vol=float(k * 1.25),
                                          bspot_dmax=1.0 if k else 0.0, wshed_area=float(k + 3), bspot_fumm=.5)))
    return feats


def comb_of(n):
    """n single cell bluespots in rows on both sides of one trunk: n-1 successive junctions"""
    w = n + 4
    fd = np.full((7, w), 2, 'u1')
    fd[0, :] = 0; fd[6, :] = 4; fd[:, 0] = 6; fd[1:6, -1] = 2
    lab = np.zeros((7, w), 'i4')
    fd[1:3, 1:-1] = 4; fd[4:6, 1:-1] = 0
    for i in range(n):
        c = 2 + i
        r = 1 if i % 2 else 5
        lab[r, c] = i + 1
    return fd, lab


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    from malstroem.streams import StreamTool
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        orc.network(o, art.l('nodes'), art.l('streams'), art.l('pourpoints'), art.a('bluespots'), art.a('flowdir'), art.gt, case['mode'])
        o.count('pipeline')
        o.case(len(art.l('pourpoints')) > 2, art.z, case['mode'], case['filt'], case['accum'])
        o.sample = pipe.sample(case, art)
        return
    if t == 'wide':
        gt = cli.GT
        fd, lab = comb_of(case['n'])
        acc = ref.accum(fd)[0]
        pps = pour(fd, lab, acc, gt)
        np.random.default_rng(case['seed']).shuffle(pps)
        nodes, streams = cli.MemVector(), cli.MemVector()
        call('StreamTool', StreamTool(cli.MemVector(pps), cli.MemRaster(lab, gt), cli.MemRaster(fd, gt), nodes, streams).process)
        orc.network(o, cli.as_feats(nodes.written[0]), cli.as_feats(streams.written[0]), cli.as_feats(pps), lab, fd, gt, 'comb of %d' % case['n'])
        o.count('max_junctions_on_one_path', case['n'] - 1)
        o.case(True, 'wide', case['n'])
        return
    if t == 'river':
        gt = cli.GT
        rng = np.random.default_rng(case['seed'])
        h, w = case['shape']
        down = bool(rng.integers(2))
        fd = gen.river(h, w, down)
        lab = np.zeros((h, w), 'i4')
        inner = np.argwhere(np.pad(np.ones((h - 6, w - 6), bool), 3))
        cells = np.concatenate((inner[rng.permutation(len(inner))[:5]], [[h - 2, w - 2]]))
        for k, (r, c) in enumerate(cells.tolist()):
            lab[r, c] = k + 1
        lab = np.searchsorted(np.unique(lab), lab).astype('i4')
        pps = pour(fd, lab, ref.accum(fd)[0], gt)
        pps = [pps[i] for i in rng.permutation(len(pps))]
        nodes, streams = cli.MemVector(), cli.MemVector()
        call('StreamTool', StreamTool(cli.MemVector(pps), cli.MemRaster(lab, gt), cli.MemRaster(fd, gt), nodes, streams).process)
        orc.network(o, cli.as_feats(nodes.written[0]), cli.as_feats(streams.written[0]), cli.as_feats(pps), lab, fd, gt, 'river %s' % (fd.shape,))
        o.count('long_stream', max(len(f['geometry']['coordinates']) for f in streams.written[0]) > 5000)
        o.case(True, 'river', case['seed'])
        return
    if t == 'dots':
        gt = cli.GT
        h, w = case['shape']
        rng = np.random.default_rng(case['seed'])
        # rows with bluespots flow right, those between them join one below
        fd = np.full((h, w), 2, 'u1')
        fd[2::2, 1:-1][rng.random(fd[2::2, 1:-1].shape) < .3] = 3
        fd[0] = 0; fd[-1] = 4; fd[:, 0] = 6; fd[:, -1] = 2
        lab = gen.dots(h, w).astype('i4')
        pps = []
        for k, (r, c) in enumerate([(0, 0)] + np.argwhere(lab > 0).tolist()):
            x, y = orc.center(gt, r, c)
            pps.append(dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[x, y]), properties=dict(bspot_id=k, cell_row=r, cell_col=c, bspot_area=1.0, bspot_vol=k * 1.25, bspot_dmax=1.0, wshed_area=float(k + 3), bspot_fumm=.5)))
        pps = [pps[i] for i in rng.permutation(len(pps))]
        nodes, streams = cli.MemVector(), cli.MemVector()
        call('StreamTool', StreamTool(cli.MemVector(pps), cli.MemRaster(lab, gt), cli.MemRaster(fd, gt), nodes, streams).process)
        orc.network(o, cli.as_feats(nodes.written[0]), cli.as_feats(streams.written[0]), cli.as_feats(pps), lab, fd, gt, 'dots %d' % len(pps))
        o.count('beyond_65535_ids', len(pps) > 65536)
        o.case(True, 'dots', case['seed'])
        return
    gt = pipe.GTS[case['gt']]
    for rep in range(case['reps']):
        rng = np.random.default_rng([case['seed'], rep, 5])
        h, w = case['shape']
        if t == 'synthetic' or t == 'command' and case['seed'] % 2:
            fd, lab, ws, acc = synthetic(rng, h, w)
            pps = pour(fd, lab, acc, gt)
            o.count('synthetic')
        else:
            from malstroem.dem import DemTool
            z = gen.dem(dict(case, seed=[case['seed'], rep]))
            wr = [cli.MemRaster(gt=gt) for _ in range(3)]
            call('DemTool', DemTool(cli.MemRaster(z, gt), *wr).process)
            fd = wr[1].written[0]
            lab = ref.regions((wr[2].written[0] > 0).astype('i8'))[0].astype('i4')
            acc = ref.accum(fd)[0]
            pps = pour(fd, lab, acc, gt)
        if not pps:
            continue
        order = rng.permutation(len(pps))
        if rep % 4 or t == 'command':
            pps = [pps[i] for i in order]
            o.count('shuffled')
            # feature IDs as GeoPackage readers number rows, from 0 or 1, or none at all
            n0 = [0, 1, None][int(rng.integers(3))]
            pps = [dict(f, id=n0 + i) if n0 is not None else {a: b for a, b in f.items() if a != 'id'} for i, f in enumerate(pps)]
        tag = '%s %s' % (t, fd.shape)
        strs = None
        if t == 'command':
            P = lambda n: os.path.join(d, n)
            cli.write_tif(P('lab.tif'), lab, gt=gt, nodata=0); cli.write_tif(P('fd.tif'), fd, gt=gt)
            src = P('pp.geojson')
            import json
            with open(src, 'w') as f:
                json.dump(dict(type='FeatureCollection', features=pps), f)
            fmt = case['fmt']
            out = P('net.' + cli.EXT[fmt]) if cli.EXT[fmt] else P('net')
            lay = ['a_nodes', 'b_streams']
            if fmt == 'GeoJSON':
                # one layer per file: a directory cannot be used, so only layers of multi table formats
                fmt, out = 'gpkg', P('net.gpkg')
            cli.ok(['network', '-bluespots', P('lab.tif'), '-flowdir', P('fd.tif'), '-pourpoints', src, '-pourpoints_layer', 'pp', '-out', out,
                    '-out_nodes_layer', lay[0], '-out_streams_layer', lay[1], '-format', fmt])
            nd = cli.read_layer(out, lay[0])['feats']
            st = cli.read_layer(out, lay[1])['feats']
            if fmt == 'ESRI Shapefile':
                for f in nd:
                    f['props'] = {dict(nodeid='nodeid', dstrnodeid='dstrnodeid').get(a, a): v for a, v in f['props'].items()}
            o.count('command')
        else:
            nodes, streams = cli.MemVector(), cli.MemVector() if case['streams'] else None
            rd = cli.MemVector(pps)
            call('StreamTool', StreamTool(rd, cli.MemRaster(lab, gt), cli.MemRaster(fd, gt), nodes, streams).process)
            if not nodes.written:
                o.bad('missing', '%s: no nodes are written' % tag)
                continue
            nd = cli.as_feats(nodes.written[0])
            st = cli.as_feats(streams.written[0]) if streams is not None else None
        if st is None:
            plain(o, nd, pps, lab, fd, gt, tag)
            o.count('without_streams')
        else:
            orc.network(o, nd, st, cli.as_feats(pps), lab, fd, gt, tag)
        o.case(len(pps) > 1, fd, lab, t, [p['properties']['bspot_id'] for p in pps] if len(pps) < 50 else len(pps))


def plain(o, nodes, pps, lab, fd, gt, tag):
    """Network without streams: pour point nodes only"""
    h, w = lab.shape
    nxt, _ = ref.next_index(fd)
    fl = np.asarray(lab).ravel()
    ids = sorted(f['props']['nodeid'] for f in nodes)
    if ids != sorted(p['properties']['bspot_id'] for p in pps):
        o.bad('pournodes', '%s: nodes %s, pour points of %d IDs' % (tag, ids[:10], len(pps)))
        return
    for f in nodes:
        p = f['props']
        q = next(x['properties'] for x in pps if x['properties']['bspot_id'] == p['nodeid'])
        i = q['cell_row'] * w + q['cell_col']
        src = fl[i]
        while (fl[i] == src or fl[i] == 0) and nxt[i] != i:
            i = int(nxt[i])
        end = int(fl[i]) if fl[i] not in (src, 0) else None
        if p['dstrnodeid'] != end:
            o.bad('downstream', '%s: node %s leads to %s, its path first enters %s' % (tag, p['nodeid'], p['dstrnodeid'], end))
        if (p['cell_row'], p['cell_col']) != (q['cell_row'], q['cell_col']) or p['bspot_id'] != p['nodeid'] or p['bspot_vol'] != q['bspot_vol']:
            o.bad('pournode', '%s: node %s differs from its pour point' % (tag, p['nodeid']))
    o.count('nodes', len(nodes))
