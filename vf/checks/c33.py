"""C33: results of an area do not depend on terrain its water never meets"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('terrains each processed alone and again as parts of a larger raster, between which lower ground leads off (one to four pixels wide, in one variant missing data): pairs, mosaics of up to 150 parts with several hundred bluespots, parts far out in rasters of more than 33000 rows or '
        'columns, other neighbours around the same part; complete or the chain of subcommands; within each part every raster is compared cell by cell and every record by its bluespot, IDs apart; non-trivial: a part has a bluespot; distinct by parts and places')
MUST_OBSERVE = ['pair', 'mosaic', 'far', 'nodata', 'neighbours', 'parts', 'bluespots', 'at_raster_edge', 'ids_differ', 'more_than_255', 'junctions', 'streams', 'partly_filled', 'spilling', 'complete', 'chain', 'filtered', 'accum', 'pure', 'levels', 'contrast', 'quarry', 'far_below']
MIN_EVENTS = 400
CPU_LIMIT = 120


def cases(seed, tier):
    n = 72 if tier == 'quick' else 3000
    out = []
    for i in range(n):
        t = ['pair', 'mosaic', 'nodata', 'pair', 'neighbours', 'far'][i % 6]
        if t == 'far' and i % 12 < 6 and tier == 'quick':
            t = 'pair'
        out.append(dict(t=t, seed=seed * 1000003 + i, native=t in ('far', 'mosaic') or i % 4 != 3, i=i))
    return out


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    (speedups.enable if case['native'] else speedups.disable)()
    try:
        study(case, o, d)
    finally:
        speedups.enable()
    o.count('pure', not case['native'])


def place(rng, parts, t):
    """Order of parts with places on a canvas"""
    gap = lambda: int(rng.choice([1, 1, 2, 4]))
    if t == 'far':
        far = int(rng.integers(33000, 36000))
        p = parts[0].shape
        side = rng.random() < .5
        at = [(0, int(rng.integers(2)) * gap(), int(rng.integers(2)) * gap())]
        q = parts[-1].shape
        at.append((len(parts) - 1, gap() if side else far, far if side else gap()))
        # beside the first
        if len(parts) == 3:
            m = parts[1].shape
            at.append((1, gap(), p[1] + 8) if side else (1, p[0] + 8, gap()))
        h = max(r + parts[k].shape[0] for k, r, c in at) + int(rng.integers(2))
        w = max(c + parts[k].shape[1] for k, r, c in at) + int(rng.integers(2))
        return at, (h, w)
    nr, nc = {'pair': (1, 2), 'neighbours': (2, 2), 'nodata': (1, int(rng.integers(1, 3))), 'mosaic': (int(rng.integers(5, 13)), int(rng.integers(5, 13)))}[t]
    if t == 'pair' and rng.random() < .5:
        nr, nc = nc, nr
    at, r = [], int(rng.choice([0, 0, 1, 2]))
    n = 0
    wmax = hmax = 0
    for i in range(nr):
        c = int(rng.choice([0, 0, 1, 3]))
        tall = 0
        for j in range(nc):
            k = n % len(parts) if t != 'mosaic' else int(rng.integers(len(parts)))
            n += 1
            at.append((k, r, c))
            tall = max(tall, parts[k].shape[0])
            wmax = max(wmax, c + parts[k].shape[1])
            c += parts[k].shape[1] + gap()
        hmax = r + tall
        r += tall + gap()
    return at, (hmax + int(rng.choice([0, 0, 1, 2])), wmax + int(rng.choice([0, 0, 1, 2])))


def go(d, z, gt, mode, nd=None, **k):
    os.makedirs(d)
    dem = os.path.join(d, 'dem.tif')
    cli.write_tif(dem, z, gt=gt, nodata=nd)
    if mode == 'complete':
        return cli.complete(dem, os.path.join(d, 'out'), **k)
    os.makedirs(os.path.join(d, 'chain'))
    return cli.load_chain(cli.chain(dem, os.path.join(d, 'chain'), polys=False, **k))


def study(case, o, d):
    rng = np.random.default_rng([case['seed'], 33])
    t = case['t']
    n = {'pair': 2, 'mosaic': int(rng.integers(1, 4)), 'nodata': 2, 'neighbours': 4, 'far': int(rng.integers(2, 4))}[t]
    parts = []
    top = {'mosaic': 22, 'far': 8}.get(t, 30 if case['native'] else 18)
    scale = str(rng.choice(['unit', 'unit', 'cm', 'low', 'neg'] if 'cm' in gen.SCALES else [s for s in gen.SCALES if s not in ('huge', 'tiny')]))
    for k in range(n):
        sh = [int(x) for x in rng.integers(5 if t == 'far' else 4, top, 2)]
        if t == 'far':
            sh[int(rng.integers(2))] = int(rng.integers(9, 30))
        parts.append(gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=sh, scale='unit' if t == 'nodata' else scale)).astype('f4'))
    if t in ('pair', 'neighbours', 'mosaic') and len(parts) > 1 and rng.random() < .5:
        # shallow beside deep
        ladder = [[.01, 30, 1, .1], [2.0 ** -8, 2.0 ** 12, 2.0 ** -6, 1]][int(rng.integers(2))]
        for k in range(len(parts)):
            parts[k] = (parts[k] * np.float32(ladder[(k + case['i']) % 4])).astype('f4')
        o.count('contrast'); o.count('quarry', ladder[1] > 1000)
    lo = min(float(z.min()) for z in parts)
    hi = max(float(z.max()) for z in parts)
    if t == 'nodata':
        low = np.float32(-999)
        assert lo > -900
    else:
        low = np.float32(lo - max(1.0, hi - lo) * float(rng.choice([.1, 1, 5, 3000, 30000])))
        if not low < lo - 1e-3 * (hi - lo):
            return
    # the increments of the slope-preserving fill follow from the largest number: the same for all
    H = np.float32(max(abs(lo), abs(hi), abs(float(low))))
    relief = max(float(z.max() - z.min()) for z in parts)
    for z in parts:
        z[0, 0] = H
    at, shape = place(rng, parts, t)
    big = np.full(shape, low, 'f4')
    for k, r, c in at:
        h, w = parts[k].shape
        big[r:r + h, c:c + w] = parts[k]
    nd = None
    stored = big
    if t == 'nodata':
        nd = -9999.0
        stored = np.where(big == low, np.float32(nd), big)
    gt = pipe.GTS[int(rng.integers(len(pipe.GTS)))]
    opt = dict(mm=float(rng.choice([1, 5, 20, 100, 500, 12.34])), accum=bool(rng.random() < .5), filt=pipe.FILTERS[int(rng.integers(len(pipe.FILTERS)))])
    opt['res'] = float(rng.choice([.1, .25, .05, 1.0, .01]))
    if relief / opt['res'] > 20000:
        opt['res'] = float(2.0 ** np.ceil(np.log2(relief / 2000)))
    o.count('far_below', float(hi - low) / opt['res'] > 20000)
    modes = ['complete', 'chain']
    mode = modes[int(rng.integers(2))]
    other = modes[int(rng.integers(2))]
    B = go(os.path.join(d, 'all'), stored, gt, mode, nd, **opt)
    alone = [go(os.path.join(d, 'p%d' % k), z, gt, other, **opt) for k, z in enumerate(parts)]
    o.count(t); o.count(mode); o.count('filtered', opt['filt'] is not None); o.count('accum', opt['accum'])
    tag = '%s of %d parts in %s by %s and %s, seed %d' % (t, len(at), shape, mode, other, case['seed'])
    compare(o, B, alone, parts, at, gt, opt, tag)
    nb = int(B['bluespots']['a'].max())
    o.count('more_than_255', nb > 255)
    o.case(nb > 0, big, opt['filt'])
    o.sample = dict(case=case, parts=len(at), bluespots=nb, shape=list(shape))


def by_id(run, name, key):
    return {f['props'][key]: f for f in run['L_' + name]['feats'] if f['props'].get('nodetype') in (None, 'pourpoint')}


SKIP = {'bspot_id', 'nodeid', 'dstrnodeid', 'cell_row', 'cell_col', 'fid', 'ogc_fid'}


def network(run):
    """Next pour point of each pour point, and cell of each junction"""
    nodes = {f['props']['nodeid']: f['props'] for f in run['L_nodes']['feats']}
    nxt = {}
    for k, p in nodes.items():
        if p['nodetype'] != 'pourpoint':
            continue
        n, steps = p['dstrnodeid'], 0
        while n is not None and nodes[n]['nodetype'] != 'pourpoint' and steps <= len(nodes):
            n = nodes[n]['dstrnodeid']
            steps += 1
        nxt[k] = n
    return nxt, {(p['cell_row'], p['cell_col']) for p in nodes.values() if p['nodetype'] != 'pourpoint'}, nodes


def compare(o, B, alone, parts, at, gt, opt, tag):
    inside = np.zeros(B['bluespots']['a'].shape, bool)
    W = B['bluespots']['a'].shape[1]
    names = [('pourpoints', 'bspot_id'), ('nodes', 'nodeid'), ('initvolumes', 'nodeid'), ('finalstate', 'nodeid'), ('hypsometry', 'bspot_id'), ('finallevels', 'bspot_id')]
    recB = {n: by_id(B, n, k) for n, k in names}
    recA = [{n: by_id(a, n, k) for n, k in names} for a in alone]
    netB = network(B)
    netA = [network(a) for a in alone]
    succ, off = ref.next_index(B['flowdir']['a'])
    total = 0
    for k, r0, c0 in at:
        A = alone[k]
        h, w = parts[k].shape
        win = (slice(r0, r0 + h), slice(c0, c0 + w))
        inside[win] = True
        o.count('parts')
        o.count('at_raster_edge', r0 == 0 or c0 == 0)
        where = '%s, part %d at %s' % (tag, k, (r0, c0))
        for n in ['filled', 'depths', 'finaldepths'] + (['accum'] if opt['accum'] else []):
            x, y = A[n]['a'], B[n]['a'][win]
            # volumes may be added up in another order
            if not np.array_equal(x, y) and (n != 'finaldepths' or x.shape != y.shape or not np.allclose(x, y, 1e-6, 1e-6 * float(np.abs(A['filled']['a']).max()))):
                p, c = orc.first(x != y)
                o.bad('raster:' + n, '%s: %s at %s is %r, and %r alone (%d cells)' % (where, n, p, y[p], x[p], c))
                return
        x, y = A['flowdir']['a'][1:-1, 1:-1], B['flowdir']['a'][win][1:-1, 1:-1]
        if not np.array_equal(x, y):
            p, c = orc.first(x != y)
            o.bad('raster:flowdir', '%s: direction inside at %s is %r, and %r alone (%d cells)' % (where, p, y[p], x[p], c))
            return
        # water reaching the edge of the part leaves it
        rr, cc = np.divmod(succ.reshape(inside.shape)[win], W)
        stays = (rr >= r0) & (rr < r0 + h) & (cc >= c0) & (cc < c0 + w) & ~off[win]
        stays[1:-1, 1:-1] = False
        if stays.any():
            o.bad('raster:outlet', '%s: edge cell at %s does not flow out' % (where, orc.first(stays)[0]))
            return
        la, lb = A['bluespots']['a'].astype('i8'), B['bluespots']['a'][win].astype('i8')
        nb = int(la.max()) if la.size else 0
        ids = np.zeros(nb + 1, 'i8')
        ids[la.ravel()] = lb.ravel()
        if ids[0] != 0 or not np.array_equal(ids[la], lb) or len(set(ids.tolist())) != nb + 1:
            o.bad('raster:bluespots', '%s: not the same bluespots' % where)
            return
        o.count('ids_differ', nb > 0 and int(ids[1]) != 1)
        o.count('bluespots', nb)
        total += nb
        for n in ('watersheds', 'finalbluespots'):
            x, y = ids[A[n]['a'].astype('i8')], B[n]['a'][win].astype('i8')
            ok = x == y
            if n == 'finalbluespots':
                # one of both just about dry
                ok |= np.maximum(A['finaldepths']['a'], B['finaldepths']['a'][win]) <= 1e-6 * float(np.abs(A['filled']['a']).max())
            if not ok.all():
                p, c = orc.first(~ok)
                o.bad('raster:' + n, '%s: %s at %s is %r, not %r (%d cells)' % (where, n, p, y[p], x[p], c))
                return
        shift = (gt[1] * c0 + gt[2] * r0, gt[4] * c0 + gt[5] * r0)
        for n, key in names:
            for i in range(1, nb + 1):
                f, g = recA[k][n].get(i), recB[n].get(int(ids[i]))
                if (f is None) != (g is None):
                    o.bad('missing:' + n, '%s: bluespot %d (%d alone) has a record in %s only in one of both' % (where, ids[i], i, n))
                    return
                if f is None:
                    continue
                for q, v in f['props'].items():
                    if q in SKIP:
                        continue
                    x = g['props'].get(q)
                    if v != x and not (isinstance(v, (int, float)) and isinstance(x, (int, float)) and orc.close(v, x, 1e-9, 1e-9)):
                        o.bad('attr:%s:%s' % (n, q), '%s: %s of bluespot %d is %r, and %r alone' % (where, q, ids[i], x, v))
                        return
                if 'cell_row' in f['props'] and (g['props']['cell_row'] - r0, g['props']['cell_col'] - c0) != (f['props']['cell_row'], f['props']['cell_col']):
                    o.bad('cell:' + n, '%s: the pour point of %d is another cell' % (where, ids[i]))
                    return
                if f['geom'] and any(not orc.close(a + s, b, 1e-12, 1e-9) for a, b, s in zip(f['geom']['coordinates'][0], g['geom']['coordinates'][0], shift)):
                    o.bad('geometry:' + n, '%s: %d is elsewhere: %r, and %r alone' % (where, ids[i], g['geom'], f['geom']))
                    return
                if n == 'finalstate':
                    o.count('partly_filled', 0 < f['props']['v'] < f['props']['bspot_vol'])
                    o.count('spilling', f['props']['spillv'] > 0)
                o.count('levels', n == 'finallevels')
                o.event()
        # network
        for i in range(1, nb + 1):
            a, b = netA[k][0].get(i), netB[0].get(int(ids[i]))
            want = int(ids[a]) if a else a
            if want != b:
                o.bad('network', '%s: bluespot %d spills to %r, and to %r alone' % (where, ids[i], b, want))
                return
        mid = lambda s: {(r, c) for r, c in s if 0 < r < h - 1 and 0 < c < w - 1}
        ja, jb = mid(netA[k][1]), mid({(r - r0, c - c0) for r, c in netB[1]})
        if ja != jb:
            o.bad('junctions', '%s: junctions inside at %s, and %s alone' % (where, sorted(jb - ja)[:5], sorted(ja - jb)[:5]))
            return
        o.count('junctions', len(ja))
        # streams between nodes inside, by the cell they start from
        def lines(run, net, r, c):
            out = {}
            for f in run['L_streams']['feats']:
                p = net[2].get(f['props'].get('nodeid'))
                if p is None or p.get('dstrnodeid') is None:
                    continue
                q = net[2][p['dstrnodeid']]
                ends = [(x['cell_row'] - r, x['cell_col'] - c) for x in (p, q)]
                if all(0 < y < h - 1 and 0 < x < w - 1 for y, x in ends):
                    out[tuple(ends)] = f['geom']['coordinates']
            return out
        x, y = lines(A, netA[k], 0, 0), lines(B, netB, r0, c0) if len(at) < 30 else None
        if y is not None:
            if set(x) != set(y):
                o.bad('streams', '%s: streams inside differ: %s' % (where, sorted(set(x) ^ set(y))[:5]))
                return
            for q in x:
                if len(x[q]) != len(y[q]) or any(not orc.close(a[j] + shift[j], b[j], 1e-12, 1e-9) for a, b in zip(x[q], y[q]) for j in (0, 1)):
                    o.bad('streams:path', '%s: the stream from %s to %s takes another path' % (where, q[0], q[1]))
                    return
                o.count('streams')
        o.event(8)
    for n in ('bluespots', 'watersheds', 'depths', 'finaldepths', 'finalbluespots'):
        if (B[n]['a'][~inside] != 0).any():
            o.bad('outside:' + n, '%s: %s on ground that drains freely' % (tag, n))
    if int(B['bluespots']['a'].max()) != total:
        o.bad('count', '%s: %d bluespots, %d in the parts' % (tag, int(B['bluespots']['a'].max()), total))
