"""Oracles over observed artefacts. Each reports through o.bad(mechanism, message)"""
import math
import numpy as np
from . import ref


def first(mask):
    i = np.argwhere(mask)
    return tuple(int(x) for x in i[0]), len(i)


def same(o, mech, got, want, tag, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        o.bad(mech, '%s: %s has shape %s, expected %s' % (tag, what, got.shape, want.shape))
        return False
    d = got != want
    if got.dtype.kind == 'f' and want.dtype.kind == 'f':
        d &= ~(np.isnan(got) & np.isnan(want))
    if d.any():
        p, n = first(d)
        o.bad(mech, '%s: %s differs at %d cells, first %s: %r expected %r' % (tag, what, n, p, got[p].item(), want[p].item()))
        return False
    return True


def filled(o, z, f, tag):
    """C01"""
    want = ref.flood(z)
    good = same(o, 'filled', np.asarray(f, dtype='f8'), want, tag, 'filled surface')
    o.count('raised_cells', (want > z).sum())
    return good


def depths(o, z, f, d, tag):
    """C02. z, f: as given to / produced by filling"""
    z = np.asarray(z, dtype='f8'); f = np.asarray(f, dtype='f8')
    want = (f.astype('f4') - z.astype('f4')).astype('f8')
    d = np.asarray(d, dtype='f8')
    same(o, 'depth', d, want, tag, 'depth')
    if (d < 0).any():
        o.bad('negative', '%s: negative depth at %s' % (tag, first(d < 0)))
    if d.shape != z.shape:
        return
    if ((d == 0) != (f == z)).any():
        o.bad('zero', '%s: depth is zero where filling raised the terrain, or the reverse, at %s' % (tag, first((d == 0) != (f == z))))
    reg, n = ref.regions((d > 0).astype('i8'))
    if not n:
        return
    o.count('bluespots', n)
    # one level per region
    idx = reg[reg > 0]
    hi = np.full(n + 1, -np.inf); lo = np.full(n + 1, np.inf)
    np.maximum.at(hi, idx, f[reg > 0]); np.minimum.at(lo, idx, f[reg > 0])
    if (hi[1:] != lo[1:]).any():
        k = int(np.argmax(hi[1:] != lo[1:])) + 1
        o.bad('level', '%s: water surface of a bluespot is not level: %r to %r' % (tag, lo[k], hi[k]))
    # rim: bordering cells
    h, w = z.shape
    rim = np.full(n + 1, np.inf)
    touch_edge = np.zeros(n + 1, bool)
    for dr in (-1, 0, 1):
        for dc in (-1, 0, 1):
            if not dr and not dc:
                continue
            a = reg[max(0, -dr):h - max(0, dr), max(0, -dc):w - max(0, dc)]
            b = reg[max(0, dr):h + min(0, dr), max(0, dc):w + min(0, dc)]
            zb = z[max(0, dr):h + min(0, dr), max(0, dc):w + min(0, dc)]
            m = (a > 0) & (b != a)
            np.minimum.at(rim, a[m], zb[m])
    bad = rim[1:] != lo[1:]
    if bad.any():
        k = int(np.argmax(bad)) + 1
        o.bad('rim', '%s: the lowest rim cell of a bluespot is at %r, its water at %r' % (tag, rim[k], lo[k]))


OUT = {0: (-1, 0), 2: (0, 1), 4: (1, 0), 6: (0, -1), 1: (-1, 1), 3: (1, 1), 5: (1, -1), 7: (-1, -1)}


def flow(o, z, fd, tag, short_diag=None):
    """C03. z: terrain"""
    z = np.asarray(z, dtype='f8')
    fd = np.asarray(fd)
    h, w = z.shape
    if fd.shape != z.shape:
        o.bad('shape', '%s: flow directions have shape %s' % (tag, fd.shape))
        return
    if not np.isin(fd, np.arange(8)).all():
        o.bad('undirected', '%s: %d cells without direction, first %s' % (tag, (~np.isin(fd, np.arange(8))).sum(), first(~np.isin(fd, np.arange(8)))))
        return
    nxt, off = ref.next_index(fd)
    edge = np.zeros((h, w), bool)
    edge[0] = edge[-1] = True
    edge[:, 0] = edge[:, -1] = True
    if (edge & ~off).any():
        o.bad('edge', '%s: edge cell %s does not point off the raster' % (tag, first(edge & ~off)[0]))
    # straight: a cell on one side only points perpendicular to it
    one = edge.copy()
    one[0, 0] = one[0, -1] = one[-1, 0] = one[-1, -1] = False
    if h > 1 and w > 1 and (one & (fd % 2 == 1)).any():
        o.bad('edge', '%s: edge cell %s points off the raster diagonally' % (tag, first(one & (fd % 2 == 1))[0]))
    up, cyc = ref.count_up(nxt)
    if cyc:
        o.bad('cycle', '%s: %d cells flow in circles' % (tag, cyc))
        return
    F = ref.flood(z)
    s, dg = ref.increments(z)
    tol = 4 * h * w * dg
    if not h > 2 or not w > 2:
        return
    down = F.ravel()[nxt].reshape(h, w)
    bad = down > F + tol
    if bad.any():
        p = first(bad)[0]
        o.bad('uphill', '%s: water flows from filled elevation %r at %s up to %r' % (tag, F[p], p, down[p]))
    inner = F[1:-1, 1:-1]
    sl = np.empty((8, h - 2, w - 2))
    for k in range(8):
        a, b = ref.DR[k], ref.DC[k]
        nb = F[1 + a:h - 1 + a, 1 + b:w - 1 + b]
        sl[k] = (inner - nb) / (math.sqrt(2) if k % 2 else 1.0)
    best = sl.max(0)
    got = np.take_along_axis(sl, fd[1:-1, 1:-1][None].astype('i8'), 0)[0]
    tol2 = 2 * tol + 1e-12 * np.abs(best)
    decided = best > tol2
    o.count('sloping_cells', decided.sum())
    o.count('flat_cells', (~decided).sum())
    bad = decided & (got < best - tol2)
    if bad.any():
        p = first(bad)[0]
        o.bad('steepest', '%s: cell %s flows along slope %r, the steepest is %r' % (tag, (p[0] + 1, p[1] + 1), got[p], best[p]))


def accum(o, fd, acc, tag):
    """C05"""
    want, cyc = ref.accum(fd)
    assert cyc == 0
    acc = np.asarray(acc)
    same(o, 'accum', acc.astype('f8') if acc.dtype.kind in 'iuf' else acc, want.astype('f8'), tag, 'accumulated flow')
    nxt, off = ref.next_index(fd)
    ends = (nxt == np.arange(len(nxt)))
    if acc.shape == np.asarray(fd).shape:
        s = acc.ravel()[ends].astype('f8').sum()
        if s != acc.size:
            o.bad('outlets', '%s: accumulated flow at the ends of the paths adds up to %r, the raster has %d cells' % (tag, s, acc.size))
    o.count('max_upstream', want.max())


def labels(o, dep, lab, tag, keep=None, cell_area=1.0):
    """C06. keep(area, maxdepth, volume) -> bool. Returns number of bluespots"""
    dep = np.asarray(dep)
    lab = np.asarray(lab)
    if lab.shape != dep.shape:
        o.bad('shape', '%s: ID raster has shape %s' % (tag, lab.shape))
        return 0
    if lab.dtype.kind not in 'iu':
        if not np.array_equal(lab, np.floor(lab)):
            o.bad('type', '%s: IDs are not integers' % tag)
        lab = lab.astype('i8')
    reg, n = ref.regions((dep > 0).astype('i8'))
    if keep is not None:
        st = ref.stats(dep, reg, n)
        kept = [False] + [bool(keep(st[k]['count'] * cell_area, st[k]['max'], st[k]['sum'] * cell_area)) for k in range(1, n + 1)]
        m = np.array(kept)[reg]
        o.count('bluespots_kept', sum(kept)); o.count('bluespots_removed', n - sum(kept))
        reg = np.where(m, reg, 0)
        n = sum(kept)
    else:
        o.count('bluespots_kept', n)
    lab = lab.astype('i8')
    bad = (lab == 0) != (reg == 0)
    if bad.any():
        p, k = first(bad)
        o.bad('coverage', '%s: %d cells are wrongly in or out of a bluespot, first %s has ID %d' % (tag, k, p, lab[p]))
        return n
    if lab.min() < 0 or not np.array_equal(np.unique(lab[lab != 0]), np.arange(1, n + 1)):
        u = np.unique(lab[lab != 0])
        o.bad('numbering', '%s: IDs are not 1..%d: %d different, lowest %s, highest %s' % (tag, n, len(u), u[:1], u[-1:]))
    # same partition
    if n:
        a = reg[reg > 0]; b = lab[lab != 0]
        pairs = np.unique(np.stack([a, b], 1), axis=0)
        if len(np.unique(pairs[:, 0])) != len(pairs) or len(np.unique(pairs[:, 1])) != len(pairs):
            o.bad('partition', '%s: a connected region has several IDs, or an ID several regions' % tag)
    return n


def wsheds(o, fd, lab, ws, tag, background=0):
    """C08"""
    want = ref.watersheds(fd, lab, background)
    same(o, 'watershed', ws, want, tag, 'watershed')
    keep = np.asarray(lab) != background
    if np.asarray(ws).shape == keep.shape and (np.asarray(ws)[keep] != np.asarray(lab)[keep]).any():
        o.bad('relabel', '%s: labelled cells changed' % tag)
    o.count('assigned_cells', ((np.asarray(lab) == background) & (want != background)).sum())
    o.count('unassigned_cells', (want == background).sum())


def cell_area(gt):
    return abs(gt[1] * gt[5] - gt[2] * gt[4])


def center(gt, r, c):
    return (gt[0] + (c + .5) * gt[1] + (r + .5) * gt[2], gt[3] + (c + .5) * gt[4] + (r + .5) * gt[5])


def near_pt(a, b, gt, prec=0.0):
    t = 1e-6 * (abs(gt[1]) + abs(gt[2])) + 1e-12 * (abs(a[0]) + abs(a[1])) + prec
    return abs(a[0] - b[0]) <= t and abs(a[1] - b[1]) <= t


def close(a, b, rel=1e-9, ab=1e-12):
    if a is None or b is None:
        return a is b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


def pourpoints(o, feats, lab, dep, ws, fd, gt, tag, acc=None, nf=None, prec=0.0):
    """C09"""
    lab = np.asarray(lab).astype('i8')
    n = int(lab.max())
    ids = [f['props'].get('bspot_id') for f in feats]
    if sorted(ids, key=lambda x: (x is None, x)) != list(range(n + 1)):
        o.bad('ids', '%s: pour points for IDs %s, the raster has 0..%d' % (tag, ids[:20], n))
        return
    ca = abs(gt[1] * gt[5] - gt[2] * gt[4])
    st = ref.stats(dep, lab, n)
    wc = np.bincount(np.asarray(ws).astype('i8').ravel(), minlength=n + 1)
    nxt, off = ref.next_index(fd)
    h, w = lab.shape
    if acc is not None:
        acc = np.asarray(acc, dtype='f8')
        best = np.full(n + 1, -np.inf)
        np.maximum.at(best, lab.ravel(), acc.ravel())
    elif nf is not None:
        best = np.full(n + 1, np.inf)
        np.minimum.at(best, lab.ravel(), nf.ravel())
    for f in feats:
        p = f['props']
        k = int(p['bspot_id'])
        r, c = int(p['cell_row']), int(p['cell_col'])
        if not (0 <= r < h and 0 <= c < w) or lab[r, c] != k:
            o.bad('inside', '%s: pour point of bluespot %d at (%d, %d) is not in it' % (tag, k, r, c))
            continue
        if f['geom'] is not None and not near_pt(f['geom']['coordinates'][0], center(gt, r, c), gt, prec):
            o.bad('position', '%s: pour point %d lies at %s, the cell centre is %s' % (tag, k, f['geom']['coordinates'], center(gt, r, c)))
        if acc is not None and acc[r, c] != best[k]:
            o.bad('extreme', '%s: pour point %d has accumulated flow %r, the highest in it is %r' % (tag, k, acc[r, c], best[k]))
        if acc is None and nf is not None and nf[r, c] != best[k]:
            o.bad('extreme', '%s: pour point %d is %r above the lowest cell of the slope-preserving fill' % (tag, k, nf[r, c] - best[k]))
        i = r * w + c
        if nxt[i] != i and lab.ravel()[nxt[i]] == k and (acc is not None or nf is not None):
            o.bad('leaves', '%s: the flow path from pour point %d stays in its bluespot' % (tag, k))
        s = st[k]
        if k:
            want = dict(bspot_area=s['count'] * ca, bspot_vol=s['sum'] * ca, bspot_dmax=s['max'], wshed_area=int(wc[k]) * ca)
        else:
            want = dict(bspot_area=s['count'] * ca, bspot_vol=0.0, bspot_dmax=0.0, wshed_area=int(wc[0]) * ca)
        if want['wshed_area']:
            want['bspot_fumm'] = 1000 * want['bspot_vol'] / want['wshed_area']
        for a, v in want.items():
            if not close(p.get(a), v, 1e-9):
                o.bad('attribute', '%s: pour point %d has %s=%r, expected %r' % (tag, k, a, p.get(a), v))
    o.count('pourpoints', len(feats))


def to_cell(pt, gt):
    det = gt[1] * gt[5] - gt[2] * gt[4]
    x, y = pt[0] - gt[0], pt[1] - gt[3]
    c = (x * gt[5] - y * gt[2]) / det - .5
    r = (-x * gt[4] + y * gt[1]) / det - .5
    return (int(round(r)), int(round(c))), abs(r - round(r)) + abs(c - round(c))


def network(o, nodes, streams, pps, lab, fd, gt, tag, cprec=1e-3, check_geom=True):
    """C10. pps: pour point features"""
    lab = np.asarray(lab).astype('i8')
    fd = np.asarray(fd).astype('i8')
    h, w = lab.shape
    nxt, off = ref.next_index(fd)
    fl = lab.ravel()
    byid = {}
    for f in nodes:
        k = f['props']['nodeid']
        if k in byid:
            o.bad('duplicate', '%s: node %s appears twice' % (tag, k))
            return
        byid[k] = f['props']
    pp = {int(f['props']['bspot_id']): f['props'] for f in pps}
    got = {k for k, p in byid.items() if p['nodetype'] == 'pourpoint'}
    if got != set(pp):
        o.bad('pournodes', '%s: pour points %s are not nodes, nodes %s are not pour points' % (tag, sorted(set(pp) - got)[:5], sorted(got - set(pp))[:5]))
        return
    top = int(lab.max())
    for f in nodes:
        p = f['props']
        k = p['nodeid']
        cell = (int(p['cell_row']), int(p['cell_col']))
        if f['geom'] is not None and not near_pt(f['geom']['coordinates'][0], center(gt, *cell), gt):
            o.bad('position', '%s: node %s lies at %s, its cell centre is %s' % (tag, k, f['geom']['coordinates'], center(gt, *cell)))
        if p['nodetype'] == 'junction':
            if k <= top:
                o.bad('junctionid', '%s: junction has ID %s, the bluespots go to %d' % (tag, k, top))
            if p['bspot_id'] is not None or any((p[a] or 0) != 0 for a in ('bspot_area', 'bspot_vol', 'wshed_area')):
                o.bad('junction', '%s: junction %s carries an area, volume or bluespot: %s' % (tag, k, p))
        elif p['nodetype'] == 'pourpoint':
            q = pp[k]
            if cell != (int(q['cell_row']), int(q['cell_col'])) or p['bspot_id'] != k:
                o.bad('pournode', '%s: node %s does not stand at its pour point' % (tag, k))
            for a in ('bspot_area', 'bspot_vol', 'wshed_area'):
                if not close(p[a], q[a]):
                    o.bad('attribute', '%s: node %s has %s=%r, its pour point %r' % (tag, k, a, p[a], q[a]))
        else:
            o.bad('nodetype', '%s: node %s has type %r' % (tag, k, p['nodetype']))
        d = p['dstrnodeid']
        if d is not None and d not in byid:
            o.bad('dangling', '%s: downstream node %s of %s does not exist' % (tag, d, k))
            return
    # forest, first pour point met downstream
    ds = {k: p['dstrnodeid'] for k, p in byid.items()}
    state = {}
    for k in ds:
        path = []
        j = k
        while j is not None and j not in state:
            state[j] = 0
            path.append(j)
            j = ds[j]
        if j is not None and state[j] == 0:
            o.bad('cycle', '%s: node %s is downstream of itself' % (tag, j))
            return
        for x in path:
            state[x] = 1
    firstpp = {}

    def fpp(k):
        path = []
        j = ds[k]
        while j is not None and byid[j]['nodetype'] == 'junction' and j not in firstpp:
            path.append(j)
            j = ds[j]
        r = firstpp[j] if (j is not None and byid[j]['nodetype'] == 'junction') else j
        for x in path:
            firstpp[x] = r
        return r
    # expected paths
    paths = {}
    for k, q in pp.items():
        i = int(q['cell_row']) * w + int(q['cell_col'])
        src = fl[i]
        cells = [i]
        end = None
        while True:
            if fl[i] != src and fl[i] != 0:
                end = int(fl[i])
                break
            j = int(nxt[i])
            if j == i:
                break
            i = j
            cells.append(i)
            if len(cells) > h * w + 1:
                raise AssertionError('cyclic flow')
        paths[k] = (cells, end)
        if fpp(k) != end:
            o.bad('downstream', '%s: the first pour point downstream of %s is %s, its path first enters %s' % (tag, k, fpp(k), end))
            return
    # merge points
    want_steps, incoming, outgoing = set(), {}, set()
    for k, (cells, end) in paths.items():
        for a, b in zip(cells[:-1], cells[1:]):
            if (a, b) not in want_steps:
                want_steps.add((a, b))
                incoming.setdefault(b, set()).add(a)
                outgoing.add(a)
    ends = {cells[-1] for cells, e in paths.values()}
    merge = {c for c, s in incoming.items() if len(s) > 1 and c in outgoing and c not in ends}
    # a path start met by another path is no merge of streams before a bluespot; starts lie in bluespots
    jc = {}
    for k, p in byid.items():
        if p['nodetype'] == 'junction':
            jc.setdefault(int(p['cell_row']) * w + int(p['cell_col']), []).append(k)
    if set(jc) != merge:
        x = sorted(merge - set(jc))[:3]; y = sorted(set(jc) - merge)[:3]
        o.bad('merge', '%s: streams merge without a junction at cells %s; junctions without a merge at %s' % (
            tag, [divmod(i, w) for i in x], [divmod(i, w) for i in y]))
    if any(len(v) > 1 for v in jc.values()):
        o.bad('merge', '%s: several junctions in one cell' % tag)
    o.count('junctions', len(merge)); o.count('nodes', len(nodes)); o.count('max_merging', max([len(s) for s in incoming.values()] or [0]))
    if streams is None:
        return
    cover = {}
    seen = set()
    for f in streams:
        p = f['props']
        k = p['nodeid']
        if k not in byid or k in seen:
            o.bad('stream', '%s: stream of unknown node or second stream of node %s' % (tag, k))
            continue
        seen.add(k)
        if p['dstrnodeid'] != ds[k]:
            o.bad('stream', '%s: stream of node %s leads to %s, the node to %s' % (tag, k, p['dstrnodeid'], ds[k]))
        cells = []
        for pt in (f['geom'] or dict(coordinates=[]))['coordinates']:
            cell, err = to_cell(pt, gt)
            if err > cprec:
                o.bad('streamgeom', '%s: vertex %s of the stream of node %s is not a cell centre' % (tag, pt, k))
            cells.append(cell[0] * w + cell[1])
        if not cells:
            continue
        if cells[0] != int(byid[k]['cell_row']) * w + int(byid[k]['cell_col']):
            o.bad('streamgeom', '%s: stream of node %s does not start at the node' % (tag, k))
        for a, b in zip(cells[:-1], cells[1:]):
            if nxt[a] != b or a == b:
                o.bad('streamgeom', '%s: stream of node %s steps from %s to %s against the flow directions' % (tag, k, divmod(a, w), divmod(b, w)))
                break
            if (a, b) in cover:
                o.bad('twice', '%s: step %s to %s is covered by streams of %s and %s' % (tag, divmod(a, w), divmod(b, w), cover[a, b], k))
            cover[a, b] = k
        d = ds[k]
        last = cells[-1]
        if d is not None and byid[d]['nodetype'] == 'junction':
            if last != int(byid[d]['cell_row']) * w + int(byid[d]['cell_col']):
                o.bad('streamgeom', '%s: stream of node %s ends at %s, its downstream junction stands elsewhere' % (tag, k, divmod(last, w)))
        elif d is not None:
            if fl[last] != d or any(fl[x] == d for x in cells[:-1]):
                o.bad('streamgeom', '%s: stream of node %s does not end where the path first enters bluespot %s' % (tag, k, d))
        elif nxt[last] != last:
            o.bad('streamgeom', '%s: stream of node %s ends at %s before the raster edge' % (tag, k, divmod(last, w)))
    if set(cover) != want_steps:
        o.bad('coverage', '%s: streams cover %d steps, the flow paths have %d' % (tag, len(cover), len(want_steps)))
    o.count('stream_steps', len(want_steps))


def rain_uniform(o, nodes, vols, mm, attr, tag, raster_area=None):
    """C11 uniform rain"""
    carried(o, nodes, vols, {attr}, tag)
    tot = 0.0
    for f in vols:
        p = f['props']
        want = float(p['wshed_area'] or 0) * mm * .001
        if not close(p.get(attr), want, 1e-9):
            o.bad('rain', '%s: node %s receives %r, expected %r' % (tag, p['nodeid'], p.get(attr), want))
        tot += float(p.get(attr) or 0)
    if raster_area is not None and not close(tot, raster_area * mm * .001, 1e-9):
        o.bad('total', '%s: input volumes add up to %r, the rain to %r' % (tag, tot, raster_area * mm * .001))


def carried(o, before, after, new, tag):
    """All features and attributes are carried over unchanged"""
    if len(before) != len(after):
        o.bad('carried', '%s: %d features in, %d out' % (tag, len(before), len(after)))
        return False
    key = lambda f: f['props'].get('nodeid', f['props'].get('bspot_id'))
    b = {key(f): f for f in before}
    good = True
    for f in after:
        g = b.get(key(f))
        if g is None:
            o.bad('carried', '%s: feature %s was not in the input' % (tag, key(f)))
            return False
        for a, v in g['props'].items():
            if a in new:
                continue
            x = f['props'].get(a)
            if not (x == v or close(x, v, 1e-12)):
                o.bad('carried', '%s: attribute %s of %s changed from %r to %r' % (tag, a, key(f), v, x))
                good = False
        if g['geom'] is not None and f['geom'] is not None and g['geom']['coordinates'] != f['geom']['coordinates']:
            a, c = g['geom']['coordinates'][0], f['geom']['coordinates'][0]
            if max(abs(a[0] - c[0]), abs(a[1] - c[1])) > 1e-9 * max(1, abs(a[0]), abs(a[1])):
                o.bad('carried', '%s: geometry of %s changed' % (tag, key(f)))
                good = False
    return good


def final_state(o, vols, fin, attr, tag):
    """C12"""
    carried(o, vols, fin, {'spillv', 'v', 'pctv'}, tag)
    P = {}
    for f in fin:
        k = f['props']['nodeid']
        if k in P:
            o.bad('once', '%s: node %s is reported twice' % (tag, k))
        P[k] = f['props']
    src = {f['props']['nodeid']: f['props'] for f in vols}
    if set(P) != set(src):
        o.bad('once', '%s: nodes %s are not reported' % (tag, sorted(set(src) - set(P))[:5]))
        return
    total_in = sum(float(p[attr]) for p in src.values())
    eps = 1e-9 * max(total_in, 1e-30)
    up = {k: 0.0 for k in P}
    nup = {k: [] for k in P}
    for k, p in P.items():
        if p.get('spillv') is None or p.get('v') is None:
            o.bad('missing', '%s: node %s has no result' % (tag, k))
            return
        d = src[k]['dstrnodeid']
        if d is not None:
            nup[d].append(float(p['spillv']))
    out = kept = 0.0
    for k, p in P.items():
        inp, cap = float(src[k][attr]), float(src[k]['bspot_vol'])
        u = math.fsum(nup[k])
        v, s = float(p['v']), float(p['spillv'])
        loc = 1e-9 * (inp + u) + 1e-300
        if abs(inp + u - v - s) > loc:
            o.bad('balance', '%s: node %s receives %r, holds %r and spills %r' % (tag, k, inp + u, v, s))
        if v < 0 or s < 0 or v > cap * (1 + 1e-12):
            o.bad('capacity', '%s: node %s with capacity %r holds %r and spills %r' % (tag, k, cap, v, s))
        if s > loc and abs(v - cap) > 1e-9 * cap:
            o.bad('spill', '%s: node %s spills %r while holding %r of %r' % (tag, k, s, v, cap))
        if cap:
            if p.get('pctv') is None or not close(p['pctv'], 100 * v / cap, 1e-9, 1e-9):
                o.bad('percent', '%s: node %s is %r percent full, holds %r of %r' % (tag, k, p.get('pctv'), v, cap))
            o.count('partly_filled', 0 < v < cap)
            o.count('spilling', s > 0)
        elif p.get('pctv') is not None:
            o.bad('percent', '%s: node %s without capacity is %r percent full' % (tag, k, p.get('pctv')))
        kept += v
        if src[k]['dstrnodeid'] is None:
            out += s
    if abs(total_in - kept - out) > eps + 1e-300:
        o.bad('total', '%s: total input %r, retained %r, left %r' % (tag, total_in, kept, out))


def bins(o, k, z, h, res, tag, f32, prec=0.0):
    """C13 for one bluespot. z: terrain values. h: dict counts, num_bins, lower, upper, res, zmin, zmax"""
    z = np.asarray(z)
    f = z.astype('f8')
    pr = prec * max(abs(f.min()), abs(f.max()))
    if h['zmin'] is None or h['zmax'] is None or abs(float(h['zmin']) - f.min()) > pr or abs(float(h['zmax']) - f.max()) > pr:
        o.bad('minmax', '%s: bluespot %s is said to lie between %r and %r, its terrain between %r and %r' % (tag, k, h['zmin'], h['zmax'], f.min(), f.max()))
    n, lo, up = int(h['num_bins']), float(h['lower']), float(h['upper'])
    c = [int(x) for x in h['counts']]
    mag = max(abs(f.min()), abs(f.max()), res)
    tiny = 1e-9 * res + 4 * np.spacing(mag)
    tiny += pr
    if not close(h['res'], res, 1e-12):
        o.bad('resolution', '%s: bin width of bluespot %s is %r, requested %r' % (tag, k, h['res'], res))
    if len(c) != n or n < 1:
        o.bad('bins', '%s: bluespot %s has %d counts in %d bins' % (tag, k, len(c), n))
        return
    if sum(c) != len(z) or min(c) < 0:
        o.bad('counts', '%s: histogram of bluespot %s counts %d cells of %d' % (tag, k, sum(c), len(z)))
    q = lo / res
    if abs(q - round(q)) > 1e-9 + 4 * np.spacing(abs(q)) + pr / res:
        o.bad('bounds', '%s: lower bound %r of bluespot %s is no multiple of %r' % (tag, lo, k, res))
    if lo > f.min() + tiny or f.min() - lo > res + tiny:
        o.bad('bounds', '%s: lower bound %r of bluespot %s, lowest terrain %r' % (tag, lo, k, f.min()))
    if abs(up - (lo + n * res)) > tiny * n:
        o.bad('bounds', '%s: %d bins of %r from %r do not end at %r' % (tag, n, res, lo, up))
    if up < f.max() - tiny:
        o.bad('bounds', '%s: upper bound %r of bluespot %s, highest terrain %r' % (tag, up, k, f.max()))
    if n > 1 and lo + (n - 1) * res > f.max() + tiny:
        o.bad('bounds', '%s: bluespot %s has %d bins to %r, its highest terrain is %r' % (tag, k, n, up, f.max()))
    delta = tiny + (4 * float(np.spacing(np.float32(mag))) if f32 else 8 * np.spacing(mag) * n)
    zs = np.sort(f)
    cum = np.cumsum(c)
    e = lo + np.arange(1, n) * (up - lo) / n
    a = np.searchsorted(zs, e - delta, 'left')
    b = np.searchsorted(zs, e + delta, 'right')
    bad = (cum[:-1] < a) | (cum[:-1] > b)
    if bad.any():
        j = int(np.argmax(bad))
        o.bad('histogram', '%s: %d cells of bluespot %s are counted below %r, there are %d to %d' % (tag, cum[j], k, e[j], a[j], b[j]))
    o.count('bins', n)


def hyps_props(p):
    n = int(p['hist_num_bins'])
    return dict(counts=[x for x in str(p['hist_counts']).split('|')] if n > 0 else [], num_bins=n, lower=p['hist_lower_bound'],
                upper=p['hist_upper_bound'], res=p['hist_resolution'], zmin=p['zmin'], zmax=p['zmax'])


def hyps(o, feats, z, lab, res, tag, pps=None, prec=0.0):
    z = np.asarray(z)
    lab = np.asarray(lab).astype('i8')
    n = int(lab.max())
    ids = sorted(int(f['props']['bspot_id']) for f in feats)
    if ids != list(range(n + 1)):
        o.bad('ids', '%s: hypsometry of IDs %s, expected 0..%d' % (tag, ids[:10], n))
        return
    st = ref.stats(z, lab, n)
    for f in feats:
        k = int(f['props']['bspot_id'])
        if k:
            bins(o, k, st[k]['values'], hyps_props(f['props']), res, tag, z.dtype == np.float32, prec)
            o.event()
    if pps is not None:
        b = {int(f['props']['bspot_id']): f['props'] for f in pps}
        for f in feats:
            q = b[int(f['props']['bspot_id'])]
            for a, v in q.items():
                x = f['props'].get(a)
                if not (x == v or close(x, v, 1e-12)):
                    o.bad('carried', '%s: attribute %s of pour point %s changed from %r to %r' % (tag, a, q['bspot_id'], v, x))


def level(o, k, z, area, res, v, cap, dmax, zmin, got, gotd, tag):
    """C14 for one bluespot: z terrain values"""
    z = np.asarray(z, dtype='f8')
    full = z.min() + dmax
    mag = max(abs(z.min()), abs(full), 1e-30)
    t = 1e-9 * mag
    if got is None or not (z.min() - t <= got <= full + t):
        o.bad('range', '%s: level %r of bluespot %s is not between terrain %r and full %r' % (tag, got, k, z.min(), full))
        return
    if abs((got - z.min()) - gotd) > t:
        o.bad('dmax', '%s: maximum depth %r of bluespot %s at level %r over %r' % (tag, gotd, k, got, z.min()))
    if v == 0 and cap > 0 and abs(got - z.min()) > t:
        o.bad('empty', '%s: empty bluespot %s has level %r, lowest terrain %r' % (tag, k, got, z.min()))
    if v >= cap * .99991 and abs(got - full) > t:
        o.bad('full', '%s: full bluespot %s has level %r, expected %r' % (tag, k, got, full))
    if cap > 0:
        exact = min(ref.level_for_volume(z, area, v), full)
        slack = 1e-5 * max(full - z.min(), np.spacing(np.float32(mag)) * 4)
        if v / cap > .9999:
            slack += abs(full - exact)
        o.count('levels_nearly_full', .99991 <= v / cap < 1)
        if abs(got - exact) > 2 * res + slack:
            o.bad('level', '%s: level of bluespot %s holding %r of %r is %r, exactly %r, resolution %r' % (tag, k, v, cap, got, exact, res))
        o.count('levels_partly', 0 < v < cap * .9999)
    o.count('levels', 1)


def levels(o, feats, hyp, z, lab, gt, res, tag):
    z = np.asarray(z)
    lab = np.asarray(lab).astype('i8')
    n = int(lab.max())
    st = ref.stats(z, lab, n)
    area = abs(gt[1] * gt[5] - gt[2] * gt[4])
    H = {int(f['props']['bspot_id']): f['props'] for f in hyp}
    ids = sorted(int(f['props']['bspot_id']) for f in feats)
    if ids != list(range(n + 1)):
        o.bad('ids', '%s: levels of IDs %s, expected 0..%d' % (tag, ids[:10], n))
        return
    for f in feats:
        p = f['props']
        k = int(p['bspot_id'])
        if not k:
            continue
        level(o, k, st[k]['values'], area, res, float(p['v']), float(H[k]['bspot_vol']), float(H[k]['bspot_dmax']), float(H[k]['zmin']),
              float(p['approx_z']), float(p['approx_dmax']), tag)


def finals(o, z, lab, lev, fdep, fbs, tag):
    """C15. lev: {id: level}"""
    z = np.asarray(z, dtype='f8')
    lab = np.asarray(lab).astype('i8')
    n = int(lab.max())
    L = np.full(n + 1, -np.inf)
    for k, v in lev.items():
        if 0 < k <= n:
            L[k] = v
    lv = L[lab]
    with np.errstate(invalid='ignore'):
        diff = np.where(lab > 0, lv - z, -np.inf)
    tol = 2e-7 * np.maximum(np.where(lab > 0, np.abs(lv), 0), np.abs(z))
    want = np.maximum(diff, 0)
    o.count('wet_cells', (diff > 0).sum()); o.count('dry_bluespot_cells', ((diff < 0) & (lab > 0)).sum()); o.count('level_cells', (diff == 0).sum())
    if fdep is not None:
        d = np.asarray(fdep, dtype='f8')
        if (d < 0).any():
            o.bad('negative', '%s: negative depth at %s' % (tag, first(d < 0)[0]))
        bad = np.abs(d - want) > np.where(want > 0, tol, 0)
        bad |= ~np.isfinite(d)
        bad &= ~((np.abs(diff) <= tol) & (np.abs(d) <= tol))
        if bad.any():
            p = first(bad)[0]
            o.bad('depth', '%s: depth at %s is %r, level %r over terrain %r of ID %d' % (tag, p, d[p], lv[p], z[p], lab[p]))
    if fbs is not None:
        b = np.asarray(fbs).astype('i8')
        wantb = np.where(diff >= 0, lab, 0)
        bad = b != wantb
        o.count('levels_next_to_terrain', ((diff != 0) & (np.abs(diff) < tol)).sum())
        if bad.any():
            p = first(bad)[0]
            o.bad('extent', '%s: extent at %s is %d, bluespot %d with level %r over terrain %r' % (tag, p, b[p], lab[p], lv[p], z[p]))
        if fdep is not None and ((np.asarray(fdep) > 0) & (b == 0)).any():
            o.bad('agree', '%s: water outside the extent' % tag)
