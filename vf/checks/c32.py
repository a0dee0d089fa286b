"""C32: flow can be followed cell by cell, up and down"""
import numpy as np
from vf import gen, ref, cli
from vf.core import call

RULE = ('acyclic flow directions of many kinds (random forests, few outlets, sinks inside, edges flowing inwards or nowhere, snakes, one row or column, terrains), native and pure; upstream and downstream helpers asked for every cell and direction, '
        'accumulation traced leaf by leaf in random order, watersheds grown from single cells and from all edges with any unassigned value; networks of pour points in random regions, given as cells and as features, with and without background, '
        'all against successor tables of our own; non-trivial: at least one cell receives flow from another; distinct by flow directions')
MUST_OBSERVE = ['large_labels', 'labels_i8', 'labels_u4', 'labels_u8', 'labels_i2', 'directions', 'is_upstream', 'upstream', 'traces', 'left_raster', 'ended_inside', 'outward', 'inward_edges', 'no_direction_edges', 'leaf_by_leaf', 'accumulated', 'watersheds', 'from_one_cell', 'sinks_kept', 'next_label', 'no_next_label', 'background', 'no_background',
                'path_over_own_label', 'as_cells', 'as_features', 'network', 'junctions', 'junction_below_junction', 'junction_of_many', 'pure', 'native', 'thin', 'cell_types', 'other_unassigned', 'terrain', 'long_path']
MIN_EVENTS = 5000
CPU_LIMIT = 90
DR = [-1, -1, 0, 1, 1, 1, 0, -1]
DC = [0, 1, 1, 1, 0, -1, -1, -1]


def cases(seed, tier):
    n = 260 if tier == 'quick' else 8000
    return [dict(t='long', native=k % 2 == 0, seed=seed * 1000003 + k) for k in range(2 if tier == 'quick' else 8)] + [dict(t=['helpers', 'helpers', 'accum', 'sheds', 'net', 'net', 'terrain'][i % 7], native=(i // 7) % 2 == 0, seed=seed * 1000003 + i) for i in range(n)]


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    (speedups.enable if case['native'] else speedups.disable)()
    try:
        rng = np.random.default_rng([case['seed'], 32])
        for rep in range(1 if case['t'] == 'long' else 3):
            globals()[case['t']](case, rng, o)
    finally:
        speedups.enable()
    o.count('native' if case['native'] else 'pure')
    o.sample = dict(case=case)


def flows(rng, o, top=22):
    h, w = [int(x) for x in rng.integers(3, top, 2)]
    k = int(rng.integers(10))
    if k == 0:
        h = int(rng.integers(1, 3))
    elif k == 1:
        w = int(rng.integers(1, 3))
    elif k == 2:
        h, w = int(rng.integers(1, 4)), int(rng.integers(300, 900))
        h, w = (h, w) if rng.random() < .5 else (w, h)
    o.count('thin', min(h, w) < 3)
    how = int(rng.integers(6))
    if how < 3:
        fd = gen.random_flowdir(rng, h, w, nodir=float(rng.choice([0, 0, .02, .2])))
    else:
        fd = gen.draining_flowdir(rng, h, w)
    if how == 5:
        # edges flow nowhere
        fd[0] = fd[-1] = 8
        fd[:, 0] = fd[:, -1] = 8
        o.count('no_direction_edges')
    nxt, off = ref.next_index(fd)
    if ref.count_up(nxt)[1]:
        return flows(rng, o, top)
    edge = np.ones((h, w), bool)
    edge[1:-1, 1:-1] = False
    o.count('inward_edges', (edge & ~off & (fd < 8)).any())
    return fd, nxt, off


def ups(nxt, i):
    return np.flatnonzero((nxt == i) & (np.arange(len(nxt)) != i))


def table(nxt):
    t = {}
    for i, j in enumerate(nxt.tolist()):
        if i != j:
            t.setdefault(j, []).append(i)
    return t


def path_of(nxt, i):
    p = [i]
    while nxt[i] != i:
        i = int(nxt[i])
        p.append(i)
    return p


def cell_as(rng, o, r, c):
    """A pair of indices in one of the forms callers use"""
    k = int(rng.integers(4))
    o.count('cell_types', k > 0)
    return [(r, c), [r, c], np.array([r, c]), (np.int64(r), np.int32(c))][k]


def ints(cells):
    return [tuple(int(x) for x in c) for c in cells]


def helpers(case, rng, o):
    from malstroem.algorithms import flow
    for k in range(8):
        dl = call('direction_to_delta', flow.direction_to_delta, k if rng.random() < .5 else np.uint8(k))
        if tuple(dl) != (DR[k], DC[k]):
            o.bad('delta', 'direction %d is %r' % (k, dl))
        cell = tuple(int(x) for x in rng.integers(0, 50, 2))
        if ints([call('cell_in_direction', flow.cell_in_direction, cell, k)]) != [(cell[0] + DR[k], cell[1] + DC[k])]:
            o.bad('in-direction', 'cell in direction %d' % k)
        o.count('directions')
    if call('direction_to_delta', flow.direction_to_delta, 8) is not None:
        o.bad('delta:none', 'no direction leads somewhere')
    fd, nxt, off = flows(rng, o)
    h, w = fd.shape
    o.case((nxt != np.arange(h * w)).any(), fd)
    t = table(nxt)
    cells = range(h * w) if h * w < 120 else rng.choice(h * w, 120, replace=False).tolist()
    for i in cells:
        r, c = divmod(int(i), w)
        cell = cell_as(rng, o, r, c)
        want = [divmod(j, w) for j in t.get(i, [])]
        got = ints(call('upstream_cells', lambda a, b: list(flow.upstream_cells(a, b)), fd, cell))
        if sorted(got) != sorted(want):
            o.bad('upstream', 'cell %r: upstream %r, not %r' % ((r, c), got, want))
            return
        o.count('upstream')
        for k in range(8):
            a = (r + DR[k], c + DC[k])
            if bool(call('is_upstream_cell', flow.is_upstream_cell, fd, cell, k)) != (a in want):
                o.bad('is-upstream', 'cell %r, direction %d' % ((r, c), k))
                return
            o.count('is_upstream')
        got = ints(call('trace_downstream', lambda a, b: list(flow.trace_downstream(a, b)), fd, cell))
        want = path_of(nxt, int(i))
        if got != [divmod(j, w) for j in want]:
            o.bad('trace', 'cell %r: traced %r' % ((r, c), got[:20]))
            return
        o.count('traces')
        last = divmod(want[-1], w)
        o.count('left_raster' if off[last] else 'ended_inside')
        o.event()
    # edges outward
    a = fd.copy()
    call('set_edges_flow_outward', flow.set_edges_flow_outward, a)
    edge = np.ones((h, w), bool)
    edge[1:-1, 1:-1] = False
    if not np.array_equal(a[~edge], fd[~edge]):
        o.bad('edges:inside', 'set_edges_flow_outward changes the inside')
    out = ref.next_index(a)[1]
    if not out[edge].all() or (a[edge] > 7).any():
        o.bad('edges:inward', 'edge cell does not flow off the raster')
    o.count('outward')


def long(case, rng, o):
    """One path through every cell"""
    from malstroem.algorithms import flow, net as m
    h, w = [int(x) for x in rng.integers(200, 420, 2)]
    fd = gen.river(h, w, bool(rng.integers(2)))
    nxt, off = ref.next_index(fd)
    want = path_of(nxt, (h - 1) * w - 2)
    n = len(want)
    got = ints(call('trace_downstream', lambda: list(flow.trace_downstream(fd, (h - 2, w - 2)))))
    if got != [divmod(j, w) for j in want]:
        o.bad('trace:long', 'traced %d cells of a path of %d' % (len(got), n))
    o.count('long_path', n > 30000)
    lab = np.zeros((h, w), 'i4')
    lab[divmod(want[-1], w)] = 7
    for g in (False, True):
        k, path = call('next_downstream_label', m.next_downstream_label, fd, lab, (h - 2, w - 2), 0, g)
        if k != 7 or g and ints(path) != [divmod(j, w) for j in want]:
            o.bad('next:long', 'label %r below a path of %d cells' % (k, n))
    o.case(True, 'long', h, w)


def accum(case, rng, o):
    from malstroem.algorithms import flow
    fd, nxt, off = flows(rng, o, 40)
    h, w = fd.shape
    want, _ = ref.accum(fd)
    got = np.asarray(call('accumulated_flow', flow.accumulated_flow, fd))
    if not np.array_equal(got, want):
        o.bad('accum', 'accumulated flow differs at %r' % (np.argwhere(got != want)[0].tolist(),))
    o.count('accumulated')
    has = np.zeros(h * w, bool)
    has[nxt[nxt != np.arange(h * w)]] = True
    leaves = np.flatnonzero(~has)
    acc = np.zeros(fd.shape, got.dtype)
    for i in rng.permutation(leaves):
        call('trace_accumulated_flow', flow.trace_accumulated_flow, fd, acc, divmod(int(i), w))
    if not np.array_equal(acc, want):
        o.bad('accum:leaves', 'accumulated leaf by leaf differs at %r' % (np.argwhere(acc != want)[0].tolist(),))
    o.count('leaf_by_leaf')
    o.case(len(leaves) < h * w, fd)


def regions(rng, fd, free):
    """Random labelled cells: blobs, dots or stripes"""
    h, w = fd.shape
    k = int(rng.integers(3))
    lab = np.full(fd.shape, free, 'i8')
    n = int(rng.integers(1, 12))
    ids = [x for x in range(0, n + 2) if x != free][:n]
    for x in ids:
        r, c = int(rng.integers(h)), int(rng.integers(w))
        if k == 0:
            lab[r, c] = x
        elif k == 1:
            lab[r:r + int(rng.integers(1, 5)), c:c + int(rng.integers(1, 5))] = x
        else:
            lab[r, :] = x
    return lab


def sheds(case, rng, o):
    from malstroem.algorithms import flow
    fd, nxt, off = flows(rng, o, 30)
    h, w = fd.shape
    free = int(rng.choice([0, 0, -1, 7, 300]))
    o.count('other_unassigned', free != 0)
    lab = regions(rng, fd, free).astype('i4')
    want = ref.watersheds(fd, lab, free)
    end = ref.downstream(nxt, np.zeros(h * w, bool)).reshape(h, w)
    r, c = end // w, end % w
    drains = (r == 0) | (c == 0) | (r == h - 1) | (c == w - 1)
    # in another type, large ones included
    kind, base = [('i4', 0), ('i4', 0), ('i2', 0), ('i8', 0), ('i8', 1 << 40), ('i4', (1 << 24) + 1), ('u4', 3000000001), ('u8', 1 << 33)][int(rng.integers(8))]
    o.count('large_labels', base > 0); o.count('labels_' + kind)
    up = lambda a: (a.astype('i8') + base).astype(kind)
    down = lambda a: (a.astype('i8') - base).astype('i8')
    got = up(lab)
    call('watersheds_from_labels', flow.watersheds_from_labels, fd, got, free + base)
    got = down(got)
    if not np.array_equal(got[drains], want[drains]):
        o.bad('sheds', 'watershed differs at %r' % (np.argwhere(drains & (got != want))[0].tolist(),))
    m = lab != free
    if not np.array_equal(got[m], lab[m]):
        o.bad('sheds:labels', 'labelled cells were changed')
    if not ((got == lab) | (got == want)).all():
        o.bad('sheds:wrong', 'cell without outlet gets a label that is not downstream')
    o.count('watersheds')
    o.count('sinks_kept', (~drains).any())
    # from one cell: those upstream of it and no others
    i = int(rng.integers(h * w)) if rng.random() < .5 else int(np.argmax(ref.accum(fd)[0]))
    above = np.zeros(h * w, bool)
    todo, t = [i], table(nxt)
    while todo:
        j = todo.pop()
        above[j] = True
        todo += t.get(j, [])
    above = above.reshape(h, w)
    # the flow stops mattering at the chosen cell
    cut = nxt.copy()
    cut[i] = i
    at = ref.downstream(cut, (lab != free).ravel())
    local = lab.ravel()[at].reshape(h, w)
    got = up(lab)
    call('assign_watersheds_upstream', flow.assign_watersheds_upstream, fd, got, divmod(i, w), free + base)
    got = down(got)
    if not np.array_equal(got[above], local[above]):
        o.bad('local', 'watersheds upstream of %r differ' % (divmod(i, w),))
    if not np.array_equal(got[~above], lab[~above]):
        o.bad('local:outside', 'cells not upstream of %r change' % (divmod(i, w),))
    o.count('from_one_cell')
    o.case((nxt != np.arange(h * w)).any(), fd, lab)


def net(case, rng, o):
    from malstroem.algorithms import net as N
    fd, nxt, off = flows(rng, o, 30)
    h, w = fd.shape
    bg = None if rng.random() < .4 else 0
    lab = regions(rng, fd, 0).astype(str(rng.choice(['i4', 'i4', 'i8', 'u1', 'i2'])))
    if rng.random() < .3:
        # many single cells: rivers join
        lab[:] = 0
        pos = rng.choice(h * w, max(1, h * w // int(rng.integers(6, 30))), replace=False)
        lab = lab.astype('i4')
        lab.ravel()[pos] = np.arange(1, len(pos) + 1)
    big = rng.random() < .2
    if big:
        # more than fit a float32
        lab = lab.astype('i4')
        lab[lab > 0] += (1 << 24) + int(rng.integers(2))
        o.count('large_labels')
    o.count('background' if bg == 0 else 'no_background')
    flat = lab.ravel().astype('i8')
    here = sorted(set(flat.tolist()) - ({0} if bg == 0 else set()))
    o.case((nxt != np.arange(h * w)).any() and len(here) > 0, fd, lab)

    def follow(i):
        p = path_of(nxt, i)
        for n, j in enumerate(p):
            if flat[j] != flat[i] and (bg is None or flat[j] != bg):
                return int(flat[j]), p[:n + 1]
        return None, p
    for i in rng.choice(h * w, min(60, h * w), replace=False):
        lbl, p = follow(int(i))
        cell = cell_as(rng, o, *divmod(int(i), w))
        g, geom = call('next_downstream_label', N.next_downstream_label, fd, lab, cell, bg, True)
        if g != lbl or ints(geom) != [divmod(j, w) for j in p]:
            o.bad('next', 'from %r: label %r, not %r' % (divmod(int(i), w), g, lbl))
            return
        g2 = call('next_downstream_label', N.next_downstream_label, fd, lab, cell, bg)
        if g2[0] != lbl:
            o.bad('next:plain', 'from %r: label %r, not %r without geometry' % (divmod(int(i), w), g2[0], lbl))
        o.count('next_label' if lbl is not None else 'no_next_label')
        own = [flat[j] == flat[i] for j in p]
        o.count('path_over_own_label', any(b and not a for a, b in zip(own, own[1:])))
        o.event()
    if not here:
        return
    pp = {}
    for k in here:
        m = np.flatnonzero(flat == k)
        pp[k] = int(m[int(rng.integers(len(m)))])
    as_cells = here == list(range(len(here))) and rng.random() < .7
    if as_cells:
        given = [divmod(pp[k], w) for k in here]
    else:
        given = [dict(type='Feature', geometry=None, properties=dict(bspot_id=k, cell_row=pp[k] // w, cell_col=pp[k] % w)) for k in (here if rng.random() < .5 else rng.permutation(here).tolist())]
    o.count('as_cells' if as_cells else 'as_features')
    want = {k: follow(pp[k]) for k in here}
    plain = call('pourpoint_network', N.pourpoint_network, fd, lab, given, bg)
    got = {n['id']: n for n in plain}
    if len(plain) != len(here) or set(got) != set(here):
        o.bad('network:nodes', 'nodes %r, not %r' % (sorted(got), here))
        return
    for k in here:
        if got[k]['downstream_id'] != want[k][0] or ints([got[k]['pix']]) != [divmod(pp[k], w)]:
            o.bad('network', 'node %d flows to %r, not %r' % (k, got[k]['downstream_id'], want[k][0]))
            return
    o.count('network')
    geo = call('geometric_pourpoint_network', N.geometric_pourpoint_network, fd, lab, given, bg)
    by = {n['id']: n for n in geo}
    if len(by) != len(geo):
        o.bad('geo:ids', 'two nodes have the same id')
        return
    js = {k for k in by if by[k]['nodetype'] == 'junction'}
    if set(by) - js != set(here) or any(k <= max(here) for k in js):
        o.bad('geo:nodes', 'nodes %r and junctions %r' % (sorted(set(by) - js)[:20], sorted(js)[:20]))
        return
    ins = {}
    for k, n in by.items():
        ins.setdefault(n['downstream_id'], []).append(k)
    for k in here:
        # walk over junctions: the parts add up to the path of the pour point
        path, n, seen = [], by[k], 0
        while True:
            g = ints(n['geometry'])
            if ints([n['pix']]) != g[:1]:
                o.bad('geo:start', 'node %d does not start at its cell' % n['id'])
                return
            if path and path[-1] != g[0]:
                o.bad('geo:gap', 'the parts below %d do not meet' % k)
                return
            path += g[1:] if path else g
            nx = n['downstream_id']
            if nx not in js:
                break
            n = by[nx]
            seen += 1
            if seen > len(by):
                o.bad('geo:cycle', 'junctions below %d form a cycle' % k)
                return
        o.count('junction_below_junction', seen > 1)
        if nx != want[k][0] or path != [divmod(j, w) for j in want[k][1]]:
            o.bad('geo:path', 'node %d ends in %r by %r, not in %r' % (k, nx, path[:12], want[k][0]))
            return
    for k in js:
        a = ins.get(k, [])
        o.count('junctions')
        o.count('junction_of_many', len(a) > 2)
        if len(a) < 2:
            o.bad('geo:junction', 'junction %d joins %d' % (k, len(a)))
            return
        # they meet here, not further up
        before = [ints(by[x]['geometry'])[-2:-1] for x in a]
        if len(set(map(tuple, before))) < 2:
            o.bad('geo:late', 'those joined by junction %d meet further up' % k)
            return
    # nodes with the same downstream node share no more than the last cells of their parts
    for dn, a in ins.items():
        tails = {}
        for x in a:
            g = ints(by[x]['geometry'])
            for cell in g[1:-1]:
                if cell in tails:
                    o.bad('geo:shared', 'nodes %d and %d share %r without a junction' % (tails[cell], x, cell))
                    return
                tails[cell] = x
    o.event(len(by))


def terrain(case, rng, o):
    from malstroem.algorithms import flow
    p = dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=[int(x) for x in rng.integers(1, 26, 2)], scale=str(rng.choice(['unit', 'low', 'tiny'])))
    z = gen.dem(p).astype('f8')
    a = np.asarray(call('terrain_flowdirection', flow.terrain_flowdirection, z, edges_flow_outward=True))
    b = np.asarray(call('terrain_flowdirection', flow.terrain_flowdirection, z, edges_flow_outward=False))
    c = np.asarray(call('terrain_flowdirection', flow.terrain_flowdirection, z))
    edge = np.ones(z.shape, bool)
    edge[1:-1, 1:-1] = False
    if not (b[edge] == 8).all():
        o.bad('edges:none', 'edge cells have a direction although not asked to flow outward')
    if not np.array_equal(a[~edge], b[~edge]):
        o.bad('edges:interior', 'directions inside depend on the edges')
    if not np.array_equal(a, c):
        o.bad('edges:default', 'edges do not flow outward unless asked for')
    out = ref.next_index(a)[1]
    if not out[edge].all() or (a[edge] > 7).any():
        o.bad('edges:outward', 'edge cell does not flow off the raster')
    # downhill by the steepest way, never along or up
    h, w = z.shape
    if min(h, w) > 2:
        q = z[1:-1, 1:-1]
        dz = np.stack([(q - z[1 + DR[k]:h - 1 + DR[k], 1 + DC[k]:w - 1 + DC[k]]) / (2 ** .5 if k % 2 else 1) for k in range(8)])
        best = dz.max(0)
        i = b[1:-1, 1:-1].astype('i8')
        if not np.array_equal(i == 8, best <= 0):
            o.bad('terrain:flat', 'cells without a lower neighbour are not those without direction')
        elif (i < 8).any():
            m = i < 8
            took = np.take_along_axis(dz, np.minimum(i, 7)[None], 0)[0]
            if (took[m] < best[m] * (1 - 1e-12)).any():
                o.bad('terrain:steepest', 'not the steepest way down')
        o.count('ended_inside', (i == 8).any())
    o.count('terrain')
    o.case(min(h, w) > 2, z)
