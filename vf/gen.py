"""Terrain and raster generators. Everything is a function of the case (a small JSON object)"""
import numpy as np


def rng_of(case):
    return np.random.default_rng([int(x) for x in np.atleast_1d(case['seed'])])


def smooth(rng, h, w, n=3):
    a = rng.normal(size=(h, w))
    for _ in range(n):
        p = np.pad(a, 1, mode='edge')
        a = (p[:-2, 1:-1] + p[2:, 1:-1] + p[1:-1, :-2] + p[1:-1, 2:] + p[1:-1, 1:-1] * 2) / 6
    s = a.std()
    return a / s if s > 0 else a


def k_quant(rng, h, w):
    return rng.integers(0, int(rng.choice([2, 3, 5, 10, 40])), (h, w)).astype('f8')


def k_white(rng, h, w):
    return rng.random((h, w)) * 10


def k_smooth(rng, h, w):
    return smooth(rng, h, w, int(rng.integers(1, 8))) * 5


def k_smoothq(rng, h, w):
    return np.round(smooth(rng, h, w, int(rng.integers(1, 8))) * 6)


def k_valley(rng, h, w):
    r, c = np.mgrid[0:h, 0:w]
    a = np.abs(c - w // 2) * rng.uniform(.1, 1) + r * rng.uniform(0, .3)
    return a + rng.random((h, w)) * rng.uniform(0, .5)


def k_pits(rng, h, w):
    r, c = np.mgrid[0:h, 0:w]
    a = np.zeros((h, w))
    for _ in range(int(rng.integers(1, max(2, h * w // 60)))):
        y, x, s = rng.uniform(0, h), rng.uniform(0, w), rng.uniform(1, max(1.5, min(h, w) / 3))
        a -= rng.uniform(.5, 5) * np.exp(-((r - y) ** 2 + (c - x) ** 2) / s ** 2)
    return a


def k_pitgrid(rng, h, w):
    a = np.full((h, w), 5.0)
    a[1:-1:2, 1:-1:2] = rng.integers(0, 4, a[1:-1:2, 1:-1:2].shape)
    return a + np.arange(h)[:, None] * .125


def k_plateau(rng, h, w):
    a = np.floor(smooth(rng, h, w, 5) * 1.5)
    return a * rng.choice([1.0, 2.5])


def k_const(rng, h, w):
    return np.full((h, w), float(rng.integers(-5, 50)))


def k_bowl(rng, h, w):
    r, c = np.mgrid[0:h, 0:w]
    return ((r - h / 2) ** 2 + (c - w / 2) ** 2) * .05 + np.round(rng.random((h, w)), 2)


def k_nested(rng, h, w):
    a = k_bowl(rng, h, w)
    return a + k_pits(rng, h, w)


def k_spiral(rng, h, w):
    """A corridor winding inwards between high walls, its floor falling or rising along the way"""
    a = np.full((h, w), 100.0)
    r, c, d = int(rng.integers(1, 3)), 0, 0
    n = 0
    dirs = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    seen = np.zeros((h, w), bool)
    rise = rng.choice([-.125, .125, 0.0])
    start = 40.0
    while n < h * w:
        a[r, c] = start + rise * n
        seen[r, c] = True
        n += 1
        for _ in range(4):
            y, x = r + dirs[d][0], c + dirs[d][1]
            y2, x2 = r + 2 * dirs[d][0], c + 2 * dirs[d][1]
            if 1 <= y < h - 1 and 1 <= x < w - 1 and not seen[y, x] and not (0 <= y2 < h and 0 <= x2 < w and seen[y2, x2]):
                break
            d = (d + 1) % 4
        else:
            break
        if not (1 <= y < h - 1 and 1 <= x < w - 1) or seen[y, x]:
            break
        r, c = y, x
    return np.maximum(a, 0.0) if rng.random() < .5 else a


def k_snake(rng, h, w):
    """Boustrophedon corridor: the escape path runs against the sweep order again and again"""
    a = np.full((h, w), 50.0)
    rows = list(range(1, h - 1, 2))
    lev, step = 10.0, float(rng.choice([0.0, .25, -.0625]))
    flip = rng.random() < .5
    for i, r in enumerate(rows):
        cols = list(range(1, w - 1))
        if i % 2 == int(flip):
            cols = cols[::-1]
        for c in cols:
            a[r, c] = lev
            lev += step
        if i + 1 < len(rows):
            a[r + 1, cols[-1]] = lev
    if h > 2 and w > 2:
        if rng.random() < .5:
            a[rows[-1], 0 if (len(rows) % 2 == 0) != flip else w - 1] = 5.0
        else:
            a[0, w - 2 if flip else 1] = 5.0
    if rng.random() < .5:
        a = a.T[:h, :w] if a.T.shape == (h, w) else a
    return a


def k_lastrow(rng, h, w):
    """Corridors along the last interior row and column"""
    a = np.full((h, w), 20.0) + rng.random((h, w))
    if h > 2:
        a[-2, 1:-1] = 3 + rng.random(max(w - 2, 0)) * rng.choice([0, 1])
    if w > 2 and rng.random() < .7:
        a[1:-1, -2] = 3 + rng.random(max(h - 2, 0)) * rng.choice([0, 1])
    if h > 2 and w > 2:
        for _ in range(3):
            a[int(rng.integers(1, h - 1)), int(rng.integers(1, w - 1))] = rng.integers(0, 5)
        if rng.random() < .5:
            a[-2, 0 if rng.random() < .5 else -1] = 1.0
    return a


def k_comb(rng, h, w):
    """Many side valleys joining one trunk, each with a small pit"""
    r, c = np.mgrid[0:h, 0:w]
    t = h // 2
    a = 1.0 * np.abs(r - t) + (w - c) * .01 + 10
    a[(c % 2 == 1) & (r != t)] += 5
    for x in range(2, w - 1, 2):
        for y in (2, h - 3):
            if 0 < y < h - 1 and rng.random() < .8:
                a[y, x] -= 3
    return a


def k_walls(rng, h, w):
    a = k_smooth(rng, h, w)
    for _ in range(int(rng.integers(1, 6))):
        if rng.random() < .5:
            a[int(rng.integers(0, h)), :] = 30
        else:
            a[:, int(rng.integers(0, w))] = 30
    g = rng.integers(0, [h, w], (5, 2))
    for y, x in g:
        a[y, x] = rng.integers(-3, 10)
    return a


def k_dendritic(rng, h, w):
    """Tilted rough terrain with long rivers"""
    r, c = np.mgrid[0:h, 0:w]
    return smooth(rng, h, w, 2) * rng.uniform(.2, 2) + (r + c * rng.uniform(-1, 1)) * rng.uniform(.05, .5)


def k_meander(rng, h, w):
    """One canal folded up and down in strips of four rows: several sweeps of the raster for every two columns of a strip"""
    a = rng.integers(60, 90, (h, w)).astype('f8')
    tops = list(range(1, h - 3, 4))
    for i, t in enumerate(tops):
        cols = list(range(1, w - 1))
        if i % 2:
            cols = cols[::-1]
        n = len(cols) if len(cols) % 2 else len(cols) - 1
        for j, c in enumerate(cols[:n]):
            if j % 2 == 0:
                a[t:t + 3, c] = 3
            else:
                a[t + 2 * (j // 2 % 2), c] = 3
        last = cols[n - 1]
        a[t + 2, last] = 3
        if i + 1 < len(tops):
            a[t + 3, last] = 3
        else:
            a[t + 3:, last] = 3
        if i + 1 < len(tops) and n < len(cols):
            a[t + 4, cols[n]] = 3
    c = a == 3
    a[c] = rng.integers(0, 8, c.sum()) * rng.choice([0.0, .5])
    if rng.random() < .5:
        a = a[::-1]
    if rng.random() < .5:
        a = a[:, ::-1]
    return a.copy()


def k_nearties(rng, h, w):
    # a plane down which a straight and a diagonal step are about as steep, and other such planes beside it
    r, c = np.mgrid[0:h, 0:w].astype('f8')
    a = rng.uniform(.2, 2)
    b = a * (np.sqrt(2) - 1) * (1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-5.5, -3))
    if rng.random() < .5:
        r = np.abs(r - h // 2)
    z = a * c + b * r if rng.random() < .5 else b * c + a * r
    return np.rot90(z, 2) if rng.random() < .5 else z


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}
NAMES = sorted(set(KINDS) - {'meander', 'nearties'})


def terrain(kind, rng, h, w):
    """float64 array"""
    return np.array(KINDS[kind](rng, max(h, 5), max(w, 5)), dtype='f8')[:h, :w].copy()


SCALES = ['unit', 'unit', 'unit', 'cm', 'neg', 'straddle', 'big', 'tiny', 'huge', 'int', 'low']


def scale(a, how, rng):
    if how == 'unit':
        return a
    if how == 'cm':
        return np.round(a * .37, 2)
    if how == 'neg':
        return a - a.max() - rng.integers(0, 20)
    if how == 'straddle':
        return a - np.round(a.mean())
    if how == 'big':
        return a + 5000.0
    if how == 'tiny':
        return a * 1e-6
    if how == 'huge':
        return a * 1e6 + 1e7
    if how == 'int':
        return np.round(a * 3)
    if how == 'low':
        return a - 5000.0
    raise KeyError(how)


def dem(case, dtype='f4'):
    """DEM of a case with keys seed, kind, shape, scale. Exactly representable in float32"""
    rng = rng_of(case)
    h, w = case['shape']
    a = terrain(case['kind'], rng, h, w)
    a = scale(a, case.get('scale', 'unit'), rng)
    return a.astype('f4').astype(dtype)


def shapes(rng, maxn=40):
    x = rng.random()
    if x < .2:
        return [int(rng.integers(1, 5)), int(rng.integers(1, maxn))]
    if x < .4:
        return [int(rng.integers(1, maxn)), int(rng.integers(1, 5))]
    if x < .5:
        return [int(rng.integers(1, 6)), int(rng.integers(1, 6))]
    return [int(rng.integers(4, maxn)), int(rng.integers(4, maxn))]


WIDE_KINDS = ['white', 'quant', 'smooth', 'pits', 'valley', 'plateau', 'smoothq', 'comb', 'pitgrid', 'lastrow']


def wide(rng, rows=4, lo=33000, hi=70000):
    """Few rows or few columns, the others beyond the range of 16 bit integers"""
    sh = [int(rng.integers(min(3, rows), rows + 1)), int(rng.integers(lo, hi))]
    return sh if rng.random() < .5 else sh[::-1]


def layout(a, how):
    """The same values in another memory layout"""
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'stride':
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == 'neg':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if how == 'T':
        return np.ascontiguousarray(a.T).T
    if how == 'sub':
        b = np.zeros((a.shape[0] + 4, a.shape[1] + 6), dtype=a.dtype)
        b[2:-2, 3:-3] = a
        return b[2:-2, 3:-3]
    return np.ascontiguousarray(a)


LAYOUTS = ['C', 'F', 'stride', 'neg', 'T', 'sub']


def random_flowdir(rng, h, w, nodir=0.0, kind=None):
    """Acyclic flow directions, not made by malstroem: each cell points to a neighbour of lower random rank"""
    kind = kind or rng.choice(['rank', 'tilt', 'tree', 'snake', 'funnel', 'row'])
    DR = np.array([-1, -1, 0, 1, 1, 1, 0, -1]); DC = np.array([0, 1, 1, 1, 0, -1, -1, -1])
    fd = np.full((h, w), 8, dtype='u1')
    if kind == 'snake':
        for r in range(h):
            fd[r, :] = 2 if r % 2 == 0 else 6
            if r % 2 == 0:
                fd[r, w - 1] = 4
            else:
                fd[r, 0] = 4
    elif kind == 'funnel':
        fd[:, :] = 2
        fd[:, w - 1] = 4
    elif kind == 'row':
        fd[:, :] = int(rng.integers(0, 8))
    else:
        if kind == 'rank':
            rank = rng.permutation(h * w).reshape(h, w).astype('f8')
        elif kind == 'tilt':
            r, c = np.mgrid[0:h, 0:w]
            rank = r * rng.normal() + c * rng.normal() + rng.random((h, w)) * rng.choice([.01, 1, 3])
        else:
            rank = smooth(rng, h, w, 4) + rng.random((h, w)) * 1e-3
        # neighbours outside the raster rank lowest
        p = np.pad(rank, 1, constant_values=-1e18)
        best = np.full((h, w), -1)
        n = np.zeros((h, w))
        for k in rng.permutation(8):
            q = p[1 + DR[k]:1 + DR[k] + h, 1 + DC[k]:1 + DC[k] + w]
            ok = q < rank
            n += ok
            take = ok & (rng.random((h, w)) < 1 / np.maximum(n, 1))
            best[take] = k
        fd[best >= 0] = best[best >= 0]
    if nodir:
        fd[rng.random((h, w)) < nodir] = 8
    return fd


def draining_flowdir(rng, h, w, bias=None):
    """Acyclic flow directions in which every path leaves the raster: random growth inwards from the edge"""
    import heapq
    DR = [-1, -1, 0, 1, 1, 1, 0, -1]; DC = [0, 1, 1, 1, 0, -1, -1, -1]
    fd = np.full((h, w), 8, dtype='u1')
    bias = int(rng.integers(0, 4)) if bias is None else bias
    heap = []
    n = 0
    cells = [(r, c) for r in range(h) for c in range(w) if r in (0, h - 1) or c in (0, w - 1)]
    # a few outlets only, or the whole edge
    if bias in (1, 3) and len(cells) > 3:
        k = int(rng.integers(1, 4))
        cells = [cells[i] for i in rng.choice(len(cells), k, replace=False)]
    for r, c in cells:
        offs = [k for k in range(8) if not (0 <= r + DR[k] < h and 0 <= c + DC[k] < w)]
        fd[r, c] = offs[int(rng.integers(len(offs)))]
        heapq.heappush(heap, (rng.random(), n, r, c)); n += 1
    while heap:
        v, _, r, c = heapq.heappop(heap)
        for k in rng.permutation(8):
            a, b = r - DR[k], c - DC[k]
            if 0 <= a < h and 0 <= b < w and fd[a, b] == 8:
                fd[a, b] = k
                pr = rng.random() if bias < 2 else v - 1 if bias == 2 else v + rng.random() * .2
                heapq.heappush(heap, (pr, n, a, b)); n += 1
    return fd


def river(h, w, down=True):
    """One flow path through every inner cell, from the last one up (or left) to the raster edge"""
    if not down:
        return np.ascontiguousarray(np.array([6, 5, 4, 3, 2, 1, 0, 7, 8], 'u1')[river(w, h).T])
    fd = np.zeros((h, w), 'u1')
    for k in range(h - 2):
        # k-th row from below
        left = k % 2 == 0
        fd[h - 2 - k, :] = 6 if left else 2
        fd[h - 2 - k, 1 if left else w - 2] = 0
    fd[:, 0], fd[:, -1], fd[0], fd[-1] = 6, 2, 0, 4
    return fd


def fishbone(n, k):
    """A long trunk which one cell on either side joins at every step; flows left, right, up or down"""
    fd = np.full((3, n), 6 if k % 2 == 0 else 2, 'u1')
    fd[0], fd[2] = 4, 0
    return fd if k < 2 else np.ascontiguousarray(np.array([6, 5, 4, 3, 2, 1, 0, 7, 8], 'u1')[fd].T)


def dots(h, w):
    """IDs of one-cell regions"""
    lab = np.zeros((h, w), 'i8')
    r, c = np.arange(1, h - 1, 2), np.arange(1, w - 1, 2)
    lab[r[:, None], c[None]] = np.arange(1, len(r) * len(c) + 1).reshape(len(r), len(c))
    return lab
