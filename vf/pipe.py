"""Runs of the whole pipeline, by complete or by the chain of subcommands, and their artefacts"""
import os
import numpy as np
from . import cli, gen, orc, ref

GTS = [cli.GT, (500000.0, .5, 0.0, 6100000.0, 0.0, -.5), (100.0, 2.0, 0.0, 900.0, 0.0, -2.0), (0.0, 1.6, 0.0, 0.0, 0.0, -1.6),
       (1000.0, .4, 0.0, 5000.0, 0.0, .4), (-7000.25, 10.0, 0.0, -300.5, 0.0, -10.0), (600000.0, 3.125, 0.0, 6200000.0, 0.0, -3.125),
       (600000.0, 3.0, 4.0, 6200000.0, 4.0, -3.0), (1000.0, 0.0, 2.0, 500.0, 2.0, 0.0),
       (444720.0, .37, 0.0, 6195000.0, 0.0, -.37), (720000.5, .0625, 0.0, 6175000.25, 0.0, -.0625)]
FILTERS = [None, None, None, 'area > 4', 'maxdepth > 1.5', 'volume > 3', 'area > 2 and maxdepth > .5', 'maxdepth > 1 or volume >= 10',
           '(area>=3 and volume<50) or maxdepth>4', 'area > 100000', 'volume > 1.5 and (area < 30 or maxdepth > 2)', 'maxdepth > 0.05',
           'area >= 4', 'area <= 2 or area >= 8', 'maxdepth >= 1 and area < 16']
KEEP = {
    None: None, 'area > 4': lambda a, m, v: a > 4, 'maxdepth > 1.5': lambda a, m, v: m > 1.5, 'volume > 3': lambda a, m, v: v > 3,
    'area > 2 and maxdepth > .5': lambda a, m, v: a > 2 and m > .5, 'maxdepth > 1 or volume >= 10': lambda a, m, v: m > 1 or v >= 10,
    '(area>=3 and volume<50) or maxdepth>4': lambda a, m, v: (a >= 3 and v < 50) or m > 4, 'area > 100000': lambda a, m, v: a > 100000,
    'area >= 4': lambda a, m, v: a >= 4, 'area <= 2 or area >= 8': lambda a, m, v: a <= 2 or a >= 8, 'maxdepth >= 1 and area < 16': lambda a, m, v: m >= 1 and a < 16,
    'volume > 1.5 and (area < 30 or maxdepth > 2)': lambda a, m, v: v > 1.5 and (a < 30 or m > 2), 'maxdepth > 0.05': lambda a, m, v: m > 0.05,
}
RES = [.1, .1, .25, .01, .05, .3, 1.0, 2.5, .004, .0625, .333]


def params(rng, i, big=False, kinds=None, scales=None, **over):
    """One pipeline case"""
    sh = gen.shapes(rng, 34)
    if min(sh) < 5 and rng.random() < .65:
        sh = [int(rng.integers(8, 34)), int(rng.integers(8, 34))]
    if big or rng.random() < .15:
        sh = [int(rng.integers(40, 70)), int(rng.integers(40, 70))]
    p = dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(kinds or gen.NAMES)), shape=sh, scale=str(rng.choice(scales or gen.SCALES)),
             gt=int(rng.integers(len(GTS))), filt=int(rng.integers(len(FILTERS))), mm=float(rng.choice([0, 1, 5, 20, 100, 1000, 12.34, .037, 7.125, 333.333])),
             res=float(rng.choice(RES)), accum=bool(rng.random() < .5), vector=bool(rng.random() < .3),
             mode=['complete', 'chain'][i % 2], native=bool(rng.random() < .85 or sh[0] * sh[1] > 900),
             nodata=str(rng.choice(['', '', '', 'holes', 'edge'])), dtype='f4')
    p.update(over)
    if p['scale'] in ('huge', 'big', 'low', 'tiny') and p['res'] < .05:
        p['res'] = .1
    if p['scale'] == 'huge':
        p['res'] = 10000.0
    return p


def wide(rng, i, **over):
    """Pipeline case over more rows or columns than 16 bit integers count"""
    sh = gen.wide(rng, 5, 33000, 36000)
    q = dict(params(rng, i), shape=sh if sh[0] > sh[1] or i % 4 else sh[::-1], kind=str(rng.choice(['pits', 'smoothq', 'plateau', 'lastrow', 'quant'])), scale='unit', native=True, nodata='',
             filt=int(rng.choice([3, 5, 6, 7])), res=.25, mm=float(rng.choice([5, 20, 100])))
    q.update(over)
    return q


def make_dem(p):
    """(array as stored, terrain seen by the algorithms, nodata)"""
    z = gen.dem(p)
    nd = None
    if p.get('nodata'):
        rng = np.random.default_rng([p['seed'], 77])
        m = rng.random(z.shape) < .08
        if p['nodata'] == 'edge':
            m = np.zeros(z.shape, bool)
            m[:, :max(1, z.shape[1] // 5)] = True
        nd = -9999.0
        stored = np.where(m, np.float32(nd), z)
        z = np.where(m, np.float32(-999), z)
        return stored, z, nd
    return z, z, nd


class Art:
    """Artefacts of one run under common names"""
    def __init__(self, p, z, gt, raw):
        self.p, self.z, self.gt, self.raw = p, z, gt, raw

    def a(self, k):
        return self.raw[k]['a']

    def l(self, k):
        return self.raw['L_' + k]['feats']

    @property
    def keep(self):
        return KEEP[FILTERS[self.p['filt']]]


def filt(p):
    return p.get('filter') or FILTERS[p['filt']]


def run(p, d, **kw):
    from malstroem.algorithms import speedups
    stored, z, nd = make_dem(p)
    gt = GTS[p['gt']]
    dem = os.path.join(d, 'dem.tif')
    cli.write_tif(dem, stored, gt=gt, nodata=nd)
    (speedups.enable if p.get('native', True) else speedups.disable)()
    try:
        k = dict(mm=p['mm'], res=p['res'], filt=filt(p), accum=p['accum'], vector=p['vector'])
        if p['mode'] == 'complete':
            raw = cli.complete(dem, os.path.join(d, 'out'), **k)
        else:
            cd = os.path.join(d, 'chain')
            os.makedirs(cd)
            raw = cli.load_chain(cli.chain(dem, cd, **k, **kw))
    finally:
        speedups.enable()
    return Art(p, z, gt, raw)


def sample(p, art):
    return dict(case=p, bluespots=int(art.a('bluespots').max()), raised=int((art.a('filled').astype('f8') > art.z).sum()),
                nodes=len(art.l('nodes')))


def judge_nf(art):
    """Slope-preserving fill of the terrain seen, with the increments the library proposes"""
    from malstroem.algorithms import fill
    s, d = fill.minimum_safe_short_and_diag(art.z)
    return ref.flood(art.z, float(s), float(d))
