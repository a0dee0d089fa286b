"""C06: bluespot IDs"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('depth rasters (synthetic regions with diagonal contacts, rings, thousands of one-cell bluespots; depths of generated terrain) x cell sizes x filters through '
        'the bspots command, BluespotTool and complete/chain; non-trivial: at least two bluespots; distinct by depths, filter and route')
MUST_OBSERVE = ['bluespots_kept', 'bluespots_removed', 'command', 'tool', 'pipeline', 'over_255', 'over_65535', 'nofilter_tool', 'wide', 'near']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 106])
    n = 700 if tier == 'quick' else 14000
    out = [dict(t='command', seed=5, shape=[520, 524], g='dots', filt=0, gt=0), dict(t='command', seed=6, shape=[540, 524], g='dots', filt=4, gt=0)]
    for i in range(n):
        t = ['command', 'tool', 'tool', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4), t=t))
            continue
        sh = gen.shapes(rng, 60)
        g = str(rng.choice(['rand', 'blobs', 'checker', 'rings', 'dots', 'full', 'lines', 'terrain']))
        if g == 'dots' and i % 3 == 0:
            sh = [int(rng.integers(40, 80)), int(rng.integers(40, 80))]
        out.append(dict(t=t, seed=int(rng.integers(1 << 31)), shape=sh, g=g, filt=int(rng.integers(len(pipe.FILTERS))), gt=int(rng.integers(len(pipe.GTS))), near=bool(rng.random() < .4)))
    for k in range(4 if tier == 'quick' else 60):
        out.insert(0, dict(t=['tool', 'command'][k % 2], seed=int(rng.integers(1 << 31)), shape=gen.wide(rng), g=str(rng.choice(['blobs', 'dots', 'rand', 'checker', 'lines'])), filt=int(rng.choice([0, 5, 6, 7])), gt=int(rng.integers(len(pipe.GTS)))))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def depth_raster(case):
    rng = gen.rng_of(case)
    h, w = case['shape']
    g = case['g']
    r, c = np.mgrid[0:h, 0:w]
    if g == 'rand':
        m = rng.random((h, w)) < rng.uniform(.05, .6)
    elif g == 'blobs':
        m = gen.smooth(rng, h, w, 3) > .6
    elif g == 'checker':
        m = ((r + c) % 2 == 0) & ((r // 7 + c // 5) % 2 == 0)
    elif g == 'rings':
        q = np.maximum(abs(r - h // 2), abs(c - w // 2))
        m = (q % 3 == 0)
    elif g == 'dots':
        m = (r % 2 == 0) & (c % 2 == 0)
    elif g == 'full':
        m = np.ones((h, w), bool)
    elif g == 'lines':
        m = (r % 3 == 0) | ((c == (r * 2) % max(w, 1)) & (r % 2 == 0))
    else:
        z = gen.dem(dict(case, kind='smooth', scale='unit'))
        return (ref.flood(z) - z).astype('f4')
    d = rng.integers(1, 400, (h, w)) / 64.0
    if rng.random() < .3:
        d = np.where(rng.random((h, w)) < .2, 1e-38, d)
    return np.where(m, d, 0).astype('f4')


def run_case(case, o, d):
    from malstroem.bluespots import BluespotTool
    from malstroem.scripts._utils import parse_filter
    if case['t'] == 'pipeline':
        art = pipe.run(case, d)
        ca = orc.cell_area(art.gt)
        n = orc.labels(o, art.a('depths'), art.a('bluespots'), case['mode'] + ' ' + str(pipe.FILTERS[case['filt']]), art.keep, ca)
        if art.raw['bluespots']['nodata'] != 0:
            o.bad('nodata', 'bluespot raster does not declare 0 as nodata')
        o.count('pipeline')
        o.case(n > 1, art.z, case['mode'], case['filt'])
        o.sample = pipe.sample(case, art)
        return
    dep = depth_raster(case)
    filt = pipe.FILTERS[case['filt']]
    gt = pipe.GTS[case['gt']]
    ca = orc.cell_area(gt)
    keep = pipe.KEEP[filt]
    if case.get('near') and (dep > 0).any():
        # threshold half way between the properties of two bluespots
        lb = ref.regions((dep > 0).astype('i8'))[0].ravel()
        v = {'volume': np.bincount(lb, dep.ravel().astype('f8'))[1:] * ca, 'area': np.bincount(lb)[1:] * ca}
        v['maxdepth'] = np.zeros(lb.max() + 1)
        np.maximum.at(v['maxdepth'], lb, dep.ravel())
        v['maxdepth'] = v['maxdepth'][1:]
        a = ['volume', 'volume', 'area', 'maxdepth'][case['seed'] % 4]
        u = np.unique(v[a])
        u = u[np.concatenate(([True], np.diff(u) > 1e-9 * u[1:]))]
        if len(u) > 1:
            k = case['seed'] // 4 % (len(u) - 1)
            x = float((u[k] + u[k + 1]) / 2)
            op = ['>', '>=', '<', '<='][case['seed'] // 7 % 4]
            filt = '%s %s %s' % (a, op, np.format_float_positional(x))
            x = float(filt.split()[2])
            keep = lambda ar, md, vo: (dict(area=ar, maxdepth=md, volume=vo)[a] > x) == (op[0] == '>')
            o.count('near')
    tag = '%s %s %s filter %s cell %s' % (case['t'], case['g'], dep.shape, filt, gt[1])
    if case['t'] == 'command':
        p, q = os.path.join(d, 'd.tif'), os.path.join(d, 'b.tif')
        cli.write_tif(p, dep, gt=gt, nodata=-999)
        cli.ok(['bspots', '-depths', p, '-out', q] + (['-filter', filt] if filt else []))
        lab = cli.arr(q)
        o.count('command')
    else:
        h, w = dep.shape
        # the short way out: paths along an edge take quadratic time
        fd = np.full(dep.shape, 2 if w < 1000 else 4, 'u1')
        acc = np.tile(np.arange(1, w + 1, dtype='f8'), (h, 1)) if w < 1000 else np.tile(np.arange(1., h + 1)[:, None], (1, w))
        wl, ws, pp = cli.MemRaster(), cli.MemRaster(), cli.MemVector()
        fn = call('parse_filter', parse_filter, filt) if filt else (None if case['seed'] % 2 else call('parse_filter', parse_filter, ''))
        if (dep > 0).all():
            # ID 0 needs a watershed cell to have a pour point
            dep[0, 0] = 0
        if dep[:, -1].all():
            dep[h // 2, -1] = 0
        t = BluespotTool(cli.MemRaster(dep, gt), cli.MemRaster(fd, gt), fn, wl, pp, ws, input_accum=cli.MemRaster(acc, gt))
        call('BluespotTool', t.process)
        lab = wl.written[0]
        o.count('tool'); o.count('nofilter_tool', fn is None)
    n = orc.labels(o, dep, lab, tag, keep, ca)
    o.count('wide', max(dep.shape) > 32767)
    o.count('over_255', n > 255); o.count('over_65535', n > 65535)
    o.case(n > 1, dep, case['filt'], case['t'])
