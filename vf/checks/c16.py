"""C16: a complete run accounts for all rain, area and volume"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('complete runs over generated terrain of all kinds, scales, cell sizes, orientations, filters, rain, resolutions and both pour point methods, native and pure, a few of 150-250 cells a side, one of 520 by 530; '
        'non-trivial: at least one bluespot; distinct by terrain and options')
MUST_OBSERVE = ['bluespots', 'removed_by_filter', 'end_nodes', 'water_left', 'water_kept', 'no_bluespots', 'accum', 'dem', 'pure', 'nodata', 'large']
MIN_EVENTS = 100


def cases(seed, tier):
    rng = np.random.default_rng([seed, 116])
    n = 240 if tier == 'quick' else 6000
    out = []
    for i in range(n):
        p = pipe.params(rng, 0, mode='complete')
        if i % 60 == 0:
            p = dict(p, shape=[int(rng.integers(150, 250)), int(rng.integers(150, 250))], kind=str(rng.choice(['smooth', 'pits', 'dendritic', 'white'])), native=True)
        if i % 3 == 0 and p['filt'] == 0:
            p['filt'] = int(rng.integers(3, len(pipe.FILTERS)))
        out.append(p)
    # beyond 2^18 cells, and beyond 65535 bluespots
    for k in range(1 if tier == 'quick' else 6):
        out.insert(0, dict(pipe.params(rng, 0, mode='complete'), shape=[[520, 531], [533, 517]][k % 2], kind=str(rng.choice(['smoothq', 'pits', 'smooth'])), native=True, scale='unit', res=.1, filt=3, nodata='', large=True))
    if tier != 'quick':
        out.insert(0, dict(pipe.params(rng, 0, mode='complete'), shape=[560, 560], kind='pitgrid', native=True, scale='unit', res=.1, filt=0, nodata='', large=True, cpu=1200))
    return out


def run_case(case, o, d):
    art = pipe.run(case, d)
    tag = '%s %s %s mm %r filter %r' % (case['kind'], case['shape'], case['scale'], case['mm'], pipe.FILTERS[case['filt']])
    judge(o, art, case, tag)
    o.case(art.a('bluespots').max() > 0, art.z, case['filt'], case['mm'], case['res'], case['accum'])
    o.count('large', case.get('large', False)); o.count('many_ids', art.a('bluespots').max() > 65535); o.count('accum' if case['accum'] else 'dem'); o.count('pure', not case['native']); o.count('nodata', case['nodata'] != '')
    o.sample = pipe.sample(case, art)


def judge(o, art, case, tag):
    z, lab = art.z, art.a('bluespots').astype('i8')
    h, w = z.shape
    ca = orc.cell_area(art.gt)
    n = int(lab.max())
    ids = set(range(n + 1))
    for k in ('filled', 'flowdir', 'depths', 'watersheds', 'finaldepths', 'finalbluespots'):
        if art.a(k).shape != z.shape:
            o.bad('shape', '%s: %s has shape %s' % (tag, k, art.a(k).shape))
            return
    dep = art.a('depths').astype('f8')
    if set(np.unique(lab).tolist()) != ids | {0}:
        o.bad('ids', '%s: IDs are not 0..%d' % (tag, n))
        return
    L = {}
    for k, layer in (('pour points', 'pourpoints'), ('nodes', 'nodes'), ('input volumes', 'initvolumes'), ('final volumes', 'finalstate'), ('hypsometry', 'hypsometry'), ('levels', 'finallevels')):
        f = [x['props'] for x in art.l(layer)]
        pp = [p for p in f if p.get('nodetype', 'pourpoint') == 'pourpoint']
        b = [p['bspot_id'] for p in pp]
        if len(b) != len(set(b)) or set(b) != ids:
            o.bad('ids', '%s: %s hold IDs %s, the raster 0..%d' % (tag, k, sorted(b, key=str)[:12], n))
            return
        L[k] = {p['bspot_id']: p for p in pp}
        L['all ' + k] = f
    st = ref.stats(dep, lab, n)
    wc = np.bincount(art.a('watersheds').astype('i8').ravel(), minlength=n + 1)
    zs = ref.stats(z, lab, n)
    for k in ids:
        vol, dm = (st[k]['sum'] * ca, st[k]['max']) if k else (0.0, 0.0)
        want = dict(bspot_area=st[k]['count'] * ca, bspot_vol=vol, bspot_dmax=dm, wshed_area=int(wc[k]) * ca, zmin=zs[k]['min'], zmax=zs[k]['max'])
        for name in ('pour points', 'nodes', 'input volumes', 'final volumes', 'hypsometry', 'levels'):
            p = L[name][k]
            for a, v in want.items():
                if a in p and not orc.close(p[a], v, 1e-9):
                    o.bad('consistent', '%s: %s of bluespot %d in %s is %r, the rasters say %r' % (tag, a, k, name, p[a], v))
                    return
            for a in ('bspot_area', 'bspot_vol', 'wshed_area'):
                if a not in p:
                    o.bad('consistent', '%s: %s has no %s' % (tag, name, a))
                    return
    area = h * w * ca
    rain = area * case['mm'] * .001
    vols, fin = L['all input volumes'], L['all final volumes']
    for name in ('nodes', 'input volumes', 'final volumes'):
        a = sum(float(p['wshed_area']) for p in L['all ' + name])
        if not orc.close(a, area, 1e-9):
            o.bad('area', '%s: watershed areas of %s add up to %r, the raster measures %r' % (tag, name, a, area))
    tot = sum(float(p['inputv']) for p in vols)
    if not orc.close(tot, rain, 1e-9):
        o.bad('rain', '%s: input volumes add up to %r, the rain to %r' % (tag, tot, rain))
    kept = sum(float(p['v']) for p in fin)
    left = sum(float(p['spillv']) for p in fin if p['dstrnodeid'] is None)
    if abs(kept + left - rain) > 1e-9 * rain + 1e-300:
        o.bad('balance', '%s: rain %r, retained %r, left %r' % (tag, rain, kept, left))
    cap = float(math_fsum([float(p['bspot_vol']) for p in fin]))
    kd = math_fsum(dep[lab > 0].tolist()) * ca
    if not orc.close(cap, kd, 1e-9):
        o.bad('capacity', '%s: capacity of the network %r, kept depressions hold %r' % (tag, cap, kd))
    for p in fin:
        if p['nodetype'] != 'pourpoint' and (float(p['v']) != 0 or float(p['wshed_area']) != 0 or float(p['bspot_vol']) != 0):
            o.bad('junction', '%s: junction %s holds water or area' % (tag, p['nodeid']))
        if p['bspot_id'] == 0 and float(p['v']) != 0:
            o.bad('outside', '%s: %r of water is retained outside bluespots' % (tag, p['v']))
    ev = art.l('finalstate')
    if {p['nodeid'] for p in L['all nodes']} != {p['nodeid'] for p in fin} or len(fin) != len(L['all nodes']) or len(vols) != len(fin):
        o.bad('nodes', '%s: nodes, input volumes and final volumes differ in their nodes' % tag)
    # water can only stand in kept bluespots
    if (art.a('finaldepths') > 0)[lab == 0].any() or (art.a('finalbluespots') != 0)[lab == 0].any():
        o.bad('outside', '%s: final water outside the kept bluespots' % tag)
    # the volume in the final depth raster is that of the levels: empty bluespots are dry, full ones full
    fd = art.a('finaldepths').astype('f8')
    fs = ref.stats(fd, lab, n)
    for k in ids:
        v, c = float(L['final volumes'][k]['v']), float(L['final volumes'][k]['bspot_vol'])
        if k and v == 0 and fs[k]['sum'] != 0 and fs[k]['sum'] * ca > 1e-6 * c:
            o.bad('dry', '%s: bluespot %d received no water and is %r deep' % (tag, k, fs[k]['max']))
        if k and v == c and abs(fs[k]['sum'] * ca - c) > 1e-3 * c + 1e-6 * ca * fs[k]['count'] * max(1e-9, abs(zs[k]['max'])):
            o.bad('brimful', '%s: full bluespot %d of %r holds %r in the final depths' % (tag, k, c, fs[k]['sum'] * ca))
    raw = ref.regions((dep > 0).astype('i8'))[1]
    o.count('bluespots', n); o.count('removed_by_filter', raw - n); o.count('no_bluespots', n == 0); o.count('end_nodes', sum(p['dstrnodeid'] is None for p in fin))
    o.count('water_left', left > 0); o.count('water_kept', kept > 0)


def math_fsum(x):
    import math
    return math.fsum(x)
