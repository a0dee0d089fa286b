"""C30: more rain never leaves less water"""
import json, os
import numpy as np
from vf import gen, orc, pipe, cli
from vf.core import call

RULE = ('terrain x sequences of growing events (uniform, per-cell rasters, water added at single nodes, up to far more than all capacity) run through initvolumes, finalvolumes, finallevels and finalbluespots or the tools; every event compared with the '
        'next larger one, node by node and cell by cell; random networks of up to 400 nodes through FinalStateCalculator; the sum and multiples of events through both volume tools; non-trivial: at least one bluespot holds water; distinct by terrain and events')
MUST_OBSERVE = ['uniform', 'rasters', 'single_node', 'networks', 'partly_filled', 'became_full', 'spill_grew', 'rising_levels', 'growing_extents', 'dry', 'proportional', 'sums', 'beyond_capacity', 'pure', 'commands']
MIN_EVENTS = 300
CPU_LIMIT = 90


def cases(seed, tier):
    rng = np.random.default_rng([seed, 130])
    n = 130 if tier == 'quick' else 5000
    out = []
    for i in range(n):
        t = ['uniform', 'rasters', 'single_node', 'networks'][i % 4]
        if t == 'networks':
            out.append(dict(t=t, seed=int(rng.integers(1 << 31)), reps=20))
        else:
            out.append(dict(pipe.params(rng, 1, mode='chain', nodata=''), t=t, commands=bool(rng.random() < .4)))
    return out


def le(a, b, scale):
    return a <= b + 1e-9 * max(scale, abs(a), abs(b))


def ordered(o, tag, small, large, inp):
    """Final volumes of two events, the second with at least as much water everywhere"""
    S = {f['properties']['nodeid']: f['properties'] for f in small}
    L = {f['properties']['nodeid']: f['properties'] for f in large}
    if set(S) != set(L):
        o.bad('nodes', '%s: the events have different nodes' % tag)
        return
    total = sum(float(f['properties'][inp] or 0) for f in large)
    for k in S:
        a, b = S[k], L[k]
        for n in ('v', 'spillv', 'pctv'):
            x, y = float(a[n] or 0), float(b[n] or 0)
            if not le(x, y, total if n != 'pctv' else 100.0):
                o.bad('less:' + n, '%s: %s of node %s is %r, and %r with more water' % (tag, n, k, x, y))
                return
        cap = float(b['bspot_vol'] or 0)
        o.count('partly_filled', 0 < float(b['v']) < cap)
        o.count('became_full', cap > 0 and float(a['v']) < cap <= float(b['v']))
        o.count('spill_grew', float(a['spillv']) < float(b['spillv']))
        # no more is kept or passed on than was added
        up = sum(float(f['properties'][inp] or 0) for f in large) - sum(float(f['properties'][inp] or 0) for f in small)
        if float(b['v']) - float(a['v']) > up + 1e-9 * max(1.0, total):
            o.bad('gained', '%s: node %s holds %r more, but only %r were added' % (tag, k, float(b['v']) - float(a['v']), up))
            return
    o.event()


def networks(case, o, d):
    from malstroem import network
    from vf.checks.c12 import forest
    rng = np.random.default_rng(case['seed'])
    for rep in range(case['reps']):
        n = int(rng.choice([2, 5, 20, 100, 400]))
        fs = forest(rng, n, str(rng.choice(['random', 'random', 'chain', 'star', 'comb'])), 'inputv')
        prev = None
        for step in range(4):
            if step:
                which = rng.random(n) < rng.choice([.05, .5, 1])
                for f, w in zip(fs, which):
                    if w:
                        f['properties']['inputv'] += float(rng.random() * rng.choice([1e-3, 1, 100]))
            w = cli.MemVector()
            call('FinalStateCalculator.process', network.FinalStateCalculator(cli.MemVector(fs), 'inputv', w).process)
            if prev is not None:
                ordered(o, 'network of %d nodes, step %d' % (n, step), prev, w.written[0], 'inputv')
            prev = w.written[0]
        o.case(True, case['seed'], rep)
    o.count('networks', case['reps'])
    o.sample = dict(case=case)


def js(fs):
    return [dict(type='Feature', id=i, geometry=None if not f['geom'] else dict(type='Point', coordinates=list(f['geom']['coordinates'][0])), properties=f['props']) for i, f in enumerate(fs)]


class Chain:
    """The last four steps by commands or by the tools"""
    def __init__(self, case, d, art):
        self.case, self.d, self.art, self.n = case, d, art, 0
        self.nodes, self.hyps = art.l('nodes'), art.l('hypsometry')

    def file(self, ext):
        self.n += 1
        return os.path.join(self.d, 'e%d.%s' % (self.n, ext))

    def volumes(self, mm=None, raster=None, unit='mm'):
        from malstroem import rain
        w = cli.MemVector()
        if raster is None:
            call('SimpleVolumeTool.process', rain.SimpleVolumeTool(cli.MemVector(js(self.nodes)), w, 'inputv', mm).process)
        else:
            call('RasterVolumeTool.process', rain.RasterVolumeTool(cli.MemVector(js(self.nodes)), cli.MemRaster(self.art.a('watersheds'), self.art.gt), cli.MemRaster(raster, self.art.gt), getattr(rain.Unit, unit), w, 'inputv').process)
        return w.written[0]

    def final(self, feats):
        from malstroem import network, approx
        w, l, dep, lab = cli.MemVector(), cli.MemVector(), cli.MemRaster(), cli.MemRaster()
        call('FinalStateCalculator.process', network.FinalStateCalculator(cli.MemVector(feats), 'inputv', w).process)
        call('approx_water_level_io', approx.approx_water_level_io, cli.MemVector(w.written[0]), cli.MemVector(js(self.hyps)), l)
        call('approx_bluespots_io', approx.approx_bluespots_io, cli.MemRaster(self.art.a('bluespots'), self.art.gt), cli.MemVector(l.written[0]), cli.MemRaster(self.art.z, self.art.gt), dep, lab)
        return w.written[0], l.written[0], dep.written[0], lab.written[0]

    def command(self, mm=None, raster=None, unit='mm'):
        g, x, y = self.file('gpkg'), self.file('tif'), self.file('tif')
        base = os.path.join(self.d, 'chain', 'vec.gpkg')
        how = ['-mm', mm]
        if raster is not None:
            r = self.file('tif')
            cli.write_tif(r, raster, gt=self.art.gt)
            how = ['-pr', r, '-pr_unit', unit, '-bluespots', os.path.join(self.d, 'chain', 'wsheds.tif')]
        cli.ok(['initvolumes', '-nodes', base] + how + ['-out', g, '-format', 'gpkg'])
        cli.ok(['finalvolumes', '-inputvolumes', g, '-out', g, '-format', 'gpkg'])
        cli.ok(['finallevels', '-finalvols', g, '-hyps', base, '-out', g, '-format', 'gpkg'])
        cli.ok(['finalbluespots', '-bluespots', os.path.join(self.d, 'chain', 'bluespots.tif'), '-dem', os.path.join(self.d, 'dem.tif'), '-finallevels', g, '-out_depths', x, '-out_bluespots', y])
        return js(cli.read_layer(g, 'initvolumes')['feats']), (js(cli.read_layer(g, 'finalvolumes')['feats']), js(cli.read_layer(g, 'finallevels')['feats']), cli.arr(x), cli.arr(y))


def run_case(case, o, d):
    if case['t'] == 'networks':
        return networks(case, o, d)
    from malstroem.algorithms import speedups
    art = pipe.run(case, d)
    rng = np.random.default_rng([case['seed'], 30])
    (speedups.enable if case['native'] else speedups.disable)()
    try:
        events(case, o, d, art, rng)
    finally:
        speedups.enable()
    o.count('pure', not case['native'])


def events(case, o, d, art, rng):
    c = Chain(case, d, art)
    bs, z = art.a('bluespots'), art.z.astype('f8')
    t = case['t']
    cap = sum(float(f['props']['bspot_vol']) for f in c.nodes)
    area = sum(float(f['props']['wshed_area']) for f in c.nodes)
    typical = 1000 * cap / area if cap and area else 10.0
    runs, inputs = [], []
    raster, mm, feats = None, 0.0, None
    for step in range(5):
        if t == 'uniform':
            mm = [0.0, float(typical * rng.random() * .3), float(typical * rng.random() * 2), float(typical * 5), float(typical * 200)][step] + (mm if step else 0)
            vol, args = None, dict(mm=mm)
        elif t == 'rasters':
            add = rng.random(z.shape) * typical * [.1, .5, 2, 20, 200][step] * (rng.random(z.shape) < rng.choice([.02, .3, 1]))
            raster = (raster if raster is not None else 0) + add.astype('f4').astype('f8')
            args = dict(raster=raster, unit=['mm', 'l', 'm3'][case['seed'] % 3])
        else:
            args = None
            if feats is None:
                feats = c.volumes(mm=typical * .4)
            else:
                feats = json.loads(json.dumps(feats))
                for k in rng.integers(0, len(feats), int(rng.integers(1, 4))):
                    feats[k]['properties']['inputv'] += float(rng.random() * max(cap, 1e-9) * rng.choice([.01, .2, 3]))
        if case['commands'] and args is not None:
            inp, r = c.command(**args)
        else:
            inp = c.volumes(**args) if args is not None else feats
            r = c.final(inp)
        inputs.append(inp)
        runs.append(r)
    o.count('beyond_capacity', sum(float(f['properties']['inputv']) for f in inputs[-1]) > cap > 0)
    tag0 = '%s %s res %s %s' % (case['kind'], case['shape'], case['res'], t)
    tolz = 1e-9 * max(1.0, float(np.abs(z).max()))
    wet = False
    for i in range(len(runs)):
        fin, lev, dep, lab = runs[i]
        if t == 'uniform' and i == 0:
            o.count('dry')
            if any(float(f['properties'][n] or 0) for f in fin for n in ('v', 'spillv')) or dep.any():
                o.bad('dry', '%s: water without rain' % tag0)
        wet = wet or bool(dep.any())
        if not i:
            continue
        tag = '%s event %d' % (tag0, i)
        sa = {f['properties']['nodeid']: float(f['properties']['inputv']) for f in inputs[i - 1]}
        for f in inputs[i]:
            if not le(sa[f['properties']['nodeid']], float(f['properties']['inputv']), 0):
                o.bad('input', '%s: input water of node %s is less than with less rain' % (tag, f['properties']['nodeid']))
                break
        ordered(o, tag, runs[i - 1][0], fin, 'inputv')
        A = {int(f['properties']['bspot_id']): f['properties'] for f in runs[i - 1][1]}
        for f in lev:
            p = f['properties']
            q = A.get(int(p['bspot_id']))
            if q is None:
                o.bad('levels', '%s: no level of bluespot %s in the smaller event' % (tag, p['bspot_id']))
                break
            for n in ('approx_z', 'approx_dmax'):
                if float(q[n]) > float(p[n]) + tolz:
                    o.bad('less:' + n, '%s: %s of bluespot %s is %r, and %r with more water' % (tag, n, p['bspot_id'], q[n], p[n]))
                    break
            o.count('rising_levels', float(q['approx_z']) < float(p['approx_z']))
        da, db = runs[i - 1][2].astype('f8'), dep.astype('f8')
        w = da > db + tolz * 10 + 1e-6 * np.abs(da)
        if w.any():
            p, n = orc.first(w)
            o.bad('less:depth', '%s: depth at %s is %r, and %r with more water (%d cells)' % (tag, p, da[p], db[p], n))
        w = (runs[i - 1][3] != 0) & (lab != runs[i - 1][3]) & (da > tolz * 10)
        if w.any():
            p, n = orc.first(w)
            o.bad('less:extent', '%s: cell %s is in bluespot %s, and in %s with more water (%d cells)' % (tag, p, runs[i - 1][3][p], lab[p], n))
        o.count('growing_extents', ((runs[i - 1][3] == 0) & (lab != 0)).sum())
    o.count(t); o.count('commands', case['commands'] and t != 'single_node')
    # input volumes are linear
    if t == 'uniform':
        a, b = float(rng.integers(1, 60)), float(rng.random() * 50)
        A, B, C, D = [{f['properties']['nodeid']: float(f['properties']['inputv']) for f in c.volumes(mm=x)} for x in (a, b, a + b, 3 * a)]
    elif t == 'rasters':
        r1, r2 = rng.integers(0, 50, z.shape).astype('f8'), rng.random(z.shape) * 20
        u = str(rng.choice(['mm', 'l', 'm3']))
        A, B, C, D = [{f['properties']['nodeid']: float(f['properties']['inputv']) for f in c.volumes(raster=x, unit=u)} for x in (r1, r2, r1 + r2, 3 * r1)]
    if t != 'single_node':
        for k in A:
            if not orc.close(A[k] + B[k], C[k], 1e-9, 1e-12):
                o.bad('sum', '%s: two events bring %r and %r to node %s, both together %r' % (tag0, A[k], B[k], k, C[k]))
                break
            if not orc.close(3 * A[k], D[k], 1e-9, 1e-12):
                o.bad('proportional', '%s: %r at node %s, three times as much rain brings %r' % (tag0, A[k], k, D[k]))
                break
        o.count('sums'); o.count('proportional')
    o.case(wet, z, t, case['res'], case['filt'])
    o.sample = dict(pipe.sample(case, art), events=len(runs))
