"""C03: flow directions drain the raster along the steepest descent"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('terrains x scales x shapes, native and pure, through the public algorithms, DemTool, the flowdir command and complete/chain; '
        'non-trivial: interior cells exist; distinct by terrain and route')
MUST_OBSERVE = ['sloping_cells', 'flat_cells', 'native', 'pure', 'api', 'command', 'pipeline', 'wide', 'nearly_tied']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 103])
    n = 800 if tier == 'quick' else 16000
    out = []
    for i in range(n):
        t = ['api', 'tool', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4), t=t))
            continue
        native = bool(rng.random() < .7)
        sh = gen.shapes(rng, 60 if native else 22)
        if native and i % 40 == 0:
            sh = [int(rng.integers(100, 260)), int(rng.integers(100, 260))]
        out.append(dict(t=t, seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=sh,
                        scale=str(rng.choice(gen.SCALES)), native=native, reps=6 if t != 'command' else 1))
    for k in range(24 if tier == 'quick' else 600):
        native = bool(k % 2)
        out.append(dict(t=['api', 'tool', 'command'][k % 3], seed=int(rng.integers(1 << 31)), kind='nearties', shape=[int(x) for x in rng.integers(4, 40 if native else 20, 2)], scale='unit', native=native, reps=4))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    for k in range(4 if tier == 'quick' else 60):
        out.insert(0, dict(t=['tool', 'api', 'command'][k % 3], seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.WIDE_KINDS)), shape=gen.wide(rng), scale='unit', native=k > 0, reps=1))
    return out


def run_case(case, o, d):
    from malstroem.algorithms import speedups, fill, flow
    from malstroem.dem import DemTool
    if case['t'] == 'pipeline':
        art = pipe.run(case, d)
        orc.flow(o, art.z, art.a('flowdir'), '%s %s' % (case['mode'], case['kind']))
        o.count('pipeline')
        o.case(min(art.z.shape) > 2, art.z, case['mode'])
        o.sample = pipe.sample(case, art)
        return
    for rep in range(case['reps']):
        c = dict(case, seed=[case['seed'], rep])
        z = gen.dem(c)
        tag = '%s %s %s %s' % (case['t'], c['kind'], c['scale'], z.shape)
        (speedups.enable if c['native'] else speedups.disable)()
        try:
            if c['t'] == 'api':
                s, dg = call('increments', fill.minimum_safe_short_and_diag, z)
                nf = call('fill_terrain_no_flats', fill.fill_terrain_no_flats, z, short=s, diag=dg)
                fd = call('terrain_flowdirection', flow.terrain_flowdirection, nf, edges_flow_outward=True)
            elif c['t'] == 'tool':
                w = [cli.MemRaster() for _ in range(3)]
                call('DemTool', DemTool(cli.MemRaster(z), w[0], w[1], w[2]).process)
                fd = w[1].written[-1]
            else:
                p, q = os.path.join(d, 'dem.tif'), os.path.join(d, 'fd.tif')
                cli.write_tif(p, z)
                cli.ok(['flowdir', '-dem', p, '-out', q])
                fd = cli.arr(q)
        finally:
            speedups.enable()
        o.count('wide', max(z.shape) > 32767)
        o.count('nearly_tied', c['kind'] == 'nearties')
        o.count(c['t']); o.count('native' if c['native'] else 'pure')
        orc.flow(o, z, fd, tag)
        o.case(min(z.shape) > 2, z, c['t'], c['native'])
