"""C02: depths = filled - terrain, level water, rim"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('terrains x scales x shapes through DemTool with recording writers, the depths command and complete/chain; '
        'non-trivial: at least one bluespot; distinct by terrain and route')
MUST_OBSERVE = ['bluespots', 'tool', 'command', 'pipeline']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 102])
    n = 700 if tier == 'quick' else 14000
    out = []
    for i in range(n):
        t = ['tool', 'command', 'pipeline'][i % 3]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 3, filt=0, mm=1.0), t=t))
            continue
        native = bool(rng.random() < .7)
        out.append(dict(t=t, seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=gen.shapes(rng, 60 if native else 22),
                        scale=str(rng.choice(gen.SCALES)), native=native, reps=8 if t == 'tool' else 1,
                        dtype=str(rng.choice(['f4', 'f4', 'f4', 'i2', 'f8']))))
    out[:0] = [dict(pipe.wide(rng, k, filt=0, mm=1.0), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    from malstroem.dem import DemTool
    if case['t'] == 'pipeline':
        art = pipe.run(case, d)
        orc.depths(o, art.z, art.a('filled'), art.a('depths'), '%s %s' % (case['mode'], case['kind']))
        orc.filled(o, art.z, art.a('filled'), 'filled of ' + case['mode'])
        o.count('pipeline')
        o.case(art.a('depths').max() > 0, art.z, case['mode'])
        o.sample = pipe.sample(case, art)
        return
    for rep in range(case['reps']):
        c = dict(case, seed=[case['seed'], rep])
        z = gen.dem(c)
        if case['dtype'] == 'i2':
            z = np.round(z)
            if np.abs(z).max() > 30000:
                continue
        dt = case['dtype']
        tag = '%s %s %s' % (case['t'], c['kind'], z.shape)
        (speedups.enable if c['native'] else speedups.disable)()
        try:
            if c['t'] == 'tool':
                dt = 'f4' if dt == 'f8' else dt
                w = [cli.MemRaster() for _ in range(4)]
                t = DemTool(cli.MemRaster(z.astype(dt)), w[0], w[1], w[2], w[3])
                call('DemTool', t.process)
                f, dep = w[0].written[-1], w[2].written[-1]
                o.count('tool')
            else:
                p, q, r = [os.path.join(d, x) for x in ('dem.tif', 'f.tif', 'd.tif')]
                cli.write_tif(p, z.astype(dt))
                cli.ok(['filled', '-dem', p, '-out', q])
                cli.ok(['depths', '-dem', p, '-filled', q, '-out', r])
                f, dep = cli.arr(q), cli.arr(r)
                o.count('command')
        finally:
            speedups.enable()
        orc.depths(o, z, f, dep, tag)
        orc.filled(o, z, f, tag)
        o.case(dep.max() > 0, z, c['t'])
