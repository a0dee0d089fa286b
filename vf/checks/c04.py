"""C04: slope-preserving fill equals Dijkstra with increments"""
import numpy as np
from vf import gen, orc, ref
from vf.core import call

RULE = ('terrains x scales x shapes x increments (proposed, zero, random, larger than the relief, one of them zero), native and pure, array layouts; '
        'non-trivial: at least one raised cell; distinct by terrain, increments and mode')
MUST_OBSERVE = ['raised', 'native', 'pure', 'proposed', 'other', 'narrow', 'wide']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 104])
    n = 400 if tier == 'quick' else 9000
    out = []
    for i in range(n):
        native = bool(rng.random() < .65)
        sh = gen.shapes(rng, 60 if native else 20)
        if native and i % 20 == 0:
            sh = [int(rng.integers(100, 250)), int(rng.integers(100, 250))]
        out.append(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=sh, scale=str(rng.choice(gen.SCALES)), native=native,
                        layout=str(rng.choice(gen.LAYOUTS)), reps=5))
    for k in range(4 if tier == 'quick' else 60):
        out.insert(0, dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.WIDE_KINDS)), shape=gen.wide(rng), scale='unit', native=k > 0, layout=str(rng.choice(gen.LAYOUTS)), reps=1))
    # thousands of sweeps
    out[:0] = [dict(seed=int(rng.integers(1 << 31)), kind='meander', shape=[s, s - int(rng.integers(6))], scale='unit', native=True, layout='C', reps=1) for s in ([60, 280, 300] if tier == 'quick' else [30, 100, 280, 290, 400, 500, 600])]
    return out


def run_case(case, o, d):
    from malstroem.algorithms import speedups, fill
    for rep in range(case['reps']):
        c = dict(case, seed=[case['seed'], rep])
        rng = np.random.default_rng([case['seed'], rep, 9])
        z = gen.dem(c)
        (speedups.enable if c['native'] else speedups.disable)()
        try:
            prop = rng.random() < .5
            ps, pd = call('increments', fill.minimum_safe_short_and_diag, gen.layout(z, case['layout']))
            if prop:
                s, dg = ps, pd
            else:
                x = rng.random()
                if x < .15:
                    s, dg = 0.0, 0.0
                elif x < .3:
                    s = float(10 ** rng.uniform(-3, 1)); dg = 0.0
                elif x < .45:
                    s = 0.0; dg = float(10 ** rng.uniform(-3, 1))
                elif x < .6:
                    s = float(10 ** rng.uniform(0, 3)); dg = s * 2 ** .5
                else:
                    s = float(10 ** rng.uniform(-6, 1)); dg = float(s * rng.choice([1, 2 ** .5, .5, 3]))
            nf = call('fill_terrain_no_flats', fill.fill_terrain_no_flats, gen.layout(z, case['layout']), short=s, diag=dg)
        finally:
            speedups.enable()
        tag = '%s %s %s short=%r diag=%r %s' % (c['kind'], c['scale'], z.shape, float(s), float(dg), 'native' if c['native'] else 'pure')
        want = ref.flood(z, float(s), float(dg))
        orc.same(o, 'surface', np.asarray(nf, dtype='f8'), want, tag, 'slope-preserving fill')
        if prop:
            F = ref.flood(z)
            nf = np.asarray(nf, dtype='f8')
            if min(z.shape) > 2:
                lo = np.full((z.shape[0] - 2, z.shape[1] - 2), np.inf)
                h, w = z.shape
                for k in range(8):
                    a, b = ref.DR[k], ref.DC[k]
                    lo = np.minimum(lo, nf[1 + a:h - 1 + a, 1 + b:w - 1 + b])
                if (lo >= nf[1:-1, 1:-1]).any():
                    o.bad('descent', '%s: interior cell %s has no lower neighbour' % (tag, orc.first(lo >= nf[1:-1, 1:-1])[0]))
            lim = z.size * max(float(s), float(dg)) + 1e-300
            # a hair: proportional to the float spacing at the largest elevation
            s0, d0 = ref.increments(z)
            if float(s) <= 0 or float(dg) < float(s) or float(s) > 64 * s0:
                o.bad('increments', '%s: proposed increments; float spacing at the largest elevation is %r' % (tag, s0 / 1024))
            if (nf - F > lim).any() or (nf < F).any():
                o.bad('hair', '%s: slope-preserving fill is %r above the filled surface' % (tag, float((nf - F).max())))
        o.count('proposed' if prop else 'other'); o.count('native' if c['native'] else 'pure'); o.count('narrow', min(z.shape) < 4); o.count('wide', max(z.shape) > 32767)
        o.count('raised', (want > z).sum())
        o.case((want > z).any(), z, s, dg, c['native'])
        if o.sample is None:
            o.sample = dict(tag=tag, raised=int((want > z).sum()))
