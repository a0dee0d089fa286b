"""C01: filled DEM equals a priority flood"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call, digest

RULE = ('terrains from %d generators x scales x shapes (incl. 1xn, 2xn, 3xn), native and pure, array layouts and element types, filled command and complete; '
        'non-trivial: filling raised at least one cell; distinct by terrain and mode' % len(gen.NAMES))
MUST_OBSERVE = ['raised_cells', 'native', 'pure', 'command', 'complete', 'narrow', 'wide']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 101])
    n = 260 if tier == 'quick' else 6000
    out = []
    for i in range(n):
        mode = ['api', 'api', 'api', 'cmd', 'complete'][i % 5]
        native = bool(rng.random() < .6)
        sh = gen.shapes(rng, 24 if not native else 60)
        if mode == 'api' and native and i % 10 == 0:
            sh = [int(rng.integers(60, 260)), int(rng.integers(60, 260))]
        out.append(dict(t=mode, seed=int(rng.integers(1 << 31)), kind=gen.NAMES[i % len(gen.NAMES)] if i % 2 else str(rng.choice(gen.NAMES)),
                        shape=sh, scale=str(rng.choice(gen.SCALES)), native=native, layout=str(rng.choice(gen.LAYOUTS)),
                        dtype=str(rng.choice(['f4', 'f4', 'f4', 'f2', 'f8', 'i2', 'i4', 'u1', '>f4'])), reps=6 if mode == 'api' else 1))
    for k in range(5 if tier == 'quick' else 60):
        out.insert(0, dict(t=['api', 'cmd'][k % 2], seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.WIDE_KINDS)), shape=gen.wide(rng), scale='unit', native=k > 0, layout=str(rng.choice(gen.LAYOUTS)), dtype='f4', reps=1))
    # thousands of sweeps
    out[:0] = [dict(t='api', seed=int(rng.integers(1 << 31)), kind='meander', shape=[s, s - int(rng.integers(6))], scale='unit', native=True, layout='C', dtype='f4', reps=1) for s in ([60, 280, 300] if tier == 'quick' else [30, 100, 280, 290, 400, 500, 600])]
    return out


def run_case(case, o, d):
    from malstroem.algorithms import fill, speedups
    for rep in range(case['reps']):
        c = dict(case, seed=[case['seed'], rep])
        if rep:
            c['kind'] = gen.NAMES[(case['seed'] + rep) % len(gen.NAMES)]
        z = gen.dem(c)
        tag = '%s %s %s %s rep %d' % (c['t'], c['kind'], z.shape, 'native' if c['native'] else 'pure', rep)
        (speedups.enable if c['native'] else speedups.disable)()
        try:
            if c['t'] == 'api':
                dt = c['dtype']
                if dt in ('f2', 'i2', 'i4', 'u1'):
                    zz = np.round(z)
                    if zz.min() < -2000 or zz.max() > 2000 or (dt == 'u1' and (zz.min() < 0 or zz.max() > 255)):
                        dt = 'f4'
                    else:
                        z = zz
                # same_kind casting: int32 and int64 are refused by contract only if not representable; use what numpy allows
                if not np.can_cast(np.dtype(dt), np.float32, 'same_kind'):
                    dt = 'f4'
                a = gen.layout(z.astype(dt), c['layout'])
                f = call('fill_terrain', fill.fill_terrain, a)
            else:
                p = os.path.join(d, 'dem.tif')
                cli.write_tif(p, z)
                if c['t'] == 'cmd':
                    q = os.path.join(d, 'filled.tif')
                    cli.ok(['filled', '-dem', p, '-out', q])
                    f = cli.arr(q)
                    o.count('command')
                else:
                    f = cli.complete(p, os.path.join(d, 'o'), mm=1, res=max(.1, float(np.abs(z).max()) * 1e-3))['filled']['a']
                    o.count('complete')
        finally:
            speedups.enable()
        o.count('native' if c['native'] else 'pure')
        o.count('narrow', min(z.shape) <= 3); o.count('wide', max(z.shape) > 32767)
        orc.filled(o, z, f, tag)
        raised = int((ref.flood(z) > z).sum())
        o.case(raised > 0, z, c['t'], c['native'])
        if rep == 0 and raised:
            o.sample = dict(terrain=c['kind'], scale=c['scale'], shape=list(z.shape), mode=c['t'], native=c['native'], raised=raised)
