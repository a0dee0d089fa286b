"""C05: accumulated flow equals a topological count"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('acyclic flow direction rasters (random rank, tilted, growth, snake, funnel, one direction), with undirected cells, layouts, native and pure, accum command, '
        'DemTool, complete/chain; non-trivial: some cell has at least 2 upstream cells; distinct by raster and route')
MUST_OBSERVE = ['native', 'pure', 'undirected', 'command', 'pipeline', 'beyond_65535', 'beyond_2_24', 'wide', 'river']
MIN_EVENTS = 300


def cases(seed, tier):
    rng = np.random.default_rng([seed, 105])
    n = 900 if tier == 'quick' else 20000
    out = [dict(t='api', seed=int(rng.integers(1 << 31)), shape=[280, 290], gen='funnel', native=True, layout='C', nodir=0.0, reps=1)]
    for i in range(n):
        t = ['api', 'api', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4, accum=True), t=t))
            continue
        native = bool(rng.random() < .65) or t == 'command' and bool(rng.random() < .7)
        sh = gen.shapes(rng, 50 if native else 22)
        out.append(dict(t=t, seed=int(rng.integers(1 << 31)), shape=sh, native=native, layout=str(rng.choice(gen.LAYOUTS)),
                        gen=str(rng.choice(['rank', 'tilt', 'tree', 'snake', 'funnel', 'row', 'drain', 'drain'])),
                        nodir=float(rng.choice([0, 0, .02, .3, 1])), reps=10 if t == 'api' else 1))
    for k in range(8 if tier == 'quick' else 90):
        out.insert(0, dict(t=['api', 'command'][k % 8 == 1], seed=int(rng.integers(1 << 31)), shape=gen.wide(rng) if k else [70000, 1][::int(rng.choice([1, -1]))], native=k > 0, layout=str(rng.choice(gen.LAYOUTS)),
                            gen=str(rng.choice(['rank', 'tilt', 'tree', 'drain', 'drain'])), nodir=float(rng.choice([0, 0, .02])), reps=1))
    # more cells than 32 bit floats count
    out[:0] = [dict(t='api', seed=int(rng.integers(1 << 31)), shape=[[4111, 4099], [4101, 4097]][k % 2], gen='trunk', native=True, layout='C', nodir=0.0, reps=1) for k in range(1 if tier == 'quick' else 4)]
    # one path of a million cells
    out[:0] = [dict(t='api', seed=int(rng.integers(1 << 31)), shape=[1100, 1003][::int(rng.choice([1, -1]))], gen='river', native=True, layout='C', nodir=0.0, reps=1),
               dict(t=['api', 'command'][seed % 2], seed=int(rng.integers(1 << 31)), shape=[270, 131], gen='river', native=False, layout='C', nodir=0.0, reps=1)]
    out[:0] = [dict(pipe.wide(rng, k, accum=True), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def run_case(case, o, d):
    from malstroem.algorithms import speedups, flow
    if case['t'] == 'pipeline':
        art = pipe.run(case, d)
        orc.accum(o, art.a('flowdir'), art.a('accum'), case['mode'])
        o.count('pipeline')
        o.case(art.a('accum').max() > 2, art.z, case['mode'])
        o.sample = pipe.sample(case, art)
        return
    for rep in range(case['reps']):
        rng = np.random.default_rng([case['seed'], rep])
        h, w = case['shape']
        if rep % 2:
            h, w = w, h
        if case['gen'] == 'drain':
            # wide: long paths take quadratic time
            fd = gen.draining_flowdir(rng, h, w, None if max(h, w) < 1000 else 0)
            if case['nodir']:
                fd[rng.random(fd.shape) < case['nodir']] = 8
        elif case['gen'] == 'river':
            # linear time only if the path starts at the last cell
            fd = gen.river(h, w, bool(rng.integers(2)))
            o.count('river', fd.size > 1000000)
        elif case['gen'] == 'trunk':
            # all rows join one column, or all columns one row
            k = int(rng.integers(4))
            fd = np.full((h, w), [6, 6, 0, 0][k], 'u1')
            fd[[slice(None), slice(None), 0, 0][k], [0, 0, slice(None), slice(None)][k]] = [0, 4, 6, 2][k]
        else:
            fd = gen.random_flowdir(rng, h, w, case['nodir'], case['gen'])
        (speedups.enable if case['native'] else speedups.disable)()
        try:
            if case['t'] == 'api':
                a = gen.layout(fd, case['layout'])
                acc = call('accumulated_flow', flow.accumulated_flow, a)
                if not np.array_equal(a, fd):
                    o.bad('input', 'flow directions were changed')
            else:
                p, q = os.path.join(d, 'fd.tif'), os.path.join(d, 'acc.tif')
                cli.write_tif(p, fd)
                cli.ok(['accum', '-flowdir', p, '-out', q])
                acc = cli.arr(q)
                o.count('command')
        finally:
            speedups.enable()
        orc.accum(o, fd, acc, '%s %s %s %s' % (case['t'], case['gen'], fd.shape, 'native' if case['native'] else 'pure'))
        o.count('native' if case['native'] else 'pure'); o.count('undirected', (fd == 8).sum())
        m = ref.accum(fd)[0].max()
        o.count('wide', max(fd.shape) > 32767)
        o.count('beyond_65535', m > 65535); o.count('beyond_2_24', m > 1 << 24)
        o.case(m > 2, fd, case['t'], case['native'])
