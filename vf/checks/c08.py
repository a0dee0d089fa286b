"""C08: watersheds"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('draining flow directions (random growth from all or few outlets, and directions of generated terrain) x label rasters (sparse, dense, blobs, border, none) x label types '
        'x background values x layouts, native and pure, wsheds command, complete/chain; non-trivial: some unlabelled cell is assigned; distinct by inputs and route')
MUST_OBSERVE = ['assigned_cells', 'unassigned_cells', 'native', 'pure', 'command', 'pipeline', 'background_nonzero', 'wide', 'beyond_32_bits', 'river', 'fishbone']
MIN_EVENTS = 300
TYPES = ['i4', 'i4', 'i8', 'u1', 'u2', 'i2', 'u4', 'u8', 'i1', '>i4']


def cases(seed, tier):
    rng = np.random.default_rng([seed, 108])
    n = 800 if tier == 'quick' else 16000
    out = []
    for i in range(n):
        t = ['api', 'api', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4), t=t))
            continue
        native = bool(rng.random() < .6)
        out.append(dict(t=t, seed=int(rng.integers(1 << 31)), shape=gen.shapes(rng, 45 if native else 20), native=native,
                        lab=str(rng.choice(['sparse', 'dense', 'blobs', 'border', 'none', 'all', 'corner'])), dtype=str(rng.choice(TYPES)),
                        layouts=[str(x) for x in rng.choice(gen.LAYOUTS, 2)], bg=int(rng.choice([0, 0, 0, -1, 3, 7])), reps=8 if t == 'api' else 1))
    for k in range(5 if tier == 'quick' else 60):
        out.insert(0, dict(t=['api', 'command'][k % 4 == 1], seed=int(rng.integers(1 << 31)), shape=gen.wide(rng, 4, 33000, 40000) if k else [2, 33000], native=k > 0, lab=str(rng.choice(['sparse', 'dense', 'blobs', 'corner'])), dtype=str(rng.choice(TYPES)),
                            layouts=[str(x) for x in rng.choice(gen.LAYOUTS, 2)], bg=int(rng.choice([0, 0, 3, -1])), reps=1))
    # long paths, and trunks with many tributaries
    for k in range(6 if tier == 'quick' else 40):
        out.insert(0, dict(t=['api', 'command'][k % 5 == 4], seed=int(rng.integers(1 << 31)), shape=[int(rng.integers(300, 900)), int(rng.integers(100, 400))], native=k % 3 < 2, lab=str(rng.choice(['sparse', 'corner', 'corner'])), dtype=str(rng.choice(TYPES)),
                            layouts=[str(x) for x in rng.choice(gen.LAYOUTS, 2)], bg=int(rng.choice([0, 0, 3, -1])), reps=1, flow=['river', 'fishbone'][k % 2], k=int(rng.integers(4))))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def label_raster(rng, how, h, w, dtype, bg):
    lo, hi = 1, min(np.iinfo(dtype).max, 1 << 62)
    if rng.random() < .6:
        hi = min(hi, 30000)
    elif rng.random() < .5:
        lo = hi // 2
    lab = np.full((h, w), bg, 'i8')
    if how == 'sparse':
        m = rng.random((h, w)) < .05
        lab[m] = rng.integers(lo, hi, m.sum(), dtype='i8')
    elif how == 'dense':
        lab = rng.integers(0, 6, (h, w))
    elif how == 'blobs':
        m, n = ref.regions((gen.smooth(rng, h, w, 3) > .7).astype('i8'))
        lab = np.where(m > 0, np.where(hi > 30000, m * (hi // (n + 1)), m % hi + (m > 0)), bg)
    elif how == 'border':
        lab[0, :] = 1; lab[-1, :] = 2; lab[:, -1] = 4
    elif how == 'all':
        lab[:] = 5
    elif how == 'corner':
        lab[-1, -1] = 9
        lab[int(rng.integers(h)), int(rng.integers(w))] = 11
    return lab.astype(dtype)


def run_case(case, o, d):
    from malstroem.algorithms import speedups, flow
    if case['t'] == 'pipeline':
        art = pipe.run(case, d)
        orc.wsheds(o, art.a('flowdir'), art.a('bluespots'), art.a('watersheds'), case['mode'])
        o.count('pipeline')
        o.case(art.a('bluespots').max() > 0, art.z, case['mode'], case['filt'])
        o.sample = pipe.sample(case, art)
        return
    for rep in range(case['reps']):
        rng = np.random.default_rng([case['seed'], rep])
        h, w = case['shape'] if rep % 2 else case['shape'][::-1]
        # wide: paths along an edge take quadratic time
        fd = gen.draining_flowdir(rng, h, w, None if max(h, w) < 1000 else 0) if 'flow' not in case else None
        if case.get('flow') == 'river':
            fd = gen.river(h, w, case['k'] < 2)
        elif case.get('flow') == 'fishbone':
            # branches to either side of the trunk are visited before or after it
            fd = gen.fishbone(h * w // 2 if rep or not case['native'] else 140000, case['k'])
        h, w = fd.shape
        o.count(case.get('flow', 'other_flow'))
        bg, dt = case['bg'], case['dtype']
        if case['t'] == 'command':
            bg, dt = 0, dt if dt in ('u1', 'u2', 'i2', 'i4', 'u4') else 'i4'
        if bg < 0 and dt[-2] == 'u':
            bg = 3
        lab = label_raster(rng, case['lab'], h, w, dt, bg)
        tag = '%s labels %s %s background %s %s %s %s' % (case['t'], case['lab'], dt, bg, (h, w), case['layouts'], 'native' if case['native'] else 'pure')
        (speedups.enable if case['native'] else speedups.disable)()
        try:
            if case['t'] == 'api':
                a, b = gen.layout(fd, case['layouts'][0]), gen.layout(lab.copy(), case['layouts'][1])
                call('watersheds_from_labels', flow.watersheds_from_labels, a, b, bg)
                ws = b
                if not np.array_equal(a, fd):
                    o.bad('input', 'flow directions were changed')
            else:
                p, q, r = [os.path.join(d, x) for x in ('fd.tif', 'b.tif', 'w.tif')]
                cli.write_tif(p, fd); cli.write_tif(q, lab, nodata=0)
                cli.ok(['wsheds', '-bluespots', q, '-flowdir', p, '-out', r])
                ws = cli.arr(r)
                o.count('command')
        finally:
            speedups.enable()
        orc.wsheds(o, fd, lab, ws, tag, bg)
        o.count('native' if case['native'] else 'pure'); o.count('background_nonzero', bg != 0)
        o.count('wide', max(h, w) > 32767); o.count('beyond_32_bits', lab.max() > 2 ** 32)
        o.case((np.asarray(ws) != lab).any(), fd, lab, bg, case['t'], case['native'])
