"""C12: fill and spill conserves water"""
import json, os
import numpy as np
from vf import orc, pipe, cli
from vf.core import call

RULE = ('forests (random, chain up to 3000 deep, star, comb, isolated) x capacities (zero, tiny, ordinary, huge) x input volumes (zero, one source, everywhere) through FinalStateCalculator and Network, '
        'rows shuffled and water added; finalvolumes command in four formats; complete/chain; non-trivial: some node spills into another; distinct by network and volumes')
MUST_OBSERVE = ['beyond_65535_nodes', 'partly_filled', 'spilling', 'shuffled', 'more_water', 'command', 'pipeline', 'network_again', 'other_event', 'max_depth']
MIN_EVENTS = 300


def cases(seed, tier):
    rng = np.random.default_rng([seed, 112])
    n = 500 if tier == 'quick' else 10000
    out = []
    for i in range(n):
        t = ['tool', 'tool', 'command', 'pipeline'][i % 4]
        if t == 'pipeline':
            out.append(dict(pipe.params(rng, i // 4, mm=float(rng.choice([1, 5, 20, 100, 1000]))), t=t))
        else:
            out.append(dict(t=t, seed=int(rng.integers(1 << 31)), n=int(rng.choice([1, 2, 5, 20, 60])), shape=str(rng.choice(['random', 'random', 'chain', 'star', 'comb', 'single'])),
                            attr=str(rng.choice(['inputv', 'inputv', 'rain'])), fmt=str(rng.choice(['gpkg', 'GeoJSON', 'SQLite', 'ESRI Shapefile'])), reps=10 if t == 'tool' else 1))
    out.append(dict(t='tool', seed=int(rng.integers(1 << 31)), n=3000, shape='chain', attr='inputv', fmt='gpkg', reps=1))
    for s in ['random', 'star'] + ([] if tier == 'quick' else ['comb', 'chain', 'single'] * 2):
        out.insert(0, dict(t='tool', seed=int(rng.integers(1 << 31)), n=70001, shape=s, attr='inputv', fmt='gpkg', reps=1))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline') for k in range(2 if tier == 'quick' else 12)]
    return out


def forest(rng, n, shape, attr):
    ids = rng.permutation(n) if rng.random() < .7 else np.arange(n)
    ds = [None] * n
    for i in range(1, n):
        ds[i] = {'chain': i - 1, 'star': 0, 'comb': (i - 2 if i % 2 == 0 else i - 1) if i > 1 else 0, 'single': None}.get(shape, None)
        if shape == 'random':
            ds[i] = None if rng.random() < .15 else int(rng.integers(max(0, i - int(rng.choice([1, 3, n]))), i))
    caps = rng.choice([0, 0, 1, 2.5, 1e-6, 1e6, 10], n) * np.where(rng.random(n) < .5, 1, rng.random(n))
    kind = rng.integers(4)
    vol = rng.random(n) * rng.choice([1, 10, 1e4, 1e-5])
    if kind == 1:
        vol[:] = 0
        vol[int(rng.integers(n))] = rng.choice([5, 1e5])
    elif kind == 2:
        vol[rng.random(n) < .5] = 0
    elif kind == 3:
        # exactly full
        vol = caps * rng.choice([1, 1, .5, 2], n)
    feats = []
    for i in range(n):
        k = int(ids[i])
        j = caps[i] == 0 and rng.random() < .6
        feats.append(dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[float(i), float(k) + .5]),
                          properties=dict(nodeid=k, dstrnodeid=None if ds[i] is None else int(ids[ds[i]]), nodetype='junction' if j else 'pourpoint', cell_row=i, cell_col=0,
                                          bspot_id=None if j else k, bspot_area=float(caps[i] * 2), bspot_vol=float(caps[i]), wshed_area=float(rng.random() * 50))))
        feats[-1]['properties'][attr] = float(vol[i])
        if attr != 'inputv' and rng.random() < .5:
            feats[-1]['properties']['inputv'] = float(rng.random())
    return feats


def calc(feats, attr):
    from malstroem.network import FinalStateCalculator
    w = cli.MemVector()
    call('FinalStateCalculator', FinalStateCalculator(cli.MemVector(feats), attr, w).process)
    return cli.as_feats(w.written[0])


def run_case(case, o, d):
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        orc.final_state(o, art.l('initvolumes'), art.l('finalstate'), 'inputv', case['mode'])
        o.count('pipeline')
        o.case(any(f['props']['spillv'] for f in art.l('finalstate')), art.z, case['mode'], case['filt'], case['mm'])
        o.sample = pipe.sample(case, art)
        return
    attr = case['attr']
    for rep in range(case['reps']):
        rng = np.random.default_rng([case['seed'], rep])
        feats = forest(rng, case['n'], case['shape'], attr)
        # an attribute has to be present in every feature to survive a typed format
        for f in feats:
            f['properties'].setdefault('inputv', 0.0)
        tag = '%s %s of %d nodes' % (t, case['shape'], len(feats))
        before = cli.as_feats(feats)
        o.count('beyond_65535_nodes', len(feats) > 65535)
        if t == 'command' and case['fmt'] == 'ESRI Shapefile':
            # dbf keeps 15 decimals
            for f in feats:
                for a in ('bspot_vol', 'inputv', attr):
                    f['properties'][a] = round(f['properties'][a] * 1024) / 1024
            before = cli.as_feats(feats)
        if t == 'command':
            P = lambda n: os.path.join(d, n)
            with open(P('iv.geojson'), 'w') as f:
                json.dump(dict(type='FeatureCollection', features=feats), f)
            fmt = case['fmt']
            out = P('fv.' + (cli.EXT[fmt] or 'shp'))
            cli.ok(['finalvolumes', '-inputvolumes', P('iv.geojson'), '-inputvolumes_layer', 'iv', '-out', out, '-out_layer', 'fv', '-format', fmt] + (['-a', attr] if attr != 'inputv' else []))
            after = cli.read_layer(out, 'fv')['feats']
            o.count('command')
            orc.final_state(o, before, after, attr, tag + ' ' + fmt)
            o.case(any(f['props']['spillv'] for f in after), json.dumps(feats), t)
            continue
        after = calc(feats, attr)
        orc.final_state(o, before, after, attr, tag)
        R = {f['props']['nodeid']: f['props'] for f in after}
        tot = sum(f['properties'][attr] for f in feats)
        eps = 1e-9 * tot + 1e-300
        # another row order
        sh = [feats[i] for i in rng.permutation(len(feats))]
        S = {f['props']['nodeid']: f['props'] for f in calc(sh, attr)}
        o.count('shuffled')
        for k in R:
            if k not in S or abs(R[k]['v'] - S[k]['v']) > eps or abs(R[k]['spillv'] - S[k]['spillv']) > eps:
                o.bad('order', '%s: node %s holds %r and spills %r, with other row order %r' % (tag, k, R[k]['v'], R[k]['spillv'], S.get(k)))
                break
        # more water
        more = json.loads(json.dumps(feats))
        for i in rng.choice(len(more), int(rng.integers(1, min(4, len(more)) + 1)), replace=False):
            more[i]['properties'][attr] += float(rng.choice([1e-3, 1, 100]) * rng.random())
        M = {f['props']['nodeid']: f['props'] for f in calc(more, attr)}
        eps = 1e-9 * sum(f['properties'][attr] for f in more)
        o.count('more_water')
        for k in R:
            if M[k]['v'] < R[k]['v'] - eps or M[k]['spillv'] < R[k]['spillv'] - eps:
                o.bad('monotone', '%s: with more water node %s holds %r (before %r) and spills %r (before %r)' % (tag, k, M[k]['v'], R[k]['v'], M[k]['spillv'], R[k]['spillv']))
                break
        # one network, several events: the first, another one, the first again
        from malstroem.network import Network
        net = Network()
        other = json.loads(json.dumps(feats))
        for f in other:
            f['properties']['other'] = f['properties'][attr] * float(rng.choice([0, .5, 3])) + float(rng.random() < .3)
        call('Network.add_nodes', net.add_nodes, [dict(f['properties']) for f in other])
        for f in other:
            f['properties'][attr] = f['properties']['other']
        X = {f['props']['nodeid']: f['props'] for f in calc(other, attr)}
        for a, W in [(attr, R), ('other', X), (attr, R), (attr, R)]:
            ev = [dict(e) for e in call('rain_event', net.rain_event, a)]
            E = {e['nodeid']: e for e in ev}
            tol = 1e-9 * sum(f['properties']['other'] for f in other) + 1e-9 * tot + 1e-300
            if len(ev) != len(feats) or set(E) != set(W):
                o.bad('once', '%s: %d events for %d nodes' % (tag, len(ev), len(feats)))
            elif any(abs(E[k]['v'] - W[k]['v']) > tol or abs(E[k]['spillv'] - W[k]['spillv']) > tol for k in W):
                o.bad('again', '%s: repeated calculation differs' % tag)
                break
        o.count('network_again'); o.count('other_event', any(abs(X[k]['v'] - R[k]['v']) > tol for k in R))
        o.count('max_depth', len(feats) if case['shape'] == 'chain' else 0)
        o.case(any(p['spillv'] > 0 and p['dstrnodeid'] is not None for p in R.values()), json.dumps(feats), t)
