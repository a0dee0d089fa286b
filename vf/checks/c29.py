"""C29: options decide what they name, scenarios in one data source do not mix"""
import hashlib, json, logging, os, shutil
import numpy as np
from osgeo import ogr, osr
from vf import gen, orc, pipe, cli
from vf.core import call, RepoError

RULE = ('terrain x every vector command with relative, linked and absolute paths of many forms, with each optional option left out or given (layer names of many forms, attributes, unit, format, pour point source, outputs), input data sources in 3 formats which hold other layers of the same kind under '
        'the default name and before and after the named one, output into a new data source, a used one, or the one read; several rain events in random order and interleaved in one data source, each kept under layers or attributes of its own; '
        'complete with and without -accum, -vector, -filter and with every verbosity; non-trivial: at least one bluespot; distinct by terrain, command and options')
# command: ([(data source option, layer option, documented default, kind)], [(output layer option, documented default, kind)])
CMDS = dict(
    pourpts=([], [('-layername', 'pourpoints', 'pourpoints')]),
    polys=([], [('-layername', 'polygonized', 'polys')]),
    network=([('-pourpoints', '-pourpoints_layer', 'pourpoints', 'pourpoints')], [('-out_nodes_layer', 'nodes', 'nodes'), ('-out_streams_layer', 'streams', 'streams')]),
    initvolumes=([('-nodes', '-nodes_layer', 'nodes', 'nodes')], [('-out_layer', 'initvolumes', 'initvolumes')]),
    initvolumes_pr=([('-nodes', '-nodes_layer', 'nodes', 'nodes')], [('-out_layer', 'initvolumes', 'initpr')]),
    finalvolumes=([('-inputvolumes', '-inputvolumes_layer', 'initvolumes', 'initvolumes')], [('-out_layer', 'finalvolumes', 'finalvolumes')]),
    hyps=([('-pourpoints', '-pourpoints_layer', 'pourpoints', 'pourpoints')], [('-out_hyps_layer', 'hyps', 'hyps')]),
    finallevels=([('-finalvols', '-finalvols_layer', 'finalvolumes', 'finalvolumes'), ('-hyps', '-hyps_layer', 'hyps', 'hyps')], [('-out_layer', 'finallevels', 'finallevels')]),
    finalbluespots=([('-finallevels', '-finallevels_layer', 'finallevels', 'finallevels')], []))
NAMES = ['mine', 'Nodes_2', 'event 20mm', 'x', 'layer_with_a_rather_long_name_of_more_than_thirty_characters', 'T100_+1', 'æøå', 'nodes2', 'final-volumes', '20mm']
PLACES = ['', 'with space ', 'blå bær ', "it's ", 'a#b', '50%20 ', 'a&b', 'x;y', 'p(1)', 'dot.tif.', 'æ\u030a\u2602', 'UPPER', '-dash', '~t', 'a,b', 'q?', 'gpkg=']
VERB = ['CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG']
MUST_OBSERVE = ['c_' + c for c in CMDS] + ['left_out:%s %s' % (c, x[1]) for c in CMDS for x in CMDS[c][0]] + ['given:%s %s' % (c, x[1]) for c in CMDS for x in CMDS[c][0]] + \
    ['left_out:%s %s' % (c, x[0]) for c in CMDS for x in CMDS[c][1]] + ['given:%s %s' % (c, x[0]) for c in CMDS for x in CMDS[c][1]] + \
    ['decoys', 'decoy_under_default', 'same_source', 'used_source', 'new_source', 'untouched_layers', 'attribute_given', 'attribute_left_out', 'other_attributes', 'own_attributes', 'unit_left_out', 'events', 'event_layers', 'event_attributes', 'interleaved',
     'one_output', 'with_accum', 'with_vector', 'with_filter', 'p_absolute', 'p_relative', 'p_link', 'p_complete'] + ['v_' + v for v in VERB]
MIN_EVENTS = 300
CPU_LIMIT = 90


def cases(seed, tier):
    rng = np.random.default_rng([seed, 129])
    n = 120 if tier == 'quick' else 4000
    out = []
    for i in range(n):
        t = ['options', 'options', 'events', 'complete'][i % 4]
        p = pipe.params(rng, 1, mode='chain', mm=float(rng.choice([0, 1, 5, 20, 100, 12.34])), kinds=['pits', 'smoothq', 'quant', 'bumps', 'noise'] if 'bumps' in gen.NAMES and rng.random() < .6 else None)
        p['native'] = True
        p['t'] = t
        p['first'] = i
        if rng.random() < .8:
            p['filt'] = 0
        out.append(p)
    return out


def feats(path, name):
    return cli.read_layer(path, name)['feats']


def geom(g):
    # 15 digits in the writer's exchange format, cell centres have fewer
    return '' if not g else g['type'] + ' ' + ' '.join('%.13g %.13g' % tuple(c[:2]) for c in g['coordinates']) if 'POLY' not in g['type'].upper() else json.dumps(g)


def canon(fs, skip=()):
    """Comparable form of a layer"""
    return sorted([(sorted((n.lower(), v if not isinstance(v, float) or v == v else 'nan') for n, v in f['props'].items() if n.lower() not in skip and n.lower() not in ('ogc_fid', 'fid')), geom(f['geom'])) for f in fs], key=repr)


def digest(fs):
    return hashlib.blake2b(repr(canon(fs)).encode(), digest_size=12).hexdigest()


def snapshot(path):
    if not os.path.exists(path):
        return {}
    return {n: digest(feats(path, n)) for n in cli.layers(path)}


def store(path, fmt, layers):
    """Writes layers [(name, feats)] with OGR"""
    drv = ogr.GetDriverByName(fmt)
    ds = ogr.Open(path, 1) if os.path.exists(path) else drv.CreateDataSource(path)
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(25832)
    for name, (fields, fs) in layers:
        gt = ogr.wkbNone
        for f in fs:
            if f['geom']:
                gt = {'POINT': ogr.wkbPoint, 'LINESTRING': ogr.wkbLineString}[f['geom']['type'].upper()]
        opt = ['LAUNDER=NO'] if fmt == 'SQLite' else []
        l = ds.CreateLayer(name, srs, gt, opt)
        for n, t in fields:
            l.CreateField(ogr.FieldDefn(n, t))
        l.StartTransaction()
        for f in fs:
            x = ogr.Feature(l.GetLayerDefn())
            for j, (n, t) in enumerate(fields):
                v = f['props'].get(n)
                if v is None:
                    x.SetFieldNull(j)
                else:
                    x.SetField(j, v)
            if f['geom']:
                c = f['geom']['coordinates']
                g = ogr.Geometry(gt)
                for q in c:
                    g.AddPoint_2D(*q[:2])
                x.SetGeometry(g)
            l.CreateFeature(x)
        l.CommitTransaction()
        l = None
    ds = None


def fields_of(fs):
    out = {}
    for f in fs:
        for n, v in f['props'].items():
            if n.lower() in ('ogc_fid', 'fid'):
                continue
            t = {int: ogr.OFTInteger64, float: ogr.OFTReal, str: ogr.OFTString}.get(type(v))
            if t is not None:
                if out.get(n) is None or (out[n] == ogr.OFTInteger64 and t == ogr.OFTReal):
                    out[n] = t
            else:
                out.setdefault(n, None)
    return [(n, ogr.OFTInteger if t is None else t) for n, t in out.items()]


def layer(fs):
    return fields_of(fs), fs


def decoy(rng, fs, kind):
    """A layer of the same kind which gives other results"""
    out = json.loads(json.dumps(fs))
    for f in out:
        p = f['props']
        for n in ('wshed_area', 'bspot_vol', 'inputv', 'v', 'bspot_dmax', 'approx_z'):
            if p.get(n) is not None:
                p[n] = float(p[n]) * 1.5 + 7.25
        if kind == 'pourpoints' and p.get('bspot_id') is not None:
            p['bspot_area'] = p['bspot_area'] + 11
    if kind in ('pourpoints', 'nodes', 'initvolumes', 'finalvolumes') and rng.random() < .3:
        out = out[::-1]
    return out


class Base:
    """A chain with every option given, into data sources with one layer each"""
    def __init__(self, case, d):
        self.case = case
        self.stored, self.z, nd = pipe.make_dem(case)
        self.gt = pipe.GTS[case['gt']]
        self.d = os.path.join(d, 'base')
        os.makedirs(self.d)
        self.dem = os.path.join(self.d, 'dem.tif')
        cli.write_tif(self.dem, self.stored, gt=self.gt, nodata=nd)
        self.names = dict(pourpoints='b1', nodes='b2', streams='b3', initvolumes='b4', finalvolumes='b5', hyps='b6', finallevels='b7', polys='b8')
        self.out = cli.chain(self.dem, self.d, mm=case['mm'], res=case['res'], filt=pipe.filt(case), accum=False, fmt='gpkg', single=False, names=self.names)
        g = lambda k: feats(*self.out[k])
        self.L = dict(pourpoints=g('L_pourpoints'), nodes=g('L_nodes'), streams=g('L_streams'), initvolumes=g('L_initvolumes'), finalvolumes=g('L_finalstate'), hyps=g('L_hypsometry'), finallevels=g('L_finallevels'),
                      polys=g('L_finalbluespots'))
        self.rng = np.random.default_rng([case['seed'], 9])

    def P(self, n):
        return os.path.join(self.d, n)

    def rain(self):
        p = self.P('rain.tif')
        if not os.path.exists(p):
            self.pr = self.rng.integers(0, 80, self.z.shape).astype('f4') / 2
            cli.write_tif(p, self.pr, gt=self.gt)
        return p


def others(o, tag, path, before, mine):
    """All layers but those just written are as they were"""
    after = snapshot(path)
    want = set(before) | set(mine)
    low = lambda s: sorted(x.lower() for x in s)
    if low(after) != low(want):
        o.bad('layers', '%s: layers %s expected, found %s' % (tag, sorted(want), sorted(after)))
    for n, h in before.items():
        if n in after and n not in mine and after[n] != h:
            o.bad('other-layer', '%s: layer %s of the output data source has changed' % (tag, n))
    o.count('untouched_layers', len(before))
    return after


def same(o, mech, tag, got, want, skip=()):
    a, b = canon(got, skip), canon(want, skip)
    if a != b:
        if len(a) != len(b):
            o.bad(mech, '%s: %d features, expected %d' % (tag, len(a), len(b)))
            return
        i = [x != y for x, y in zip(a, b)].index(True)
        x = [q for q in a[i][0] if q not in b[i][0]][:3]; y = [q for q in b[i][0] if q not in a[i][0]][:3]
        o.bad(mech, '%s: record %d has %s, expected %s' % (tag, i, x or a[i][1][:80], y or b[i][1][:80]))


def form(o, rng, args, d, sub):
    """Arguments with paths in one of several forms, and the working directory"""
    how = int(rng.integers(5))
    if not how:
        o.count('p_absolute')
        return args, None
    cwd = [sub, d, os.path.join(d, 'base'), sub][how - 1]

    def rel(a):
        if not isinstance(a, str) or not a.startswith(d + os.sep):
            return a
        r = os.path.relpath(a, cwd)
        if how == 4:
            # through a link to the directory
            l = os.path.join(d, 'link%d' % int(hashlib.md5(os.path.dirname(a).encode()).hexdigest()[:6], 16))
            if not os.path.islink(l):
                os.symlink(os.path.dirname(a), l)
            return os.path.join(l, os.path.basename(a))
        # a name starting with a dash would be an option
        return os.path.join('.', r) if rng.random() < .4 or r.startswith('-') else r
    o.count('p_link' if how == 4 else 'p_relative')
    return [rel(a) for a in args], cwd


def options(case, o, d):
    b = Base(case, d)
    rng = b.rng
    nb = int(cli.arr(b.out['bluespots']).max())
    todo = list(CMDS)
    want_level = {}
    for rep in range(2):
        for ci, c in enumerate(todo):
            ins, outs = CMDS[c]
            bits = (case['first'] // 4 * 2 + case['first'] % 2) * 2 + rep
            fmt = str(rng.choice(['gpkg', 'gpkg', 'SQLite']))
            sub = os.path.join(d, '%s%s%d' % (PLACES[int(rng.integers(len(PLACES)))], c, rep))
            os.makedirs(sub)
            args = [c.split('_')[0]]
            used = set()
            place = os.path.join(sub, 'in.' + cli.EXT[fmt])
            inputs, carried = [], {}
            for j, (do, lo, default, kind) in enumerate(ins):
                left = (bits >> j) % 2 == 0
                name = default if left else str(rng.choice([n for n in NAMES if n.lower() not in used]))
                used.add(name.lower())
                content = b.L[kind]
                extra = {}
                if kind in ('nodes', 'initvolumes', 'finalvolumes') and rng.random() < .6:
                    # attributes of the user's own, or of earlier events
                    extra = dict(remark='n%d' % rep, inflow=2.5, count_=7)
                    if kind == 'nodes':
                        extra['inputv'] = 4.125
                    elif kind == 'initvolumes':
                        extra['input_10'] = 1.5
                    content = [dict(f, props=dict(f['props'], **extra)) for f in content]
                    o.count('own_attributes')
                carried.update(extra)
                ls = [(name, layer(content))]
                dec = [n for n in ['aaa_' + kind, 'zzz_' + kind] if rng.random() < .6]
                if not left and default not in used:
                    dec.append(default)
                    o.count('decoy_under_default')
                for n in dec:
                    x = (n, layer(decoy(rng, b.L[kind], kind)))
                    used.add(n.lower())
                    if n.startswith('zzz') or rng.random() < .3:
                        ls.append(x)
                    else:
                        ls.insert(0, x)
                    o.count('decoys')
                path = place if rng.random() < .7 else os.path.join(sub, 'in%d.%s' % (j, cli.EXT[fmt]))
                store(path, fmt, ls)
                args += [do, path] + ([] if left else [lo, name])
                o.count(('left_out:%s %s' if left else 'given:%s %s') % (c, lo))
                inputs.append(path)
            attr = None
            if c == 'finalvolumes' and rng.random() < .6:
                # the volumes under another name, and others under the usual one
                attr = str(rng.choice(['rain20', 'inputv_2', 'INP', 'v0'])) if fmt != 'SQLite' else 'rain20'
                ds = ogr.Open(inputs[0], 1)
                l = ds.GetLayerByName(name)
                l.CreateField(ogr.FieldDefn(attr, ogr.OFTReal))
                l.StartTransaction()
                for f in l:
                    f.SetField(attr, f.GetField('inputv'))
                    f.SetField('inputv', f.GetField('inputv') * .5 + 3)
                    l.SetFeature(f)
                l.CommitTransaction()
                l = ds = None
                args += [str(rng.choice(['-a', '--attribute'])), attr]
                o.count('attribute_given')
            elif c == 'finalvolumes':
                o.count('attribute_left_out')
            if c == 'pourpts':
                args += ['-bluespots', b.out['bluespots'], '-depths', b.out['depths'], '-watersheds', b.out['watersheds'], '-dem', b.dem]
            elif c == 'polys':
                args += ['-raster', b.out['finalbluespots']]
            elif c == 'network':
                args += ['-bluespots', b.out['bluespots'], '-flowdir', b.out['flowdir']]
            elif c == 'hyps':
                args += ['-bluespots', b.out['bluespots'], '-dem', b.dem, '-zresolution', case['res']]
            oattr = 'inputv'
            if c.startswith('initvolumes'):
                if rng.random() < .5:
                    oattr = str(rng.choice(['rain20', 'q', 'input_30', 'V in'])) if fmt != 'SQLite' else 'input_30'
                    args += ['-out_attribute', oattr]
                    o.count('attribute_given')
                else:
                    o.count('attribute_left_out')
                if c == 'initvolumes':
                    args += ['-mm', case['mm']]
                else:
                    args += ['-pr', b.rain(), '-bluespots', b.out['watersheds']]
                    if bits % 2:
                        args += ['-pr_unit', 'mm']
                    else:
                        o.count('unit_left_out')
            # where to
            if c == 'finalbluespots':
                both = rng.random() < .4
                one = int(rng.integers(2))
                od, ob = os.path.join(sub, 'd.tif'), os.path.join(sub, 'b.tif')
                args += ['-bluespots', b.out['bluespots'], '-dem', b.dem] + (['-out_depths', od] if both or one else []) + (['-out_bluespots', ob] if both or not one else [])
                before = snapshot(inputs[0])
                cli.ok(*form(o, rng, args, d, sub))
                tag = ' '.join(str(a) for a in args)[:300]
                for p, k, there in ((od, 'finaldepths', both or one), (ob, 'finalbluespots', both or not one)):
                    if bool(there) != os.path.exists(p):
                        o.bad('outputs', '%s: %s %s' % (tag, os.path.basename(p), 'is missing' if there else 'written without being asked for'))
                    elif there and not np.array_equal(cli.arr(p), cli.arr(b.out[k])):
                        o.bad('result:' + c, '%s: %s differs from the one of a run with the same levels' % (tag, k))
                others(o, tag, inputs[0], before, [])
                o.count('one_output', not both)
                o.count('c_' + c); o.event()
                continue
            k = int(rng.integers(3))
            if k == 0 and inputs:
                dst = inputs[0]
                o.count('same_source')
            else:
                dst = os.path.join(sub, 'out.' + cli.EXT[fmt])
                if k == 1:
                    store(dst, fmt, [('first', layer(b.L['nodes'])), ('other', layer(decoy(rng, b.L['pourpoints'], 'pourpoints')))])
                    used |= {'first', 'other'}
                    o.count('used_source')
                else:
                    o.count('new_source')
            before = snapshot(dst)
            mine = []
            taken = {x.lower() for x in before}
            for j, (lo, default, kind) in enumerate(outs):
                left = (bits >> (j + 1)) % 2 == 0 and default.lower() not in taken
                name = default if left else str(rng.choice([n for n in NAMES if n.lower() not in taken]))
                if fmt == 'SQLite':
                    name = name if left else str(rng.choice([n for n in ('mine', 'x', 'nodes2', 't100') if n not in taken]))
                taken.add(name.lower())
                mine.append((name, kind))
                if not left:
                    args += [lo, name]
                o.count(('left_out:%s %s' if left else 'given:%s %s') % (c, lo))
            args += ['-out', dst, '-format', fmt]
            tag = ' '.join(os.path.basename(str(a)) for a in args)[:300]
            cli.ok(*form(o, rng, args, d, sub))
            others(o, tag, dst, before, [n for n, _ in mine])
            for name, kind in mine:
                try:
                    got = feats(dst, name)
                except IOError:
                    o.bad('layers', '%s: no layer %s' % (tag, name))
                    continue
                if kind == 'initpr':
                    w = cli.arr(b.out['watersheds'])
                    ca = abs(b.gt[1] * b.gt[5] - b.gt[2] * b.gt[4])
                    for f in got:
                        p = f['props']
                        want = float(b.pr[w == p['bspot_id']].astype('f8').sum()) * ca * 1e-3 if p['bspot_id'] is not None else 0.0
                        if not orc.close(p.get(oattr, float('nan')), want, 1e-9):
                            o.bad('result:' + c, '%s: %s of node %s is %r, expected %r' % (tag, oattr, p['nodeid'], p.get(oattr), want))
                            break
                    if oattr == 'inputv':
                        carried.pop('inputv', None)
                    same(o, 'copied:' + c, tag, got, [dict(f, props=dict(f['props'], **carried)) for f in b.L['nodes']], (oattr.lower(),))
                    continue
                want = b.L[kind]
                skip = ()
                if kind == 'polys':
                    key = lambda fs: sorted((int(f['props']['bspot_id']), json.dumps(f['geom'])) for f in fs)
                    if key(got) != key(want):
                        o.bad('result:' + c, '%s: polygons differ' % tag)
                    continue
                want = json.loads(json.dumps(want))
                for f in want:
                    p = f['props']
                    if kind == 'initvolumes' and oattr != 'inputv':
                        p[oattr] = p.pop('inputv')
                    for n, v in carried.items():
                        if n != oattr or kind != 'initvolumes':
                            p[n] = v
                    if attr:
                        p[attr] = p['inputv']
                        p['inputv'] = p['inputv'] * .5 + 3
                        o.count('other_attributes')
                if fmt == 'SQLite':
                    launder(want)
                    launder(got)
                same(o, 'result:' + c, tag, got, want)
            o.count('c_' + c); o.event()
    o.case(nb > 0, b.z, 'options', case['first'])
    o.sample = dict(case=case, bluespots=nb)


def launder(fs):
    for f in fs:
        f['props'] = {n.lower().replace(' ', '_'): v for n, v in f['props'].items()}
        if f['geom']:
            f['geom'] = json.loads(json.dumps(f['geom']))


def events(case, o, d):
    """Several rain events in one data source"""
    b = Base(case, d)
    rng = b.rng
    nb = int(cli.arr(b.out['bluespots']).max())
    mms = [float(x) for x in rng.choice([0, 1, 2.5, 5, 10, 20, 50, 100, 333.3], int(rng.integers(2, 5)), replace=False)]
    one = os.path.join(d, 'all.gpkg')
    by_attr = bool(case['first'] % 8 < 4)
    # alone
    alone = {}
    for mm in mms:
        s = os.path.join(d, 'alone%g' % mm)
        os.makedirs(s)
        g = lambda n: os.path.join(s, n + '.gpkg')
        cli.ok(['initvolumes', '-nodes', b.out['L_nodes'][0], '-nodes_layer', 'b2', '-mm', mm, '-out', g('i'), '-out_layer', 'i', '-format', 'gpkg'])
        cli.ok(['finalvolumes', '-inputvolumes', g('i'), '-inputvolumes_layer', 'i', '-out', g('f'), '-out_layer', 'f', '-format', 'gpkg'])
        cli.ok(['finallevels', '-finalvols', g('f'), '-finalvols_layer', 'f', '-hyps', b.out['L_hypsometry'][0], '-hyps_layer', 'b6', '-out', g('l'), '-out_layer', 'l', '-format', 'gpkg'])
        cli.ok(['finalbluespots', '-bluespots', b.out['bluespots'], '-dem', b.dem, '-finallevels', g('l'), '-finallevels_layer', 'l', '-out_depths', os.path.join(s, 'd.tif'), '-out_bluespots', os.path.join(s, 'b.tif')])
        alone[mm] = dict(i=feats(g('i'), 'i'), f=feats(g('f'), 'f'), l=feats(g('l'), 'l'), d=cli.arr(os.path.join(s, 'd.tif')), b=cli.arr(os.path.join(s, 'b.tif')))
    store(one, 'gpkg', [('pourpoints', layer(b.L['pourpoints'])), ('nodes', layer(b.L['nodes'])), ('hyps', layer(b.L['hyps']))])
    state = snapshot(one)
    steps = {}
    src = 'nodes'
    attrs = []
    name = lambda mm, w: ('%s_%g' % (w, mm)).replace('.', '_')
    if by_attr:
        # attributes gathered in one layer after the other
        for mm in mms:
            dst, at = name(mm, 'acc'), name(mm, 'inp')
            cli.ok(['initvolumes', '-nodes', one, '-nodes_layer', src, '-mm', mm, '-out', one, '-out_layer', dst, '-out_attribute', at, '-format', 'gpkg'])
            state = others(o, 'initvolumes %g' % mm, one, state, [dst])
            src = dst
            attrs.append(at)
        fs = feats(one, src)
        for mm, at in zip(mms, attrs):
            for f, w in zip(sorted(fs, key=lambda f: f['props']['nodeid']), sorted(alone[mm]['i'], key=lambda f: f['props']['nodeid'])):
                if f['props']['nodeid'] != w['props']['nodeid'] or f['props'].get(at) != w['props']['inputv']:
                    o.bad('attribute', 'volumes of %g mm gathered under %s: node %s has %r, alone %r' % (mm, at, f['props']['nodeid'], f['props'].get(at), w['props']['inputv']))
                    break
        o.count('event_attributes', len(mms))
    pending = {mm: (['f', 'l', 'r'] if by_attr else ['i', 'f', 'l', 'r']) for mm in mms}
    last = None
    switches = 0
    while any(pending.values()):
        mm = [m for m in mms if pending[m]][int(rng.integers(sum(1 for m in mms if pending[m])))]
        s = pending[mm].pop(0)
        switches += last is not None and last != mm
        last = mm
        tag = '%g mm of %s, step %s' % (mm, mms, s)
        dst = name(mm, s)
        mine = [dst]
        if s == 'i':
            cli.ok(['initvolumes', '-nodes', one, '-mm', mm, '-out', one, '-out_layer', dst, '-format', 'gpkg'])
        elif s == 'f':
            cli.ok(['finalvolumes', '-inputvolumes', one, '-inputvolumes_layer', src if by_attr else name(mm, 'i')] + (['-a', name(mm, 'inp')] if by_attr else []) + ['-out', one, '-out_layer', dst, '-format', 'gpkg'])
        elif s == 'l':
            cli.ok(['finallevels', '-finalvols', one, '-finalvols_layer', name(mm, 'f'), '-hyps', one, '-out', one, '-out_layer', dst, '-format', 'gpkg'])
        else:
            mine = []
            x, y = os.path.join(d, 'd_%g.tif' % mm), os.path.join(d, 'b_%g.tif' % mm)
            cli.ok(['finalbluespots', '-bluespots', b.out['bluespots'], '-dem', b.dem, '-finallevels', one, '-finallevels_layer', name(mm, 'l'), '-out_depths', x, '-out_bluespots', y])
            if not np.array_equal(cli.arr(x), alone[mm]['d']) or not np.array_equal(cli.arr(y), alone[mm]['b']):
                o.bad('event:rasters', '%s: final depths or bluespots differ from those of the event alone' % tag)
        state = others(o, tag, one, state, mine)
        if mine:
            got, want = feats(one, dst), alone[mm][s]
            if by_attr:
                for f in got:
                    for a in attrs:
                        f['props'].pop(a, None)
                same(o, 'event:' + s, tag, got, want, ('inputv',))
            else:
                same(o, 'event:' + s, tag, got, want)
        o.count('events')
    o.count('interleaved', switches)
    o.count('event_layers', 0 if by_attr else len(mms))
    o.case(nb > 0, b.z, mms, by_attr)
    o.sample = dict(case=case, bluespots=nb, mm=mms)


def complete(case, o, d):
    stored, z, nd = pipe.make_dem(case)
    gt = pipe.GTS[case['gt']]
    dem = os.path.join(d, 'dem.tif')
    cli.write_tif(dem, stored, gt=gt, nodata=nd)
    rng = np.random.default_rng([case['seed'], 5])
    filt = pipe.filt(case)
    acc = bool(rng.random() < .5)
    k = 0

    def run(acc, vec, filt, verb=None, order=0, place=None):
        nonlocal k
        k += 1
        out = os.path.join(d, '%so%d' % (place or '', k))
        os.makedirs(out)
        src, dst, cwd = dem, out, None
        if place is not None:
            src = os.path.join(d, place + '.tif')
            cli.write_tif(src, stored, gt=gt, nodata=nd)
            dst = out + os.sep * int(rng.integers(3))
            if rng.random() < .5:
                cwd = [d, out, os.path.join(d, 'w')][int(rng.integers(3))]
                os.makedirs(cwd, exist_ok=True)
                src, dst = os.path.join('.', os.path.relpath(src, cwd)), os.path.join('.', os.path.relpath(dst, cwd))
            o.count('p_complete')
        a = ['-dem', src], ['-outdir', dst], ['-mm', case['mm']], ['-zresolution', case['res']], ['-filter', filt] if filt else [], ['-accum'] if acc else [], ['-vector'] if vec else [], ['-v', verb] if verb else []
        a = list(a)
        if order:
            rng.shuffle(a)
        root = logging.getLogger()
        level = root.level
        # the worker has logging disabled
        logging.disable(logging.NOTSET if verb else logging.CRITICAL)
        try:
            cli.ok(['complete'] + [y for x in a for y in x], cwd)
        finally:
            logging.disable(logging.CRITICAL)
            root.setLevel(level)
        files = sorted(os.listdir(out))
        want = sorted(['malstroem.gpkg'] + [f for n, f in cli.RASTERS.items() if n != 'accum' or acc])
        if files != want:
            o.bad('outputs', 'complete %s: files %s, expected %s' % (' '.join(str(y) for x in a for y in x if x and y not in (dem, out)), files, want))
        g = os.path.join(out, 'malstroem.gpkg')
        ls = sorted(cli.layers(g))
        want = sorted(l for l in cli.LAYERS if vec or l not in ('bluespots', 'watersheds'))
        if ls != want:
            o.bad('outputs', 'complete: layers %s, expected %s' % (ls, want))
        return cli.load_complete(out, acc, vec)

    def compare(tag, x, y, only=None):
        for n in (only or set(x) & set(y)):
            if n not in x or n not in y:
                continue
            if n.startswith('L_'):
                same(o, 'flag:' + n, tag, x[n]['feats'], y[n]['feats'])
            elif not np.array_equal(x[n]['a'], y[n]['a'], equal_nan=x[n]['a'].dtype.kind == 'f') or x[n]['nodata'] != y[n]['nodata'] or x[n]['type'] != y[n]['type']:
                o.bad('flag:' + n, '%s: %s differs' % (tag, n))

    base = run(acc, False, filt)
    nb = int(base['bluespots']['a'].max())
    compare('complete with -vector', run(acc, True, filt, order=1), base)
    o.count('with_vector')
    compare('complete with other paths', run(acc, False, filt, place=PLACES[1 + case['first'] // 4 % (len(PLACES) - 1)]), base)
    terr = ['filled', 'flowdir', 'depths', 'bluespots', 'watersheds']
    compare('complete with %s -accum' % ('out' if acc else ''), run(not acc, False, filt), base, terr)
    o.count('with_accum')
    v = VERB[case['first'] // 4 % 5]
    compare('complete with -v ' + v, run(acc, False, filt, verb=v, order=1), base)
    o.count('v_' + v)
    if filt:
        compare('complete without -filter', run(acc, False, None), base, ['filled', 'flowdir', 'depths'])
    else:
        compare('complete with a filter every bluespot passes', run(acc, False, str(rng.choice(['area > 0', 'area>0 or volume > 5', 'volume>=0 and maxdepth>=0', '(area < 0 or maxdepth > 0)']))), base)
    o.count('with_filter')
    o.case(nb > 0, z, filt, acc, v)
    o.sample = dict(case=case, bluespots=nb)


def run_case(case, o, d):
    dict(options=options, events=events, complete=complete)[case['t']](case, o, d)
