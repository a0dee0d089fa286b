"""C23: inputs stay as they are, used output directories are refused"""
import os, shutil, stat
import numpy as np
from osgeo import gdal, ogr
from vf import gen, orc, pipe, cli, ref
from vf.core import call, RepoError
from vf.checks import c18

RULE = ('chains of all 15 commands (DEMs in 6 formats and types, vector inputs in gpkg, GeoJSON, SQLite) with a digest of every file present before and after each command, each command run twice and the outputs compared; scenario sequences '
        'over shared inputs; complete into directories with 22 kinds of content; public functions with arrays of 9 types and 6 layouts compared bytewise before and after; non-trivial: terrain with bluespots, or more than one distinct value; distinct by input')
CMDS = ['filled', 'depths', 'flowdir', 'accum', 'bspots', 'wsheds', 'pourpts', 'polys', 'network', 'initvolumes', 'initvolumes_pr', 'finalvolumes', 'hyps', 'finallevels', 'finalbluespots', 'complete']
CONTENT = ['file', 'hidden', 'subdir', 'hidden_dir', 'link', 'dangling', 'previous', 'failed_run', 'empty_file', 'unicode', 'output_name', 'gpkg', 'fifo', 'many', 'dem_inside', 'missing', 'missing_parent', 'is_file', 'is_dangling', 'link_to_used', 'dot', 'trailing_slash']
FUNCS = c18.FUNCS + ['keep', 'count', 'setvalue', 'components', 'maxindex', 'increments', 'upstream', 'network', 'geonetwork', 'trace_down', 'hypso', 'approx', 'writer']
MUST_OBSERVE = ['c_' + c for c in CMDS] + ['o_' + c for c in CONTENT] + ['f_' + f for f in FUNCS] + ['rerun', 'scenario', 'accepted', 'view', 'fortran', 'shared_gpkg']
MIN_EVENTS = 800
CPU_LIMIT = 90


def cases(seed, tier):
    n = 66 if tier == 'quick' else 2500
    out = []
    for i in range(n):
        out.append(dict(t='chain', seed=seed * 1000003 + i))
        out.append(dict(t='outdir', seed=seed * 1000003 + i, content=CONTENT[i % len(CONTENT)]))
        out += [dict(t='arrays', seed=seed * 1000003 + i * 3 + k, f=FUNCS[(i * 3 + k) % len(FUNCS)]) for k in range(3)]
        if i % 3 == 0:
            out.append(dict(t='scenario', seed=seed * 1000003 + i))
    return out


def run_case(case, o, d):
    dict(chain=chain, outdir=outdir, arrays=arrays, scenario=scenario)[case['t']](case, o, d)


def dem_file(rng, d, small=False):
    """A DEM in one of several formats"""
    z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=[int(x) for x in rng.integers(5, 18 if small else 30, 2)], scale='unit'))
    how = int(rng.integers(7))
    if how == 0:
        return z, cli.write_tif(os.path.join(d, 'dem.tif'), z)
    if how == 1:
        m = rng.random(z.shape) < .1
        return z, cli.write_tif(os.path.join(d, 'dem.tif'), np.where(m, -9999, z).astype('f4'), nodata=-9999.0)
    if how == 2:
        return z, cli.write_tif(os.path.join(d, 'dem.tif'), np.round(z * 4).astype('i2'), nodata=-32768)
    if how == 3:
        return z, cli.write_tif(os.path.join(d, 'dem.asc'), z, driver='AAIGrid')
    if how == 4:
        return z, cli.write_tif(os.path.join(d, 'dem.img'), z.astype('f8'), driver='HFA')
    if how == 5:
        return z, cli.write_tif(os.path.join(d, 'dem.bil'), z, driver='ENVI')
    return z, cli.write_tif(os.path.join(d, 'dem.tif'), z, opts=['TILED=YES', 'COMPRESS=LZW'])


def steps(d, dem, fmt, mm, res, filt):
    """(name, arguments for outputs named by q, outputs) of every command"""
    P = lambda n: os.path.join(d, n)
    x = {'gpkg': 'gpkg', 'GeoJSON': 'geojson', 'SQLite': 'sqlite'}[fmt]
    V = lambda n: P('v_%s.%s' % (n, x))
    F = ['-format', fmt]
    return [
        ('filled', lambda q: ['-dem', dem, '-out', q('filled.tif')], ['filled.tif']),
        ('depths', lambda q: ['-dem', dem, '-filled', P('filled.tif'), '-out', q('depths.tif')], ['depths.tif']),
        ('flowdir', lambda q: ['-dem', dem, '-out', q('flowdir.tif')], ['flowdir.tif']),
        ('accum', lambda q: ['-flowdir', P('flowdir.tif'), '-out', q('accum.tif')], ['accum.tif']),
        ('bspots', lambda q: ['-depths', P('depths.tif'), '-out', q('bluespots.tif')] + (['-filter', filt] if filt else []), ['bluespots.tif']),
        ('wsheds', lambda q: ['-bluespots', P('bluespots.tif'), '-flowdir', P('flowdir.tif'), '-out', q('wsheds.tif')], ['wsheds.tif']),
        ('pourpts', lambda q: ['-bluespots', P('bluespots.tif'), '-depths', P('depths.tif'), '-watersheds', P('wsheds.tif')] + (['-dem', dem] if mm > 10 else ['-accum', P('accum.tif')]) +
         ['-out', q('v_pp.' + x), '-layername', 'pp'] + F, [('v_pp.' + x, 'pp')]),
        ('polys', lambda q: ['-raster', P('wsheds.tif'), '-out', q('v_poly.' + x), '-layername', 'poly'] + F, [('v_poly.' + x, 'poly')]),
        ('network', lambda q: ['-bluespots', P('bluespots.tif'), '-flowdir', P('flowdir.tif'), '-pourpoints', V('pp'), '-pourpoints_layer', 'pp', '-out', q('v_net.gpkg'), '-out_nodes_layer', 'nodes',
                               '-out_streams_layer', 'streams', '-format', 'gpkg'], [('v_net.gpkg', 'nodes'), ('v_net.gpkg', 'streams')]),
        ('initvolumes', lambda q: ['-nodes', P('v_net.gpkg'), '-nodes_layer', 'nodes', '-mm', mm, '-out', q('v_iv.' + x), '-out_layer', 'iv'] + F, [('v_iv.' + x, 'iv')]),
        ('initvolumes_pr', lambda q: ['-nodes', P('v_net.gpkg'), '-nodes_layer', 'nodes', '-bluespots', P('wsheds.tif'), '-pr', P('rain.tif'), '-pr_unit', 'mm', '-out', q('v_ip.' + x), '-out_layer', 'ip'] + F,
         [('v_ip.' + x, 'ip')]),
        ('finalvolumes', lambda q: ['-inputvolumes', V('iv'), '-inputvolumes_layer', 'iv', '-out', q('v_fv.' + x), '-out_layer', 'fv'] + F, [('v_fv.' + x, 'fv')]),
        ('hyps', lambda q: ['-bluespots', P('bluespots.tif'), '-dem', dem, '-pourpoints', V('pp'), '-pourpoints_layer', 'pp', '-zresolution', res, '-out', q('v_hy.' + x), '-out_hyps_layer', 'hy'] + F,
         [('v_hy.' + x, 'hy')]),
        ('finallevels', lambda q: ['-finalvols', V('fv'), '-finalvols_layer', 'fv', '-hyps', V('hy'), '-hyps_layer', 'hy', '-out', q('v_lv.' + x), '-out_layer', 'lv'] + F, [('v_lv.' + x, 'lv')]),
        ('finalbluespots', lambda q: ['-bluespots', P('bluespots.tif'), '-dem', dem, '-finallevels', V('lv'), '-finallevels_layer', 'lv', '-out_depths', q('fdepths.tif'), '-out_bluespots', q('fbs.tif')],
         ['fdepths.tif', 'fbs.tif']),
        ('complete', lambda q: ['-dem', dem, '-outdir', q('outdir'), '-mm', mm, '-zresolution', res, '-accum', '-vector'] + (['-filter', filt] if filt else []), ['outdir'])]


def content(path):
    """What an output holds"""
    if isinstance(path, tuple):
        return content_of(cli.read_layer(*path))
    if os.path.isdir(path):
        return {k: content_of(v) for k, v in cli.load_complete(path, True, True).items()}
    return content_of(cli.read_tif(path))


def content_of(x):
    if 'a' in x:
        return repr((x['a'].tobytes(), x['a'].dtype.str, x['a'].shape, x['gt'], x['wkt'], x['nodata']))
    return repr((x['fields'], [(f['props'], f['geom']) for f in x['feats']], x['crs']))


def join(base, out):
    return (os.path.join(base, out[0]), out[1]) if isinstance(out, tuple) else os.path.join(base, out)


def chain(case, o, d):
    rng = np.random.default_rng([case['seed'], 231])
    z, dem = dem_file(rng, d)
    fmt = str(rng.choice(['gpkg', 'GeoJSON', 'gpkg', 'SQLite']))
    mm, res = float(rng.choice([0, 5, 20, 100])), float(rng.choice([.1, .5]))
    filt = pipe.FILTERS[int(rng.integers(len(pipe.FILTERS)))]
    cli.write_tif(os.path.join(d, 'rain.tif'), (rng.random(z.shape) * 50).astype(str(rng.choice(['f4', 'f8']))))
    again = os.path.join(d, 'again')
    for name, args, outs in steps(d, dem, fmt, mm, res, filt):
        os.makedirs(again)
        if name == 'complete':
            os.makedirs(os.path.join(d, 'outdir'))
            os.makedirs(os.path.join(again, 'outdir'))
        cmd = name.split('_')[0]
        before = cli.tree_digest(d)
        cli.ok([cmd] + args(lambda n: os.path.join(d, n)))
        check(o, before, d, name, '%s %s' % (name, fmt))
        mid = cli.tree_digest(d)
        cli.ok([cmd] + args(lambda n: os.path.join(again, n)))
        check(o, mid, d, name, '%s %s, second run' % (name, fmt))
        for q in outs:
            a, b = content(join(d, q)), content(join(again, q))
            if a != b:
                k = '' if isinstance(a, str) else str([k for k in a if a[k] != b.get(k)])
                o.bad('rerun:' + name, '%s: output %s %s of a second run on the same inputs differs' % (name, q, k))
            o.count('rerun')
            o.event()
        shutil.rmtree(again)
        o.count('c_' + name)
    o.case(True, 'chain', z, fmt, mm)
    o.sample = 'chain on %s, %s' % (os.path.basename(dem), fmt)


def check(o, before, d, name, tag):
    after = cli.tree_digest(d)
    for k, v in before.items():
        if after.get(k) != v:
            o.bad('changed:' + name, '%s changes %s (%s)' % (tag, k, 'missing' if k not in after else 'other content or mode'))
    o.count('digests', len(before))


def scenario(case, o, d):
    """Different rain events computed from the same layers; the results do not depend on what was computed before"""
    from vf.checks.c21 import snapshot
    rng = np.random.default_rng([case['seed'], 232])
    z, dem = dem_file(rng, d, True)
    shared = bool(rng.random() < .5)
    cli.chain(dem, d)
    v = os.path.join(d, 'vec.gpkg')
    events = [float(x) for x in rng.choice([0, 1, 5, 20, 100, 300], 3, replace=False)]
    order = [0, 1, 2, 0]

    def event(k, out, tag):
        a, b, c = ['%s_%s_%s' % (x, tag, k) for x in ('iv', 'fv', 'lv')] if out == v else ('iv', 'fv', 'lv')
        cli.ok(['initvolumes', '-nodes', v, '-nodes_layer', 'nodes', '-mm', events[k], '-out', out, '-out_layer', a, '-format', 'gpkg'])
        cli.ok(['finalvolumes', '-inputvolumes', out, '-inputvolumes_layer', a, '-out', out, '-out_layer', b, '-format', 'gpkg'])
        cli.ok(['finallevels', '-finalvols', out, '-finalvols_layer', b, '-hyps', v, '-hyps_layer', 'hyps', '-out', out, '-out_layer', c, '-format', 'gpkg'])
        return [repr([(f['props'], f['geom']) for f in cli.read_layer(out, n)['feats']]) for n in (a, b, c)]
    alone = [event(k, os.path.join(d, 'alone%d.gpkg' % k), '') for k in range(3)]
    for i, k in enumerate(order):
        files = cli.tree_digest(d)
        lay = snapshot(v)
        out = v if shared else os.path.join(d, 'seq%d.gpkg' % i)
        got = event(k, out, 's%d' % i)
        if got != alone[k]:
            o.bad('history', 'event of %s mm computed as number %d of a sequence differs from the same event computed alone' % (events[k], i))
        after = cli.tree_digest(d)
        for f, x in files.items():
            if after.get(f) != x and not (shared and f == 'vec.gpkg'):
                o.bad('changed:scenario', 'scenario changes %s' % f)
        if shared:
            now = snapshot(v)
            for n, x in lay.items():
                if now.get(n) != x:
                    o.bad('changed:layer', 'scenario changes layer %s of the shared data source' % n)
            o.count('shared_gpkg')
        o.count('scenario')
        o.event()
    o.case(True, 'scenario', z, tuple(events))


def outdir(case, o, d):
    rng = np.random.default_rng([case['seed'], 233])
    c = case['content']
    z, dem = dem_file(rng, d, True)
    w = os.path.join(d, 'w')
    os.makedirs(w)
    out = os.path.join(w, 'out')
    cwd = None
    given = out
    if c not in ('missing', 'missing_parent', 'is_file', 'is_dangling', 'link_to_used'):
        os.makedirs(out)

    def put(n, t='content'):
        with open(os.path.join(out, n), 'w') as f:
            f.write(t)
    if c == 'file':
        put('notes.txt')
    elif c == 'hidden':
        put('.hidden')
    elif c == 'subdir':
        os.makedirs(os.path.join(out, 'sub'))
    elif c == 'hidden_dir':
        os.makedirs(os.path.join(out, '.git'))
    elif c == 'link':
        os.symlink(dem, os.path.join(out, 'filled.tif'))
    elif c == 'dangling':
        os.symlink(os.path.join(d, 'nowhere', 'at', 'all'), os.path.join(out, 'x'))
    elif c == 'previous':
        cli.ok(cli.complete_args(dem, out))
    elif c == 'failed_run':
        # a run which ended early
        cli.run(cli.complete_args(os.path.join(d, 'no_such_dem.tif'), out))
        put('filled.tif', '')
    elif c == 'empty_file':
        put('x', '')
    elif c == 'unicode':
        put('blåbær ☂')
    elif c == 'output_name':
        put(str(rng.choice(['filled.tif', 'malstroem.gpkg', 'finalbluespots.tif', 'flowdir.tif', 'accum.tif'])))
    elif c == 'gpkg':
        ds = ogr.GetDriverByName('gpkg').CreateDataSource(os.path.join(out, 'malstroem.gpkg'))
        ds.CreateLayer('mine', None, ogr.wkbNone)
        ds = None
    elif c == 'fifo':
        os.mkfifo(os.path.join(out, 'pipe'))
    elif c == 'many':
        for k in range(50):
            put('f%d' % k)
    elif c == 'dem_inside':
        for f in os.listdir(d):
            if f.startswith('dem.'):
                shutil.copy(os.path.join(d, f), out)
        dem = os.path.join(out, os.path.basename(dem))
    elif c == 'missing_parent':
        given = out = os.path.join(w, 'a', 'b', 'out')
    elif c == 'is_file':
        with open(out, 'w') as f:
            f.write('I am a file')
    elif c == 'is_dangling':
        os.symlink(os.path.join(w, 'gone'), out)
    elif c == 'link_to_used':
        os.makedirs(os.path.join(w, 'used'))
        with open(os.path.join(w, 'used', 'x'), 'w') as f:
            f.write('x')
        os.symlink(os.path.join(w, 'used'), out)
    elif c == 'dot':
        put('x')
        cwd, given = out, '.'
    elif c == 'trailing_slash':
        put('x')
        given = out + '/'

    def state():
        x = {}
        for base, dirs, files in os.walk(d):
            for n in dirs + files:
                p = os.path.join(base, n)
                st = os.lstat(p)
                reg = stat.S_ISREG(st.st_mode)
                x[os.path.relpath(p, d)] = (st.st_mode, os.readlink(p) if stat.S_ISLNK(st.st_mode) else cli.sha(p) if reg else '', st.st_mtime_ns if reg else 0)
        return x
    before = state()
    for extra in (dict(), dict(accum=True, vector=True, filt='area > 2')):
        code, text, exc = cli.run(cli.complete_args(dem, given, **extra), cwd=cwd)
        if code == 0:
            o.bad('accepted:' + c, 'complete into a directory with content "%s" ends with exit status 0' % c)
        after = state()
        if after != before:
            k = sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
            o.bad('outdir:' + c, 'complete into a directory with content "%s" changes %s' % (c, k[:5]))
            break
        o.event()
    o.count('o_' + c)
    # an empty directory is accepted
    e = os.path.join(w, 'empty')
    os.makedirs(e)
    given, cwd = [(e, None), ('.', e), ('empty', w), (e + '/', None)][int(rng.integers(4))]
    cli.ok(cli.complete_args(dem, given), cwd=cwd)
    cli.load_complete(e)
    o.count('accepted')
    o.case(True, 'outdir', c, case['seed'])


def other_function(f, rng, d, rep):
    """(function, arguments) for the functions without native counterpart"""
    from malstroem.algorithms import fill, flow, label, net
    from malstroem import hyps, approx, io
    h, w = gen.shapes(rng, 20)
    h, w = max(h, 2), max(w, 2)
    n = int(rng.choice([1, 5, 40]))
    l = gen.layout(rng.integers(0, n + 1, (h, w)).astype(str(rng.choice(['i4', 'i8', 'u1', 'i4']))), str(rng.choice(gen.LAYOUTS)))
    h, w = l.shape
    z = gen.layout(gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=[h, w], scale='unit')), str(rng.choice(gen.LAYOUTS)))
    if z.shape != l.shape:
        z = rng.normal(size=l.shape).astype('f4')
    n = int(l.max())
    if f == 'keep':
        return label.keep_labels, (l, (rng.random(n + 1) < .5).astype(str(rng.choice(['?', 'u1', 'i8']))))
    if f == 'count':
        return label.label_count, (l,)
    if f == 'setvalue':
        return label.set_label_to_value, (l, rng.normal(size=n + 1))
    if f == 'components':
        return label.connected_components, (l,)
    if f == 'maxindex':
        return label.label_max_index, (z, l)
    if f == 'increments':
        return fill.minimum_safe_short_and_diag, (z,)
    if f == 'hypso':
        l = gen.layout(label.connected_components(z > np.median(z))[0], 'C')
        return (lambda a, b, c: list(hyps.bluespot_hypsometry_stats(a, b, c))), (l, z, .25)
    if f == 'approx':
        # the labels are updated in place
        return (lambda a: approx.approx_bluespots(np.array(l), {k: float(rng.normal()) for k in range(1, n + 1)}, a)), (z,)
    if f == 'writer':
        p = os.path.join(d, 'w%d.tif' % rep)
        return (lambda a: io.RasterWriter(p, cli.GT, cli.wkt(), 5.0).write(a)), (z if rep % 2 else z.astype('>f4'),)
    fd = gen.layout(gen.draining_flowdir(rng, h, w), str(rng.choice(gen.LAYOUTS)))
    h, w = fd.shape
    cells = [(int(rng.integers(h)), int(rng.integers(w))) for _ in range(8)]
    if f == 'upstream':
        return (lambda a: [list(flow.upstream_cells(a, c)) for c in cells]), (fd,)
    if f == 'trace_down':
        return (lambda a: [list(flow.trace_downstream(a, c)) for c in cells]), (fd,)
    # one connected label per pour point
    l, n = label.connected_components(rng.random((h, w)) < .15)
    l = gen.layout(l, 'F') if rng.random() < .3 and 'F' in gen.LAYOUTS else l
    if l.shape != fd.shape:
        fd = np.ascontiguousarray(fd.T)
    pp = [tuple(int(x) for x in np.argwhere(l == k)[0]) for k in range(1, n + 1)]
    g = net.pourpoint_network if f == 'network' else net.geometric_pourpoint_network
    return (lambda a, b: list(g(a, b, pp, 0) or [])), (fd, l)


def frozen(x):
    return x.tobytes(), x.strides, x.dtype.str, x.shape, x.base.tobytes() if isinstance(x.base, np.ndarray) else b''


def arrays(case, o, d):
    """Public functions leave the arrays of the caller alone"""
    from malstroem.algorithms import fill, flow, label, speedups
    f = case['f']
    for rep in range(10):
        rng = np.random.default_rng([case['seed'], rep, 234])
        if f in c18.FUNCS:
            args = c18.make(rng, f)
            fn = dict(fill=fill.fill_terrain, noflats=fill.fill_terrain_no_flats, flowdir=flow.terrain_flowdirection, accum=flow.accumulated_flow, trace=None, wsheds=flow.watersheds_from_labels,
                      assign=flow.assign_watersheds_upstream, stats=label.label_stats, minindex=label.label_min_index, data=label.label_data)[f]
            hold = [x for x in args if isinstance(x, np.ndarray)]
            if f == 'trace':
                acc = np.zeros(args[0].shape)
                fn = lambda fd, cells: [flow.trace_accumulated_flow(fd, acc, c) for c in cells]
            elif f in ('wsheds', 'assign'):
                # the labels are updated in place
                hold = [args[0]]
                args = (args[0], args[1].copy()) + args[2:]
        else:
            fn, args = other_function(f, rng, d, rep)
            hold = [x for x in args if isinstance(x, np.ndarray)]
        native = bool(rng.random() < .6)
        (speedups.enable if native else speedups.disable)()
        try:
            keep = [frozen(x) for x in hold]
            call(f, fn, *args)
            for k, (x, y) in enumerate(zip(hold, keep)):
                if frozen(x) != y:
                    o.bad('array:' + f, '%s (%s) changes its argument %d, %s%s' % (f, 'native' if native else 'pure', k, x.dtype.str, x.shape))
                o.count('view', x.base is not None)
                o.count('fortran', x.flags.f_contiguous and not x.flags.c_contiguous)
        finally:
            speedups.enable()
        o.count('f_' + f)
        o.case(len(np.unique(hold[0])) > 1, f, *hold)
