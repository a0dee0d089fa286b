"""C20: raster round trips"""
import os
import numpy as np
from osgeo import gdal, osr
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('arrays of 16 element types (full value range, both byte orders, six layouts, 1 to 700 cells a side, not a number and infinities), transforms, coordinate systems and nodata values written by RasterWriter and read by GDAL and by '
        'RasterReader; files with any declared nodata read with substitutes; georeference of all command outputs; non-trivial: more than one distinct value; distinct by array, type and nodata')
TYPES = ['f4', 'f8', 'i4', 'u4', 'i2', 'u2', 'u1', 'i1', 'i8', 'u8', 'f2', '?', '>f4', '>f8', '>i4', '>i2', '>u2']
MUST_OBSERVE = ['t_' + t for t in TYPES] + ['tiled', 'single', 'nodata', 'nan', 'substituted', 'nan_nodata', 'zero_nodata', 'promoted', 'unsubstituted', 'refused', 'overwritten', 'rewritten', 'rotated', 'rounded_nodata', 'commands', 'no_crs']
MIN_EVENTS = 800
EPSG = [25832, 32633, 3857, 4326, 25832]


def cases(seed, tier):
    n = 330 if tier == 'quick' else 7000
    out = []
    for i in range(n):
        out.append(dict(t='write', seed=seed * 1000003 + i, dt=TYPES[i % len(TYPES)]))
        if i % 2:
            out.append(dict(t='subst', seed=seed * 1000003 + i))
        if i % 8 == 0:
            out.append(dict(t='cmd', seed=seed * 1000003 + i))
    return out


def shape(rng):
    x = rng.random()
    if x < .15:
        return [(1, 1), (1, 7), (9, 1), (1, 300), (2, 2), (260, 1)][int(rng.integers(6))]
    if x < .35:
        return int(rng.choice([255, 256, 257, 300, 511, 513, 700])), int(rng.choice([3, 255, 256, 257, 400, 513]))
    if x > .97:
        return [(4100, 5), (3, 70000), (66000, 3), (1300, 1500), (9000, 40), (40, 9000), (2200, 300)][int(rng.integers(7))]
    return int(rng.integers(1, 60)), int(rng.integers(1, 60))


def values(rng, dt, sh):
    d = np.dtype(dt)
    k = d.kind
    if k == 'b':
        return rng.random(sh) < .5
    if k in 'iu':
        info = np.iinfo(d)
        lo, hi = int(info.min), int(info.max)
        if d.itemsize == 8:
            lo, hi = [(0, 255), (0, 65535), (0, 4294967295), (-32768, 32767), (-2147483648, 2147483647), (-1, 32767), (-32769, 5), (0, 256), (0, 65536), (-5, 32768)][int(rng.integers(10))]
            if k == 'u':
                lo = max(lo, 0)
        elif rng.random() < .3:
            lo, hi = max(lo, -3), min(hi, 4)
        a = rng.integers(lo, hi, sh, endpoint=True, dtype='i8')
        a.flat[0] = lo
        a.flat[-1] = hi
        return a.astype(d)
    a = rng.normal(size=sh) * 10.0 ** float(rng.choice([-3, 0, 2, 4]))
    if d.itemsize > 2 and rng.random() < .3:
        a = np.exp(rng.normal(size=sh) * 20)
    if rng.random() < .15:
        a = np.round(a)
    a = np.clip(a, -6e4, 6e4) if d.itemsize == 2 else a
    a = a.astype(d)
    if rng.random() < .3:
        m = rng.random(sh) < .1
        a[m] = rng.choice(np.array([np.nan, np.inf, -np.inf, -0.0, np.finfo(d).tiny, np.finfo(d).max], dtype=d), m.sum())
    return a


def georef(rng):
    gt = pipe.GTS[int(rng.integers(len(pipe.GTS)))]
    x = rng.random()
    if x < .15:
        gt = (float(rng.normal() * 1e6), .7, .7, float(rng.normal() * 1e6), .7, -.7)
    elif x < .3:
        gt = (float(rng.normal() * 1e6), float(rng.random() + .01), 0.0, float(rng.normal() * 1e6), 0.0, -float(rng.random() + .01))
    elif x < .4:
        # sheared: one of the rotation terms only, or any six numbers
        gt = [float(rng.normal() * 1e5), float(rng.random() + .5), float(rng.normal()), float(rng.normal() * 1e5), float(rng.normal()), -float(rng.random() + .5)]
        k = int(rng.integers(3))
        if k:
            gt[2 * k] = 0.0
        gt = tuple(gt)
    crs = cli.wkt(int(rng.choice(EPSG))) if rng.random() < .85 else ''
    if rng.random() < .2:
        crs = cli.wkt(cli.CUSTOM[int(rng.integers(len(cli.CUSTOM)))])
    return gt, crs


def same_crs(a, b):
    if not a or not b:
        return not a and not b
    s, t = osr.SpatialReference(), osr.SpatialReference()
    s.ImportFromWkt(a); t.ImportFromWkt(b)
    return bool(s.IsSame(t))


def equal(a, b):
    """Same numbers"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.ones((1, 1), bool)
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
        x, y = a.astype('f8'), b.astype('f8')
        return ~((x == y) | (np.isnan(x) & np.isnan(y)))
    return a.astype('O') != b.astype('O') if 'u8' in (a.dtype.str[1:], b.dtype.str[1:]) else a.astype('i8') != b.astype('i8')


def run_case(case, o, d):
    {'write': write, 'subst': subst, 'cmd': cmd}[case['t']](case, o, d)


def write(case, o, d):
    from malstroem import io
    rng = np.random.default_rng([case['seed'], 20])
    dt = case['dt']
    for rep in range(3):
        a = values(rng, dt, shape(rng))
        gt, crs = georef(rng)
        nd = None
        if rng.random() < .5:
            k = np.dtype(dt).kind
            c = [0, 0, a.flat[int(rng.integers(a.size))]] + ([-999, -9999.0, float('nan'), -3.4028234663852886e+38, .1] if k == 'f' else [-999] if dt in ('i4', 'i2', '>i4', '>i2') else [1])
            nd = float(c[int(rng.integers(len(c)))])
            if k == 'f' and np.isinf(nd):
                nd = -1.0
            if np.dtype(dt).itemsize == 8 and k in 'iu' or dt == 'i1':
                nd = 0.0
        p = os.path.join(d, 'r%d.tif' % rep)
        if rng.random() < .25:
            cli.write_tif(p, np.arange(12.0).reshape(3, 4), gt=(0.0, 5.0, 0.0, 0.0, 0.0, -5.0), nodata=7, crs=4326)
            o.count('overwritten')
        given = gen.layout(a, str(rng.choice(gen.LAYOUTS)))
        w = call('RasterWriter', io.RasterWriter, p, gt, crs, nd)
        call('writing %s %s' % (dt, a.shape), w.write, given)
        tag = '%s%s nodata %r' % (dt, a.shape, nd)
        if equal(given, a).any():
            o.bad('input', '%s: writing changes the array' % tag)
        g = cli.read_tif(p)
        judge(o, tag + ' by GDAL', a, g['a'], gt, g['gt'], crs, g['wkt'], nd, g['nodata'])
        if g['bands'] != 1:
            o.bad('bands', '%s: %d bands' % (tag, g['bands']))
        r = call('RasterReader', io.RasterReader, p)
        got = call('reading', r.read)
        judge(o, tag + ' by RasterReader', a, got, gt, r.transform, crs, r.crs, nd, r.nodata)
        if tuple(r.shape) != a.shape:
            o.bad('shape', '%s: reader has shape %s' % (tag, r.shape))
        if not np.allclose(r.resolution, (np.hypot(gt[2], gt[5]), np.hypot(gt[1], gt[4])), 1e-12, 0):
            o.bad('resolution', '%s: resolution %s' % (tag, r.resolution))
        keep = got.copy()
        if got.flags.writeable:
            got[...] = 0
        again = call('reading again', r.read)
        if equal(again, keep).any():
            o.bad('again', '%s: the second read differs' % tag)
        del r
        o.count('t_' + dt); o.count('tiled', max(a.shape) > 256); o.count('single', min(a.shape) == 1); o.count('nodata', nd is not None); o.count('no_crs', not crs)
        o.count('rotated', gt[2] != 0); o.count('nan', a.dtype.kind == 'f' and np.isnan(a).any())
        o.case(len(np.unique(a)) > 1, a, nd)
    # one file written again and again: each time the same number of bytes
    p, sh = os.path.join(d, 'again.tif'), shape(rng)
    w = None
    for k in range(4):
        gt, crs = georef(rng)
        nd = [None, 9.0, None, 3.0][k]
        if w is None or rng.random() < .7:
            w = call('RasterWriter', io.RasterWriter, p, gt, crs, nd)
            of = gt, crs, nd
        a = np.full(sh, k + 1, dt)
        call('writing %s %s again' % (dt, a.shape), w.write, a)
        r = call('RasterReader', io.RasterReader, p)
        judge(o, '%s%s written for the %dth time' % (dt, a.shape, k + 1), a, call('reading', r.read), of[0], r.transform, of[1], r.crs, of[2], r.nodata)
        del r
        o.count('rewritten', k > 0)
    if dt in ('i8', 'u8'):
        for v in ([2 ** 40] if dt == 'u8' else [2 ** 40, -2 ** 33]):
            b = np.array([[v, 1], [-1 if dt == 'i8' else 0, 3]]).astype(dt)
            p = os.path.join(d, 'x.tif')
            try:
                io.RasterWriter(p, gt, crs).write(b)
            except Exception:
                o.count('refused')
                continue
            if equal(cli.arr(p), b).any():
                o.bad('range', '%s value %d is written as %s' % (dt, v, cli.arr(p).tolist()))
            o.count('refused')
    o.sample = tag


def judge(o, tag, a, got, gt, ggt, crs, gcrs, nd, gnd):
    e = equal(a, got)
    if e.any():
        p, n = orc.first(e)
        o.bad('values', '%s: shape %s, %d cells differ, first %s: %r read %r' % (tag, np.asarray(got).shape, n, p, a[p] if np.asarray(got).shape == a.shape else None, got[p] if np.asarray(got).shape == a.shape else None))
    if any(abs(x - y) > 1e-12 * max(1.0, abs(x)) for x, y in zip(gt, ggt)):
        o.bad('transform', '%s: transform %s read %s' % (tag, gt, ggt))
    if not same_crs(crs, gcrs):
        o.bad('crs', '%s: coordinate system %s read %s' % (tag, crs[:60], (gcrs or '')[:60]))
    if (nd is None) != (gnd is None) or nd is not None and not (np.isnan(nd) and np.isnan(gnd) or float(nd) == float(gnd) or a.dtype.itemsize <= 4 and a.dtype.kind == 'f' and np.float32(nd) == np.float32(gnd)):
        o.bad('nodata', '%s: read nodata %r' % (tag, gnd))


def subst(case, o, d):
    from malstroem import io
    rng = np.random.default_rng([case['seed'], 21])
    for rep in range(4):
        dt = str(rng.choice(['f4', 'f4', 'f8', 'i4', 'i2', 'u1', 'u2', 'u4', 'i8', 'i1']))
        a = values(rng, dt, shape(rng))
        if dt == 'i8':
            a = np.clip(a, -2 ** 31, 2 ** 31)
        k = a.dtype.kind
        # declared value
        if k == 'f':
            c = [0.0, -9999.0, -32767.0, 255.0, float('nan'), -3.4028234663852886e+38, 1e20, -999.0, .1, -.5, 3.4028234663852886e+38, 1e-3]
        else:
            info = np.iinfo(a.dtype)
            c = [0, 1, 255 if info.max >= 255 else 127, info.max if a.dtype.itemsize < 8 else 9999, info.min if a.dtype.itemsize < 8 else -9999, max(info.min, -99), min(info.max, 9999)]
        nd = float(c[int(rng.integers(len(c)))])
        m = rng.random(a.shape) < rng.choice([0, .05, .5, 1])
        a = a.copy()
        if k == 'f':
            # keep away from values which are nearly the declared one, unless they are it
            if not np.isnan(nd):
                f = a.astype('f8')
                with np.errstate(all='ignore'):
                    near = np.isfinite(f) & (np.abs(f - nd) <= 1e-4 * abs(nd) + 1e-6) & (f != nd)
                a[near] = 12345.5
            a[m] = nd
            hit = np.isnan(a) if np.isnan(nd) else a == a.dtype.type(nd)
            if nd and 1e-30 < abs(nd) < 1e30 and rng.random() < .5:
                # the declared value but for rounding
                q = m & (rng.random(a.shape) < .5)
                a[q] = np.nextafter(a.dtype.type(nd), a.dtype.type(rng.choice([-1, 1]) * np.inf))
                hit |= q
                o.count('rounded_nodata', q.sum())
        else:
            b = a.astype('i8')
            near = (np.abs(b - int(nd)) <= 1e-4 * abs(nd)) & (b != int(nd))
            a[near] = 7 if nd != 7 else 8
            a[m] = int(nd)
            hit = a.astype('i8') == int(nd)
        p = os.path.join(d, 's%d.tif' % rep)
        declare = rng.random() < .9
        cli.write_tif(p, a, nodata=None, opts=['TILED=YES'] if rng.random() < .3 else [])
        if declare:
            ds = gdal.Open(p, gdal.GA_Update)
            ds.GetRasterBand(1).SetNoDataValue(nd if k == 'f' or a.dtype.itemsize < 8 else int(nd))
            ds = None
        sub = [-999, -999, -999, 0, 7, 3.5, -999.0, -1e6, 70000, None][int(rng.integers(10))]
        tag = '%s%s nodata %r substitute %r' % (dt, a.shape, nd if declare else None, sub)
        r = call('RasterReader', io.RasterReader, p, nodatasubst=sub)
        got = call('reading', r.read)
        if got.shape != a.shape:
            o.bad('shape', '%s: read shape %s' % (tag, got.shape))
            continue
        if sub is None or not declare:
            e = equal(a, got)
            if e.any():
                o.bad('unsubstituted', '%s: cell %s changed without substitution' % (tag, orc.first(e)[0]))
            o.count('unsubstituted')
        else:
            g = got.astype('f8')
            bad = hit & ~(np.abs(g - sub) <= 1e-6 * abs(sub))
            if bad.any():
                q, n = orc.first(bad)
                o.bad('substitute', '%s: %d nodata cells are read as %r' % (tag, n, got[q]))
            e = equal(np.where(hit, a.dtype.type(1), a), np.where(hit, got.dtype.type(1), got))
            if e.any():
                q, n = orc.first(e)
                o.bad('other', '%s: %d other cells changed, %s from %r to %r' % (tag, n, q, a[q], got[q]))
            o.count('substituted', hit.sum()); o.count('nan_nodata', np.isnan(nd)); o.count('zero_nodata', nd == 0); o.count('promoted', k == 'u' and sub < 0)
            again = call('reading again', r.read)
            if equal(again, got).any():
                o.bad('again', '%s: the second read differs' % tag)
        o.case(len(np.unique(a)) > 1, a, nd, sub)
    o.sample = tag


def cmd(case, o, d):
    """Every raster made from a raster has its georeference"""
    rng = np.random.default_rng([case['seed'], 22])
    h, w = [int(x) for x in rng.integers(3, 30, 2)]
    z = gen.dem(dict(seed=case['seed'], kind=str(rng.choice(gen.NAMES)), shape=[h, w], scale='unit'))
    gt, crs = georef(rng)
    if abs(abs(gt[1]) - abs(gt[5])) >= .01 * abs(gt[1]) or gt[2] or gt[4]:
        gt = pipe.GTS[int(rng.integers(len(pipe.GTS)))]
    crs = crs or cli.wkt()
    p = lambda n: os.path.join(d, n + '.tif')
    cli.write_tif(p('dem'), z, gt=gt, crs=crs)
    cli.ok(['filled', '-dem', p('dem'), '-out', p('filled')])
    cli.ok(['depths', '-dem', p('dem'), '-filled', p('filled'), '-out', p('depths')])
    cli.ok(['flowdir', '-dem', p('dem'), '-out', p('flowdir')])
    cli.ok(['accum', '-flowdir', p('flowdir'), '-out', p('accum')])
    cli.ok(['bspots', '-depths', p('depths'), '-out', p('bspots')])
    cli.ok(['wsheds', '-bluespots', p('bspots'), '-flowdir', p('flowdir'), '-out', p('wsheds')])
    names = ['filled', 'depths', 'flowdir', 'accum', 'bspots', 'wsheds']
    if case['seed'] % 2:
        out = os.path.join(d, 'o')
        os.makedirs(out)
        cli.ok(cli.complete_args(p('dem'), out, accum=True))
        names += ['o/' + f[:-4] for f in cli.RASTERS.values()]
    for n in names:
        g = cli.read_tif(p(n))
        if g['a'].shape != z.shape:
            o.bad('cmd-shape', '%s has shape %s, the DEM %s' % (n, g['a'].shape, z.shape))
        if any(abs(x - y) > 1e-12 * max(1.0, abs(x)) for x, y in zip(gt, g['gt'])):
            o.bad('cmd-transform', '%s has transform %s, the DEM %s' % (n, g['gt'], gt))
        if not same_crs(crs, g['wkt']):
            o.bad('cmd-crs', '%s has coordinate system %s' % (n, (g['wkt'] or '')[:80]))
        o.count('commands')
    o.case(True, 'cmd', z, gt)
