"""C24: results depend on the terrain only, not on how the DEM is stored"""
import os
import numpy as np
from osgeo import gdal
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('the same elevations (whole numbers, quarters, arbitrary 32-bit floats; with and without missing cells) stored in 10 element types, 9 file formats, 12 GeoTIFF layouts, 14 nodata encodings and moved to other coordinates; complete runs and '
        'chains which read another encoding in every step; all rasters and layers compared with those of the 32-bit float GeoTIFF in which missing cells hold -999; DemTool on arrays of 11 types and 6 memory layouts; non-trivial: at least one '
        'bluespot; distinct by terrain and encoding')
TYPES = ['f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']
FORMATS = ['GTiff', 'AAIGrid', 'HFA', 'ENVI', 'VRT', 'EHdr', 'SAGA', 'PCIDSK', 'RST']
OPTS = [[], ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'], ['COMPRESS=LZW'], ['COMPRESS=DEFLATE', 'PREDICTOR=2'], ['COMPRESS=DEFLATE', 'TILED=YES', 'BLOCKXSIZE=32', 'BLOCKYSIZE=16'], ['ENDIANNESS=BIG'], ['BIGTIFF=YES'],
        ['COMPRESS=PACKBITS', 'BLOCKYSIZE=1'], ['COMPRESS=ZSTD'], ['SPARSE_OK=TRUE'], ['bands'], ['overviews']]
MUST_OBSERVE = ['other_filled', 'other_filled_missing'] + ['t_' + t for t in TYPES] + ['d_GTiff', 'd_VRT'] + ['moved', 'missing', 'missing_zero', 'missing_unsigned', 'missing_nan', 'missing_huge', 'declared_unused', 'chain', 'complete', 'array', 'bands', 'overviews', 'big_endian', 'arbitrary',
                'accum', 'vector']
MIN_EVENTS = 300
CPU_LIMIT = 120
EXT = {'GTiff': 'tif', 'AAIGrid': 'asc', 'HFA': 'img', 'ENVI': 'bin', 'VRT': 'vrt', 'EHdr': 'bil', 'SAGA': 'sdat', 'PCIDSK': 'pix', 'RST': 'rst'}
CAN = {'AAIGrid': ['i2', 'i4', 'f4', 'f8', 'u1'], 'HFA': ['u1', 'u2', 'i2', 'u4', 'i4', 'f4', 'f8'], 'ENVI': ['u1', 'i2', 'u2', 'i4', 'u4', 'f4', 'f8', 'i8', 'u8'], 'EHdr': ['u1', 'i2', 'u2', 'i4', 'u4', 'f4'],
       'SAGA': ['u1', 'i2', 'u2', 'i4', 'u4', 'f4', 'f8'], 'PCIDSK': ['u1', 'i2', 'u2', 'f4'], 'RST': ['u1', 'i2', 'f4']}


def cases(seed, tier):
    n = 90 if tier == 'quick' else 2500
    out = []
    for i in range(n):
        rng = np.random.default_rng([seed, i, 240])
        p = pipe.params(rng, i, nodata='', vector=bool(i % 3 == 0))
        if p['shape'][0] * p['shape'][1] > 900:
            p['shape'] = [26, 27]
        if rng.random() < .8:
            # the edges of bins are computed without rounding
            p['res'] = float(rng.choice([.25, .5, 1.0, 2.0]))
        if i % 6 == 3:
            # elevations of any size
            p['res'] = {'huge': 10000.0, 'big': 2.5}.get(p['scale'], p['res'])
        out.append(dict(t='enc', p=p, i=i, cls=['u', 's', 'q', 'f', 'u', 's'][i % 6]))
        if i % 3 == 0:
            q = dict(p, res={'huge': 10000.0, 'big': 2.5}.get(p['scale'], p['res']))
            out.append(dict(t='moved', p=q, i=i))
        if i % 2 == 0:
            out.append(dict(t='array', seed=seed * 1000003 + i))
    return out


def run_case(case, o, d):
    dict(enc=enc, moved=moved, array=array)[case['t']](case, o, d)


def terrain(rng, p, cls):
    """float64 elevations representable in the types of the class"""
    z = gen.dem(p).astype('f8')
    z = z - z.min()
    m = z.max()
    if cls == 'f':
        return (gen.dem(p)).astype('f8'), ['f4', 'f8']
    k = float(rng.choice([6, 40, 200])) / m if m > 0 else 1.0
    z = np.floor(z * k)
    if cls == 'u':
        z += float(rng.choice([0, 1, 20]))
        return z, TYPES if z.max() <= 120 else [t for t in TYPES if t != 'i1']
    if cls == 's':
        z = z / 2 if z.max() > 100 else z
        return np.floor(z) - float(rng.choice([3, 20, 100])) * (z.max() <= 100), ['i2', 'i4', 'i8', 'f4', 'f8', 'i1']
    return z / 4 - float(rng.choice([0, 5.25])), ['f4', 'f8']


def nodata_for(rng, t, z, miss):
    """A value of the type which no elevation has"""
    v = {'u1': [0, 255, 254], 'i1': [-128, 127, 0], 'i2': [-32768, -9999, 0, -999, 32767], 'u2': [0, 65535, 9999], 'i4': [-2147483648, -9999, 0, 2147483647, -999], 'u4': [0, 4294967295], 'i8': [-9999, 0, -2147483648],
         'u8': [0, 65535], 'f4': [-9999, float('nan'), -3.4028234663852886e38, 1e30, 0, -999, -32767.5, float('inf')], 'f8': [-9999, float('nan'), -1.7976931348623157e308, 1e300, 0, -999, float('-inf')]}[t]
    v = [x for x in v if not (x == x and np.isclose(z[~miss], x, atol=1e-6).any())]
    # RasterReader takes values within 1e-5 of the declared one for missing data
    return v[int(rng.integers(len(v)))] if v else None


def encode(rng, d, name, z, miss, types, o, gt):
    """Write the terrain in a random encoding. (path, text) or None"""
    t = types[int(rng.integers(len(types)))]
    fmt = FORMATS[int(rng.integers(len(FORMATS)))] if rng.random() < .75 else 'GTiff'
    if t not in CAN.get(fmt, TYPES) or fmt == 'AAIGrid' and (abs(gt[5]) != abs(gt[1]) or gt[2]) or (gt[5] > 0 or gt[2]) and fmt not in ('GTiff', 'VRT'):
        fmt = 'GTiff'
    nd = None
    if miss.any() or rng.random() < .3:
        nd = nodata_for(rng, t, z, miss)
        if fmt != 'GTiff' and fmt != 'VRT' and nd is not None and (not np.isfinite(nd) or abs(nd) > 1e10):
            # the text and header formats round these
            nd = -9999 if t in ('f4', 'f8') and not (z[~miss] == -9999).any() else None
        if fmt in ('AAIGrid', 'PCIDSK', 'RST', 'SAGA', 'EHdr', 'HFA', 'ENVI') and nd == -32767.5:
            nd = -9999
        if nd is None and miss.any():
            # store the elevation itself
            if t in ('u1', 'u2', 'u4', 'u8', 'i1'):
                t = 'f4'
    a = z.copy()
    with np.errstate(all='ignore'):
        a[miss] = -999 if nd is None else nd
        if t in ('i8', 'u8') :
            a = a.astype(t)
        else:
            a = a.astype(t)
    opts = []
    extra = ''
    p = os.path.join(d, '%s.%s' % (name, EXT[fmt]))
    if fmt == 'GTiff':
        opts = list(OPTS[int(rng.integers(len(OPTS)))])
        if opts[:1] in (['bands'], ['overviews']):
            extra, opts = opts[0], []
        if t in ('i8', 'u8', 'f4', 'f8', 'i1') and 'PREDICTOR=2' in opts:
            opts = ['COMPRESS=DEFLATE']
    if fmt == 'VRT':
        s = cli.write_tif(os.path.join(d, name + '_src.tif'), a, gt=gt, nodata=nd)
        gdal.Translate(p, s, format='VRT')
    else:
        cli.write_tif(p, a, gt=gt, nodata=nd, driver=fmt, opts=opts)
    if extra == 'bands':
        q = os.path.join(d, name + '_b.tif')
        gdal.Translate(q, p, bandList=[1, 1, 1])
        ds = gdal.Open(q, 1)
        for k in (2, 3):
            ds.GetRasterBand(k).WriteArray(np.zeros_like(a))
        ds = None
        p = q
    elif extra == 'overviews':
        ds = gdal.Open(p, 1)
        ds.BuildOverviews('NEAREST', [2])
        ds = None
        ds = gdal.Open(p, 1)
        gdal.PushErrorHandler('CPLQuietErrorHandler')
        try:
            ds.GetRasterBand(1).ComputeStatistics(False)
        except RuntimeError:
            # no cell with data
            pass
        gdal.PopErrorHandler()
        ds = None
    # what is stored has to be what was meant
    got = cli.read_tif(p)
    same_nd = nd is None and got['nodata'] is None or nd is not None and got['nodata'] is not None and (got['nodata'] == nd or nd != nd and got['nodata'] != got['nodata'] or t == 'f4' and np.float32(nd) == np.float32(got['nodata']))
    if not same_nd or not np.array_equal(got['a'][~miss].astype('f8'), z[~miss]) or got['nodata'] is not None and (z[~miss] == got['nodata']).any():
        o.count('not_storable')
        return None
    if nd is not None and np.isfinite(nd) and miss.any() and not (got['a'][miss].astype('f8') == np.array(got['nodata']).astype(got['a'].dtype).astype('f8')).all():
        o.count('not_storable')
        return None
    if tuple(got['gt']) != tuple(gt):
        o.count('not_storable')
        return None
    o.count('t_' + str(got['a'].dtype.str[1:])); o.count('d_' + fmt); o.count('bands', extra == 'bands'); o.count('overviews', extra == 'overviews'); o.count('big_endian', 'ENDIANNESS=BIG' in opts)
    o.count('declared_unused', nd is not None and not miss.any())
    if miss.any() and nd is not None:
        o.count('missing'); o.count('missing_zero', nd == 0); o.count('missing_nan', nd != nd); o.count('missing_unsigned', t[0] == 'u'); o.count('missing_huge', abs(nd) > 1e20)
    return p, '%s %s %s nodata %s' % (fmt, t, ' '.join(opts) + extra, nd)


class Pick:
    """Another file of the same terrain every time a command is told the DEM"""
    def __init__(self, paths):
        self.paths, self.k = paths, 0

    def __str__(self):
        self.k += 1
        return self.paths[self.k % len(self.paths)]


def run_on(p, dem, out, chain, o, tag):
    from malstroem.algorithms import speedups
    (speedups.enable if p['native'] else speedups.disable)()
    try:
        k = dict(mm=p['mm'], res=p['res'], filt=pipe.FILTERS[p['filt']], accum=p['accum'], vector=p['vector'])
        if chain:
            os.makedirs(out)
            r = cli.load_chain(cli.chain(dem, out, polys=True, **k))
        else:
            r = cli.complete(dem, out, **k)
    finally:
        speedups.enable()
    o.count('chain' if chain else 'complete'); o.count('accum', p['accum']); o.count('vector', p['vector'])
    return r


# computed from the elevations in the precision of the file: a value may fall on the other side of the edge of a bin
ROUNDED = ['L_hypsometry', 'L_finallevels', 'finaldepths', 'finalbluespots', 'L_finalbluespots']


def differences(o, a, b, rounded, tag, shift=(0, 0)):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            o.bad('missing:' + k, '%s: output %s is written for one of the files only' % (tag, k))
            continue
        if rounded and k in ROUNDED:
            continue
        x, y = a[k], b[k]
        if not k.startswith('L_'):
            if x['a'].shape != y['a'].shape or not np.array_equal(x['a'].astype('f8'), y['a'].astype('f8')):
                q = tuple(int(v) for v in np.argwhere(x['a'].astype('f8') != y['a'].astype('f8'))[0]) if x['a'].shape == y['a'].shape else None
                o.bad('raster:' + k, '%s: raster %s differs, first at %s: %r and %r' % (tag, k, q, x['a'][q] if q else x['a'].shape, y['a'][q] if q else y['a'].shape))
            o.event()
            continue
        if len(x['feats']) != len(y['feats']):
            o.bad('layer:' + k, '%s: %d and %d features in %s' % (tag, len(x['feats']), len(y['feats']), k))
            continue
        for f, g in zip(x['feats'], y['feats']):
            if f['props'] != g['props']:
                n = [q for q in f['props'] if f['props'][q] != g['props'].get(q)]
                # positions are attributes in some layers
                o.bad('layer:' + k, '%s: %s of a feature in %s: %s and %s' % (tag, n, k, [f['props'][q] for q in n][:3], [g['props'].get(q) for q in n][:3]))
                break
            if not same_geom(f['geom'], g['geom'], shift):
                o.bad('geometry:' + k, '%s: geometry in %s: %s and %s' % (tag, k, str(f['geom'])[:150], str(g['geom'])[:150]))
                break
        o.event()


def same_geom(f, g, shift):
    if f is None or g is None:
        return f is None and g is None
    a, b = np.array(flat(f['coordinates'])), np.array(flat(g['coordinates']))
    return a.shape == b.shape and (abs(a + np.array(shift) - b).max() <= 1e-6 if len(a) else True)


def flat(c):
    if not isinstance(c[0], (list, tuple)):
        return [c[:2]]
    return [p for x in c for p in flat(x)]


def enc(case, o, d):
    p = case['p']
    rng = np.random.default_rng([p['seed'], case['i'], 241])
    z, types = terrain(rng, p, case['cls'])
    gt = pipe.GTS[p['gt']]
    miss = np.zeros(z.shape, bool)
    if rng.random() < .6:
        miss = rng.random(z.shape) < float(rng.choice([.02, .1, .4]))
        if rng.random() < .3:
            miss[:, :z.shape[1] // 3] = True
        if rng.random() < .2:
            miss[:, :] = False
            miss[z == z.min()] = True
    if miss.all():
        miss[0, 0] = False
    base = cli.write_tif(os.path.join(d, 'base.tif'), np.where(miss, -999, z).astype('f4'), gt=gt)
    want = {}
    files = [x for x in (encode(rng, d, 'e%d' % k, z, miss, types, o, gt) for k in range(5)) if x]
    if case['cls'] == 'f':
        o.count('arbitrary')
    n = 0
    for k, (f, text) in enumerate(files):
        chain = (case['i'] + k) % 2 == 0
        dem = f
        if chain:
            dem = Pick([x[0] for x in files] + [base])
            text = 'another file in every step: ' + '; '.join(x[1] for x in files)
            if k > 1:
                continue
        if chain not in want:
            want[chain] = run_on(p, base, os.path.join(d, 'w%d' % chain), chain, o, 'base')
        got = run_on(p, dem, os.path.join(d, 'r%d' % k), chain, o, text)
        differences(o, want[chain], got, case['cls'] == 'f' or p['res'] not in (.25, .5, 1.0, 2.0), '%s %s, %s' % ('chain' if chain else 'complete', z.shape, text))
        if k < 2:
            # the filled terrain from another kind of file
            F = np.asarray(want[chain]['filled']['a'])
            x = encode(rng, d, 'filled%d' % k, F.astype(z.dtype), F == -999, types, o, gt)
            if x and not (F == -999).all():
                q = os.path.join(d, 'depths%d.tif' % k)
                cli.ok(['depths', '-dem', f, '-filled', x[0], '-out', q])
                D = cli.arr(q)
                # the difference may be rounded to the type of either file
                bad = np.abs(D.astype('f8') - want[chain]['depths']['a']) > np.spacing(np.maximum(np.abs(F), np.where(miss, 999, np.abs(z))).astype('f4')) * 2.0
                if bad.any():
                    o.bad('raster:depths', 'depths from filled terrain in %s differ at %d cells, first %s' % (x[1], bad.sum(), np.argwhere(bad)[0]))
                o.count('other_filled'); o.count('other_filled_missing', (F == -999).any())
        n = int(want[chain]['bluespots']['a'].max())
        o.case(n > 0, z, text, chain)
        o.sample = '%s: %d bluespots' % (text, n)


def moved(case, o, d):
    p = dict(case['p'])
    rng = np.random.default_rng([p['seed'], case['i'], 242])
    z = gen.dem(p)
    g0 = (0.0, float(rng.choice([.5, 1, 2, 8])), 0.0, 0.0, 0.0, 0.0)
    g0 = g0[:5] + (-g0[1],)
    a = cli.write_tif(os.path.join(d, 'a.tif'), z, gt=g0)
    chain = bool(case['i'] % 2)
    want = run_on(p, a, os.path.join(d, 'wa'), chain, o, '')
    for k in range(2):
        sh = [(512.0, 1024.0), (-4096.0, 65536.0), (600000.0, 6200000.0), (-1048576.0, -524288.0), (0.5, -0.25), (33.0, 0.0)][int(rng.integers(6))]
        b = cli.write_tif(os.path.join(d, 'b%d.tif' % k), z, gt=(sh[0], g0[1], 0.0, sh[1], 0.0, g0[5]))
        got = run_on(p, b, os.path.join(d, 'wb%d' % k), chain, o, '')
        differences(o, want, got, False, 'moved by %s' % (sh,), sh)
        o.count('moved')
        o.case(want['bluespots']['a'].max() > 0, z, sh, g0)


def array(case, o, d):
    """DemTool with arrays of any type and memory layout"""
    from malstroem import dem as demtool
    rng = np.random.default_rng([case['seed'], 243])
    for rep in range(3):
        p = dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(gen.NAMES)), shape=[int(x) for x in rng.integers(3, 26, 2)], scale='unit')
        z, types = terrain(rng, p, 'u')
        res = {}
        for k in range(4):
            t = 'f4' if k == 0 else str(rng.choice(types + ['>f4', '>i2', 'f2', '>f8']))
            lay = 'C' if k == 0 else str(rng.choice(gen.LAYOUTS))
            a = z.astype(t)
            b = gen.layout(a, lay)
            if b.shape != a.shape or not np.array_equal(b, a):
                # this layout turns the array: turn it before
                b = gen.layout(np.ascontiguousarray(a.T), lay)
                if b.shape != a.shape or not np.array_equal(b, a):
                    b = np.asfortranarray(a)

            class R(cli.MemRaster):
                def read(self):
                    return self.a
            w = [cli.MemRaster() for _ in range(4)]
            call('DemTool on %s %s' % (t, lay), demtool.DemTool(R(b), *w).process)
            got = [x.written[0] for x in w]
            if k == 0:
                want = got
                continue
            for n, x, y in zip(('filled', 'flowdir', 'depths', 'accum'), want, got):
                if not np.array_equal(np.asarray(x, 'f8'), np.asarray(y, 'f8')):
                    o.bad('array:' + n, 'DemTool on %s array in layout %s gives another %s than on a 32-bit float array' % (t, lay, n))
            o.count('array')
            o.case(bool((want[2] > 0).any()), z, t, lay)
