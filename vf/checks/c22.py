"""C22: polygons of ID rasters"""
import os
import numpy as np
from osgeo import gdal, ogr, osr
from vf import gen, orc, pipe, cli, ref
from vf.core import call
from vf.checks.c20 import same_crs

RULE = ('ID rasters (noise, blobs, rings, spirals, checkerboards, diagonals, single cells, stripes, one region; IDs to 2^31-1; 9 element types and layouts; 7 transforms incl. south-up; background declared as nodata 0, -1 or 255; rasters '
        'written by the library) polygonised by polys in 5 formats and by vectorize_labels_file, and layers of complete and chain runs; each polygon is turned back into cells by an own scan conversion in world coordinates and compared with '
        'the 8-connected regions; non-trivial: at least 2 regions; distinct by raster')
KINDS = ['noise', 'sparse', 'blobs', 'rings', 'spiral', 'checker', 'diagonal', 'stripes', 'one', 'background', 'single', 'halves']
FMT = ['gpkg', 'SQLite', 'GeoJSON', 'ESRI Shapefile', 'FlatGeobuf']
EXT = {'gpkg': 'gpkg', 'SQLite': 'sqlite', 'GeoJSON': 'geojson', 'ESRI Shapefile': 'shp', 'FlatGeobuf': 'fgb'}
MUST_OBSERVE = KINDS + ['f_' + f for f in FMT] + ['other_crs_there', 'holes', 'diagonal_contact', 'several_regions_of_one_id', 'big_id', 'south_up', 'function', 'complete', 'chain', 'other_nodata', 'library_raster', 'whole_raster', 'tiled']
MIN_EVENTS = 500


def ndi():
    from scipy import ndimage
    return ndimage


def cases(seed, tier):
    n = 180 if tier == 'quick' else 6000
    out = []
    for i in range(n):
        out.append(dict(t='raster', seed=seed * 1000003 + i, kind=KINDS[i % len(KINDS)]))
        if i % 5 == 0:
            rng = np.random.default_rng([seed, i, 221])
            out.append(dict(t='run', p=pipe.params(rng, i // 5, vector=True)))
    return out


def make(rng, kind):
    sh = [(int(rng.integers(1, 40)), int(rng.integers(1, 40))), (int(rng.integers(1, 4)), int(rng.integers(1, 60))), (int(rng.integers(60, 150)), int(rng.integers(60, 150)))][int(rng.choice(3, p=[.8, .1, .1]))]
    r, c = np.indices(sh)
    n = int(rng.choice([1, 2, 3, 9, 200]))
    if kind == 'noise':
        a = rng.integers(0, n + 1, sh)
    elif kind == 'sparse':
        a = rng.integers(1, n + 1, sh) * (rng.random(sh) < .2)
    elif kind == 'blobs':
        a = (ndi().gaussian_filter(rng.normal(size=sh), 2) * 8 * n).astype(int) % (n + 1)
    elif kind == 'rings':
        q = np.maximum(abs(r - sh[0] // 2), abs(c - sh[1] // 2))
        a = np.where(q % 2 == 0, q % (n + 1), int(rng.integers(0, 2)))
    elif kind == 'spiral':
        a = np.zeros(sh, int)
        y, x, dy, dx = 0, 0, 0, 1
        for _ in range(4 * sh[0] * sh[1]):
            a[y, x] = 1
            ny, nx = y + dy, x + dx
            y2, x2 = ny + dy, nx + dx
            if not (0 <= ny < sh[0] and 0 <= nx < sh[1]) or a[ny, nx] or (0 <= y2 < sh[0] and 0 <= x2 < sh[1] and a[y2, x2]):
                dy, dx = dx, -dy
                ny, nx = y + dy, x + dx
                if not (0 <= ny < sh[0] and 0 <= nx < sh[1]) or a[ny, nx]:
                    break
            y, x = ny, nx
        a = a * 3
    elif kind == 'checker':
        a = (r + c) % 2 * (1 + (r // 5) % n)
    elif kind == 'diagonal':
        a = (r == c) * 1 + (r + c == sh[1] - 1) * 2
    elif kind == 'stripes':
        a = (r if rng.random() < .5 else c) // int(rng.integers(1, 4)) % (n + 1)
    elif kind == 'one':
        a = np.ones(sh, int) * n
    elif kind == 'background':
        a = np.zeros(sh, int)
    elif kind == 'single':
        a = np.zeros(sh, int)
        a.flat[int(rng.integers(a.size))] = n
    else:
        a = np.where(c < sh[1] // 2, 1, np.where(rng.random(sh) < .5, 1, 2))
    return a.astype('i8')


def cells_of(g, gt, shape):
    """Cells whose centre lies in the polygon by the even-odd rule. The corners must be corners of cells"""
    det = gt[1] * gt[5] - gt[2] * gt[4]
    rings = g['coordinates'] if g['type'] == 'Polygon' else [r for p in g['coordinates'] for r in p]
    todo = []
    for ring in rings:
        p = np.array([q[:2] for q in ring], 'f8')
        x, y = p[:, 0] - gt[0], p[:, 1] - gt[3]
        col, row = (gt[5] * x - gt[2] * y) / det, (gt[1] * y - gt[4] * x) / det
        ci, ri = np.rint(col).astype(int), np.rint(row).astype(int)
        if abs(col - ci).max() > 1e-3 or abs(row - ri).max() > 1e-3:
            return None, 'corner %s is no corner of a cell' % (p[np.argmax(abs(col - ci) + abs(row - ri))],)
        if ci.min() < 0 or ri.min() < 0 or ci.max() > shape[1] or ri.max() > shape[0]:
            return None, 'reaches beyond the raster'
        if (ci[0], ri[0]) != (ci[-1], ri[-1]):
            return None, 'open ring'
        todo.append((ci, ri))
    r0, r1, c0, c1 = min(r.min() for c, r in todo), max(r.max() for c, r in todo), min(c.min() for c, r in todo), max(c.max() for c, r in todo)
    t = np.zeros((r1 - r0 + 1, c1 - c0 + 1), 'i4')
    for ci, ri in todo:
        ci, ri = ci - c0, ri - r0
        for k in range(len(ci) - 1):
            if ci[k] == ci[k + 1]:
                a, b = sorted((ri[k], ri[k + 1]))
                t[a:b, ci[k]] ^= 1
            elif ri[k] != ri[k + 1]:
                return None, 'edge across cells'
    return (r0, c0, (np.cumsum(t, 1) % 2)[:-1, :-1].astype(bool)), None


def judge(o, a, bg, feats, gt, tag, attr='bspot_id', own_geom=True):
    """feats: [(id, geojson geometry)]"""
    want = []
    s8 = np.ones((3, 3), int)
    for v in np.unique(a):
        if v == bg:
            continue
        lab, n = ndi().label(a == v, s8)
        sl = ndi().find_objects(lab)
        for k in range(n):
            want.append((int(v), sl[k][0].start, sl[k][1].start, int((lab[sl[k]] == k + 1).sum()), lab, k + 1))
        o.count('several_regions_of_one_id', n > 1)
        lab4, n4 = ndi().label(a == v)
        o.count('diagonal_contact', n4 > n)
    ids = {}
    for w in want:
        ids.setdefault(w[0], []).append(w)
    if len(feats) != len(want):
        o.bad('count', '%s: %d polygons, the raster has %d regions' % (tag, len(feats), len(want)))
    cell = abs(gt[1] * gt[5] - gt[2] * gt[4])
    area = {}
    used = set()
    for v, g in feats:
        if v not in ids:
            o.bad('id', '%s: polygon with ID %r, which no region has' % (tag, v))
            return
        if g is None or g['type'] not in ('Polygon', 'MultiPolygon'):
            o.bad('geometry', '%s: ID %s has geometry %s' % (tag, v, g and g['type']))
            return
        m, err = cells_of(g, gt, a.shape)
        if err:
            o.bad('geometry', '%s: polygon of ID %s: %s' % (tag, v, err))
            return
        top, left, m = m
        q = np.argwhere(m)
        if not len(q):
            o.bad('geometry', '%s: polygon of ID %s contains no cell' % (tag, v))
            return
        r0, c0 = q[0] + [top, left]
        hit = [w for w in ids[v] if w[4][r0, c0] == w[5]]
        if not hit:
            o.bad('cells', '%s: polygon of ID %s contains cell %s, which has ID %s' % (tag, v, (r0, c0), a[r0, c0]))
            return
        w = hit[0]
        if (v, w[5]) in used:
            o.bad('twice', '%s: two polygons for the region of ID %s at %s' % (tag, v, (r0, c0)))
            return
        used.add((v, w[5]))
        win = w[4][top:top + m.shape[0], left:left + m.shape[1]] == w[5]
        d = m != win
        if d.any():
            p = tuple(np.argwhere(d)[0])
            cell_ = (p[0] + top, p[1] + left)
            o.bad('cells', '%s: cell %s (ID %s) is %s the polygon of ID %s' % (tag, cell_, a[cell_], 'in' if m[p] else 'not in', v))
            return
        if m.sum() != w[3]:
            o.bad('cells', '%s: polygon of ID %s contains %d cells, the region has %d' % (tag, v, m.sum(), w[3]))
            return
        o.count('holes', len(g['coordinates']) > 1 and g['type'] == 'Polygon')
        gg = ogr.CreateGeometryFromJson(__import__('json').dumps(g))
        area[v] = area.get(v, 0) + gg.GetArea()
        o.event()
    for v, ws in ids.items():
        n = sum(w[3] for w in ws)
        # coordinates have an absolute error
        per = 4 * n * max(abs(gt[1]), abs(gt[5])) * 1e-15 * max(abs(gt[0]), abs(gt[3]), 1) * 10
        if abs(area.get(v, 0) - n * cell) > 1e-9 * n * cell + per * 10:
            o.bad('area', '%s: polygons of ID %s cover %r, its %d cells %r' % (tag, v, area.get(v, 0), n, n * cell))
            return
    o.count('regions', len(want))
    o.count('whole_raster', len(want) == 1 and want[0][3] == a.size)
    return len(want)


def run_case(case, o, d):
    dict(raster=raster, run=run)[case['t']](case, o, d)


def feats_of(path, layer, attr='bspot_id'):
    return [(f['props'].get(attr), f['geom']) for f in cli.read_layer(path, layer)['feats']]


def raster(case, o, d):
    from malstroem import io, vector
    for rep in range(2):
        rng = np.random.default_rng([case['seed'], rep, 22])
        a = make(rng, case['kind'])
        bg = 0
        dt = str(rng.choice(['u1', 'i2', 'u2', 'i4', 'i4', 'u4', 'f4', 'f8', 'i4']))
        top = 255 if dt == 'u1' else 32767 if dt in ('i2', 'u2') else 1 << 24 if dt == 'f4' else 2147483647
        if rng.random() < .4 and a.max() > 0:
            # other IDs
            ids = np.sort(rng.choice(min(top - 1, 5000), int(a.max()), replace=a.max() > min(top - 1, 5000))) + 1 if dt != 'u1' or a.max() < 200 else np.arange(1, a.max() + 1)
            if top > 1 << 30:
                ids = ids + (1 << 30) * (rng.random(len(ids)) < .5)
                ids[-1] = int(rng.choice([2147483647, 2147483646, 16777217, 65537]))
            a = np.concatenate([[0], ids])[a]
        a = np.clip(a, 0, top - 1 if dt == 'u1' else top)
        o.count('big_id', (a > 1 << 24).any())
        x = rng.random()
        if x < .1 and dt in ('i2', 'i4'):
            bg = -1
            a = np.where(a == 0, -1, a)
        elif x < .2 and dt == 'u1':
            bg = 255
            a = np.where(a == 0, 255, a)
        o.count('other_nodata', bg != 0)
        gt = pipe.GTS[int(rng.integers(len(pipe.GTS)))]
        o.count('south_up', gt[5] > 0)
        p = os.path.join(d, 'id%d.tif' % rep)
        st = a.astype(dt)
        if bg == 0 and rng.random() < .4:
            call('RasterWriter', io.RasterWriter(p, gt, cli.wkt(), 0).write, st)
            o.count('library_raster')
        else:
            tiled = rng.random() < .3
            cli.write_tif(p, st, gt=gt, nodata=bg, opts=['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'] if tiled else [])
            o.count('tiled', tiled)
        fmt = FMT[int(rng.integers(len(FMT)))]
        out = os.path.join(d, 'o%d.%s' % (rep, EXT[fmt]))
        lay = 'o%d' % rep
        before = cli.sha(p)
        a8 = st.astype('i8')
        if fmt.lower() in ('gpkg', 'sqlite') and rng.random() < .5:
            # a data source which holds a layer in another coordinate system
            s = osr.SpatialReference()
            s.ImportFromEPSG(4326)
            ds = ogr.GetDriverByName(fmt).CreateDataSource(out)
            l = ds.CreateLayer('elsewhere', s, ogr.wkbPoint)
            x = ogr.Feature(l.GetLayerDefn())
            x.SetGeometry(ogr.CreateGeometryFromWkt('POINT (10 55)'))
            l.CreateFeature(x)
            x = l = ds = None
            o.count('other_crs_there')
        cli.ok(['polys', '-raster', p, '-out', out, '-layername', lay, '-format', fmt])
        if fmt.lower() in ('gpkg', 'sqlite', 'flatgeobuf'):
            c = cli.read_layer(out, lay)['crs']
            if not c or not same_crs(cli.wkt(), c):
                o.bad('crs', '%s: coordinate system of the polygons is %s' % (fmt, (c or '')[:60]))
        if cli.sha(p) != before:
            o.bad('input', 'polys changes the raster')
        o.count('f_' + fmt)
        if fmt == 'ESRI Shapefile' and not os.path.exists(out):
            out = os.path.join(out, lay + '.shp')
        tag = '%s raster %s %s, %s' % (case['kind'], a.shape, dt, fmt)
        n = judge(o, a8, bg, feats_of(out, lay), gt, tag)
        fs = call('vectorize_labels_file', lambda: list(vector.vectorize_labels_file(p)))
        judge(o, a8, bg, [(f['properties'].get('bspot_id'), f['geometry']) for f in fs], gt, 'vectorize_labels_file, ' + tag)
        o.count('function')
        if rng.random() < .3:
            fs = call('vectorize_labels_file', lambda: list(vector.vectorize_labels_file(p, 'other')))
            judge(o, a8, bg, [(f['properties'].get('other'), f['geometry']) for f in fs], gt, 'vectorize_labels_file with attribute name, ' + tag)
            q = os.path.join(d, 'io%d.gpkg' % rep)
            call('vectorize_labels_file_io', vector.vectorize_labels_file_io, p, q, 'lay', 'gpkg', [], [], 'ident', True)
            judge(o, a8, bg, feats_of(q, 'lay', 'ident'), gt, 'vectorize_labels_file_io, ' + tag)
        o.count(case['kind'])
        o.case((n or 0) > 1, a, dt, gt)
        o.sample = '%s: %s regions' % (tag, n)


def run(case, o, d):
    p = case['p']
    art = pipe.run(p, d, **(dict(polys=True) if p['mode'] == 'chain' else {}))
    tag = '%s %s' % (p['mode'], p['kind'])
    n = 0
    for k in ('bluespots', 'watersheds', 'finalbluespots'):
        if 'L_' + k not in art.raw:
            o.bad('layer', '%s: no polygons of %s' % (tag, k))
            continue
        r = art.raw[k]
        if r['nodata'] != 0:
            o.bad('nodata', '%s: background of %s is not declared as nodata (%s)' % (tag, k, r['nodata']))
        n += judge(o, r['a'].astype('i8'), 0, [(f['props'].get('bspot_id'), f['geom']) for f in art.raw['L_' + k]['feats']], art.gt, '%s, %s' % (tag, k)) or 0
        if art.raw['L_' + k]['feats']:
            c = art.raw['L_' + k]['crs']
            if not c or not same_crs(cli.wkt(), c):
                o.bad('crs', '%s: coordinate system of %s polygons is %s' % (tag, k, (c or '')[:60]))
    o.count(p['mode'])
    o.case(n > 1, art.z, p['gt'], p['mode'])
