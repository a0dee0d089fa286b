"""C21: vector layer round trips"""
import os, sqlite3
import numpy as np
from osgeo import gdal, ogr, osr
from vf import gen, orc, pipe, cli, ref
from vf.core import call
from vf.checks.c20 import same_crs

RULE = ('random features (points, lines, polygons with holes, none; integers to 2^53, reals at full precision, text, missing values, 0 to 400 features) written by VectorWriter in 7 formats and read by OGR and VectorReader; further layers and '
        'scenarios written into data sources with other layers whose content is digested before and after; layer names, formats, data source and layer options of every command; non-trivial: at least 2 features; distinct by content and format')
FMT = ['gpkg', 'SQLite', 'GeoJSON', 'ESRI Shapefile', 'CSV', 'FlatGeobuf', 'GPKG']
MUST_OBSERVE = ['held_locked', 'held_one', 'additional_fields', 'recreated'] + ['w_' + f for f in FMT] + ['real', 'text', 'missing', 'integer', 'big_integer', 'g_Point', 'g_LineString', 'g_Polygon', 'g_None', 'other_layers', 'scenario', 'lco', 'dsco', 'layer_names', 'polys_crs', 'empty', 'generator', 'collection', 'carried', 'date_like',
                'reader_index', 'many']
MIN_EVENTS = 500
CPU_LIMIT = 90
EXT = {'gpkg': 'gpkg', 'GPKG': 'gpkg', 'SQLite': 'sqlite', 'GeoJSON': 'geojson', 'ESRI Shapefile': 'shp', 'CSV': 'csv', 'FlatGeobuf': 'fgb'}
WKB = dict(Point=ogr.wkbPoint, LineString=ogr.wkbLineString, Polygon=ogr.wkbPolygon)
TEXT = ['pourpoint', 'junction', '', 'a', 'blåbær Ø', 'quote " \' \\ ', 'comma, semicolon; tab\t', 'line\nbreak', 'null', 'NaN', '007', '1e5', '-3', 'true', '日本語', 'x' * 300, '1|2|3|4', ' pad ', '%s %d', '<&>', "'; DROP TABLE x;--",
        '1,5', '12 345', 'None', '|'.join(['0'] * 400), '#!', '0x10', '3.10']
NAMES = ['plain', 'With Space', 'UPPER', 'blåbær', 'a-b', '1first', 'select', 'x' * 60, 'v.1', "o'clock", 'semi;colon', 'under_score', 'nodes', 'Nodes2', 'per%cent', 'a"b', ' ahead', 'behind ', 'final volumes (20 mm)', 'run10', 'run1']
GEN = {}


def cases(seed, tier):
    n = 240 if tier == 'quick' else 5000
    out = []
    for i in range(n):
        out.append(dict(t='rt', seed=seed * 1000003 + i, fmt=FMT[i % len(FMT)]))
        if i % 4 == 0:
            out.append(dict(t='layers', seed=seed * 1000003 + i))
        if i % 6 == 0:
            out.append(dict(t='options', seed=seed * 1000003 + i))
        if i % 12 == 0:
            out.append(dict(t='scenario', seed=seed * 1000003 + i))
    for i in range(6 if tier == 'quick' else 120):
        out.insert(i * 5 + 2, dict(t='held', seed=seed * 1000003 + i))
    out.append(dict(t='dates', seed=seed))
    for k, fmt in enumerate(['gpkg', 'SQLite', 'FlatGeobuf'] if tier == 'quick' else ['gpkg', 'SQLite', 'FlatGeobuf', 'GeoJSON', 'CSV', 'ESRI Shapefile']):
        out.insert(k * 3, dict(t='many', seed=seed * 1000003 + k, fmt=fmt, n=70003 if tier == 'quick' else 300007))
    return out


def many(case, o, d):
    """As many features as the pour points of a national DEM"""
    from malstroem import io
    fmt, n = case['fmt'], case['n']
    rng = np.random.default_rng([case['seed'], 25])
    fs = [dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[6e5 + k % 1000, 6.2e6 - k // 1000]), properties=dict(nodeid=k, v=float(x))) for k, x in enumerate(rng.normal(size=n))]
    p = os.path.join(d, 'many.' + EXT[fmt])
    w = call('VectorWriter', io.VectorWriter, fmt, p, 'many', None, WKB['Point'], cli.wkt(), [], ['SPATIAL_INDEX=NO'] if fmt in ('FlatGeobuf', 'gpkg', 'SQLite') else [])
    call('writing %s' % fmt, w.write_geojson_features, fs)
    x = ogr.Open(p)
    l = x.GetLayer(0)
    got = [(int(f['nodeid']), float(f['v'])) for f in l]
    if got != [(f['properties']['nodeid'], f['properties']['v']) for f in fs] if fmt not in ('GeoJSON', 'CSV', 'ESRI Shapefile') else [g[0] for g in got] != list(range(n)):
        o.bad('count', '%s: %d features written, OGR reads %d (first difference at %s)' % (fmt, n, len(got), next((k for k, g in enumerate(got) if g[0] != k), None)))
    l = x = None
    got = call('reading', call('VectorReader', io.VectorReader, p, 0 if fmt == 'CSV' else 'many').read_geojson_features)
    if [int(g['properties']['nodeid']) for g in got] != list(range(n)):
        o.bad('count', '%s: %d features written, VectorReader reads %d' % (fmt, n, len(got)))
    o.count('many')
    o.case(True, fmt, n)
    o.sample = 'many %s %d' % (fmt, n)


def number(rng, fmt):
    x = rng.random()
    if fmt == 'ESRI Shapefile':
        return float(rng.normal() * 1000)
    if x < .5:
        return float(rng.normal() * 10.0 ** rng.integers(-5, 9))
    return [0.1, 1 / 3, 1e-300, 1e300, 5.0, 0.0, -2.5, 123456789.123456789, 2 ** .5, float(np.nextafter(1, 2)), 1e21, 6199999.999999999, 1e-7][int(rng.integers(13))]


def features(rng, fmt, geom, n):
    short = fmt == 'ESRI Shapefile'
    kinds = {}
    names = ['i', 'big', 'r', 't', 'nodeid', 'BSPOT_AREA', 'maybe', 'maybe_r', 'maybe_t', 'hist_count'] + ([] if short else ['a longer name', 'blå', 'nodeid2', 'wshed_area_long_name'])
    take = [names[i] for i in sorted(rng.choice(len(names), int(rng.integers(1, len(names) + 1)), replace=False))]
    texts = [t for t in TEXT if not (fmt == 'CSV' and t == '' ) and not (short and (len(t.encode()) > 80 or t == '' or '日' in t or t != t.strip()))]
    out = []
    c0 = np.round(rng.normal(size=2) * [1e5, 1e6] + [6e5, 6.2e6], int(rng.integers(0, 4)))

    def pt():
        p = c0 + (np.round(rng.normal(size=2) * 100, 1) if rng.random() < .5 else rng.normal(size=2) * 100)
        return [float(p[0]), float(p[1])]
    for k in range(n):
        p = {}
        for a in take:
            miss = rng.random() < .3 and k > 0
            if a == 'i' or a == 'nodeid':
                v = int(rng.integers(-1000, 1000)) if a == 'i' else k
            elif a == 'big':
                v = int([2 ** 31, 2 ** 31 - 1, -2 ** 31 - 1, 2 ** 40 + 7, 2 ** 53 - 1, 0][int(rng.integers(6))]) if not short else int([2 ** 31, 2 ** 40, -5, 10 ** 15][int(rng.integers(4))])
            elif a in ('r', 'BSPOT_AREA', 'a longer name', 'wshed_area_long_name'):
                v = number(rng, fmt)
            elif a in ('t', 'hist_count', 'blå'):
                v = texts[int(rng.integers(len(texts)))]
            elif a in ('maybe', 'nodeid2'):
                v = None if miss else int(rng.integers(0, 9))
            elif a == 'maybe_r':
                v = None if miss else number(rng, fmt)
            else:
                v = None if miss else texts[int(rng.integers(len(texts)))]
            p[a] = v
        g = None
        if geom == 'Point':
            g = dict(type='Point', coordinates=pt())
        elif geom == 'LineString':
            g = dict(type='LineString', coordinates=[pt() for _ in range(int(rng.integers(2, 30)))])
        elif geom == 'Polygon':
            x, y = [float(v) for v in np.round(c0)]
            s = float(rng.integers(3, 50))
            ring = [[x, y], [x + s, y], [x + s, y + s], [x, y + s], [x, y]]
            hole = [[x + 1, y + 1], [x + 1, y + 2], [x + 2, y + 2], [x + 2, y + 1], [x + 1, y + 1]]
            g = dict(type='Polygon', coordinates=[ring[::-1] if short else ring] + ([hole[::-1] if short else hole] if rng.random() < .5 else []))
        out.append(dict(type='Feature', id=k, geometry=g, properties=p))
    return out, take


def close_coords(a, b, tol):
    if isinstance(a, (int, float)):
        return abs(a - b) <= tol
    return len(a) == len(b) and all(close_coords(x, y, tol) for x, y in zip(a, b))


def norm(g):
    """Coordinates of a geometry as read by either reader"""
    if g is None:
        return None
    c = g['coordinates']
    if g['type'] == 'POINT':
        return [list(c[0])]
    if g['type'] == 'Point':
        return [list(c[:2])]
    if g['type'] in ('Polygon', 'POLYGON'):
        # start and direction of rings are not significant
        return [sorted([list(p[:2]) for p in r[:-1]]) for r in c]
    return [list(p[:2]) for p in c]


def compare(o, fmt, fs, got, who, tag, names):
    if len(fs) != len(got):
        o.bad('count', '%s: %d features written, %s reads %d' % (tag, len(fs), who, len(got)))
        return
    for k, (f, g) in enumerate(zip(fs, got)):
        for n in names:
            v = f['properties'][n]
            q = {a.lower(): b for a, b in g['props'].items()}
            if fmt == 'ESRI Shapefile':
                key = n[:10].lower()
            else:
                key = n.lower()
            if key not in q:
                o.bad('field', '%s: %s finds no attribute %s (%s)' % (tag, who, n, sorted(q)))
                return
            u = q[key]
            if not same_value(fmt, v, u):
                o.bad('value', '%s: attribute %s of feature %d is %r, %s reads %r' % (tag, n, k, v if not isinstance(v, str) else v[:80], who, u if not isinstance(u, str) else u[:80]))
                return
            o.count('real', isinstance(v, float)); o.count('text', isinstance(v, str)); o.count('missing', v is None); o.count('integer', isinstance(v, int)); o.count('big_integer', isinstance(v, int) and abs(v) > 2 ** 31)
        if fmt == 'CSV':
            continue
        a, b = norm(f['geometry']), norm(g['geom'])
        tol = 1e-6 if fmt == 'GeoJSON' else 0
        if (a is None) != (b is None) or a is not None and not close_coords(a, b, tol):
            o.bad('geometry', '%s: geometry of feature %d is %s, %s reads %s' % (tag, k, str(a)[:120], who, str(b)[:120]))
            return


def same_value(fmt, v, u):
    if v is None:
        return u is None or fmt in ('CSV',) and u == ''
    if isinstance(v, str):
        return u == v
    if u is None:
        return False
    if fmt == 'CSV':
        try:
            u = float(u) if isinstance(v, float) else int(u)
        except ValueError:
            return False
    if isinstance(v, float):
        if not isinstance(u, (int, float)):
            return False
        if fmt in ('CSV', 'GeoJSON'):
            return abs(u - v) <= 1e-12 * abs(v) + 1e-300
        if fmt == 'ESRI Shapefile':
            return abs(u - v) <= 1e-11 * max(1, abs(v))
        return u == v
    return isinstance(u, (int, float)) and u == v


def run_case(case, o, d):
    dict(rt=rt, layers=other_layers, options=options, scenario=scenario, dates=dates, many=many, held=held)[case['t']](case, o, d)


def rt(case, o, d):
    from malstroem import io
    rng = np.random.default_rng([case['seed'], 21])
    fmt = case['fmt']
    for rep in range(4):
        geom = ['Point', 'LineString', 'Polygon', None][int(rng.integers(4))]
        if fmt in ('CSV',):
            geom = None if rng.random() < .5 else 'Point'
        if fmt == 'ESRI Shapefile' and geom is None:
            geom = 'Point'
        n = int(rng.choice([0, 1, 2, 7, 40, 400] if fmt != 'FlatGeobuf' else [1, 2, 7, 40, 400]))
        fs, names = features(rng, fmt, geom, n)
        name = 'layer%d' % rep
        p = os.path.join(d, '%s.%s' % (name, EXT[fmt]))
        crs = cli.wkt(int(rng.choice([25832, 32633, 3857]))) if geom or fmt == 'FlatGeobuf' or rng.random() < .7 else None
        if crs and fmt == 'gpkg' and rng.random() < .3:
            crs = cli.wkt(cli.CUSTOM[int(rng.integers(len(cli.CUSTOM)))])
        lco = ['SPATIAL_INDEX=NO'] if fmt == 'FlatGeobuf' else []
        kind = int(rng.integers(3))
        given = fs if kind == 0 else (f for f in fs) if kind == 1 else dict(type='FeatureCollection', features=fs)
        o.count('generator', kind == 1); o.count('collection', kind == 2)
        import copy
        keep = copy.deepcopy(fs)
        w = call('VectorWriter', io.VectorWriter, fmt, p, name, None, WKB[geom] if geom else ogr.wkbNone, crs, [], lco)
        call('writing %s' % fmt, w.write_geojson_features, given)
        tag = '%s %s, %d features' % (fmt, geom, n)
        if fs != keep:
            o.bad('input', '%s: writing changes the features' % tag)
        g = cli.read_layer(p, name)
        compare(o, fmt, fs, g['feats'], 'OGR', tag, names)
        r = call('VectorReader', io.VectorReader, p, name)
        got = call('reading', r.read_geojson_features)
        compare(o, fmt, fs, [dict(props=x['properties'], geom=x['geometry']) for x in got], 'VectorReader', tag, names)
        again = call('reading again', r.read_geojson_features)
        if again != got:
            o.bad('again', '%s: the second read differs (%d and %d features)' % (tag, len(got), len(again)))
        if crs and fmt != 'CSV' and geom:
            for c, who in ((g['crs'], 'OGR'), (r.crs, 'VectorReader')):
                from vf.checks.c20 import same_crs
                if not c or not same_crs(crs, c):
                    o.bad('crs', '%s: coordinate system %s, %s reads %s' % (tag, crs[:50], who, (c or '')[:50]))
        # OGR does not list SQLite tables without geometry
        for which in (None, 0) if (fmt, geom) != ('SQLite', None) else ():
            x = call('VectorReader', io.VectorReader, p, which)
            if len(call('reading', x.read_geojson_features)) != n:
                o.bad('reader', '%s: layer %r has another number of features' % (tag, which))
            o.count('reader_index')
        o.count('w_' + fmt); o.count('g_%s' % geom); o.count('empty', n == 0)
        o.case(n > 1, fmt, repr(fs))
    # additional fields of the caller, the same list for several layers; and one name for several files, one after the other
    more = [ogr.FieldDefn('extra', ogr.OFTString)]
    at = lambda k: [dict(type='Feature', geometry=dict(type='Point', coordinates=[float(i), float(k)]), properties={'n%d' % k: int(rng.integers(1, 10)), 'same': int(rng.integers(10))}) for i in range(3)]
    p = os.path.join(d, 'again', 'again.' + EXT[fmt])
    for k in range(3):
        os.makedirs(os.path.dirname(p))
        fs = at(k)
        w = call('VectorWriter', io.VectorWriter, fmt, p, 'again', more if k < 2 else None, ogr.wkbPoint, cli.wkt(25832), [], ['SPATIAL_INDEX=NO'] if fmt == 'FlatGeobuf' else [])
        call('writing %s with additional fields' % fmt, w.write_geojson_features, fs)
        got = call('reading', call('VectorReader', io.VectorReader, p, 'again').read_geojson_features)
        mine = set(got[0]['properties']) - {'fid', 'ogc_fid'} if got else set()
        own = {'n%d' % k, 'same'}
        # GeoJSON has no attributes without value
        if len(more) != 1 or mine != own | ({'extra'} if k < 2 else set()) and not (fmt.startswith('GeoJSON') and mine == own):
            o.bad('fields', '%s: layer %d has the attributes %s, the list of additional fields %d elements' % (fmt, k, sorted(mine), len(more)))
            break
        if [[float(f['properties'][x]) for x in ('n%d' % k, 'same')] for f in got] != [[f['properties'][x] for x in ('n%d' % k, 'same')] for f in fs]:
            o.bad('stale', '%s: a file of the same name as an earlier one reads %s, written %s' % (fmt, [f['properties'] for f in got], [f['properties'] for f in fs]))
            break
        import shutil
        shutil.rmtree(os.path.dirname(p))
        o.count('additional_fields', k < 2); o.count('recreated', k > 0)
    o.sample = tag


def snapshot(path, skip=()):
    """Everything about each layer but `skip`"""
    out = {}
    for n in cli.layers(path):
        if n in skip:
            continue
        x = cli.read_layer(path, n)
        out[n] = repr((x['fields'], x['feats'], x['crs'], x['geomtype']))
    return out


def other_layers(case, o, d):
    """Layers written one after the other into one data source"""
    from malstroem import io
    rng = np.random.default_rng([case['seed'], 22])
    fmt = ['gpkg', 'gpkg', 'SQLite'][case['seed'] % 3]
    p = os.path.join(d, 'x.' + EXT[fmt])
    names = list(NAMES if fmt == 'gpkg' else ['plain', 'under_score', 'nodes', 'nodes2', 'run1', 'run10', 'abc'])
    rng.shuffle(names)
    want = {}
    base = {}
    if rng.random() < .5:
        # a data source of somebody else
        ds = ogr.GetDriverByName(fmt).CreateDataSource(p)
        s = osr.SpatialReference(); s.ImportFromEPSG(4326)
        l = ds.CreateLayer('foreign', s, ogr.wkbMultiPolygon)
        l.CreateField(ogr.FieldDefn('when', ogr.OFTDateTime)); l.CreateField(ogr.FieldDefn('v', ogr.OFTReal))
        f = ogr.Feature(l.GetLayerDefn()); f['v'] = .1; f.SetGeometry(ogr.CreateGeometryFromWkt('MULTIPOLYGON(((0 0,1 0,1 1,0 0)))')); l.CreateFeature(f)
        f = l = ds = None
        base = snapshot(p)
    for k, name in enumerate(names[:int(rng.integers(2, 7))]):
        geom = ['Point', 'LineString', 'Polygon', None][int(rng.integers(4))]
        fs, cols = features(rng, fmt, geom, int(rng.choice([0, 1, 5, 60])))
        before = snapshot(p) if os.path.exists(p) else {}
        if geom == 'Polygon' and rng.random() < .4:
            z = rng.integers(0, 4, (6, 7)).astype('i4')
            cli.write_tif(os.path.join(d, 'l.tif'), z, nodata=0)
            cli.ok(['polys', '-raster', os.path.join(d, 'l.tif'), '-out', p, '-layername', name, '-format', fmt])
            fs = None
            if name in cli.layers(p):
                x = cli.read_layer(p, name)['crs']
                if not x or not same_crs(cli.wkt(), x):
                    o.bad('polys-crs', '%s: polygons of a raster in EPSG:25832 are written to layer %r in %s (the data source has layers %s)' % (fmt, name, (x or '')[:60], sorted(before)))
                o.count('polys_crs')
        else:
            w = call('VectorWriter', io.VectorWriter, fmt, p, name, None, WKB[geom] if geom else ogr.wkbNone, cli.wkt(), [], [])
            call('writing layer %r' % name, w.write_geojson_features, fs)
        after = snapshot(p)
        have = cli.layers(p)
        if name not in have:
            o.bad('layer-name', '%s: layer %r was requested, the data source has %s' % (fmt, name, have))
            return
        o.count('layer_names')
        if set(after) != set(before) | {name}:
            o.bad('layers', '%s: layers %s before, %s after writing %r' % (fmt, sorted(before), sorted(after), name))
        for n, v in before.items():
            if after.get(n) != v:
                o.bad('other-layer', '%s: writing layer %r changes layer %r' % (fmt, name, n))
            o.count('other_layers')
        if fs is not None:
            compare(o, fmt, fs, cli.read_layer(p, name)['feats'], 'OGR', '%s layer %r' % (fmt, name), cols if fs else [])
            r = call('VectorReader', io.VectorReader, p, name)
            if len(call('reading', r.read_geojson_features)) != len(fs):
                o.bad('reader', '%s: reading layer %r returns another layer' % (fmt, name))
        o.case(True, 'layers', fmt, name, k, case['seed'])
    o.sample = '%s layers %s' % (fmt, have)


def held(case, o, d):
    """A layer to be written to a data source which is write-protected, locked by others or of a format which takes but one layer: the layers it holds stay"""
    from malstroem import io
    from vf.checks.c26 import forked
    rng = np.random.default_rng([case['seed'], 24])
    z = rng.integers(0, 4, (6, 7)).astype('i4')
    tif = cli.write_tif(os.path.join(d, 'l.tif'), z, nodata=0)
    for fmt, ext, way in (('gpkg', 'gpkg', 'protected'), ('SQLite', 'sqlite', 'protected'), ('gpkg', 'gpkg', 'locked'), ('SQLite', 'sqlite', 'locked'), ('GeoJSON', 'geojson', 'protected'), ('FlatGeobuf', 'fgb', 'protected'),
                          ('GeoJSON', 'geojson', 'one'), ('FlatGeobuf', 'fgb', 'one'), ('GML', 'gml', 'one')):
        sub = os.path.join(d, '%s_%s' % (fmt, way))
        os.makedirs(sub)
        p = os.path.join(sub, 'x.' + ext)
        n = int(rng.integers(1, 4)) if fmt in ('gpkg', 'SQLite') else 1
        for k in range(n):
            fs, cols = features(rng, fmt if fmt in FMT else 'GeoJSON', 'Point', int(rng.choice([1, 5, 60])))
            call('writing layer %d' % k, io.VectorWriter(fmt, p, 'x' if n == 1 and k == 0 and rng.random() < .3 else 'old%d' % k, None, ogr.wkbPoint, cli.wkt(), [], []).write_geojson_features, fs)
        before = {k: len(v) for k, v in ((k, cli.read_layer(p, k)['feats']) for k in cli.layers(p))}
        whole = snapshot(p)
        fs, cols = features(rng, fmt if fmt in FMT else 'GeoJSON', 'Point', int(rng.choice([0, 1, 5, 60])))
        polys = bool(rng.random() < .4)

        def go():
            if way == 'protected':
                q = sub
                while q != '/' and q.startswith(os.environ['VF_SCRATCH'].rsplit('/', 1)[0]):
                    os.chmod(q, 0o755)
                    q = os.path.dirname(q)
                os.chmod(sub, 0o777)
                for f in os.listdir(sub):
                    os.chmod(os.path.join(sub, f), 0o444)
                os.chmod(os.environ['TMPDIR'], 0o777)
                try:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    return dict(skip=1)
                if not os.access(p, os.R_OK) or not os.access(tif, os.R_OK) or os.access(p, os.W_OK):
                    return dict(skip=1)
            try:
                if polys:
                    return dict(err='' if not cli.run(['polys', '-raster', tif, '-out', p, '-layername', 'new', '-format', fmt])[0] else 'status')
                io.VectorWriter(fmt, p, 'new', None, ogr.wkbPoint, cli.wkt(), [], []).write_geojson_features(fs)
                return dict(err='')
            except Exception as e:
                return dict(err=repr(e)[:150])
        db = None
        if way == 'locked':
            db = sqlite3.connect(p, isolation_level=None)
            db.execute('begin exclusive')
        r = forked(go)
        if db:
            try:
                db.execute('rollback')
            except sqlite3.Error:
                pass
            db.close()
        if 'harness' in r:
            raise RuntimeError(r['harness'])
        if 'skip' in r:
            o.count('held_skipped')
            continue
        tag = '%s: writing a layer to a data source %s' % (fmt, dict(protected='which is write-protected', locked='which is locked by another program', one='which holds another layer')[way])
        if 'err' not in r:
            o.bad('held-ends', '%s: %s' % (tag, r))
            continue
        try:
            after = snapshot(p)
        except Exception as e:
            after = {'?': repr(e)[:100]}
        for k, v in whole.items():
            if after.get(k) != v:
                o.bad('held-lost', '%s: layer %r of %d features is %s (the data source now has %s; the writer reported %s)' % (tag, k, before[k], 'changed' if k in after else 'lost', sorted(after), r['err'] or 'success'))
        if not r['err'] and 'new' not in after and fmt in FMT:
            o.bad('held-success', '%s: success is reported, but there is no such layer' % tag)
        o.count('held_' + way)
        o.case(True, 'held', fmt, way, case['seed'])
    o.sample = '%s: %s' % (tag, r)


def prepared(d, seed):
    """Rasters and one data source with the layers of a chain, made once per process"""
    rng = np.random.default_rng([seed, 23])
    z = gen.dem(dict(seed=seed, kind='quant' if 'quant' in gen.NAMES else 'white', shape=[14, 15], scale='unit'))
    cli.write_tif(os.path.join(d, 'dem.tif'), z)
    return cli.chain(os.path.join(d, 'dem.tif'), d)


def options(case, o, d):
    """Names, formats and options given to each command"""
    rng = np.random.default_rng([case['seed'], 24])
    prepared(d, case['seed'] % 7)
    P = lambda n: os.path.join(d, n)
    v = P('vec.gpkg')
    cmds = dict(
        pourpts=(['-bluespots', P('bluespots.tif'), '-depths', P('depths.tif'), '-watersheds', P('wsheds.tif'), '-dem', P('dem.tif')], [('-layername', 'pourpoints', 'pourpoints')]),
        network=(['-bluespots', P('bluespots.tif'), '-flowdir', P('flowdir.tif'), '-pourpoints', v, '-pourpoints_layer', 'pourpoints'], [('-out_nodes_layer', 'nodes', 'nodes'), ('-out_streams_layer', 'streams', 'streams')]),
        initvolumes=(['-nodes', v, '-nodes_layer', 'nodes', '-mm', 20], [('-out_layer', 'initvolumes', 'initvolumes')]),
        finalvolumes=(['-inputvolumes', v, '-inputvolumes_layer', 'initvolumes'], [('-out_layer', 'finalvolumes', 'finalvolumes')]),
        hyps=(['-bluespots', P('bluespots.tif'), '-dem', P('dem.tif'), '-pourpoints', v, '-pourpoints_layer', 'pourpoints', '-zresolution', .1], [('-out_hyps_layer', 'hyps', 'hyps')]),
        finallevels=(['-finalvols', v, '-finalvols_layer', 'finalvolumes', '-hyps', v, '-hyps_layer', 'hyps'], [('-out_layer', 'finallevels', 'finallevels')]),
        polys=(['-raster', P('finalbluespots.tif')], [('-layername', 'polygonized', 'polygonized')]))
    base = snapshot(v)
    for k, (c, (args, layers)) in enumerate(cmds.items()):
        names = ['L%d %s' % (i, str(rng.choice(['x', 'y z', 'Ø', 'run-1']))) for i in range(len(layers))]
        a = [c] + args
        for (opt, _, _), n in zip(layers, names):
            a += [opt, n]
        what = int(rng.integers(4))
        out = P('o%d.gpkg' % k)
        if what == 0:
            a += ['-format', str(rng.choice(['gpkg', 'GPKG'])), '-lco', 'FID=my_id', '-lco', 'DESCRIPTION=some text here', '-out', out]
        elif what == 1:
            two = ['VERSION=1.4', 'ADD_GPKG_OGR_CONTENTS=NO']
            a += ['-format', 'gpkg', '-out', out]
            for x in two[::1 if rng.random() < .5 else -1]:
                a += ['-dsco', x]
        elif what == 2:
            out = P('o%d.sqlite' % k)
            a += ['-format', 'sqlite', '-dsco', 'METADATA=YES', '-lco', 'LAUNDER=NO', '-lco', 'FID=my_id', '-out', out]
        else:
            # several layers in one existing data source
            out = v
            names = ['second %s %d' % (c, i) for i in range(len(layers))]
            a = [c] + args
            for (opt, _, _), n in zip(layers, names):
                a += [opt, n]
            a += ['-format', 'gpkg', '-out', out]
        before = snapshot(v)
        cli.ok(a)
        have = cli.layers(out)
        if what < 3 and sorted(have) != sorted(names):
            o.bad('layer-name', '%s: layers %s requested, %s written' % (c, names, have))
            continue
        if any(n not in have for n in names):
            o.bad('layer-name', '%s: layers %s requested, data source has %s' % (c, names, have))
            continue
        o.count('layer_names', len(names))
        after = snapshot(v, skip=names if out == v else ())
        if after != before:
            o.bad('other-layer', '%s -out %s changes %s' % (c, os.path.basename(out), [n for n in before if after.get(n) != before[n]] or sorted(set(after) ^ set(before))))
        o.count('other_layers', len(before))
        ref_names = [l[2] for l in layers]
        for n, rn in zip(names, ref_names):
            got = cli.read_layer(out, n)
            want = cli.read_layer(v, rn)
            x, y = [(f['props'], f['geom']) for f in got['feats']], [(f['props'], f['geom']) for f in want['feats']]
            for q in x:
                q[0].pop('my_id', None)
            if x != y:
                o.bad('content', '%s with %s: layer %s differs from the one written without (%d and %d features)' % (c, a[-6:], n, len(x), len(y)))
        con = sqlite3.connect(out)
        try:
            if what == 0:
                for n in names:
                    col = con.execute('select name from pragma_table_info(?) where pk=1', (n,)).fetchall()
                    desc = con.execute('select description from gpkg_contents where table_name=?', (n,)).fetchall()
                    if col != [('my_id',)]:
                        o.bad('lco', '%s -lco FID=my_id: layer %s has key %s' % (c, n, col))
                    if desc != [('some text here',)]:
                        o.bad('lco', '%s: the second -lco is not honoured: %s' % (c, desc))
                    o.count('lco')
            elif what == 1:
                ver = con.execute('pragma user_version').fetchall()
                if ver != [(10400,)]:
                    o.bad('dsco', '%s -dsco VERSION=1.4 creates version %s' % (c, ver))
                if con.execute("select 1 from sqlite_master where name='gpkg_ogr_contents'").fetchall():
                    o.bad('dsco', '%s: %s is not honoured' % (c, a[-4:]))
                o.count('dsco')
            elif what == 2:
                for n in names:
                    col = con.execute('select name from pragma_table_info(?) where pk=1', (n,)).fetchall()
                    if col != [('my_id',)]:
                        o.bad('lco', '%s -lco FID=my_id: layer %s has key %s' % (c, n, col))
                    o.count('lco')
        finally:
            con.close()
        o.case(True, 'options', c, what, tuple(names))
    for n, x in snapshot(v).items():
        if n in base and base[n] != x:
            o.bad('other-layer', 'layer %s changed' % n)


def scenario(case, o, d):
    """Several rain scenarios into one data source, and attributes of the user carried along"""
    rng = np.random.default_rng([case['seed'], 25])
    z = gen.dem(dict(seed=case['seed'], kind=str(rng.choice(gen.NAMES)), shape=[int(x) for x in rng.integers(8, 26, 2)], scale='unit'))
    cli.write_tif(os.path.join(d, 'dem.tif'), z)
    fmt = str(rng.choice(['gpkg', 'SQLite']))
    cli.chain(os.path.join(d, 'dem.tif'), d, fmt=fmt)
    v = os.path.join(d, 'vec.' + EXT[fmt])
    # attributes of the user
    ds = ogr.Open(v, 1)
    l = ds.GetLayerByName('nodes')
    for n, t in (('note', ogr.OFTString), ('cost', ogr.OFTReal), ('num', ogr.OFTInteger64)):
        l.CreateField(ogr.FieldDefn(n, t))
    want = {}
    for f in list(l):
        note, cost, num = [None, 'text å', 'x'][int(rng.integers(3))], None if rng.random() < .3 else float(rng.normal()), int(rng.integers(0, 2 ** 40))
        for a, b in (('note', note), ('cost', cost), ('num', num)):
            if b is None:
                f.SetFieldNull(a)
            else:
                f.SetField(a, b)
        want[f['nodeid']] = (note, cost, num)
        l.SetFeature(f)
    f = l = ds = None
    ref_state = {}
    for k in range(int(rng.integers(2, 5))):
        mm = float(rng.choice([1, 5, 20, 100.5])) + k
        before = snapshot(v)
        a, b, c = 'init_%d' % k, 'final_%d' % k, 'levels_%d' % k
        cli.ok(['initvolumes', '-nodes', v, '-nodes_layer', 'nodes', '-mm', mm, '-out', v, '-out_layer', a, '-format', fmt])
        cli.ok(['finalvolumes', '-inputvolumes', v, '-inputvolumes_layer', a, '-out', v, '-out_layer', b, '-format', fmt])
        cli.ok(['finallevels', '-finalvols', v, '-finalvols_layer', b, '-hyps', v, '-hyps_layer', 'hyps', '-out', v, '-out_layer', c, '-format', fmt])
        after = snapshot(v)
        if set(after) - set(before) != {a, b, c}:
            o.bad('layers', 'scenario %d adds layers %s' % (k, sorted(set(after) - set(before))))
        for n in before:
            if before[n] != after.get(n):
                o.bad('other-layer', 'scenario %d changes layer %s' % (k, n))
        for n in (a, b):
            for f in cli.read_layer(v, n)['feats']:
                p = f['props']
                got = (p.get('note'), p.get('cost'), p.get('num'))
                if got != want[p['nodeid']]:
                    o.bad('carried', 'layer %s: attributes (note, cost, num) of node %s are %s, in the nodes layer %s' % (n, p['nodeid'], got, want[p['nodeid']]))
                    break
                o.count('carried')
        o.count('scenario')
    o.case(len(want) > 1, 'scenario', z, fmt)


def dates(case, o, d):
    """Text which looks like a date"""
    from malstroem import io
    fs = [dict(type='Feature', geometry=dict(type='Point', coordinates=[1.0, 2.0]), properties=dict(t=t)) for t in ('2020-01-01', '2020-02-30x'[:10] and '2021-12-31')]
    p = os.path.join(d, 'd.gpkg')
    io.VectorWriter('gpkg', p, 'd', None, ogr.wkbPoint, cli.wkt()).write_geojson_features(fs)
    got = [f['props']['t'] for f in cli.read_layer(p, 'd')['feats']]
    want = [f['properties']['t'] for f in fs]
    if got == [w.replace('-', '/') for w in want]:
        o.bad('date-like-text', 'text %s is read as %s' % (want, got))
    elif got != want:
        o.bad('value', 'text %s is read as %s' % (want, got))
    # among other text it stays as it is
    fs += [dict(type='Feature', geometry=dict(type='Point', coordinates=[1.0, 2.0]), properties=dict(t='text'))]
    p = os.path.join(d, 'e.gpkg')
    io.VectorWriter('gpkg', p, 'e', None, ogr.wkbPoint, cli.wkt()).write_geojson_features(fs)
    got = [f['props']['t'] for f in cli.read_layer(p, 'e')['feats']]
    if got != want + ['text']:
        o.bad('value', 'text %s is read as %s' % (want + ['text'], got))
    o.count('date_like')
    o.case(True, 'dates')
