"""Driving the real commands and reading their outputs with GDAL/OGR directly (no malstroem reader)"""
import hashlib, json, os, subprocess, sys
import numpy as np
from osgeo import gdal, ogr, osr
from .core import RepoError, PY

gdal.UseExceptions()
GTYPE = {'u1': gdal.GDT_Byte, 'i1': gdal.GDT_Int8, 'i2': gdal.GDT_Int16, 'u2': gdal.GDT_UInt16, 'i4': gdal.GDT_Int32, 'u4': gdal.GDT_UInt32,
         'i8': gdal.GDT_Int64, 'u8': gdal.GDT_UInt64, 'f4': gdal.GDT_Float32, 'f8': gdal.GDT_Float64}
_wkt = {}


def wkt(epsg=25832):
    if epsg not in _wkt:
        s = osr.SpatialReference()
        if isinstance(epsg, int):
            s.ImportFromEPSG(epsg)
        else:
            (s.ImportFromProj4 if epsg[0] == '+' else s.ImportFromWkt)(epsg)
        _wkt[epsg] = s.ExportToWkt()
    return _wkt[epsg]


# coordinate systems without code of their own
CUSTOM = ['LOCAL_CS["site",UNIT["metre",1]]', 'LOCAL_CS["Byggeplads 7",UNIT["metre",1],AXIS["Easting",EAST],AXIS["Northing",NORTH]]',
          '+proj=tmerc +lat_0=0 +lon_0=9.5 +k=0.9998 +x_0=200000 +y_0=-100 +ellps=GRS80 +units=m', '+proj=laea +lat_0=52 +lon_0=10 +x_0=4321000 +y_0=3210000 +ellps=GRS80 +units=m', 7416, 2263]

GT = (600000.0, 1.0, 0.0, 6200000.0, 0.0, -1.0)


def write_tif(path, a, gt=GT, nodata=None, crs=25832, driver='GTiff', opts=()):
    a = np.asarray(a)
    t = GTYPE[a.dtype.str[1:]]
    drv = gdal.GetDriverByName(driver)
    if drv.GetMetadataItem('DCAP_CREATE') == 'YES':
        ds = drv.Create(path, a.shape[1], a.shape[0], 1, t, list(opts))
    else:
        ds = gdal.GetDriverByName('MEM').Create('', a.shape[1], a.shape[0], 1, t)
    if gt is not None:
        ds.SetGeoTransform(gt)
    if crs:
        ds.SetProjection(wkt(crs) if isinstance(crs, int) else crs)
    b = ds.GetRasterBand(1)
    if nodata is not None:
        b.SetNoDataValue(nodata)
    b.WriteArray(np.ascontiguousarray(a))
    if drv.GetMetadataItem('DCAP_CREATE') != 'YES':
        out = drv.CreateCopy(path, ds, 1, list(opts))
        out.FlushCache()
        out = None
    b = None
    ds.FlushCache()
    ds = None
    return path


def read_tif(path):
    ds = gdal.Open(path)
    b = ds.GetRasterBand(1)
    return dict(a=b.ReadAsArray(), gt=ds.GetGeoTransform(), wkt=ds.GetProjection(), nodata=b.GetNoDataValue(), type=b.DataType,
                bands=ds.RasterCount)


def arr(path):
    return read_tif(path)['a']


def layers(path):
    ds = ogr.Open(path)
    names = [ds.GetLayerByIndex(i).GetName() for i in range(ds.GetLayerCount())]
    if ds.GetDriver().GetName() == 'SQLite':
        # OGR does not list tables without geometry
        ds = gdal.OpenEx(path, open_options=['LIST_ALL_TABLES=YES'])
        names += [n for n in (ds.GetLayer(i).GetName() for i in range(ds.GetLayerCount()))
                  if n not in names and n not in ('geometry_columns', 'spatial_ref_sys', 'sqlite_sequence', 'METADATA') and not n.startswith('sqlite_')]
    return names


def export(srs):
    try:
        return srs.ExportToWkt() if srs else None
    except RuntimeError:
        # empty
        return None


def read_layer(path, name=None):
    """Features in order: props, geometry type and coordinates"""
    ds = ogr.Open(path)
    if ds is None:
        raise IOError('cannot open ' + path)
    lyr = ds.GetLayerByName(name) if name is not None else ds.GetLayerByIndex(0)
    if lyr is None:
        raise IOError('no layer %s in %s' % (name, path))
    defn = lyr.GetLayerDefn()
    fields = [(defn.GetFieldDefn(i).GetName(), defn.GetFieldDefn(i).GetTypeName()) for i in range(defn.GetFieldCount())]
    out = []
    for f in lyr:
        props = {}
        for i, (n, t) in enumerate(fields):
            if not f.IsFieldSetAndNotNull(i):
                props[n] = None
            elif t in ('Integer', 'Integer64'):
                props[n] = f.GetFieldAsInteger64(i)
            elif t == 'Real':
                props[n] = f.GetFieldAsDouble(i)
            else:
                props[n] = f.GetFieldAsString(i)
        g = f.GetGeometryRef()
        geom = None
        if g is not None:
            geom = json.loads(g.ExportToJson(['COORDINATE_PRECISION=17'])) if g.GetGeometryType() not in (ogr.wkbPoint, ogr.wkbLineString) else \
                dict(type=g.GetGeometryName(), coordinates=[g.GetPoint_2D(i) for i in range(g.GetPointCount())])
        out.append(dict(props=props, geom=geom, fid=f.GetFID()))
    srs = lyr.GetSpatialRef()
    return dict(fields=fields, feats=out, crs=export(srs), geomtype=lyr.GetGeomType(), name=lyr.GetName())


def sha(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def tree_digest(d):
    """{relative path: (kind, mode, content digest)}"""
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            p = os.path.join(base, x)
            out[os.path.relpath(p, d)] = ('dir', os.lstat(p).st_mode)
        for x in files:
            p = os.path.join(base, x)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = ('link', os.readlink(p)) if os.path.islink(p) else ('file', st.st_mode, sha(p))
    return out


def run(args, cwd=None):
    """Run a command in this process. (exit code, output, exception)"""
    from click.testing import CliRunner
    from malstroem.scripts.cli import cli
    old = os.getcwd()
    if cwd:
        os.chdir(cwd)
    try:
        r = CliRunner().invoke(cli, [str(x) for x in args])
    finally:
        os.chdir(old)
    exc = r.exception if r.exception is not None and not isinstance(r.exception, SystemExit) else None
    # the traceback keeps data sources alive
    if exc is not None:
        exc = type(exc)(*[str(a) for a in getattr(exc, 'args', ())][:1]) if isinstance(exc, (Exception,)) and type(exc).__module__ == 'builtins' else Exception('%s: %s' % (type(exc).__name__, exc))
    code, out = r.exit_code, r.output
    r = None
    import gc
    gc.collect(0)
    return code, out, exc


def ok(args, cwd=None):
    """Run a command which has to succeed"""
    code, out, exc = run(args, cwd)
    if code != 0:
        what = 'command %s exits with %s' % (' '.join(str(a) for a in args)[:200], code)
        raise RepoError(what, exc or Exception(out[-200:]))
    return out


def proc(tree, args, cwd=None, env=None, preexec=None, timeout=120, py_pre=''):
    """Run a command in a process of its own"""
    e = dict(os.environ)
    e['PYTHONPATH'] = tree
    e.update(env or {})
    code = 'import sys; sys.path.insert(0, %r)\n%s\nfrom malstroem.scripts.cli import cli\ncli(prog_name="malstroem")' % (tree, py_pre)
    return subprocess.run([PY, '-c', code] + [str(a) for a in args], cwd=cwd, env=e, preexec_fn=preexec, capture_output=True, text=True,
                          errors='replace', timeout=timeout)


RASTERS = dict(filled='filled.tif', flowdir='flowdir.tif', depths='bs_depths.tif', accum='accum.tif', bluespots='bluespots.tif',
               watersheds='watersheds.tif', finaldepths='finaldepths.tif', finalbluespots='finalbluespots.tif')
LAYERS = ['pourpoints', 'nodes', 'streams', 'initvolumes', 'finalstate', 'hypsometry', 'finallevels', 'finalbluespots', 'bluespots', 'watersheds']


def complete_args(dem, outdir, mm=20, res=.1, filt=None, accum=False, vector=False):
    a = ['complete', '-dem', dem, '-outdir', outdir, '-mm', mm, '-zresolution', res]
    if filt:
        a += ['-filter', filt]
    if accum:
        a += ['-accum']
    if vector:
        a += ['-vector']
    return a


def load_complete(outdir, accum=False, vector=False):
    r = {}
    for k, f in RASTERS.items():
        if k == 'accum' and not accum:
            continue
        p = os.path.join(outdir, f)
        if not os.path.exists(p):
            raise RepoError('complete wrote no %s' % f, IOError(p))
        r[k] = read_tif(p)
    g = os.path.join(outdir, 'malstroem.gpkg')
    have = layers(g)
    for n in LAYERS:
        if n in ('bluespots', 'watersheds') and not vector:
            continue
        if n not in have:
            raise RepoError('complete wrote no layer %s' % n, IOError(g))
        r['L_' + n] = read_layer(g, n)
    return r


def complete(dem, outdir, accum=False, vector=False, **k):
    os.makedirs(outdir, exist_ok=True)
    ok(complete_args(dem, outdir, accum=accum, vector=vector, **k))
    return load_complete(outdir, accum, vector)


EXT = {'gpkg': 'gpkg', 'GeoJSON': 'geojson', 'ESRI Shapefile': '', 'SQLite': 'sqlite', 'CSV': 'csv', 'GML': 'gml'}


def chain(dem, d, mm=20, res=.1, filt=None, accum=False, vector=False, fmt='gpkg', single=True, names=None, pre='', run=ok, polys=True, fmts=None):
    """The documented sequence of subcommands. Returns paths {key: (datasource, layer)} or raster path"""
    P = lambda n: os.path.join(d, pre + n)
    n = dict(pourpoints='pourpoints', nodes='nodes', streams='streams', initvolumes='initvolumes', finalvolumes='finalvolumes',
             hyps='hyps', finallevels='finallevels', polys='polygonized')
    n.update(names or {})

    fmts = fmts or {}

    def ds(k):
        x = EXT[fmts.get(k, fmt)]
        if single and k not in fmts:
            return P('vec.' + x)
        # the layer of a CSV or GeoJSON file is named after the file
        return P('%s.%s' % (n.get(k, 'v_' + k) if x == 'csv' else 'v_' + k, x)) if x else P('v_' + k)

    def F(k):
        return ['-format', fmts.get(k, fmt)]
    out = {}
    run(['filled', '-dem', dem, '-out', P('filled.tif')])
    run(['depths', '-dem', dem, '-filled', P('filled.tif'), '-out', P('depths.tif')])
    run(['flowdir', '-dem', dem, '-out', P('flowdir.tif')])
    if accum:
        run(['accum', '-flowdir', P('flowdir.tif'), '-out', P('accum.tif')])
    run(['bspots', '-depths', P('depths.tif'), '-out', P('bluespots.tif')] + (['-filter', filt] if filt else []))
    run(['wsheds', '-bluespots', P('bluespots.tif'), '-flowdir', P('flowdir.tif'), '-out', P('wsheds.tif')])
    src = ['-accum', P('accum.tif')] if accum else ['-dem', dem]
    run(['pourpts', '-bluespots', P('bluespots.tif'), '-depths', P('depths.tif'), '-watersheds', P('wsheds.tif')] + src +
        ['-out', ds('pourpoints'), '-layername', n['pourpoints']] + F('pourpoints'))
    run(['network', '-bluespots', P('bluespots.tif'), '-flowdir', P('flowdir.tif'), '-pourpoints', ds('pourpoints'), '-pourpoints_layer', n['pourpoints'],
         '-out', ds('network'), '-out_nodes_layer', n['nodes'], '-out_streams_layer', n['streams']] + F('network'))
    run(['initvolumes', '-nodes', ds('network'), '-nodes_layer', n['nodes'], '-mm', mm, '-out', ds('initvolumes'), '-out_layer', n['initvolumes']] + F('initvolumes'))
    run(['finalvolumes', '-inputvolumes', ds('initvolumes'), '-inputvolumes_layer', n['initvolumes'], '-out', ds('finalvolumes'), '-out_layer', n['finalvolumes']] + F('finalvolumes'))
    run(['hyps', '-bluespots', P('bluespots.tif'), '-dem', dem, '-pourpoints', ds('pourpoints'), '-pourpoints_layer', n['pourpoints'], '-zresolution', res,
         '-out', ds('hyps'), '-out_hyps_layer', n['hyps']] + F('hyps'))
    run(['finallevels', '-finalvols', ds('finalvolumes'), '-finalvols_layer', n['finalvolumes'], '-hyps', ds('hyps'), '-hyps_layer', n['hyps'],
         '-out', ds('finallevels'), '-out_layer', n['finallevels']] + F('finallevels'))
    run(['finalbluespots', '-bluespots', P('bluespots.tif'), '-dem', dem, '-finallevels', ds('finallevels'), '-finallevels_layer', n['finallevels'],
         '-out_depths', P('finaldepths.tif'), '-out_bluespots', P('finalbluespots.tif')])
    if polys:
        run(['polys', '-raster', P('finalbluespots.tif'), '-out', ds('polys'), '-layername', n['polys']] + F('polys'))
        out['L_finalbluespots'] = (ds('polys'), n['polys'])
        if vector:
            for k, src in (('bluespots', 'bluespots.tif'), ('watersheds', 'wsheds.tif')):
                run(['polys', '-raster', P(src), '-out', ds('poly_' + k), '-layername', 'poly_' + k] + F('poly_' + k))
                out['L_' + k] = (ds('poly_' + k), 'poly_' + k)
    out.update(filled=P('filled.tif'), depths=P('depths.tif'), flowdir=P('flowdir.tif'), bluespots=P('bluespots.tif'), watersheds=P('wsheds.tif'),
               finaldepths=P('finaldepths.tif'), finalbluespots=P('finalbluespots.tif'))
    if accum:
        out['accum'] = P('accum.tif')
    out.update(L_pourpoints=(ds('pourpoints'), n['pourpoints']), L_nodes=(ds('network'), n['nodes']), L_streams=(ds('network'), n['streams']),
               L_initvolumes=(ds('initvolumes'), n['initvolumes']), L_finalstate=(ds('finalvolumes'), n['finalvolumes']),
               L_hypsometry=(ds('hyps'), n['hyps']), L_finallevels=(ds('finallevels'), n['finallevels']))
    return out


def load_chain(out):
    r = {}
    for k, v in out.items():
        r[k] = read_layer(*v) if k.startswith('L_') else read_tif(v)
    return r


# in-memory readers and writers with the interface of malstroem.io

class MemRaster:
    def __init__(self, a=None, gt=GT, filepath=None):
        self.a, self.transform, self.crs, self.filepath = a, gt, wkt(), filepath
        self.written = []

    @property
    def shape(self):
        return self.a.shape

    @property
    def resolution(self):
        t = self.transform
        return (float(np.hypot(t[2], t[5])), float(np.hypot(t[1], t[4])))

    def read(self):
        return self.a.copy()

    def write(self, a):
        self.written.append(np.array(a))


class MemVector:
    def __init__(self, feats=None):
        self.feats, self.written = feats, []

    def read_geojson_features(self):
        return json.loads(json.dumps(self.feats))

    def write_geojson_features(self, fs):
        if isinstance(fs, dict) and fs.get('type') == 'FeatureCollection':
            fs = fs['features']
        self.written.append(json.loads(json.dumps(list(fs))))


def as_feats(js):
    """geojson features -> the form of read_layer"""
    out = []
    for f in js:
        g = f.get('geometry')
        if g and g['type'] == 'Point':
            g = dict(type='POINT', coordinates=[tuple(g['coordinates'][:2])])
        elif g and g['type'] == 'LineString':
            g = dict(type='LINESTRING', coordinates=[tuple(c[:2]) for c in g['coordinates']])
        out.append(dict(props=f['properties'], geom=g, fid=f.get('id')))
    return out
