"""C09: pour points"""
import os
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call

RULE = ('complete/chain runs over generated terrain x cell size x orientation x filter x method, pourpts command writing five vector formats, BluespotTool with recording writers; '
        'non-trivial: at least one bluespot; distinct by terrain, filter and route')
MUST_OBSERVE = ['pourpoints', 'tool_accum', 'tool_dem', 'pipeline_accum', 'pipeline_dem', 'formats']
MIN_EVENTS = 200


def cases(seed, tier):
    rng = np.random.default_rng([seed, 109])
    n = 500 if tier == 'quick' else 10000
    out = []
    for i in range(n):
        t = ['pipeline', 'pipeline', 'tool', 'format'][i % 4]
        out.append(dict(pipe.params(rng, i // 2 if t == 'pipeline' else 1), t=t, fmt=str(rng.choice(['gpkg', 'GeoJSON', 'ESRI Shapefile', 'SQLite', 'CSV'])),
                        reps=4 if t == 'tool' else 1))
    out[:0] = [dict(pipe.wide(rng, k), t='pipeline', fmt='gpkg', reps=1) for k in range(2 if tier == 'quick' else 12)]
    return out


def run_case(case, o, d):
    from malstroem.algorithms import speedups
    from malstroem.dem import DemTool
    from malstroem.bluespots import BluespotTool
    from malstroem.scripts._utils import parse_filter
    t = case['t']
    if t == 'pipeline':
        art = pipe.run(case, d)
        acc = art.a('accum') if case['accum'] else None
        orc.pourpoints(o, art.l('pourpoints'), art.a('bluespots'), art.a('depths'), art.a('watersheds'), art.a('flowdir'), art.gt, case['mode'],
                       acc=acc, nf=None if case['accum'] else pipe.judge_nf(art))
        o.count('pipeline_accum' if case['accum'] else 'pipeline_dem')
        o.case(art.a('bluespots').max() > 0, art.z, case['mode'], case['filt'], case['accum'])
        o.sample = pipe.sample(case, art)
        return
    gt = pipe.GTS[case['gt']]
    for rep in range(case['reps']):
        c = dict(case, seed=[case['seed'], rep])
        z = gen.dem(c)
        filt = pipe.FILTERS[case['filt']]
        tag = '%s %s %s' % (t, case['kind'], z.shape)
        (speedups.enable if case['native'] else speedups.disable)()
        try:
            w = [cli.MemRaster(gt=gt) for _ in range(4)]
            call('DemTool', DemTool(cli.MemRaster(z, gt), w[0], w[1], w[2], w[3]).process)
            fd, dep, acc = w[1].written[-1], w[2].written[-1], w[3].written[-1]
            nf = pipe.judge_nf(pipe.Art(case, z, gt, {}))
            if t == 'tool':
                lab, ws, pp = cli.MemRaster(), cli.MemRaster(), cli.MemVector()
                k = dict(input_accum=cli.MemRaster(acc, gt)) if case['accum'] else {}
                call('BluespotTool', BluespotTool(cli.MemRaster(dep, gt), cli.MemRaster(fd, gt), call('parse_filter', parse_filter, filt) if filt else None, lab, pp, ws,
                                                  input_dem=cli.MemRaster(z, gt), **k).process)
                feats = cli.as_feats(pp.written[0])
                lab, ws = lab.written[0], ws.written[0]
                orc.pourpoints(o, feats, lab, dep, ws, fd, gt, tag, acc=acc if case['accum'] else None, nf=nf)
                o.count('tool_accum' if case['accum'] else 'tool_dem')
            else:
                P = lambda n: os.path.join(d, n)
                lab = ref.regions((dep > 0).astype('i8'))[0].astype('i4')
                ws = ref.watersheds(fd, lab)
                for n, a in (('dem', z), ('lab', lab), ('dep', dep), ('ws', ws), ('acc', acc)):
                    cli.write_tif(P(n + '.tif'), a, gt=gt)
                fmt = case['fmt']
                out = P('pp.' + (cli.EXT[fmt] or 'shp'))
                cli.ok(['pourpts', '-bluespots', P('lab.tif'), '-depths', P('dep.tif'), '-watersheds', P('ws.tif')] +
                       (['-accum', P('acc.tif')] if case['accum'] else ['-dem', P('dem.tif')]) + ['-out', out, '-format', fmt] +
                       (['-layername', 'pp'] if case['seed'] % 2 or fmt in ('ESRI Shapefile', 'CSV') else []))
                feats = cli.read_layer(out)['feats']
                if fmt == 'CSV':
                    for f in feats:
                        f['props'] = {a: (float(v) if v not in (None, '') else None) for a, v in f['props'].items()}
                if fmt == 'ESRI Shapefile':
                    # attribute values keep 15 significant digits at most in dbf
                    pass
                orc.pourpoints(o, feats, lab, dep, ws, fd, gt, tag + ' ' + fmt, acc=acc if case['accum'] else None, nf=nf, prec=1e-6)
                o.count('formats')
        finally:
            speedups.enable()
        o.case(np.asarray(lab).max() > 0, z, case['filt'], t, case['accum'])
