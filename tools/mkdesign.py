import importlib, sys, json, glob, os
sys.path.insert(0,'/verif')
D={
1:('Every array returned by `fill_terrain` and every `filled.tif` is compared bit by bit with an own heap-based priority flood (C, `vf/ref.c`; pure Python `vf/ref.py` kept in step), and judged locally: never below terrain, border kept, raised cells have a neighbour at or below their level.',
   'Meander terrains of 280x280 (thousands of sweeps), 70000-cell-long rasters, 1xn to 3xn, layouts and element types.'),
2:('Depth rasters are compared with filled minus terrain; every 8-connected region of positive depth must carry one level and have a rim cell at exactly that level, and no positive depth may touch the border.',''),
3:('The direction raster is read as a functional graph: every cell reaches the border, no step climbs the slope-preserving surface (an own flood), every interior direction is a steepest slope (ties within rounding accepted), every border cell points outward.',''),
4:('The slope-preserving surface equals an own Dijkstra flood with the same increments bit by bit for any increments, each interior raised cell has a strictly lower neighbour, the proposed increments cannot lift a cell by more than the documented fraction.',
   'Uses the same meanders as C01.'),
5:('The accumulation raster equals an own topological count (exact integers), the sum at the outlets equals the cell count.','A 4111x4099 raster whose count passes 2^24, one path of a million cells and rasters of 70000 rows or columns.'),
6:('The ID raster is compared with an own breadth-first labelling and an own evaluation of the filter on own statistics (fsum): same cells, one ID per region, IDs 1..n without gaps, 0 elsewhere.',
   'Thresholds half way between neighbouring values of real bluespots detect relative errors of the statistics down to the gap between two bluespots.'),
7:('A recursive-descent parser and evaluator for the documented grammar decides each text; texts with one illegal part hidden in a legal text have to be refused before anything is evaluated (an audit hook records `eval`/`exec`/`import`/`open` events).',
   'Statistics meet thresholds exactly and at the next float up and down.'),
8:('Own memoised downstream trace of every cell; every cell whose path meets a label has the first label met, every other keeps the background.','Label values beyond 32 bits, six label types, non-zero backgrounds, paths of 300 000 cells and trunks with 280 000 tributaries.'),
9:('Each pour point is compared with own zonal statistics; its cell must be among the cells of maximal accumulation (or minimal elevation and flow leaving the bluespot); coordinates must be those of the cell centre under the full affine transform.',''),
10:('Own trace of every pour point: downstream relation, junction exactly where two traces first meet, every flow step covered by exactly one stream, line geometry contiguous and ending at the downstream node, IDs unique, one root set, no cycles; rows of the layer may be in any order.','1 500-deep junction chains (recursion), streams of many thousand cells.'),
11:('Own zonal sums in exact arithmetic (fsum) times the unit factor; junctions get zero; every other attribute is carried unchanged.','Negative water, large integers, NaN, any declared nodata, fractional rain.'),
12:('Own fill-and-spill in topological order, ledger (water in = held + spilled out of roots), and relations between runs: permutation of rows, more water never leaves less anywhere.','Chains 3000 deep, capacities from 0 to 1e12.'),
13:('Own histogram in exact rational arithmetic; a cell within a rounding of the bin edge (in the type of the file) may count on either side, otherwise exact.','Bins with more than 65 535 cells, thousands of bins, any background.'),
14:('The exact level at which the sorted terrain holds the volume (piecewise linear, no bins); the approximated level must be within two resolutions, between lowest terrain and full level, and monotone in the volume.','Bluespots of 70 001 cells, 33 000 bluespots at once.'),
15:('Level minus terrain recomputed per cell from the levels layer, sign and extent exact, agreement of both rasters.',''),
16:('A ledger over all artefacts of one `complete` run: rain on the raster = water held + water leaving; watershed areas add up to the raster; capacities equal depth sums; every ID is in every layer.',''),
17:('All rasters (bit by bit) and layers (by value) of a `complete` run are compared with those of the documented chain of subcommands through several formats.',''),
18:('Differential execution native against pure Python on equal inputs, and histories of enable/disable with a line counter (`sys.settrace`) that shows which implementation ran.',''),
19:('Four rebuilds of the extensions from /repo: ASan+UBSan (LD_PRELOAD), Cython bounds checks, `-ftrivial-auto-var-init=zero` and `=pattern` with `MALLOC_PERTURB_`; a report, an exception or a difference between the last two is a violation.','Uninitialised reads show as a difference between the builds; MSan is not usable with an uninstrumented CPython/numpy.'),
20:('GDAL reads the file written by `RasterWriter` bit by bit; files prepared with GDAL are read by `RasterReader` and compared with own substitution.','Cells one ulp from the declared nodata.'),
21:('OGR reads what `VectorWriter` wrote (and the other way round); other layers of the data source are digested before and after, also if it is write-protected, locked or of a format for one layer; options must have reached the driver.','70 003 features per layer (beyond any batch).'),
22:('Each polygon is scan-converted back to cells in world coordinates and compared with own 8-connected regions; polygon areas and IDs exact.',''),
23:('SHA-256 of each file present, bytes of each caller-owned array, before and after; commands run twice; 22 kinds of used output directories.',''),
24:('Metamorphic: one terrain in many encodings has to give the same artefacts as the 32-bit GeoTIFF in which missing cells hold -999.',''),
25:('Groups of runs at the same time (processes and threads) with pauses injected at traced lines; artefacts equal those of the solitary run; directory listings leave nothing behind. The hash of the order in which the parties passed the lines counts distinct interleavings.',''),
26:('Enumerated write faults (RLIMIT_FSIZE at each block boundary, full tmpfs, inodes, file handles, windows of failing writes keyed to traced lines): status 0 is accepted only with complete and equal outputs.',''),
27:('Own pass over the raster for each label statistic.',''),
28:('A run on inputs which do not fit must end with an error; SHA-1 of everything at the output location is the same before and after; the same call on fitting inputs succeeds. A crash of the worker process (native code out of bounds) is a violation.',''),
29:('Each command is run with every subset of its options against input data sources which hold decoys (layers of the same kind with other values, one under the default name when another is named); its output has to equal that of the run in which every option is given and every layer is alone in its file; all other layers of all data sources keep their digests. Events are interleaved step by step in one GeoPackage and compared with the same event alone.','Coordinates are compared to 13 digits, all else exactly.'),
30:('Order of successive events: volumes, spill, percentages, levels, depths and extents may not decrease (to a relative 1e-9 of the water in the event); no node gains more than was added; sums and multiples of events.','The level of a nearly full bluespot jumps to full (C14), which keeps the order.'),
31:('Powers of two scale floating point numbers without rounding, so the artefacts of the scaled run are compared bit by bit after undoing the scale (attributes by their dimension). Turned runs: surfaces bit by bit, bluespots as sets of cells, measures to 1e-9. Flow directions, watersheds and pour points of turned runs may break ties differently and are not compared.','The slope-preserving fill, flow directions and filling in 64 bits are also called directly.'),
32:('Tables of successors made by our own reading of the eight directions decide every answer: upstream sets, traces, accumulation, watersheds, next labels, networks. Cells whose flow ends inside the raster (no direction away from the edge) are only required not to get a wrong watershed.','The public names only; order of the upstream cells is free.'),
33:('Every raster of the mosaic run is compared within the window of each part with the run over the part alone (bluespot IDs through the map their cells define, which has to be one to one), every record through the same map, network edges after walking over junctions, junctions and streams that lie inside. Directions on the edge of a part only have to lead out of it, since they point off the raster when it is alone.','All parts share one highest elevation. Rasters exact, records to 1e-9, final depths to 1e-6.'),
34:('A process that ends early is examined from outside: digests of all inputs, contents of earlier layers (after the journal has been rolled back), what starting over does; exit status zero is compared with the content of the outputs of the undisturbed run. After an interrupt, the same process runs the command again and has to produce the undisturbed outputs.','Kills at lines by a tracer, in native code by an interval timer, in writes by the file size limit with the default action of its signal. A GeoTIFF cut within its directory is not replaced by GDAL: starting over then fails, which is allowed; right results are required of status zero. Repeating a command into the layer a killed one may have written is not claimed (existing layers get appended to).'),
}
S={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); S.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(f)),m))
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
out=[open('/verif/tools/design_head.md').read()]
out.append('## 3 Properties\n')
for i in range(1,len(P)+1):
    k='C%02d'%i; m=importlib.import_module('vf.checks.c%02d'%i); p=P[k]
    out.append('### %s %s\n'%(k,p['title']))
    out.append('*Oracle.* '+D[i][0]+'\n')
    out.append('*Workload.* '+m.RULE[0].upper()+m.RULE[1:]+'. '+D[i][1]+'\n')
    out.append('*Must have been observed* (otherwise the run ends with status 3, no verdict): '+', '.join('`%s`'%x for x in m.MUST_OBSERVE)+'; at least %d evaluations.\n'%m.MIN_EVENTS)
    t=p.get('why_tests_cant') or ''
    if t: out.append('*Beyond the tests.* '+t[0].upper()+t[1:]+'.\n')
    if k in S: out.append('*Planted bugs caught.* '+', '.join('`%s`'%n for n,_ in S[k])+'.\n')
out.append(open('/verif/tools/design_tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(out))
