"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
A = 'malstroem/algorithms/'
S = 'malstroem/algorithms/speedups/'
C = 'malstroem/scripts/'

p('C01', 'Filled DEM is the least depressionless surface above the terrain',
  'For every DEM, filling produces the lowest surface that is nowhere below the terrain, equals the terrain on the raster edge, and from every cell of which a non-uphill 8-neighbour path leads to the raster edge. '
  'The result is exact (each filled value is one of the DEM values) and is the same for any raster shape, including rasters one, two or three cells high or wide.',
  ['inputs', 'configurations'], 'every 2D DEM (any shape, relief, magnitude, ties, winding channels that need many passes), native or pure Python implementation, library or command line',
  'tests compare one stored DEM and two 5x5 toy grids; the guarantee is a fixpoint over all terrains, and an early stop of the iteration only shows on terrain whose escape path winds against the sweep order or runs along the last row or column',
  [A+'fill.py', S+'_fill.pyx', 'malstroem/dem.py', C+'dem.py'],
  [('four-direction relaxation sweeps repeated until no cell changes', A+'fill.py fill_terrain'), ('native sweep', S+'_fill.pyx _fill_terrain')],
  ['array returned by filling', 'filled raster written by filled / complete'],
  [('filled', 'current upper bound of the filled surface; starts at infinity inside, at the terrain on the edge', A+'fill.py')])

p('C02', 'Bluespot depths are filled minus terrain and every bluespot is level',
  'The depth raster equals the filled surface minus the terrain, cell by cell; it is never negative and is exactly zero wherever filling raised nothing. '
  'All cells of one 8-connected region of positive depth share one filled water surface, and every terrain cell bordering the region lies at or above that surface, the lowest of them (or the raster edge) at that surface.',
  ['inputs', 'configurations'], 'every DEM, filter-free, via the DEM tool, the depths command and the complete run',
  'tests check the minimum and maximum of one stored depth raster',
  ['malstroem/dem.py', C+'dem.py', C+'complete.py', A+'fill.py'],
  [('depths = filled - dem', 'malstroem/dem.py DemTool.process'), ('depths command', C+'dem.py process_depths')],
  ['depth raster written by depths / complete', 'filled raster', 'DEM'])

p('C03', 'Every cell drains off the raster, downhill by the steepest descent',
  'Every cell gets one of the eight flow directions, edge cells point straight off the raster, and following the directions from any cell leaves the raster without ever revisiting a cell. '
  'Water never flows to a cell whose filled elevation is higher (beyond the slope-preserving increments); and where some neighbour is lower in the filled terrain by more than the slope-preserving increments, the direction is that of the steepest slope (diagonal distance being the square root of two), ties being free.',
  ['inputs', 'configurations'], 'every DEM: plateaus, nested depressions, flat dead-end valleys, negative and huge elevations, native or pure Python, flowdir command and complete run',
  'tests compare a histogram-like digest of one stored flow direction raster; loops and undirected cells depend on flat areas, elevation magnitude and rounding of the slope-preserving increment',
  [A+'flow.py', A+'fill.py', S+'_flow.pyx', 'malstroem/dem.py', C+'dem.py'],
  [('D8 steepest slope', A+'flow.py _terrain_flow'), ('minimum safe increment', A+'fill.py minimum_safe_short_and_diag'), ('outward edges', A+'flow.py set_edges_flow_outward')],
  ['flow direction raster', 'filled raster', 'DEM'])

p('C04', 'Slope-preserving fill is the least surface descending by the increments',
  'For every DEM and every pair of non-negative increments, the slope-preserving fill is the lowest surface that is nowhere below the terrain, equals it on the raster edge, and in which every raised cell is at least the edge increment above some edge-sharing neighbour or the corner increment above some corner-sharing neighbour. '
  'With the increments the library proposes for a DEM, the surface is strictly descending: every interior cell has a strictly lower neighbour, and the surface stays within a hair (number of cells times the increment) of the plain filled surface, so water standing on a flat is led to its nearest outlet.',
  ['inputs', 'configurations'], 'every DEM (any shape and magnitude) and increments, native or pure Python',
  'tests check shape and a few values of one DEM',
  [A+'fill.py', S+'_fill.pyx'],
  [('relaxation with increments', A+'fill.py fill_terrain_no_flats'), ('increment proportional to the float spacing at the largest absolute elevation', A+'fill.py minimum_safe_short_and_diag')],
  ['array returned by slope-preserving fill', 'proposed increments'])

p('C05', 'Accumulated flow counts exactly the cells that drain through each cell',
  'For every flow direction raster without cycles the accumulated flow of a cell is exactly the number of cells, itself included, whose flow path passes through it. '
  'Hence the values of the cells whose flow leaves the raster or stops add up to the number of cells of the raster; a cell without direction ends the paths that reach it.',
  ['inputs', 'configurations'], 'every acyclic flow direction raster, with and without undirected cells, any size (beyond 65 535 upstream cells) and memory layout, native or pure Python, command line or library',
  'tests check one hand-made grid and the maximum of one stored raster; the trace restarts at confluences, so errors depend on the order in which leaves are visited relative to branches',
  [A+'flow.py', S+'_flow.pyx', C+'dem.py', 'malstroem/dem.py'],
  [('trace downstream until an unresolved upstream cell', A+'flow.py trace_accumulated_flow'), ('native accumulation', S+'_flow.pyx accumulated_flow')],
  ['accumulated flow array / raster', 'flow direction raster'])

p('C06', 'Bluespot IDs label exactly the kept depressions, numbered 1 to n',
  'Bluespot labelling assigns the same ID to two cells of positive depth exactly when an 8-connected path of positive-depth cells joins them, uses every ID from 1 to the number of bluespots, and gives 0 to all other cells. '
  'With a filter, exactly the bluespots whose area, maximum depth and volume (in metres, square metres and cubic metres of that raster) satisfy it remain, each with all of its cells, renumbered from 1 without gaps; the others become 0.',
  ['inputs', 'configurations'], 'every depth raster, cell size and filter expression, bspots command and complete run, with more than 255 and more than 65 535 bluespots',
  'tests count labels of one raster for one filter; connectivity along diagonals, unit conversion with other cell sizes and ID width are not sampled',
  [A+'label.py', 'malstroem/bluespots.py', C+'bluespot.py', C+'_utils.py', 'malstroem/io.py'],
  [('8-connected labelling', A+'label.py connected_components'), ('filter on raw statistics, relabel', 'malstroem/bluespots.py filterbluespots'), ('integer width selection when writing', 'malstroem/io.py RasterWriter.write')],
  ['bluespot ID raster', 'depth raster', 'filter text'])

p('C07', 'Filter expressions mean what the documentation says, anything else is refused',
  'Every expression built from area, maxdepth, volume, numbers, the comparison operators < > <= >= == !=, and, or, and parentheses is accepted and evaluates with the usual precedence on the bluespot it is applied to; an empty filter keeps everything. '
  'Text containing anything else, or which does not form such an expression, is rejected with an error before any of it is evaluated and before any output is written.',
  ['inputs', 'programs'], 'every filter text: generated from the documented grammar with random spacing and nesting, and adversarial texts',
  'tests use two accepted filters and no hostile one; the checker works by textual replacement, whose interaction with arbitrary text is not enumerable by example',
  [C+'_utils.py', 'malstroem/bluespots.py', C+'bluespot.py', C+'complete.py'],
  [('word and character whitelist', C+'_utils.py check_filter'), ('rewrite and evaluate', C+'_utils.py parse_filter')],
  ['set of bluespots kept', 'exit status and outputs of bspots / complete', 'evaluation side effects (audit events)'])

p('C08', 'Watersheds assign each cell to the first bluespot on its flow path',
  'After watershed assignment every cell carries the ID of the first labelled cell met when following the flow directions from it (its own label if it has one), and keeps the background value exactly when its path leaves the raster without meeting a label. '
  'Labelled cells keep their labels, so the watersheds partition the raster; this holds for every integer label type, background value, raster shape and memory layout.',
  ['inputs', 'configurations'], 'every acyclic flow direction raster without undirected cells, every label raster and label type, native or pure Python, wsheds command and complete run',
  'tests compare one 5-label example and the label histogram of one stored raster',
  [A+'flow.py', S+'_flow.pyx', A+'_raster_utils.py', C+'bluespot.py', 'malstroem/bluespots.py'],
  [('upstream flood from each edge cell', A+'flow.py watersheds_from_labels'), ('native 32/64/other label variants', S+'_flow.pyx assign_watersheds_upstream')],
  ['watershed raster', 'bluespot raster', 'flow directions'])

p('C09', 'Each bluespot has one pour point, inside it, where its water leaves',
  'There is exactly one pour point per ID from 0 (the area outside bluespots) to the number of bluespots; it lies in a cell of that bluespot, at the cell centre in world coordinates, and it is the cell of highest accumulated flow (when accumulated flow is given) or of the lowest slope-preserving filled elevation, so the flow path from a bluespot pour point leaves the bluespot in one step. '
  'Its attributes are exactly the bluespot cell count, depth sum and maximum depth and the watershed cell count, in metres, square and cubic metres, and the rain that fills it from its own watershed in millimetres; ID 0 has no volume and no depth.',
  ['inputs', 'configurations'], 'every DEM, cell size, orientation and filter, with either pour point method, pourpts command and complete run',
  'tests check one pour point file for counts; unit conversion, tie handling and the relation to flow directions hold only on the sampled raster',
  ['malstroem/bluespots.py', A+'label.py', S+'_label.pyx', 'malstroem/vector.py', C+'bluespot.py'],
  [('argmax accumulated flow / argmin slope-preserving fill', 'malstroem/bluespots.py BluespotTool.process'), ('attribute assembly', 'malstroem/bluespots.py assemble_pourpoints')],
  ['pour points layer', 'bluespot, depth, watershed, flow direction and accumulated flow rasters'])

p('C10', 'The stream network is a forest that follows the flow directions',
  'Every bluespot pour point becomes exactly one node; following downstream references from any node reaches a node without one after finitely many steps, and the first pour point met downstream of a pour point node is the bluespot its flow path first enters, or none when the path leaves the raster. '
  'Each stream runs cell by cell along the flow directions from its node to its downstream node or to where the path first enters the downstream bluespot; junction nodes have unique fresh IDs, no area and no volume, and stand exactly where two or more streams merge before reaching the same bluespot (or the raster edge), so no cell step is covered twice by streams. '
  'This holds for any number of merging streams and any row order of the pour points layer.',
  ['inputs', 'configurations'], 'every DEM and filter; comb-like valleys with thousands of streams joining one trunk, confluences of up to seven streams, shuffled pour point layers',
  'tests check node counts and a few hand-drawn networks; merging is recursive over shared suffixes of paths, so depth and order of confluences matter',
  [A+'net.py', 'malstroem/streams.py', C+'stream.py', A+'flow.py'],
  [('trace until the next label', A+'net.py next_downstream_label'), ('common suffix splitting and junction insertion', A+'net.py _untangle')],
  ['nodes and streams layers', 'pour points layer', 'flow direction and bluespot rasters'])

p('C11', 'Input water volumes equal the rain that falls on each ID area',
  'With a uniform rain of x millimetres every node receives x/1000 times its watershed area, junctions receive nothing, and the volumes add up to x/1000 times the raster area. '
  'With a water raster every pour point node receives the sum of the cells carrying its ID in the supplied ID raster, converted from millimetres, litres or cubic metres per cell to cubic metres, junctions receive nothing, and the volumes add up to all water in the raster; all other attributes are carried over unchanged.',
  ['inputs', 'configurations'], 'every node layer, rain amount, water raster type and unit, cell size, attribute and layer name, initvolumes command and complete run',
  'tests check one rain amount and one constant raster',
  ['malstroem/rain.py', C+'initvolume.py', A+'label.py', S+'_label.pyx'],
  [('area times rain', 'malstroem/rain.py SimpleVolumeTool'), ('zonal sum times unit factor', 'malstroem/rain.py RasterVolumeTool')],
  ['initvolumes layer', 'nodes layer', 'water raster', 'ID raster'])

p('C12', 'Water is conserved when bluespots fill and spill downstream',
  'At every node, input plus everything spilled by the nodes directly upstream equals the volume retained plus the volume spilled; a node retains at most its capacity, spills only when full, and reports the percentage filled (none without capacity). '
  'Hence in the whole network total input equals total retained plus what the end nodes spill; every node is reported once, the result does not depend on the order of the rows, and adding water anywhere never lowers any retained or spilled volume.',
  ['inputs', 'histories'], 'every node forest (deep chains, wide stars, junctions, zero capacities), every non-negative volume, every attribute name and row order, repeated events on one network',
  'tests check totals for one network and one event',
  ['malstroem/network.py', C+'finalstate.py', C+'complete.py'],
  [('post-order traversal from the roots', 'malstroem/network.py _calc_stream_tree'), ('fill and spill', 'malstroem/network.py _calc_node')],
  ['finalvolumes layer', 'inputvolumes layer'],
  [('node rain values', 'event results per node, reset for every event', 'malstroem/network.py Network')])

p('C13', 'Hypsometry histograms count every bluespot cell within their bounds',
  'For every bluespot the minimum and maximum elevation are those of its terrain cells, the histogram counts add up to its cell count, and each bin counts exactly the cells whose elevation lies in it. '
  'Bins are one resolution wide, start at a multiple of the resolution at or below the minimum, end at or above the maximum with no more bins than needed, and the statistics survive being written and read back.',
  ['inputs', 'configurations'], 'every DEM (negative elevations, straddling zero, huge offsets), bluespot raster and resolution (including ones that are not exact in binary), hyps command and complete run',
  'tests use one DEM with positive elevations and one resolution plus three hand-made cases',
  ['malstroem/hyps.py', C+'hyps.py', S+'_label.pyx', A+'label.py'],
  [('bin bounds', 'malstroem/hyps.py histogram_bins'), ('collect values per label', A+'label.py label_data'), ('flat text encoding', 'malstroem/hyps.py _hypsometrystats_to_flatdict')],
  ['hypsometry layer', 'bluespot raster', 'DEM'])

p('C14', 'Approximated water levels hold the stated volume to within the resolution',
  'The approximated level of a bluespot lies between its lowest terrain and its full level, is the lowest terrain when it holds nothing and the full level when it is full (more than 99.99 percent counts as full), and never falls when the volume grows. '
  'It differs from the exact level at which the terrain of the bluespot holds that volume by at most two histogram resolutions, and the approximated maximum depth is that level minus the lowest terrain.',
  ['inputs', 'configurations'], 'every bluespot terrain (gentle, steep-walled, flat-bottomed, one cell), volume from empty to full and resolution, finallevels command and complete run',
  'tests check the number of cells of one final raster',
  ['malstroem/approx.py', 'malstroem/hyps.py', C+'finalstate.py', C+'complete.py'],
  [('cumulative volume per bin and linear interpolation', 'malstroem/approx.py approx_water_level_io')],
  ['finallevels layer', 'hypsometry layer', 'finalvolumes layer', 'DEM'])

p('C15', 'Final depths and extents are the terrain below each water level',
  'In the final depth raster a cell holds its bluespot water level minus its terrain where that is positive and exactly zero everywhere else, never a negative value. '
  'In the final extent raster a cell carries its bluespot ID exactly when its terrain is not above that bluespot water level, and 0 elsewhere, so extents and depths agree cell by cell.',
  ['inputs', 'configurations'], 'every DEM (including elevations below any sentinel), bluespot raster and water levels, with either or both outputs, finalbluespots command, library function and complete run',
  'tests check the count of cells of one raster',
  ['malstroem/approx.py', A+'label.py', C+'finalstate.py'],
  [('replace labels by levels, subtract terrain, clip', 'malstroem/approx.py approx_bluespots_io')],
  ['final depth raster', 'final extent raster', 'finallevels layer', 'DEM', 'bluespot raster'])

p('C16', 'A complete run accounts for all rain, area and volume',
  'In a complete run the watershed areas of all nodes add up to the raster area, the input volumes to the rain on it, and the retained volumes plus the water leaving at the end nodes to the input volumes. '
  'Every bluespot of the ID raster appears once in pour points, nodes, volumes, hypsometry and levels with consistent area, capacity and depth, and a bluespot dropped by the filter contributes no capacity anywhere.',
  ['inputs', 'configurations'], 'every DEM, cell size, coordinate system, filter, rain amount, resolution, with and without accumulated flow and vectorisation, including rasters without any bluespot',
  'tests run one DEM and check that outputs exist and one or two totals',
  [C+'complete.py', 'malstroem/bluespots.py', 'malstroem/streams.py', 'malstroem/rain.py', 'malstroem/network.py', 'malstroem/hyps.py', 'malstroem/approx.py'],
  [('pipeline of tools over one data source', C+'complete.py process_all')],
  ['every raster and layer written by complete'])

p('C17', 'The chain of subcommands produces the same results as complete',
  'For the same DEM, filter, rain, resolution and pour point method, running the documented sequence of subcommands yields rasters and layers with the same contents as one complete run. '
  'This covers filled terrain, depths, flow directions, accumulated flow, bluespots, watersheds, pour points, nodes, streams, volumes, hypsometry, levels, final depths, final bluespots and their polygons, for every output format able to hold them.',
  ['inputs', 'configurations', 'programs'], 'every DEM type, nodata, filter, rain amount, resolution and pour point method; vector format and layer naming of the chain',
  'no test compares the two; each subcommand is run on stored intermediate files',
  [C+'complete.py', C+'dem.py', C+'bluespot.py', C+'stream.py', C+'initvolume.py', C+'finalstate.py', C+'hyps.py'],
  [('duplicate wiring of the same algorithms', C+'complete.py and subcommand modules')],
  ['all output rasters and layers of both routes'])

p('C18', 'Native code computes exactly what the pure Python code computes',
  'For every input within the documented types, filling, slope-preserving filling, flow directions, accumulation, watersheds, and per-label statistics, minimum positions and value lists give the same result (rasters in the same element type) with the compiled speedups enabled and disabled; flow directions may differ only between slopes that tie to within rounding. '
  'Switching speedups on and off in any order and any number of times leaves the library in the corresponding mode, and the same call then gives the same result. Where the compiled modules cannot be imported, everything works in pure Python.',
  ['inputs', 'histories', 'configurations'], 'every array shape, memory layout, element type and background label; every on/off history',
  'tests compare the two for a handful of fixed grids and toggle once',
  [S+'__init__.py', S+'_fill.pyx', S+'_flow.pyx', S+'_label.pyx', A+'fill.py', A+'flow.py', A+'label.py'],
  [('monkeypatching switch', S+'__init__.py enable/disable')],
  ['return values and in-place results of each public algorithm in both modes', 'reported speedup state'],
  [('_orig', 'saved pure Python functions while speedups are on', S+'__init__.py')])

p('C19', 'Native code never touches memory outside its arrays or undefined values',
  'On every valid input, of any shape down to a single row or column and any memory layout, the compiled code reads and writes only inside the arrays it was given or allocated, performs no undefined operation, and its results do not depend on uninitialised memory. '
  'Arrays of element types the compiled code does not handle are refused with an exception, never reinterpreted.',
  ['inputs', 'configurations'], 'every shape, stride pattern, element type, label set and flow direction code including the no-direction code',
  'tests run release builds with bounds checks compiled out, where an out-of-range access goes unnoticed',
  [S+'_fill.pyx', S+'_flow.pyx', S+'_label.pyx'],
  [('index arithmetic with bounds checks disabled', S+'*.pyx')],
  ['address and undefined-behaviour sanitizer reports', 'results of builds with differently initialised automatic variables'])

p('C20', 'Rasters read back exactly what was written, with georeference and nodata',
  'A raster of any size and value range in a numeric type the library accepts (any other raises), written and read back, has the same cell values, affine transform, coordinate system and declared nodata value. '
  'Reading with a nodata substitute replaces every cell equal (to within floating point rounding) to the declared nodata value, whatever that value is, zero and not-a-number included, and no cell that differs from it noticeably.',
  ['inputs', 'configurations'], 'every array type (including those without a direct raster type), size across tile borders, transform, coordinate system, nodata value and source format',
  'tests round-trip three small arrays of a few types',
  ['malstroem/io.py'],
  [('element type mapping and predictor options', 'malstroem/io.py RasterWriter.write'), ('nodata substitution', 'malstroem/io.py RasterReader.read')],
  ['raster file read by an independent reader', 'array returned by the reader'])

p('C21', 'Vector layers keep every feature, attribute and coordinate',
  'Features written to a layer and read back are the same features: same number and order, same geometry coordinates, same attribute values including integers, real numbers to full precision, text and missing values, in every supported vector format within that format limits. '
  'Writing a layer into an existing data source, or running another scenario into other layers of it, leaves all other layers unchanged, even if the data source turns out not to be writable, and the requested layer name, format and creation options are honoured.',
  ['inputs', 'configurations', 'histories'], 'every sequence of layers written to one data source, every format among GeoPackage, GeoJSON, Shapefile, SQLite, CSV, any number of features, options given on the command line',
  'tests write one layer per format with a few features and only look at counts',
  ['malstroem/io.py', C+'bluespot.py', C+'stream.py', C+'initvolume.py', C+'finalstate.py', C+'hyps.py'],
  [('temporary GeoJSON copied into the target layer in a transaction', 'malstroem/io.py VectorWriter.write_geojson_features'), ('open-or-create of the data source', 'malstroem/io.py VectorWriter')],
  ['layers read by an independent reader before and after each write'])

p('C22', 'Polygons cover exactly the cells that carry their ID',
  'Polygonising an ID raster yields exactly one valid-ID polygon for every 8-connected region of equal non-background ID and none for the background (declared as nodata, as in every ID raster the library writes); each cell of the region lies in that polygon and no other cell does, in world coordinates. '
  'Hence the polygon area of an ID equals its cell count times the cell area, for any shape (holes, diagonal contact, whole-raster regions), ID range and orientation of the raster.',
  ['inputs', 'configurations'], 'every ID raster, transform and output format, polys command and complete run with vectorisation',
  'tests check the number of polygons for one raster',
  ['malstroem/vector.py', C+'bluespot.py', C+'complete.py', 'malstroem/bluespots.py'],
  [('8-connected polygonisation with mask band', 'malstroem/vector.py vectorize_labels_file_io')],
  ['polygon layer', 'ID raster'])

p('C23', 'Inputs are never modified and a used output directory is refused',
  'No command or tool changes its input files, input layers or caller-owned input arrays (other than the arrays documented as updated in place); running a command again on the same inputs gives the same outputs. '
  'A complete run into a directory that is missing or not empty fails with a non-zero exit status and leaves everything in it exactly as it was.',
  ['inputs', 'histories', 'configurations'], 'every command and public function, every pre-existing directory content, sequences of scenario runs over shared inputs',
  'tests never compare inputs before and after, nor the exit status of a refused run',
  [C+'complete.py', 'malstroem/io.py', 'malstroem/dem.py', 'malstroem/bluespots.py', 'malstroem/approx.py', A+'fill.py', A+'label.py'],
  [('empty directory check', C+'complete.py process_all'), ('read-only opening of inputs', 'malstroem/io.py')],
  ['digests of files, layers and arrays before and after', 'exit status'])

p('C24', 'Results depend on the terrain, not on how the DEM file stores it',
  'DEM files holding the same elevations in another numeric type, tiling, compression, file format, nodata encoding (with the same cells missing) or memory layout give the same filled terrain, depths, flow directions, bluespots, watersheds and volumes, and the same levels wherever rounding in the type of the file decides no histogram bin. '
  'Moving the raster to other world coordinates only moves the coordinates in the results, and cells of missing data are treated as elevation -999 in every step.',
  ['inputs', 'configurations'], 'every elevation raster exactly representable in the types compared (8 to 64 bit integers, 32 and 64 bit floats), every nodata value, storage layout and origin',
  'tests use one 32-bit float GeoTIFF without missing data',
  ['malstroem/io.py', 'malstroem/dem.py', 'malstroem/bluespots.py', C+'dem.py', C+'bluespot.py', C+'complete.py', A+'fill.py'],
  [('cast to the terrain type', 'malstroem/dem.py DemTool.process'), ('nodata substitution', 'malstroem/io.py RasterReader.read')],
  ['all outputs of runs over equivalent DEM files'])

p('C25', 'Concurrent runs do not affect each other and leave nothing behind',
  'Runs over different output locations executed at the same time, in several processes or in threads of one process, produce exactly the outputs each produces alone, and repeated runs produce the same results. '
  'When a run ends, normally or with an error, no temporary file of it remains outside its outputs.',
  ['schedules', 'histories'], 'every interleaving of two or more runs in processes or threads, and every working directory and temporary directory',
  'tests run one command at a time',
  ['malstroem/io.py', 'malstroem/network.py', 'malstroem/vector.py', C+'complete.py', S+'__init__.py'],
  [('private temporary directory per write', 'malstroem/io.py VectorWriter.write_geojson_features'), ('per-object state only', 'malstroem/network.py Network')],
  ['output digests of concurrent and solitary runs', 'temporary directory listings'])

p('C26', 'A run whose outputs could not be written does not report success',
  'When an output raster or layer cannot be created or written (missing or read-only directory, name taken by a directory, disk limit reached part-way), the command ends with a non-zero exit status. '
  'Whenever a command ends with status zero, every output it was asked for exists, opens, and holds the complete result.',
  ['fault_sequences', 'crash_points'], 'every command and every byte limit or unwritable location at which writing its outputs can fail',
  'tests never make a write fail',
  ['malstroem/io.py', 'malstroem/vector.py', C+'complete.py'],
  [('GDAL errors raised as exceptions', 'malstroem/io.py'), ('flush and close of written data sets', 'malstroem/io.py RasterWriter.write')],
  ['exit status', 'outputs read by an independent reader', 'injected file size limits'])

p('C27', 'Per-label statistics are exact for every label and data type',
  'For every data raster and label raster, each label from 0 to the highest gets exactly the count, minimum, maximum and sum of its cells, the first cell holding its minimum or maximum, and the list of its values in raster order, for every label present, and the documented neutral values for labels without cells. '
  'The result does not depend on element types, memory layout or label order, and assigning values to labels puts in each cell exactly the value of its label.',
  ['inputs', 'configurations'], 'every pair of rasters, element type, memory layout, number of labels (given or not) and background label, native or pure Python',
  'tests check a few labels on one stored raster and a 3x3 grid',
  [A+'label.py', S+'_label.pyx'],
  [('one pass over the raster', A+'label.py label_stats'), ('typed fast paths and fallback', S+'_label.pyx')],
  ['arrays and lists returned'])

p('C28', 'Inputs that do not belong together are refused',
  'Every command, tool and public function combining several rasters or arrays ends with an error (non-zero exit status or exception, never a crash) when they differ in their number of rows or columns, and writes none of its outputs from them. '
  'The same holds for a layer that lacks the record of an ID it is asked for (pour points, hypsometry, water levels), a pour point layer or cell size that does not fit the ID raster (hyps), a missing or unreadable input, layer or attribute, '
  'contradictory, missing or impossible options (-mm and -pr both or neither, no output, no positive resolution), and cells that are not square (complete and the tools); inputs that do fit are accepted.',
  ['inputs', 'configurations'], 'every command and function with several inputs, each input replaced by a valid one of other dimensions, native or pure Python',
  'tests never combine inputs that do not fit; the compiled code does not check bounds, so that a mismatch reads or overwrites other memory',
  [A+'label.py', A+'flow.py', S+'_label.pyx', 'malstroem/hyps.py', 'malstroem/rain.py', 'malstroem/approx.py', 'malstroem/streams.py', 'malstroem/bluespots.py', 'malstroem/dem.py', 'malstroem/io.py',
   C+'initvolume.py', C+'finalstate.py', C+'bluespot.py', C+'dem.py'],
  [('shape checks before combining', A+'label.py, '+A+'flow.py watersheds_from_labels, malstroem/hyps.py, malstroem/rain.py, malstroem/approx.py, malstroem/streams.py'), ('option checks', C+'initvolume.py, '+C+'finalstate.py'),
   ('square cells', 'malstroem/dem.py, malstroem/bluespots.py')],
  ['exit status and exceptions', 'digest of the output location before and after'])

p('C29', 'Options decide what they name, scenarios in one data source do not mix',
  'Every vector command reads exactly the layer and attribute its options name, or the default its help shows when the option is left out, whatever other layers and attributes the data source holds, and adds exactly the named or default output layers, leaving every other layer as it was. '
  'Rain events kept side by side in one data source, under layers or attributes of their own and calculated in any order, give the results each gives alone. '
  'In complete, -vector and -accum only add outputs (-accum may also move pour points), verbosity changes no output, and leaving out -filter equals a filter every bluespot passes; finalbluespots writes exactly the outputs asked for, the same alone or together, under paths absolute or relative, through links and of any characters.',
  ['inputs', 'histories', 'configurations'], 'every command, subset of its optional options, content of its data sources and order of events',
  'tests run each command once with one layer per data source and compare no layer other than the one written',
  [C+'initvolume.py', C+'finalstate.py', C+'hyps.py', C+'stream.py', C+'bluespot.py', C+'complete.py', 'malstroem/io.py', 'malstroem/rain.py', 'malstroem/network.py', 'malstroem/vector.py'],
  [('layer and attribute options', C+'*.py'), ('layer chosen by name', 'malstroem/io.py VectorReader, VectorWriter'), ('attribute read and written', 'malstroem/rain.py, malstroem/network.py FinalStateCalculator')],
  ['all layers of every data source before and after each command', 'outputs compared with those of runs in which every option is given and every layer is alone'])

p('C30', 'More rain never leaves less water',
  'When one event has at least as much input water as another at every node (more rain, a rain raster with no lower cell, water added to some nodes), no bluespot holds less water, is filled to a lower percentage or spills less, no water level or depth is lower, and no flooded cell falls dry; '
  'and no node holds more additional water than was added in total. An event without rain leaves no water. Input volumes of two events add up, and multiples of an event bring multiples of its volumes.',
  ['inputs', 'histories'], 'every terrain or network and every sequence of growing events, uniform or by raster, through commands or tools',
  'tests calculate single events; the order of the results of different events is a relation between runs',
  ['malstroem/rain.py', 'malstroem/network.py', 'malstroem/approx.py', C+'initvolume.py', C+'finalstate.py'],
  [('fill and spill', 'malstroem/network.py Network.rain_event'), ('volume to level', 'malstroem/approx.py approx_water_level_io'), ('level to extent', 'malstroem/approx.py approx_bluespots_io'), ('volumes', 'malstroem/rain.py')],
  ['layers and rasters of successive events'])

p('C31', 'Results keep their form when the terrain is scaled, mirrored or turned',
  'Multiplying all elevations by a power of two, with rain, Z resolution and filter thresholds, multiplies every depth, level and volume by exactly that factor and changes no flow direction, ID, watershed or network; changing the cell size by a power of two does the same to areas, volumes and coordinates. '
  'Mirroring or turning the raster mirrors or turns the filled terrain, the slope-preserving surface, the depths and the bluespots with their area, volume, depth and hypsometry, and keeps the total watershed area and input water.',
  ['inputs', 'configurations'], 'every terrain, filter, resolution, factor within the range of the number formats, and orientation of the raster, native or pure Python',
  'tests use one terrain in one unit and orientation; absolute tolerances and order-dependent shortcuts only show in relations between runs',
  ['malstroem/dem.py', 'malstroem/bluespots.py', 'malstroem/streams.py', 'malstroem/hyps.py', 'malstroem/approx.py', 'malstroem/rain.py', A+'fill.py', A+'flow.py', A+'label.py', S+'_fill.pyx', S+'_flow.pyx', S+'_label.pyx'],
  [('increments proportional to the spacing of the elevations', A+'fill.py minimum_safe_short_and_diag'), ('fixpoint independent of the sweep order', A+'fill.py'), ('bins aligned to multiples of the resolution', 'malstroem/hyps.py histogram_bins')],
  ['all rasters and layers of both runs, compared exactly'])

p('C32', 'Flow can be followed cell by cell, up and down',
  'For every raster of acyclic flow directions, natively or in pure Python: a cell is upstream of another exactly when its direction leads there; tracing downstream visits the cells along the directions up to the last one inside the raster or without direction; '
  'accumulated flow adds up the same when traced from single leaves in any order; watersheds grown upstream of a cell change that area only and never a labelled cell. Edge cells flow straight off the raster, or have no direction when outward edges are not asked for, and the inside is the same either way. '
  'The next label downstream is the first other label on the trace; networks of pour points, given as cells or features, with and without background, agree with it, and with junctions the parts of each path add up to the trace, without gap, and meet where the paths do.',
  ['inputs', 'configurations'], 'every acyclic flow direction raster, not only those derived from terrain, every cell, label raster and set of pour points',
  'tests follow a handful of cells on one raster, all of whose edges flow outward',
  [A+'flow.py', A+'net.py', A+'_raster_utils.py', S+'_flow.pyx'],
  [('upstream and downstream', A+'flow.py upstream_cells, trace_downstream, trace_accumulated_flow, assign_watersheds_upstream'), ('edges', A+'flow.py set_edges_flow_outward, terrain_flowdirection'), ('networks', A+'net.py next_downstream_label, pourpoint_network, geometric_pourpoint_network')],
  ['returned cells, rasters and nodes of every call'])

p('C33', 'Results of an area do not depend on terrain its water never meets',
  'An area surrounded by lower ground (or missing data) that leads off the raster has the same filled terrain, depths, flow directions, accumulated flow, bluespots, watersheds, pour points, stream network, volumes, hypsometry, water levels and extents, apart from the numbering of IDs, '
  'when it is processed alone, at any place within a larger raster, or beside any number of other areas; and ground between the areas that drains freely gets no bluespot, watershed or water. (The largest elevation of the raster, which sets the increments of the slope-preserving fill, stays the same.)',
  ['inputs', 'configurations'], 'every terrain, place within the raster, number and kind of neighbouring areas, by complete or the subcommands',
  'tests process single terrains; dependence on position, raster size or the number of bluespots elsewhere only shows in relations between runs',
  ['malstroem/dem.py', 'malstroem/bluespots.py', 'malstroem/streams.py', 'malstroem/hyps.py', 'malstroem/approx.py', 'malstroem/rain.py', 'malstroem/network.py', A+'fill.py', A+'flow.py', A+'label.py', A+'net.py', S+'_fill.pyx', S+'_flow.pyx', S+'_label.pyx'],
  [('sweeps over the whole raster', A+'fill.py'), ('numbering and lookup by ID', A+'label.py, malstroem/bluespots.py'), ('fill and spill along the network', 'malstroem/network.py'), ('junctions', A+'net.py')],
  ['all rasters and layers of the run over the mosaic and of those over its parts'])

p('C34', 'A killed or interrupted run harms nothing and does not pass for a finished one',
  'Whenever a command is killed, terminated or interrupted by the user, its inputs and every layer that the data sources it writes to held before stay as they were (SQLite files at the latest when next opened for writing), such a data source takes further layers, and the exit status is zero only if all outputs are there and complete. '
  'An interrupted command removes its temporary files, and the process goes on to produce correct results. Started over with the same outputs, a command that writes rasters either writes the right ones or fails; complete refuses the directory unless it is still empty.',
  ['crash_points', 'histories'], 'every point at which a command can end: between any two lines, within native code, within a write',
  'tests let every command run to its end',
  ['malstroem/io.py', 'malstroem/vector.py', C+'*.py', C+'complete.py'],
  [('temporary files and transactions', 'malstroem/io.py VectorWriter'), ('used output directory', C+'complete.py'), ('inputs opened for reading', 'malstroem/io.py RasterReader, VectorReader')],
  ['way the process ended', 'digests of inputs, contents of earlier layers and outputs, directory listings afterwards'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
