CLASSIC = ['geotiepoints/interpolator.py', 'geotiepoints/geointerpolator.py', 'geotiepoints/__init__.py']

prop('C11', 'Lazy and eager grid and spline interpolation give the same, right values',
     'SingleGridInterpolator, SingleSplineInterpolator and the multiple and geographical interpolators built on them '
     'return at every requested pixel the value of the interpolant of the given tie points and values, evaluated at '
     'the fine coordinates of that pixel with the options of the call. It makes no difference whether fine '
     'coordinates are arrays or slices of a shape, and whether the result is computed at once or lazily in chunks of '
     'any size; lazy results declare the shape, chunks and type that their blocks have, and requests that differ in '
     'their data, points or options never share a task name.',
     ['inputs', 'configurations'],
     'all tie values, all fine coordinates, all chunkings that dask accepts, all interpolation options',
     'The tests ask for one grid and one chunking; blocks evaluated at the coordinates of another block, or cached '
     'under the name of another request, show up only for other combinations.',
     ['geotiepoints/interpolator.py', 'geotiepoints/geointerpolator.py'],
     [('task graph of a lazy result', 'geotiepoints/interpolator.py: SingleGridInterpolator.interpolate_dask'),
      ('normalisation of points', 'geotiepoints/interpolator.py: _get_fine_points and the slices interface'),
      ('geographical wrappers', 'geotiepoints/geointerpolator.py: GeoGridInterpolator, GeoSplineInterpolator')],
     TECH + '; the dask graph that the code builds is evaluated abstractly, block by block',
     'Symbolic values and fine coordinates for a concrete grid and a set of chunkings and options (listed in the '
     'evidence); the interpolants of scipy are opaque functions of their tie points, values and options.')

prop('C12', 'MODIS interpolation does not depend on chunks, laziness or labels',
     'Every public MODIS function (simple and angle based) returns for dask arrays and for DataArrays, whatever their '
     'chunks - aligned with scans or not, smaller than a scan, chunked along the columns, or different for the '
     'arguments - the values that it returns for whole numpy arrays, and the lazy results declare the shape, chunks '
     'and type that they have once computed.',
     ['inputs', 'configurations'],
     'all coarse values; ten row chunkings, one and two column chunks, all public functions and widths, both precisions',
     'The tests chunk one granule in whole scans. Chunks that cut a scan or a column range give plausible but wrong '
     'positions at the cut only.',
     ['geotiepoints/_modis_utils.pyx', 'geotiepoints/modisinterpolator.py', 'geotiepoints/simple_modis_interpolator.py'],
     [('chunk alignment', 'geotiepoints/_modis_utils.pyx: scanline_mapblocks, rows_per_scan_for_resolution'),
      ('entry points', 'geotiepoints/modisinterpolator.py: modis_*; geotiepoints/simple_modis_interpolator.py: modis_*')],
     TECH + '; block values of the graph compared with the values of the eager call',
     'Symbolic data, concrete layouts listed in the evidence; the quick tier compares two rows of every scan at three '
     'columns, the thorough tier all rows at ten columns.')

prop('C15', 'fill_borders extrapolates linearly and keeps every tie point',
     'After fill_borders the tie points start and end at the first and last fine column, and at the first and last '
     'fine row of every chunk of rows, whatever the units of the positions and the type of the data. Every original '
     'tie point is still there, in order and once, with its value, also when it is already at a border. '
     'The added ones lie on the straight line through the two nearest tie points of the same chunk (of the same row, '
     'for columns).',
     ['inputs', 'configurations'],
     'all tie values; a set of grids that covers positions in integer and fractional units, on and off the borders, one to four chunks',
     'The tests fill two tiny grids; what is lost or repeated at a chunk border is seen only in particular '
     'combinations of tie positions, units and chunks.',
     CLASSIC,
     [('borders', 'geotiepoints/interpolator.py: Interpolator.fill_borders, _fill_row_borders, _fill_col_borders'),
      ('extrapolation', 'geotiepoints/interpolator.py: _linear_extrapolate, extrapolate_cols, extrapolate_rows')],
     TECH + '; comparison of every position and value with the straight-line reference',
     'Symbolic values on a set of concrete grids listed in the evidence.')

prop('C16', 'The classic interpolator evaluates the spline through the tie points',
     'Interpolator and GeoInterpolator return, for every field in the order given and at every fine row and column, '
     'the value there of the interpolating (not smoothing) spline of the requested degrees along and across the '
     'track through all tie points of that field, whatever the type of the tie data. When fine and tie rows coincide '
     'every row is interpolated on its own. Geographical results are the longitude and latitude of the three '
     'interpolated cartesian components.',
     ['inputs', 'configurations'],
     'all tie values; generic fine pixels; a set of grids, degrees, and input types',
     'The tests compare a few numbers with loose tolerances; exchanged degrees or axes, and fields that end up in '
     'each other\'s place, give smooth and plausible results.',
     CLASSIC,
     [('spline', 'geotiepoints/interpolator.py: Interpolator.interpolate, _interp, _interp1d'),
      ('tie data', 'geotiepoints/geointerpolator.py: GeoInterpolator.__init__, interpolate')],
     TECH + '; records of the splines constructed, value at a generic element',
     'The splines of scipy are opaque functions of their construction record; the grids are concrete.')

prop('C17', 'Predefined satellite grids place tie points and pixels correctly',
     'modis5kmto1km, generic_modis5kmto1km, modis1kmto500m, modis1kmto250m and metop20kmto1km use the tie point and '
     'pixel positions of the instruments for every number of scans: columns 2, 7, ... 1352 and rows 2, 7 of every '
     '5 km scan; 1 km pixels centred in their 2 or 4 fine rows, aligned with the first of their fine columns; '
     'AVHRR columns 0, 4, 24, ... 2044, 2047. The interpolation is linear along and cubic across the track, and '
     'borders are extrapolated scan by scan.',
     ['inputs', 'configurations'], 'all tie values, one to four scans, both precisions',
     'The tests use one granule and a tolerance of hundreds of metres.',
     CLASSIC,
     [('positions', 'geotiepoints/__init__.py: metop20kmto1km, modis5kmto1km, modis1kmto500m, modis1kmto250m, generic_modis5kmto1km')],
     TECH + '; comparison of the spline construction records and evaluation positions with the instrument layout',
     'One to four scans with symbolic values.')

prop('C18', 'Several cores give the result of a single core',
     'modis1kmto500m and modis1kmto250m return the same positions, in the same order and shape, for any number of '
     'cores and scans: the swath is split between whole scans, no scan is left out or given to two workers, and the '
     'parts are put together in their order.',
     ['inputs', 'configurations', 'schedules'],
     'all tie values; up to seven scans and nine cores; any order in which the workers finish',
     'The tests use one combination of scans and cores, and see only the schedules that happen.',
     CLASSIC,
     [('splitting and collecting', 'geotiepoints/__init__.py: get_scene_splits, _multi')],
     TECH + '; the source of every row of the result is traced through the split',
     'All combinations up to seven scans and nine cores, symbolic values.')

ALLSRC = ['geotiepoints/__init__.py', 'geotiepoints/interpolator.py', 'geotiepoints/geointerpolator.py',
          'geotiepoints/modisinterpolator.py', 'geotiepoints/simple_modis_interpolator.py',
          'geotiepoints/_modis_interpolator.pyx', 'geotiepoints/_simple_modis_interpolator.pyx',
          'geotiepoints/_modis_utils.pyx', 'geotiepoints/multilinear.py', 'geotiepoints/multilinear_cython.pyx',
          'geotiepoints/viiinterpolator.py', 'geotiepoints/basic_interpolator.py']

prop('C08', 'Interpolation never modifies its inputs',
     'No interpolation function and no interpolator object, eager or lazy, changes the arrays, DataArrays or lists '
     'that a caller passes in, and no result shares memory with them.',
     ['inputs', 'configurations'],
     'all public entry points; numpy (contiguous or strided, single, double, integer), dask, DataArray and lazy DataArray inputs',
     'Tests rarely look at their inputs after a call. Whether a conversion copies depends on type, layout and container.',
     ALLSRC, [('conversions', 'geotiepoints/_modis_interpolator.pyx: interpolate; geotiepoints/multilinear.py'),
              ('in-place computation', 'geotiepoints/geointerpolator.py: lonlat2xyz, xyz2lonlat'),
              ('tie data', 'geotiepoints/interpolator.py: Interpolator.fill_borders')],
     TECH + '; effects on the memory of the arguments',
     'Every store reached from every public entry point is attributed to the memory it may reach.')

prop('C09', 'Calls do not influence each other',
     'The result of a call depends only on its arguments and on how its object was constructed: not on calls made '
     'before, on other objects, or on the order or concurrency in which lazy blocks are computed. Results that were '
     'returned earlier keep their values.',
     ['histories', 'schedules', 'inputs'],
     'all public entry points, after calls with other data of the same and of another shape and type; any order of tasks',
     'Tests call each function once with data of its own; stale caches and shared scratch arrays need a second call '
     'with other data, or another thread.',
     ALLSRC, [('grid of the multilinear interpolator', 'geotiepoints/multilinear.py: MultilinearInterpolator.grid'),
              ('block functions', 'geotiepoints/_modis_utils.pyx: _map_blocks_handler; geotiepoints/interpolator.py: interpolate_dask'),
              ('kernels', 'geotiepoints/_modis_interpolator.pyx: Interpolator')],
     TECH + '; values with and without a history of calls, effects of tasks on shared objects',
     'Elements of results are compared at sample positions for a fixed set of histories.')

prop('C10', 'Lazy interpolation computes nothing until it is asked to',
     'Given dask arrays or lazy DataArrays, or asked for chunks, the MODIS functions and the grid, spline and VII '
     'interpolators return lazy results without computing their inputs or evaluating any interpolant. The only '
     'exception is the single yes/no decision of the VII positions about the coordinates to use.',
     ['inputs', 'configurations'], 'all lazy entry points, containers and types',
     'A test that compares computed values cannot see that the computation happened too early.',
     ALLSRC, [('lazy entry points', 'geotiepoints/_modis_utils.pyx: scanline_mapblocks; geotiepoints/interpolator.py: interpolate_dask'),
              ('VII', 'geotiepoints/viiinterpolator.py: tie_points_interpolation, tie_points_geo_interpolation')],
     TECH + '; every conversion of a lazy value and every evaluation of an interpolant is located inside or outside of a task',
     'All lazy entry points.')

prop('C19', 'VII tie points are interpolated bilinearly inside of their own scan',
     'Every pixel of the VII interpolation is the bilinear blend of the four tie points of its cell in its own scan; '
     'pixels between scans do not exist, and the result has the dimensions of the input and no left-over coordinates. '
     'Positions are blended as longitudes and latitudes unless a latitude exceeds the threshold or the longitudes '
     'span more than 180 degrees, and otherwise as cartesian coordinates that are converted back with the given z threshold.',
     ['inputs', 'configurations'],
     'all tie values, all widths, thresholds, a set of numbers of scans, tie points per scan and factors',
     'The tests use one layout and one set of values; pixels at scan edges and the choice of coordinates are sampled at best.',
     ['geotiepoints/viiinterpolator.py'],
     [('grids', 'geotiepoints/viiinterpolator.py: tie_points_interpolation'),
      ('choice of coordinates', 'geotiepoints/viiinterpolator.py: tie_points_geo_interpolation')],
     TECH + '; comparison with the blend at every row and column offset, for symbolic widths',
     'Fifteen layouts, eager and lazy.')

prop('C20', 'The basic interpolator is bilinear and keeps the tie points',
     'The basic interpolator returns latitudes and longitudes, in this order, for every pixel from the first to the '
     'last tie row and column, each the bilinear blend of the four tie points around it, whatever the spacing of the '
     'tie points and the type of the data.',
     ['inputs', 'configurations'], 'all tie values; a set of even and uneven tie grids',
     'There is no test of this module.',
     ['geotiepoints/basic_interpolator.py'],
     [('interpolation along both axes', 'geotiepoints/basic_interpolator.py: _interp, _interp_axis, _pandas_interp')],
     TECH + '; comparison of every pixel with the bilinear blend',
     'Symbolic values on eight grids; reindexing and interpolation of pandas are modelled.')

prop('C02', 'Every element of every result is computed from the input',
     'No result of any public function or interpolator contains an element that was not written, that was read outside '
     'of an array, that came from a division by zero, from a root of a negative number or is a fill value or infinity '
     'the input did not contain - on no path that valid input can take, including tie points at nadir, at the poles, '
     'on the tie rows and columns and beyond the outermost tie points.',
     ['inputs', 'configurations'],
     'all public entry points with all containers and types; all MODIS functions for any number of scans, every row and column of a scan',
     'Uninitialised memory often looks like plausible numbers, and divisions by zero need exact coincidences '
     '(a pixel at nadir, a tie point on the pole) that sampled granules do not contain.',
     ALLSRC, [('interpolation kernels', 'geotiepoints/_modis_interpolator.pyx, geotiepoints/_simple_modis_interpolator.pyx'),
              ('result arrays', 'geotiepoints/multilinear.py; geotiepoints/basic_interpolator.py; geotiepoints/interpolator.py')],
     TECH + '; initialisation and definedness of every sampled element, with the path conditions checked for feasibility',
     'The domain of arcsine and arccosine (violated only by rounding) is not covered: floating point is taken as exact.')

prop('C04', 'Interpolated positions are longitudes and latitudes',
     'Every longitude that the MODIS, VII, classic and grid interpolators return is between -180 and 180 degrees and '
     'every latitude between -90 and 90 degrees, for whatever tie positions on the globe and whatever components the '
     'interpolation in cartesian coordinates yields.',
     ['inputs', 'configurations'],
     'all tie positions; all MODIS functions and widths for any number of scans; all geographical entry points',
     'Values outside of the range need particular positions (across the date line, around a pole), which few test granules have.',
     ALLSRC, [('conversion back', 'geotiepoints/geointerpolator.py: xyz2lonlat; geotiepoints/_modis_utils.pyx: xyz2lonlat; geotiepoints/viiinterpolator.py: _xyz2lonlat')],
     TECH + '; interval bounds of every case of the abstract value',
     'Rows of a scan: first, middle and last in the quick tier, all in the thorough tier; every column position.')

prop('C07', 'Scans, swath lines and points are interpolated independently of each other',
     'A MODIS scan is interpolated from its own tie points only, in the same way whatever its place among however many '
     'scans, and so is every VII scan; lines of a swath without tie points along the track are interpolated alone, and '
     'so is every point of the multilinear, grid and conversion functions: splitting the input and interpolating the '
     'parts gives the parts of the result.',
     ['inputs', 'configurations'],
     'any number of MODIS scans (symbolic), several numbers of VII scans and lines; all values',
     'The tests use one granule layout; leaks between scans concern a few rows at the seams of other layouts.',
     ALLSRC, [('rows of scans', 'geotiepoints/_modis_interpolator.pyx; geotiepoints/_simple_modis_interpolator.pyx'),
              ('VII scans', 'geotiepoints/viiinterpolator.py: tie_points_interpolation'),
              ('lines', 'geotiepoints/interpolator.py: Interpolator; geotiepoints/__init__.py: metop20kmto1km')],
     TECH + '; values of a part of the result compared with those of a run on the part of the input, and dependence on tie rows',
     'Generic scan s of a symbolic number of scans for MODIS.')

prop('C13', 'Unsuitable input is refused and suitable input is not',
     'Arrays whose sizes are not whole scans, whose shapes do not match each other, with unsupported widths or '
     'resolutions, or tie points that do not fit the data are refused with the documented kind of exception on every path, '
     'eager or lazy, before any result is returned. The same functions never refuse input that meets the requirements, '
     'whatever its values, containers, types and number of scans. A failed fill_borders leaves the object unchanged.',
     ['inputs', 'configurations'],
     'all public entry points; symbolic sizes for the MODIS functions, a set of misfits for each requirement',
     'The tests try a few wrong sizes in one container; checks that are made only for some containers, sizes or types pass them.',
     ALLSRC, [('MODIS requirements', 'geotiepoints/_modis_utils.pyx; geotiepoints/_modis_interpolator.pyx; geotiepoints/_simple_modis_interpolator.pyx'),
              ('VII requirements', 'geotiepoints/viiinterpolator.py'),
              ('classic requirements', 'geotiepoints/interpolator.py; geotiepoints/multilinear.py')],
     TECH + '; reachability of every raise and of every return',
     'Requirements are those of the documentation and of the messages of the exceptions.')

prop('C14', 'Results have the documented number, shape, container, dimensions and precision',
     'Every public function returns as many results as documented, in the shape that the fine grid demands, in the container '
     'of its input (numpy, dask or DataArray with the dimensions of the input), and in a floating type that keeps the '
     'precision of the input. Lazy results declare what they will have once computed.',
     ['inputs', 'configurations'],
     'all public entry points, containers, types (single, double and integer) and two sizes',
     'The tests compare values with tolerances, mostly double precision numpy arrays, and so do not see a precision or a container that is lost.',
     ALLSRC, [('containers', 'geotiepoints/_modis_utils.pyx: scanline_mapblocks'),
              ('types', 'geotiepoints/_modis_interpolator.pyx; geotiepoints/multilinear.py; geotiepoints/interpolator.py')],
     TECH + '; abstract type, shape and container of every result',
     'Types follow the promotion rules of numpy 2.')
