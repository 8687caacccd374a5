prop('N01', 'Interpolated positions are within tens of metres of the true ground positions',
     'The interpolated longitudes and latitudes differ from those of the full resolution geolocation product by less '
     'than the documented accuracy.', ['inputs'], 'all granules',
     'The tests compare a few granules.', ['geotiepoints/_modis_interpolator.pyx', 'geotiepoints/interpolator.py'],
     [('interpolation', 'geotiepoints/_modis_interpolator.pyx: Interpolator')], None, '')
NA.append(('N01', 'The accuracy depends on the terrain, the orbit and the viewing geometry of real granules: quantities '
           'of the runtime that no argument over the source can bound. What the source does determine (which blend of '
           'which tie points a pixel is) is C06, C16 and C17.'))

prop('N02', 'Rounding errors stay below the precision of the input type',
     'In single and double precision the results differ from those in exact arithmetic by no more than a few units '
     'in the last place of the input.', ['inputs'], 'all inputs',
     'The tests sample a few values.', ['geotiepoints/_modis_interpolator.pyx', 'geotiepoints/multilinear_cython.pyx'],
     [('kernels', 'geotiepoints/_modis_interpolator.pyx: Interpolator')], None, '')
NA.append(('N02', 'A bound needs the condition of arcsine and square root near the poles and at nadir for runtime values; '
           'the analysis treats floating point as exact real arithmetic and no sound error domain for these kernels is '
           'available here that does not exceed the claim near the poles.'))

prop('N03', 'Lazy MODIS interpolation runs in bounded memory and scales with the workers',
     'Peak memory of a computation is a small multiple of the size of one chunk per worker.', ['schedules'],
     'all schedules', 'The tests do not measure it.', ['geotiepoints/_modis_utils.pyx'],
     [('map_blocks', 'geotiepoints/_modis_utils.pyx: scanline_mapblocks')], None, '')
NA.append(('N03', 'Memory and time are properties of the dask scheduler at run time, not of this source.'))
