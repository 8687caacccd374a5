#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'static analysis: abstract interpretation (gated value numbering over polynomials, array write summaries)'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note))


TRUST = (' Trusted: the abstract semantics in absint (Python/Cython/numpy/dask subset) and the reference formulas in '
         'checks/. Floating point is treated as exact real arithmetic.')

prop('C01', 'The compiled kernels never touch memory outside their arrays',
     'Whatever arrays a caller passes to the MODIS interpolation functions or to the multilinear interpolator - any '
     'number of rows and columns, consistent or not, any grid orders, points inside or outside of the grid - the '
     'compiled code reads and writes only elements that exist in its input, scratch and output arrays. '
     'Unsuitable layouts are refused before the kernels run.',
     ['inputs', 'configurations'],
     'all array shapes, all resolutions, both precisions, all point positions, one to four dimensions',
     'Bounds checks are compiled out, so an access outside an array does not raise: tests with a few sizes see '
     'nothing unless a neighbouring page happens to be unmapped.',
     ['geotiepoints/_modis_interpolator.pyx', 'geotiepoints/_simple_modis_interpolator.pyx',
      'geotiepoints/_modis_utils.pyx', 'geotiepoints/multilinear_cython.pyx'],
     [('loops over views with computed offsets', 'geotiepoints/_modis_interpolator.pyx: _expand_tiepoint_array_*'),
      ('edge rows and columns written at fixed offsets', 'geotiepoints/_simple_modis_interpolator.pyx: _interpolate_xyz_*'),
      ('clamping of the cell number', 'geotiepoints/multilinear_cython.pyx: multilinear_interpolation_*d'),
      ('shape validation', 'geotiepoints/_modis_interpolator.pyx: interpolate')],
     'static analysis: interval and polynomial bounds of every index of the compiled modules',
     'Every access site of the compiled modules reached from the public functions is shown to be in bounds for '
     'symbolic shapes.')

prop('C03', 'Longitude/latitude and cartesian coordinates are converted exactly',
     'Tie points are turned into x = R cos(lat) cos(lon), y = R cos(lat) sin(lon), z = R sin(lat), and positions are '
     'turned back into lon = atan2(y, x) and the latitude whose sign is the sign of z, for every radius, threshold '
     'and option. Converting a longitude in (-180, 180] and a latitude in [-90, 90] forth and back returns them, also at the '
     'antimeridian and at the poles; all geographical interpolators feed exactly these coordinates to the '
     'interpolation.',
     ['inputs', 'configurations'], 'all positions on the globe, both latitude formulas, all radii and thresholds',
     'The tests convert a handful of places; a formula that is wrong in one hemisphere, at one sign of one '
     'coordinate, or for one option is not seen.',
     ['geotiepoints/geointerpolator.py', 'geotiepoints/interpolator.py'],
     [('formulas', 'geotiepoints/geointerpolator.py: lonlat2xyz, xyz2lonlat'),
      ('tie data', 'geotiepoints/geointerpolator.py: GeoInterpolator.__init__, to_xyz')],
     TECH + '; comparison of the value at a generic element with the reference formula',
     'Equality of the abstract value with the formula in every case of the path conditions.')

prop('C05', 'Multilinear interpolation is the multilinear form of the cell corners',
     'In one to four dimensions, for all grid bounds, orders, values and points, every interpolated value is the '
     'tensor product of the one-dimensional linear interpolants over the grid cell of the point, the outermost cell '
     'being used for points outside of the grid. Grid nodes are enumerated with the last index varying fastest, so '
     'values computed on the grid belong to their nodes.',
     ['inputs', 'configurations'], 'all bounds, orders, values, numbers of points; both precisions; 1 to 4 dimensions',
     'The tests compare a few random points inside of one grid with a loose tolerance; corner weights that are mixed '
     'up in one dimension, or cells at the rim, escape them.',
     ['geotiepoints/multilinear.py', 'geotiepoints/multilinear_cython.pyx'],
     [('kernels', 'geotiepoints/multilinear_cython.pyx: multilinear_interpolation_1d..4d'),
      ('grid', 'geotiepoints/multilinear.py: mlinspace')],
     TECH + '; comparison with the tensor product form',
     'Equality in every region of the case split (cell number clamped below, inside, above per dimension).')

prop('C06', 'MODIS fine pixels are the prescribed blend of their own cell',
     'For every scan and every fine row and column, the longitude and latitude that the MODIS functions return are '
     'those of the blend of the cartesian positions of the four tie points of the cell that contains the pixel: '
     'bilinear with uniformly spaced positions in the simple family, corrected along the scan for the viewing '
     'geometry of the Compact VIIRS guide in the angle family, symmetric cells included. Rows and columns beyond the outermost tie '
     'points of a scan are extrapolated linearly from the outermost cell.',
     ['inputs', 'configurations'],
     'all coarse values, all scans, all rows and columns, all 12 layouts (resolutions, 270 or 271 columns), both precisions',
     'The tests compare one granule with a tolerance of tens or hundreds of metres, which hides a wrong row, '
     'a wrong weight or a wrong neighbour for part of the pixels.',
     ['geotiepoints/_modis_interpolator.pyx', 'geotiepoints/_simple_modis_interpolator.pyx',
      'geotiepoints/_modis_utils.pyx', 'geotiepoints/modisinterpolator.py', 'geotiepoints/simple_modis_interpolator.py'],
     [('positions and weights', 'geotiepoints/_modis_interpolator.pyx: _get_coords*, _calculate_atrack_ascan'),
      ('corner expansion', 'geotiepoints/_modis_interpolator.pyx: _expand_tiepoint_array*'),
      ('viewing geometry', 'geotiepoints/_modis_interpolator.pyx: _compute_expansion_alignment'),
      ('bilinear kernel', 'geotiepoints/_simple_modis_interpolator.pyx: _compute_interpolated_xyz_scan')],
     TECH + '; comparison of every fine pixel position with the reference blend',
     'Equality for a generic scan and coarse column and for every row and column offset of the layout. '
     'Half precision effects and rounding are not covered.')

exec(open(os.path.join(HERE, 'tools', 'catalog_more.py')).read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'catalog_more.py')) else None

NA = []
if os.path.exists(os.path.join(HERE, 'tools', 'catalog_na.py')):
    exec(open(os.path.join(HERE, 'tools', 'catalog_na.py')).read())


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]}}) + '\n')
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python run.py --self-test',
         'checks': [{'property': p['id'], 'quick_cmd': '/opt/venv/bin/python run.py %s' % p['id'],
                     'thorough_cmd': 'env VERIF_TIER=thorough /opt/venv/bin/python run.py %s' % p['id'],
                     'technique': p['technique'], 'level': 'proof', 'level_note': p['note'] + TRUST}
                    for p in P if p['technique']],
         'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
