"""C09: results depend on nothing but the arguments of the call and the construction of the object."""
from absint import arrays as A
from absint.terms import const
from absint.vals import Arr, Builtin, DaskArr
from . import classic as K, entries as E
from .core import TIER
from .scen import client, get, run

TITLE = 'Calls do not influence each other'
RULE = ('The results of every public entry point are compared, element by element at sample positions, with those of '
        'the same call made after calls with other data of the same shape, of another shape and of another type; '
        'results returned earlier have to keep their values; so do interpolator objects that are asked repeatedly. '
        'Tasks of lazy results must not change objects that other tasks see, and parallel loops must not share '
        'cells or variables between iterations.')
MINIMUM = 1200
ASSUMPTIONS = ('scipy, pandas, dask and xarray keep no state that changes results',)
KINDS = {'race', 'order'}


def read(I, a, picks):
    f = I.snapshot(a)
    return [(i, A.expand(f(tuple(const(x) for x in i)), I.st.facts)) for i in picks]


def values(I, data):
    """[(result, index, tree)] of the computed results"""
    out, memo = [], {}
    for k, a in enumerate(data):
        if isinstance(a, Arr) and a.ndim:
            for i, t in read(I, a, E.samples(a.shape)):
                out.append((k, i, E.canonical(I, t, I.st.facts, memo)))
    return out


def computed(I, case):
    return [E.data_of(I, r) for r in case.results]


def shared(out, c, what, writes):
    for msg, loc in writes[:3]:
        out.ob('tasks do not change what other tasks see', '%s: %s' % (what, msg), False, str(loc), str(loc))
    if not writes:
        out.ob('tasks do not change what other tasks see', what, True)
    for e in c.events:
        if e['kind'] in KINDS:
            out.ob('the result does not depend on the order of execution', '%s: %s' % (what, e['msg']), False, e['msg'],
                   e['where'], e['function'])


def sequence(name, how, dt='f8'):
    other = 'f4' if dt == 'f8' else 'f8'

    def go(out):
        what = '%s, %s %s' % (name, how, dt)
        alone = []
        for c in run(lambda I: values(I, computed(I, E.call(I, name, 'A', how, dt)))):
            out.use(c)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                return
            alone.append((c.facts, c.value))

        def setup(I):
            before = []
            for tag, size, d, h in (('F', 0, dt, how), ('B', 0, dt, how), ('C', 1, dt, how), ('D', 0, other, how), ('E', 0, dt, E.NUMPY),
                                    ('G', 0, dt, how)):
                if h not in E.ENTRIES[name][1]:
                    continue
                data = computed(I, E.call(I, name, tag, h, d, size))
                if tag == 'B':
                    before = [(data, values(I, data))]
            r = values(I, computed(I, E.call(I, name, 'A', how, dt)))
            after = [values(I, data) for data, v in before]
            # a call of the same kind once more: the first result must not be overwritten
            return r, [v for data, v in before], after, I.shared_writes(), I.tasks_run
        for c in run(setup):
            out.use(c)
            if not out.ob('the call returns after other calls', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                return
            r, before, after, writes, tasks = c.value
            shared(out, c, what, writes)
            for facts, want in alone:
                if not out.ob('the same results as alone', what, [x[:2] for x in r] == [x[:2] for x in want],
                              '%d elements, %d alone' % (len(r), len(want))):
                    continue
                f = c.facts
                for (k, i, t), (_, _, w) in zip(r, want):
                    out.equal('value as without the calls before', '%s result %d %s' % (what, k, i), f, t, w)
            for x, y in zip(before, after):
                for (k, i, t), (_, _, w) in zip(y, x):
                    out.equal('earlier results keep their values', '%s result %d %s' % (what, k, i), c.facts, t, w)
    return go


def history(name, kind, build):
    """build(I) -> the pair (alone, after others) of a client program"""
    def go(out):
        def setup(I):
            a, b = build(I)
            writes = I.shared_writes()
            return [[values(I, [E.data_of(I, r) for r in E.flat(I, x)]) for x in (a, b)], I.shared_writes()]
        for c in run(setup):
            out.use(c)
            what = '%s, %s' % (name, kind)
            if not out.ob('the calls return', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            (a, b), writes = c.value
            shared(out, c, what, writes)
            if not out.ob('there are results to compare', what, len(a) > 0 and [x[:2] for x in a] == [x[:2] for x in b],
                          '%d and %d elements' % (len(a), len(b))):
                continue
            for (k, i, t), (_, _, w) in zip(b, a):
                out.equal('value as for a fresh object', '%s result %d %s' % (what, k, i), c.facts, t, w)
    return go


def factory(f):
    return Builtin('make', lambda I, a, k: f())


def grid_object(kind, lazy, shape):
    geo = kind.startswith('Geo')
    mod = 'geotiepoints.geointerpolator' if geo else 'geotiepoints.interpolator'
    spline = 'Spline' in kind

    def build(I):
        M = E.Maker(I, '', E.NUMPY, 'f8')
        pts = (M.raw('py', [4]), M.raw('px', [5]))
        vals = [M.raw(k, [4, 5]) for k in (('lon', 'lat') if geo else ('v',) if kind.startswith('Single') else ('v', 'w'))]
        cls = get(I, '%s:%s' % (mod, kind))
        kw = I.new_dict({})
        if spline:
            kw = {'dx': E.ints(1)[0]}
        else:
            kw = {'method': 'nearest'}
        if lazy:
            kw['chunks'] = E.ints(2, 2)
        kw = I.new_dict({('s', k): (k, v) for k, v in kw.items()})
        prog = client(I, 'history')
        if shape:
            args = (E.ints(3, 5), E.ints(4, 6))
        else:
            args = ((M.raw('fy', [3]), M.raw('fx', [5])), (M.raw('gy', [3]), M.raw('gx', [5])))
        return I.call(I.global_get(prog, 'shapes' if shape else 'points'),
                      [factory(lambda: I.call(cls, [pts, *vals], {})), *args, kw], {})
    return build


def classic_object(what, prog):
    def build(I):
        def make(tag):
            def go():
                M = E.Maker(I, tag, E.NUMPY, 'f8')
                rows, cols, hr, hc = E.grids(0, '1d' in what)
                sh = [len(rows), len(cols)]
                g = [(M.points(rows), M.points(cols)), (M.points(hr), M.points(hc))]
                kw = dict(zip(('kx_', 'ky_'), E.ints(1, 3)))
                if 'chunk' in what:
                    kw['chunk_size'] = E.ints(10)[0]
                if 'geo' in what:
                    return M.call('geotiepoints.geointerpolator:GeoInterpolator', [(M.raw('lon', sh), M.raw('lat', sh)), *g], kw)
                return M.call('geotiepoints.interpolator:Interpolator', [I.new_list([M.raw('a', sh), M.raw('b', sh)]), *g], kw)
            return factory(go)
        args = [make('')]
        if prog == 'filled':
            args.append(('y', 'x'))
        if prog == 'two':
            args.append(make('Z'))
        return I.call(I.global_get(client(I, 'history'), prog), args, {})
    return build


def basic_object(prog):
    def build(I):
        def make(tag):
            def go():
                M = E.Maker(I, tag, E.NUMPY, 'f8')
                dat = [M.raw(k, [3, 4]) for k in ('lat', 'lon')]
                return M.call('geotiepoints.basic_interpolator:BasicSatelliteInterpolator',
                              [M.points([0, 3, 6, 9]), M.points([0, 4, 8]), *dat])
            return factory(go)
        r = I.call(I.global_get(client(I, 'history'), prog), [make('')] + ([make('Z')] if prog == 'two' else []), {})
        return [[I.nparr.as_array(x) for x in I.iterate(y)] for y in I.iterate(r)]
    return build


def multilinear_object(d):
    def build(I):
        M = E.Maker(I, '', E.NUMPY, 'f8')
        n = [3, 3, 2, 2][:d]
        tot = 1
        for x in n:
            tot *= x
        lo = [E.Num(const(k), 'float') for k in range(d)]
        hi = [E.Num(const(k + 2), 'float') for k in range(d)]
        cls = get(I, 'geotiepoints.multilinear:MultilinearInterpolator')

        def make():
            return I.call(cls, [I.new_list(lo), I.new_list(hi), I.new_list(list(E.ints(*n)))], {})
        return I.call(I.global_get(client(I, 'history'), 'multilinear'),
                      [factory(make), M.raw('v', [2, tot]), M.raw('w', [2, tot]), M.raw('s', [d, 3]), M.raw('t', [d, 3])], {})
    return build


def units():
    u = []
    for name, (f, hows) in E.ENTRIES.items():
        for how in hows:
            u.append(('sequence-%s-%s' % (name, how), sequence(name, how)))
        if TIER == 'thorough' or not name.startswith(('simple', 'angle')):
            u.append(('sequence-%s-f4' % name, sequence(name, hows[-1], 'f4')))
    for kind in ('SingleGridInterpolator', 'SingleSplineInterpolator', 'MultipleGridInterpolator',
                 'MultipleSplineInterpolator', 'GeoGridInterpolator', 'GeoSplineInterpolator'):
        for lazy in (False, True):
            for shape in (False, True):
                if shape and kind.startswith('Single'):
                    continue
                nm = '%s%s' % ('lazy ' if lazy else '', 'shapes' if shape else 'points')
                u.append(('history-%s-%s' % (kind, nm), history(kind, nm, grid_object(kind, lazy, shape))))
    for what in ('plain', 'geo', '1d', 'geo 1d', 'chunk', 'geo chunk'):
        for prog in ('classic', 'two') + (('filled',) if '1d' not in what else ()):
            u.append(('history-%s-%s' % (what, prog), history('Interpolator %s' % what, prog, classic_object(what, prog))))
    for prog in ('classic', 'two'):
        u.append(('history-basic-%s' % prog, history('BasicSatelliteInterpolator', prog, basic_object(prog))))
    for d in (1, 2, 3, 4):
        u.append(('history-multilinear-%d' % d, history('MultilinearInterpolator', '%dd' % d, multilinear_object(d))))
    return u
