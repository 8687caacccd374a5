"""C10: lazy input gives lazy results, and nothing is computed before it is asked for."""
from absint.vals import DaskArr, XArr
from . import entries as E
from .scen import run

TITLE = 'Lazy interpolation computes nothing until it is asked to'
RULE = ('Every entry point that takes dask arrays, lazy DataArrays or a chunks argument is analysed; a conversion of a lazy '
        'array to numpy, a truth value, a computation or the evaluation of an interpolant outside of the tasks of '
        'the graph is a violation, except for the one decision of the VII positions, which is a single number. '
        'Every result has to be lazy.')
MINIMUM = 250
ASSUMPTIONS = ('dask and xarray are lazy where they are documented to be',)

DECISIONS = {'VII positions'}


def unit(name, how, dt, size, layout='rows'):
    def go(out):
        def setup(I):
            c = E.call(I, name, '', how, dt, size, layout=layout)
            return c, list(I.computes), list(I.evaluations)
        for c in run(setup):
            out.use(c)
            what = '%s, %s %s, size %d, %s' % (name, how, dt, size, layout)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            case, computes, evals = c.value
            n = 0
            for x in computes:
                shape = x[3]
                if name in DECISIONS and shape == ():
                    n += 1
                    continue
                out.ob('nothing is computed', '%s: %s' % (what, x[1]), False, 'at %s' % (x[0],), str(x[0]))
            for kind, loc, depth in evals:
                if depth == 0:
                    out.ob('interpolants are evaluated by the tasks only', '%s: %s' % (what, kind), False, str(loc), str(loc))
            for e in c.events:
                if e['kind'] == 'dask-meta':
                    out.ob('functions of blocks are not called to find out their result', '%s: %s' % (what, e['msg']), False,
                           e['msg'], e['where'], e['function'])
            out.ob('nothing is computed', what, True, '%d single numbers' % n)
            out.ob('there are results', what, bool(case.results))
            for k, r in enumerate(case.results):
                d = r.data if isinstance(r, XArr) else r
                out.ob('the result is lazy', '%s result %d' % (what, k), isinstance(d, DaskArr), str(r))
                out.ob('the container of the result is that of the input', '%s result %d' % (what, k),
                       isinstance(r, XArr) == ('DataArray' in how), str(r))
    return go


def units():
    u = []
    for name, (f, hows) in E.ENTRIES.items():
        for how in hows:
            if E.is_lazy(name, how):
                for dt in ('f8', 'f4'):
                    u.append(('%s-%s-%s' % (name, how, dt), unit(name, how, dt, 1)))
                for size, layout in ((0, 'rows'), (0, 'whole'), (4, 'many'), (1, 'tiles')):
                    if layout == 'rows' or how != E.NUMPY:
                        u.append(('%s-%s-%d-%s' % (name, how, size, layout), unit(name, how, 'f8', size, layout)))
    return u
