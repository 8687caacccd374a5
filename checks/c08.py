"""C08: interpolation never changes the arrays, DataArrays and lists that it is given."""
from absint.vals import Arr, XArr
from . import entries as E
from .scen import run

TITLE = 'Interpolation never modifies its inputs'
RULE = ('Every public entry point is analysed with numpy arrays (contiguous and strided, double and single precision, '
        'integers for the classic interpolators), dask arrays and DataArrays. Every store that can reach the memory of an argument, also '
        'through views, through arrays that were only converted when necessary, and inside of the tasks of lazy '
        'results, is a violation; so are changed argument lists and results that share the memory of an argument.')
MINIMUM = 900
ASSUMPTIONS = ('scipy, pandas and dask do not write into the arrays that they are given',)


def unit(name, how, dt, strided, size):
    def go(out):
        def setup(I):
            c = E.call(I, name, '', how, dt, size, strided)
            data = [E.data_of(I, r) for r in c.results]
            lists = [(r, before, I.list_items(r)) for r, before in c.lists]
            return c, data, lists
        for c in run(setup):
            out.use(c)
            what = '%s, %s %s%s' % (name, how, dt, ' strided' if strided else '')
            bad = [e for e in c.events if e['kind'] == 'input-write' and
                   (e.get('cond') is None or e['facts'].assume(e['cond']) is not None)]
            for e in bad[:3]:
                out.ob('no store into an argument', '%s: %s' % (what, e['msg']), False, e['msg'], e['where'], e['function'])
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            case, data, lists = c.value
            for nm, x in case.inputs:
                if not bad:
                    out.ob('no store into an argument', '%s: %s' % (what, nm), True, 'no store reaches it')
            bufs = {}
            for nm, x in case.inputs:
                a = x.data if isinstance(x, XArr) else x
                if isinstance(a, Arr):
                    bufs[a.buf.oid] = nm
            for k, a in enumerate(data):
                if isinstance(a, Arr):
                    out.ob('results have memory of their own', '%s result %d' % (what, k), a.buf.oid not in bufs,
                           'shares the memory of %s' % bufs.get(a.buf.oid))
            for r, before, after in lists:
                out.ob('argument lists keep their items', what, len(before) == len(after) and
                       all(x is y or (isinstance(x, E.Num) and x.t is y.t) for x, y in zip(before, after)), 'a list was changed')
    return go


def units():
    u = []
    for name, (f, hows) in E.ENTRIES.items():
        def group(out, name=name, hows=hows):
            for how in hows:
                for dt in ('f8', 'f4') + (('i4',) if name.startswith(('classic', 'basic')) else ()):
                    for strided in (False, True):
                        if strided and 'azy' in how:
                            continue
                        unit(name, how, dt, strided, 0 if strided else 1)(out)
        u.append((name, group))
    return u
