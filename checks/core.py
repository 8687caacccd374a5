"""Running the units of a check, and reporting.

A check is a list of units (name, function).  Every unit analyses one or more abstract runs of public entry
points of /repo and records *obligations*: facts that have to hold for the property.  Units run in separate
processes.  Exit 0: every obligation discharged.  Exit 1: at least one violated (VIOLATION line, replay file).
Exit 2: the analysis itself could not decide (never a verdict).
"""
import json
import multiprocessing
import os
import queue as _q
import resource
import signal
import sys
import time
import traceback

from absint import terms as T
from absint.terms import AnalysisError
from . import witness

ROOT = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
# no single unit may use up the time of the whole check
UNIT_LIMIT = 780 if TIER == 'quick' else 7200
TOTAL_LIMIT = 800 if TIER == 'quick' else 40000
# what is still running this long after a violation was found is given up
GRACE = 60


class TimeUp(BaseException):
    pass


def _time_up(*_):
    raise TimeUp()


class Out:
    """The findings of one unit."""

    def __init__(self, unit):
        self.unit = unit
        self.obligations = 0
        self.discharged = 0
        self.rules = {}
        self.violations = []
        self.undecided = []
        self.functions = set()
        self.files = set()
        self.engine = {}
        self.samples = []
        self.scenarios = 0

    # ------------------------------------------------------------ recording
    def ob(self, rule, construct, ok, detail='', where='', function=''):
        """One obligation of the property."""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1
            r[1] += 1
            if len(self.samples) < 6 and (r[1] == 1 or len(self.samples) < 2):
                self.samples.append('%s: %s [%s] %s' % (self.unit, rule, construct, str(detail)[:200]))
        else:
            self.violations.append({'rule': rule, 'construct': construct, 'where': where, 'function': function,
                                    'detail': detail, 'unit': self.unit})
        return ok

    def unknown(self, rule, construct, detail):
        self.obligations += 1
        self.rules.setdefault(rule, [0, 0])[0] += 1
        self.undecided.append('%s: %s [%s] %s' % (self.unit, rule, construct, detail))

    def equal(self, rule, construct, facts, got, want, where='', function=''):
        """got and want (value trees) are equal in every case that the facts allow."""
        try:
            d = witness.compare(facts, got, want, SEED)
        except AnalysisError as e:
            self.unknown(rule, construct, str(e))
            return False
        return self.ob(rule, construct, d is None, d if d is not None else 'proved equal', where, function)

    def holds(self, rule, construct, facts, cond, where='', function=''):
        """The condition (tree) holds in every case that the facts allow."""
        g = facts.assume(T.t_not(cond))
        if g is None or facts.holds(cond):
            return self.ob(rule, construct, True, 'proved')
        w = witness.feasible(g, T.t_not(cond), SEED)
        if w is None:
            self.unknown(rule, construct, 'not proved: %s where %s' % (T.show_tree(cond)[:400],
                                                                       [T.show(i[0]) for i in facts.ineqs[:8]]))
            return False
        return self.ob(rule, construct, False, {'violated': T.show_tree(cond)[:400], 'with': w}, where, function)

    def use(self, case):
        """Account for what an abstract run looked at."""
        I = case.I
        self.scenarios += 1
        self.functions |= {str(x) for x in I.functions_seen}
        self.files |= {str(x) for x in I.consulted}
        for (kind, mod, line, fn), n in I.obligations.items():
            self.engine[kind] = self.engine.get(kind, 0) + n

    def events(self, case, kinds, rule, allow=None):
        """The engine's own obligations (array bounds, ...) of one run: one obligation per site."""
        I = case.I
        bad = {}
        for e in case.events:
            if e['kind'] in kinds and not (allow and allow(e)):
                key = (e['kind'], e['where'], e['function'], e['msg'])
                bad.setdefault(key, []).append(e)
        sites = {}
        for (kind, mod, line, fn), n in I.obligations.items():
            if kind in kinds:
                sites[(kind, mod, line, fn)] = n
        for key in sites:
            self.obligations += 1
            r = self.rules.setdefault('%s (%s)' % (rule, key[0]), [0, 0])
            r[0] += 1
            self.discharged += 1
            r[1] += 1
        for key, es in bad.items():
            kind, where, fn, msg = key
            done = False
            for e in es:
                f = e['facts']
                g = f.assume(e['cond']) if e.get('cond') is not None else f
                if g is None:
                    done = None
                    continue
                w = witness.feasible(g, e['cond'] if e.get('cond') is not None else T.TRUE, SEED)
                if w is not None:
                    self.ob('%s (%s)' % (rule, kind), '%s:%s' % (fn, msg), False,
                            {'condition': T.show_tree(e['cond'])[:400] if e.get('cond') is not None else '',
                             'with': w}, where, fn)
                    done = True
                    break
                done = False
            if done is False:
                self.unknown('%s (%s)' % (rule, kind), '%s:%s %s' % (fn, where, msg),
                             T.show_tree(es[0]['cond'])[:300] if es[0].get('cond') is not None else '')

    def pack(self):
        return {'unit': self.unit, 'obligations': self.obligations, 'discharged': self.discharged,
                'rules': self.rules, 'violations': self.violations, 'undecided': self.undecided,
                'functions': sorted(self.functions), 'files': sorted(self.files), 'engine': self.engine,
                'samples': self.samples, 'scenarios': self.scenarios}


def _work(name, fn, conn):
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    t = time.time()
    out = Out(name)
    err = None
    try:
        signal.signal(signal.SIGTERM, _time_up)
        fn(out)
    except TimeUp:
        err = 'time limit'
    except AnalysisError as e:
        err = 'analysis: %s' % (e,)
        if os.environ.get('CHECK_DEBUG'):
            traceback.print_exc()
    except Exception as e:      # noqa
        err = 'internal error of the analysis: %s' % ''.join(traceback.format_exception(e))[-3000:]
    signal.signal(signal.SIGTERM, signal.SIG_IGN)
    r = out.pack()
    r['error'] = err
    r['wall'] = time.time() - t
    conn.put(r)


def run_units(units, jobs=None):
    """Run the units in worker processes, at most `jobs` at a time."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    conn = ctx.Queue()
    todo = list(units)
    live = {}
    res = []
    start = time.time()
    found = None

    def lost(name, why, t0):
        res.append({'unit': name, 'error': why, 'obligations': 0, 'discharged': 0, 'rules': {}, 'violations': [],
                    'undecided': [], 'functions': [], 'files': [], 'engine': {}, 'samples': [], 'scenarios': 0,
                    'wall': time.time() - t0})

    while todo or live:
        now = time.time()
        up = now - start > TOTAL_LIMIT or (found is not None and now - found > GRACE)
        if up:
            for name, fn in todo:
                lost(name, 'not analysed', now)
            todo = []
        while todo and len(live) < jobs:
            name, fn = todo.pop(0)
            p = ctx.Process(target=_work, args=(name, fn, conn))
            p.start()
            live[name] = [p, time.time(), None]
        try:
            r = conn.get(timeout=0.2)
            res.append(r)
            if r['violations'] and found is None:
                found = time.time()
            if r['unit'] in live:
                live.pop(r['unit'])[0].join(10)
            continue
        except _q.Empty:
            pass
        for name, x in list(live.items()):
            p, t0, asked = x
            if not p.is_alive():
                time.sleep(0.5)
                try:
                    r = conn.get(timeout=0.5)
                    res.append(r)
                    live.pop(r['unit'], None)
                    continue
                except _q.Empty:
                    pass
                live.pop(name)
                lost(name, 'the unit died', t0)
            elif asked is None and (up or now - t0 > UNIT_LIMIT):
                x[2] = now
                p.terminate()
            elif asked is not None and now - asked > 15:
                p.kill()
                live.pop(name)
                lost(name, 'time limit', t0)
    return res


def known_findings(pid):
    """(rule, construct) pairs of the committed known-findings file that suppress a report."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                out.append(ln.split(' ', 2)[2])
    return out


def main(pid, title, units, minimum, assumptions=(), rule_text=''):
    t = time.time()
    only = os.environ.get('CHECK_ONLY')
    if only:
        units = [u for u in units if only in u[0]]
    res = run_units(units)
    res.sort(key=lambda r: r['unit'])
    viol, und, errs = [], [], []
    rules, engine = {}, {}
    functions, files, samples = set(), set(), []
    ob = dis = scen = 0
    for r in res:
        ob += r['obligations']
        dis += r['discharged']
        scen += r['scenarios']
        viol += r['violations']
        und += r['undecided']
        if r['error']:
            errs.append('%s: %s' % (r['unit'], r['error']))
        for k, (a, b) in r['rules'].items():
            x = rules.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
        for k, n in r['engine'].items():
            engine[k] = engine.get(k, 0) + n
        functions |= set(r['functions'])
        files |= set(r['files'])
        samples += r['samples'][:3]
    # known findings
    known = known_findings(pid)
    new, old = [], []
    for v in viol:
        key = '%s [%s]' % (v['rule'], v['construct'])
        (old if any(k == key for k in known) else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, v['rule'], v['construct']))
    if ob < minimum and not errs and not new and not only:
        errs.append('only %d obligations were generated, at least %d are expected' % (ob, minimum))
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof',
          'coverage': {
              'obligations': ob, 'discharged': dis,
              'checker_cmd': '/opt/venv/bin/python run.py %s' % pid,
              'trusted_base': ['absint (front end and abstract semantics of the Python/Cython/numpy/dask subset)',
                               'term algebra and sign prover', 'reference formulas in checks/'],
              'explanation': '%s. Every unit abstractly interprets public entry points of the current sources; '
                             'an obligation is discharged when the abstract values satisfy the rule in every case '
                             'that the path facts allow. %s' % (title, rule_text),
              'rules': {k: {'instances': a, 'discharged': b} for k, (a, b) in sorted(rules.items())},
              'units': {r['unit']: {'obligations': r['obligations'], 'discharged': r['discharged'],
                                    'abstract_runs': r['scenarios'], 'wall_s': round(r['wall'], 2)} for r in res},
              'abstract_runs': scen,
              'engine_obligations': engine,
              'functions_analysed': sorted(functions),
              'files_consulted': sorted(files),
              'samples': samples[:12]},
          'assumptions': ['floating-point arithmetic is treated as exact real arithmetic; NaN is not propagated '
                          'through comparisons', *assumptions],
          'wall_s': round(time.time() - t, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if errs or und:
        ev['coverage']['undecided'] = (errs + und)[:40]
    replay = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
    if os.path.exists(replay):
        os.unlink(replay)
    if not only:
        with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for v in new[:40]:
        print('%s: %s: %s [%s] in %s (%s)\n    %s' % (v['where'] or 'source', v['rule'], 'violated', v['construct'],
                                                     v['function'], v['unit'], json.dumps(v['detail'], default=str)[:1500]))
    if new:
        with open(replay, 'w') as fh:
            json.dump({'property': pid, 'violations': new}, fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    for e in (errs + und)[:40]:
        print('UNDECIDED %s' % e[:2500])
    if errs or und:
        return 2
    print('%s: %d obligations discharged in %d abstract runs, %.1f s' % (pid, dis, scen, time.time() - t))
    return 0
