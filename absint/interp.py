"""The abstract interpreter: joins at every merge point, summaries for loops."""
import ast
import os
from fractions import Fraction
from .terms import (ATOMS, AnalysisError, FALSE, ONE, Poly, Subst, TRUE, Tree, ZERO, atom_poly, bool_atom, cmp_eq,
                    cmp_ge, cmp_gt, const, leaf, lin_split, mk_atom, padd, pfloordiv, pmod, pmul, pneg, poly_is_int,
                    psub, pscale, ptrunc, sym, t_and, t_ite, t_not, t_or, tadd, tapply, tdiv, tfdiv, tmap, tmod, tmul,
                    tneg, tsub, tree_conds, float_const)
from .facts import EMPTY, Facts
from . import arrays as A
from .vals import *
from . import front


class Dead(Exception):
    """The current path ends here (recorded elsewhere)."""


class LoopRestart(Exception):
    def __init__(self, ctx, oid):
        self.ctx, self.oid = ctx, oid


class NeedUnroll(Exception):
    def __init__(self, why):
        self.why = why


class NeedSplit(Exception):
    """The scenario has to be analysed separately for a condition on its inputs."""

    def __init__(self, cond, why=''):
        self.cond, self.why = cond, why


class State:
    __slots__ = ('heap', 'facts', 'rels')

    def __init__(self, heap, facts, rels):
        self.heap, self.facts, self.rels = heap, facts, rels

    def fork(self, cond):
        f = self.facts.assume(cond)
        if f is None:
            return None
        return State(dict(self.heap), f, self.rels + [cond])

    def copy(self):
        return State(dict(self.heap), self.facts, list(self.rels))

    def assume(self, cond):
        """False if impossible."""
        f = self.facts.assume(cond)
        if f is None:
            return False
        self.facts = f
        self.rels[-1] = t_and(self.rels[-1], cond)
        return True

    def rel_since(self, level):
        r = TRUE
        for x in self.rels[level:]:
            r = t_and(r, x)
        return r


class Collector:
    """Collects paths that leave a construct (returns, raises, breaks, continues)."""

    def __init__(self, level):
        self.level = level
        self.out = []


class FnCtx:
    def __init__(self, func, frame, fused, directives):
        self.func, self.frame, self.fused, self.directives = func, frame, fused, directives
        self.returns = None
        self.ctypes = {}
        self.yields = None
        self.nonlocals = {}
        self.globals = set()
        self.is_c = False
        self.loop_depth = 0
        self.local_names = set()
        self.breaks, self.continues = [], []


class LoopCtx:
    def __init__(self, wrapped, parallel):
        self.wrapped = set(wrapped)
        self.reads = set()
        self.bases = {}
        self.var = self.lo = None
        self.parallel = parallel
        self.used = set()
        self.depth = 0
        self.read_log = []


class CarryRef:
    """A variable at the start of an iteration of a loop; reading it is noted."""

    def __init__(self, value, ctx, name):
        self.value, self.ctx, self.name = value, ctx, name


UNBOUND = object()
MAX_UNROLL = 600
SMALL_UNROLL = 4
PY_UNROLL = 64


class Interp:
    def __init__(self, root='/repo'):
        self.lazy_depth = 0
        # tasks of a dask graph: what they change of the objects that were there before
        self.task = None
        self.task_writes = {}
        self.task_spans = []          # (first object, last object, number) of the tasks run so far
        self.tasks_run = 0
        self.evaluations = []
        self.root = root
        self.st = State({}, EMPTY, [TRUE])
        self.next_oid = 1
        self.modules = {}
        self.events = []
        self.obligations = {}
        self.handlers = [Collector(0)]
        self.fns = [FnCtx(None, None, {}, {})]
        self.loops = []
        self.where = None
        self.call_depth = 0
        self.consulted = set()
        self.functions_seen = set()
        self.calls = []               # notable library calls (spline constructions, ...)
        self.computes = []
        from . import libs
        self.libs = libs
        self.libs.setup(self)

    # ------------------------------------------------------------------ heap
    def new_oid(self):
        self.next_oid += 1
        return self.next_oid

    def new_ref(self, kind, content, cls=None):
        r = Ref(self.new_oid(), kind, cls)
        self.st.heap[r.oid] = content
        return r

    def get(self, ref):
        return self.st.heap[ref.oid]

    def put(self, ref, v):
        if self.task is not None and ref.oid < self.task[0]:
            self.task_put(ref, v)
        self.st.heap[ref.oid] = v

    def task_put(self, ref, v):
        """A task changes an object that other tasks may see."""
        old = self.st.heap.get(ref.oid)
        if isinstance(old, dict) and isinstance(v, dict):
            for k, x in v.items():
                if k not in old or (old[k] is not x and old[k] != x):
                    self.task_write((ref.oid, k), 'the %s %r of %r' % (
                        {'inst': 'attribute', 'dict': 'item'}.get(ref.kind, 'variable'), k, ref), x)
        elif old is not v:
            self.task_write((ref.oid, None), 'the %s' % ref.kind, v)

    def task_write(self, key, what, v):
        r = self.task_writes.setdefault(key, {})
        for lo, hi, n in self.task_spans:
            if lo <= key[0] <= hi and n != self.task[1]:
                r.setdefault(n, ((what, self.loc()), None))     # made by another task, which still uses it
        if any(x is v or (isinstance(v, Num) and isinstance(x, Num) and x.t is v.t) for _, x in r.values()):
            return
        r.setdefault(self.task[1], ((what, self.loc()), v))

    def shared_writes(self):
        """Objects that several tasks change, each in its own way."""
        return [next(iter(r.values()))[0] for r in self.task_writes.values() if len(r) > 1]

    def run_task(self, f):
        outer = self.task
        self.tasks_run += 1
        if outer is None:
            self.task = (self.new_oid(), self.tasks_run)
        try:
            return f()
        finally:
            if outer is None:
                self.task_spans.append((self.task[0], self.new_oid(), self.task[1]))
            self.task = outer

    def new_list(self, items):
        return self.new_ref('list', tuple(items))

    def new_dict(self, items):
        return self.new_ref('dict', dict(items))

    # ------------------------------------------------------------------ diagnostics
    def loc(self):
        return self.where or ('?', 0)

    def fail(self, msg):
        w = self.loc()
        raise AnalysisError('%s:%s: %s' % (w[0], w[1], msg))

    def event(self, kind, msg, cond=TRUE, **kw):
        w = self.loc()
        fn = self.fns[-1].func.name if self.fns and self.fns[-1].func else '<module>'
        e = dict(kind=kind, msg=msg, where=w, function=fn, cond=cond, facts=self.st.facts, rel=self.st.rel_since(0))
        e.update(kw)
        self.events.append(e)

    def require(self, kind, cond, msg, **kw):
        """An obligation: an event if it cannot be shown."""
        w = self.loc()
        fn = self.fns[-1].func.name if self.fns and self.fns[-1].func else '<module>'
        key = (kind, w[0], w[1], fn)
        self.obligations[key] = self.obligations.get(key, 0) + 1
        if cond is TRUE:
            return True
        c = self.st.facts.simplify(cond)
        if c is TRUE:
            return True
        if -1 in c.syms:
            c = self.force(c)
            if c is TRUE:
                return True
        self.event(kind, msg, t_not(c), **kw)
        return False

    # ------------------------------------------------------------------ conditions
    def simp(self, t):
        return self.st.facts.simplify(t)

    @staticmethod
    def base_simplify(t):
        return t

    def force(self, t):
        if -1 in t.syms:
            t = A.expand(t, self.st.facts)
        return self.st.facts.simplify(t)

    def decide(self, t):
        """True/False if the boolean tree is decided here."""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        t = self.st.facts.simplify(t)
        if -1 in t.syms and not (t.cond is not None and self.data_dependent(t)):
            t2 = self.force(t)
            t = t2
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return None

    def data_dependent(self, t):
        """Does t depend on floating point values that are computed in a loop?  (then it is not decided)"""
        if not (self.loops and self.fns[-1].is_c):
            return False
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x.cond is None or x in seen:
                continue
            seen.add(x)
            p = x.cond.args[0] if x.cond.args else None
            if x.cond.kind not in ('ge', 'gt', 'eq') or not isinstance(p, Poly) or poly_is_int(p):
                return False
            todo += [x.hi, x.lo]
        return True

    def poly(self, n, what='value'):
        """The Poly of an integer value, splitting the scenario if it has cases."""
        t = n.t if isinstance(n, Num) else n
        if t.cond is None and -1 not in t.syms:
            return self.st.facts.norm(t.leaf) if self.st.facts.eqs else t.leaf
        t = self.force(t)
        if t.cond is None:
            return t.leaf
        c = t.cond
        from .terms import node
        raise NeedSplit(node(c, TRUE, FALSE), what)

    def concrete(self, n):
        """Python int/Fraction of a number, or None."""
        if not isinstance(n, Num):
            return None
        v = n.const
        if v is not None:
            return v
        t = self.force(n.t)
        if t.cond is None and t.leaf.is_const:
            return t.leaf.value
        return None

    # ------------------------------------------------------------------ branching
    def split(self, cond, fa, fb):
        """Run fa where cond holds and fb elsewhere; merge states and values."""
        d = self.decide(cond)
        if d is True:
            return fa()
        if d is False:
            return fb()
        cond = self.simp(cond)
        s0 = self.st
        sa = s0.fork(cond)
        sb = s0.fork(t_not(cond))
        if sa is None and sb is None:
            raise Dead()
        va = vb = None
        alive_a = alive_b = False
        if sa is not None:
            self.st = sa
            try:
                va = fa()
                alive_a = True
            except Dead:
                pass
            sa = self.st
        if sb is not None:
            self.st = sb
            try:
                vb = fb()
                alive_b = True
            except Dead:
                pass
            sb = self.st
        if not alive_a and not alive_b:
            self.st = s0
            raise Dead()
        if alive_a and alive_b:
            self.st = self.merge_states(s0, sa, sb, cond)
            return self.merge_values(cond, va, vb)
        s = sa if alive_a else sb
        self.st = self.adopt(s0, s)
        return va if alive_a else vb

    @staticmethod
    def adopt(s0, s):
        n = len(s0.rels)
        return State(s.heap, s.facts, s0.rels[:-1] + [t_and(s0.rels[-1], s.rel_since(n))])

    def merge_states(self, s0, sa, sb, cond):
        n = len(s0.rels)
        ra, rb = sa.rel_since(n), sb.rel_since(n)
        both = t_or(ra, rb)
        facts = s0.facts.assume(both) if both is not TRUE else s0.facts
        if facts is None:
            facts = s0.facts
        out = dict(sa.heap)
        merged = State(out, facts, s0.rels[:-1] + [t_and(s0.rels[-1], both)])
        self.st = merged
        outer, self.branch_heaps = self.branch_heaps, (sa.heap, sb.heap)
        try:
            self.merge_heaps(cond, sa.heap, sb.heap, out)
        finally:
            self.branch_heaps = outer
        return merged

    branch_heaps = None

    def merge_heaps(self, cond, ha, hb, out):
        for k, vb in hb.items():
            va = ha.get(k, UNBOUND)
            if va is vb:
                continue
            if va is UNBOUND:
                out[k] = vb
                continue
            if isinstance(va, A.Content):
                va, vb = self.rebased(k, va), self.rebased(k, vb)
            out[k] = self.merge_records(cond, va, vb)

    def rebased(self, oid, c):
        """The content of a buffer that was not written in this branch, but in another one of the iteration."""
        for L in self.loops:
            if L is not None:
                b = L.bases.get(oid)
                if b is not None and b.prev is c:
                    c = b
        return c

    def merge_records(self, cond, a, b):
        if isinstance(a, A.Content):
            return A.merge_contents(cond, a, b)
        if isinstance(a, dict):
            out = {}
            for k in a:
                if k in b:
                    out[k] = self.merge_values(cond, a[k], b[k])
                else:
                    out[k] = a[k] if not isinstance(a[k], Poison) else a[k]
                    out[k] = self.maybe(cond, a[k], True)
            for k in b:
                if k not in a:
                    out[k] = self.maybe(cond, b[k], False)
            return out
        if isinstance(a, tuple):
            if len(a) == len(b):
                return tuple(self.merge_values(cond, x, y) for x, y in zip(a, b))
            return ('choice-list', cond, a, b)
        if a == b:
            return a
        return Poison('objects differ between branches')

    def maybe(self, cond, v, when):
        """A variable bound in one branch only."""
        return Choice(cond, v, UNBOUND) if when else Choice(cond, UNBOUND, v)

    def merge_values(self, cond, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.ty == b.ty:
                return Num(t_ite(cond, a.t, b.t), a.ty, a.c and b.c)
            if a.ty in WEAK and b.ty in WEAK and a.ty != 'bool' and b.ty != 'bool':
                return Num(t_ite(cond, a.t, b.t), 'float' if 'float' in (a.ty, b.ty) else 'int')
            if a.c and b.c:
                return Num(t_ite(cond, a.t, b.t), c_promote(a.ty, b.ty), True)
            return Choice(cond, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_values(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, CarryRef) and isinstance(b, CarryRef) and a.value is b.value:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            r = self.merge_arrays(cond, a, b)
            if r is not None:
                return r
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and self._same(a.self_, b.self_):
            return a
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(self.merge_values(cond, a.start, b.start), self.merge_values(cond, a.stop, b.stop),
                          self.merge_values(cond, a.step, b.step))
        if isinstance(a, XArr) and isinstance(b, XArr) and a.dims == b.dims and a.coords == b.coords:
            d = self.merge_values(cond, a.data, b.data)
            if not isinstance(d, Choice):
                return XArr(d, a.dims, a.coords)
        if type(a) is type(b) and isinstance(a, (Lib, Builtin, FuncV, ClassV)) and a is b:
            return a
        return Choice(cond, a, b)

    def _same(self, a, b):
        return a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid)

    def merge_arrays(self, cond, a, b):
        if a.buf is b.buf and a.kind == b.kind and len(a.shape) == len(b.shape):
            if all(x is y for x, y in zip(a.shape, b.shape)) and a.map == b.map:
                return a
        if a.dtype == b.dtype and a.kind == b.kind and len(a.shape) == len(b.shape) and \
                all(x is y for x, y in zip(a.shape, b.shape)):
            # only as values: nothing may be written through the result
            fa = self.snapshot(a, self.branch_heaps and self.branch_heaps[0])
            fb = self.snapshot(b, self.branch_heaps and self.branch_heaps[1])
            if a.kind == 'np':
                arr = self.lam_array(a.shape, a.dtype,
                                     lambda idx: t_ite(cond, fa(idx), fb(idx)), A.free_of(cond, fa.free, fb.free))
                arr.copied = 'merged'
                return arr
        return None

    def choose(self, v, fn):
        """Apply fn to a value that may be a Choice."""
        if isinstance(v, Choice):
            return self.split(v.cond, lambda: self.choose(v.a, fn), lambda: self.choose(v.b, fn))
        if v is UNBOUND:
            self.raise_(ExcV(EXC['UnboundLocalError'], ('variable used before assignment',)))
        if isinstance(v, Poison):
            self.fail(v.why)
        return fn(v)

    def settle(self, v):
        """A Choice that is decided here becomes its value."""
        while isinstance(v, Choice):
            d = self.decide(v.cond)
            if d is None:
                return v
            v = v.a if d else v.b
        if isinstance(v, CarryRef):
            v.ctx.used.add(v.name)
            return v.value
        return v

    # ------------------------------------------------------------------ raising
    def raise_(self, exc):
        exc.where = exc.where or self.loc()
        h = self.handlers[-1]
        h.out.append((self.st.rel_since(h.level), exc, self.st))
        raise Dead()

    def raise_if(self, cond, exc):
        d = self.decide(cond)
        if d is False:
            return
        if d is True:
            self.raise_(exc)
        cond = self.simp(cond)
        s = self.st.fork(cond)
        if s is not None:
            exc.where = exc.where or self.loc()
            h = self.handlers[-1]
            h.out.append((s.rel_since(h.level), exc, s))
        if not self.st.assume(t_not(cond)):
            raise Dead()

    def error(self, name, *args):
        self.raise_(ExcV(EXC[name], args))

    def error_if(self, cond, name, *args):
        self.raise_if(cond, ExcV(EXC[name], args))

    # ------------------------------------------------------------------ collectors
    def run_collected(self, collector_slot, body):
        pass

    def merge_outcomes(self, base, level, outcomes):
        """outcomes: list of (rel, value, state); merge into one state and value (base: state at level)."""
        if not outcomes:
            raise Dead()
        rel, val, s = outcomes[-1]
        if len(outcomes) == 1:
            self.st = State(s.heap, s.facts, base.rels[:level] + [rel])
            return val
        acc_heap, acc_val, acc_rel = s.heap, val, rel
        for r, v, s2 in reversed(outcomes[:-1]):
            c = base.facts.simplify(r)
            # where both are possible only: the condition that tells them apart
            out = dict(s2.heap)
            self.st = State(out, base.facts, base.rels[:level] + [r])
            outer, self.branch_heaps = self.branch_heaps, (s2.heap, acc_heap)
            try:
                self.merge_heaps(c, s2.heap, acc_heap, out)
                acc_val = self.merge_values(c, v, acc_val)
            finally:
                self.branch_heaps = outer
            acc_heap = out
            acc_rel = t_or(r, acc_rel)
        f = base.facts.assume(acc_rel)
        if f is None:
            f = base.facts
        self.st = State(acc_heap, f, base.rels[:level] + [acc_rel])
        return acc_val

    # ------------------------------------------------------------------ modules
    def module(self, name, path=None):
        m = self.modules.get(name)
        if m is not None:
            return m
        base = os.path.join(self.root, *name.split('.'))
        for p in (path,) if path else (base + '.pyx', base + '.py', os.path.join(base, '__init__.py')):
            if os.path.exists(p):
                break
        else:
            return None
        if name.endswith('.version'):
            m = Lib('geotiepoints.version')
            self.modules[name] = m
            return m
        src = load_source(p, name)
        self.consulted.add(os.path.relpath(p, self.root))
        frame = self.new_ref('frame', {})
        m = ModV(name, frame, src)
        self.modules[name] = m
        pkg = name if p.endswith('__init__.py') else name.rpartition('.')[0]
        m.package = pkg
        self.put(frame, {'__name__': name, '__doc__': None, '__file__': p})
        func = FuncV(None, m, None, (), {}, '<module %s>' % name)
        ctx = FnCtx(func, frame, {}, getattr(src, 'directives', {}))
        ctx.is_c = src.is_cython
        ctx.module_level = True
        saved_fns, saved_where, saved_loops = self.fns, self.where, self.loops
        self.fns = [ctx]
        self.loops = []
        try:
            self.block(src.tree.body)
        finally:
            self.fns, self.where, self.loops = saved_fns, saved_where, saved_loops
        # a submodule becomes an attribute of its package
        par = name.rpartition('.')[0]
        if par and par in self.modules and isinstance(self.modules[par], ModV):
            d = dict(self.get(self.modules[par].frame))
            d.setdefault(name.rpartition('.')[2], m)
            self.put(self.modules[par].frame, d)
        return m

    def import_module(self, name):
        if name.split('.')[0] == 'geotiepoints':
            if '.' in name and 'geotiepoints' not in self.modules:
                self.module('geotiepoints')
            m = self.module(name)
            if m is None:
                self.error('ModuleNotFoundError', name)
            return m
        return Lib(name)

    def global_get(self, module, name):
        return self.get(module.frame).get(name, UNBOUND)

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        fn = self.fns[-1]
        self.where = (fn.func.module.name if fn.func and fn.func.module else '?', getattr(s, 'lineno', 0))
        m = STMT.get(type(s))
        if m is None:
            self.fail('unsupported statement %s' % type(s).__name__)
        m(self, s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Yield):
            self.do_yield(s.value)
            return
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id)
            new = self.augop(type(s.op), old, self.eval(s.value))
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            old = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.augop(type(s.op), old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval_index(t.slice)
            obj = self.buffered(t.value, obj, idx)
            old = self.getitem(obj, idx)
            new = self.augop(type(s.op), old, self.eval(s.value))
            if isinstance(old, Arr) and new is old:
                return
            self.setitem(obj, idx, new)
        else:
            self.fail('augmented assignment')

    def augop(self, op, old, v):
        old = self.settle(old)
        if isinstance(old, Choice):
            return self.choose(old, lambda o: self.augop(op, o, v))
        if isinstance(old, Arr) and old.kind == 'np':
            # in place
            res = self.binop(op, old, v)
            rd = res.dtype if isinstance(res, Arr) else res.ty
            if not _can_cast(rd, old.dtype):
                self.error('UFuncTypeError', 'cannot cast in place')
            self.nparr.assign_array(old, res)
            return old
        if isinstance(old, Ref) and old.kind == 'list' and op is ast.Add:
            items = self.iterate(v)
            self.put(old, self.list_items(old) + tuple(items))
            return old
        if isinstance(old, Ref) and old.kind == 'dict' and op is ast.BitOr:
            d = dict(self.get(old))
            d.update(self.get(v))
            self.put(old, d)
            return old
        return self.binop(op, old, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.fns[-1].frame
                d = dict(self.get(fr))
                d.pop(t.id, None)
                self.put(fr, d)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                idx = self.eval(t.slice)
                if isinstance(obj, Ref) and obj.kind == 'dict':
                    d = dict(self.get(obj))
                    k = self.key(idx)
                    if k not in d:
                        self.error('KeyError')
                    del d[k]
                    self.put(obj, d)
                elif isinstance(obj, Ref) and obj.kind == 'list':
                    items = list(self.list_items(obj))
                    if isinstance(idx, SliceV):
                        del items[self.pyslice(idx, len(items))]
                    else:
                        del items[self.int_of(idx)]
                    self.put(obj, tuple(items))
                else:
                    self.fail('del')
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value)
                d = dict(self.get(obj))
                d.pop(t.attr, None)
                self.put(obj, d)
            else:
                self.fail('del')

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        fn = self.fns[-1]
        v = self.convert_return(fn, v)
        col = fn.returns
        if self.loops and len(self.loops) > fn.loop_depth and self.loops[-1] is not None:
            raise NeedUnroll('return inside a loop')
        col.out.append((self.st.rel_since(col.level), v, self.st))
        raise Dead()

    def convert_return(self, fn, v):
        node = fn.func.node
        cy = getattr(node, 'cy', None)
        if cy and cy['ret'] is not None:
            t = cy['ret']
            if t == 'void':
                return None
            return self.coerce(v, self.resolve_type(t, fn))
        return v

    def s_If(self, s):
        c = self.cond(s.test)
        self.split(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.raise_if(t_not(c), ExcV(EXC['AssertionError'], ()))

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'current_exc', None)
            if cur is None:
                self.error('RuntimeError', 'No active exception to reraise')
            self.raise_(cur)
        v = self.eval(s.exc)
        self.choose(v, lambda v: self.raise_(self.make_exc(v)))

    def make_exc(self, v):
        if isinstance(v, ExcV):
            return v
        if isinstance(v, ExcClass):
            return ExcV(v)
        if isinstance(v, ClassV):
            return ExcV(v)
        if isinstance(v, Ref) and v.kind == 'inst':
            return ExcV(v.cls)
        self.fail('raise of %r' % (v,))

    def s_Global(self, s):
        self.fns[-1].globals.update(s.names)

    def s_Nonlocal(self, s):
        fn = self.fns[-1]
        for n in s.names:
            fr = fn.func.frame
            while fr is not None:
                if n in self.get(fr):
                    fn.nonlocals[n] = fr
                    break
                fr = self.parent_frame(fr)

    def parent_frame(self, fr):
        return self.get(fr).get('__parent__')

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.bind(a.asname, self.import_module(a.name))
            else:
                m = self.import_module(a.name)
                top = a.name.split('.')[0]
                self.bind(top, m if top == a.name else self.import_module(top))

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            pkg = self.fns[-1].func.module.package.split('.')
            pkg = pkg[:len(pkg) - (s.level - 1)]
            mod = '.'.join(pkg + ([mod] if mod else []))
        if mod == '__future__':
            return
        m = self.import_module(mod)
        for a in s.names:
            if a.name == '*':
                if not isinstance(m, ModV):
                    self.fail('star import')
                for k, v in self.get(m.frame).items():
                    if not k.startswith('_'):
                        self.bind(k, v)
                continue
            if isinstance(m, Lib):
                v = self.libs.lib_attr(self, m, a.name)
            else:
                v = self.get(m.frame).get(a.name, UNBOUND)
                if v is UNBOUND:
                    if getattr(s, 'cimport', False) and a.name in (getattr(m.src, 'fused', {}) or {}):
                        self.module_fused(self.fns[-1].func.module)[a.asname or a.name] = m.src.fused[a.name]
                        continue
                    sub = None
                    if mod.split('.')[0] == 'geotiepoints':
                        sub = self.module(mod + '.' + a.name)
                    if sub is None:
                        self.error('ImportError', 'cannot import %s from %s' % (a.name, mod))
                    v = sub
            self.bind(a.asname or a.name, v)

    def module_fused(self, m):
        f = getattr(m, 'extra_fused', None)
        if f is None:
            f = m.extra_fused = {}
        return f

    def fused_types(self, module):
        d = dict(getattr(module.src, 'fused', {}) or {})
        d.update(self.module_fused(module))
        return d

    def s_FunctionDef(self, s):
        f = self.make_function(s)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d)
            v = self.call(dec, [v], {})
        self.bind(s.name, v)

    def make_function(self, s, name=None):
        fn = self.fns[-1]
        defaults = [self.eval(d) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        frame = None if getattr(fn, 'module_level', False) else fn.frame
        f = FuncV(s, fn.func.module, frame, tuple(defaults), kwd, name or getattr(s, 'name', '<lambda>'))
        f.cls = getattr(fn, 'in_class', None)
        return f

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fn = self.fns[-1]
        ns_ref = self.new_ref('frame', {'__parent__': None if getattr(fn, 'module_level', False) else fn.frame})
        ctx = FnCtx(fn.func, ns_ref, fn.fused, fn.directives)
        ctx.class_frame = True
        holder = []
        ctx.in_class = holder
        # names in the class body are looked up in the class frame, then where the class is
        ctx.func = FuncV(None, fn.func.module, None if getattr(fn, 'module_level', False) else fn.frame, (), {}, s.name)
        ctx.loop_depth = getattr(fn, 'loop_depth', 0)
        ctx.returns = None
        ctx.is_c = fn.is_c
        ctypes = {}
        self.fns.append(ctx)
        try:
            for st in s.body:
                if isinstance(st, front.CDecl):
                    ctypes[st.name] = st.ctype
                    continue
                # methods do not see the class frame
                if isinstance(st, ast.FunctionDef):
                    self.where = (ctx.func.module.name, st.lineno)
                    f = FuncV(st, ctx.func.module, ctx.func.frame, tuple(self.eval(d) for d in st.args.defaults),
                              {a.arg: self.eval(d) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None},
                              st.name)
                    f.cls = holder
                    v = f
                    for d in reversed(st.decorator_list):
                        if isinstance(d, ast.Attribute) and d.attr == 'setter':
                            v = None
                            break
                        v = self.call(self.eval(d), [v], {})
                    if v is not None:
                        self.bind(st.name, v)
                    continue
                self.stmt(st)
        finally:
            self.fns.pop()
        ns = {k: v for k, v in self.get(ns_ref).items() if k != '__parent__'}
        c = ClassV(s.name, bases, ns, fn.func.module, ctypes, bool(getattr(s, 'cy', None)))
        holder.append(c)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.bind(s.name, v)

    def s_CDecl(self, s):
        fn = self.fns[-1]
        t = self.resolve_type(s.ctype, fn)
        fn.ctypes[s.name] = t
        if s.value is not None:
            self.bind(s.name, self.eval(s.value))
        elif isinstance(t, tuple) and t[0] == 'carr':
            n = self.poly(self.eval(t[2]))
            dt = t[1]
            arr = self.new_array((n,), dt, A.Uninit('C array ' + s.name, is_int_ty(dt)))
            arr.kind = 'mv'
            self.bind(s.name, arr, raw=True)

    def s_Try(self, s):
        if s.finalbody:
            return self.try_finally(s)
        self.try_except(s)

    def try_finally(self, s):
        inner = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[])
        self.protected(lambda: self.try_except(inner) if s.handlers else self.block(s.body),
                       lambda exc: self.block(s.finalbody))

    def protected(self, body, final):
        """body(), then final(exception or None) however the body is left."""
        fn = self.fns[-1]
        base = self.st
        level = len(base.rels)
        # collect everything that leaves
        saved_ret = fn.returns
        ret = Collector(saved_ret.level) if saved_ret is not None else None
        fn.returns = ret
        h = Collector(self.handlers[-1].level)
        self.handlers.append(h)
        alive = True
        try:
            body()
        except Dead:
            alive = False
        finally:
            self.handlers.pop()
            fn.returns = saved_ret
        end = self.st
        for rel, exc, st in h.out:
            self.st = st.copy()
            try:
                final(exc)
                self.handlers[-1].out.append((self.st.rel_since(self.handlers[-1].level), exc, self.st))
            except Dead:
                pass
        if ret is not None:
            for rel, v, st in ret.out:
                self.st = st.copy()
                try:
                    final(None)
                    saved_ret.out.append((self.st.rel_since(saved_ret.level), v, self.st))
                except Dead:
                    pass
        self.st = end
        if not alive:
            raise Dead()
        final(None)

    def try_except(self, s):
        base = self.st
        level = len(base.rels)
        self.st = State(dict(base.heap), base.facts, base.rels + [TRUE])
        h = Collector(level)
        self.handlers.append(h)
        outs = []
        try:
            self.block(s.body)
            alive = True
        except Dead:
            alive = False
        finally:
            self.handlers.pop()
        if alive and s.orelse:
            try:
                self.block(s.orelse)
            except Dead:
                alive = False
        if alive:
            outs.append((self.st.rel_since(level), None, self.st))
        for rel, exc, st in h.out:
            self.st = st
            handled = False
            for hd in s.handlers:
                if hd.type is None or self.exc_matches(exc, self.eval(hd.type)):
                    handled = True
                    old = getattr(self, 'current_exc', None)
                    self.current_exc = exc
                    try:
                        if hd.name:
                            self.bind(hd.name, exc)
                        self.block(hd.body)
                        outs.append((self.st.rel_since(level), None, self.st))
                    except Dead:
                        pass
                    finally:
                        self.current_exc = old
                    break
            if not handled:
                hh = self.handlers[-1]
                hh.out.append((st.rel_since(hh.level), exc, st))
        if not outs:
            self.st = base
            raise Dead()
        self.merge_outcomes(base, level, outs)
        r = self.st.rels
        self.st.rels = r[:level - 1] + [t_and(r[level - 1], r[level])]

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, x) for x in spec)
        if isinstance(spec, (ExcClass, ClassV)):
            return exc.is_a(spec)
        self.fail('except %r' % (spec,))

    def s_With(self, s):
        self.with_items(s, 0)

    def with_items(self, s, k):
        if k == len(s.items):
            self.block(s.body)
            return
        item = s.items[k]
        o = v = self.eval(item.context_expr)
        user = isinstance(o, Ref) and o.kind == 'inst'
        if user:
            v = self.call(self.getattr(o, '__enter__'), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v)

        def leave(exc):
            if user:
                r = self.call(self.getattr(o, '__exit__'), [None if exc is None else exc] * 3, {})
                if exc is not None and self.decide(self.truth(r)) is not False:
                    self.fail('exceptions swallowed by a context manager')
            elif o.kind in ('pool', 'executor'):
                self.libs.opaque_method(self, o, '__exit__', [], {})
        if user or (isinstance(o, Opaque) and o.kind in ('pool', 'executor')):
            self.protected(lambda: self.with_items(s, k + 1), leave)
        else:
            self.with_items(s, k + 1)

    def s_Break(self, s):
        col = self.fns[-1].breaks[-1]
        if col is None:
            raise NeedUnroll('break')
        col.out.append((self.st.rel_since(col.level), None, self.st))
        raise Dead()

    def s_Continue(self, s):
        col = self.fns[-1].continues[-1]
        col.out.append((self.st.rel_since(col.level), None, self.st))
        raise Dead()

    def do_yield(self, e):
        fn = self.fns[-1]
        v = self.eval(e.value) if e.value is not None else None
        if self.loops and len(self.loops) > fn.loop_depth:
            raise NeedUnroll('yield in a loop')
        self.put(fn.yields, self.get(fn.yields) + (v,))
        return None

    # ------------------------------------------------------------------ binding
    def bind(self, name, v, raw=False):
        fn = self.fns[-1]
        if not raw and name in fn.ctypes:
            v = self.coerce(v, fn.ctypes[name])
        fr = fn.frame
        if name in fn.globals:
            fr = fn.func.module.frame
            if self.loops or not getattr(fn, 'module_level', False):
                self.event('global-write', 'assigns the module variable %s' % name, name=name)
        elif name in fn.nonlocals:
            fr = fn.nonlocals[name]
        d = dict(self.get(fr))
        d[name] = v
        self.put(fr, d)

    def name(self, id):
        fn = self.fns[-1]
        if id not in fn.globals:
            v = self.get(fn.frame).get(id, UNBOUND)
            if v is not UNBOUND:
                return self.loaded(v, id, fn)
            if id in fn.fused:
                return CTypeV(fn.fused[id])
            if id in fn.ctypes and not (isinstance(fn.ctypes[id], tuple) and fn.ctypes[id][0] == 'obj'):
                # a C variable that was never assigned
                t = fn.ctypes[id]
                if isinstance(t, str):
                    self.event('uninit-variable', 'the C variable %s is read before it is assigned' % id)
                    return Num(atom_poly(mk_atom('uninit', ('var ' + id, fn.frame.oid, ()), is_int_ty(t))), t, True)
                self.error('UnboundLocalError', id)
            if id in fn.local_names:
                self.error('UnboundLocalError', id)
            fr = fn.func.frame
            while fr is not None:
                v = self.get(fr).get(id, UNBOUND)
                if v is not UNBOUND:
                    return self.loaded(v, id, fn)
                fr = self.parent_frame(fr)
        if fn.func.module is not None:
            v = self.get(fn.func.module.frame).get(id, UNBOUND)
            if v is not UNBOUND:
                return self.settle(v)
            ft = self.fused_types(fn.func.module)
            if id in ft:
                return CTypeV(('fused', id))
        v = self.libs.builtin(self, id)
        if v is None and id != 'None':
            if fn.is_c and id in front.BASIC:
                return CTypeV(front.BASIC[id])
            self.error('NameError', id)
        return v

    def loaded(self, v, id, fn):
        if isinstance(v, CarryRef):
            v.ctx.used.add(v.name)
            v = v.value
            if v is None:
                raise NeedUnroll('the variable %s is carried between iterations' % id)
        v = self.settle(v)
        if v is UNBOUND:
            self.error('UnboundLocalError', id)
        if isinstance(v, Choice):
            v = self.drop_unbound(v, id)
        if isinstance(v, Poison):
            if v.why.startswith('loop:'):
                raise NeedUnroll(v.why)
            self.fail(v.why)
        if isinstance(v, Num) and not v.c and id in fn.ctypes and isinstance(fn.ctypes[id], str):
            v = Num(v.t, v.ty, True)
        return v

    def drop_unbound(self, v, id):
        if isinstance(v, Choice):
            if v.a is UNBOUND:
                self.error_if(v.cond, 'UnboundLocalError', id)
                return self.drop_unbound(v.b, id)
            if v.b is UNBOUND:
                self.error_if(t_not(v.cond), 'UnboundLocalError', id)
                return self.drop_unbound(v.a, id)
        return v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.settle(v)
            if isinstance(v, Choice):
                items = self.choose(v, lambda x: tuple(self.unpack(x, t)))
            else:
                items = self.unpack(v, t)
            stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                k = stars[0]
                n = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.error('ValueError', 'not enough values to unpack')
                items = list(items)
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, self.new_list(items[k:len(items) - n]))
                for e, x in zip(t.elts[k + 1:], items[len(items) - n:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                self.error('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval_index(t.slice)
            self.setitem(self.buffered(t.value, obj, idx), idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.new_list(self.iterate(v)))
        else:
            self.fail('assignment to %s' % type(t).__name__)

    def unpack(self, v, t):
        return list(self.iterate(v))

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = EXPR.get(type(e))
        if m is None:
            self.fail('unsupported expression %s' % type(e).__name__)
        return m(self, e)

    def cond(self, e):
        """A boolean tree."""
        return self.truth(self.eval(e))

    def truth(self, v):
        v = self.settle(v)
        if isinstance(v, Choice):
            a, b = v.a, v.b
            r = self.choose(v, lambda x: Num(self.truth(x), 'bool'))
            return r.t
        if isinstance(v, Num):
            if is_bool_ty(v.ty):
                return v.t
            return truth(v.t)
        if v is None:
            return FALSE
        if isinstance(v, (str, tuple, bytes)):
            return TRUE if v else FALSE
        if isinstance(v, Ref):
            if v.kind in ('list', 'dict', 'set'):
                rec = self.get(v)
                if isinstance(rec, tuple) and rec and rec[0] == 'choice-list':
                    return t_ite(rec[1], TRUE if rec[2] else FALSE, TRUE if rec[3] else FALSE)
                return TRUE if len(rec) else FALSE
            if v.kind == 'inst':
                f, _ = v.cls.find('__bool__')
                if f is not None:
                    return self.truth(self.call(BoundV(f, v), [], {}))
                f, _ = v.cls.find('__len__')
                if f is not None:
                    return self.truth(self.call(BoundV(f, v), [], {}))
            return TRUE
        if isinstance(v, RangeV):
            return self.truth(self.libs.length(self, v))
        if isinstance(v, XArr):
            if isinstance(v.data, DaskArr):
                self.compute_event(v.data, 'truth value')
                return self.truth(self.nparr.to_scalar(v.data.value))
            return self.truth(v.data)
        if isinstance(v, DaskArr):
            self.compute_event(v, 'truth value')
            return self.truth(self.nparr.to_scalar(v.value))
        if isinstance(v, Arr):
            n = self.nparr.size(v)
            if n.is_const and n.value == 1:
                return self.truth(self.nparr.to_scalar(v))
            self.error('ValueError', 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, Opaque) and v.kind == 'bool':
            return v.tree
        if isinstance(v, (FuncV, ClassV, ModV, Lib, Builtin, BoundV, ExcV, ExcClass, Opaque, Partial, LibMethod)):
            return TRUE
        self.fail('truth value of %r' % (v,))

    def compute_event(self, d, why):
        self.computes.append((self.loc(), why, self.st.rel_since(0), getattr(d, 'shape', None)))

    def e_Constant(self, e):
        v = e.value
        if v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, complex):
            self.fail('complex number')
        return num(v)

    def e_Name(self, e):
        return self.name(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es, raw=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value)))
            else:
                v = self.eval(x)
                out.append(v if raw else py_value(v))
        return out

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        return self.new_ref('set', {self.key(v): v for v in self.elts(e.elts)})

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                d.update(self.get(src))
            else:
                kk = self.eval(k)
                d[self.key(kk)] = (kk, self.eval(v))
        return self.new_dict(d)

    def key(self, v):
        v = self.settle(v)
        if isinstance(v, Num):
            c = self.concrete(v)
            if c is not None:
                return ('n', c)
            return ('t', self.force(v.t))
        if isinstance(v, (str, bytes)) or v is None:
            return ('s', v)
        if isinstance(v, tuple):
            return ('T',) + tuple(self.key(x) for x in v)
        if isinstance(v, Choice):
            raise NeedSplit(v.cond, 'dictionary key')
        return ('o', id(v) if not isinstance(v, Ref) else v.oid)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value)
        return '<formatted string>'

    def e_FormattedValue(self, e):
        self.eval(e.value)
        return '<formatted>'

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        obj = self.eval(e.value)
        idx = self.eval_index(e.slice)
        return self.getitem(self.buffered(e.value, obj, idx), idx)

    def buffered(self, node, obj, idx):
        """Elements of a typed ndarray variable are accessed like those of a memoryview."""
        fn = self.fns[-1]
        if fn.is_c and isinstance(node, ast.Name) and isinstance(obj, Arr) and obj.kind == 'np':
            t = fn.ctypes.get(node.id)
            if isinstance(t, tuple) and t[0] == 'nd':
                items = idx if isinstance(idx, tuple) else (idx,)
                if len(items) == obj.ndim and all(isinstance(self.settle(i), Num) for i in items):
                    return Arr(obj.buf, obj.shape, obj.map, 'mv', obj.copied)
        return obj

    def eval_index(self, s):
        return self.eval(s)

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.eval(x)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e):
        self.fail('starred expression')

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.settle(self.eval(e.values[k]))
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            d = self.decide(c)
            if d is not None:
                if d == isand:
                    return go(k + 1)
                return v
            if isand:
                return self.split(c, lambda: go(k + 1), lambda: self.as_false(v))
            return self.split(c, lambda: self.as_true(v), lambda: go(k + 1))
        return go(0)

    def as_false(self, v):
        return Num(FALSE, 'bool') if isinstance(v, Num) and is_bool_ty(v.ty) else v

    def as_true(self, v):
        return Num(TRUE, 'bool') if isinstance(v, Num) and is_bool_ty(v.ty) else v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return Num(t_not(self.truth(v)), 'bool')
        return self.unary(type(e.op), v)

    def unary(self, op, v):
        v = self.settle(v)
        if isinstance(v, Choice):
            return self.choose(v, lambda x: self.unary(op, x))
        if isinstance(v, Num):
            ty = 'int' if v.ty == 'bool' else v.ty
            if op is ast.USub:
                if v.c and is_unsigned(ty):
                    self.require('unsigned', self.le0(v.t), 'negation of an unsigned C integer')
                return Num(tneg(v.t), ty, v.c)
            if op is ast.UAdd:
                return Num(v.t, ty, v.c)
            if op is ast.Invert:
                if v.ty == 'b1':
                    return Num(t_not(v.t), 'b1')
                return Num(tsub(tneg(v.t), leaf(ONE)), ty, v.c)
        if isinstance(v, (Arr, DaskArr, XArr)):
            if op is ast.USub:
                return self.nparr.ufunc('negative', [v])
            if op is ast.Invert:
                return self.nparr.ufunc('invert', [v])
            return v
        if isinstance(v, Ref) and v.kind == 'inst':
            nm = {ast.USub: '__neg__', ast.Invert: '__invert__', ast.UAdd: '__pos__'}[op]
            return self.call(self.getattr(v, nm), [], {})
        self.error('TypeError', 'bad operand type for unary')

    @staticmethod
    def le0(t):
        return tmap(lambda p: cmp_ge(pneg(p)), t)

    def e_BinOp(self, e):
        return self.binop(type(e.op), self.eval(e.left), self.eval(e.right))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.split(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        terms = []

        def go(k, left):
            right = self.eval(e.comparators[k])
            r = self.compare(type(e.ops[k]), left, right, e)
            if k == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.split(c, lambda: go(k + 1, right), lambda: Num(FALSE, 'bool'))
        return go(0, left)

    def e_Lambda(self, e):
        return self.make_function(e)

    def e_Yield(self, e):
        return self.do_yield(e)

    def e_Await(self, e):
        self.fail('await')

    # comprehensions -----------------------------------------------------------
    def comp(self, gens, leaf_fn, frame_parent):
        out = []

        def go(k):
            if k == len(gens):
                out.append(leaf_fn())
                return
            g = gens[k]
            items = self.iterate(self.eval(g.iter))
            for it in items:
                self.assign(g.target, it)
                ok = True
                conds = TRUE
                for c in g.ifs:
                    cc = self.cond(c)
                    d = self.decide(cc)
                    if d is False:
                        ok = False
                        break
                    if d is None:
                        raise NeedSplit(self.simp(cc), 'filter of a comprehension')
                if ok:
                    go(k + 1)
        go(0)
        return out

    def in_comp_scope(self, e, fn):
        cur = self.fns[-1]
        # the variables of a comprehension are its own
        saved = dict(self.get(cur.frame))
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved_ct = {n: cur.ctypes.pop(n) for n in names if n in cur.ctypes}
        local_names = cur.local_names
        if names - local_names:
            cur.local_names = local_names
        try:
            r = fn()
        finally:
            d = dict(self.get(cur.frame))
            for n in names:
                if n in saved:
                    d[n] = saved[n]
                else:
                    d.pop(n, None)
            self.put(cur.frame, d)
            cur.ctypes.update(saved_ct)
        return r

    def e_ListComp(self, e):
        return self.in_comp_scope(e, lambda: self.new_list(self.comp(e.generators, lambda: self.eval(e.elt), None)))

    def e_GeneratorExp(self, e):
        return self.in_comp_scope(e, lambda: self.new_ref('gen', tuple(self.comp(e.generators, lambda: self.eval(e.elt), None))))

    def e_SetComp(self, e):
        vals = self.in_comp_scope(e, lambda: self.comp(e.generators, lambda: self.eval(e.elt), None))
        return self.new_ref('set', {self.key(v): v for v in vals})

    def e_DictComp(self, e):
        vals = self.in_comp_scope(e, lambda: self.comp(e.generators, lambda: (self.eval(e.key), self.eval(e.value)), None))
        return self.new_dict({self.key(k): (k, v) for k, v in vals})

    def e_CCast(self, e):
        fn = self.fns[-1]
        t = self.resolve_type(e.ctype, fn)
        v = self.eval(e.operand)
        return self.coerce(v, t, cast=True)

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.settle(a), self.settle(b)
        if isinstance(a, Choice):
            return self.choose(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Choice):
            return self.choose(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Num) and isinstance(b, Num):
            return self.num_binop(op, a, b)
        if isinstance(a, (Arr, DaskArr, XArr, Frame)) or isinstance(b, (Arr, DaskArr, XArr, Frame)):
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                self.error('TypeError', 'unsupported operand types')
            if isinstance(a, Arr) and a.kind == 'mv' or isinstance(b, Arr) and b.kind == 'mv':
                self.error('TypeError', 'arithmetic on a memoryview')
            return self.nparr.array_binop(op, py_value(a), py_value(b))
        if op is ast.Mod and isinstance(a, (str, bytes)):
            return '<formatted string>'
        if op is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'list':
                return self.new_list(self.list_items(a) + self.list_items(b))
        if op is ast.Mult:
            if isinstance(a, Num):
                a, b = b, a
            if isinstance(b, Num):
                n = self.concrete(b)
                if isinstance(a, str):
                    return a * int(n) if n is not None else self.fail('repetition')
                if isinstance(a, tuple):
                    if n is None:
                        self.fail('repetition of a tuple')
                    return a * int(n)
                if isinstance(a, Ref) and a.kind == 'list':
                    if n is None:
                        self.fail('repetition of a list')
                    return self.new_list(self.list_items(a) * int(n))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'set':
            x, y = self.get(a), self.get(b)
            if op is ast.Sub:
                r = {k: v for k, v in x.items() if k not in y}
            elif op is ast.BitAnd:
                r = {k: v for k, v in x.items() if k in y}
            elif op is ast.BitOr:
                r = dict(x)
                r.update(y)
            else:
                self.fail('set operation')
            return self.new_ref('set', r)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'dict' and op is ast.BitOr:
            d = dict(self.get(a))
            d.update(self.get(b))
            return self.new_dict(d)
        nm = DUNDER.get(op)
        for x, y, pre in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if isinstance(x, Ref) and x.kind == 'inst' and nm:
                f, _ = x.cls.find(pre % nm)
                if f is not None:
                    return self.call(BoundV(f, x), [y], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('arith', (op.__name__, a, b))
        self.error('TypeError', 'unsupported operand types')

    def num_binop(self, op, a, b):
        ty, c = self.num_type(op, a, b)
        x, y = a.t, b.t
        if op is ast.Add:
            return Num(tadd(x, y), ty, c)
        if op is ast.Sub:
            r = tsub(x, y)
            if c and is_unsigned(ty):
                self.require('unsigned', tmap(lambda p: cmp_ge(p), self.prefer(r)),
                             'difference of unsigned C integers below zero')
            return Num(r, ty, c)
        if op is ast.Mult:
            return Num(tmul(x, y), ty, c)
        if op is ast.Div:
            if not (a.c or b.c) or not (is_float_ty(a.ty) or is_float_ty(b.ty)):
                if not (a.ty[0] in 'f' and a.ty != 'float') and not (b.ty[0] == 'f' and b.ty != 'float') and not c \
                        and a.ty in WEAK and b.ty in WEAK:
                    z = self.zero_cond(y)
                    if z is not FALSE:
                        self.error_if(z, 'ZeroDivisionError')
            zc = self.st.facts.simplify(y)
            if zc.cond is None and zc.leaf is ZERO:
                return Num(atom_poly(mk_atom('div0', (x,), False)), ty, c)
            if y.cond is None and y.leaf is ZERO:
                y = zc
            return Num(self.safe_div(x, y), ty, c)
        if op in (ast.FloorDiv, ast.Mod):
            if is_float_ty(ty) and not c:
                q = tapply('//', pfloordiv, x, y)
                return Num(q if op is ast.FloorDiv else tsub(x, tmul(y, q)), ty, c)
            z = self.zero_cond(y)
            if z is not FALSE:
                d = self.decide(z)
                if d is not False:
                    if c and self.fns[-1].directives.get('cdivision'):
                        self.require('division', t_not(z), 'C integer division by zero')
                        if d is True:
                            return Num(atom_poly(mk_atom('div0', (x,), True)), ty, c)
                    else:
                        self.error_if(z, 'ZeroDivisionError')
            if c and self.fns[-1].directives.get('cdivision') and not is_unsigned(ty):
                q = self.c_div(x, y)
            else:
                q = self.floor_div(x, y)
            if op is ast.FloorDiv:
                return Num(q, ty, c)
            return Num(tsub(x, tmul(y, q)), ty, c)
        if op is ast.Pow:
            n = self.concrete(b)
            if n is not None and Fraction(n).denominator == 1:
                from .terms import ppow
                n = int(n)
                if n < 0:
                    from .terms import precip
                    return Num(tmap(lambda p: ppow(precip(p), -n), x), ty if is_float_ty(ty) else 'float', c)
                return Num(tmap(lambda p: ppow(p, n), x), ty, c)
            if n is not None and Fraction(n) == Fraction(1, 2):
                from .terms import tfn
                return Num(tfn('sqrt', x), ty if is_float_ty(ty) else 'float', c)
            return Num(tapply('pow', lambda p, q: atom_poly(mk_atom('pow', (p, q))), x, y), ty, c)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if is_bool_ty(a.ty) and is_bool_ty(b.ty):
                f = {ast.BitAnd: t_and, ast.BitOr: t_or, ast.BitXor: lambda p, q: t_ite(p, t_not(q), q)}[op]
                return Num(f(x, y), ty, c)
            p, q = self.concrete(a), self.concrete(b)
            if p is not None and q is not None:
                p, q = int(p), int(q)
                return Num(const({ast.BitAnd: p & q, ast.BitOr: p | q, ast.BitXor: p ^ q}[op]), ty, c)
            if op is ast.BitAnd and q is not None and q >= 0 and (q & (q + 1)) == 0:
                return Num(tmap(lambda u: pmod(u, const(q + 1)), x), ty, c)
            if op is ast.BitAnd and p is not None and p >= 0 and (p & (p + 1)) == 0:
                return Num(tmap(lambda u: pmod(u, const(p + 1)), y), ty, c)
        if op in (ast.LShift, ast.RShift):
            q = self.concrete(b)
            if q is not None:
                k = const(2 ** int(q))
                return Num(tmap(lambda u: pmul(u, k) if op is ast.LShift else pfloordiv(u, k), x), ty, c)
        self.fail('operator %s' % op.__name__)

    def prefer(self, t):
        return self.st.facts.simplify(t)

    def safe_div(self, x, y):
        """Division where leaves that are zero are unreachable or give an unknown value."""
        from .terms import pdiv

        def d(p, q):
            if not q.terms:
                return atom_poly(mk_atom('div0', (p,), False))
            return pdiv(p, q)
        return tapply('/', d, x, y)

    def zero_cond(self, t):
        return tmap(lambda p: cmp_eq(p), t)

    def floor_div(self, x, y):
        def d(p, q):
            if not q.terms:
                return atom_poly(mk_atom('div0', (p,), True))
            if q.is_const:
                return pfloordiv(p, q)
            return self.sym_floor(p, q)
        return tapply(('//', self.st.facts.serial), d, x, y)

    def sym_floor(self, p, q):
        r = pfloordiv(p, q)
        f = self.st.facts
        # 0 <= p < q
        if poly_is_int(p) and poly_is_int(q):
            if f.prove_ge(p) and f.prove_gt(psub(q, p)):
                return ZERO
        return r

    def c_div(self, x, y):
        def d(p, q):
            if not q.terms:
                return leaf(atom_poly(mk_atom('div0', (p,), True)))
            f = self.st.facts
            if q.is_const and q.value > 0:
                if f.prove_ge(p):
                    return leaf(pfloordiv(p, q))
                if f.prove_ge(pneg(p)):
                    return leaf(pneg(pfloordiv(pneg(p), q)))
                return t_ite(cmp_ge(p), leaf(pfloordiv(p, q)), leaf(pneg(pfloordiv(pneg(p), q))))
            if q.is_const:
                return tmap(pneg, d(p, pneg(q)))
            if f.prove_ge(p) and f.prove_gt(q):
                return leaf(self.sym_floor(p, q))
            return leaf(ptrunc_div(p, q))
        return tapply(('c//', self.st.facts.serial), d, x, y)

    def num_type(self, op, a, b):
        if a.c or b.c:
            if (a.c or a.ty in WEAK) and (b.c or b.ty in WEAK):
                if op is ast.Div and not (is_float_ty(a.ty) or is_float_ty(b.ty)):
                    return 'f8', True
                return c_promote(a.ty, b.ty), True
        if op is ast.Div:
            if a.ty in WEAK and b.ty in WEAK:
                return 'float', False
        elif a.ty in WEAK and b.ty in WEAK:
            if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and a.ty == b.ty == 'bool':
                return 'bool', False
            if op is ast.Pow and a.ty == 'int' and b.ty == 'int':
                return 'int', False
            return ('float' if 'float' in (a.ty, b.ty) else 'int'), False
        return self.nparr.ufunc_type(UF[op], [a.ty, b.ty]), False

    def compare(self, op, a, b, e=None):
        a, b = self.settle(a), self.settle(b)
        if isinstance(a, Choice):
            return self.choose(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return self.choose(b, lambda x: self.compare(op, a, x))
        if op in (ast.Is, ast.IsNot):
            r = self.is_same(a, b)
            return Num(r if op is ast.Is else t_not(r), 'bool')
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return Num(r if op is ast.In else t_not(r), 'bool')
        if isinstance(a, Num) and isinstance(b, Num):
            if a.c and b.c and a.ty != b.ty and (is_unsigned(a.ty) or is_unsigned(b.ty)) and is_int_ty(a.ty) and is_int_ty(b.ty):
                s, u = (a, b) if is_unsigned(b.ty) else (b, a)
                if not is_unsigned(s.ty) and int(s.ty[1]) <= int(u.ty[1]):
                    self.require('unsigned', tmap(lambda p: cmp_ge(p), self.prefer(s.t)),
                                 'comparison of a negative with an unsigned C integer')
            return Num(num_compare(op, a, b), 'b1' if not (a.ty in WEAK and b.ty in WEAK) and not (a.c or b.c) else 'bool')
        if isinstance(a, (Arr, DaskArr, XArr)) or isinstance(b, (Arr, DaskArr, XArr)):
            if (isinstance(a, (str, type(None), tuple)) or isinstance(b, (str, type(None), tuple))) and op in (ast.Eq, ast.NotEq) \
                    and not (isinstance(a, tuple) or isinstance(b, tuple)):
                return Num(FALSE if op is ast.Eq else TRUE, 'bool')
            return self.nparr.array_compare(op, py_value(a), py_value(b))
        if op in (ast.Eq, ast.NotEq):
            r = self.equal(a, b)
            return Num(r if op is ast.Eq else t_not(r), 'bool')
        if isinstance(a, (str, tuple)) and type(a) is type(b):
            if isinstance(a, str):
                return num({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op])
            # lexicographic
            return Num(self.lex(op, a, b), 'bool')
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'set' and op in (ast.LtE, ast.GtE, ast.Lt, ast.Gt):
            x, y = set(self.get(a)), set(self.get(b))
            return num({ast.LtE: x <= y, ast.GtE: x >= y, ast.Lt: x < y, ast.Gt: x > y}[op])
        self.error('TypeError', 'comparison not supported')

    def lex(self, op, a, b):
        strict = op in (ast.Lt, ast.Gt)
        r = (len(a) < len(b) or (not strict and len(a) == len(b))) if op in (ast.Lt, ast.LtE) else \
            (len(a) > len(b) or (not strict and len(a) == len(b)))
        out = TRUE if r else FALSE
        for x, y in reversed(list(zip(a, b))):
            eq = self.equal(x, y)
            lt = self.truth(self.compare(ast.Lt if op in (ast.Lt, ast.LtE) else ast.Gt, x, y))
            out = t_ite(eq, out, lt)
        return out

    def is_same(self, a, b):
        if isinstance(a, CTypeV) or isinstance(b, CTypeV):
            def ct(x):
                if isinstance(x, CTypeV):
                    return x.ty
                if isinstance(x, Lib):
                    d = self.libs.dtype_of(self, x)
                    return d
                if isinstance(x, Builtin):
                    return {'float': 'f4', 'double': 'f8', 'int': 'i4'}.get(x.name)
                return None
            return TRUE if ct(a) == ct(b) else FALSE
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if isinstance(a, Num) and isinstance(b, Num):
            if is_bool_ty(a.ty) and is_bool_ty(b.ty) and a.ty == b.ty:
                return t_ite(a.t, b.t, t_not(b.t))
            if a.ty == b.ty:
                return num_compare(ast.Eq, a, b)
            return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.oid == b.oid else FALSE
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if isinstance(a, Arr) and isinstance(b, Arr):
            return TRUE if a is b or (a.buf is b.buf and a.map == b.map and a.copied is None and b.copied is None) else FALSE
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return TRUE
        return TRUE if a is b else FALSE

    def equal(self, a, b):
        a, b = self.settle(a), self.settle(b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.truth(self.compare(ast.Eq, a, b))
        if a is b:
            return TRUE
        if isinstance(a, Num) and isinstance(b, Num):
            return num_compare(ast.Eq, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if self.is_dtype(a) or self.is_dtype(b):
                da, db = self.libs.dtype_of(self, a), self.libs.dtype_of(self, b)
                return TRUE if da == db else FALSE
            return TRUE if isinstance(a, str) and isinstance(b, str) and a == b else FALSE
        if a is None or b is None:
            return FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for x, y in zip(a, b):
                r = t_and(r, self.equal(x, y))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return TRUE
            if a.kind == b.kind == 'list':
                return self.equal(self.list_items(a), self.list_items(b))
            if a.kind == b.kind == 'set':
                return TRUE if set(self.get(a)) == set(self.get(b)) else FALSE
            if a.kind == b.kind == 'dict':
                x, y = self.get(a), self.get(b)
                if set(x) != set(y):
                    return FALSE
                r = TRUE
                for k in x:
                    r = t_and(r, self.equal(x[k][1], y[k][1]))
                return r
            return FALSE
        if self.is_dtype(a) or self.is_dtype(b):
            da, db = self.libs.dtype_of(self, a), self.libs.dtype_of(self, b)
            return TRUE if da is not None and da == db else FALSE
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.nparr.array_compare(ast.Eq, a, b)
            return self.truth(r)
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return t_and(self.equal(a.start, b.start), t_and(self.equal(a.stop, b.stop), self.equal(a.step, b.step)))
        return FALSE

    def is_dtype(self, x):
        return isinstance(x, Opaque) and x.kind == 'dtype'

    def contains(self, c, x):
        c = self.settle(c)
        if isinstance(c, Choice):
            return self.truth(self.choose(c, lambda y: Num(self.contains(y, x), 'bool')))
        if isinstance(c, str):
            if isinstance(x, str):
                return TRUE if x in c else FALSE
            self.error('TypeError')
        if isinstance(c, tuple):
            items = c
        elif isinstance(c, Ref) and c.kind in ('list', 'gen'):
            items = self.list_items(c)
        elif isinstance(c, Ref) and c.kind in ('dict', 'set'):
            d = self.get(c)
            k = self.key(x)
            if k in d:
                return TRUE
            if k[0] == 't':
                r = FALSE
                for kk in d:
                    if kk[0] == 'n':
                        r = t_or(r, num_compare(ast.Eq, x, num(kk[1])))
                return r
            return FALSE
        elif isinstance(c, RangeV):
            st = self.concrete(c.step)
            if st is None:
                self.fail('range membership')
            lo, hi = (c.start, c.stop) if st > 0 else (c.stop, c.start)
            r = t_and(num_compare(ast.GtE, x, c.start) if st > 0 else num_compare(ast.LtE, x, c.start),
                      num_compare(ast.Lt, x, c.stop) if st > 0 else num_compare(ast.Gt, x, c.stop))
            return t_and(r, tapply('inr', lambda p, q: cmp_eq(pmod(psub(p, q), const(abs(st)))), x.t, c.start.t))
        elif isinstance(c, Arr):
            r = self.nparr.array_compare(ast.Eq, c, x)
            return self.truth(self.nparr.reduce('any', r, None))
        elif isinstance(c, Ref) and c.kind == 'inst':
            f, _ = c.cls.find('__contains__')
            if f is not None:
                return self.truth(self.call(BoundV(f, c), [x], {}))
            items = self.iterate(c)
        else:
            items = self.iterate(c)
        r = FALSE
        for y in items:
            r = t_or(r, self.equal(y, x))
            if r is TRUE:
                break
        return r

    # ------------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        o = self.settle(o)
        if isinstance(o, Choice):
            return self.choose(o, lambda x: self.getattr(x, name))
        if isinstance(o, Lib):
            return self.libs.lib_attr(self, o, name)
        if isinstance(o, ModV):
            v = self.get(o.frame).get(name, UNBOUND)
            if v is UNBOUND:
                sub = self.module(o.name + '.' + name) if o.name + '.' + name in self.modules else None
                if sub is None:
                    self.error('AttributeError', name)
                return sub
            return self.settle(v)
        if isinstance(o, Ref) and o.kind == 'inst':
            return self.inst_attr(o, name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            v, c = o.find(name)
            if v is None and c is None:
                if name == '__class__':
                    return Lib('builtins.type')
                self.error('AttributeError', name)
            if isinstance(v, Static):
                return v.func
            if isinstance(v, ClassM):
                return BoundV(v.func, o)
            return v
        if isinstance(o, Super):
            return self.super_attr(o, name)
        v = self.libs.attribute(self, o, name)
        if v is UNBOUND:
            self.error('AttributeError', name)
        return v

    def super_attr(self, o, name):
        inst_cls = o.obj.cls if isinstance(o.obj, Ref) else o.obj
        mro = inst_cls.mro
        k = mro.index(o.cls)
        for c in mro[k + 1:]:
            if isinstance(c, ClassV):
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.obj], {})
                    if isinstance(v, Static):
                        return v.func
                    if isinstance(v, ClassM):
                        return BoundV(v.func, inst_cls)
                    return BoundV(v, o.obj)
            elif name == '__init__':
                return Builtin('object.__init__', lambda interp, a, k: None)
        if name in ('__init__', '__init_subclass__'):
            return Builtin('object.__init__', lambda interp, a, k: None)
        self.error('AttributeError', name)

    def inst_attr(self, o, name):
        rec = self.get(o)
        if isinstance(rec, Poison):
            self.fail(rec.why)
        v, c = o.cls.find(name)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        if name in rec:
            x = self.settle(rec[name])
            if isinstance(x, CarryRef):
                raise NeedUnroll('attribute carried')
            if isinstance(x, Choice):
                x = self.drop_unbound(x, name)
            if isinstance(x, Num):
                t = o.cls.find_ctype(name)
                if t is not None:
                    return Num(x.t, x.ty, True)
            return x
        if c is not None:
            if isinstance(v, FuncV):
                return BoundV(v, o)
            if isinstance(v, Static):
                return v.func
            if isinstance(v, ClassM):
                return BoundV(v.func, o.cls)
            if isinstance(v, (Builtin, Partial)) and not isinstance(v, Partial):
                return v
            return v
        t = o.cls.find_ctype(name)
        if t is not None:
            # C attributes start as zero / None
            if isinstance(t, str):
                return Num(ZERO, t, True)
            return None
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return self.new_dict({('s', k): (k, v) for k, v in rec.items()})
        f, _ = o.cls.find('__getattr__')
        if f is not None:
            return self.call(BoundV(f, o), [name], {})
        self.error('AttributeError', name)

    def setattr(self, o, name, v):
        o = self.settle(o)
        if isinstance(o, Choice):
            self.choose(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref) and o.kind == 'inst':
            t = o.cls.find_ctype(name)
            if t is not None:
                v = self.coerce(v, self.resolve_type(t, self.fns[-1]))
            if getattr(o, 'owner', None):
                pass
            d = dict(self.get(o))
            d[name] = v
            self.put(o, d)
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, ModV):
            d = dict(self.get(o.frame))
            d[name] = v
            self.put(o.frame, d)
            self.event('global-write', 'assigns the module variable %s.%s' % (o.name, name), name=name)
            return
        if isinstance(o, ClassV):
            self.event('global-write', 'assigns the class attribute %s.%s' % (o.name, name), name=name)
            o.ns[name] = v
            return
        if isinstance(o, XArr):
            if name == 'attrs' or name == 'name':
                return
            self.event('input-write', 'changes an input DataArray (.%s)' % name)
            return
        if isinstance(o, Arr) and name == 'shape':
            self.fail('assignment to shape')
        self.fail('attribute assignment on %r' % (o,))

    def list_items(self, r):
        rec = self.get(r)
        if isinstance(rec, tuple) and rec and rec[0] == 'choice-list':
            d = self.decide(rec[1])
            if d is None:
                raise NeedSplit(self.simp(rec[1]), 'lists of different length')
            rec = rec[2] if d else rec[3]
            if isinstance(rec, tuple) and rec and rec[0] == 'choice-list':
                self.put(r, rec)
                return self.list_items(r)
        if isinstance(rec, Poison):
            self.fail(rec.why)
        return rec

    def pyslice(self, s, n):
        f = lambda x: None if x is None else self.int_of(x)
        return slice(f(s.start), f(s.stop), f(s.step))

    def int_of(self, v, what='index'):
        v = self.settle(v)
        c = self.concrete(v) if isinstance(v, Num) else None
        if c is None:
            if isinstance(v, Num):
                t = self.force(v.t)
                if t.cond is not None:
                    from .terms import node
                    raise NeedSplit(node(t.cond, TRUE, FALSE), what)
            raise NeedUnroll('%s is not a known integer: %r' % (what, v))
        return int(c)

    def getitem(self, o, idx):
        o = self.settle(o)
        if isinstance(o, Choice):
            return self.choose(o, lambda x: self.getitem(x, idx))
        idx = self.settle(idx)
        if isinstance(idx, Choice):
            return self.choose(idx, lambda x: self.getitem(o, x))
        if isinstance(o, (tuple, str)) or (isinstance(o, Ref) and o.kind == 'list'):
            items = o if isinstance(o, (tuple, str)) else self.list_items(o)
            if isinstance(idx, SliceV):
                r = items[self.pyslice(idx, len(items))]
                return r if not isinstance(o, Ref) else self.new_list(r)
            if not isinstance(idx, Num):
                self.error('TypeError', 'indices must be integers')
            k = self.concrete(idx)
            if k is None:
                k = self.symbolic_item(items, idx)
                return k
            k = int(k)
            if not -len(items) <= k < len(items):
                self.error('IndexError', 'index out of range')
            return self.settle(items[k])
        if isinstance(o, Ref) and o.kind == 'dict':
            d = self.get(o)
            k = self.key(idx)
            if k in d:
                return self.settle(d[k][1])
            if k[0] == 't':
                return self.symbolic_key(d, idx)
            self.error('KeyError', idx)
        if isinstance(o, Arr):
            return self.nparr.getitem(o, idx)
        if isinstance(o, RangeV):
            if isinstance(idx, SliceV):
                self.fail('slice of a range')
            n = self.libs.length(self, o)
            i = idx
            neg = self.decide(num_compare(ast.Lt, i, num(0)))
            if neg:
                i = self.binop(ast.Add, i, n)
            return self.binop(ast.Add, o.start, self.binop(ast.Mult, i, o.step))
        if isinstance(o, Ref) and o.kind == 'inst':
            return self.call(self.getattr(o, '__getitem__'), [idx], {})
        if isinstance(o, CTypeV) or isinstance(o, (FuncV, BoundV)) and isinstance(idx, CTypeV):
            return o
        r = self.libs.getitem(self, o, idx)
        if r is UNBOUND:
            self.error('TypeError', 'object is not subscriptable')
        return r

    def symbolic_item(self, items, idx):
        n = len(items)
        if n == 0:
            self.error('IndexError')
        self.error_if(t_not(t_and(num_compare(ast.GtE, idx, num(-n)), num_compare(ast.Lt, idx, num(n)))), 'IndexError')

        def go(lo, hi):
            if hi - lo == 1:
                return items[lo] if 0 <= lo else items[lo]
            mid = (lo + hi) // 2
            c = self.simp(num_compare(ast.Lt, idx, num(mid)))
            if c is TRUE:
                return go(lo, mid)
            if c is FALSE:
                return go(mid, hi)
            return self.merge_values(c, go(lo, mid), go(mid, hi))
        return go(-n, n)

    def symbolic_key(self, d, idx):
        alts = [(kk[1], v[1]) for kk, v in d.items() if kk[0] == 'n']
        conds = [num_compare(ast.Eq, idx, num(k)) for k, _ in alts]
        any_ = FALSE
        for c in conds:
            any_ = t_or(any_, c)
        self.error_if(t_not(any_), 'KeyError')
        if not alts:
            raise Dead()
        out = alts[-1][1]
        for (k, v), c in list(zip(alts, conds))[-2::-1]:
            out = self.merge_values(self.simp(c), v, out)
        return out

    def setitem(self, o, idx, v):
        o = self.settle(o)
        if isinstance(o, Choice):
            self.choose(o, lambda x: self.setitem(x, idx, v))
            return
        idx = self.settle(idx)
        if isinstance(o, Ref) and o.kind == 'list':
            items = list(self.list_items(o))
            if isinstance(idx, SliceV):
                items[self.pyslice(idx, len(items))] = self.iterate(v)
            else:
                k = self.int_of(idx)
                if not -len(items) <= k < len(items):
                    self.error('IndexError')
                items[k] = v
            self.put(o, tuple(items))
            return
        if isinstance(o, Ref) and o.kind == 'dict':
            d = dict(self.get(o))
            d[self.key(idx)] = (idx, v)
            self.put(o, d)
            return
        if isinstance(o, Arr):
            self.nparr.setitem(o, idx, v)
            return
        if isinstance(o, XArr) and isinstance(o.data, Arr):
            self.nparr.setitem(o.data, idx, v)
            return
        if isinstance(o, Ref) and o.kind == 'inst':
            self.call(self.getattr(o, '__setitem__'), [idx, v], {})
            return
        self.error('TypeError', 'object does not support item assignment')

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """The items of an iterable of known length."""
        v = self.settle(v)
        if isinstance(v, Choice):
            r = self.choose(v, lambda x: tuple(self.iterate(x)))
            if isinstance(r, Choice):
                raise NeedSplit(r.cond, 'iteration')
            return r
        if isinstance(v, tuple):
            return v
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Ref):
            if v.kind in ('list', 'gen'):
                return self.list_items(v)
            if v.kind == 'dict':
                return tuple(kv[0] for kv in self.get(v).values())
            if v.kind == 'set':
                return tuple(self.get(v).values())
            if v.kind == 'inst':
                f, _ = v.cls.find('__iter__')
                if f is not None:
                    return self.iterate(self.call(BoundV(f, v), [], {}))
                self.error('TypeError', 'object is not iterable')
        if isinstance(v, RangeV):
            n = self.concrete(self.libs.length(self, v))
            if n is None:
                raise NeedUnroll('iteration over a range of unknown length')
            if n > 20000:
                self.fail('iteration over a long range')
            s, st = v.start, v.step
            return tuple(self.binop(ast.Add, s, self.binop(ast.Mult, num(k), st)) for k in range(int(n)))
        if isinstance(v, Arr):
            n = v.shape[0] if v.shape else None
            if n is None:
                self.error('TypeError', 'iteration over a 0-d array')
            n = self.poly(leaf(n))
            if not n.is_const:
                raise NeedUnroll('iteration over an array of unknown length')
            if n.value > 6000:
                self.fail('iteration over a long array')
            return tuple(self.nparr.getitem(v, num(k)) for k in range(int(n.value)))
        r = self.libs.iterate(self, v)
        if r is not None:
            return r
        self.error('TypeError', 'object is not iterable')

    # ------------------------------------------------------------------ C types
    def resolve_type(self, t, fn):
        if isinstance(t, tuple):
            if t[0] == 'fused':
                if t[1] in fn.fused:
                    return fn.fused[t[1]]
                alts = self.fused_types(fn.func.module).get(t[1]) if fn.func.module else None
                if alts and len(alts) == 1:
                    return alts[0]
                raise AnalysisError('fused type %s is not resolved in %s' % (t[1], fn.func.name))
            if t[0] in ('mv', 'nd'):
                return (t[0], self.resolve_type(t[1], fn) if t[1] is not None else None) + t[2:]
            if t[0] == 'carr':
                return ('carr', self.resolve_type(t[1], fn), t[2])
        return t

    def coerce(self, v, t, cast=False):
        v = self.settle(v)
        if isinstance(v, Choice):
            return self.choose(v, lambda x: self.coerce(x, t, cast))
        if isinstance(t, str):
            if t == 'void':
                return None
            if isinstance(v, (Arr, XArr)) and not (isinstance(v, Arr) and v.kind == 'mv'):
                v = self.libs.to_number(self, v)
            if isinstance(v, Poison):
                self.fail(v.why)
            if not isinstance(v, Num):
                if isinstance(v, Opaque):
                    return v
                self.error('TypeError', 'a number is required')
            if t == 'b1':
                return Num(self.truth(v), 'b1', True)
            if is_float_ty(t):
                return Num(v.t, t, True)
            if is_float_ty(v.ty):
                if not v.c and not cast:
                    # a Python float for a C integer
                    if not all_int(v.t):
                        self.error('TypeError', 'expected an integer')
                return Num(tmap(ptrunc, v.t), t, True)
            if is_unsigned(t) and not is_unsigned(v.ty):
                if not v.c and not cast:
                    neg = tmap(lambda p: cmp_ge(psub(pneg(p), ONE)), v.t)
                    self.error_if(neg, 'OverflowError', "can't convert negative value to unsigned int")
                else:
                    self.require('unsigned', tmap(lambda p: cmp_ge(p), self.prefer(v.t)),
                                 'negative value converted to an unsigned C integer')
            return Num(v.t, t, True)
        if isinstance(t, tuple):
            if t[0] == 'obj':
                if t[1] == 'tuple' and not isinstance(v, tuple) and v is not None:
                    self.error('TypeError', 'Expected tuple')
                if t[1] == 'list' and not (isinstance(v, Ref) and v.kind == 'list') and v is not None:
                    self.error('TypeError', 'Expected list')
                if t[1] == 'dict' and not (isinstance(v, Ref) and v.kind == 'dict') and v is not None:
                    self.error('TypeError', 'Expected dict')
                return v
            if t[0] == 'nd':
                if v is None:
                    return None
                if isinstance(v, Arr) and v.kind == 'mv':
                    self.error('TypeError', 'Cannot convert memoryview to ndarray')
                if not isinstance(v, Arr):
                    self.error('TypeError', 'Argument has incorrect type')
                self.check_buffer(v, t[1], t[2], t[3] == 'c')
                return v
            if t[0] == 'mv':
                if v is None:
                    return None
                if isinstance(v, Num) or not isinstance(v, Arr):
                    self.error('TypeError', 'a buffer is required')
                if v.kind == 'mv':
                    if v.ndim != t[2]:
                        self.error('ValueError', 'wrong number of dimensions')
                    if v.dtype != t[1] and t[1] is not None:
                        self.error('ValueError', 'Buffer dtype mismatch')
                    if t[3] == 'c' and not self.last_contiguous(v):
                        self.error('ValueError', 'ndarray is not C-contiguous')
                    return v
                self.check_buffer(v, t[1], t[2], t[3] == 'c')
                return Arr(v.buf, v.shape, v.map, 'mv', v.copied)
            if t[0] == 'carr':
                return v
            if t[0] == 'ptr':
                return v
        return v

    def check_buffer(self, v, dt, nd, contig):
        if dt is not None and not same_buffer_dtype(v.dtype, dt):
            self.error('ValueError', 'Buffer dtype mismatch')
        if v.ndim != nd:
            self.error('ValueError', 'Buffer has wrong number of dimensions')
        if contig and not self.contiguous(v):
            self.error('ValueError', 'ndarray is not C-contiguous')

    def last_contiguous(self, v):
        m = self.stride_of(v, v.ndim - 1)
        return m

    def stride_of(self, v, d):
        """Is the last view dimension the last buffer dimension, with stride one?"""
        if v.buf.owner and v.buf.owner.get('strided'):
            return False
        last = v.map[-1]
        return last[0] == d and last[2] is ONE

    def contiguous(self, v):
        if v.buf.owner and v.buf.owner.get('strided'):
            return False
        dims = [m for m in v.map if m[0] is not None]
        if [m[0] for m in dims] != list(range(len(dims))):
            return False
        for m in dims:
            if m[2] is not ONE:
                return False
        # trailing buffer dims must be whole; leading may be cut only before the first long one
        full = True
        started = False
        for k, m in enumerate(v.map):
            if m[0] is None:
                if started:
                    return False
                continue
            if started and not (v.shape[m[0]] is v.buf.shape[k] or
                                self.st.facts.prove_eq(psub(v.shape[m[0]], v.buf.shape[k]))):
                return False
            n = v.shape[m[0]]
            if not (n.is_const and n.value == 1):
                started = True
        return True

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fn = self.fns[-1]
            cls = fn.func.cls
            cls = cls[0] if isinstance(cls, list) and cls else cls
            first = fn.func.node.args.args[0].arg
            return Super(cls, self.get(fn.frame)[first])
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'eval', 'exec'):
            self.fail('call of %s' % e.func.id)
        f = self.eval(e.func)
        args = self.elts(e.args, raw=True)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                src = self.settle(self.eval(k.value))
                if not isinstance(src, Ref):
                    self.fail('** of %r' % (src,))
                for kk, (kv, v) in self.get(src).items():
                    kwargs[kv] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        where = self.where
        r = self.call(f, args, kwargs)
        self.where = where
        return r

    def call(self, f, args, kwargs):
        f = self.settle(f)
        if isinstance(f, Choice):
            return self.choose(f, lambda x: self.call(x, args, kwargs))
        if not isinstance(f, (Builtin, BoundV)) and not (isinstance(f, Lib) and (f.path.startswith('libc.') or f.path.startswith('builtins'))) and \
                not (isinstance(f, FuncV) and (getattr(f.node, 'cy', None) or {}).get('kind') in ('cdef', 'cpdef')):
            args = [py_value(a) for a in args]
            kwargs = {k: py_value(a) for k, a in kwargs.items()}
        if isinstance(f, FuncV):
            if '__cache__' in f.attrs:
                return self.libs.cached_call(self, f, args, kwargs)
            return self.call_function(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, [self.settle(a) for a in args], kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExcClass):
            return ExcV(f, tuple(args))
        if isinstance(f, Lib):
            return self.libs.call(self, f.path, [self.settle(a) for a in args], {k: self.settle(v) for k, v in kwargs.items()})
        if isinstance(f, LibMethod):
            return self.libs.call_method(self, f.obj, f.name, [self.settle(a) for a in args],
                                         {k: self.settle(v) for k, v in kwargs.items()})
        if isinstance(f, Opaque):
            return self.libs.call_opaque(self, f, [self.settle(a) for a in args], {k: self.settle(v) for k, v in kwargs.items()})
        if isinstance(f, Ref) and f.kind == 'inst':
            m, _ = f.cls.find('__call__')
            if m is None:
                self.error('TypeError', 'object is not callable')
            return self.call(BoundV(m, f), args, kwargs)
        if isinstance(f, CTypeV):
            return self.coerce(args[0], f.ty, cast=True)
        if isinstance(f, Static):
            return self.call(f.func, args, kwargs)
        self.error('TypeError', 'object is not callable')

    def instantiate(self, c, args, kwargs):
        if any(isinstance(b, ExcClass) for b in c.mro):
            return ExcV(c, tuple(args))
        abstract = self.abstract_methods(c)
        if abstract:
            self.error('TypeError', "Can't instantiate abstract class %s" % c.name)
        o = self.new_ref('inst', {}, c)
        f, _ = c.find('__cinit__')
        if f is not None:
            self.call(BoundV(f, o), args, kwargs)
        f, _ = c.find('__init__')
        if f is not None:
            self.call(BoundV(f, o), args, kwargs)
        elif c.find('__cinit__')[0] is None and (args or kwargs):
            libbase = [b for b in c.mro if isinstance(b, Lib)]
            if not any(b.path not in ('abc.ABC', 'builtins.object') for b in libbase):
                self.error('TypeError', '%s() takes no arguments' % c.name)
        return o

    def abstract_methods(self, c):
        isabc = any(isinstance(b, Lib) and b.path == 'abc.ABC' for b in c.mro)
        if not isabc:
            return []
        out = []
        names = set()
        for k in c.mro:
            if isinstance(k, ClassV):
                names.update(k.ns)
        for n in names:
            v, _ = c.find(n)
            g = v.fget if isinstance(v, Prop) else v
            if isinstance(g, FuncV) and g.attrs.get('__abstract__'):
                out.append(n)
        return out

    def call_function(self, f, args, kwargs):
        if self.call_depth > 60:
            self.fail('recursion too deep')
        node = f.node
        a = node.args
        cy = getattr(node, 'cy', None)
        local = {}
        params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                self.error('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(params), len(args)))
            local[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            local[a.vararg.arg] = ()
        for p, v in zip(params, args):
            local[p] = v
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in local:
                    self.error('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                local[k] = v
            else:
                extra[k] = v
        if extra:
            if a.kwarg is None:
                self.error('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, sorted(extra)[0]))
        if a.kwarg is not None:
            local[a.kwarg.arg] = self.new_dict({('s', k): (k, v) for k, v in extra.items()})
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            local.setdefault(p, d)
        for x in a.kwonlyargs:
            if x.arg not in local:
                if x.arg in f.kwdefaults:
                    local[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.error('TypeError', '%s() missing keyword argument %s' % (f.name, x.arg))
        for p in params:
            if p not in local:
                self.error('TypeError', '%s() missing argument %s' % (f.name, p))
        fused = {}
        ctx = FnCtx(f, None, fused, dict(getattr(f.module.src, 'directives', {}) or {}) if f.module.src else {})
        ctx.is_c = bool(f.module.src and f.module.src.is_cython)
        ctx.loop_depth = len(self.loops)
        ctx.breaks, ctx.continues = [], []
        ctx.local_names = local_names(node)
        self.functions_seen.add('%s.%s' % (f.module.name, f.name))
        if cy:
            ctx.directives = dict(cy['directives'])
            local = self.bind_c_args(f, cy, params, local, ctx)
        local['__parent__'] = f.frame
        ctx.frame = self.new_ref('frame', local)
        base = self.st
        level = len(base.rels)
        self.st = State(dict(base.heap), base.facts, base.rels + [TRUE])
        ctx.returns = Collector(level)
        if isinstance(node, ast.Lambda):
            body = None
        else:
            body = node.body
        gen = f.is_gen
        if gen is None:
            gen = f.is_gen = (not isinstance(node, ast.Lambda)) and has_yield(node)
        if gen:
            ctx.yields = self.new_ref('list', ())
        self.fns.append(ctx)
        self.call_depth += 1
        try:
            if body is None:
                v = self.eval(node.body)
                ctx.returns.out.append((self.st.rel_since(level), v, self.st))
            else:
                try:
                    self.block(body)
                    v = None
                    if cy and cy['ret'] is not None and isinstance(cy['ret'], str) and cy['ret'] != 'void':
                        v = Num(ZERO, cy['ret'], True)
                    ctx.returns.out.append((self.st.rel_since(level), v, self.st))
                except Dead:
                    pass
        finally:
            self.fns.pop()
            self.call_depth -= 1
        if not ctx.returns.out:
            self.st = base
            raise Dead()
        v = self.merge_outcomes(base, level, ctx.returns.out)
        r = self.st.rels
        self.st.rels = r[:level - 1] + [t_and(r[level - 1], r[level])]
        if gen:
            y = self.get(ctx.yields)
            return self.new_ref('gen', y)
        if isinstance(v, Num) and -2 in v.t.syms:
            v = Num(self.st.facts.prune(v.t), v.ty, v.c)
        if isinstance(v, Choice):
            v = self.settle(v)
        elif isinstance(v, Num) and v.t.cond is not None:
            v = Num(self.st.facts.prune(v.t), v.ty, v.c)
        return v

    def bind_c_args(self, f, cy, params, local, ctx):
        types = cy['types']
        ft = self.fused_types(f.module)
        # which fused types are used
        used = []
        for p in params:
            t = types.get(p)
            n = fused_name(t)
            if n:
                used.append((n, p, t))
        # resolve each fused type from its first argument
        for n, p, t in used:
            if n in ctx.fused:
                continue
            v = self.settle(local[p])
            if isinstance(v, Choice):
                raise NeedSplit(v.cond, 'argument type')
            ty = None
            if isinstance(v, Arr):
                ty = v.dtype
            elif isinstance(v, Num):
                ty = {'float': 'f8', 'int': 'i8'}.get(v.ty, v.ty)
                if ty not in ft.get(n, ()) and is_int_ty(v.ty):
                    ty = 'f8' if 'f8' in ft.get(n, ()) else ty
            if isinstance(v, Arr) and cy['kind'] == 'def' and isinstance(t, tuple) and v.ndim != t[2]:
                self.error('TypeError', 'No matching signature found')
            alts = ft.get(n, ())
            if ty not in alts:
                if isinstance(v, Num) and not isinstance(t, tuple) or isinstance(v, Num):
                    ty = 'f8' if 'f8' in alts else alts[-1]
                else:
                    self.error('TypeError', 'No matching signature found')
            ctx.fused[n] = ty
        out = dict(local)
        for p in params:
            t = types.get(p)
            if t is None:
                continue
            rt = self.resolve_type(t, ctx)
            ctx.ctypes[p] = rt
            out[p] = self.coerce(local[p], rt)
        return out

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        from . import loops
        loops.exec_for(self, s)

    def s_While(self, s):
        from . import loops
        loops.exec_while(self, s)

    # ------------------------------------------------------------------ array heap access
    def content(self, buf):
        for k, L in enumerate(self.loops):
            if L is not None and k >= buf.depth and buf.oid not in L.wrapped:
                L.reads.add(buf.oid)
        c = self.st.heap[buf.oid]
        d = self.rebased(buf.oid, c)
        if d is not c:
            self.st.heap[buf.oid] = d
        return d

    def set_content(self, buf, make):
        """make(prev content) -> new content"""
        if self.task is not None and buf.oid < self.task[0]:
            self.task_write((buf.oid, None), 'the array %s' % buf.name, object())
        c = self.st.heap[buf.oid]
        for k, L in enumerate(self.loops):
            if L is None or k < buf.depth:
                continue
            if buf.oid not in L.wrapped:
                if buf.oid in L.reads:
                    raise LoopRestart(L, buf.oid)
                c = self.wrap(L, buf.oid, c)
            else:
                b = L.bases.get(buf.oid)
                if b is not None and b.prev is c:
                    c = b
        self.st.heap[buf.oid] = make(c)

    def wrap(self, L, oid, c):
        b = A.LoopBase(c, L.var, L.lo)
        L.wrapped.add(oid)
        L.bases[oid] = b
        return b

    def new_array(self, shape, dtype, content, name=None, owner=None, depth=None):
        buf = Buf(self.new_oid(), tuple(shape), dtype, name, len(self.loops) if depth is None else depth, owner)
        self.st.heap[buf.oid] = content
        return Arr(buf, shape, [(k, ZERO, ONE) for k in range(len(shape))])

    def lam_array(self, shape, dtype, fn, free=(), eager=False):
        return self.new_array(shape, dtype, A.Lam(fn, is_int_ty(dtype), free, eager))

    def snapshot(self, v, heap=None):
        """A function idx -> Tree giving the present values of an array."""
        if heap is not None and v.buf.oid in heap:
            c = self.rebased(v.buf.oid, heap[v.buf.oid])
        else:
            c = self.content(v.buf)
        facts = self.st.facts

        def f(idx):
            i = v.index(idx)
            return A.read(c, i, facts)
        f.free = frozenset(A.free_of(c) | A.free_of([m[1] for m in v.map]))
        return SnapFn(f, f.free)


class SnapFn:
    def __init__(self, f, free):
        self.f, self.free = f, free

    def __call__(self, idx):
        return self.f(idx)


def ptrunc_div(p, q):
    return atom_poly(mk_atom('cdiv', (p, q), True))


def all_int(t):
    from .terms import tree_leaves
    return all(poly_is_int(p) for p in tree_leaves(t))


def same_buffer_dtype(a, b):
    return a == b


def num_compare(op, a, b):
    x, y = a.t, b.t
    if op is ast.Lt:
        return tapply('lt', lambda p, q: cmp_gt(psub(q, p)), x, y)
    if op is ast.Gt:
        return tapply('gt', lambda p, q: cmp_gt(psub(p, q)), x, y)
    if op is ast.LtE:
        return tapply('le', lambda p, q: cmp_ge(psub(q, p)), x, y)
    if op is ast.GtE:
        return tapply('ge', lambda p, q: cmp_ge(psub(p, q)), x, y)
    if op is ast.Eq:
        return tapply('eq', lambda p, q: cmp_eq(psub(p, q)), x, y)
    if op is ast.NotEq:
        return t_not(tapply('eq', lambda p, q: cmp_eq(psub(p, q)), x, y))
    raise AnalysisError('comparison')


C_RANK = {'b1': 0, 'i1': 1, 'u1': 1, 'i2': 2, 'u2': 2, 'i4': 3, 'u4': 3, 'i8': 4, 'u8': 4, 'f4': 5, 'f8': 6}


def c_promote(a, b):
    if a in WEAK and b in WEAK:
        return 'float' if 'float' in (a, b) else 'int'
    if a in WEAK or b in WEAK:
        w, o = (a, b) if a in WEAK else (b, a)
        if w == 'float':
            return 'f8'
        if o in ('b1', 'i1', 'u1', 'i2', 'u2'):
            return 'i4'
        return o
    ra, rb = C_RANK[a], C_RANK[b]
    if max(ra, rb) >= 5:
        return a if ra >= rb else b
    if max(ra, rb) < 3:
        return 'i4'
    if ra == rb:
        return a if a[0] == 'u' else b
    return a if ra > rb else b


def _can_cast(a, b):
    import numpy as np
    if a in WEAK:
        a = {'int': 'i8', 'float': 'f8', 'bool': 'b1'}[a]
    return np.can_cast(np.dtype(a), np.dtype(b), 'same_kind')


def fused_name(t):
    if isinstance(t, tuple):
        if t[0] == 'fused':
            return t[1]
        if t[0] in ('mv', 'nd', 'ptr', 'carr'):
            return fused_name(t[1])
    return None


_yield_cache = {}


def has_yield(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


_ln_cache = {}


def local_names(node):
    r = _ln_cache.get(id(node))
    if r is None:
        out = set()
        glob = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    out.add(c.id)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for x in c.names:
                        out.add((x.asname or x.name).split('.')[0])
                if isinstance(c, ast.ExceptHandler) and c.name:
                    out.add(c.name)
                walk(c)
        if not isinstance(node, ast.Lambda):
            walk(node)
        r = out - glob
        _ln_cache[id(node)] = (r, node)
        return r
    return r[0]


_src_cache = {}


def load_source(path, name):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    r = _src_cache.get(key)
    if r is None:
        r = front.load(path, name)
        _src_cache[key] = r
    return r


import builtins as _b
EXC = {n: ExcClass(getattr(_b, n)) for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


class UFuncTypeError(TypeError):
    pass


EXC['UFuncTypeError'] = ExcClass(UFuncTypeError)

DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
          ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
          ast.LShift: 'lshift', ast.RShift: 'rshift'}
UF = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply', ast.Div: 'divide', ast.FloorDiv: 'floor_divide',
      ast.Mod: 'remainder', ast.Pow: 'power', ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or',
      ast.BitXor: 'bitwise_xor', ast.LShift: 'left_shift', ast.RShift: 'right_shift', ast.MatMult: 'matmul'}

STMT = {getattr(ast, k[2:], None) or getattr(front, k[2:]): v for k, v in vars(Interp).items()
        if k.startswith('s_')}
EXPR = {getattr(ast, k[2:], None) or getattr(front, k[2:]): v for k, v in vars(Interp).items()
        if k.startswith('e_')}
