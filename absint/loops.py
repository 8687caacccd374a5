"""Loops: short ones are unrolled, the others are summarised by one symbolic iteration."""
import ast
from fractions import Fraction
from .terms import (ATOMS, AnalysisError, FALSE, ONE, Poly, Subst, TRUE, Tree, ZERO, atom_poly, cmp_eq, cmp_ge, cmp_gt,
                    const, leaf, lin_split, mk_atom, padd, pfloordiv, pmul, pneg, poly_is_int, psub, sym, t_and, t_ite,
                    t_not, t_or, tadd, tmap, tmul, tsub, ptrunc)
from . import arrays as A
from .facts import EMPTY
from .vals import *

MAX_PASSES = 14


def _i():
    from . import interp
    return interp


def body_flags(body):
    """(has break, has continue) of this loop itself."""
    brk = cont = False

    def walk(n):
        nonlocal brk, cont
        if isinstance(n, ast.Break):
            brk = True
        elif isinstance(n, ast.Continue):
            cont = True
        elif isinstance(n, (ast.For, ast.While)):
            for x in n.orelse:
                walk(x)
            return
        elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return brk, cont


def assigned_names(nodes):
    out = []
    seen = set()

    def add(x):
        if x not in seen:
            seen.add(x)
            out.append(x)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
        if type(n).__name__ == 'CDecl':
            add(n.name)
    for n in nodes:
        walk(n)
    return out


# ------------------------------------------------------------------ for

def exec_for(I, s):
    it = I.settle(I.eval(s.iter))
    if isinstance(it, Choice):
        r = I.choose(it, lambda v: _for(I, s, v))
        return
    _for(I, s, it)


def _for(I, s, it):
    M = _i()
    if isinstance(it, RangeV):
        n = I.libs.length(I, it)
        c = I.concrete(n)
        parallel = getattr(it, 'parallel', False)
        fn = I.fns[-1]
        small = M.SMALL_UNROLL if fn.is_c else M.PY_UNROLL
        if c is not None and (c <= small and not parallel or c <= 0):
            items = [_range_item(I, it, k) for k in range(int(c))]
            return unroll(I, s, items)
        try:
            return parametric(I, s, it, n, parallel)
        except M.NeedUnroll as e:
            if c is not None and c <= M.MAX_UNROLL and not parallel:
                items = [_range_item(I, it, k) for k in range(int(c))]
                return unroll(I, s, items)
            if I.loops and any(L is not None for L in I.loops):
                raise
            I.fail('loop cannot be summarised: %s' % e.why)
    if isinstance(it, Opaque) and it.kind == 'ndindex':
        items = I.iterate(it)
    else:
        items = I.iterate(it)
    unroll(I, s, list(items))


def _range_item(I, it, k):
    v = I.num_binop(ast.Add, it.start, I.num_binop(ast.Mult, num(k), it.step))
    return Num(v.t, it.start.ty if not it.start.c else v.ty, v.c)


class Snapshot:
    """What has to be restored when a pass is repeated."""

    def __init__(self, I):
        self.st = I.st
        self.heap = dict(I.st.heap)
        self.facts = I.st.facts
        self.rels = list(I.st.rels)
        self.ev = len(I.events)
        self.comp = len(I.computes)
        self.calls = len(I.calls)
        self.obl = dict(I.obligations)
        self.hand = [len(h.out) for h in I.handlers]
        self.nh = len(I.handlers)
        self.nf = len(I.fns)
        self.nl = len(I.loops)
        self.depth = I.call_depth
        f = I.fns[-1]
        self.rets = len(f.returns.out) if f.returns is not None else 0
        self.brk = [None if b is None else len(b.out) for b in f.breaks]
        self.cnt = [None if b is None else len(b.out) for b in f.continues]
        self.ctypes = dict(f.ctypes)

    def restore(self, I):
        I.st = _i().State(dict(self.heap), self.facts, list(self.rels))
        del I.events[self.ev:]
        del I.computes[self.comp:]
        del I.calls[self.calls:]
        I.obligations = dict(self.obl)
        del I.handlers[self.nh:]
        for h, n in zip(I.handlers, self.hand):
            del h.out[n:]
        del I.fns[self.nf:]
        del I.loops[self.nl:]
        I.call_depth = self.depth
        f = I.fns[-1]
        if f.returns is not None:
            del f.returns.out[self.rets:]
        del f.breaks[len(self.brk):]
        del f.continues[len(self.cnt):]
        for b, n in zip(f.breaks, self.brk):
            if b is not None:
                del b.out[n:]
        for b, n in zip(f.continues, self.cnt):
            if b is not None:
                del b.out[n:]
        f.ctypes.clear()
        f.ctypes.update(self.ctypes)


def collapse(I, level):
    r = I.st.rels
    I.st.rels = r[:level - 1] + [t_and(r[level - 1], r[level])]


def unroll(I, s, items, step=None):
    """Iterate over known items (or while step() gives an item)."""
    M = _i()
    fn = I.fns[-1]
    brk, cont = body_flags(s.body)
    snap = Snapshot(I)
    if not brk and not cont:
        fn.breaks.append(M.Collector(0))
        fn.continues.append(M.Collector(0))
        try:
            for it in items:
                I.assign(s.target, it)
                I.block(s.body)
        finally:
            fn.breaks.pop()
            fn.continues.pop()
        if s.orelse:
            I.block(s.orelse)
        return
    base = I.st
    level = len(base.rels)
    I.st = M.State(dict(base.heap), base.facts, base.rels + [TRUE])
    bcol = M.Collector(level)
    fn.breaks.append(bcol)
    alive = True
    try:
        for it in items:
            ccol = M.Collector(level)
            fn.continues.append(ccol)
            try:
                I.assign(s.target, it)
                I.block(s.body)
                ccol.out.append((I.st.rel_since(level), None, I.st))
            except M.Dead:
                pass
            finally:
                fn.continues.pop()
            if not ccol.out:
                alive = False
                break
            I.merge_outcomes(base, level, ccol.out)
    finally:
        fn.breaks.pop()
    outs = list(bcol.out)
    if alive:
        ok = True
        if s.orelse:
            try:
                I.block(s.orelse)
            except M.Dead:
                ok = False
        if ok:
            outs.append((I.st.rel_since(level), None, I.st))
    if not outs:
        I.st = base
        raise M.Dead()
    I.merge_outcomes(base, level, outs)
    collapse(I, level)


# ------------------------------------------------------------------ summaries

def int_ty(I, rng):
    a, b = rng.start, rng.stop
    return I.num_type(ast.Add, a, b)


def parametric(I, s, rng, n, parallel):
    M = _i()
    fn = I.fns[-1]
    stp = I.concrete(rng.step)
    if stp is None or stp == 0:
        raise M.NeedUnroll('step')
    trip = I.simp(n.t)
    # without the max(0, .): the number of iterations may come out negative
    raw = raw_trip(rng, stp)
    lo = ZERO
    hi_t = tsub(raw, leaf(ONE))
    hi = I.poly(I.simp(hi_t), 'number of iterations')
    ty, c = int_ty(I, rng)
    if I.concrete(rng.start) is not None or True:
        start = rng.start.t
        if start.cond is not None or -1 in start.syms:
            start = leaf(I.poly(start, 'start of a loop'))
        start = start.leaf
    if stp == 1:
        lo, hi = start, padd(start, hi)
    name = s.target.id if isinstance(s.target, ast.Name) else 'k'
    llo = lo.value if lo.is_const else None
    var = sym(name, True, llo, hi.value if hi.is_const else None)
    A.LOOP_SYMS.add(var.atoms()[0].id)
    val = var if stp == 1 else padd(start, pmul(const(stp), var))
    item = Num(val, ty, c)
    ct = fn.ctypes.get(name) if isinstance(s.target, ast.Name) else None
    if fn.is_c and ct is None and isinstance(s.target, ast.Name) and not c:
        pass

    def start_iter():
        I.assign(s.target, item)
    summarise(I, s, var, lo, hi, start_iter, parallel, target_names(s.target))
    if s.orelse:
        I.block(s.orelse)


def raw_trip(rng, stp):
    """ceil((stop - start) / step), possibly negative."""
    d = tsub(rng.stop.t, rng.start.t)
    if stp == 1:
        return d
    return tmap(lambda p: pneg(pfloordiv(p, const(-stp))) if stp > 0 else pfloordiv(pneg(p), const(-stp)) if False else
                pneg(pfloordiv(p, const(-stp))), d)


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


class Carry(Exception):
    pass


def set_frame(I, d):
    I.put(I.fns[-1].frame, d)


def summarise(I, s, var, lo, hi, start_iter, parallel, targets, cond_expr=None):
    """One symbolic iteration var in lo..hi stands for the loop."""
    M = _i()
    fn = I.fns[-1]
    nonempty = I.simp(cmp_ge(psub(hi, lo)))
    if nonempty is FALSE:
        return
    names = [x for x in assigned_names(s.body) if x not in targets]
    names = [x for x in names if x not in fn.globals and x not in fn.nonlocals]
    for x in assigned_names(s.body):
        if x in fn.globals or x in fn.nonlocals:
            raise M.NeedUnroll('outer variable assigned in a loop')
    snap = Snapshot(I)
    before = dict(I.get(fn.frame))
    wrapped = set()
    carried = {}           # name -> value at the start of an iteration
    probes = {}            # name -> probe symbol
    for npass in range(MAX_PASSES):
        L = M.LoopCtx(wrapped, parallel)
        L.var, L.lo = var, lo
        L.used = set()
        L.depth = len(I.loops)
        L.read_log = []
        d = dict(before)
        for x in names:
            if x in carried:
                d[x] = carried[x]
            elif x in before:
                v = before[x]
                d[x] = M.CarryRef(v if not isinstance(v, M.CarryRef) else v.value, L, x)
        f = I.st.facts.assume(cmp_ge(psub(var, lo)))
        f = f.assume(cmp_ge(psub(hi, var))) if f is not None else None
        if f is None:
            snap.restore(I)
            return
        heap = dict(I.st.heap)
        for oid in wrapped:
            b = A.LoopBase(heap[oid], var, lo)
            L.bases[oid] = b
            heap[oid] = b
        base_rels = list(I.st.rels)
        I.st = M.State(heap, f, base_rels + [TRUE])
        level = len(base_rels)
        set_frame(I, d)
        I.loops.append(L)
        fn.breaks.append(None)
        ccol = M.Collector(level)
        fn.continues.append(ccol)
        pstate = I.st.copy()
        try:
            try:
                start_iter()
                I.block(s.body)
                ccol.out.append((I.st.rel_since(level), None, I.st))
            except M.Dead:
                pass
            if not ccol.out:
                raise M.NeedUnroll('no iteration completes')
            for h, k in zip(I.handlers, snap.hand):
                if len(h.out) > k:
                    raise M.NeedUnroll('an exception may leave the loop')
            I.merge_outcomes(pstate, level, ccol.out)
        except M.LoopRestart as e:
            snap.restore(I)
            if e.ctx is not L:
                raise
            wrapped = set(L.wrapped) | {e.oid}
            continue
        except M.NeedUnroll:
            snap.restore(I)
            raise
        end = I.st
        frame_end = dict(end.heap[fn.frame.oid])
        used = set(L.used)
        for x in names:
            if x in frame_end and _has_carry(frame_end[x]):
                used.add(x)
        new = [x for x in names if x in used and x not in carried]
        if new:
            for x in new:
                v = before[x]
                if isinstance(v, M.CarryRef):
                    v.ctx.used.add(v.name)
                    v = v.value
                v = I.settle(v)
                if not isinstance(v, Num):
                    if _same_value(frame_end.get(x), v):
                        carried[x] = v
                        continue
                    snap.restore(I)
                    raise M.NeedUnroll('the variable %s is carried between iterations' % x)
                before[x] = v
                p = sym('~' + x, is_int_ty(v.ty))
                A.LOOP_SYMS.add(p.atoms()[0].id)
                probes[x] = p
                carried[x] = Num(p, v.ty if v.ty != 'bool' else 'int', v.c)
            wrapped = set(L.wrapped)
            snap.restore(I)
            continue
        if probes:
            # find out how the carried values evolve
            done = True
            pids = {p.atoms()[0].id: x for x, p in probes.items()}
            for x, p in list(probes.items()):
                nv = frame_end[x]
                if not isinstance(nv, Num):
                    snap.restore(I)
                    raise M.NeedUnroll('the variable %s changes its kind' % x)
                t = end.facts.simplify(nv.t)
                v0 = before[x]
                delta = end.facts.simplify(tsub(t, leaf(p)))
                ty = nv.ty if (v0.ty in WEAK and nv.ty in WEAK and nv.ty == 'float') else v0.ty
                if delta.cond is None and delta.leaf is ZERO:
                    val = v0.t
                elif delta.cond is None and not (set(delta.leaf.syms) & (set(pids) | {var.atoms()[0].id, -1})) \
                        and not (delta.leaf.syms & A.LOOP_SYMS - _outer_syms(I, var)):
                    val = tadd(v0.t, leaf(pmul(delta.leaf, psub(var, lo))))
                elif not (t.syms & set(pids)):
                    prev = Subst({var.atoms()[0]: psub(var, ONE)}).tree(t)
                    if -1 in t.syms and not _stable(t, L):
                        # values of buffers written by this loop, one iteration before
                        pass
                    val = t_ite(cmp_ge(psub(psub(var, lo), ONE)), prev, v0.t)
                else:
                    # depends on other carried values that are solved first
                    others = t.syms & set(pids) - {p.atoms()[0].id}
                    if others and not (delta.syms & {p.atoms()[0].id}):
                        done = False
                        continue
                    snap.restore(I)
                    raise M.NeedUnroll('the variable %s is carried between iterations' % x)
                if parallel and not (delta.cond is None and delta.leaf is ZERO):
                    I.event('race', 'the variable %s is carried between the iterations of a parallel loop' % x)
                carried[x] = Num(val, ty, v0.c)
                del probes[x]
            if probes and len(probes) == len(pids):
                snap.restore(I)
                raise M.NeedUnroll('carried variables')
            wrapped = set(L.wrapped)
            ev = [e for e in I.events[snap.ev:] if e['kind'] == 'race']
            snap.restore(I)
            I.events.extend(ev)
            snap.ev = len(I.events)
            continue
        # a finished pass
        changed = _changed_objects(I, snap, end, fn, L)
        if changed:
            snap.restore(I)
            raise M.NeedUnroll('an object is changed in a loop: %s' % changed)
        if parallel:
            check_parallel(I, L, end, var, lo, hi)
        finish(I, snap, L, end, fn, before, frame_end, names, targets, carried, var, lo, hi, nonempty, parallel)
        return
    I.fail('the summary of a loop does not converge')


def _outer_syms(I, var):
    """Loop variables of the loops around."""
    out = set()
    for L in I.loops:
        if L is not None and L.var is not None and L.var is not var:
            out.add(L.var.atoms()[0].id)
    return out


def _stable(t, L):
    return False


def _same_value(a, b):
    if a is b:
        return True
    M = _i()
    if isinstance(a, M.CarryRef):
        return a.value is b
    return False


def _has_carry(v):
    M = _i()
    if isinstance(v, M.CarryRef):
        return False           # untouched
    if isinstance(v, Choice):
        return isinstance(v.a, M.CarryRef) or isinstance(v.b, M.CarryRef) or _has_carry(v.a) or _has_carry(v.b)
    if isinstance(v, tuple):
        return any(isinstance(x, M.CarryRef) or _has_carry(x) for x in v)
    return False


def _changed_objects(I, snap, end, fn, L):
    for oid, v in snap.heap.items():
        w = end.heap.get(oid)
        if w is v or oid == fn.frame.oid:
            continue
        if isinstance(w, A.Content):
            if oid in L.wrapped:
                continue
            return 'array contents'
        if isinstance(v, dict) and isinstance(w, dict) and set(v) == set(w) and all(_eqv(v[k], w[k]) for k in v):
            continue
        if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) and all(_eqv(a, b) for a, b in zip(v, w)):
            continue
        return repr(type(v))
    return None


def _eqv(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.t is b.t and a.ty == b.ty
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int)) and a == b:
        return True
    return False


def finish(I, snap, L, end, fn, before, frame_end, names, targets, carried, var, lo, hi, nonempty, parallel):
    M = _i()
    va = var.atoms()[0]
    heap = dict(snap.heap)
    for oid, v in end.heap.items():
        if oid not in heap and oid not in L.wrapped:
            heap[oid] = v
    for oid in L.wrapped:
        if oid not in snap.heap:
            heap[oid] = end.heap[oid]
            continue
        body = end.heap[oid]
        base = L.bases[oid]
        if body is base:
            continue
        heap[oid] = A.Loop(base, body, hi, parallel=parallel)
    I.st = M.State(heap, snap.facts, list(snap.rels))
    while I.loops and I.loops[-1] is not L:
        I.loops.pop()
    I.loops.pop()
    fn.breaks.pop()
    fn.continues.pop()
    # outer loops see these buffers as wrapped or as new
    sub = Subst({va: hi})
    d = dict(before)
    for x in list(targets) + names:
        v = frame_end.get(x, M.UNBOUND)
        if v is M.UNBOUND or isinstance(v, M.CarryRef):
            continue
        old = before.get(x, M.UNBOUND)
        if isinstance(old, M.CarryRef) and nonempty is not TRUE:
            old = old.value
        if isinstance(v, Num):
            t = v.t
            if va.id in t.syms or True:
                t = sub.tree(t)
            t = I.st.facts.simplify(t) if -1 not in t.syms else t
            new = Num(t, v.ty, v.c)
        elif _free_of_var(v, va):
            new = v
        else:
            new = Poison('loop: the value of %s after a loop' % x)
        if nonempty is TRUE:
            d[x] = new
        elif old is M.UNBOUND:
            ct = fn.ctypes.get(x)
            if isinstance(ct, str) and isinstance(new, Num):
                # a C variable: its value is undefined if the loop does not run
                und = leaf(atom_poly(mk_atom('uninit', ('var ' + x, fn.frame.oid, ()), is_int_ty(ct))))
                d[x] = Num(t_ite(nonempty, new.t, und), new.ty, True)
            else:
                d[x] = Choice(nonempty, new, M.UNBOUND)
        else:
            d[x] = I.merge_values(nonempty, new, old)
    set_frame(I, d)


def _free_of_var(v, a):
    if isinstance(v, (str, type(None), Lib, FuncV, ClassV, ModV, Builtin)):
        return True
    if isinstance(v, Arr):
        if v.buf.depth > 10 ** 6:
            return False
        return not any(a.id in x.syms for m in v.map for x in m if isinstance(x, Poly)) and \
            not any(a.id in x.syms for x in v.shape)
    if isinstance(v, tuple):
        return all(_free_of_var(x, a) for x in v)
    if isinstance(v, Num):
        return a.id not in v.t.syms
    return False


def check_parallel(I, L, end, var, lo, hi):
    """The iterations of a parallel loop must not write what another one writes or reads."""
    va = var.atoms()[0]
    v2 = sym("i'", True, lo.value if lo.is_const else None)
    A.LOOP_SYMS.add(v2.atoms()[0].id)
    for oid in L.wrapped:
        base = L.bases.get(oid)
        body = end.heap.get(oid)
        if base is None or body is None or body is base:
            continue
        try:
            recs = A.flatten(body, base)
        except AnalysisError:
            I.event('race', 'writes of a parallel loop cannot be told apart')
            continue
        I.obligations[('race', I.loc()[0], I.loc()[1], 'parallel')] = \
            I.obligations.get(('race', I.loc()[0], I.loc()[1], 'parallel'), 0) + len(recs)
        f = I.st.facts
        for r in recs:
            # the same cell from another iteration
            sub = {va: v2}
            g = f.assume(cmp_ge(psub(v2, lo)))
            g = g.assume(cmp_ge(psub(hi, v2))) or g
            inner = {}
            for v, l, h, o in r.vars:
                w = sym("j'", True)
                inner[v.atoms()[0]] = w
                A.LOOP_SYMS.add(w.atoms()[0].id)
            sub.update(inner)
            S = Subst(sub)
            target = [S.tree(A._t(e)) for e in r.index]
            for r2 in recs:
                if not _own(A.Record(((var, lo, hi, L),) + tuple(r2.vars), r2.index, r2.guard, r2.value), target, v2, g, L):
                    I.event('race', 'two iterations of a parallel loop write the same cell', where=r.where)
                    break
        for buf, idx, facts, where in L.read_log:
            if buf.oid != oid:
                continue
            for r in recs:
                if not _own(A.Record(((var, lo, hi, L),) + tuple(r.vars), r.index, r.guard, r.value),
                            [leaf(i) for i in idx], var, facts, L, rename=(va, v2)):
                    I.event('race', 'an iteration of a parallel loop reads what another one writes', where=where)
                    break


def _own(rec, target, v, f, L, rename=None):
    try:
        if rename is not None:
            S = Subst({rename[0]: rename[1]})
            target = [S.tree(t) for t in target]
            v = rename[1]
            f2 = EMPTY
            f = f2
        if any(t.cond is not None for t in target):
            return False
        hit, val, sol = A.solve_full(rec, [t.leaf for t in target], None, f)
    except (A.Unsolved, AnalysisError):
        return False
    if hit is FALSE:
        return True
    return sol.get(L) is v


# ------------------------------------------------------------------ while

def exec_while(I, s):
    M = _i()
    fn = I.fns[-1]
    limit = 12 if fn.is_c else 64
    snap = Snapshot(I)
    try:
        if try_unroll_while(I, s, limit):
            return
    except M.NeedUnroll:
        pass
    snap.restore(I)
    try:
        return while_parametric(I, s)
    except M.NeedUnroll as e:
        snap.restore(I)
        why = e.why
    if try_unroll_while(I, s, M.MAX_UNROLL):
        return
    if any(L is not None for L in I.loops):
        snap.restore(I)
        raise M.NeedUnroll('while')
    I.fail('while loop cannot be summarised: %s' % why)


def try_unroll_while(I, s, limit):
    """Unroll as long as the condition is decided."""
    M = _i()
    fn = I.fns[-1]
    base = I.st
    level = len(base.rels)
    I.st = M.State(dict(base.heap), base.facts, base.rels + [TRUE])
    bcol = M.Collector(level)
    fn.breaks.append(bcol)
    alive = True
    done = False
    try:
        for k in range(limit + 1):
            c = I.cond(s.test)
            d = I.decide(c)
            if d is None:
                return False
            if d is False:
                done = True
                break
            if k == limit:
                return False
            ccol = M.Collector(level)
            fn.continues.append(ccol)
            try:
                I.block(s.body)
                ccol.out.append((I.st.rel_since(level), None, I.st))
            except M.Dead:
                pass
            finally:
                fn.continues.pop()
            if not ccol.out:
                alive = False
                done = True
                break
            I.merge_outcomes(base, level, ccol.out)
    finally:
        fn.breaks.pop()
    if not done:
        return False
    outs = list(bcol.out)
    if alive:
        ok = True
        if s.orelse:
            try:
                I.block(s.orelse)
            except M.Dead:
                ok = False
        if ok:
            outs.append((I.st.rel_since(level), None, I.st))
    if not outs:
        I.st = base
        raise M.Dead()
    I.merge_outcomes(base, level, outs)
    collapse(I, level)
    return True


def while_parametric(I, s):
    M = _i()
    fn = I.fns[-1]
    brk, cont = body_flags(s.body)
    if brk:
        raise M.NeedUnroll('break in a while loop')
    names = assigned_names(s.body)
    before = dict(I.get(fn.frame))
    snap = Snapshot(I)
    # probe: which variables evolve linearly
    probes = {}
    d = dict(before)
    for x in names:
        v = before.get(x)
        if isinstance(v, M.CarryRef):
            v.ctx.used.add(v.name)
            v = v.value
        v = I.settle(v) if v is not None else v
        if isinstance(v, Num):
            p = sym('~' + x, is_int_ty(v.ty))
            A.LOOP_SYMS.add(p.atoms()[0].id)
            probes[x] = (p, v)
            d[x] = Num(p, v.ty if v.ty != 'bool' else 'int', v.c)
    k = sym('k', True, 0)
    A.LOOP_SYMS.add(k.atoms()[0].id)
    L = M.LoopCtx(set(), False)
    L.var, L.lo, L.used, L.depth, L.read_log = k, ZERO, set(), len(I.loops), []
    incs = {}
    wrapped = set()
    for attempt in range(MAX_PASSES):
        heap = dict(I.st.heap)
        L = M.LoopCtx(wrapped, False)
        L.var, L.lo, L.used, L.depth, L.read_log = k, ZERO, set(), len(I.loops), []
        for oid in wrapped:
            b = A.LoopBase(heap[oid], k, ZERO)
            L.bases[oid] = b
            heap[oid] = b
        I.st = M.State(heap, I.st.facts, I.st.rels + [TRUE])
        level = len(I.st.rels) - 1
        set_frame(I, d)
        I.loops.append(L)
        fn.breaks.append(None)
        ccol = M.Collector(level)
        fn.continues.append(ccol)
        try:
            c = I.cond(s.test)
            if not I.st.assume(c):
                break
            ps = I.st.copy()
            try:
                I.block(s.body)
                ccol.out.append((I.st.rel_since(level), None, I.st))
            except M.Dead:
                pass
            if not ccol.out:
                raise M.NeedUnroll('no iteration completes')
            I.merge_outcomes(ps, level, ccol.out)
            fe = I.get(fn.frame)
            for x, (p, v0) in probes.items():
                nv = fe.get(x)
                if isinstance(nv, Num):
                    delta = I.st.facts.simplify(tsub(nv.t, leaf(p)))
                    if delta.cond is None and delta.leaf.is_const or (
                            delta.cond is None and not (delta.leaf.syms & {q.atoms()[0].id for q, _ in probes.values()})
                            and -1 not in delta.leaf.syms):
                        incs[x] = delta.leaf
            break
        except M.LoopRestart as e:
            snap.restore(I)
            if e.ctx is not L:
                raise
            wrapped = set(L.wrapped) | {e.oid}
            continue
        finally:
            pass
    snap.restore(I)
    # the condition with the evolving variables
    d = dict(before)
    for x, inc in incs.items():
        v0 = probes[x][1]
        d[x] = Num(tadd(v0.t, leaf(pmul(inc, k))), v0.ty, v0.c)
    I.st = M.State(dict(I.st.heap), I.st.facts, I.st.rels + [TRUE])
    set_frame(I, d)
    c = I.simp(I.cond(s.test))
    snap.restore(I)
    hi = last_iteration(I, c, k)
    if hi is None:
        raise M.NeedUnroll('the number of iterations of a while loop')
    var = sym('k', True, 0, hi.value if hi.is_const else None)
    A.LOOP_SYMS.add(var.atoms()[0].id)
    w = Wh(s)

    def start():
        f = dict(I.get(fn.frame))
        for x, inc in incs.items():
            v0 = probes[x][1]
            f[x] = Num(tadd(v0.t, leaf(pmul(inc, var))), v0.ty, v0.c)
        set_frame(I, f)
    # names with a known evolution are like loop targets
    summarise(I, w, var, ZERO, hi, start, False, list(incs))
    # their values after the loop
    f = dict(I.get(fn.frame))
    trip = I.simp(t_ite(cmp_ge(hi), leaf(padd(hi, ONE)), leaf(ZERO)))
    for x, inc in incs.items():
        v0 = probes[x][1]
        f[x] = Num(tadd(v0.t, tmul(leaf(inc), trip)), v0.ty, v0.c)
    set_frame(I, f)
    if s.orelse:
        I.block(s.orelse)


class Wh:
    def __init__(self, s):
        self.body = s.body
        self.orelse = []


def last_iteration(I, c, k):
    """The largest k up to which the condition holds (it holds for 0..k)."""
    ka = k.atoms()[0]
    if c is FALSE:
        return const(-1)
    if c is TRUE or c.cond is None:
        return None

    def lit(t):
        """(atom, polarity) chain of a conjunction of literals."""
        if t.cond is None:
            return None
        if t.hi is TRUE and t.lo is FALSE:
            return [(t.cond, True)]
        if t.hi is FALSE and t.lo is TRUE:
            return [(t.cond, False)]
        if t.lo is FALSE:
            r = lit(t.hi)
            return None if r is None else [(t.cond, True)] + r
        if t.hi is FALSE:
            r = lit(t.lo)
            return None if r is None else [(t.cond, False)] + r
        return None
    ls = lit(c)
    if ls is None:
        # k != bound: two inequalities the other way round
        n = I.simp(t_not(c))
        ls2 = lit(n)
        if ls2 is None:
            return None
        eqs = []
        for a, pol in ls2:
            p = a.args[0] if a.kind == 'ge' else None
            if p is None:
                return None
            eqs.append(p if pol else psub(pneg(p), ONE))
        if len(eqs) == 2 and padd(eqs[0], eqs[1]) is ZERO:
            sp = lin_split(eqs[0], ka.id)
            if sp is None or not sp[0].is_const or abs(sp[0].value) != 1:
                return None
            root = pmul(pneg(sp[1]), const(sp[0].value))
            if not I.st.facts.prove_ge(root):
                return None
            return psub(root, ONE)
        return None
    his = []
    for a, pol in ls:
        if a.kind not in ('ge', 'gt'):
            if ka.id in a.syms if hasattr(a, 'syms') else True:
                return None
            continue
        p = a.args[0]
        if a.kind == 'ge':
            q = p if pol else psub(pneg(p), ONE)      # q >= 0
            strict = False
        else:
            q = p if pol else pneg(p)
            strict = pol
        sp = lin_split(q, ka.id)
        if sp is None:
            return None
        co, rest = sp
        if co is ZERO:
            return None
        if not co.is_const or co.value > 0:
            if co.is_const and I.st.facts.prove_ge(rest):
                continue
            return None
        if ka.id in rest.syms:
            return None
        if strict and not poly_is_int(q):
            # rest + co*k > 0  <=>  k < rest/-co
            h = psub(pneg(pfloordiv(pneg(rest), const(-co.value))), ONE)
        else:
            h = pfloordiv(rest, const(-co.value))
        his.append(h)
    if len(his) != 1:
        return None
    return his[0]
