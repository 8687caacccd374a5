"""Front end: Python and Cython sources to one syntax tree (Python's ast, with C types)."""
import ast
import os
from .terms import AnalysisError


class CDecl(ast.stmt):
    """cdef TYPE name [= value]"""
    _fields = ('value',)


class CCast(ast.expr):
    _fields = ('operand',)


class Module:
    def __init__(self, name, path, tree, is_cython, source):
        self.name, self.path, self.tree, self.is_cython = name, path, tree, is_cython
        self.lines = source.splitlines()
        self.ctypes = {}
        self.functions = []


BASIC = {
    'int': 'i4', 'short': 'i2', 'char': 'i1', 'long': 'i8', 'Py_ssize_t': 'i8', 'ssize_t': 'i8', 'size_t': 'u8',
    'float': 'f4', 'double': 'f8', 'bint': 'b1', 'npy_intp': 'i8', 'intp_t': 'i8', 'uintp_t': 'u8',
    'float32_t': 'f4', 'float64_t': 'f8', 'int8_t': 'i1', 'int16_t': 'i2', 'int32_t': 'i4', 'int64_t': 'i8',
    'uint8_t': 'u1', 'uint16_t': 'u2', 'uint32_t': 'u4', 'uint64_t': 'u8', 'int_t': 'i8', 'float_t': 'f8',
    'double_t': 'f8', 'long_t': 'i8', 'Py_hash_t': 'i8', 'ptrdiff_t': 'i8',
}


def load(path, name):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    if path.endswith('.pyx'):
        return CythonFront(path, name, src).module()
    tree = ast.parse(src, path)
    m = Module(name, path, tree, False, src)
    return m


class CythonFront:
    def __init__(self, path, name, src):
        self.path, self.name, self.src = path, name, src
        self.fused = {}
        self.typedefs = {}

    def module(self):
        tree = self._parse(self.path, self.name, False)
        m = Module(self.name, self.path, None, True, self.src)
        pxd = self.path[:-4] + '.pxd'
        self.module_directives = dict(getattr(tree, 'directive_comments', None) or {})
        if os.path.exists(pxd):
            pt = self._parse(pxd, self.name, True)
            for st in self._flat(pt.body):
                if type(st).__name__ == 'FusedTypeNode':
                    self.fused[st.name] = tuple(self._basetype(t) for t in st.types)
        self.fused.setdefault('floating', ('f4', 'f8'))
        body = self.stats(tree.body)
        m.tree = ast.Module(body=body, type_ignores=[])
        m.fused = self.fused
        m.directives = self.module_directives
        return m

    def _parse(self, path, name, pxd):
        from Cython.Compiler import Errors, Options
        from Cython.Compiler.Main import CompilationOptions, Context
        from Cython.Compiler.Scanning import FileSourceDescriptor
        opts = CompilationOptions(Options.default_options, language_level=3)
        ctx = Context.from_options(opts)
        Errors.init_thread()
        sd = FileSourceDescriptor(path, path)
        scope = ctx.find_module(name, pos=(sd, 1, 0), need_pxd=0)
        with Errors.local_errors(ignore=True) as errs:
            tree = ctx.parse(sd, scope, pxd=pxd, full_module_name=name)
        if errs:
            raise AnalysisError('%s: %s' % (path, errs[0]))
        return tree

    # ------------------------------------------------------------------ helpers
    def at(self, new, old):
        pos = getattr(old, 'pos', None)
        new.lineno = pos[1] if pos else 0
        new.col_offset = pos[2] if pos else 0
        new.end_lineno = new.lineno
        new.end_col_offset = new.col_offset
        return new

    def fail(self, n, what=None):
        pos = getattr(n, 'pos', None)
        raise AnalysisError('%s:%s: unsupported Cython construct %s %s' % (
            self.path, pos[1] if pos else '?', type(n).__name__, what or ''))

    def _flat(self, n):
        if n is None:
            return
        if type(n).__name__ == 'StatListNode':
            for s in n.stats:
                yield from self._flat(s)
        else:
            yield n

    # ------------------------------------------------------------------ types
    def _basetype(self, t):
        k = type(t).__name__
        if k == 'CSimpleBaseTypeNode':
            name = t.name
            if name is None:
                return None
            if name in self.fused:
                return ('fused', name)
            if name in self.typedefs:
                return self.typedefs[name]
            if name == 'int' and not t.signed:
                return {0: 'u4', 1: 'u8', 2: 'u8', -1: 'u2'}[t.longness]
            if name == 'int':
                return {0: 'i4', 1: 'i8', 2: 'i8', -1: 'i2'}[t.longness]
            if name == 'char' and not t.signed:
                return 'u1'
            if name == 'double':
                return 'f8'
            if name in BASIC:
                if t.is_basic_c_type or t.module_path or name in ('Py_ssize_t', 'bint', 'size_t', 'ssize_t'):
                    return BASIC[name]
            if name == 'void':
                return 'void'
            if name == 'floating':
                return ('fused', 'floating')
            return ('obj', name)
        if k == 'MemoryViewSliceTypeNode':
            elem = self._basetype(t.base_type_node)
            nd = len(t.axes)
            last = t.axes[-1]
            step = getattr(last, 'step', None)
            contig = step is not None and type(step).__name__ == 'IntNode' and step.value == '1'
            first = t.axes[0]
            step0 = getattr(first, 'step', None)
            fcontig = (not contig) and step0 is not None and type(step0).__name__ == 'IntNode'
            return ('mv', elem, nd, 'c' if contig else ('f' if fcontig else ''))
        if k == 'TemplatedTypeNode':
            base = t.base_type_node
            if getattr(base, 'name', None) == 'ndarray':
                elem = None
                nd = None
                if t.positional_args:
                    elem = self._type_of_expr(t.positional_args[0])
                kw = getattr(t, 'keyword_args', None)
                mode = ''
                if kw is not None:
                    for it in kw.key_value_pairs:
                        key = str(it.key.value)
                        if key == 'ndim':
                            nd = int(it.value.value)
                        elif key == 'dtype':
                            elem = self._type_of_expr(it.value)
                        elif key == 'mode':
                            mode = str(it.value.value)
                return ('nd', elem, nd or 1, mode)
            if len(t.positional_args) == 1 and type(t.positional_args[0]).__name__ in ('IntNode', 'NameNode'):
                return ('carr', self._basetype(base), self.expr(t.positional_args[0]))
            if getattr(base, 'name', None) in ('list', 'tuple', 'dict', 'set', 'Optional'):
                return ('obj', base.name)
            self.fail(t)
        if k == 'CComplexBaseTypeNode':
            return self._declarator(self._basetype(t.base_type), t.declarator)[1]
        if k == 'CTupleBaseTypeNode':
            return ('obj', 'tuple')
        if k in ('CConstTypeNode', 'CConstOrVolatileTypeNode', 'CQualifierTypeNode'):
            return self._basetype(t.base_type)
        self.fail(t)

    def _type_of_expr(self, e):
        k = type(e).__name__
        if k in ('CSimpleBaseTypeNode', 'MemoryViewSliceTypeNode', 'CComplexBaseTypeNode', 'CQualifierTypeNode'):
            return self._basetype(e)
        if k == 'NameNode':
            if e.name in self.fused:
                return ('fused', e.name)
            return BASIC.get(e.name, ('obj', e.name))
        if k == 'AttributeNode':
            return BASIC.get(e.attribute, ('obj', e.attribute))
        self.fail(e)

    def _declarator(self, base, d):
        """(name, type, default) of a declarator."""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, base, d.default
        if k == 'CPtrDeclaratorNode':
            n, t, df = self._declarator(base, d.base)
            return n, ('ptr', t), df
        if k == 'CArrayDeclaratorNode':
            n, t, df = self._declarator(base, d.base)
            return n, ('carr', t, self.expr(d.dimension) if d.dimension is not None else None), df
        self.fail(d)

    # ------------------------------------------------------------------ statements
    def stats(self, n):
        out = []
        for s in self._flat(n):
            r = self.stat(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def body(self, n):
        b = self.stats(n)
        if not b:
            b = [ast.Pass(lineno=0, col_offset=0, end_lineno=0, end_col_offset=0)]
        return b

    def stat(self, n):
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.fail(n)
        r = m(n)
        if isinstance(r, ast.AST):
            self.at(r, n)
        elif isinstance(r, list):
            for x in r:
                if not hasattr(x, 'lineno'):
                    self.at(x, n)
        return r

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.expr(n.expr))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            mod = str(n.rhs.module_name.value)
            lvl = n.rhs.level or 0
            top = not n.rhs.is_import_as_name
            asname = n.lhs.name
            if '.' in mod and top and asname == mod.split('.')[0]:
                return ast.Import(names=[ast.alias(name=mod, asname=None)])
            return ast.Import(names=[ast.alias(name=mod, asname=asname)])
        return ast.Assign(targets=[self.expr(n.lhs, ast.Store())], value=self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.expr(x, ast.Store()) for x in n.lhs_list], value=self.expr(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        return self.stats_list(n.stats)

    def stats_list(self, xs):
        out = []
        for s in xs:
            r = self.stat(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.expr(n.lhs, ast.Store()), op=BINOPS[n.operator](), value=self.expr(n.rhs))

    def s_ReturnStatNode(self, n):
        return ast.Return(self.expr(n.value) if n.value is not None else None)

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_DelStatNode(self, n):
        return ast.Delete([self.expr(a, ast.Del()) for a in n.args])

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.expr(n.condition), msg=None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_IfStatNode(self, n):
        orelse = self.stats(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            t = ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=orelse)
            self.at(t, c)
            orelse = [t]
        return orelse[0]

    def s_WhileStatNode(self, n):
        return ast.While(test=self.expr(n.condition), body=self.body(n.body),
                         orelse=self.stats(n.else_clause) if n.else_clause is not None else [])

    def s_ForInStatNode(self, n):
        return ast.For(target=self.expr(n.target, ast.Store()), iter=self.expr(n.iterator.sequence),
                       body=self.body(n.body), orelse=self.stats(n.else_clause) if n.else_clause is not None else [])

    def s_ForFromStatNode(self, n):
        # for i from a <= i < b
        lo, hi = self.expr(n.bound1), self.expr(n.bound2)
        one = self.at(ast.Constant(1), n)
        if n.relation1 == '<':
            lo = self.at(ast.BinOp(lo, ast.Add(), one), n)
        if n.relation2 == '<=':
            hi = self.at(ast.BinOp(hi, ast.Add(), one), n)
        args = [lo, hi] + ([self.expr(n.step)] if n.step is not None else [])
        call = self.at(ast.Call(func=self.at(ast.Name('range', ast.Load()), n), args=args, keywords=[]), n)
        return ast.For(target=self.expr(n.target, ast.Store()), iter=call, body=self.body(n.body), orelse=[])

    def s_GILStatNode(self, n):
        return self.body(n.body)

    def s_GILExitNode(self, n):
        return None

    def s_WithStatNode(self, n):
        m = n.manager
        f = m
        if type(m).__name__ in ('SimpleCallNode', 'GeneralCallNode'):
            f = m.function
        name = getattr(f, 'name', None) or getattr(f, 'attribute', None)
        if name in ('parallel', 'nogil', 'gil'):
            return self.body(n.body)
        self.fail(n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            typ = None
            if c.pattern is not None:
                pats = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                es = [self.expr(p) for p in pats]
                typ = es[0] if len(es) == 1 else self.at(ast.Tuple(es, ast.Load()), c)
            name = getattr(c.target, 'name', None) if c.target is not None else None
            hs.append(self.at(ast.ExceptHandler(type=typ, name=name, body=self.body(c.body)), c))
        return ast.Try(body=self.body(n.body), handlers=hs,
                       orelse=self.stats(n.else_clause) if n.else_clause is not None else [], finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.body(n.body), handlers=[], orelse=[], finalbody=self.body(n.finally_clause))

    def s_CImportStatNode(self, n):
        return ast.Import(names=[ast.alias(name=str(n.module_name), asname=n.as_name)])

    def s_FromCImportStatNode(self, n):
        names = []
        for x in n.imported_names:
            nm, asn = x[1], x[2]
            if nm == 'floating':
                continue
            names.append(ast.alias(name=nm, asname=asn))
        r = ast.ImportFrom(module=str(n.module_name) or None, names=names, level=n.relative_level or 0)
        r.cimport = True
        return r

    def s_FromImportStatNode(self, n):
        names = []
        for nm, target in n.items:
            names.append(ast.alias(name=str(nm), asname=target.name))
        mod = n.module
        return ast.ImportFrom(module=str(mod.module_name.value) or None, names=names, level=mod.level or 0)

    def s_CVarDefNode(self, n):
        base = self._basetype(n.base_type)
        out = []
        for d in n.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            name, typ, default = self._declarator(base, d)
            r = CDecl()
            r.name, r.ctype = name, typ
            r.value = self.expr(default) if default is not None else None
            self.at(r, n)
            out.append(r)
        return out

    def s_CTypeDefNode(self, n):
        name, typ, _ = self._declarator(self._basetype(n.base_type), n.declarator)
        self.typedefs[name] = typ
        return None

    def s_CEnumDefNode(self, n):
        out, prev = [], None
        for it in n.items:
            if it.value is not None:
                v = self.expr(it.value)
            elif prev is None:
                v = ast.Constant(0)
            else:
                v = ast.BinOp(ast.Name(prev, ast.Load()), ast.Add(), ast.Constant(1))
            a = ast.Assign(targets=[ast.Name(it.name, ast.Store())], value=v)
            for x in ast.walk(a):
                self.at(x, it)
            out.append(a)
            prev = it.name
        if n.name:
            self.typedefs[n.name] = 'i4'
        return out

    def s_CStructOrUnionDefNode(self, n):
        return None

    def s_PropertyNode(self, n):
        self.fail(n)

    def s_ExprNode(self, n):
        self.fail(n)

    def s_WithNode(self, n):
        self.fail(n)

    def s_ReraiseStatNode(self, n):
        return ast.Raise(exc=None, cause=None)

    def s_FusedTypeNode(self, n):
        self.fused[n.name] = tuple(self._basetype(t) for t in n.types)
        return None

    def s_DefNode(self, n):
        return self._function(n, n.name, n.args, n.star_arg, n.starstar_arg, None, 'def')

    def s_CFuncDefNode(self, n):
        d = n.declarator
        ret = self._basetype(n.base_type)
        while type(d).__name__ == 'CPtrDeclaratorNode':
            d = d.base
            ret = ('ptr', ret)
        name = d.base.name
        return self._function(n, name, d.args, None, None, ret, 'cdef')

    def _function(self, n, name, args, star, starstar, ret, kind):
        a = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        types = {}
        for x in args:
            nm, typ, default = self._arg(x)
            if typ is not None:
                types[nm] = typ
            arg = self.at(ast.arg(arg=nm, annotation=None), x)
            d = self.expr(default) if default is not None and not isinstance(default, (int, str)) else None
            if getattr(x, 'kw_only', 0):
                a.kwonlyargs.append(arg)
                a.kw_defaults.append(d)
            else:
                a.args.append(arg)
                if d is not None:
                    a.defaults.append(d)
        if star is not None:
            a.vararg = self.at(ast.arg(arg=star.name, annotation=None), n)
        if starstar is not None:
            a.kwarg = self.at(ast.arg(arg=starstar.name, annotation=None), n)
        directives = dict(self.module_directives)
        decs = []
        for dnode in (n.decorators or []):
            d = dnode.decorator
            got = self._directive(d)
            if got is not None:
                directives.update(got)
            else:
                decs.append(self.expr(d))
        doc = getattr(n, 'doc', None)
        body = self.body(n.body)
        f = ast.FunctionDef(name=name, args=a, body=body, decorator_list=decs, returns=None, type_comment=None)
        f.type_params = []
        f.cy = {'types': types, 'ret': ret, 'kind': kind, 'directives': directives}
        return self.at(f, n)

    def _directive(self, d):
        """@cython.wraparound(False) and friends."""
        if type(d).__name__ in ('SimpleCallNode', 'GeneralCallNode'):
            f = d.function
            if type(f).__name__ == 'AttributeNode' and getattr(f.obj, 'name', None) == 'cython':
                args = d.args if type(d).__name__ == 'SimpleCallNode' else d.positional_args.args
                v = args[0].value if args else None
                return {f.attribute: v}
        if type(d).__name__ == 'AttributeNode' and getattr(d.obj, 'name', None) == 'cython':
            return {d.attribute: True}
        return None

    def _arg(self, x):
        if type(x).__name__ == 'PyArgDeclNode':
            return x.name, None, None
        base = x.base_type
        d = x.declarator
        bt = None
        name = None
        if type(d).__name__ == 'CNameDeclaratorNode' and not d.name:
            # untyped argument: the "type" is its name
            name = base.name
        else:
            bt = self._basetype(base)
            name, bt, _ = self._declarator(bt, d)
        return name, bt, x.default

    def s_CClassDefNode(self, n):
        body = self.body(n.body)
        c = ast.ClassDef(name=n.class_name, bases=[], keywords=[], body=body, decorator_list=[])
        c.type_params = []
        c.cy = True
        if n.bases is not None:
            c.bases = [self.expr(b) for b in n.bases.args]
        return c

    def s_PyClassDefNode(self, n):
        c = ast.ClassDef(name=n.name, bases=[self.expr(b) for b in (n.bases.args if n.bases is not None else [])],
                         keywords=[], body=self.body(n.body), decorator_list=[self.expr(d.decorator) for d in (n.decorators or [])])
        c.type_params = []
        return c

    def s_GlobalNode(self, n):
        return ast.Global(names=list(n.names))

    def s_NonlocalNode(self, n):
        return ast.Nonlocal(names=list(n.names))

    # ------------------------------------------------------------------ expressions
    def expr(self, n, ctx=None):
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.fail(n)
        r = m(n, ctx or ast.Load())
        return self.at(r, n)

    def e_NameNode(self, n, ctx):
        return ast.Name(id=n.name, ctx=ctx)

    def e_IntNode(self, n, ctx):
        return ast.Constant(int(n.value, 0) if isinstance(n.value, str) else int(n.value))

    def e_FloatNode(self, n, ctx):
        return ast.Constant(float(n.value))

    def e_BoolNode(self, n, ctx):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n, ctx):
        return ast.Constant(None)

    def e_EllipsisNode(self, n, ctx):
        return ast.Constant(Ellipsis)

    def e_UnicodeNode(self, n, ctx):
        return ast.Constant(str(n.value))

    def e_IdentifierStringNode(self, n, ctx):
        return ast.Constant(str(n.value))

    def e_StringNode(self, n, ctx):
        return ast.Constant(str(n.value))

    def e_BytesNode(self, n, ctx):
        return ast.Constant(bytes(n.value))

    def e_CharNode(self, n, ctx):
        return ast.Constant(ord(n.value))

    def e_JoinedStrNode(self, n, ctx):
        return ast.Constant('<formatted string>')

    def e_TupleNode(self, n, ctx):
        return ast.Tuple([self.expr(a, ctx) for a in n.args], ctx)

    def e_ListNode(self, n, ctx):
        return ast.List([self.expr(a, ctx) for a in n.args], ctx)

    def e_SetNode(self, n, ctx):
        return ast.Set([self.expr(a) for a in n.args])

    def e_DictNode(self, n, ctx):
        return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                        values=[self.expr(i.value) for i in n.key_value_pairs])

    def e_MergedDictNode(self, n, ctx):
        keys, values = [], []
        for d in n.keyword_args:
            if type(d).__name__ == 'DictNode':
                for i in d.key_value_pairs:
                    keys.append(self.expr(i.key))
                    values.append(self.expr(i.value))
            else:
                keys.append(None)
                values.append(self.expr(d))
        return ast.Dict(keys=keys, values=values)

    def e_AttributeNode(self, n, ctx):
        return ast.Attribute(value=self.expr(n.obj), attr=n.attribute, ctx=ctx)

    def e_IndexNode(self, n, ctx):
        return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ctx)

    def e_SliceIndexNode(self, n, ctx):
        s = ast.Slice(lower=self.expr(n.start) if n.start is not None and type(n.start).__name__ != 'NoneNode' else None,
                      upper=self.expr(n.stop) if n.stop is not None and type(n.stop).__name__ != 'NoneNode' else None,
                      step=None)
        self.at(s, n)
        return ast.Subscript(value=self.expr(n.base), slice=s, ctx=ctx)

    def e_SliceNode(self, n, ctx):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_SimpleCallNode(self, n, ctx):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n, ctx):
        args = self._posargs(n.positional_args)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for i in kw.key_value_pairs:
                    kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
            elif type(kw).__name__ == 'MergedDictNode':
                for d in kw.keyword_args:
                    if type(d).__name__ == 'DictNode':
                        for i in d.key_value_pairs:
                            kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
                    else:
                        kws.append(ast.keyword(arg=None, value=self.expr(d)))
            else:
                kws.append(ast.keyword(arg=None, value=self.expr(kw)))
        for k in kws:
            self.at(k, n)
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def _posargs(self, p):
        k = type(p).__name__
        if k == 'TupleNode':
            return [self.expr(a) for a in p.args]
        if k == 'AsTupleNode':
            return [self.at(ast.Starred(self.expr(p.arg), ast.Load()), p)]
        if k == 'AddNode':
            return self._posargs(p.operand1) + self._posargs(p.operand2)
        if k == 'MergedSequenceNode':
            out = []
            for a in p.args:
                if type(a).__name__ in ('TupleNode', 'ListNode'):
                    out.extend(self.expr(x) for x in a.args)
                else:
                    out.append(self.at(ast.Starred(self.expr(a), ast.Load()), a))
            return out
        return [self.at(ast.Starred(self.expr(p), ast.Load()), p)]

    def e_AsTupleNode(self, n, ctx):
        return ast.Call(func=self.at(ast.Name('tuple', ast.Load()), n), args=[self.expr(n.arg)], keywords=[])

    def e_StarredUnpackingNode(self, n, ctx):
        return ast.Starred(self.expr(n.target, ctx), ctx)

    def e_CondExprNode(self, n, ctx):
        return ast.IfExp(test=self.expr(n.condition), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def e_BoolBinopNode(self, n, ctx):
        op = ast.And() if n.operator == 'and' else ast.Or()
        return ast.BoolOp(op, [self.expr(n.operand1), self.expr(n.operand2)])

    def e_NotNode(self, n, ctx):
        return ast.UnaryOp(ast.Not(), self.expr(n.operand))

    def e_UnaryMinusNode(self, n, ctx):
        return ast.UnaryOp(ast.USub(), self.expr(n.operand))

    def e_UnaryPlusNode(self, n, ctx):
        return ast.UnaryOp(ast.UAdd(), self.expr(n.operand))

    def e_TildeNode(self, n, ctx):
        return ast.UnaryOp(ast.Invert(), self.expr(n.operand))

    def e_AmpersandNode(self, n, ctx):
        return ast.Call(func=self.at(ast.Name('__address_of__', ast.Load()), n), args=[self.expr(n.operand)], keywords=[])

    def e_AssignmentExpressionNode(self, n, ctx):
        return ast.NamedExpr(target=self.at(ast.Name(n.assignment.lhs.name, ast.Store()), n),
                             value=self.expr(n.rhs if n.rhs is not None else n.assignment.rhs))

    def e_SizeofTypeNode(self, n, ctx):
        t = self._declarator(self._basetype(n.base_type), n.declarator)[1]
        if not isinstance(t, str):
            self.fail(n)
        return ast.Constant(int(t[1:]))

    def e_PrimaryCmpNode(self, n, ctx):
        ops, comps = [CMPOPS[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMPOPS[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps)

    def _bin(self, n, ctx):
        return ast.BinOp(self.expr(n.operand1), BINOPS[n.operator](), self.expr(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = _bin
    e_BitwiseOrNode = _bin

    def e_TypecastNode(self, n, ctx):
        base = self._basetype(n.base_type)
        _, typ, _ = self._declarator(base, n.declarator)
        c = CCast()
        c.ctype = typ
        c.operand = self.expr(n.operand)
        return c

    def e_LambdaNode(self, n, ctx):
        f = n.def_node if getattr(n, 'def_node', None) is not None else n
        args = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        for x in n.args:
            nm, _, default = self._arg(x)
            args.args.append(self.at(ast.arg(arg=nm, annotation=None), x))
            if default is not None:
                args.defaults.append(self.expr(default))
        return ast.Lambda(args=args, body=self.expr(n.result_expr))

    def _comp(self, loop):
        """(generators, element expression nodes) of a comprehension loop nest."""
        gens = []
        n = loop
        while True:
            k = type(n).__name__
            if k == 'StatListNode' and len(n.stats) == 1:
                n = n.stats[0]
            elif k == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.expr(n.target, ast.Store()),
                                              iter=self.expr(n.iterator.sequence), ifs=[], is_async=0))
                n = n.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.expr(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            else:
                return gens, n

    def e_ComprehensionNode(self, n, ctx):
        gens, leaf = self._comp(n.loop)
        k = type(leaf).__name__
        if k == 'DictComprehensionAppendNode':
            return ast.DictComp(key=self.expr(leaf.dict_item.key), value=self.expr(leaf.dict_item.value), generators=gens)
        e = self.expr(leaf.expr)
        tname = getattr(n.type, 'name', '')
        if tname == 'set':
            return ast.SetComp(elt=e, generators=gens)
        return ast.ListComp(elt=e, generators=gens)

    def e_GeneratorExpressionNode(self, n, ctx):
        gens, leaf = self._comp(n.loop)
        k = type(leaf).__name__
        if k == 'ExprStatNode':
            leaf = leaf.expr
            k = type(leaf).__name__
        if k == 'YieldExprNode':
            return ast.GeneratorExp(elt=self.expr(leaf.arg), generators=gens)
        self.fail(leaf)

    def e_InlinedGeneratorExpressionNode(self, n, ctx):
        return self.expr(n.gen)

    def e_YieldExprNode(self, n, ctx):
        return ast.Yield(self.expr(n.arg) if n.arg is not None else None)

    def e_ImportNode(self, n, ctx):
        self.fail(n)


BINOPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
          '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}
CMPOPS = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'in': ast.In,
          'not_in': ast.NotIn, 'not in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot, 'is not': ast.IsNot,
          '<>': ast.NotEq}
