"""Front end: every source form of the repository is turned into Python `ast`.

* .py          -> `ast` directly (types come from the sibling .pxd, if any)
* .pyx / .pxd  -> Cython's own parser (parse only, nothing is compiled), then
                  converted node by node to `ast`
* .h macros    -> a small C expression parser (see cfront.py)

Extra conventions used in the converted trees:
  <T>x          -> __cast__('T', x)
  &x            -> __addr__(x)
  sizeof(T)     -> __sizeof__('T')
  cdef T x = e  -> AnnAssign(x, Constant('T'), e)
  'c' literals of char context stay Constant(str) (compared as chars)
"""
import ast
import os

SIG = '_sig'


class Unsupported(Exception):
    pass


class Sig(object):
    """static (C level) types of a function"""
    def __init__(self):
        self.kind = 'def'         # def | cdef | cpdef
        self.args = []            # [(name, type)]
        self.locals = {}
        self.ret = None           # C return type or None (object)
        self.exc = None           # exception clause text
        self.final = False

    def argtypes(self):
        return dict(self.args)


class ClassDecl(object):
    def __init__(self, name, bases=()):
        self.name = name
        self.bases = list(bases)
        self.attrs = {}           # name -> type
        self.readonly = set()
        self.public = set()
        self.methods = {}         # name -> Sig


class Decls(object):
    """contents of a .pxd (or of the cdef parts of a .pyx)"""
    def __init__(self):
        self.funcs = {}           # name -> Sig
        self.classes = {}         # name -> ClassDecl
        self.vars = {}            # name -> type
        self.externs = {}         # name -> (cname, Sig or type, header)
        self.cimports = {}        # local name -> (module, name or None)


# ---------------------------------------------------------------------------

def cython_parse(text, path, is_pxd=False):
    from io import StringIO
    from Cython.Compiler import Parsing, Errors
    from Cython.Compiler.Main import Context, CompilationOptions
    from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor
    opts = CompilationOptions(language_level=2)
    ctx = Context.from_options(opts)
    Errors.init_thread()
    Errors.open_listing_file(None)
    src = FileSourceDescriptor(path, path)
    scope = ctx.find_module('m', pos=(src, 1, 0), need_pxd=0)
    # textual include: resolved next to the including file
    here = os.path.dirname(path)

    def find_include_file(name, pos=None, source_file_path=None):
        return os.path.join(here, name)
    ctx.find_include_file = find_include_file
    sc = PyrexScanner(StringIO(text), src, source_encoding='utf-8',
                      scope=scope, context=ctx)
    return Parsing.p_module(sc, is_pxd, 'm')


_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq,
        '!=': ast.NotEq, 'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In,
        'not_in': ast.NotIn}
_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div,
        '//': ast.FloorDiv, '%': ast.Mod, '<<': ast.LShift, '>>': ast.RShift,
        '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '**': ast.Pow}


def type_str(base, decl=None):
    """canonical C type name of a Cython base type + declarator"""
    t = type(base).__name__
    if t == 'CSimpleBaseTypeNode':
        name = base.name or 'object'
        if base.is_basic_c_type:
            if name in ('int', 'char', 'short', 'float', 'double') or base.longness or base.signed != 1:
                if name == 'int' and base.longness == 1:
                    name = 'long'
                elif name == 'int' and base.longness == 2:
                    name = 'longlong'
                elif name == 'int' and base.longness == -1:
                    name = 'short'
                if base.signed == 0:
                    name = 'unsigned ' + name
                elif base.signed == 2 and name in ('char',):
                    name = 'schar'
        if base.module_path:
            name = '.'.join(base.module_path) + '.' + name
    elif t in ('CQualifierTypeNode', 'CConstOrVolatileTypeNode', 'CConstTypeNode'):
        name = type_str(base.base_type)
    elif t == 'MemoryViewSliceTypeNode':
        name = 'memview'
    elif t == 'TemplatedTypeNode':
        name = type_str(base.base_type_node)
    elif t == 'CComplexBaseTypeNode':
        name = type_str(base.base_type, base.declarator)
    elif t == 'CNestedBaseTypeNode':
        name = type_str(base.base_type) + '.' + base.name
    else:
        name = 'object'
    d = decl
    while d is not None:
        dt = type(d).__name__
        if dt == 'CPtrDeclaratorNode':
            name += '*'
            d = d.base
        elif dt == 'CArrayDeclaratorNode':
            name += '*'
            d = d.base
        elif dt == 'CFuncDeclaratorNode':
            d = d.base
        else:
            break
    return name


def decl_name(d):
    while d is not None:
        if type(d).__name__ == 'CNameDeclaratorNode':
            return d.name
        d = d.base
    return None


def decl_func(d):
    while d is not None:
        if type(d).__name__ == 'CFuncDeclaratorNode':
            return d
        d = getattr(d, 'base', None)
    return None


def decl_cname(d):
    while d is not None:
        if type(d).__name__ == 'CNameDeclaratorNode':
            return d.cname
        d = d.base
    return None


def decl_default(d):
    while d is not None:
        if type(d).__name__ == 'CNameDeclaratorNode':
            return d.default
        d = d.base
    return None


class Conv(object):
    def __init__(self, path):
        self.path = path
        self.decls = Decls()

    # -- helpers
    def loc(self, new, old):
        pos = getattr(old, 'pos', None)
        if pos:
            new.lineno = pos[1]
            new.col_offset = pos[2]
            f = getattr(pos[0], 'filename', None)
            if f and f != self.path:
                new._file = f
        else:
            new.lineno, new.col_offset = 1, 0
        return new

    def exprs(self, l):
        return [self.expr(x) for x in l]

    # -- expressions
    def expr(self, n, ctx=None):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('%s: expression %s' % (self.path, type(n).__name__))
        r = m(n)
        self.loc(r, n)
        if ctx is not None and hasattr(r, 'ctx'):
            r.ctx = ctx
        return r

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_IntNode(self, n):
        v = n.value
        v = int(v.rstrip('uUlL'), 0) if not (len(v) > 1 and v[0] == '0' and v[1].isdigit()) else int(v, 8)
        return ast.Constant(v)

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_NullNode(self, n):
        return ast.Name('NULL', ast.Load())

    def e_EllipsisNode(self, n):
        return ast.Constant(Ellipsis)

    def e_CharNode(self, n):
        return ast.Constant(ord(n.value) if isinstance(n.value, str) else n.value[0])

    def e_StringNode(self, n):
        v = n.value
        if n.unicode_value is not None:
            v = n.unicode_value
        return ast.Constant(str(v))

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    def e_BytesNode(self, n):
        return ast.Constant(bytes(n.value) if not hasattr(n.value, 'byteencode')
                            else n.value.byteencode())

    def e_IdentifierStringNode(self, n):
        return ast.Constant(str(n.value))

    def e_AttributeNode(self, n):
        return ast.Attribute(self.expr(n.obj), str(n.attribute), ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(self.expr(n.base), self.expr(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        sl = ast.Slice(self.expr(n.start) if n.start else None,
                       self.expr(n.stop) if n.stop else None, None)
        self.loc(sl, n)
        return ast.Subscript(self.expr(n.base), sl, ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_SimpleCallNode(self, n):
        return ast.Call(self.expr(n.function), self.exprs(n.args), [])

    def e_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        if type(pa).__name__ == 'TupleNode':
            args = self.exprs(pa.args)
        elif pa is not None:
            args = self._star(pa)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for kv in kw.key_value_pairs:
                    kws.append(ast.keyword(str(kv.key.value), self.expr(kv.value)))
            elif type(kw).__name__ == 'MergedDictNode':
                for d in kw.keyword_args:
                    if type(d).__name__ == 'DictNode':
                        for kv in d.key_value_pairs:
                            kws.append(ast.keyword(str(kv.key.value), self.expr(kv.value)))
                    else:
                        kws.append(ast.keyword(None, self.expr(d)))
            else:
                kws.append(ast.keyword(None, self.expr(kw)))
        return ast.Call(self.expr(n.function), args, kws)

    def _star(self, pa):
        t = type(pa).__name__
        if t == 'AddNode':
            return self._star(pa.operand1) + self._star(pa.operand2)
        if t == 'TupleNode':
            return self.exprs(pa.args)
        if t == 'AsTupleNode':
            return [ast.Starred(self.expr(pa.arg), ast.Load())]
        if t == 'MergedSequenceNode':
            out = []
            for a in pa.args:
                if type(a).__name__ in ('TupleNode', 'ListNode'):
                    out += self.exprs(a.args)
                else:
                    out.append(ast.Starred(self.expr(a), ast.Load()))
            return out
        return [ast.Starred(self.expr(pa), ast.Load())]

    def e_AsTupleNode(self, n):
        return self.call('tuple', self.expr(n.arg))

    def e_TypecastNode(self, n):
        return self.call('__cast__', ast.Constant(type_str(n.base_type, n.declarator)),
                         self.expr(n.operand))

    def e_AmpersandNode(self, n):
        return self.call('__addr__', self.expr(n.operand))

    def e_SizeofTypeNode(self, n):
        return self.call('__sizeof__', ast.Constant(type_str(n.base_type, n.declarator)))

    def e_SizeofVarNode(self, n):
        return self.call('__sizeof__', self.expr(n.operand))

    def e_BinopNode(self, n):
        return ast.BinOp(self.expr(n.operand1), _BIN[n.operator](), self.expr(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = \
        e_NumBinopNode = e_PowNode = e_BitwiseOrNode = e_BinopNode

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        return ast.BoolOp(op, [self.expr(n.operand1), self.expr(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.expr(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.expr(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.expr(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.expr(n.operand))

    def e_PrimaryCmpNode(self, n):
        ops = [_CMP[n.operator]()]
        cmps = [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            cmps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(self.expr(n.operand1), ops, cmps)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.expr(n.condition if hasattr(n, 'condition') else n.test),
                         self.expr(n.true_val), self.expr(n.false_val))

    def e_TupleNode(self, n):
        return ast.Tuple(self.exprs(n.args), ast.Load())

    def e_ListNode(self, n):
        return ast.List(self.exprs(n.args), ast.Load())

    def e_SetNode(self, n):
        return ast.Set(self.exprs(n.args))

    def e_DictNode(self, n):
        return ast.Dict([self.expr(p.key) for p in n.key_value_pairs],
                        [self.expr(p.value) for p in n.key_value_pairs])

    def e_LambdaNode(self, n):
        return ast.Lambda(self.pyargs(n.args, n), self.expr(n.result_expr))

    def e_JoinedStrNode(self, n):
        vals = []
        for v in n.values:
            if type(v).__name__ == 'FormattedValueNode':
                vals.append(ast.FormattedValue(self.expr(v.value), -1, None))
            else:
                vals.append(self.expr(v))
        return ast.JoinedStr(vals)

    def e_ComprehensionNode(self, n):
        gens, elt = self.compr(n.loop)
        t = n.type.name if getattr(n, 'type', None) is not None else 'list'
        if t == 'set':
            return ast.SetComp(elt, gens)
        if t == 'dict':
            return ast.DictComp(elt[0], elt[1], gens)
        return ast.ListComp(elt, gens)

    def e_GeneratorExpressionNode(self, n):
        gens, elt = self.compr(n.loop)
        return ast.GeneratorExp(elt, gens)

    def compr(self, loop):
        gens = []
        node = loop
        while True:
            t = type(node).__name__
            if t in ('ForInStatNode', '_ForInStatNode'):
                it = node.iterator.sequence if hasattr(node.iterator, 'sequence') else node.iterator
                gens.append(ast.comprehension(self.expr(node.target, ast.Store()),
                                              self.expr(it), [], 0))
                node = node.body
            elif t == 'IfStatNode':
                gens[-1].ifs.append(self.expr(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif t == 'StatListNode' and len(node.stats) == 1:
                node = node.stats[0]
            elif t == 'ComprehensionAppendNode':
                return gens, self.expr(node.expr)
            elif t == 'DictComprehensionAppendNode':
                return gens, (self.expr(node.key_expr), self.expr(node.value_expr))
            elif t == 'ExprStatNode':
                node = node.expr
            elif t == 'YieldExprNode':
                return gens, self.expr(node.arg)
            else:
                raise Unsupported('comprehension %s' % t)

    def e_YieldExprNode(self, n):
        return ast.Yield(self.expr(n.arg) if n.arg is not None else None)

    def e_ImportNode(self, n):
        return self.call('__import__', self.expr(n.module_name))

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(self.expr(n.target), ast.Load())

    # -- statements
    def body(self, n):
        out = []
        self.stmts(n, out)
        return out or [ast.Pass(lineno=1, col_offset=0)]

    def stmts(self, n, out):
        if n is None:
            return
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                self.stmts(s, out)
            return
        m = getattr(self, 's_' + t, None)
        if m is None:
            raise Unsupported('%s: statement %s' % (self.path, t))
        r = m(n)
        if r is None:
            return
        for x in (r if isinstance(r, list) else [r]):
            self.loc(x, n)
            out.append(x)

    def store(self, n):
        r = self.expr(n)
        def fix(x):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Store()
            if isinstance(x, (ast.Tuple, ast.List)):
                for e in x.elts:
                    fix(e)
        fix(r)
        return r

    def s_SingleAssignmentNode(self, n):
        rt = type(n.rhs).__name__
        if rt == 'ImportNode':
            mod = str(n.rhs.module_name.value)
            lname = str(n.lhs.name)
            if '.' in mod and (getattr(n.rhs, 'imported_names', None) or getattr(n.rhs, 'name_list', None)) is None and lname == mod.split('.')[0]:
                return ast.Import([ast.alias(mod, None)])
            return ast.Import([ast.alias(mod, lname if lname != mod else None)])
        if isinstance(n.lhs, object) and type(n.lhs).__name__ == 'NameNode' and rt == 'LambdaNode':
            pass
        return ast.Assign([self.store(n.lhs)], self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.store(l) for l in n.lhs_list], self.expr(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.store(n.lhs), _BIN[n.operator](), self.expr(n.rhs))

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        level = getattr(n.module, 'level', 0) or 0
        names = []
        for name, target in n.items:
            tn = str(target.name)
            names.append(ast.alias(str(name), tn if tn != name else None))
        return ast.ImportFrom(mod, names, max(level, 0))

    def s_ExprStatNode(self, n):
        return ast.Expr(self.expr(n.expr))

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            node = ast.If(self.expr(c.condition), self.body(c.body), orelse)
            self.loc(node, c)
            orelse = [node]
        return orelse

    def s_WhileStatNode(self, n):
        cond = self.expr(n.condition) if n.condition is not None else ast.Constant(True)
        return ast.While(cond, self.body(n.body),
                         self.body(n.else_clause) if n.else_clause is not None else [])

    def s_ForInStatNode(self, n):
        it = n.iterator
        it = it.sequence if hasattr(it, 'sequence') else it
        return ast.For(self.store(n.target), self.expr(it), self.body(n.body),
                       self.body(n.else_clause) if n.else_clause is not None else [])

    def s_ForFromStatNode(self, n):
        lo = self.expr(n.bound1)
        hi = self.expr(n.bound2)
        if n.relation1 == '<':
            lo = ast.BinOp(lo, ast.Add(), ast.Constant(1))
        if n.relation2 == '<=':
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        if n.relation2 not in ('<', '<='):
            raise Unsupported('for-from downwards')
        args = [lo, hi]
        if n.step is not None:
            args.append(self.expr(n.step))
        return ast.For(self.store(n.target), self.call('range', *args), self.body(n.body), [])

    def s_ReturnStatNode(self, n):
        return ast.Return(self.expr(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.expr(n.exc_type) if n.exc_type is not None else None, None)

    def s_ReraiseStatNode(self, n):
        return ast.Raise(None, None)

    def s_AssertStatNode(self, n):
        cond = n.condition if hasattr(n, 'condition') else n.cond
        return ast.Assert(self.expr(cond),
                          self.expr(n.value) if getattr(n, 'value', None) is not None else None)

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_DelStatNode(self, n):
        return ast.Delete([self.store(a) for a in n.args])

    def s_GlobalNode(self, n):
        return ast.Global([str(x) for x in n.names])

    def s_NonlocalNode(self, n):
        return ast.Nonlocal([str(x) for x in n.names])

    def s_WithStatNode(self, n):
        item = ast.withitem(self.expr(n.manager),
                            self.store(n.target) if n.target is not None else None)
        return ast.With([item], self.body(n.body))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = None
            if c.pattern:
                pat = self.expr(c.pattern[0]) if len(c.pattern) == 1 else \
                    ast.Tuple(self.exprs(c.pattern), ast.Load())
            h = ast.ExceptHandler(pat, str(c.target.name) if c.target is not None else None,
                                  self.body(c.body))
            hs.append(self.loc(h, c))
        return ast.Try(self.body(n.body), hs,
                       self.body(n.else_clause) if n.else_clause is not None else [], [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.body(n.body), [], [], self.body(n.finally_clause))

    # -- declarations
    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            name = decl_name(d)
            fd = decl_func(d)
            t = type_str(n.base_type, d)
            if fd is not None:
                sig = self.sig(n.base_type, d)
                sig.kind = 'cpdef' if getattr(n, 'overridable', False) else 'cdef'
                out.append(('func', name, sig, decl_cname(d)))
                continue
            a = ast.AnnAssign(ast.Name(name, ast.Store()), ast.Constant(t), None, 1)
            self.loc(a.target, d)
            self.loc(a.annotation, d)
            dv = decl_default(d)
            if dv is not None:
                a.value = self.expr(dv)
            if type(d).__name__ == 'CArrayDeclaratorNode' and d.dimension is not None:
                a.value = ast.Call(ast.Name('__carray__', ast.Load()), [self.expr(d.dimension)], [])
            a._vis = n.visibility
            a._cname = decl_cname(d)
            out.append(a)
        self.loc_all(out, n)
        res = []
        for x in out:
            if isinstance(x, tuple):
                self.decls.funcs[x[1]] = x[2]
            else:
                res.append(x)
        return res

    def loc_all(self, l, n):
        for x in l:
            if isinstance(x, ast.AST):
                self.loc(x, n)

    def sig(self, base_type, declarator):
        s = Sig()
        fd = decl_func(declarator)
        s.ret = type_str(base_type, declarator)
        if s.ret == 'object':
            s.ret = None
        for a in fd.args:
            nm = decl_name(a.declarator)
            t = type_str(a.base_type, a.declarator)
            if not nm:          # "cpdef f(self)": the type is the name
                nm, t = (a.base_type.name, 'object')
            s.args.append((str(nm), t))
        s.exc = None
        if fd.exception_value is not None:
            try:
                s.exc = ('?' if fd.exception_check else '') + ast.unparse(
                    ast.fix_missing_locations(self.expr(fd.exception_value)))
            except Exception:
                s.exc = '?'
        return s

    def decorators(self, n):
        return [self.expr(d.decorator) for d in (n.decorators or [])]

    def pyargs(self, args, n):
        pos, kwonly, defaults, kwd = [], [], [], []
        for a in args:
            nm = decl_name(a.declarator)
            t = type_str(a.base_type, a.declarator)
            if not nm:
                nm, t = a.base_type.name, 'object'
            arg = ast.arg(str(nm), ast.Constant(t) if t != 'object' else None)
            self.loc(arg, a)
            d = a.default
            if d is None:
                d = decl_default(a.declarator)
            if a.kw_only:
                kwonly.append(arg)
                kwd.append(self.expr(d) if d is not None else None)
            else:
                pos.append(arg)
                if d is not None:
                    defaults.append(self.expr(d))
        star = getattr(n, 'star_arg', None)
        ss = getattr(n, 'starstar_arg', None)
        return ast.arguments([], pos, ast.arg(str(star.name)) if star is not None else None,
                             kwonly, kwd, ast.arg(str(ss.name)) if ss is not None else None,
                             defaults)

    def s_CFuncDefNode(self, n):
        fd = decl_func(n.declarator)
        name = str(decl_name(n.declarator))
        sig = self.sig(n.base_type, n.declarator)
        sig.kind = 'cpdef' if n.overridable else 'cdef'
        f = ast.FunctionDef(name, self.pyargs(fd.args, n), self.body(n.body),
                            self.decorators(n), None)
        f._sig = sig
        self.collect_locals(f, sig)
        return f

    def collect_locals(self, f, sig):
        for x in ast.walk(f):
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                sig.locals[x.target.id] = x.annotation.value

    def s_DefNode(self, n):
        sig = Sig()
        f = ast.FunctionDef(str(n.name), self.pyargs(n.args, n), self.body(n.body),
                            self.decorators(n), None)
        for a in n.args:
            nm = decl_name(a.declarator)
            t = type_str(a.base_type, a.declarator)
            if not nm:
                nm, t = a.base_type.name, 'object'
            sig.args.append((str(nm), t))
        f._sig = sig
        self.collect_locals(f, sig)
        return f

    def s_CClassDefNode(self, n):
        cd = ClassDecl(str(n.class_name))
        bases = []
        if getattr(n, 'bases', None) is not None:
            for b in n.bases.args:
                bases.append(self.expr(b))
        cd.bases = [ast.unparse(ast.fix_missing_locations(b)) for b in bases]
        save = self.decls
        inner = Decls()
        self.decls = inner
        body = self.body(n.body) if n.body is not None else []
        self.decls = save
        rest = []
        for s in body:
            if isinstance(s, ast.AnnAssign):
                nm = s.target.id
                cd.attrs[nm] = s.annotation.value
                if s._vis == 'readonly':
                    cd.readonly.add(nm)
                elif s._vis == 'public':
                    cd.public.add(nm)
            else:
                rest.append(s)
        cd.methods = inner.funcs
        for s in rest:
            if isinstance(s, ast.FunctionDef) and s._sig.kind != 'def':
                cd.methods.setdefault(s.name, s._sig)
        self.decls.classes[cd.name] = cd
        if not getattr(n, 'in_pxd', False) and n.body is not None:
            c = ast.ClassDef(cd.name, bases, [], rest or [ast.Pass()], self.decorators(n))
            c._cdecl = cd
            return c
        return None

    def s_PyClassDefNode(self, n):
        bases = self.exprs(n.bases.args) if n.bases is not None else []
        return ast.ClassDef(str(n.name), bases, [], self.body(n.body), self.decorators(n))

    def s_CDefExternNode(self, n):
        save = self.decls
        inner = Decls()
        self.decls = inner
        body = self.body(n.body)
        self.decls = save
        hdr = n.include_file
        for k, sig in inner.funcs.items():
            self.decls.externs[k] = (getattr(sig, 'cname', None) or k, sig, hdr)
        for s in body:
            if isinstance(s, ast.AnnAssign):
                self.decls.externs[s.target.id] = (s._cname or s.target.id,
                                                   s.annotation.value, hdr)
        return None

    def s_CImportStatNode(self, n):
        self.decls.cimports[str(n.as_name or n.module_name.split('.')[0])] = \
            (str(n.module_name), None)

    def s_FromCImportStatNode(self, n):
        for it in n.imported_names:
            name, asn = it[1], it[2]
            self.decls.cimports[str(asn or name)] = (str(n.module_name), str(name))

    def s_CStructOrUnionDefNode(self, n):
        return None
    s_CEnumDefNode = s_CTypeDefNode = s_CStructOrUnionDefNode

    def s_PropertyNode(self, n):
        for f in self.body(n.body):
            if isinstance(f, ast.FunctionDef) and f.name == '__get__':
                f.name = str(n.name)
                f.decorator_list = f.decorator_list + [self.loc(ast.Name('__property__', ast.Load()), n)]
                return f
        return None


class SourceModule(object):
    def __init__(self, path):
        self.path = path
        self.tree = None          # ast.Module
        self.decls = Decls()
        self.compiled = False


def _patch_cnames(conv, tree):
    pass


def parse_cython(path, text=None):
    if text is None:
        with open(path, encoding='utf-8') as f:
            text = f.read()
    is_pxd = path.endswith('.pxd')
    node = cython_parse(text, path, is_pxd)
    c = Conv(path)
    # keep the C names of extern declarations
    orig = c.sig

    def sig(base_type, declarator):
        s = orig(base_type, declarator)
        s.cname = decl_cname(declarator)
        return s
    c.sig = sig
    body = c.body(node.body)
    m = ast.Module(body, [])
    ast.fix_missing_locations(m)
    # pxd decorators (@cython.locals) on CVarDefNode functions
    if is_pxd:
        _apply_pxd_locals(node.body, c)
    sm = SourceModule(path)
    sm.tree = m
    sm.decls = c.decls
    sm.compiled = True
    _apply_py_decorator_locals(m)
    return sm


def _locals_from_decorators(decos):
    out = {}
    for d in decos or []:
        if isinstance(d, ast.Call) and ast.unparse(d.func) == 'cython.locals':
            for k in d.keywords:
                out[k.arg] = _norm_type(ast.unparse(k.value))
    return out


def _norm_type(t):
    return {'cython.long': 'long', 'cython.int': 'int', 'unsigned': 'unsigned int'}.get(t, t)


def _apply_pxd_locals(node, conv):
    """@cython.locals(...) in a .pxd applies to the declaration that follows"""
    def walk(n, classname):
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                walk(s, classname)
        elif t == 'CClassDefNode' and n.body is not None:
            walk(n.body, str(n.class_name))
        elif t == 'CVarDefNode' and n.decorators:
            decos = [ast.fix_missing_locations(conv.expr(d.decorator)) for d in n.decorators]
            loc = _locals_from_decorators(decos)
            for d in n.declarators:
                if decl_func(d) is None:
                    continue
                nm = decl_name(d)
                sig = (conv.decls.classes[classname].methods.get(nm) if classname
                       else conv.decls.funcs.get(nm))
                if sig is not None:
                    sig.locals.update(loc)
    walk(node, None)


def _apply_py_decorator_locals(tree):
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            loc = _locals_from_decorators(f.decorator_list)
            if loc:
                sig = getattr(f, '_sig', None)
                if sig is None:
                    sig = f._sig = Sig()
                    sig.args = [(a.arg, 'object') for a in f.args.args]
                names = [a for a, _ in sig.args]
                sig.args = [(a, loc.get(a, t)) for a, t in sig.args]
                for k, v in loc.items():
                    if k not in names:
                        sig.locals[k] = v
            kinds = [ast.unparse(d) for d in f.decorator_list
                     if ast.unparse(d) in ('cython.ccall', 'cython.cfunc')]
            if kinds and getattr(f, '_sig', None) is not None:
                f._sig.kind = 'cpdef' if 'ccall' in kinds[0] else 'cdef'


def parse_py(path, text=None):
    if text is None:
        with open(path, encoding='utf-8') as f:
            text = f.read()
    sm = SourceModule(path)
    sm.tree = ast.parse(text, path)
    return sm


def merge_pxd(sm, pxd):
    """attach the C signatures of a .pxd to the functions of a .py/.pyx"""
    sm.compiled = True
    d = sm.decls
    for k, v in pxd.decls.classes.items():
        if k in d.classes:
            old = d.classes[k]
            old.attrs.update(v.attrs)
            old.readonly |= v.readonly
            old.public |= v.public
            for mn, s in v.methods.items():
                old.methods.setdefault(mn, s)
        else:
            d.classes[k] = v
    for k, v in pxd.decls.externs.items():
        d.externs.setdefault(k, v)
    for k, v in pxd.decls.cimports.items():
        d.cimports.setdefault(k, v)
    d.vars.update(pxd.decls.vars)
    for s in pxd.tree.body:
        if isinstance(s, ast.AnnAssign):
            d.vars[s.target.id] = s.annotation.value
    for k, v in pxd.decls.funcs.items():
        d.funcs.setdefault(k, v)

    def attach(f, sig):
        own = getattr(f, '_sig', None)
        names = [a.arg for a in f.args.args]
        new = Sig()
        new.kind, new.ret, new.exc = sig.kind, sig.ret, sig.exc
        for i, nm in enumerate(names):
            t = sig.args[i][1] if i < len(sig.args) else 'object'
            if own is not None and t == 'object' and i < len(own.args):
                t = own.args[i][1]
            t = sig.locals.get(nm, t) if t == 'object' else t
            new.args.append((nm, t))
        new.locals = dict(sig.locals)
        if own is not None:
            new.locals.update(own.locals)
        f._sig = new

    for s in sm.tree.body:
        if isinstance(s, ast.FunctionDef) and s.name in pxd.decls.funcs:
            attach(s, pxd.decls.funcs[s.name])
        elif isinstance(s, ast.ClassDef):
            cd = pxd.decls.classes.get(s.name)
            if cd is None:
                continue
            for f in s.body:
                if isinstance(f, ast.FunctionDef) and f.name in cd.methods:
                    attach(f, cd.methods[f.name])
    return sm
