"""C front end: object-like and function-like macros, enums and small C functions
of the headers are turned into Python `ast` functions (textual macro expansion
first, so operator precedence inside macros is the real one)."""
import ast
import re

from .frontend import Sig, Unsupported


class Header(object):
    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            with open(path) as f:
                text = f.read()
        text = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), text, flags=re.S)
        text = re.sub(r'//[^\n]*', '', text)
        self.raw = text
        self.macros = {}     # name -> (params or None, body, line)
        self.enums = {}      # name -> int
        lines = text.split('\n')
        i = 0
        stack = []           # preprocessor conditionals: True (live) / False / None (unknown)
        self.code = []
        while i < len(lines):
            l = lines[i]
            start = i
            while l.rstrip().endswith('\\') and i + 1 < len(lines):
                l = l.rstrip()[:-1] + ' ' + lines[i + 1]
                i += 1
            i += 1
            s = l.strip()
            m = re.match(r'#\s*(\w+)\s*(.*)', s)
            if m:
                d, rest = m.group(1), m.group(2)
                if d in ('if', 'ifdef', 'ifndef'):
                    stack.append(self._pp(d, rest))
                elif d == 'elif':
                    stack[-1] = (not stack[-1]) and self._pp('if', rest)
                elif d == 'else':
                    stack[-1] = not stack[-1]
                elif d == 'endif':
                    stack.pop()
                elif d == 'define' and all(stack):
                    m = re.match(r'(\w+)(\(([^)]*)\))?\s*(.*)$', rest)
                    name, has, params, body = m.groups()
                    self.macros[name] = ([p.strip() for p in params.split(',')] if has else None,
                                         body.strip(), start + 1)
                continue
            if all(stack):
                self.code.append((start + 1, l))
        src = '\n'.join(l for _, l in self.code)
        for m in re.finditer(r'enum\s*\w*\s*\{([^}]*)\}', src):
            nxt = 0
            for item in m.group(1).split(','):
                item = item.strip()
                if not item:
                    continue
                if '=' in item:
                    n, v = [x.strip() for x in item.split('=')]
                    nxt = int(v, 0)
                else:
                    n = item
                self.enums[n] = nxt
                nxt += 1

    def _pp(self, d, rest):
        """preprocessor conditions, for CPython >= 3.8 on a 64 bit platform"""
        if d == 'ifdef':
            return False
        if d == 'ifndef':
            return True
        env = {'PY_MAJOR_VERSION': 3, 'PY_MINOR_VERSION': 12, 'PY_VERSION_HEX': 0x030C0300,
               'SIZEOF_PY_UHASH_T': 8}
        e = rest.replace('&&', ' and ').replace('||', ' or ')
        try:
            return bool(eval(e, {'__builtins__': {}}, env))
        except Exception:
            raise Unsupported('preprocessor condition %r in %s' % (rest, self.path))

    # -- macro expansion
    def expand(self, text, hide=frozenset()):
        out = []
        i = 0
        tok = re.compile(r'[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d+\w*|"[^"]*"|\s+|.', re.S)
        while i < len(text):
            m = tok.match(text, i)
            t = m.group(0)
            i = m.end()
            if t in self.macros and t not in hide and re.match(r'[A-Za-z_]', t):
                params, body, _ = self.macros[t]
                if params is None:
                    out.append(self.expand(body, hide | {t}))
                    continue
                j = i
                while j < len(text) and text[j].isspace():
                    j += 1
                if j < len(text) and text[j] == '(':
                    args, j = self._args(text, j)
                    args = [self.expand(a, hide) for a in args]
                    sub = dict(zip(params, args))
                    body2 = re.sub(r'[A-Za-z_]\w*', lambda m: sub.get(m.group(0), m.group(0)), body)
                    out.append(self.expand(body2, hide | {t}))
                    i = j
                    continue
            out.append(t)
        return ''.join(out)

    def _args(self, text, j):
        depth, cur, args = 0, '', []
        while True:
            c = text[j]
            if c == '(':
                depth += 1
                if depth > 1:
                    cur += c
            elif c == ')':
                depth -= 1
                if depth == 0:
                    args.append(cur.strip())
                    return args, j + 1
                cur += c
            elif c == ',' and depth == 1:
                args.append(cur.strip())
                cur = ''
            else:
                cur += c
            j += 1

    # -- conversion
    def macro_function(self, cname, sig):
        """ast.FunctionDef for a macro used as a function (arguments are values)"""
        if cname not in self.macros:
            return None
        params, body, line = self.macros[cname]
        if params is None:
            return None
        text = self.expand(body, frozenset([cname]))
        f = self._mkfunc(cname, params, sig, line)
        if ';' in text or '{' in text:
            f.body = self._block(text, line)
        else:
            f.body = [ast.Return(self.expr(text, line))]
        self._fix(f, line)
        return f

    def const(self, cname):
        if cname in self.enums:
            return self.enums[cname]
        if cname in self.macros and self.macros[cname][0] is None:
            t = self.expand(self.macros[cname][1])
            known = {'_PyHASH_MODULUS': (1 << 61) - 1}
            if t.strip() in known:
                return known[t.strip()]
            try:
                e = ast.fix_missing_locations(ast.Expression(self.expr(t, 1)))
                return eval(compile(e, self.path, 'eval'), {'__builtins__': {}})
            except Exception:
                return None
        return None

    def alias(self, cname):
        """object-like macro that only renames a function"""
        seen = set()
        while cname in self.macros and self.macros[cname][0] is None and cname not in seen:
            seen.add(cname)
            b = self.macros[cname][1]
            if not re.match(r'^[A-Za-z_]\w*$', b):
                break
            cname = b
        return cname

    def c_function(self, cname, sig):
        """a C function defined in the header (static helper)"""
        from pycparser import c_parser
        src = '\n'.join(l for _, l in self.code)
        m = re.search(r'static\s+[\w\s\*]*?\b%s\s*\([^;{]*\)\s*\{' % re.escape(cname), src)
        if not m:
            return None
        depth, j = 0, src.index('{', m.start())
        k = j
        while True:
            if src[k] == '{':
                depth += 1
            elif src[k] == '}':
                depth -= 1
                if depth == 0:
                    break
            k += 1
        text = self.expand(src[m.start():k + 1])
        tree = self._parse(text)
        fd = tree.ext[-1]
        line = 1
        for ln, l in self.code:
            if cname in l:
                line = ln
                break
        params = [p.name for p in fd.decl.type.args.params]
        f = self._mkfunc(cname, params, sig, line)
        self.ctx = {}
        for p in fd.decl.type.args.params:
            f._sig.locals[p.name] = self._type(p.type)
        f._sig.args = [(p.name, self._type(p.type)) for p in fd.decl.type.args.params]
        f.body = []
        for s in fd.body.block_items or []:
            f.body += self.stmt(s, f)
        self._fix(f, line)
        return f

    TYPEDEFS = ('typedef long Py_ssize_t; typedef unsigned long Py_uhash_t; typedef long Py_hash_t;'
                'typedef int PyObject; typedef signed char int8_t; typedef unsigned char uint8_t;'
                'typedef long int64_t; typedef unsigned long uint64_t; typedef unsigned long size_t;'
                'typedef int int32_t; typedef unsigned int uint32_t;\n')

    def _parse(self, text):
        from pycparser import c_parser
        try:
            return c_parser.CParser().parse(self.TYPEDEFS + text, self.path)
        except Exception as e:
            raise Unsupported('%s: cannot parse C text: %s' % (self.path, e))

    def _mkfunc(self, name, params, sig, line):
        f = ast.FunctionDef(name=name, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[],
            kw_defaults=[], defaults=[]), body=[], decorator_list=[])
        s = Sig()
        s.kind = 'cdef'
        if sig is not None:
            s.ret, s.exc = sig.ret, None
            s.args = [(p, a[1]) for p, a in zip(params, sig.args)]
        f._sig = s
        f._c = True
        return f

    def _fix(self, f, line):
        for n in ast.walk(f):
            n._file = self.path
            if 'lineno' in n._attributes:
                n.lineno = n.end_lineno = line
                n.col_offset = n.end_col_offset = 0

    def expr(self, text, line):
        tree = self._parse('long __f(void) { return %s; }' % text)
        ret = tree.ext[-1].body.block_items[0]
        return self.ex(ret.expr)

    def _block(self, text, line):
        tree = self._parse('int *__f(void) { %s }' % text)
        out = []
        for s in tree.ext[-1].body.block_items:
            out += self.stmt(s, None)
        return out or [ast.Pass()]

    def _type(self, t):
        from pycparser import c_ast
        if isinstance(t, c_ast.Typename):
            return self._type(t.type)
        if isinstance(t, c_ast.PtrDecl) or isinstance(t, c_ast.ArrayDecl):
            return self._type(t.type) + '*'
        if isinstance(t, c_ast.TypeDecl):
            return self._type(t.type)
        if isinstance(t, c_ast.IdentifierType):
            names = [n for n in t.names if n not in ('const',)]
            s = ' '.join(names)
            return {'long int': 'long', 'unsigned': 'unsigned int', 'long long': 'longlong',
                    'signed char': 'schar'}.get(s, s)
        raise Unsupported('C type %r' % t)

    def ex(self, n):
        from pycparser import c_ast
        A = c_ast
        if isinstance(n, A.Constant):
            v = n.value
            m = re.match(r'^(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$', v)
            if m:
                c = ast.Constant(int(m.group(1), 0))
                suf = m.group(2).lower()
                if 'u' in suf:
                    return self.cast('unsigned long' if 'l' in suf else 'unsigned int', c)
                if 'l' in suf:
                    return self.cast('long', c)
                c._chex = v.lower().startswith('0x')
                return c
            if n.type == 'char':
                return ast.Constant(ord(v[1]))
            raise Unsupported('C constant %r' % v)
        if isinstance(n, A.ID):
            return ast.Name(n.name, ast.Load())
        if isinstance(n, A.Cast):
            return self.cast(self._type(n.to_type), self.ex(n.expr))
        if isinstance(n, A.UnaryOp):
            if n.op == 'sizeof':
                return ast.Call(ast.Name('__sizeof__', ast.Load()),
                                [ast.Constant(self._type(n.expr))], [])
            if n.op == '*':
                return ast.Subscript(self.ex(n.expr), ast.Constant(0), ast.Load())
            op = {'-': ast.USub, '+': ast.UAdd, '~': ast.Invert, '!': ast.Not}.get(n.op)
            if op is None:
                raise Unsupported('C operator %s' % n.op)
            return ast.UnaryOp(op(), self.ex(n.expr))
        if isinstance(n, A.BinaryOp):
            l, r = self.ex(n.left), self.ex(n.right)
            ops = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.FloorDiv, '%': ast.Mod,
                   '<<': ast.LShift, '>>': ast.RShift, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor}
            cmp = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
            if n.op in ops:
                b = ast.BinOp(l, ops[n.op](), r)
                b._cdiv = n.op in '/%'
                return b
            if n.op in cmp:
                return ast.Compare(l, [cmp[n.op]()], [r])
            if n.op in ('&&', '||'):
                return ast.BoolOp(ast.And() if n.op == '&&' else ast.Or(), [l, r])
            raise Unsupported('C operator %s' % n.op)
        if isinstance(n, A.TernaryOp):
            return ast.IfExp(self.ex(n.cond), self.ex(n.iftrue), self.ex(n.iffalse))
        if isinstance(n, A.FuncCall):
            return ast.Call(self.ex(n.name), [self.ex(a) for a in (n.args.exprs if n.args else [])], [])
        if isinstance(n, A.StructRef):
            return ast.Attribute(self.ex(n.name), n.field.name, ast.Load())
        if isinstance(n, A.ArrayRef):
            return ast.Subscript(self.ex(n.name), self.ex(n.subscript), ast.Load())
        if isinstance(n, A.ExprList):
            return self.ex(n.exprs[-1])
        raise Unsupported('C expression %s' % type(n).__name__)

    def cast(self, t, e):
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(t), e], [])

    def stmt(self, n, f):
        from pycparser import c_ast
        A = c_ast
        if isinstance(n, A.Compound):
            out = []
            for s in n.block_items or []:
                out += self.stmt(s, f)
            return out
        if isinstance(n, A.If):
            return [ast.If(self.ex(n.cond), self.stmt(n.iftrue, f) or [ast.Pass()],
                           self.stmt(n.iffalse, f) if n.iffalse else [])]
        if isinstance(n, A.Return):
            return [ast.Return(self.ex(n.expr) if n.expr else None)]
        if isinstance(n, A.Decl):
            if f is not None:
                f._sig.locals[n.name] = self._type(n.type)
            if n.init is None:
                return []
            return [ast.Assign([ast.Name(n.name, ast.Store())], self.ex(n.init))]
        if isinstance(n, A.Assignment):
            tgt = self.ex(n.lvalue)
            tgt.ctx = ast.Store()
            if n.op == '=':
                return [ast.Assign([tgt], self.ex(n.rvalue))]
            ops = {'+=': ast.Add, '-=': ast.Sub, '*=': ast.Mult, '<<=': ast.LShift, '>>=': ast.RShift,
                   '&=': ast.BitAnd, '|=': ast.BitOr, '^=': ast.BitXor}
            return [ast.AugAssign(tgt, ops[n.op](), self.ex(n.rvalue))]
        if isinstance(n, A.UnaryOp) and n.op in ('p++', '++', 'p--', '--'):
            tgt = self.ex(n.expr)
            tgt.ctx = ast.Store()
            return [ast.AugAssign(tgt, ast.Add() if '+' in n.op else ast.Sub(), ast.Constant(1))]
        if isinstance(n, A.For):
            # for (i = 0; i < n; i++): while with the step appended
            body = self.stmt(n.stmt, f)
            if any(isinstance(x, ast.Continue) for s in body for x in ast.walk(s)):
                raise Unsupported('continue in a C for loop')
            init = [s for s in (self.stmt(n.init, f) if n.init else [])]
            step = self.stmt(n.next, f) if n.next else []
            return init + [ast.While(self.ex(n.cond), body + step, [])]
        if isinstance(n, A.While):
            return [ast.While(self.ex(n.cond), self.stmt(n.stmt, f) or [ast.Pass()], [])]
        if isinstance(n, A.EmptyStatement):
            return []
        if isinstance(n, (A.FuncCall, A.ExprList)):
            return [ast.Expr(self.ex(n))]
        if isinstance(n, A.Constant):
            return []
        raise Unsupported('C statement %s' % type(n).__name__)
