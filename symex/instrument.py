"""Loads Python sources with calls, subscripts and a few operators routed through the runtime."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import runtime


class Xf(ast.NodeTransformer):
    def _s(self, name, args, keywords=()):
        return ast.Call(func=ast.Attribute(value=ast.Name(id='_S_', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=list(keywords))

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals'):
            return n
        return ast.copy_location(self._s('call', [n.func] + n.args, n.keywords), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(self._s('getitem', [n.value, self._idx(n.slice)]), n)
        return n

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=ast.Name(id='_slice_', ctx=ast.Load()), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._idx(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, n):
        if not any(isinstance(t, ast.Subscript) or (isinstance(t, (ast.Tuple, ast.List)) and self._has_sub(t)) for t in n.targets):
            self.generic_visit(n)
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            val = self.visit(n.value)
            o = self.visit(t.value)
            k = self._idx(self.visit(t.slice))
            # value is evaluated before the target, as in Python
            c = self._s('setitem_', [val, ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(value=None))])
            call = self._s('setitem_vok', [val, o, k])
            return ast.copy_location(ast.Expr(value=call), n)
        # general case: through a temporary
        out = []
        val = self.visit(n.value)
        tmp = ast.Name(id='_tmp_', ctx=ast.Store())
        out.append(ast.copy_location(ast.Assign(targets=[tmp], value=val), n))
        for t in n.targets:
            out += self._assign_from(t, ast.Name(id='_tmp_', ctx=ast.Load()), n)
        return out

    def _has_sub(self, t):
        return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(t))

    _n = 0

    def _assign_from(self, t, val, n):
        if isinstance(t, ast.Subscript):
            o = self.visit(t.value)
            k = self._idx(self.visit(t.slice))
            return [ast.copy_location(ast.Expr(value=self._s('setitem_vok', [val, o, k])), n)]
        if isinstance(t, (ast.Tuple, ast.List)) and self._has_sub(t):
            names = []
            targets = []
            post = []
            for e in t.elts:
                if isinstance(e, ast.Subscript) or (isinstance(e, (ast.Tuple, ast.List)) and self._has_sub(e)):
                    Xf._n += 1
                    nm = f'_tmp{Xf._n}'
                    targets.append(ast.Name(id=nm, ctx=ast.Store()))
                    post += self._assign_from(e, ast.Name(id=nm, ctx=ast.Load()), n)
                else:
                    targets.append(e)
            first = ast.copy_location(ast.Assign(targets=[ast.Tuple(elts=targets, ctx=ast.Store())], value=val), n)
            return [first] + post
        self.generic_visit(t)
        return [ast.copy_location(ast.Assign(targets=[t], value=val), n)]

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.BitOr: '|',
           ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**'}

    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Subscript):
            o = self.visit(t.value)
            k = self._idx(self.visit(t.slice))
            v = self.visit(n.value)
            c = self._s('augitem', [o, k, ast.Constant(value=self.OPS[type(n.op)]), v])
            return ast.copy_location(ast.Expr(value=c), n)
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=self._s('mod', [ast.Name(id=t.id, ctx=ast.Load()), n.value])), n)
        return n

    def visit_Delete(self, n):
        if not any(isinstance(t, ast.Subscript) for t in n.targets):
            self.generic_visit(n)
            return n
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.visit(t.value)
                k = self._idx(self.visit(t.slice))
                out.append(ast.copy_location(ast.Expr(value=self._s('delitem', [o, k])), n))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), n))
        return out

    def visit_For(self, n):
        self.generic_visit(n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            l, r = n.left, n.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(self._s('contains', [r, l]) if self._simple(l) or self._simple(r) else self._s('contains_lr', [l, r]), n)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=self._s('contains_lr', [l, r])), n)
            if isinstance(op, ast.Eq):
                return ast.copy_location(self._s('eq_', [l, r]), n)
            if isinstance(op, ast.NotEq):
                return ast.copy_location(self._s('ne_', [l, r]), n)
        elif any(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in n.ops):
            # a op1 b op2 c: evaluate operands once through nested walrus
            names = []
            vals = []
            left = n.left
            parts = []
            prev = left
            for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
                Xf._n += 1
                nm = f'_cmp{Xf._n}'
                if i < len(n.ops) - 1 and isinstance(c, (ast.Name, ast.Constant)):
                    right = nxt = c
                elif i < len(n.ops) - 1:
                    right = ast.NamedExpr(target=ast.Name(id=nm, ctx=ast.Store()), value=c)
                    nxt = ast.Name(id=nm, ctx=ast.Load())
                else:
                    right = c
                    nxt = None
                if isinstance(op, ast.Eq):
                    e = self._s('eq_', [prev, right])
                elif isinstance(op, ast.NotEq):
                    e = self._s('ne_', [prev, right])
                elif isinstance(op, ast.In):
                    e = self._s('contains_lr', [prev, right])
                elif isinstance(op, ast.NotIn):
                    e = ast.UnaryOp(op=ast.Not(), operand=self._s('contains_lr', [prev, right]))
                else:
                    e = ast.Compare(left=prev, ops=[op], comparators=[right])
                parts.append(e)
                prev = nxt
            if self._in_class_or_comp:
                return n
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), n)
        return n

    _in_class_or_comp = False

    def _simple(self, e):
        return isinstance(e, (ast.Name, ast.Constant))

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(value={-1: None, 114: 'r', 115: 's', 97: 'a'}[v.conversion])
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
        return ast.copy_location(self._s('fstr', parts), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self._s('mod', [n.left, n.right]), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                k = ast.Attribute(value=ast.Name(id='_S_', ctx=ast.Load()), attr='UNPACK', ctx=ast.Load())
            elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(self._s('mkdict', [ast.Tuple(elts=elts, ctx=ast.Load())]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        return ast.copy_location(self._s('mkdict', [g]), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._s('mkset', [ast.Tuple(elts=n.elts, ctx=ast.Load())]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._s('mkset', [ast.GeneratorExp(elt=n.elt, generators=n.generators)]), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.type = ast.Name(id='Exception', ctx=ast.Load())
        if n.name is None:
            n.name = '_exc_'
        chk = ast.Expr(value=self._s('exc_check', [ast.Name(id=n.name, ctx=ast.Load())]))
        n.body.insert(0, ast.copy_location(chk, n))
        return n


def setitem_vok(v, o, k):
    runtime.setitem(o, k, v)


def augitem(o, k, op, v):
    cur = runtime.getitem(o, k)
    if op == '+':
        if type(cur) is list:
            cur += v
            new = cur
        else:
            new = cur + v
    elif op == '-':
        new = cur - v
    elif op == '*':
        new = cur * v
    elif op == '/':
        new = cur / v
    elif op == '//':
        new = cur // v
    elif op == '%':
        new = runtime.mod(cur, v)
    elif op == '|':
        new = cur | v
    elif op == '&':
        new = cur & v
    elif op == '^':
        new = cur ^ v
    elif op == '<<':
        new = cur << v
    elif op == '>>':
        new = cur >> v
    else:
        new = cur ** v
    runtime.setitem(o, k, new)


def contains_lr(x, o):
    return runtime.contains(o, x)


runtime.setitem_vok = setitem_vok
runtime.augitem = augitem
runtime.contains_lr = contains_lr

_code_cache = {}


def compile_instrumented(path, source=None):
    key = path
    c = _code_cache.get(key)
    if c is None:
        if source is None:
            with open(path, encoding='utf-8') as f:
                source = f.read()
        try:
            tree = Xf().visit(ast.parse(source, path))
            ast.fix_missing_locations(tree)
            c = compile(tree, path, 'exec')
        except SyntaxError:
            # an assignment expression inside a comprehension: leave chained comparisons as they are
            x = Xf()
            x._in_class_or_comp = True
            tree = x.visit(ast.parse(source, path))
            ast.fix_missing_locations(tree)
            c = compile(tree, path, 'exec')
        _code_cache[key] = c
        runtime.shadow_files.add(path)
    return c


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Imports pdfsyntax and the harness modules from source, instrumented or plain, without byte-code files."""

    def __init__(self, roots, instrument):
        self.roots = roots          # package name -> directory
        self.instrument = instrument

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        rel = name.split('.')[1:]
        base = os.path.join(self.roots[top], *rel)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        if self.instrument:
            code = compile_instrumented(path)
            module.__dict__['_S_'] = runtime
            module.__dict__['_slice_'] = slice
        else:
            with open(path, encoding='utf-8') as f:
                code = compile(f.read(), path, 'exec')
        exec(code, module.__dict__)
