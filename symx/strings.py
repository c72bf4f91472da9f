"""String formatting on symbolic strings.

f-strings, `%` and methods of string literals are syntax that only accepts real strings, so while the modules listed
below are imported for symbolic execution, their syntax tree is rewritten on the fly (from the current source) such
that these forms call the functions here.  On real strings those do exactly what Python does.
"""

import ast
import importlib.abc
import importlib.machinery
import sys

MODULES = ("pydsge.clsmethods",)


def _sym(x):
    from .core import SymStr

    return isinstance(x, SymStr)


def fstr(parts):
    out = ""
    for p in parts:
        if isinstance(p, str):
            out = out + p
        else:
            v, conv, spec = p
            if _sym(v) and conv in (-1, 115) and not spec:
                out = out + v
            else:
                v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
                out = out + format(v, spec)
    return out


def mod(l, r):
    if not isinstance(l, str) or not (_sym(r) or isinstance(r, tuple) and any(_sym(x) for x in r)):
        return l % r
    args = list(r) if isinstance(r, tuple) else [r]
    out, i = "", 0
    while i < len(l):
        if l[i] == "%":
            if l[i + 1] == "%":
                out, i = out + "%", i + 2
                continue
            if l[i + 1] != "s":
                from .core import Unsupported

                raise Unsupported("format of a symbolic string")
            a = args.pop(0)
            out, i = out + (a if _sym(a) else str(a)), i + 2
        else:
            out, i = out + l[i], i + 1
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return out


def call(s, name, *a, **k):
    args = list(a) + list(k.values())
    if name == "join" and len(a) == 1:
        parts = list(a[0])
        if any(_sym(p) for p in parts):
            out = ""
            for i, p in enumerate(parts):
                out = out + (s if i else "") + p
            return out
        return s.join(parts)
    if not any(_sym(x) for x in args):
        return getattr(s, name)(*a, **k)
    if name == "format":
        import string

        out, n = "", 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out = out + lit
            if field is None:
                continue
            if field == "":
                v, n = a[n], n + 1
            elif field.isdigit():
                v = a[int(field)]
            else:
                v = k[field]
            out = out + (v if _sym(v) and not spec else format(v, spec))
        return out
    from .core import SymStr

    return getattr(SymStr(tuple(s)), name)(*a, **k)


class Rewrite(ast.NodeTransformer):
    def _call(self, node, name, args):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self._call(node, "__symx_fstr__", [ast.List(elts=parts, ctx=ast.Load())])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call(node, "__symx_mod__", [node.left, node.right])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id="__symx_call__", ctx=ast.Load()), args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = Rewrite().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__symx_fstr__, module.__symx_mod__, module.__symx_call__ = fstr, mod, call
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name not in MODULES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
