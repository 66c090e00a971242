"""Import hook for the code under test: the current source is compiled with
the few operations redirected that cannot be intercepted through the types or
names involved (methods of literals).  For plain values they do the same as
before; a replay of a counterexample uses the unchanged source."""

import ast
import builtins
import importlib.abc
import importlib.machinery
import sys

from . import proxies


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if (
            isinstance(f, ast.Attribute)
            and f.attr == "join"
            and len(node.args) == 1
            and not node.keywords
            and not isinstance(node.args[0], ast.Starred)
        ):
            return ast.copy_location(
                ast.Call(
                    ast.copy_location(
                        ast.Name("__sx_join__", ast.Load()), node
                    ),
                    [f.value, node.args[0]],
                    [],
                ),
                node,
            )
        return node


def join(sep, items):
    if isinstance(sep, (bytes, bytearray)):
        from .symbytes import SymBytes, rope

        items = list(items)
        ctx = next(
            (x.ctx for x in items if isinstance(x, SymBytes)), None
        )
        if ctx is not None:
            r = SymBytes(ctx)
            for i, x in enumerate(items):
                r = r + (sep + x if i and sep else x)
            return rope(ctx, r)
        return sep.join(items)
    if isinstance(sep, str):
        items = list(items)
        if any(isinstance(x, proxies.SymStr) for x in items):
            r = items[0]
            for x in items[1:]:
                r = r + sep + x if sep else r + x
            return r
        return sep.join(items)
    return sep.join(items)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Rewriter().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(
            tree, path, "exec", dont_inherit=True, optimize=_optimize
        )


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "backy" and not name.startswith("backy."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    builtins.__sx_join__ = join
    sys.meta_path.insert(0, Finder())
