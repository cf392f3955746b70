"""Load /repo's modules with every call, membership test, identity test,
formatting operation and subscript routed through symx shims."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.environ.get('SYMX_REPO', '/repo')
PKG = 'channelpack'


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.aug = 0

    def _fn(self, node):
        self.stack.append(node.name)
        q = self.mod + '.' + '.'.join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = [self.visit(b) for b in node.body]
        self.stack.pop()
        mark = ast.Expr(ast.Call(ast.Name('__sx_fn__', ast.Load()),
                                 [ast.Constant(q)], []))
        at = 0
        if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(getattr(node.body[0], 'value', None),
                           ast.Constant):
            at = 1
        node.body.insert(at, mark)
        return node

    visit_FunctionDef = _fn

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and self.stack and \
                self.stack[-1] == '__repr__':
            # python insists on a real str here
            node.value = ast.Call(ast.Name('__sx_conc__', ast.Load()),
                                  [node.value], [])
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                'super', 'locals', 'globals', 'vars', 'exec', 'eval', 'dir'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute):
            return ast.Call(ast.Name('__sx_meth__', ast.Load()),
                            [node.func.value, ast.Constant(node.func.attr)]
                            + node.args, node.keywords)
        return ast.Call(ast.Name('__sx_call__', ast.Load()),
                        [node.func] + node.args, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        interesting = any(isinstance(o, (ast.In, ast.NotIn, ast.Is,
                                         ast.IsNot)) for o in node.ops)
        if not interesting or len(node.ops) != 1:
            return node
        op, left, right = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__sx_in__', ast.Load()), [left, right], [])
        else:
            c = ast.Call(ast.Name('__sx_is__', ast.Load()), [left, right], [])
        if isinstance(op, (ast.NotIn, ast.IsNot)):
            return ast.UnaryOp(ast.Not(), c)
        return c

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(ast.Name('__sx_mod__', ast.Load()),
                            [node.left, node.right], [])
        if isinstance(node.op, ast.Add):
            return ast.Call(ast.Name('__sx_add__', ast.Load()),
                            [node.left, node.right], [])
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec or ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion),
                                        spec], ast.Load()))
            else:
                parts.append(v)
        return ast.Call(ast.Name('__sx_fstr__', ast.Load()), parts, [])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(ast.Name('__sx_slice__', ast.Load()),
                              [sl.lower or none, sl.upper or none,
                               sl.step or none], [])
            elif isinstance(sl, ast.Tuple) and any(
                    isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return node
            return ast.Call(ast.Name('__sx_get__', ast.Load()),
                            [node.value, sl], [])
        return node

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value else None
        return node


def rewrite(source, modname, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, world, name, path, ispkg):
        self.world, self.name, self.path = world, name, path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        code = rewrite(src, self.name, self.path)
        module.__dict__['__builtins__'] = self.world.builtins
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, world):
        self.world = world

    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and \
                os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(self.world, name, p, True),
                submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py',
                loader=Loader(self.world, name, base + '.py', False))
        return None


class World(object):
    """A private set of instrumented channelpack modules."""

    def __init__(self):
        from . import shims
        self.finder = Finder(self)
        self.saved = {}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        for k in dir(shims):
            if k.startswith('__sx_'):
                self.builtins[k] = getattr(shims, k)
        self.mods = {}

    def _swap_in(self):
        real = {k: v for k, v in sys.modules.items()
                if k == PKG or k.startswith(PKG + '.')}
        for k in real:
            del sys.modules[k]
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, self.finder)
        return real

    def _swap_out(self, real):
        sys.meta_path.remove(self.finder)
        mine = {k: v for k, v in sys.modules.items()
                if k == PKG or k.startswith(PKG + '.')}
        for k in mine:
            del sys.modules[k]
        self.mods = mine
        sys.modules.update(real)

    depth = 0

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        ours = name.split('.')[0] == PKG or level > 0
        if not ours:
            return builtins.__import__(name, globals, locals, fromlist, level)
        if self.depth:
            return builtins.__import__(name, globals, locals, fromlist, level)
        real = self._swap_in()
        self.depth += 1
        try:
            return builtins.__import__(name, globals, locals, fromlist, level)
        finally:
            self.depth -= 1
            self._swap_out(real)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        real = self._swap_in()
        self.depth += 1
        try:
            return importlib.import_module(name)
        finally:
            self.depth -= 1
            self._swap_out(real)
