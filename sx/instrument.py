"""Loads /repo's modules with their AST lightly rewritten so that operations
the Python data model does not let a proxy intercept (calls of builtins and C
functions, f-strings, `in`, `%`, subscripts, bare except) go through sx
helpers.  The logic executed is the source as it stands in /repo."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

REPO = '/repo'
PKG = 'impactutils'
FUNCTIONS = set()

SKIP_CALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, n, *args):
        return ast.Call(func=self._name(n), args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        # decorators and defaults are evaluated outside
        self.generic_visit(node)
        self.stack.pop()
        doc = node.body and isinstance(node.body[0], ast.Expr) and \
            isinstance(node.body[0].value, ast.Constant) and \
            isinstance(node.body[0].value.value, str)
        enter = ast.Expr(self._call('_sx_enter__', ast.Constant(f'{self.mod}:{qual}')))
        node.body.insert(1 if doc else 0, enter)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALL:
            return node
        return ast.Call(func=self._name('_sx_call__'), args=[node.func] + node.args,
                        keywords=node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return self._call('_sx_fstr__', ast.List(parts, ast.Load()))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._call('_sx_in__', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), r)
            return r
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            return node
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_sx_mod__', node.left, node.right)
        if isinstance(node.op, ast.Div):
            return self._call('_sx_div__', node.left, node.right)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if not isinstance(sl, (ast.Slice,)) and not (
                    isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts)):
                return self._call('_sx_getitem__', node.value, sl)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(ast.Expr(self._call('_sx_setitem__', node.value, t.value, t.slice)), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = self._name('_sx_Exception__')
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = self._name('_sx_Exception__')
        return node


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    # keep `from __future__` first
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


def inject(ns):
    from . import calls
    ns['_sx_call__'] = calls.call
    ns['_sx_fstr__'] = calls.fstr
    ns['_sx_in__'] = calls.contains
    ns['_sx_mod__'] = calls.mod
    ns['_sx_div__'] = calls.div
    ns['_sx_getitem__'] = calls.getitem
    ns['_sx_setitem__'] = calls.setitem
    ns['_sx_Exception__'] = Exception
    ns['_sx_enter__'] = FUNCTIONS.add


IMPORT_OVERRIDES = {}     # module name -> {imported name: replacement module}


def builtins_for(name):
    table = IMPORT_OVERRIDES.get(name)
    if not table:
        return None
    d = dict(vars(builtins))
    real = builtins.__import__

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if level == 0 and n in table:
            return table[n]
        return real(n, g, l, fromlist, level)
    d['__import__'] = imp
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, pkg):
        self.path, self.name, self.pkg = path, name, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        code = transform(src, self.path, self.name)
        inject(module.__dict__)
        b = builtins_for(self.name)
        if b:
            module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if os.path.isfile(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=Loader(init, fullname, True),
                    submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(f, fullname, False))
        return None


def install():
    import importlib.machinery  # noqa
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    from . import calls
    calls.setup()


def load_instrumented(path, name):
    """A stdlib source file, instrumented, under a private name."""
    import types
    m = types.ModuleType(name)
    m.__file__ = path
    with open(path) as f:
        src = f.read()
    code = transform(src, path, name)
    inject(m.__dict__)
    sys.modules[name] = m
    exec(code, m.__dict__)
    return m
