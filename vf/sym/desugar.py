"""Mechanical desugaring of the sources for chains with a symbolic number of sites.

Only the *iteration protocol* is made explicit, everything else of the text is kept:

* ``[e for t in s if c]``, ``(e for t in s if c)``   ->  ``vf__comp(kind, lambda: e, s, lambda: c)``
* ``for t in s: body``    ->  ``it = vf__loop(id, s); for t in it: havoc of the locals; body``
* a generator function ``for t in s: yield e``       ->  ``return vf__comp('gen', lambda: e, s)``
* ``x += y``              ->  ``x = vf__iadd(x, y)``,  ``s.indices(n)`` -> ``vf__indices(s, n)``

For iterables of concrete length all of these behave as the original statement
(tested by tools/selftest.py, which runs the stable tests on desugared sources).
"""
import ast
import importlib.machinery
import importlib.util
import sys


def names(targets):
    out = []
    for t in targets:
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
    return out


class Assigned(ast.NodeVisitor):
    """Local names which a block assigns"""

    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def load(n):
    return ast.Name(n, ast.Load())


def call(f, *args):
    return ast.Call(load(f), list(args), [])


class Desugar(ast.NodeTransformer):
    def __init__(self):
        self.stack = []
        self.count = {}

    @property
    def qualname(self):
        return '.'.join(self.stack)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        body = n.body
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        if len(body) == k + 1 and isinstance(body[k], ast.For) and not body[k].orelse and \
                len(body[k].body) == 1 and isinstance(body[k].body[0], ast.Expr) and \
                isinstance(body[k].body[0].value, ast.Yield) and body[k].body[0].value.value is not None:
            f = body[k]
            gen = ast.GeneratorExp(f.body[0].value.value,
                                   [ast.comprehension(f.target, f.iter, [], 0)])
            n.body = body[:k] + [ast.copy_location(ast.Return(self.visit(ast.copy_location(gen, f))), f)]
        else:
            n = self.generic_visit(n)
        self.stack.pop()
        return n

    def _comp(self, n, kind):
        if len(n.generators) > 1 and not any(g.is_async for g in n.generators):
            # e for t in s for u in v ...  ->  concatenation over t of (e for u in v ...)
            inner = ast.copy_location(ast.GeneratorExp(n.elt, n.generators[1:]), n)
            outer = ast.copy_location(ast.GeneratorExp(inner, n.generators[:1]), n)
            return ast.copy_location(call('vf__flat', ast.Constant(kind), self.visit(outer)), n)
        n = self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return n

        def fun(elt, conds):
            inner = ast.ListComp(elt, [ast.comprehension(
                g.target, ast.Tuple([load('vf__e')], ast.Load()), conds, 0)])
            return ast.Lambda(ast.arguments([], [ast.arg('vf__e')], None, [], [], None, []), inner)
        args = [ast.Constant(kind), fun(n.elt, []), g.iter]
        if g.ifs:
            args.append(fun(ast.Constant(True), g.ifs))
        return ast.copy_location(call('vf__comp', *args), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(n.target.id, ast.Store())],
                                                call('vf__iadd', load(n.target.id), n.value)), n)
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'indices' and len(n.args) == 1:
            return ast.copy_location(call('vf__indices', n.func.value, n.args[0]), n)
        return n

    def visit_For(self, n):
        a = Assigned()
        for s in n.body:
            a.visit(s)
        simple = all(isinstance(s, (ast.Assert, ast.Pass)) for s in n.body)
        n = self.generic_visit(n)
        k = self.count[self.qualname] = self.count.get(self.qualname, 0) + 1
        it = 'vf__it%d' % (sum(self.count.values()))
        tg = [x for x in names([n.target]) if x not in a.names]

        def havoc(xs):
            return ast.If(ast.Attribute(load(it), 'sym', ast.Load()),
                          [ast.Assign([ast.Name(x, ast.Store())],
                                      ast.Call(ast.Attribute(load(it), 'local', ast.Load()),
                                               [ast.Constant(x)], [])) for x in xs] or [ast.Pass()], [])
        pre = ast.Assign([ast.Name(it, ast.Store())],
                         call('vf__loop', ast.Constant('%s#%d' % (self.qualname, k)), n.iter,
                              ast.Constant(simple), ast.Constant(tuple(a.names))))
        n.iter = load(it)
        n.body = [havoc([x for x in a.names if x not in names([n.target])])] + n.body
        out = [pre, n, havoc(a.names + tg)]
        for s in out:
            ast.copy_location(s, n)
        return out


def transform(source, filename):
    tree = Desugar().visit(ast.parse(source, filename))
    return ast.fix_missing_locations(tree)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        path = self.get_filename(name)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with open(path, encoding='utf-8') as f:
                return compile(transform(f.read(), path), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(RUNTIME)
        super().exec_module(module)


RUNTIME = {}


class Finder(object):
    """Imports of the package ``mpnum`` from one directory through the desugaring loader"""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name != 'mpnum' and not name.startswith('mpnum.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, [self.path] if path is None else path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec
