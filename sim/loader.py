"""
Loads fresh, instrumented instances of the pilo package from /repo's working tree.

Instrumentation is done on the AST, in memory: a yield point (`__sim_y__()`) before every statement
of every function, `__sim_v__(x)` around every attribute load, and attribute/subscript/global
read-modify-write assignments split into a load, a yield point and a store.  The meaning of the code
is unchanged; it only gets places at which the simulator may switch threads.
"""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PILO = os.path.join(REPO, 'pilo') + os.sep


class StepLimit(BaseException):
    """The code under test took more steps than the run allows."""


class _State(object):
    __slots__ = ('budget', 'hook')


STATE = _State()
STATE.budget = 1 << 60
STATE.hook = None


def _slow():
    hook = STATE.hook
    if hook is None:
        STATE.budget = 1 << 60
        raise StepLimit()
    hook()


def sim_y():
    STATE.budget -= 1
    if STATE.budget < 0:
        _slow()


def sim_v(value):
    STATE.budget -= 1
    if STATE.budget < 0:
        _slow()
    return value


_IOPS = {
    ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul', ast.Div: 'itruediv', ast.FloorDiv: 'ifloordiv',
    ast.Mod: 'imod', ast.Pow: 'ipow', ast.LShift: 'ilshift', ast.RShift: 'irshift', ast.BitOr: 'ior',
    ast.BitXor: 'ixor', ast.BitAnd: 'iand', ast.MatMult: 'imatmul',
}


class Instrument(ast.NodeTransformer):

    def __init__(self):
        self.depth = 0
        self.globals = [set()]

    # functions

    def _function(self, node):
        node.args.defaults = [self.visit(d) if self.depth else d for d in node.args.defaults]
        if self.depth:
            node.decorator_list = [self.visit(d) for d in node.decorator_list]
        declared = set()
        for sub in ast.walk(node):
            if isinstance(sub, ast.Global):
                declared.update(sub.names)
        self.depth += 1
        self.globals.append(declared)
        node.body = self._block(node.body, docstring=True)
        self.globals.pop()
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        # class bodies are executed at import or in functions; only the functions in them matter
        depth, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def _y(self, at):
        call = ast.Expr(ast.Call(ast.Name('__sim_y__', ast.Load()), [], []))
        return ast.fix_missing_locations(ast.copy_location(call, at))

    def _block(self, stmts, docstring=False):
        out = []
        for i, stmt in enumerate(stmts):
            if isinstance(stmt, (ast.Global, ast.Nonlocal)):
                out.append(stmt)
                continue
            if (docstring and i == 0 and isinstance(stmt, ast.Expr) and
                    isinstance(stmt.value, ast.Constant) and isinstance(stmt.value.value, str)):
                out.append(stmt)
                continue
            out.append(self._y(stmt))
            new = self.visit(stmt)
            out.extend(new if isinstance(new, list) else [new])
        return out

    def generic_visit(self, node):
        if self.depth and isinstance(node, ast.stmt):
            for name in ('body', 'orelse', 'finalbody'):
                block = getattr(node, name, None)
                if isinstance(block, list) and block and isinstance(block[0], ast.stmt):
                    setattr(node, name, self._block(block))
            for field, value in ast.iter_fields(node):
                if field in ('body', 'orelse', 'finalbody'):
                    continue
                self._visit_field(node, field, value)
            return node
        if self.depth and isinstance(node, ast.ExceptHandler):
            node.type = self.visit(node.type) if node.type else None
            node.body = self._block(node.body)
            return node
        return super(Instrument, self).generic_visit(node)

    def _visit_field(self, node, field, value):
        if isinstance(value, list):
            value[:] = [self.visit(v) if isinstance(v, ast.AST) else v for v in value]
        elif isinstance(value, ast.AST):
            setattr(node, field, self.visit(value))

    def visit_JoinedStr(self, node):
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return node
        call = ast.Call(ast.Name('__sim_v__', ast.Load()), [node], [])
        return ast.fix_missing_locations(ast.copy_location(call, node))

    def visit_AugAssign(self, node):
        if not self.depth:
            return node
        target, value = node.target, self.visit(node.value)
        op = _IOPS[type(node.op)]

        def name(n, c):
            return ast.Name(n, c)

        def call(f, *args):
            return ast.Call(f, list(args), [])

        pre = []
        if isinstance(target, ast.Attribute):
            pre.append(ast.Assign([name('__sim_t', ast.Store())], self.visit(target.value)))
            load = ast.Attribute(name('__sim_t', ast.Load()), target.attr, ast.Load())
            store = ast.Attribute(name('__sim_t', ast.Load()), target.attr, ast.Store())
        elif isinstance(target, ast.Subscript) and not isinstance(target.slice, (ast.Slice, ast.Tuple)):
            index = target.slice.value if target.slice.__class__.__name__ == 'Index' else target.slice
            pre.append(ast.Assign([name('__sim_t', ast.Store())], self.visit(target.value)))
            pre.append(ast.Assign([name('__sim_i', ast.Store())], self.visit(index)))

            def sl():
                n = name('__sim_i', ast.Load())
                return n if sys.version_info >= (3, 9) else ast.Index(n)
            load = ast.Subscript(name('__sim_t', ast.Load()), sl(), ast.Load())
            store = ast.Subscript(name('__sim_t', ast.Load()), sl(), ast.Store())
        elif isinstance(target, ast.Name) and target.id in self.globals[-1]:
            load = name(target.id, ast.Load())
            store = name(target.id, ast.Store())
        else:
            node.value = value
            return node
        fn = ast.Attribute(name('__sim_op__', ast.Load()), op, ast.Load())
        pre.append(ast.Assign([store], call(fn, call(name('__sim_v__', ast.Load()), load), value)))
        return [ast.fix_missing_locations(ast.copy_location(n, node)) for n in pre]


_CODE = {}


def _code(path):
    if path not in _CODE:
        with open(path, 'rb') as fo:
            source = fo.read()
        tree = ast.parse(source, path)
        tree = ast.fix_missing_locations(Instrument().visit(tree))
        _CODE[path] = compile(tree, path, 'exec', dont_inherit=True)
    return _CODE[path]


class _Loader(importlib.abc.Loader):

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        import operator
        d = module.__dict__
        d['__sim_y__'] = sim_y
        d['__sim_v__'] = sim_v
        d['__sim_op__'] = operator
        d['__file__'] = self.path
        exec(_code(self.path), d)


class _Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path, target=None):
        if name != 'pilo' and not name.startswith('pilo.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            return importlib.machinery.ModuleSpec(name, _Loader(base + '.py'), origin=base + '.py')
        return None


_FINDER = _Finder()
_WARM = [False]


def _purge():
    for name in [n for n in sys.modules if n == 'pilo' or n.startswith('pilo.')]:
        del sys.modules[name]


def _threading_proxy():
    import threading
    from . import sched
    proxy = types.ModuleType('threading')
    proxy.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith('__')})
    proxy.Lock = sched.SimLock
    proxy.RLock = sched.SimRLock
    proxy.Condition = sched.SimCondition
    proxy.Event = sched.SimEvent
    proxy.Semaphore = proxy.BoundedSemaphore = sched.SimSemaphore
    return proxy


def load():
    """A fresh instance of the package, as in a new process."""
    import threading
    import warnings
    if _FINDER not in sys.meta_path:
        sys.meta_path.insert(0, _FINDER)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not _WARM[0]:
            # third party and standard modules first see the real threading module
            _purge()
            importlib.import_module('pilo')
            _WARM[0] = True
        _purge()
        sys.modules['threading'] = _threading_proxy()
        try:
            pilo = importlib.import_module('pilo')
        finally:
            sys.modules['threading'] = threading
    return pilo
