"""Loads the package from /repo/src (Python 2 source) into an isolated module
universe, either over real numerics or over the symbolic stand-ins.  The source
is read and translated anew in every process."""
import ast
import builtins
import importlib
import itertools
import os
import sys
import types
import warnings

warnings.simplefilter('ignore')

from lib2to3 import refactor, pytree, pygram
from lib2to3.pgen2 import driver

from .py2 import Py2, make_builtins

SRC = os.environ.get('CGPM_SRC', '/repo/src')

FIXERS = ['apply', 'except', 'exec', 'funcattrs', 'has_key', 'methodattrs',
          'ne', 'numliterals', 'paren', 'print', 'raise', 'repr',
          'tuple_params', 'unicode', 'intern', 'exitfunc', 'isinstance',
          'long', 'next', 'nonzero', 'sys_exc', 'throw', 'types', 'ws_comma']
FIXERS = ['lib2to3.fixes.fix_' + f for f in FIXERS
          if f not in ('ws_comma', 'isinstance', 'long', 'exitfunc',
                       'methodattrs', 'types')]

_TOOL = None


def _tool():
    global _TOOL
    if _TOOL is None:
        _TOOL = (refactor.RefactoringTool(FIXERS),
                 refactor.RefactoringTool(
                     [f for f in FIXERS if not f.endswith('fix_print')],
                     {'print_function': True}))
    return _TOOL


def translate(source, path):
    """Python 2 source -> Python 3 AST (before the semantic transform)."""
    if not source.endswith('\n'):
        source += '\n'
    err = None
    for t in _tool():
        try:
            tree = t.refactor_string(source, path)
            return ast.parse(str(tree), path)
        except Exception as e:      # noqa: B902
            err = err or e
    try:
        return ast.parse(source, path)
    except SyntaxError:
        raise err


_OPN = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
        ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'is_', ast.IsNot: 'is_not',
        ast.In: 'in', ast.NotIn: 'not_in'}


class Transform(ast.NodeTransformer):
    def __init__(self, modname, symbolic, truediv):
        self.modname = modname
        self.symbolic = symbolic
        self.truediv = truediv
        self.qual = []

    def _h(self, name, args, node):
        n = ast.Call(
            func=ast.Attribute(value=ast.Name(id='__py2__', ctx=ast.Load()),
                               attr=name, ctx=ast.Load()),
            args=args, keywords=[])
        return ast.copy_location(n, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.truediv:
            return self._h('div', [node.left, node.right], node)
        if isinstance(node.op, ast.Div) and self.symbolic:
            return self._h('tdiv', [node.left, node.right], node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            return self._h('fmt', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            import copy
            load = copy.deepcopy(node.target)
            for n in ast.walk(load):
                if hasattr(n, 'ctx'):
                    n.ctx = ast.Load()
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._h('idiv' if not self.truediv else 'itdiv',
                              [load, node.value], node)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = [type(o) for o in node.ops]
        if len(ops) == 1:
            if ops[0] in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                return self._h('cmp', [
                    ast.Constant(value=_OPN[ops[0]]), node.left,
                    node.comparators[0]], node)
            return node
        rest = []
        for o, c in zip(ops, node.comparators):
            lam = ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=c)
            rest.append(ast.Tuple(elts=[ast.Constant(value=_OPN[o]), lam],
                                  ctx=ast.Load()))
        return self._h('chain', [node.left] + rest, node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr in ('keys', 'values', 'items', 'iterkeys', 'itervalues',
                          'iteritems') and not node.args and not node.keywords:
                return self._h(f.attr, [f.value], node)
            if f.attr == 'translate' and len(node.args) == 2:
                return self._h('translate', [f.value] + node.args, node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__func__' and isinstance(node.ctx, ast.Load):
            return self._h('func', [node.value], node)
        if node.attr == 'func_code':
            node.attr = '__code__'
        return node

    def visit_Constant(self, node):
        if self.symbolic and isinstance(node.value, float):
            text = repr(node.value)
            if 'inf' in text or 'nan' in text:
                return node
            return self._h('q', [ast.Constant(value=text)], node)
        return node

    def _func(self, node):
        self.qual.append(node.name)
        name = '%s:%s' % (self.modname, '.'.join(self.qual))
        self.generic_visit(node)
        self.qual.pop()
        call = ast.Expr(self._h('enter', [ast.Constant(value=name)], node))
        ast.copy_location(call, node)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                    body[0].value.value, str):
            node.body = [body[0], call] + body[1:]
        else:
            node.body = [call] + body
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        return node


def transform(tree, modname, symbolic):
    truediv = any(isinstance(n, ast.ImportFrom) and n.module == '__future__'
                  and any(a.name == 'division' for a in n.names)
                  for n in tree.body)
    tree = Transform(modname, symbolic, truediv).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class _Mods(dict):
    def __init__(self, mods):
        dict.__init__(self, sys.modules)
        self.mods = mods

    def __missing__(self, k):
        return self.mods[k]


class Universe(object):
    def __init__(self, symbolic, stubs=None, src=None):
        self.symbolic = symbolic
        self.src = src or SRC
        self.py2 = Py2(symbolic)
        self.modules = {}
        self.ext = dict(stubs or {})
        self.files = {}
        self._builtins = make_builtins(self)
        self._setup_ext(list(stubs or ()))

    # ---- external modules
    def _setup_ext(self, stubs):
        ext = self.ext
        it = types.ModuleType('itertools')
        it.__dict__.update({k: v for k, v in itertools.__dict__.items()
                            if not k.startswith('__')})
        it.izip, it.imap, it.ifilter = zip, map, filter
        it.izip_longest = itertools.zip_longest
        ext.setdefault('itertools', it)
        il = types.ModuleType('importlib')
        il.import_module = self.import_module
        ext.setdefault('importlib', il)
        import pickle
        ext.setdefault('cPickle', pickle)
        sy = types.ModuleType('sys')
        sy.__dict__.update({k: v for k, v in sys.__dict__.items()
                            if not k.startswith('__')})
        sy.modules = _Mods(self.modules)
        ext.setdefault('sys', sy)
        import string
        st = types.ModuleType('string')
        st.__dict__.update({k: v for k, v in string.__dict__.items()
                            if not k.startswith('__')})
        st.letters = string.ascii_letters
        ext.setdefault('string', st)
        if self.symbolic:
            from . import shims
            np = shims.make_numpy(self)
            ext.setdefault('numpy', np)
            ext.setdefault('numpy.random', np.random)
            ext.setdefault('numpy.linalg', np.linalg)
            ext.setdefault('math', shims.make_math())
            sc = types.ModuleType('scipy')
            sc.__path__ = []
            for n, mk in (('special', shims.make_special),
                          ('stats', shims.make_stats),
                          ('misc', shims.make_misc),
                          ('linalg', shims.make_la)):
                m = mk()
                setattr(sc, n, m)
                ext.setdefault('scipy.' + n, m)
            import scipy.integrate
            import scipy.spatial
            import scipy.sparse.csgraph
            sc.integrate = scipy.integrate
            sc.spatial = scipy.spatial
            cg = types.ModuleType('scipy.sparse.csgraph')
            real = scipy.sparse.csgraph

            def connected_components(csgraph, *a, **k):
                return real.connected_components(
                    shims.plain(csgraph), *a, **k)
            cg.connected_components = connected_components
            ext.setdefault('scipy.sparse.csgraph', cg)
            ext.setdefault('scipy', sc)
        else:
            import scipy
            import scipy.special
            import scipy.stats
            import scipy.linalg
            import scipy.integrate
            import scipy.spatial
            sc = types.ModuleType('scipy')
            sc.__path__ = []
            misc = types.ModuleType('scipy.misc')
            misc.logsumexp = scipy.special.logsumexp
            sc.misc = misc
            for n in ('special', 'stats', 'linalg', 'integrate', 'spatial'):
                setattr(sc, n, getattr(scipy, n))
            ext.setdefault('scipy', sc)
            ext.setdefault('scipy.misc', misc)
        # stand-ins for parts of numpy and scipy, however they are imported
        for name in stubs:
            top, _, part = name.partition('.')
            if top in ('numpy', 'scipy') and part and '.' not in part:
                if top not in ext:
                    real = importlib.import_module(top)
                    m = types.ModuleType(top)
                    m.__dict__.update(real.__dict__)
                    ext[top] = m
                setattr(ext[top], part, ext[name])

    # ---- importing
    def _path(self, name):
        """File of a cgpm module, and whether it is a package."""
        rel = name.split('.')[1:]
        base = os.path.join(self.src, *rel)
        if os.path.isdir(base) and os.path.isfile(
                os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        if name == 'cgpm.version' and self._path(name)[0] is None:
            m = types.ModuleType(name)
            m.__version__ = '0'
            self.modules[name] = m
            return m
        if name in self.ext:
            m = self.modules[name] = self.ext[name]
            setattr(parent, name.rpartition('.')[2], m)
            return m
        path, pkg = self._path(name)
        if path is None:
            raise ImportError('No module named %s' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self._builtins
        self.modules[name] = m
        try:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = transform(translate(src, path), name, self.symbolic)
            code = compile(tree, path, 'exec', dont_inherit=True)
            self.files[name] = path
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def _external(self, name):
        if name in self.ext:
            return self.ext[name]
        top = name.partition('.')[0]
        if top in self.ext and '.' in name:
            m = self.ext[top]
            if not getattr(m, '__stub_open__', False):
                obj = m
                ok = True
                for part in name.split('.')[1:]:
                    if not hasattr(obj, part):
                        ok = False
                        break
                    obj = getattr(obj, part)
                if ok:
                    return obj
        return importlib.import_module(name)

    def import_module(self, name, package=None):
        if name == 'cgpm' or name.startswith('cgpm.'):
            return self.load(name)
        return self._external(name)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        pkg = (globals or {}).get('__package__') or ''
        if level and level > 0:
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            full = base + ('.' + name if name else '')
            m = self.load(full)
            return self._from(m, full, fromlist) if fromlist else m
        if name == 'cgpm' or name.startswith('cgpm.'):
            m = self.load(name)
            if fromlist:
                return self._from(m, name, fromlist)
            return self.load('cgpm')
        if pkg.startswith('cgpm'):
            full = pkg + '.' + name
            if '.' not in name and self._path(full)[0] is not None and \
                    pkg != 'cgpm':
                m = self.load(full)
                return self._from(m, full, fromlist) if fromlist else m
        if name == '__future__':
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self._external(name)
        if fromlist:
            for n in fromlist:
                if n != '*' and not hasattr(m, n):
                    try:
                        self._external(name + '.' + n)
                    except ImportError:
                        pass
            return m
        top = name.partition('.')[0]
        if top in self.ext:
            return self.ext[top]
        return sys.modules.get(top) or importlib.import_module(top)

    def _from(self, m, full, fromlist):
        for n in fromlist:
            if n != '*' and not hasattr(m, n):
                sub = full + '.' + n
                if self._path(sub)[0] is not None:
                    self.load(sub)
        return m

    def __getitem__(self, name):
        """U['primitives.normal'] -> module."""
        return self.load('cgpm.' + name if name else 'cgpm')

    def functions(self):
        return sorted(self.py2.functions)
