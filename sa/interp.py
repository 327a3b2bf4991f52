"""Abstract interpreter over the syntax trees of the analysed repository.

The repository is never imported or executed.  Its source files are parsed with
``ast`` and interpreted over the abstract domain of ``values``.  Conditions
that the abstract state does not determine split the state; every resulting
disjunct is analysed on its own (trace partitioning), and the split is memoised
so that one condition is never decided both ways on a single path.
"""
import ast
import builtins as _hb
import operator as _op
import os
import string as _string
import threading

from .values import *

MAX_STEPS = 4000000
MAX_DEPTH = 120

_BIN = {
    ast.Add: (_op.add, '__add__', '__radd__', '+'),
    ast.Sub: (_op.sub, '__sub__', '__rsub__', '-'),
    ast.Mult: (_op.mul, '__mul__', '__rmul__', '*'),
    ast.Div: (_op.truediv, '__truediv__', '__rtruediv__', '/'),
    ast.FloorDiv: (_op.floordiv, '__floordiv__', '__rfloordiv__', '//'),
    ast.Mod: (_op.mod, '__mod__', '__rmod__', '%'),
    ast.Pow: (_op.pow, '__pow__', '__rpow__', '**'),
    ast.BitAnd: (_op.and_, '__and__', '__rand__', '&'),
    ast.BitOr: (_op.or_, '__or__', '__ror__', '|'),
    ast.BitXor: (_op.xor, '__xor__', '__rxor__', '^'),
    ast.LShift: (_op.lshift, '__lshift__', '__rlshift__', '<<'),
    ast.RShift: (_op.rshift, '__rshift__', '__rrshift__', '>>'),
    ast.MatMult: (_op.matmul, '__matmul__', '__rmatmul__', '@'),
}
_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
        ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
        ast.In: 'in', ast.NotIn: 'not in'}
_DUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
           '>': '__gt__', '>=': '__ge__'}
_REFL = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}
_HOST = {'==': _op.eq, '!=': _op.ne, '<': _op.lt, '<=': _op.le, '>': _op.gt,
         '>=': _op.ge}

HOST_SCALARS = (int, float, complex, str, bytes, bool, type(None),
                type(Ellipsis))


def is_host(v):
    """Fully known builtin value."""
    if isinstance(v, HOST_SCALARS) or isinstance(v, range):
        return True
    if isinstance(v, (tuple, frozenset)):
        return all(is_host(x) for x in v)
    if isinstance(v, (list, set)):
        return all(is_host(x) for x in v)
    if isinstance(v, dict):
        return all(is_host(k) and is_host(x) for k, x in v.items())
    return False


class Frame:
    __slots__ = ('name', 'file', 'line')

    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line


_LOCALS = {}


def _collect_targets(node, out):
    if isinstance(node, ast.Name):
        out.add(node.id)
    elif isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            _collect_targets(e, out)
    elif isinstance(node, ast.Starred):
        _collect_targets(node.value, out)


def function_names(node):
    """(locals, globals, nonlocals, is_generator) of a function node."""
    key = id(node)
    if key in _LOCALS:
        return _LOCALS[key][1]
    loc, glob, nonl, gen = set(), set(), set(), [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            loc.add(x.arg)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    _collect_targets(sub.target, loc)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx,
                                                    (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in (node.body if isinstance(node.body, list) else [node.body]):
        walk(s)
    res = (loc - glob - nonl, glob, nonl, gen[0])
    _LOCALS[key] = (node, res)
    return res


class ThreadGen:
    """Generator function, run in a helper thread in strict alternation."""

    def __init__(self, interp, body):
        self.I, self.body = interp, body
        self.th = None
        self.done = False
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.msg = None
        self.inject = None
        self.sent = None

    def _run(self):
        self.go.acquire()
        try:
            if self.inject:
                e, self.inject = self.inject, None
                raise e
            self.body(self)
            self.msg = ('end', None)
        except ReturnEx as r:
            self.msg = ('end', r.value)
        except BaseException as e:
            self.msg = ('exc', e)
        self.done = True
        self.back.release()

    def yield_(self, value):
        self.msg = ('val', value)
        self.back.release()
        self.go.acquire()
        if self.inject:
            e, self.inject = self.inject, None
            raise e
        return self.sent

    def resume(self, inject=None, sent=None):
        if self.done:
            raise StopIteration
        self.sent = sent
        if self.th is None:
            self.th = threading.Thread(target=self._run, daemon=True)
            self.th.start()
        self.inject = inject
        saved = list(self.I.stack)
        self.go.release()
        self.back.acquire()
        self.I.stack[:] = saved
        kind, v = self.msg
        if kind == 'val':
            return v
        if kind == 'exc':
            raise v
        raise StopIteration(v)

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume()


class GenObj(Model):
    tname = 'generator'

    def __init__(self, tg):
        self.tg = tg

    def sa_iter(self, I):
        return self.tg

    def step(self, I, **k):
        try:
            return self.tg.resume(**k)
        except StopIteration as e:
            raise I.exc('StopIteration', *([] if e.value is None
                                           else [e.value]))

    def close(self, I):
        if self.tg.th is None or self.tg.done:
            self.tg.done = True
            return
        try:
            self.tg.resume(inject=I.exc('GeneratorExit'))
        except StopIteration:
            return
        except Raised as r:
            if I.exc_is(r, 'GeneratorExit'):
                return
            raise
        raise I.exc('RuntimeError', 'generator ignored GeneratorExit')

    def sa_getattr(self, I, name):
        if name == '__next__':
            return Native('next', lambda I: I.next_(self))
        if name == '__iter__':
            return Native('iter', lambda I: self)
        if name == 'close':
            return Native('close', self.close)
        if name == 'send':
            return Native('send', lambda I, v: self.step(I, sent=v))
        if name == 'throw':
            return Native('throw', lambda I, e, *a: self.step(
                I, inject=I.raised(I.call(e, list(a)) if isinstance(
                    e, ClassVal) else e)))
        if name.startswith('gi_'):
            raise Unsupported('generator.' + name)
        raise I.no_attr(self, name)


_SIGS = {
    'scipy.io.savemat': ('file_name', 'mdict'),
    'scipy.io.loadmat': ('file_name', 'mdict'),
    'np.load': ('file',), 'np.savez': ('file',),
    'np.savez_compressed': ('file',), 'np.array': ('object', 'dtype'),
    'np.asarray': ('a', 'dtype'), 'np.any': ('a',), 'np.all': ('a',),
    'np.max': ('a',), 'np.min': ('a',), 'np.amax': ('a',),
    'np.amin': ('a',), 'np.ravel': ('a',), 'np.reshape': ('a', 'shape'),
    'np.squeeze': ('a',), 'np.copy': ('a',), 'np.ndim': ('a',),
    'np.shape': ('a',), 'np.size': ('a',), 'np.count_nonzero': ('a',),
    'np.array_equal': ('a1', 'a2'), 'np.frombuffer': ('buffer', 'dtype'),
    'np.full': ('shape', 'fill_value', 'dtype'),
    'np.zeros': ('shape', 'dtype'), 'np.empty': ('shape', 'dtype'),
    'np.ones': ('shape', 'dtype'), 'np.issubdtype': ('arg1', 'arg2'),
    'importlib.import_module': ('name', 'package'),
    'os.path.exists': ('path',), 'os.path.isfile': ('path',),
    'os.path.isdir': ('s',), 'os.path.basename': ('p',),
    'os.path.dirname': ('p',), 'os.path.splitext': ('p',),
    'os.remove': ('path',), 'os.replace': ('src', 'dst'),
    'os.rename': ('src', 'dst'), 'open': ('file', 'mode'),
    'json.dumps': ('obj',), 'json.loads': ('s',),
    'hashlib.sha256': ('string',), 'copy.deepcopy': ('x',),
    'copy.copy': ('x',), 'enumerate': ('iterable', 'start'),
    'sum': ('iterable', 'start'), 'itertools.chain': (),
}
_X, _E = {}, {}
_SPECIAL = frozenset(('super', 'globals', 'locals', 'vars', 'dir'))


class Interp:
    def __init__(self, repo, sources, libs, script=()):
        self.repo = repo
        self.sources = sources          # module name -> (file, ast)
        self.script = list(script)
        self.trace = []                 # (n_options, chosen, why, where)
        self.memo = {}
        self.facts = {}
        self.imprecise = []
        self.stack = []
        self.steps = 0
        self.modules = {}
        self.calls = set()              # analysed functions
        self.seen = set()               # interpreted statements
        self.effects = []               # file-system effects
        self.exit_funcs = []            # run when the process ends
        self.exc_classes = {}
        self.fresh = 0
        self.libs = libs
        self.builtins = {}
        libs.install(self)

    # ------------------------------------------------------------ utilities
    def where(self):
        for fr in reversed(self.stack):
            if fr.file:
                return '%s:%s in %s' % (fr.file, fr.line, fr.name)
        return '?'

    def callpath(self):
        return ['%s:%s %s' % (f.file, f.line, f.name) for f in self.stack
                if f.file]

    def new_label(self, base):
        self.fresh += 1
        return '%s#%d' % (base, self.fresh)

    def choose(self, n, key, why, imprecise=False):
        if key is not None and key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        c = self.script[i] if i < len(self.script) else 0
        self.trace.append((n, c, why, self.where(), imprecise))
        if len(self.trace) > 60:
            raise Unsupported('too many undetermined conditions')
        if imprecise:
            self.imprecise.append('%s at %s' % (why, self.where()))
        if key is not None:
            self.memo[key] = c
        return c

    def choose_bool(self, key, why, imprecise=False):
        return self.choose(2, key, why, imprecise) == 0

    def exc(self, clsname, *args):
        """Build a Raised for a builtin exception."""
        cls = self.exc_classes[clsname]
        return self.raised(self.call(cls, list(args)))

    def raised(self, obj):
        if isinstance(obj, Obj) and 'origin' not in obj.attrs:
            obj.attrs['origin'] = self.where()
        return Raised(obj)

    def exc_is(self, raised, clsname):
        return self.issubclass_(raised.exc.cls, self.exc_classes[clsname])

    # ------------------------------------------------------------- modules
    def import_module(self, name):
        if isinstance(name, (SStr, Term)):
            raise Unsupported('import of an unknown module name')
        if name in self.modules:
            return self.modules[name]
        if name in self.sources:
            if '.' in name:
                parent = self.import_module(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
            file, tree = self.sources[name]
            ns = {'__name__': name, '__file__': file, '__doc__': None}
            pkg = file.endswith('__init__.py')
            ns['__package__'] = name if pkg else name.rpartition('.')[0]
            if pkg:
                ns['__path__'] = [os.path.dirname(file)]
            mod = ModuleVal(name, ns, file=file)
            self.modules[name] = mod
            scope = Scope('module', None, ns)
            scope.vars = ns
            self.stack.append(Frame('<module %s>' % name, file, 1))
            try:
                self.exec_body(tree.body, scope)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                self.stack.pop()
            if '.' in name:
                parent.ns[name.rpartition('.')[2]] = mod
            return mod
        if name.split('.')[0] == 'dsch':
            raise self.exc('ModuleNotFoundError',
                           "No module named '%s'" % name)
        mod = self.libs.module(self, name)
        self.modules[name] = mod
        return mod

    # ---------------------------------------------------------- statements
    def exec_body(self, body, scope):
        for st in body:
            self.exec(st, scope)

    def exec(self, st, scope):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('analysis budget exhausted')
        fr = self.stack[-1]
        fr.line = line = getattr(st, 'lineno', fr.line)
        self.seen.add((fr.file, line))
        m = _X.get(type(st))
        if m is None:
            m = getattr(Interp, 'x_' + type(st).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(st).__name__)
            _X[type(st)] = m
        m(self, st, scope)

    def x_Expr(self, st, scope):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, scope)

    def x_Pass(self, st, scope):
        pass

    def x_Return(self, st, scope):
        raise ReturnEx(None if st.value is None
                       else self.eval(st.value, scope))

    def x_Break(self, st, scope):
        raise BreakEx()

    def x_Continue(self, st, scope):
        raise ContinueEx()

    def x_If(self, st, scope):
        if self.truth(self.eval(st.test, scope)):
            self.exec_body(st.body, scope)
        else:
            self.exec_body(st.orelse, scope)

    def x_While(self, st, scope):
        n = 0
        while self.truth(self.eval(st.test, scope)):
            n += 1
            if n > 5000:
                raise Unsupported('unbounded loop')
            try:
                self.exec_body(st.body, scope)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_body(st.orelse, scope)

    def x_For(self, st, scope):
        n = 0
        for item in self.iter_(self.eval(st.iter, scope)):
            n += 1
            if n > 5000:
                raise Unsupported('unbounded loop')
            self.assign(st.target, item, scope)
            try:
                self.exec_body(st.body, scope)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_body(st.orelse, scope)

    def x_Assign(self, st, scope):
        v = self.eval(st.value, scope)
        for t in st.targets:
            self.assign(t, v, scope)

    def x_AnnAssign(self, st, scope):
        if scope.kind == 'class' and isinstance(st.target, ast.Name):
            scope.vars.setdefault('__annotations__', {})[
                st.target.id] = ast.unparse(st.annotation)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, scope), scope)

    def x_AugAssign(self, st, scope):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, scope)
            self.assign(t, self.augop(st.op, cur, self.eval(st.value, scope)),
                        scope)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, scope)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.augop(
                st.op, cur, self.eval(st.value, scope)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, scope)
            k = self.eval(t.slice, scope)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(st.op, cur,
                                          self.eval(st.value, scope)))
        else:
            raise Unsupported('augmented assignment')

    def augop(self, op, cur, val):
        if isinstance(op, ast.Add) and type(cur) is list:
            cur.extend(self.iter_(val))
            return cur
        if isinstance(op, ast.BitOr) and type(cur) is dict:
            self.dict_update(cur, val)
            return cur
        if isinstance(op, ast.BitOr) and type(cur) is set:
            cur.update(self.iter_(val))
            return cur
        if isinstance(cur, Obj):
            m = cur.cls.lookup('__i' + _BIN[type(op)][1][2:])
            if m is not None:
                r = self.call(m, [cur, val])
                if r is not self.builtins['NotImplemented']:
                    return r
            elif cur.payload is not None and isinstance(
                    cur.payload, (list, dict, set)):
                cur.payload = self.augop(op, cur.payload, val)
                return cur
        return self.binop(op, cur, val)

    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, scope)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, scope), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, scope),
                         self.eval(t.slice, scope), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iter_(v))
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                mid = vals[i:len(vals) - k]
                vals = vals[:i] + [mid] + (vals[len(vals) - k:] if k else [])
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                x, scope)
            else:
                if len(vals) != len(t.elts):
                    raise self.exc('ValueError',
                                   'wrong number of values to unpack')
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, scope)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, scope)
        else:
            raise Unsupported('assignment target')

    def bind(self, name, v, scope):
        if name in scope.globnames:
            scope.glob[name] = v
            return
        if name in scope.nonlocals:
            s = scope.parent
            while s is not None:
                if s.kind == 'function' and name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
            raise Unsupported('nonlocal ' + name)
        scope.vars[name] = v

    def x_Delete(self, st, scope):
        for t in st.targets:
            self.delete(t, scope)

    def delete(self, t, scope):
        if isinstance(t, ast.Name):
            if t.id in scope.globnames:
                scope.glob.pop(t.id, None)
            elif t.id in scope.vars:
                del scope.vars[t.id]
            else:
                raise self.exc('NameError', t.id)
        elif isinstance(t, ast.Attribute):
            self.delattr_(self.eval(t.value, scope), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, scope), self.eval(t.slice, scope))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, scope)
        else:
            raise Unsupported('delete')

    def x_Assert(self, st, scope):
        if not self.truth(self.eval(st.test, scope)):
            args = [self.eval(st.msg, scope)] if st.msg else []
            raise self.exc('AssertionError', *args)

    def x_Global(self, st, scope):
        if scope.kind == 'class':
            scope.globnames = tuple(scope.globnames) + tuple(st.names)

    def x_Nonlocal(self, st, scope):
        pass

    def x_Import(self, st, scope):
        for al in st.names:
            mod = self.import_module(al.name)
            if al.asname:
                self.bind(al.asname, mod, scope)
            else:
                top = al.name.split('.')[0]
                self.bind(top, self.import_module(top), scope)

    def x_ImportFrom(self, st, scope):
        name = st.module or ''
        if st.level:
            pkg = scope.glob['__package__'].split('.')
            if st.level > 1:
                pkg = pkg[:-(st.level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        mod = self.import_module(name)
        for al in st.names:
            if al.name == '*':
                names = mod.ns.get('__all__') or [
                    n for n in mod.ns if not n.startswith('_')]
                for n in names:
                    self.bind(n, mod.ns[n], scope)
                continue
            sub = name + '.' + al.name
            if al.name in mod.ns:
                v = mod.ns[al.name]
            elif sub in self.sources:
                v = self.import_module(sub)
            elif mod.native:
                v = self.getattr_(mod, al.name)
            else:
                raise self.exc('ImportError',
                               "cannot import name '%s'" % al.name)
            self.bind(al.asname or al.name, v, scope)

    def x_Raise(self, st, scope):
        if st.exc is None:
            cur = getattr(self, '_handling', None)
            if not cur:
                raise self.exc('RuntimeError', 'No active exception')
            raise Raised(cur[-1])
        e = self.eval(st.exc, scope)
        if isinstance(e, ClassVal):
            e = self.call(e, [])
        if not isinstance(e, Obj):
            if isinstance(e, Unk):
                raise Unsupported('raise of an unknown value')
            raise self.exc('TypeError', 'exceptions must derive from '
                           'BaseException')
        if st.cause is not None:
            c = self.eval(st.cause, scope)
            if isinstance(c, ClassVal):
                c = self.call(c, [])
            e.attrs['__cause__'] = c
            e.attrs['__suppress_context__'] = True
        cur = getattr(self, '_handling', None)
        if cur and cur[-1] is not e:
            e.attrs['__context__'] = cur[-1]
        e.attrs.pop('origin', None)
        raise self.raised(e)

    def x_Try(self, st, scope):
        try:
            try:
                self.exec_body(st.body, scope)
            except Raised as r:
                self.handle(st, r, scope)
            else:
                self.exec_body(st.orelse, scope)
        finally:
            # (also entered for Unsupported etc.; harmless, since the path is
            # abandoned in that case)
            import sys as _s
            et = _s.exc_info()[0]
            if st.finalbody and (et is None or issubclass(
                    et, (Raised, ReturnEx, BreakEx, ContinueEx))):
                self.exec_body(st.finalbody, scope)

    x_TryStar = None

    def handle(self, st, r, scope):
        depth = len(self.stack)
        for h in st.handlers:
            if h.type is None or self.exc_match(
                    r.exc, self.eval(h.type, scope)):
                if h.name:
                    self.bind(h.name, r.exc, scope)
                if not hasattr(self, '_handling'):
                    self._handling = []
                self._handling.append(r.exc)
                try:
                    self.exec_body(h.body, scope)
                finally:
                    self._handling.pop()
                    if h.name:
                        scope.vars.pop(h.name, None)
                return
        raise r

    def exc_match(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(exc, c) for c in cls)
        if isinstance(cls, Unk):
            return self.choose_bool(('excmatch', cls.n, exc.n),
                                    'unknown exception class', True)
        return self.issubclass_(exc.cls, cls)

    def x_With(self, st, scope):
        self.do_with(list(st.items), st.body, scope)

    def do_with(self, items, body, scope):
        if not items:
            self.exec_body(body, scope)
            return
        it = items[0]
        cm = self.eval(it.context_expr, scope)
        v = self.call_method(cm, '__enter__', [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, scope)
        try:
            self.do_with(items[1:], body, scope)
        except Raised as r:
            if self.truth(self.call_method(
                    cm, '__exit__', [r.exc.cls, r.exc, Unk('traceback')])):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call_method(cm, '__exit__', [None, None, None])
            raise
        else:
            self.call_method(cm, '__exit__', [None, None, None])

    def x_FunctionDef(self, st, scope):
        f = self.make_function(st, scope)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d, scope)
            v = self.call(dec, [v])
        self.bind(st.name, v, scope)

    def x_AsyncFunctionDef(self, st, scope):
        def call(I, *a, **k):
            raise Unsupported('coroutine')
        self.bind(st.name, Native(st.name, call), scope)

    def x_TypeAlias(self, st, scope):
        self.bind(st.name.id, BType('typing.' + st.name.id), scope)

    def make_function(self, node, scope):
        defaults = [self.eval(d, scope) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, scope) for a, d in
               zip(node.args.kwonlyargs, node.args.kw_defaults)
               if d is not None}
        mod = scope.glob.get('__name__', '?')
        prefix = self._qual(scope)
        name = getattr(node, 'name', '<lambda>')
        return FuncVal(node, scope, mod, prefix + name, defaults, kwd)

    def _qual(self, scope):
        s = scope
        while s is not None:
            if s.kind == 'class':
                return s.vars.get('__qualname__', '?') + '.'
            if s.kind == 'function' and s.func is not None:
                return s.func.qualname + '.<locals>.'
            s = s.parent
        return ''

    def x_ClassDef(self, st, scope):
        bases = []
        for b in st.bases:
            v = self.eval(b, scope)
            if isinstance(v, Unk):
                raise Unsupported('unknown base class')
            if v is self.libs.generic_base:
                continue
            bases.append(v)
        if BType('typing.NamedTuple') in bases:
            bases.remove(BType('typing.NamedTuple'))
            ntuple = True
        else:
            ntuple = False
        for i, b in reversed(list(enumerate(bases))):
            if isinstance(b, BType) and b.name.startswith('collections.abc.'):
                mix = self.prelude().ns.get('_mixin_' + b.name.split('.')[-1])
                if mix is not None:
                    bases.insert(i + 1, mix)
        if not bases:
            bases = [BType('object')]
        cs = Scope('class', scope, scope.glob)
        cs.vars['__module__'] = scope.glob.get('__name__', '?')
        cs.vars['__qualname__'] = self._qual(scope) + st.name
        cs.vars['__doc__'] = None
        if st.body and isinstance(st.body[0], ast.Expr) and isinstance(
                st.body[0].value, ast.Constant):
            cs.vars['__doc__'] = st.body[0].value.value
        meta, kwargs = None, {}
        for kw in st.keywords:
            v = self.eval(kw.value, scope)
            if kw.arg == 'metaclass':
                meta = v
            elif kw.arg is None:
                raise Unsupported('class keywords')
            else:
                kwargs[kw.arg] = v
        is_abc = isinstance(meta, Native) and meta.name == 'ABCMeta'
        if is_abc or meta is BType('type'):
            meta = None
        for b in bases:
            bm = getattr(b, 'meta', None)
            if bm is not None and (meta is None or meta in bm.mro):
                meta = bm
        if meta is not None and not isinstance(meta, ClassVal):
            raise Unsupported('metaclass')
        self.exec_body(st.body, cs)
        if ntuple:
            ann = cs.vars.get('__annotations__', {})
            t = self.libs.namedtuple(self, st.name, list(ann), defaults=[
                cs.vars[n] for n in ann if n in cs.vars])
            for n, v in cs.vars.items():
                if n not in ann:
                    t.ns[n] = v
            cls = t
            cls.module, cls.node = cs.vars['__module__'], st
        elif meta is not None:
            cls = self.call_method(meta, '__new__', [
                meta, st.name, tuple(bases), cs.vars], kwargs)
            if isinstance(cls, ClassVal):
                cls.node = st
            init = meta.lookup('__init__')
            if init is not None:
                self.call(init, [cls, st.name, tuple(bases), cs.vars], kwargs)
        else:
            cls = self.build_class(st.name, bases, cs.vars, st, kwargs)
        if is_abc:
            cls.is_abc = True
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, scope), [v])
        self.bind(st.name, v, scope)

    def prelude(self):
        """Library parts that are interpreted from Python source."""
        name = '$prelude'
        if name not in self.sources:
            from .prelude import TREE
            self.sources = dict(self.sources)
            self.sources[name] = ('<library>', TREE)
        return self.import_module(name)

    def build_class(self, name, bases, ns, node=None, kwargs=None,
                    meta=None):
        cls = ClassVal(name, bases, ns, ns.get('__module__', '?'), node)
        cls.meta = meta
        for v in ns.values():
            for f in self._funcs_of(v):
                if f.defcls is None:
                    f.defcls = cls
        for n, v in list(ns.items()):
            if isinstance(v, Obj) and v.cls.lookup('__set_name__'):
                self.call_method(v, '__set_name__', [cls, n])
            if isinstance(v, CachedProp):
                v.name = n
        for c in cls.mro[1:]:
            if isinstance(c, ClassVal) and '__init_subclass__' in c.ns:
                f = c.ns['__init_subclass__']
                f = f.func if isinstance(f, ClassMeth) else f
                self.call(f, [cls], kwargs)
                break
        else:
            if kwargs and meta is None:
                raise self.exc('TypeError', '%s.__init_subclass__() takes no '
                               'keyword arguments' % name)
        return cls

    def meta_attr(self, cls, name):
        """Attribute of a class found on its metaclass."""
        meta = getattr(cls, 'meta', None)
        if meta is None:
            return None
        v = meta.lookup(name)
        return None if v is None else self.bind_descr(v, cls, meta)

    def _funcs_of(self, v):
        if isinstance(v, FuncVal):
            yield v
            w = v.attrs.get('__wrapped__')
            if w is not None:
                yield from self._funcs_of(w)
        elif isinstance(v, Prop):
            for f in (v.fget, v.fset, v.fdel):
                yield from self._funcs_of(f)
        elif isinstance(v, (ClassMeth, StaticMeth, CachedProp)):
            yield from self._funcs_of(v.func)
        elif isinstance(v, Native):
            f = getattr(v, 'wrapped', None)
            if f is not None:
                yield from self._funcs_of(f)

    def x_Match(self, st, scope):
        subj = self.eval(st.subject, scope)
        for case in st.cases:
            if self.match(case.pattern, subj, scope) and (
                    case.guard is None
                    or self.truth(self.eval(case.guard, scope))):
                self.exec_body(case.body, scope)
                return

    def match(self, p, v, scope):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v,
                                           self.eval(p.value, scope)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, scope):
                return False
            if p.name:
                self.bind(p.name, v, scope)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, scope) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            if not self.isinstance_(v, self.eval(p.cls, scope)):
                return False
            if p.patterns:
                c = self.eval(p.cls, scope)
                names = None
                if isinstance(c, ClassVal):
                    names = c.lookup('__match_args__')
                    if names is None and not c.payload_type:
                        raise self.exc('TypeError', '%s() accepts 0 '
                                       'positional sub-patterns' % c.name)
                if names is not None:
                    if len(p.patterns) > len(names):
                        raise self.exc('TypeError', 'too many sub-patterns')
                    for n, q in zip(names, p.patterns):
                        if not self.hasattr_(v, n) or not self.match(
                                q, self.getattr_(v, n), scope):
                            return False
                elif len(p.patterns) != 1:
                    raise self.exc('TypeError', 'too many sub-patterns')
                elif not self.match(p.patterns[0], v, scope):
                    return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.hasattr_(v, n) or not self.match(
                        q, self.getattr_(v, n), scope):
                    return False
            return True
        if isinstance(p, (ast.MatchSequence, ast.MatchMapping)) and \
                isinstance(v, Obj) and v.payload is not None:
            v = v.payload
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(
                    self.match(q, x, scope) for q, x in zip(p.patterns, v))
            i = star[0]
            k = len(p.patterns) - i - 1
            if len(v) < i + k:
                return False
            if p.patterns[i].name:
                self.bind(p.patterns[i].name, list(v[i:len(v) - k]), scope)
            return all(self.match(q, x, scope) for q, x in
                       zip(p.patterns[:i], v[:i])) and all(
                self.match(q, x, scope) for q, x in
                zip(p.patterns[i + 1:], v[len(v) - k:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            seen = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.eval(k, scope)
                if kv not in v or not self.match(q, v[kv], scope):
                    return False
                seen.append(kv)
            if p.rest:
                self.bind(p.rest, {k: x for k, x in v.items()
                                   if k not in seen}, scope)
            return True
        raise Unsupported('match pattern')

    # --------------------------------------------------------- expressions
    def eval(self, e, scope):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('analysis budget exhausted')
        m = _E.get(type(e))
        if m is None:
            m = getattr(Interp, 'e_' + type(e).__name__, None)
            if m is None:
                raise Unsupported('expression ' + type(e).__name__)
            _E[type(e)] = m
        return m(self, e, scope)

    def e_Constant(self, e, scope):
        return e.value

    def e_Name(self, e, scope):
        return self.lookup(e.id, scope)

    def lookup(self, name, scope):
        s = scope
        first = True
        while s is not None:
            if s.kind == 'class' and not first:
                s = s.parent
                continue
            if name in s.globnames:
                break
            if s.kind == 'module':
                break
            if name in s.vars:
                return s.vars[name]
            if s.kind == 'function' and name in s.localnames:
                raise self.exc('UnboundLocalError',
                               'local variable %s referenced before '
                               'assignment' % name)
            first = False if s.kind != 'comp' else first
            s = s.parent
        g = scope.glob
        if name in g:
            return g[name]
        if name == '__class__':
            return self._super_ctx(scope)[0]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(_hb, name):
            raise Unsupported('builtin ' + name)
        raise self.exc('NameError', "name '%s' is not defined" % name)

    def e_Attribute(self, e, scope):
        return self.getattr_(self.eval(e.value, scope), e.attr)

    def e_Subscript(self, e, scope):
        return self.getitem(self.eval(e.value, scope),
                            self.eval(e.slice, scope))

    def e_Slice(self, e, scope):
        f = lambda x: None if x is None else self.eval(x, scope)
        return SliceVal(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, scope):
        return tuple(self.elts(e.elts, scope))

    def e_List(self, e, scope):
        return list(self.elts(e.elts, scope))

    def e_Set(self, e, scope):
        return set(self.hk(x) for x in self.elts(e.elts, scope))

    def elts(self, elts, scope):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_(self.eval(x.value, scope)))
            else:
                out.append(self.eval(x, scope))
        return out

    def e_Dict(self, e, scope):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, scope))
            else:
                kk = self.hk(self.eval(k, scope))
                d[kk] = self.eval(v, scope)
        return d

    def e_BoolOp(self, e, scope):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, scope)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, scope):
        v = self.eval(e.operand, scope)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Obj):
            n = {ast.USub: '__neg__', ast.UAdd: '__pos__',
                 ast.Invert: '__invert__'}[type(e.op)]
            m = v.cls.lookup(n)
            if m is not None:
                return self.call(m, [v])
            if v.payload is None:
                raise self.exc('TypeError', 'bad operand type for unary')
            v = v.payload
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_host(v):
                return ~v
            return self.libs.np_unary(self, '~', v)
        raise Unsupported('unary operator')

    def neg(self, v):
        if is_host(v):
            return self.host(_op.neg, v)
        if isinstance(v, Num):
            return Num('-' + v.label, -v.rank, v.ty)
        return self.libs.np_unary(self, '-', v)

    def host(self, fn, *args, **kw):
        """Evaluate a pure builtin operation on fully known values."""
        try:
            return fn(*args, **kw)
        except RecursionError:
            raise Unsupported('host recursion')
        except Exception as err:
            name = type(err).__name__
            if name in self.exc_classes:
                raise self.exc(name, *[str(a) for a in err.args])
            raise Unsupported('host exception ' + name)

    def e_BinOp(self, e, scope):
        a = self.eval(e.left, scope)
        b = self.eval(e.right, scope)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        fn, d, rd, sym = _BIN[type(op)]
        if sym == '%' and (isinstance(a, (str, SStr)) or isinstance(a, Term)
                           and a.ty == 'str'):
            return self.percent(a, b)
        if isinstance(a, (list, tuple)) and type(a) is type(b) and sym == '+':
            return a + b
        if sym == '*' and isinstance(a, (list, tuple)) and isinstance(b, int):
            return a * b
        if sym == '*' and isinstance(b, (list, tuple)) and isinstance(a, int):
            return b * a
        if isinstance(a, (set, frozenset)) and isinstance(
                b, (set, frozenset)):
            return fn(a, b)
        if isinstance(a, DictView) or isinstance(b, DictView):
            f = lambda x: set(self.iter_(x))
            return fn(f(a), f(b))
        if isinstance(a, dict) and isinstance(b, dict) and sym == '|':
            r = dict(a)
            r.update(b)
            return r
        if is_host(a) and is_host(b):
            return self.host(fn, a, b)
        for o, n, x in ((a, d, b), (b, rd, a)):
            if isinstance(o, Obj):
                m = o.cls.lookup(n)
                if m is not None:
                    r = self.call(m, [o, x])
                    if r is not self.builtins['NotImplemented']:
                        return r
        pa, pb = (x.payload if isinstance(x, Obj) and x.payload
                  is not None else x for x in (a, b))
        if pa is not a or pb is not b:
            return self.binop(op, pa, pb)
        if isinstance(a, Model) and hasattr(a, 'sa_binop'):
            return a.sa_binop(self, sym, b)
        if isinstance(a, Model) and sym in '/' :
            raise Unsupported('operator on ' + a.tname)
        if sym == '+' and self.is_strlike(a) and self.is_strlike(b):
            return sstr([a, b])
        if sym == '|' and isinstance(a, (BType, ClassVal, tuple)) and \
                isinstance(b, (BType, ClassVal, type(None))):
            return (a if isinstance(a, tuple) else (a,)) + (
                BType('NoneType') if b is None else b,)
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, (int, Num)) and isinstance(b, (int, Num)):
                return self.num_binop(sym, a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk('arithmetic on unknown')
        if isinstance(a, (Arr, NpS)) or isinstance(b, (Arr, NpS)):
            return self.libs.np_binop(self, sym, a, b)
        if isinstance(a, (Term, SStr)) or isinstance(b, (Term, SStr)):
            ta, tb = self.type_name(a), self.type_name(b)
            strs = {'str', 'bytes'}
            if sym in '+-/' and (ta in strs) != (tb in strs):
                raise self.exc('TypeError', 'unsupported operand type(s)')
            ty = ta if sym == '+' and ta == tb else 'object'
            if sym == '*' and ta in strs:
                ty = ta
            return Term('op' + sym, (self.freeze(a), self.freeze(b)), ty)
        ta, tb = self.type_name(a), self.type_name(b)
        raise self.exc('TypeError', 'unsupported operand type(s) for %s: '
                       '%s and %s' % (sym, ta, tb))

    def num_binop(self, sym, a, b):
        if sym in '+-':
            ra = a.rank if isinstance(a, Num) else a
            rb = b.rank if isinstance(b, Num) else b
            if isinstance(a, Num) and isinstance(b, int) and abs(b) <= 1:
                r = ra + rb if sym == '+' else ra - rb
                return Num('(%s%s%s)' % (a.label, sym, b), r, a.ty)
            if isinstance(b, Num) and isinstance(a, int) and abs(a) <= 1:
                r = ra + rb if sym == '+' else ra - rb
                return Num('(%s%s%s)' % (a, sym, b.label), r, b.ty)
            if sym == '-' and isinstance(a, Num) and isinstance(b, Num):
                d = ra - rb
                return Num('(%s-%s)' % (a.label, b.label), d, a.ty)
        return Unk('arithmetic on numbers of unknown magnitude')

    def freeze(self, v):
        """Immutable structural description of a value (for Terms)."""
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self.freeze(x) for x in v)
        if isinstance(v, dict):
            return ('dict',) + tuple((self.freeze(k), self.freeze(x))
                                     for k, x in v.items())
        if isinstance(v, (set, frozenset)):
            return ('set',) + tuple(sorted(map(repr, v)))
        if isinstance(v, Arr):
            return ('array', self.libs.np_freeze(v))
        return v

    def e_Compare(self, e, scope):
        left = self.eval(e.left, scope)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, scope)
            res = self.compare(_CMP[type(op)], left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def compare(self, op, a, b):
        if op == 'is':
            return self.is_(a, b)
        if op == 'is not':
            return not self.is_(a, b)
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            return not self.contains(b, a)
        if isinstance(a, (Arr, NpS, DType)) or isinstance(
                b, (Arr, NpS, DType)):
            if not isinstance(a, (Obj,)) and not isinstance(b, Obj):
                r = self.libs.np_compare(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if isinstance(a, Obj) or isinstance(b, Obj):
            for o, x, p in ((a, b, op), (b, a, _REFL[op])):
                if isinstance(o, Obj):
                    m = o.cls.lookup(_DUNDER[p])
                    if m is not None:
                        r = self.call(m, [o, x])
                        if r is not self.builtins['NotImplemented']:
                            return r
                    elif p == '!=':
                        m = o.cls.lookup('__eq__')
                        if m is not None:
                            r = self.call(m, [o, x])
                            if r is not self.builtins['NotImplemented']:
                                return not self.truth(r)
            pa, pb = (x.payload if isinstance(x, Obj) and x.payload
                      is not None else x for x in (a, b))
            if pa is not a or pb is not b:
                return self.compare(op, pa, pb)
            if op == '==':
                return a is b
            if op == '!=':
                return a is not b
            raise self.exc('TypeError', 'not supported between instances')
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else Unk('!=')
        return self.order(op, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            if a is None or b is None or True:
                x = a if isinstance(a, Unk) else b
                return self.choose_bool(
                    ('is', x.n, repr(b if x is a else a)),
                    'identity of an unknown value', True)
        if isinstance(a, Term) and isinstance(b, Term):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (int, str, bytes, float)) and type(a) is type(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return True
        if isinstance(a, DType) and isinstance(b, DType):
            return a == b
        return False

    def num_like(self, v):
        return isinstance(v, Num) or (
            isinstance(v, (int, float)) ) or (
            isinstance(v, NpS) and isinstance(v.src, (Num, int, float)))

    def order(self, op, a, b):
        if self.num_like(a) and self.num_like(b):
            return self.num_order(op, a, b)
        if is_host(a) and is_host(b):
            return self.host(_HOST[op], a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk('ordering of unknown values')
        if isinstance(a, (set, frozenset)):
            return self.host(_HOST[op], a, b)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            for x, y in zip(a, b):
                if not self.truth(self.compare('==', x, y)):
                    return self.compare(op, x, y)
            return self.host(_HOST[op], len(a), len(b))
        for x, y, o in ((a, b, op), (b, a, _REFL[op])):
            if isinstance(x, Term) and x.op == 'len' and isinstance(
                    y, (int, float)):
                # a length is an integer >= 0 (>= 1 if not empty)
                lo = 1 if x.truth else 0
                if x.truth is False:
                    return self.host(_HOST[o], 0, y)
                if y < lo or (y == lo and o in ('>=', '<')):
                    return o in ('>', '>=')
        ta, tb = self.type_name(a), self.type_name(b)
        nums = {'int', 'float', 'bool'}
        if ta == tb or (ta in nums and tb in nums) or ta == 'object' \
                or tb == 'object' or (ta.startswith('date')
                                      and tb.startswith('date')):
            if a == b:
                return op in ('<=', '>=')
            return self.choose_bool(
                ('ord', op, self.freeze(a), self.freeze(b)),
                'order of two unknown values', True)
        raise self.exc('TypeError', "'%s' not supported between instances of "
                       "'%s' and '%s'" % (op, ta, tb))

    def num_order(self, op, a, b):
        a0, b0 = a, b
        if isinstance(a, NpS):
            a = a.src
        if isinstance(b, NpS):
            b = b.src
        if isinstance(a, Num) and isinstance(b, Num):
            return _HOST[op](a.rank, b.rank)
        if isinstance(a, Num) or isinstance(b, Num):
            n, c, o = (a, b, op) if isinstance(a, Num) else (b, a, _REFL[op])
            if c in (float('inf'), float('-inf')) or n.rank == 0 \
                    or c in (-1, 0, 1):
                return _HOST[o](n.rank, c)
            if n.rank in (-1, 1) and isinstance(c, int):
                return _HOST[o](n.rank, c)
            return self.choose_bool(('numord', n.label, o, c),
                                    '%s %s %s' % (n.label, o, c))
        return self.host(_HOST[op], a, b)

    def eq(self, a, b):
        """Python-level == (without NumPy broadcasting) as a bool."""
        if a is b:
            return True
        if isinstance(a, (Num, NpS, int, float)) and isinstance(
                b, (Num, NpS, int, float)) and self.num_like(a) \
                and self.num_like(b):
            return self.num_order('==', a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            x = a if isinstance(a, Unk) else b
            y = b if x is a else a
            return self.choose_bool(('eq', x.n, repr(y)),
                                    'equality with an unknown value', True)
        if isinstance(a, (Arr, DType)) or isinstance(b, (Arr, DType)):
            r = self.libs.np_compare(self, '==', a, b)
            if r is not NotImplemented:
                return self.truth(r)
            return False
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.truth(self.compare('==', a, b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) \
                    or len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k in a:
                if k not in b or not self.eq(a[k], b[k]):
                    return False
            return True
        if isinstance(a, DictView) or isinstance(b, DictView):
            f = lambda x: set(self.iter_(x)) if isinstance(
                x, DictView) else x
            return f(a) == f(b)
        if is_host(a) and is_host(b):
            return a == b
        if isinstance(a, (BType, ClassVal)) or isinstance(
                b, (BType, ClassVal)):
            return a is b
        if isinstance(a, (Term, SStr, NpS)) or isinstance(
                b, (Term, SStr, NpS)):
            return self.term_eq(a, b)
        if isinstance(a, Model) and hasattr(a, 'sa_eq'):
            return a.sa_eq(self, b)
        return False

    def term_eq(self, a, b):
        a, b = self.libs.normal(self, a), self.libs.normal(self, b)
        if a == b and type(a) is type(b):
            return True
        ta, tb = self.type_name(a), self.type_name(b)
        if ta != tb and not (ta in ('int', 'bool', 'float')
                             and tb in ('int', 'bool', 'float')) \
                and 'object' not in (ta, tb) \
                and not ta.startswith('np.') and not tb.startswith('np.'):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and is_host(y) and not y:
                t = self.term_truth(x)
                if t:
                    return False
                return True
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op in ('hash', 'json') and b.op == a.op:
                return False        # injective
            if a.op == 'in' and b.op == 'in':
                return False        # distinct inputs are different
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op in ('hash', 'json'):
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == 'hpart' and (
                    isinstance(y, str) and (len(y) != x.args[2] - x.args[1]
                                            or set(y) - set('0123456789abcdef'))
                    or isinstance(y, Term) and y.op == 'hpart' and (
                        x.args[2] - x.args[1] != y.args[2] - y.args[1])):
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == 'getitem' and isinstance(
                    y, str) and isinstance(x.args[1], SliceVal):
                k = x.args[1]
                for n, start in ((k.start, False), (k.stop, True)):
                    o = k.stop if n is k.start else k.start
                    if not isinstance(n, int) or o not in (
                            None, 0 if start else None) \
                            or k.step not in (None, 1):
                        continue
                    if start and n > 0 or not start and n < 0:
                        if len(y) == abs(n):
                            return self.libs.str_endswith(
                                self, x.args[0], y, start)
                        if len(y) > abs(n):
                            return False
                        return self.eq(x.args[0], y)
        if isinstance(a, SStr) or isinstance(b, SStr):
            r = self.libs.sstr_eq(a, b)
            if r is not None:
                return r
        key = ('eq', frozenset([repr(a), repr(b)]))
        # only inputs are free to take any value; a derived value is not
        free = all(x.op in ('in', 'hash', 'json')
                   for v in (a, b) for x in (
                       v.parts if isinstance(v, SStr) else [v])
                   if isinstance(x, Term))
        return self.choose_bool(key, 'equality of %r and %r' % (a, b),
                                not free)

    def contains(self, c, v):
        if isinstance(c, (list, tuple)):
            return any(x is v or self.eq(x, v) for x in c)
        if isinstance(c, (dict, set, frozenset)):
            return self.hk(v) in c
        if isinstance(c, DictView):
            if c.kind == 'keys':
                return self.hk(v) in c.d
            return any(self.eq(x, v) for x in self.iter_(c))
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, bytes) and isinstance(v, (bytes, int)):
            return v in c
        if isinstance(c, (SStr, Term, str)):
            return self.libs.str_contains(self, c, v)
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not None:
                return self.truth(self.call(m, [c, v]))
            if c.payload is not None:
                return self.contains(c.payload, v)
            return any(x is v or self.eq(x, v) for x in self.iter_(c))
        if isinstance(c, ClassVal):
            m = self.meta_attr(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [v]))
        if isinstance(c, Model) and hasattr(c, 'sa_contains'):
            return c.sa_contains(self, v)
        if isinstance(c, range) and isinstance(v, int):
            return v in c
        if isinstance(c, Unk):
            return self.choose_bool(None, 'membership in unknown', True)
        if isinstance(c, (IterVal, Model, range)):
            return any(x is v or self.eq(x, v) for x in self.iter_(c))
        if isinstance(c, Arr):
            return self.truth(self.libs.np_contains(self, c, v))
        raise self.exc('TypeError', 'argument is not iterable')

    def e_IfExp(self, e, scope):
        return self.eval(e.body if self.truth(self.eval(e.test, scope))
                         else e.orelse, scope)

    def e_Lambda(self, e, scope):
        return self.make_function(e, scope)

    def e_NamedExpr(self, e, scope):
        v = self.eval(e.value, scope)
        s = scope
        while s.kind == 'comp':
            s = s.parent
        self.assign(e.target, v, s)
        return v

    def e_Starred(self, e, scope):
        raise Unsupported('starred expression')

    def e_JoinedStr(self, e, scope):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, scope)
                if v.conversion == ord('r'):
                    x = self.repr_(x)
                elif v.conversion == ord('s'):
                    x = self.str_(x)
                spec = self.e_JoinedStr(v.format_spec, scope) \
                    if v.format_spec else ''
                out.append(self.format_(x, spec))
        return sstr(out)

    def e_FormattedValue(self, e, scope):
        return self.e_JoinedStr(ast.JoinedStr([e]), scope)

    def format_(self, x, spec=''):
        if spec == '':
            if isinstance(x, Obj):
                m = x.cls.lookup('__format__')
                if m is not None:
                    return self.call(m, [x, ''])
            return self.str_(x)
        if is_host(x) and isinstance(spec, str):
            return self.host(format, x, spec)
        if x is None or isinstance(x, (list, dict, tuple, Obj)):
            raise self.exc('TypeError', 'unsupported format string')
        return Term('format', (self.freeze(x), self.freeze(spec)), 'str',
                    truth=True)

    def template(self, fmt, chars, exc):
        """A format string made of known and unknown pieces, with private
        characters in place of the latter.  Text that the user gave may
        contain the characters special to the template."""
        if isinstance(fmt, NpS):
            fmt = fmt.src
        if isinstance(fmt, str):
            return fmt, None
        if isinstance(fmt, Term):
            fmt = SStr((fmt,))
        if not isinstance(fmt, SStr):
            raise Unsupported('format string of type '
                              + self.type_name(fmt))
        text, held = '', {}

        def given(t):
            return isinstance(t, Term) and (
                t.op == 'in' and t.ty in ('str', 'bytes')
                or t.op in ('repr', 'str', 'decode', 'strip')
                and any(given(a) for a in t.args))
        for p in fmt.parts:
            if isinstance(p, str):
                text += p
                continue
            if given(p) and self.choose_bool(('special', repr(p), chars),
                                             'text contains ' + chars):
                raise self.exc(*exc)
            c = chr(0xE000 + len(held))
            held[c] = p
            text += c
        return text, held

    def untemplate(self, text, held):
        if not held:
            return text
        return sstr([held.get(c, c) for c in text])

    def str_format(self, fmt, args, kwargs):
        fmt, held = self.template(fmt, '{', (
            'ValueError', "Single '{' encountered in format string"))
        out, auto = [], 0
        try:
            pieces = list(_string.Formatter().parse(fmt))
        except ValueError as e:
            raise self.exc('ValueError', str(e))
        for lit, field, spec, conv in pieces:
            out.append(self.untemplate(lit, held))
            if field is None:
                continue
            if held and any(c in held for c in field + (spec or '')):
                raise Unsupported('unknown text inside of a replacement '
                                  'field')
            import _string as _us
            first, rest = _us.formatter_field_name_split(field)
            if first == '':
                first = auto
                auto += 1
            if isinstance(first, int):
                if first >= len(args):
                    raise self.exc('IndexError', 'Replacement index %d out of'
                                   ' range' % first)
                v = args[first]
            else:
                if first not in kwargs:
                    raise self.exc('KeyError', first)
                v = kwargs[first]
            for isattr, n in rest:
                v = self.getattr_(v, n) if isattr else self.getitem(v, n)
            if conv == 'r':
                v = self.repr_(v)
            elif conv == 's':
                v = self.str_(v)
            if spec and '{' in spec:
                spec = self.str_format(spec, args, kwargs)
            out.append(self.format_(v, spec or ''))
        return sstr(out)

    def percent(self, fmt, arg):
        fmt, held = self.template(fmt, '%', (
            'ValueError', 'unsupported format character'))
        if is_host(arg) and not held:
            return self.host(_op.mod, fmt, arg)
        import re
        args = list(arg) if isinstance(arg, tuple) else [arg]
        out, pos = [], 0
        for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)'
                             r'([srdifgxX%])', fmt):
            out.append(self.untemplate(fmt[pos:m.start()], held))
            pos = m.end()
            if m.group(3) == '%':
                out.append('%')
                continue
            if m.group(1):
                v = self.getitem(arg, m.group(1))
            else:
                if not args:
                    raise self.exc('TypeError', 'not enough arguments for '
                                   'format string')
                v = args.pop(0)
            if m.group(3) == 'r':
                out.append(self.repr_(v))
            elif m.group(3) == 's' and not m.group(2):
                out.append(self.str_(v))
            elif isinstance(v, (str, SStr)) and m.group(3) != 's':
                raise self.exc('TypeError', '%d format: a number is required')
            elif is_host(v):
                out.append(self.host(_op.mod, '%' + m.group(2) + m.group(3),
                                     v))
            elif m.group(3) in 'di' and not m.group(2):
                out.append(self.str_(v))
            else:
                out.append(Term('format', (self.freeze(v), m.group(0)),
                                'str', truth=True))
        out.append(self.untemplate(fmt[pos:], held))
        return sstr(out)

    # comprehensions
    def e_ListComp(self, e, scope):
        return list(self.comp(e, scope, lambda s: self.eval(e.elt, s)))

    def e_SetComp(self, e, scope):
        return set(self.hk(x) for x in
                   self.comp(e, scope, lambda s: self.eval(e.elt, s)))

    def e_DictComp(self, e, scope):
        d = {}
        for k, v in self.comp(e, scope, lambda s: (
                self.hk(self.eval(e.key, s)), self.eval(e.value, s))):
            d[k] = v
        return d

    def e_GeneratorExp(self, e, scope):
        # the first iterable is evaluated immediately
        it = self.eval(e.generators[0].iter, scope)
        return IterVal(self.comp(e, scope, lambda s: self.eval(e.elt, s), it))

    def comp(self, e, scope, leaf, first=None):
        cs = Scope('comp', scope, scope.glob)
        cs.func = scope.func

        def rec(i):
            if i == len(e.generators):
                yield leaf(cs)
                return
            g = e.generators[i]
            it = first if (i == 0 and first is not None) else self.eval(
                g.iter, cs if i else scope)
            for item in self.iter_(it):
                self.assign(g.target, item, cs)
                if all(self.truth(self.eval(c, cs)) for c in g.ifs):
                    yield from rec(i + 1)
        return rec(0)

    def e_Yield(self, e, scope):
        s = scope
        while s.kind != 'function':
            s = s.parent
        v = None if e.value is None else self.eval(e.value, scope)
        return s.vars['$gen'].yield_(v)

    def e_YieldFrom(self, e, scope):
        s = scope
        while s.kind != 'function':
            s = s.parent
        src = self.eval(e.value, scope)
        if not isinstance(src, GenObj):
            for v in self.iter_(src):
                s.vars['$gen'].yield_(v)
            return None
        sent = inject = None
        while True:
            try:
                v = src.tg.resume(sent=sent, inject=inject)
            except StopIteration as stop:
                return stop.value
            sent = inject = None
            try:
                sent = s.vars['$gen'].yield_(v)
            except Raised as r:
                inject = r

    # --------------------------------------------------------------- calls
    def e_Call(self, e, scope):
        line = e.lineno
        special = type(e.func) is ast.Name and e.func.id in _SPECIAL \
            and not e.args
        if special and e.func.id == 'super' and self.lookup(
                'super', scope) is self.builtins['super']:
            cls, obj = self._super_ctx(scope)
            return SuperVal(cls, obj)
        if special and e.func.id != 'super':
            if e.func.id == 'globals':
                return scope.glob
            s = scope
            while s.kind == 'comp':
                s = s.parent
            if e.func.id == 'dir':
                return sorted(s.vars)
            return dict(s.vars) if s.kind != 'module' else s.vars
        f = self.eval(e.func, scope)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_(self.eval(a.value, scope)))
            else:
                args.append(self.eval(a, scope))
        for k in e.keywords:
            v = self.eval(k.value, scope)
            if k.arg is None:
                for kk in self.mapping_keys(v):
                    if kk in kwargs:
                        raise self.exc('TypeError', 'multiple values for '
                                       'keyword argument %s' % (kk,))
                    kwargs[kk] = self.getitem(v, kk)
            else:
                if k.arg in kwargs:
                    raise self.exc('TypeError', 'multiple values for keyword')
                kwargs[k.arg] = v
        if self.stack:
            self.stack[-1].line = line
        return self.call(f, args, kwargs)

    def mapping_keys(self, v):
        if isinstance(v, dict):
            return list(v)
        return list(self.iter_(self.call_method(v, 'keys', [])))

    def _super_ctx(self, scope):
        s = scope
        while s is not None:
            if s.kind == 'function' and s.defcls is not None:
                return s.defcls, s.selfval
            s = s.parent
        raise Unsupported('super() outside a method')

    def call_method(self, obj, name, args, kwargs=None):
        return self.call(self.getattr_(obj, name), args, kwargs or {})

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Native):
            self.steps += 1
            if kwargs and f.name in _SIGS:
                # parameters given by their documented names
                args, kwargs = list(args), dict(kwargs)
                for n in _SIGS[f.name][len(args):]:
                    if n not in kwargs:
                        break
                    args.append(kwargs.pop(n))
            return f.fn(self, *args, **kwargs)
        if isinstance(f, ClassVal):
            m = self.meta_attr(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs)
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, BType):
            return self.libs.construct(self, f, list(args), kwargs)
        if isinstance(f, ClassMeth) or isinstance(f, StaticMeth):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, Model) and hasattr(f, 'sa_call'):
            return f.sa_call(self, *args, **kwargs)
        if isinstance(f, Unk):
            self.imprecise.append('call of unknown %s at %s'
                                  % (f.why, self.where()))
            return Unk('result of ' + f.why)
        raise self.exc('TypeError', "'%s' object is not callable"
                       % self.type_name(f))

    def instantiate(self, cls, args, kwargs):
        self.check_abstract(cls)
        new = cls.lookup('__new__')
        if new is not None:
            obj = self.call(new, [cls] + args, kwargs)
            if not (isinstance(obj, Obj) and cls in obj.cls.mro):
                return obj
        else:
            obj = self.new_object(cls)
        init = cls.lookup('__init__')
        if init is not None:
            if self.issubclass_(cls, self.exc_classes.get('BaseException')):
                obj.attrs.setdefault('args', tuple(args))
            self.call(init, [obj] + args, kwargs)
        elif cls.payload_type:
            obj.payload = self.libs.construct(
                self, BType(cls.payload_type), args, kwargs)
        elif (args or kwargs) and new is None:
            raise self.exc('TypeError', '%s() takes no arguments' % cls.name)
        return obj

    def type_new(self, I, meta, name, bases, ns, **kw):
        return self.build_class(name, list(bases) or [BType('object')],
                                ns, None, kw, meta)

    def check_abstract(self, cls):
        if not any(getattr(c, 'is_abc', False) for c in cls.mro):
            return
        for c in cls.mro:
            for n, v in c.ns.items() if isinstance(c, ClassVal) else ():
                if any(f.attrs.get('__isabstractmethod__') for f in
                       self._funcs_of(v)) and cls.lookup(n) is v:
                    raise self.exc('TypeError', "Can't instantiate abstract "
                                   "class %s without an implementation for "
                                   "abstract method '%s'" % (cls.name, n))

    def new_object(self, cls):
        obj = Obj(cls)
        if cls.lookup('__del__') is not None:
            self.exit_funcs.append(lambda: self.call(
                cls.lookup('__del__'), [obj], {}))
        if cls.payload_type:
            obj.payload = {'dict': dict, 'list': list, 'str': str,
                           'int': int, 'tuple': tuple,
                           'set': set}[cls.payload_type]()
        return obj

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        vals = {}
        if len(args) > len(names):
            if not a.vararg:
                raise self.exc('TypeError', '%s() takes %d positional '
                               'arguments but %d were given'
                               % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names[npos:] or k in kwonly:
                if k in vals:
                    raise self.exc('TypeError', "%s() got multiple values for"
                                   " argument '%s'" % (f.name, k))
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise self.exc('TypeError', "%s() got an unexpected keyword "
                               "argument '%s'" % (f.name, k))
        if a.kwarg:
            vals[a.kwarg.arg] = extra
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            vals.setdefault(n, v)
        for n in kwonly:
            if n not in vals and n in f.kwdefaults:
                vals[n] = f.kwdefaults[n]
        for n in names + kwonly:
            if n not in vals:
                raise self.exc('TypeError', "%s() missing required argument: "
                               "'%s'" % (f.name, n))
        return vals, (names[0] if names else None)

    def call_func(self, f, args, kwargs):
        vals, first = self.bind_args(f, args, kwargs)
        if len(self.stack) > MAX_DEPTH:
            raise self.exc('RecursionError', 'maximum recursion depth')
        s = Scope('function', f.scope, f.scope.glob)
        s.vars = vals
        s.func = f
        loc, glob, nonl, gen = function_names(f.node)
        s.localnames, s.globnames, s.nonlocals = loc, glob, nonl
        s.defcls = f.defcls
        s.selfval = vals.get(first) if first else None
        file = f.scope.glob.get('__file__')
        self.calls.add((file, f.qualname))
        if isinstance(f.node, ast.Lambda):
            self.stack.append(Frame(f.qualname, file, f.node.lineno))
            try:
                return self.eval(f.node.body, s)
            finally:
                self.stack.pop()
        if gen:
            def body(tg):
                s.vars['$gen'] = tg
                self.stack.append(Frame(f.qualname, file, f.node.lineno))
                self.exec_body(f.node.body, s)
            return GenObj(ThreadGen(self, body))
        self.stack.append(Frame(f.qualname, file, f.node.lineno))
        try:
            self.exec_body(f.node.body, s)
        except ReturnEx as r:
            return r.value
        finally:
            self.stack.pop()
        return None

    # ---------------------------------------------------------- attributes
    def getattr_(self, v, name, default=Raised):
        try:
            return self._getattr(v, name)
        except Raised as r:
            if default is not Raised and self.exc_is(r, 'AttributeError'):
                return default
            raise

    def hasattr_(self, v, name):
        try:
            self._getattr(v, name)
            return True
        except Raised as r:
            if self.exc_is(r, 'AttributeError'):
                return False
            raise

    def no_attr(self, v, name):
        return self.exc('AttributeError', "'%s' object has no attribute '%s'"
                        % (self.type_name(v), name))

    def _getattr(self, v, name):
        if not isinstance(name, str):
            raise Unsupported('attribute with unknown name')
        if isinstance(v, Obj):
            return self.obj_getattr(v, name)
        if isinstance(v, ModuleVal):
            if name in v.ns:
                return v.ns[name]
            if v.native:
                r = self.libs.module_attr(self, v, name)
                return r
            if '__getattr__' in v.ns:
                return self.call(v.ns['__getattr__'], [name])
            if name == '__dict__':
                return v.ns
            raise self.exc('AttributeError', "module '%s' has no attribute "
                           "'%s'" % (v.name, name))
        if isinstance(v, ClassVal):
            return self.class_getattr(v, name)
        if isinstance(v, SuperVal):
            return self.super_getattr(v, name)
        if isinstance(v, Model):
            if name == '__class__':
                return self.type_of(v)
            if name in ('__enter__', '__exit__', '__iter__', '__len__',
                        '__contains__', '__getitem__', '__setitem__',
                        '__delitem__'):
                m = 'sa_' + name.strip('_')
                if hasattr(v, m):
                    fn = getattr(v, m)
                    return Native(name, lambda I, *a: fn(I, *a))
            return v.sa_getattr(self, name)
        if isinstance(v, Unk):
            return Unk(v.why + '.' + name)
        if isinstance(v, FuncVal):
            if name in ('__name__',):
                return v.attrs.get(name, v.name)
            if name == '__qualname__':
                return v.attrs.get(name, v.qualname)
            if name == '__module__':
                return v.module
            if name == '__doc__' and '__doc__' not in v.attrs:
                return ast.get_docstring(v.node) if not isinstance(
                    v.node, ast.Lambda) else None
            if name == '__dict__':
                return v.attrs
            if name == '__get__':
                return Native('__get__', lambda I, o, c=None:
                              Bound(v, o) if o is not None else v)
            if name in v.attrs:
                return v.attrs[name]
            if name == '__defaults__':
                return tuple(v.defaults) or None
            raise self.no_attr(v, name)
        if isinstance(v, Bound):
            if name == '__self__':
                return v.self_
            if name == '__func__':
                return v.func
            return self._getattr(v.func, name)
        if isinstance(v, Prop):
            if name in ('setter', 'deleter', 'getter'):
                def mk(I, fn):
                    return Prop(fn if name == 'getter' else v.fget,
                                fn if name == 'setter' else v.fset,
                                fn if name == 'deleter' else v.fdel)
                return Native(name, mk)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(v, name)
        return self.libs.value_attr(self, v, name)

    def class_getattr(self, cls, name):
        if name == '__name__':
            return cls.name
        if name == '__mro__':
            return tuple(cls.mro)
        if name == '__bases__':
            return tuple(cls.bases)
        if name == '__subclasses__':
            return Native(name, lambda I: list(getattr(cls, 'subs', ())))
        if name == '__dict__':
            return cls.ns
        if name == '__class__':
            return getattr(cls, 'meta', None) or BType('type')
        owner, v = cls.lookup_cls(name)
        if owner is None:
            v = self.meta_attr(cls, name)
            if v is not None:
                return v
            if name == '__new__':
                return Native('__new__', self.type_new if BType('type')
                              in cls.mro else
                              lambda I, c, *a, **k: I.new_object(c))
            for c in cls.mro:
                if isinstance(c, BType):
                    r = self.libs.type_attr(self, c, name)
                    if r is not None:
                        return r
            raise self.exc('AttributeError', "type object '%s' has no "
                           "attribute '%s'" % (cls.name, name))
        return self.bind_descr(v, None, cls)

    def bind_descr(self, v, obj, cls):
        if isinstance(v, (FuncVal,)) or (isinstance(v, Native)
                                         and getattr(v, 'method', False)):
            return Bound(v, obj) if obj is not None else v
        if isinstance(v, ClassMeth):
            return Bound(v.func, cls)
        if isinstance(v, StaticMeth):
            return v.func
        if isinstance(v, Prop):
            if obj is None:
                return v
            if v.fget is None:
                raise self.exc('AttributeError', 'unreadable attribute')
            return self.call(v.fget, [obj])
        if isinstance(v, CachedProp):
            if obj is None:
                return v
            if v.name in obj.attrs:
                return obj.attrs[v.name]
            r = self.call(v.func, [obj])
            obj.attrs[v.name] = r
            return r
        if isinstance(v, Obj):
            g = v.cls.lookup('__get__')
            if g is not None:
                return self.call(g, [v, obj, cls])
        return v

    def obj_getattr(self, obj, name):
        ga = obj.cls.lookup('__getattribute__')
        if ga is not None:
            try:
                return self.call(ga, [obj, name])
            except Raised as r:
                if not self.exc_is(r, 'AttributeError'):
                    raise
                g = obj.cls.lookup('__getattr__')
                if g is None:
                    raise
                return self.call(g, [obj, name])
        try:
            return self.obj_getattr_plain(obj, name)
        except Raised as r:
            if not self.exc_is(r, 'AttributeError'):
                raise
            g = obj.cls.lookup('__getattr__')
            if g is None:
                raise
            return self.call(g, [obj, name])

    def obj_getattr_plain(self, obj, name):
        owner, v = obj.cls.lookup_cls(name)
        if owner is not None:
            if isinstance(v, Prop) or (isinstance(v, Obj) and v.cls.lookup(
                    '__set__')):
                return self.bind_descr(v, obj, obj.cls)
        if name in obj.attrs and name != 'origin':
            return obj.attrs[name]
        if owner is not None:
            return self.bind_descr(v, obj, obj.cls)
        if name == '__class__':
            return obj.cls
        if name == '__dict__':
            return obj.attrs
        if name == '__module__':
            return obj.cls.module
        if name == '__traceback__':
            return None
        if obj.payload is not None:
            try:
                return self.libs.value_attr(self, obj.payload, name)
            except Raised:
                pass
        r = self.libs.object_attr(self, obj, name)
        if r is not None:
            return r
        raise self.no_attr(obj, name)

    def super_getattr(self, s, name):
        obj = s.obj
        cls = obj.cls if isinstance(obj, Obj) else obj
        if not isinstance(cls, ClassVal):
            raise Unsupported('super() on ' + self.type_name(obj))
        if isinstance(obj, ClassVal) and s.cls not in cls.mro and \
                getattr(obj, 'meta', None) is not None:
            mro = obj.meta.mro          # method of a metaclass
            for c in mro[mro.index(s.cls) + 1:]:
                if isinstance(c, ClassVal) and name in c.ns:
                    return self.bind_descr(c.ns[name], obj, obj.meta)
            if name == '__call__':
                return Native(name, lambda I, *a, **k: I.instantiate(
                    obj, list(a), k))
            if name == '__init__':
                return Native(name, lambda I, *a, **k: None)
            return self.class_getattr(obj, name)
        mro = cls.mro
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            if isinstance(c, ClassVal):
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(obj, Obj):
                        return self.bind_descr(v, obj, cls)
                    if name == '__new__':
                        return v.func if isinstance(v, StaticMeth) else v
                    return self.bind_descr(v, None, cls)
        if isinstance(obj, Obj):
            if obj.payload is not None and name != '__init__':
                try:
                    return self.libs.value_attr(self, obj.payload, name)
                except Raised:
                    pass
            if obj.payload is not None and name == '__init__':
                def init(I, *a, **k):
                    obj.payload = self.libs.construct(
                        self, BType(cls.payload_type), list(a), k)
                return Native('__init__', init)
            r = self.libs.object_attr(self, obj, name, raw=True)
            if r is not None:
                return r
        else:
            if name == '__new__' and BType('type') in cls.mro:
                return Native('__new__', self.type_new)
            if name == '__new__':
                return Native('__new__',
                              lambda I, c, *a, **k: I.new_object(c))
            if name == '__init_subclass__':
                return Native(name, lambda I, *a, **k: None)
        raise self.exc('AttributeError', "'super' object has no attribute "
                       "'%s'" % name)

    def setattr_(self, v, name, val):
        if not isinstance(name, str):
            raise Unsupported('attribute with unknown name')
        if isinstance(v, Obj):
            m = v.cls.lookup('__setattr__')
            if m is not None:
                self.call(m, [v, name, val])
                return
            self.obj_setattr_plain(v, name, val)
        elif isinstance(v, ClassVal):
            v.ns[name] = val
        elif isinstance(v, ModuleVal):
            v.ns[name] = val
        elif isinstance(v, FuncVal):
            v.attrs[name] = val
        elif isinstance(v, Model) and hasattr(v, 'sa_setattr'):
            v.sa_setattr(self, name, val)
        elif isinstance(v, Arr):
            self.libs.np_setattr(self, v, name, val)
        elif isinstance(v, Unk):
            self.imprecise.append('attribute set on unknown value')
        elif isinstance(v, (Model,)):
            raise Unsupported('setting %s of %s' % (name, v.tname))
        else:
            raise self.no_attr(v, name)

    def obj_setattr_plain(self, v, name, val):
        owner, d = v.cls.lookup_cls(name)
        if isinstance(d, Prop):
            if d.fset is None:
                raise self.exc('AttributeError', "can't set attribute '%s'"
                               % name)
            self.call(d.fset, [v, val])
            return
        if isinstance(d, Obj) and d.cls.lookup('__set__'):
            self.call(d.cls.lookup('__set__'), [d, v, val])
            return
        slots = self._slots(v.cls)
        if slots is not None and name not in slots:
            raise self.no_attr(v, name)
        v.attrs[name] = val

    def _slots(self, cls):
        out = set()
        for c in cls.mro:
            if isinstance(c, ClassVal):
                s = c.ns.get('__slots__')
                if s is None:
                    return None
                out.update([s] if isinstance(s, str) else s)
        return out

    def delattr_(self, v, name):
        if isinstance(v, Obj):
            m = v.cls.lookup('__delattr__')
            if m is not None:
                self.call(m, [v, name])
                return
            self.obj_delattr_plain(v, name)
            return
        if isinstance(v, (ClassVal, ModuleVal)):
            if name not in v.ns:
                raise self.no_attr(v, name)
            del v.ns[name]
            return
        raise Unsupported('del attribute')

    def obj_delattr_plain(self, v, name):
        owner, d = v.cls.lookup_cls(name)
        if isinstance(d, Prop):
            if d.fdel is None:
                raise self.exc('AttributeError', "can't delete " + name)
            self.call(d.fdel, [v])
            return
        if name not in v.attrs:
            raise self.no_attr(v, name)
        del v.attrs[name]

    # --------------------------------------------------------------- items
    def hk(self, k):
        """Check hashability of a key."""
        if isinstance(k, (list, dict, set, Arr)):
            raise self.exc('TypeError', "unhashable type: '%s'"
                           % self.type_name(k))
        if isinstance(k, Unk):
            raise Unsupported('unknown dict key')
        if isinstance(k, NpS):
            if isinstance(k.src, (str, bytes, int, float, bool)):
                return k.src
            if isinstance(k.src, (Term, SStr)):
                return k.src
        if isinstance(k, tuple):
            return tuple(self.hk(x) for x in k)
        if isinstance(k, Obj):
            h = k.cls.lookup('__hash__')
            e = k.cls.lookup('__eq__')
            if h is not None and isinstance(h, FuncVal):
                raise Unsupported('custom __hash__')
            if e is not None and isinstance(e, FuncVal):
                oc, _ = k.cls.lookup_cls('__eq__')
                oh, _ = k.cls.lookup_cls('__hash__')
                if oh is None or k.cls.mro.index(oh) > k.cls.mro.index(oc):
                    raise self.exc('TypeError', "unhashable type: '%s'"
                                   % k.cls.name)
        return k

    def getitem(self, c, k):
        if isinstance(c, Obj):
            m = c.cls.lookup('__getitem__')
            if m is not None:
                return self.call(m, [c, k])
            if c.payload is not None:
                m = c.cls.lookup('__missing__')
                if m is not None and isinstance(c.payload, dict) and \
                        self.hk(k) not in c.payload:
                    return self.call(m, [c, k])
                return self.getitem(c.payload, k)
            raise self.exc('TypeError', "'%s' object is not subscriptable"
                           % c.cls.name)
        if isinstance(c, dict):
            k = self.hk(k)
            if k in c:
                return c[k]
            df = getattr(c, 'default_factory', None)
            if df is not None:
                c[k] = self.call(df, [])
                return c[k]
            raise self.exc('KeyError', k)
        if isinstance(c, Term):
            c = self.libs.known_text(c)
        if isinstance(c, (list, tuple, str, bytes, range)):
            k = self.index(k)
            if isinstance(k, SliceVal):
                return c[self.hslice(k)]
            if isinstance(k, int):
                if isinstance(c, range):
                    return self.host(_op.getitem, c, k)
                if not -len(c) <= k < len(c):
                    raise self.exc('IndexError', '%s index out of range'
                                   % type(c).__name__)
                return c[k]
            if isinstance(k, (Num, Unk)):
                raise Unsupported('unknown index')
            raise self.exc('TypeError', '%s indices must be integers or '
                           'slices, not %s' % (type(c).__name__,
                                               self.type_name(k)))
        if isinstance(c, Model):
            if hasattr(c, 'sa_getitem'):
                return c.sa_getitem(self, k)
            raise self.exc('TypeError', 'object is not subscriptable')
        if isinstance(c, Unk):
            return Unk(c.why + '[...]')
        if isinstance(c, ClassVal):
            m = self.meta_attr(c, '__getitem__')
            if m is not None:
                return self.call(m, [k])
        if isinstance(c, (BType, ClassVal)):
            return c            # generic alias
        return self.libs.value_getitem(self, c, k)

    def index(self, k):
        if isinstance(k, NpS):
            return k.src if isinstance(k.src, int) else Unk('index')
        if isinstance(k, Obj) and k.cls.lookup('__index__'):
            return self.call_method(k, '__index__', [])
        return k

    def hslice(self, k):
        ps = [self.index(x) for x in (k.start, k.stop, k.step)]
        if not all(x is None or isinstance(x, int) for x in ps):
            raise Unsupported('slice with unknown bounds')
        return slice(*ps)

    def setitem(self, c, k, v):
        if isinstance(c, Obj):
            m = c.cls.lookup('__setitem__')
            if m is not None:
                self.call(m, [c, k, v])
                return
            if c.payload is not None:
                self.setitem(c.payload, k, v)
                return
            raise self.exc('TypeError', "'%s' object does not support item "
                           "assignment" % c.cls.name)
        if isinstance(c, dict):
            c[self.hk(k)] = v
            return
        if isinstance(c, list):
            k = self.index(k)
            if isinstance(k, SliceVal):
                c[self.hslice(k)] = list(self.iter_(v))
                return
            if not isinstance(k, int):
                raise Unsupported('unknown list index')
            if not -len(c) <= k < len(c):
                raise self.exc('IndexError',
                               'list assignment index out of range')
            c[k] = v
            return
        if isinstance(c, Model) and hasattr(c, 'sa_setitem'):
            c.sa_setitem(self, k, v)
            return
        if isinstance(c, Unk):
            self.imprecise.append('store into unknown value')
            return
        if isinstance(c, Arr):
            self.libs.np_setitem(self, c, k, v)
            return
        raise self.exc('TypeError', "'%s' object does not support item "
                       "assignment" % self.type_name(c))

    def delitem(self, c, k):
        if isinstance(c, Obj):
            m = c.cls.lookup('__delitem__')
            if m is not None:
                self.call(m, [c, k])
                return
            if c.payload is not None:
                self.delitem(c.payload, k)
                return
        if isinstance(c, dict):
            k = self.hk(k)
            if k not in c:
                raise self.exc('KeyError', k)
            del c[k]
            return
        if isinstance(c, list):
            k = self.index(k)
            if isinstance(k, SliceVal):
                del c[self.hslice(k)]
                return
            if not -len(c) <= k < len(c):
                raise self.exc('IndexError', 'list index out of range')
            del c[k]
            return
        if isinstance(c, Model) and hasattr(c, 'sa_delitem'):
            c.sa_delitem(self, k)
            return
        raise self.exc('TypeError', 'object does not support item deletion')

    def dict_update(self, d, other):
        if isinstance(other, dict):
            for k, v in other.items():
                d[k] = v
        elif isinstance(other, Obj) and isinstance(other.payload, dict):
            d.update(other.payload)
        elif self.hasattr_(other, 'keys'):
            for k in self.mapping_keys(other):
                d[self.hk(k)] = self.getitem(other, k)
        else:
            for kv in self.iter_(other):
                k, v = list(self.iter_(kv))
                d[self.hk(k)] = v

    # ----------------------------------------------------------- iteration
    def iter_(self, v):
        """Host iterator over the elements of v."""
        if isinstance(v, list):
            return self._live_list(v)
        if isinstance(v, (tuple, str, range, bytes)):
            return iter(v)
        if isinstance(v, dict):
            return self._live_dict(v, 'keys')
        if isinstance(v, DictView):
            return self._live_dict(v.d, v.kind)
        if isinstance(v, (set, frozenset)):
            return iter(sorted(v, key=repr))
        if isinstance(v, IterVal):
            return v.it
        if isinstance(v, Obj):
            m = v.cls.lookup('__iter__')
            if m is not None:
                return self.iter_(self.call(m, [v]))
            if v.cls.lookup('__next__') is not None:
                return self._next_iter(v)
            if v.cls.lookup('__getitem__') is not None:
                return self._getitem_iter(v)
            if v.payload is not None:
                return self.iter_(v.payload)
            raise self.exc('TypeError', "'%s' object is not iterable"
                           % v.cls.name)
        if isinstance(v, ClassVal):
            m = self.meta_attr(v, '__iter__')
            if m is not None:
                return self.iter_(self.call(m, []))
        if isinstance(v, Model) and hasattr(v, 'sa_iter'):
            return iter(v.sa_iter(self))
        if isinstance(v, Unk):
            raise Unsupported('iteration over unknown value (%s)' % v.why)
        return self.libs.value_iter(self, v)

    def _live_list(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1
            if i > 5000:
                raise Unsupported('unbounded iteration')

    def _live_dict(self, d, kind):
        n = len(d)
        for k in list(d):
            if len(d) != n:
                raise self.exc('RuntimeError',
                               'dictionary changed size during iteration')
            if kind == 'keys':
                yield k
            elif kind == 'values':
                yield d[k]
            else:
                yield (k, d[k])
        if len(d) != n:
            raise self.exc('RuntimeError',
                           'dictionary changed size during iteration')

    def _getitem_iter(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except Raised as r:
                if self.exc_is(r, 'IndexError'):
                    return
                raise
            yield x
            i += 1
            if i > 2000:
                raise Unsupported('unbounded iteration')

    def _next_iter(self, v):
        while True:
            try:
                x = self.call_method(v, '__next__', [])
            except Raised as r:
                if self.exc_is(r, 'StopIteration'):
                    return
                raise
            yield x

    def next_(self, it, *default):
        if isinstance(it, Obj):
            try:
                return self.call_method(it, '__next__', [])
            except Raised as r:
                if default and self.exc_is(r, 'StopIteration'):
                    return default[0]
                raise
        if isinstance(it, (IterVal, GenObj)):
            try:
                return next(it.it if isinstance(it, IterVal) else it.tg)
            except StopIteration as e:
                if default:
                    return default[0]
                raise self.exc('StopIteration', *(
                    [] if e.value is None else [e.value]))
        raise self.exc('TypeError', 'object is not an iterator')

    # --------------------------------------------------------------- truth
    def term_truth(self, v):
        if v.truth is not None:
            return v.truth
        return self.choose_bool(('truth', v), 'truth of %r' % (v,))

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, complex,
                                       list, tuple, dict, set, frozenset,
                                       range)):
            return bool(v)
        if isinstance(v, Num):
            return v.rank != 0
        if isinstance(v, Term):
            return self.term_truth(v)
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return any(self.term_truth(p) for p in v.parts)
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(m, [v]))
            m = v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(m, [v]))
            if v.payload is not None:
                return bool(v.payload)
            return True
        if isinstance(v, Model):
            if hasattr(v, 'sa_truth'):
                return v.sa_truth(self)
            return True
        if isinstance(v, Unk):
            return self.choose_bool(('truth', v.n), 'unknown condition (%s)'
                                    % v.why, True)
        if isinstance(v, (Arr, NpS)):
            return self.libs.np_truth(self, v)
        if isinstance(v, DictView):
            return bool(v.d)
        return True

    def len_(self, v):
        if isinstance(v, (list, tuple, dict, set, frozenset, str, bytes,
                          range)):
            return len(v)
        if isinstance(v, DictView):
            return len(v.d)
        if isinstance(v, Obj):
            m = v.cls.lookup('__len__')
            if m is not None:
                return self.call(m, [v])
            if v.payload is not None:
                return self.len_(v.payload)
            raise self.exc('TypeError', "object of type '%s' has no len()"
                           % v.cls.name)
        if isinstance(v, ClassVal):
            m = self.meta_attr(v, '__len__')
            if m is not None:
                return self.call(m, [])
        if isinstance(v, Model) and hasattr(v, 'sa_len'):
            return v.sa_len(self)
        if isinstance(v, Unk):
            return Unk('len')
        return self.libs.value_len(self, v)

    # --------------------------------------------------------------- types
    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, ClassVal):
            return getattr(v, 'meta', None) or BType('type')
        if isinstance(v, Unk):
            return Unk('type of ' + v.why)
        return BType(self.type_name(v))

    def type_name(self, v):
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, Term):
            return v.ty
        if isinstance(v, Num):
            return v.ty
        if isinstance(v, SStr):
            return 'str'
        if isinstance(v, NpS):
            return self.libs.np_scalar_type(v.dtype)
        if isinstance(v, Arr):
            return 'np.ndarray'
        if isinstance(v, DType):
            return 'np.dtype'
        if isinstance(v, (BType, ClassVal)):
            return 'type'
        if isinstance(v, (FuncVal,)):
            return 'function'
        if isinstance(v, Bound):
            return 'method'
        if isinstance(v, Native):
            return 'builtin_function_or_method'
        if isinstance(v, ModuleVal):
            return 'module'
        if isinstance(v, Model):
            return v.tname
        if isinstance(v, Unk):
            return 'object'
        if isinstance(v, IterVal):
            return 'iterator'
        if isinstance(v, DictView):
            return 'dict_' + v.kind
        if isinstance(v, SliceVal):
            return 'slice'
        return type(v).__name__

    def issubclass_(self, c, d):
        if isinstance(d, tuple):
            return any(self.issubclass_(c, x) for x in d)
        if d is None:
            return False
        if isinstance(c, Unk) or isinstance(d, Unk):
            x = c if isinstance(c, Unk) else d
            return self.choose_bool(('sub', x.n, repr(d)),
                                    'type of an unknown value', True)
        if not isinstance(c, (ClassVal, BType)) or not isinstance(
                d, (ClassVal, BType)):
            raise self.exc('TypeError', 'issubclass() arg must be a class')
        if isinstance(c, ClassVal):
            if d in c.mro:
                return True
            if isinstance(d, BType):
                if d.name in ('collections.abc.Iterable',) and c.lookup(
                        '__iter__'):
                    return True
                if d.name == 'collections.abc.Sized' and c.lookup('__len__'):
                    return True
                if d.name == 'collections.abc.Callable' and c.lookup(
                        '__call__'):
                    return True
                return any(isinstance(x, BType) and btype_sub(x.name, d.name)
                           for x in c.mro)
            return False
        if isinstance(d, ClassVal):
            return False
        return btype_sub(c.name, d.name)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if isinstance(v, Unk):
            return self.choose_bool(('isinst', v.n, repr(cls)),
                                    'type of an unknown value', True)
        if isinstance(v, Term) and v.ty == 'object':
            return self.choose_bool(('isinst', v, repr(cls)),
                                    'type of %r' % (v,), True)
        if not isinstance(cls, (ClassVal, BType, Unk)):
            raise self.exc('TypeError', 'isinstance() arg 2 must be a type')
        if isinstance(cls, BType) and isinstance(v, Model) and hasattr(
                v, 'tbases') and cls.name in v.tbases:
            return True
        if isinstance(cls, BType) and cls.name == 'type':
            return isinstance(v, (ClassVal, BType))
        return self.issubclass_(self.type_of(v), cls)

    # ------------------------------------------------------------- strings
    def is_strlike(self, v):
        return isinstance(v, (str, SStr)) or (
            isinstance(v, Term) and v.ty == 'str') or (
            isinstance(v, NpS) and v.dtype.kind == 'U')

    def str_(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, Obj):
            m = v.cls.lookup('__str__')
            if m is not None:
                return self.call(m, [v])
            return self.repr_(v)
        if isinstance(v, bool) or v is None or isinstance(
                v, (int, float, complex, bytes)):
            return str(v)
        return self.libs.value_str(self, v)

    def repr_(self, v):
        if isinstance(v, Obj):
            m = v.cls.lookup('__repr__')
            if m is not None:
                return self.call(m, [v])
            return Term('repr', (v.cls.name, v.n), 'str', truth=True)
        if is_host(v):
            return repr(v)
        if isinstance(v, (list, tuple)):
            o, c = '[]' if isinstance(v, list) else '()'
            out = [o]
            for i, x in enumerate(v):
                if i:
                    out.append(', ')
                out.append(self.repr_(x))
            if isinstance(v, tuple) and len(v) == 1:
                out.append(',')
            return sstr(out + [c])
        if isinstance(v, dict):
            out = ['{']
            for i, (k, x) in enumerate(v.items()):
                if i:
                    out.append(', ')
                out += [self.repr_(k), ': ', self.repr_(x)]
            return sstr(out + ['}'])
        return Term('repr', (self.freeze(v) if not isinstance(
            v, (Model, FuncVal, Native, Bound, ModuleVal)) else id(v),),
            'str', truth=True)
