"""The rules' view of the analysed program: its public API on abstract
values, observations of data trees, and relations between observations."""
import ast

from .values import *
from .interp import is_host
from .lib_np import (dt, DType, ARR_DTYPES, NUM_DTYPES, content_frz, BOOL,
                     FLOAT64, native, prod, frz)
from .lib_misc import DateV, date_comp, DATE_F, TIME_F

EMPTY = type('Empty', (), {'__repr__': lambda s: '<empty>'})()
LEAVES = ('Array', 'Bool', 'Bytes', 'Date', 'DateTime', 'Scalar', 'String',
          'Time')
FILE_BACKENDS = ('hdf5', 'mat', 'npz')
BACKENDS = ('hdf5', 'inmem', 'mat', 'npz')
SUFFIX = {'hdf5': '.h5', 'mat': '.mat', 'npz': '.npz'}
# results of unmodelled functions: two of them cannot be told apart
OPAQUE_OPS = {'op', 'getitem', 'conv', 'slicelen', 'prod', 'pyhash', 'id',
              'h5id', 'rtail', 'rhead', 'nmask', 'minmax', 'count_nonzero',
              'size', 'padded', 'blob', 'garbage'}


# ---------------------------------------------------------------- descriptors
class D:
    """Schema descriptor (what the rules know about a schema)."""

    def __init__(self, kind, sub=None, **opts):
        self.kind, self.sub, self.opts = kind, sub, opts

    def __repr__(self):
        o = ','.join('%s=%s' % (k, v if not isinstance(v, Term) else '?')
                     for k, v in sorted(self.opts.items()))
        if self.kind == 'List':
            return 'List[%r%s]' % (self.sub, ';' + o if o else '')
        if self.kind == 'Compilation':
            return '{%s%s}' % (','.join('%s:%r' % x for x in
                                        self.sub.items()),
                               ';' + o if o else '')
        return self.kind + ('(%s)' % o if o else '')


def Comp(**fields):
    return D('Compilation', fields)


def Lst(sub, **o):
    return D('List', sub, **o)


def leaf_desc(kind, **o):
    if kind == 'Array':
        o.setdefault('dtype', 'int32')
    if kind == 'Scalar':
        o.setdefault('dtype', 'float64')
    return D(kind, None, **o)


class World:
    def __init__(self, I):
        self.I = I
        self.api = []
        self.checks = 0
        self.undecided_reason = None
        self.dir = Term('in', ('dir',), 'str', truth=True)
        self.last_where = None
        self.nlabel = 0

    # ------------------------------------------------------------- program
    def mod(self, name):
        return self.I.import_module(name)

    def fresh(self):
        """Continue in a new process: same files, no memory."""
        self.end_process()
        self.I.modules = {}
        self.api.append('-- new process --')

    def end_process(self):
        """What runs when a process ends: functions registered with atexit,
        finalizers and __del__ methods (whose errors Python ignores)."""
        while self.I.exit_funcs:
            f = self.I.exit_funcs.pop()
            try:
                f()
            except Raised:
                pass

    def user_code(self, name, source):
        """A module of user code that runs on the analysed program."""
        if name not in self.I.sources:
            self.I.sources = dict(self.I.sources)
            self.I.sources[name] = ('<user code>', ast.parse(source))
        return self.I.import_module(name)

    def get(self, mod, name):
        return self.I.getattr_(self.mod(mod), name)

    def _note(self, text, f=None):
        f0 = f
        while isinstance(f0, (Bound,)):
            f0 = f0.func
        if isinstance(f0, FuncVal):
            self.last_where = '%s:%s %s' % (
                f0.scope.glob.get('__file__'), f0.node.lineno, f0.qualname)
        elif isinstance(f0, ClassVal) and f0.node is not None:
            self.last_where = '%s:%s %s' % (
                self.I.sources[f0.module][0] if f0.module in self.I.sources
                else f0.module, f0.node.lineno, f0.name)
        self.api.append(text)

    def fn(self, mod, name, *a, **k):
        f = self.get(mod, name)
        self._note('%s.%s(%s)' % (mod, name, self.short(a, k)), f)
        return self.I.call(f, list(a), k)

    def short(self, a, k=None):
        parts = [self.sh(x) for x in a]
        parts += ['%s=%s' % (n, self.sh(x)) for n, x in (k or {}).items()]
        return ', '.join(parts)[:200]

    def sh(self, v):
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, SStr):
            return ''.join(p if isinstance(p, str) else '<%s>' % (
                p.args[0] if p.args else p.op,) for p in v.parts)
        if isinstance(v, Term):
            return '<%s %s>' % (v.ty, v.args[0] if v.args else v.op)
        return repr(v)[:80]

    def call(self, obj, name, *a, **k):
        f = self.I.getattr_(obj, name)
        self._note('%s.%s(%s)' % (self.sh(obj), name, self.short(a, k)), f)
        return self.I.call(f, list(a), k)

    def attr(self, obj, name):
        # remember the property that is read
        if isinstance(obj, Obj):
            p = obj.cls.lookup(name)
            if isinstance(p, Prop):
                self._note('%s.%s' % (self.sh(obj), name), p.fget)
            else:
                self.api.append('%s.%s' % (self.sh(obj), name))
        return self.I.getattr_(obj, name)

    def setattr(self, obj, name, v):
        if isinstance(obj, Obj):
            p = obj.cls.lookup(name)
            f = p.fset if isinstance(p, Prop) else obj.cls.lookup(
                '__setattr__')
            self._note('%s.%s = %s' % (self.sh(obj), name, self.sh(v)), f)
        self.I.setattr_(obj, name, v)

    def item(self, obj, i):
        if isinstance(obj, Obj):
            self._note('%s[%r]' % (self.sh(obj), i),
                       obj.cls.lookup('__getitem__'))
        return self.I.getitem(obj, i)

    def raises(self, fn, *a, **k):
        """The exception object fn raises, or None."""
        try:
            fn(*a, **k)
        except Raised as r:
            return r.exc
        return None

    def attempt(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Raised as r:
            return None, r.exc

    def exc_names(self, exc):
        return [c.name for c in exc.cls.mro if isinstance(c, ClassVal)]

    def exc_text(self, r):
        exc = r.exc if isinstance(r, Raised) else r
        if exc is None:
            return 'nothing'
        if not isinstance(exc, Obj):
            return repr(exc)
        args = exc.attrs.get('args', ())
        return '%s(%s) raised at %s' % (
            exc.cls.name, self.short([a for a in args][:2]),
            exc.attrs.get('origin'))

    # ------------------------------------------------------------ relations
    def fail(self, msg, where=None):
        raise Violation(msg, where or self.last_where)

    def check(self, cond, msg, where=None):
        self.checks += 1
        if not cond:
            self.fail(msg, where)

    def expect_exc(self, exc, name, what):
        """exc must be (a subclass of) the named exception class."""
        self.checks += 1
        if exc is None:
            self.fail('%s: %s expected, but nothing is raised' % (what, name))
        if name not in self.exc_names(exc):
            self.fail('%s: %s expected, but %s' % (what, name,
                                                   self.exc_text(exc)))

    def no_exc(self, exc, what):
        self.checks += 1
        if exc is not None:
            self.fail('%s: must succeed, but %s' % (what,
                                                    self.exc_text(exc)),
                      exc.attrs.get('origin') if isinstance(exc, Obj)
                      else None)

    def canon(self, v):
        """Comparable form of a value; keeps Python types apart."""
        I = self.I
        if isinstance(v, Arr):
            c = v.buf.content
            if c[0] == 'el':
                els = tuple(self.canon(x) for x in c[1])
                whole = self._whole(c[1], v)
                c = whole if whole is not None else ('el',) + els
            elif c[0] == 'full':
                n = prod(v.shape)
                if isinstance(n, int):
                    c = ('el',) + (self.canon(c[1]),) * n
                else:
                    c = ('full', self.canon(c[1]))
            elif c[0] == 'raw' and not c[1]:
                c = ('el',)
            n = prod(v.shape)
            if isinstance(n, int) and n == 0:
                c = ('el',)
            return ('array', c, native(v.dtype), v.shape)
        if isinstance(v, NpS):
            if v.dtype.kind == 'U':
                return self.canon(v.src)
            return ('npscalar', native(v.dtype), self.num(v.src))
        if isinstance(v, (bool, int, float, complex)):
            return (type(v).__name__, v)
        if isinstance(v, Num):
            return ('num', v.rank)
        if isinstance(v, dict):
            return ('dict', frozenset((self.canon(k), self.canon(x))
                                      for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self.canon(x) for x in v)
        if isinstance(v, DateV):
            return ('date', v.kind) + tuple(self.canon(x) for x in v.comps) \
                + (v.tz,)
        if isinstance(v, SStr):
            return ('sstr',) + v.parts
        if isinstance(v, Obj):
            if v.payload is not None:
                return ('obj', v.cls.name, self.canon(v.payload))
            return ('obj', v.n)
        if isinstance(v, Unk):
            return ('unk', v.n)
        if isinstance(v, (BType, ClassVal)):
            return ('type', getattr(v, 'name', None))
        if isinstance(v, Model):
            return ('model', id(v))
        return v

    def schema_state(self, node):
        """Every option of a schema node as the attributes show it (in the
        order in which they are listed)."""
        def st(v):
            if isinstance(v, Obj) and v.payload is None:
                return (v.cls.name,) + tuple(
                    (n, st(x)) for n, x in sorted(v.attrs.items())
                    if isinstance(n, str) and not n.startswith('_'))
            if isinstance(v, dict):
                return ('dict',) + tuple((self.canon(k), st(x))
                                         for k, x in v.items())
            if isinstance(v, (list, tuple)):
                return (type(v).__name__,) + tuple(st(x) for x in v)
            return self.canon(v)
        return st(node)

    def num(self, x):
        if isinstance(x, Num):
            return ('num', x.rank)
        if isinstance(x, (bool, int, float, complex)):
            return x
        return x

    def _whole(self, els, arr):
        """('el', elem 0 of C, elem 1 of C, ...) is C itself."""
        if not els or not all(isinstance(e, Term) and e.op == 'elem'
                              for e in els):
            return None
        c = els[0].args[0]
        if all(e.args[0] == c and e.args[1] == i for i, e in
               enumerate(els)):
            return c
        return None

    def opaque(self, c):
        if isinstance(c, Term):
            return c.op in OPAQUE_OPS or any(self.opaque(a) for a in c.args)
        if isinstance(c, (tuple, frozenset)):
            if c and isinstance(c, tuple) and c[0] in ('unk', 'f', 'model'):
                return True
            return any(self.opaque(x) for x in c)
        if isinstance(c, (Unk, Model)):
            return True
        return False

    def same(self, a, b):
        """Definitely equal?  Opaque results make the answer undecided."""
        ca, cb = self.canon(a), self.canon(b)
        if ca == cb:
            return True
        if self.opaque(ca) or self.opaque(cb):
            raise Unsupported('relation between %s and %s' % (
                str(ca)[:150], str(cb)[:150]))
        return False

    def expect_same(self, actual, expected, what):
        self.checks += 1
        if not self.same(actual, expected):
            self.fail('%s: is %s, but must be %s' % (
                what, self.show(actual), self.show(expected)))

    def show(self, v):
        return str(self.canon(v))[:260]

    # -------------------------------------------------------------- schemas
    def S(self, kind, *a, **k):
        return self.I.call(self.get('dsch.schema', kind), list(a), k)

    def mk(self, d):
        """Build the schema node of a descriptor."""
        if d.kind == 'Compilation':
            return self.S('Compilation', {n: self.mk(x)
                                          for n, x in d.sub.items()},
                          **d.opts)
        if d.kind == 'List':
            return self.S('List', self.mk(d.sub), **d.opts)
        return self.S(d.kind, **d.opts)

    # --------------------------------------------------------------- values
    def label(self, base='v'):
        self.nlabel += 1
        return '%s%d' % (base, self.nlabel)

    def val(self, d, variant=0, label=None):
        """A generic (variant 0) or special value of a leaf descriptor.

        Variants: 0 unknown content; 1 falsy (0, '', b'', False, size 0,
        midnight); 2 True / one element; 3.. further shapes."""
        lb = label or self.label()
        k = d.kind
        if k == 'Bool':
            return variant != 1
        if k == 'Bytes':
            return b'' if variant == 1 else b'\x00a\x00' if variant == 2 \
                else Term('in', (lb,), 'bytes', truth=True)
        if k == 'String':
            return '' if variant == 1 else 'text' if variant == 2 else \
                Term('in', (lb,), 'str', truth=True)
        if k in ('Date', 'DateTime', 'Time'):
            kind = k.lower()
            fields = {'date': DATE_F, 'time': TIME_F,
                      'datetime': DATE_F + TIME_F}[kind]
            if variant == 1:
                return DateV(kind, [{'year': 1, 'month': 1, 'day': 1}.get(
                    f, 0) for f in fields])
            return DateV(kind, [date_comp(lb, f) for f in fields])
        if k == 'Scalar':
            t = dt(d.opts['dtype'])
            if variant == 1:
                return NpS(t, {'f': 0.0, 'c': 0j}.get(t.kind, 0))
            ty = {'f': 'float', 'c': 'complex'}.get(t.kind, 'int')
            return NpS(t, Term('in', (lb,), ty, truth=True))
        if k == 'Array':
            n = d.opts.get('ndim', 1)
            for o in ('max_shape', 'min_shape'):
                if d.opts.get(o):
                    n = len(d.opts[o])
            shape = {0: (3, 2, 4, 2)[:n], 1: (0,) * n, 2: (1,) * n,
                     3: (1, 3, 1, 2)[:n], 4: (3, 1, 1, 1)[:n]}[variant]
            return self.arr(d.opts['dtype'], shape, lb)
        raise KeyError(k)

    def arr(self, dtype, shape, label=None, els=None):
        c = ('in', label or self.label('a')) if els is None else (
            'el', tuple(els))
        return Arr(Buf(c), dt(dtype) if isinstance(dtype, str) else dtype,
                   shape)

    def variants(self, kind):
        return {'Bool': (0, 1), 'Bytes': (0, 1, 2), 'String': (0, 1, 2),
                'Date': (0, 1), 'DateTime': (0, 1), 'Time': (0, 1),
                'Scalar': (0, 1), 'Array': (0, 1, 2, 3, 4)}[kind]

    # ------------------------------------------------------------- storages
    def path(self, backend, name='f'):
        if backend == 'inmem':
            return '::inmem::'
        return sstr([self.dir, '/', name + SUFFIX[backend]])

    def create(self, path, node, backend=None):
        return self.fn('dsch.frontend', 'create', path, node, backend) \
            if backend else self.fn('dsch.frontend', 'create', path, node)

    def load(self, path, **k):
        return self.fn('dsch.frontend', 'load', path, **k)

    def new(self, backend, desc, name='f'):
        """A new storage and its data node."""
        st = self.create(self.path(backend, name), self.mk(desc))
        return st, self.attr(st, 'data')

    def fill(self, node, desc, spec):
        """Bring a data node to the state of spec through the API."""
        if desc.kind == 'Compilation':
            for name, x in spec.items():
                self.fill(self.attr(node, name), desc.sub[name], x)
        elif desc.kind == 'List':
            for x in spec:
                self.call(node, 'append')
                self.fill(self.item(node, -1), desc.sub, x)
        elif spec is not EMPTY:
            self.call(node, 'replace', spec)

    def dump(self, node, desc):
        """Observable state of a data tree, by the public API."""
        if desc.kind == 'Compilation':
            return ('comp',) + tuple(
                (n, self.dump(self.attr(node, n), s))
                for n, s in desc.sub.items())
        if desc.kind == 'List':
            n = self.I.len_(node)
            if not isinstance(n, int):
                raise Unsupported('unknown list length')
            return ('list',) + tuple(
                self.dump(self.item(node, i), desc.sub) for i in range(n))
        if self.I.truth(self.attr(node, 'empty')):
            return '<empty>'
        return ('value', self.canon(self.attr(node, 'value')))

    def spec_dump(self, desc, spec):
        if desc.kind == 'Compilation':
            return ('comp',) + tuple(
                (n, self.spec_dump(s, spec.get(n, self.blank(s))))
                for n, s in desc.sub.items())
        if desc.kind == 'List':
            return ('list',) + tuple(self.spec_dump(desc.sub, x)
                                     for x in spec)
        if spec is EMPTY:
            return '<empty>'
        return ('value', self.canon(spec))

    def blank(self, desc):
        return {} if desc.kind == 'Compilation' else \
            [] if desc.kind == 'List' else EMPTY

    def expect_dump(self, node, desc, spec, what):
        """The tree holds exactly the values of spec."""
        self.checks += 1
        got, exc = self.attempt(self.dump, node, desc)
        if exc is not None:
            self.fail('%s: reading it %s' % (what, 'raises '
                                             + self.exc_text(exc)))
        want = self.spec_dump(desc, spec)
        self.expect_state(got, want, what)

    def expect_state(self, got, want, what):
        self.checks += 1
        if got == want:
            return
        d = self.diff(got, want, '')
        if d is None:
            return
        p, a, b = d
        if self.opaque(a) or self.opaque(b):
            raise Unsupported('relation between %s and %s' % (
                str(a)[:150], str(b)[:150]))
        self.fail('%s: node %s is %s, but must be %s' % (
            what, p or '(top)', str(a)[:200], str(b)[:200]))

    def diff(self, a, b, path):
        if a == b:
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and \
                a[0] == b[0] and a[0] in ('comp', 'list') and \
                len(a) == len(b):
            for i, (x, y) in enumerate(zip(a[1:], b[1:])):
                if a[0] == 'comp':
                    d = self.diff(x[1], y[1], path + '.' + str(x[0]))
                else:
                    d = self.diff(x, y, path + '[%d]' % i)
                if d:
                    return d
        return path, a, b

    def files(self):
        """Snapshot of the abstract file system."""
        return ({k: ent.content for k, ent in self.I.fs.files.items()},
                frozenset(self.I.fs.dirs))

    def expect_files(self, before, what):
        """No file was created, removed or changed."""
        self.checks += 1
        now = self.files()
        for k in list(before[0]) + list(now[0]):
            if k not in now[0]:
                self.fail('%s: deletes %s' % (what, self.sh(k)))
            if k not in before[0]:
                self.fail('%s: creates %s' % (what, self.sh(k)))
            if now[0][k] is not before[0][k]:
                self.fail('%s: changes %s' % (what, self.sh(k)))
        if now[1] != before[1]:
            self.fail('%s: changes directories' % what)

    def writes(self, since):
        """File-changing effects since an index into I.effects."""
        return [e for e in self.I.effects[since:]
                if e[0] in ('create', 'write', 'delete', 'mkdir', 'rename',
                            'truncate', 'h5write', 'flush')]
