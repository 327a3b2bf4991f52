"""Abstract values of the analysis.

The domain is a disjunctive, finite-height abstraction of Python values:

* ``Term``    an unknown immutable value, named by how it was obtained
              (an input, a component of an input, an invertible encoding ...).
              Nothing about its content is known, apart from its type and,
              where a rule fixes it, truthiness.
* ``Num``     an unknown number that is known only by its *order class*
              relative to the other numbers of the same rule instance.  The
              order class is encoded by a rank; ranks further apart than one
              are "somewhere above/below", rank 0 is exactly zero.
* ``SStr``    a string of known and unknown pieces.
* ``DType``, ``NpS``, ``Buf``/``Arr``: NumPy types, scalars, arrays.
* ``Obj``, ``ClassVal``, ``FuncVal`` ...: the nominal part (classes, methods,
              instances), taken from the source of the analysed repository.
* ``Unk``     nothing is known.
"""
import itertools


class Raised(Exception):
    """An abstract execution raises the (abstract) exception ``exc``."""

    def __init__(self, exc):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Unsupported(Exception):
    """The analysis has no transfer function for a construct."""


class Violation(Exception):
    def __init__(self, message, where=None):
        self.message = message
        self.where = where


class Term:
    """Immutable unknown value, identified structurally."""
    __slots__ = ('op', 'args', 'ty', 'truth', 'meta', '_h')

    def __init__(self, op, args=(), ty='object', truth=None, meta=None):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        self.truth = truth
        self.meta = meta or {}
        self._h = hash((op, self.args, ty))

    def __eq__(self, other):
        return (isinstance(other, Term) and self.op == other.op
                and self.ty == other.ty and self.args == other.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '%s:%s(%s)' % (self.op, self.ty,
                              ', '.join(map(repr, self.args)))


class Num:
    """Unknown number known by its order class (rank)."""
    __slots__ = ('label', 'rank', 'ty')

    def __init__(self, label, rank, ty='int'):
        self.label = label
        self.rank = rank
        self.ty = ty

    def __eq__(self, other):
        return isinstance(other, Num) and self.rank == other.rank

    def __hash__(self):
        return hash(('Num', self.rank))

    def __repr__(self):
        return '<%s rank %s>' % (self.label, self.rank)


class SStr:
    """String made of known (str) and unknown (Term) pieces."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, other):
        return isinstance(other, SStr) and self.parts == other.parts

    def __hash__(self):
        return hash(('SStr', self.parts))

    def __repr__(self):
        return 'S' + ''.join(p if isinstance(p, str) else '{%r}' % (p,)
                             for p in self.parts)


def sstr(parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, SStr) else (p,)):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '':
                out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return SStr(out)


class Unk:
    """Completely unknown value; deciding on it is imprecise."""
    _n = itertools.count()

    def __init__(self, why):
        self.why = why
        self.n = next(Unk._n)

    def __repr__(self):
        return '<unknown: %s>' % self.why


class BType:
    """A builtin or library type."""
    _all = {}

    def __new__(cls, name):
        if name not in cls._all:
            o = object.__new__(cls)
            o.name = name
            cls._all[name] = o
        return cls._all[name]

    def __repr__(self):
        return "<type '%s'>" % self.name


# name -> direct base
TYPE_BASES = {
    'bool': ('int',), 'datetime.datetime': ('datetime.date',),
    'np.number': ('np.generic',), 'np.integer': ('np.number',),
    'np.inexact': ('np.number',), 'np.floating': ('np.inexact',),
    'np.complexfloating': ('np.inexact',),
    'np.signedinteger': ('np.integer',),
    'np.unsignedinteger': ('np.integer',),
    'np.bool': ('np.generic',), 'np.flexible': ('np.generic',),
    'np.character': ('np.flexible',),
    'np.str_': ('np.character', 'str'), 'np.bytes_': ('np.character', 'bytes'),
    'np.void': ('np.flexible',), 'np.object_': ('np.generic',),
    'np.float64': ('np.floating', 'float'),
    'np.complex128': ('np.complexfloating', 'complex'),
    'collections.OrderedDict': ('dict',),
    'collections.defaultdict': ('dict',),
}
for _n in ('float16', 'float32'):
    TYPE_BASES['np.' + _n] = ('np.floating',)
for _n in ('int8', 'int16', 'int32', 'int64'):
    TYPE_BASES['np.' + _n] = ('np.signedinteger',)
    TYPE_BASES['np.u' + _n] = ('np.unsignedinteger',)
TYPE_BASES['np.complex64'] = ('np.complexfloating',)

ABSTRACT_BASES = {     # structural/registered ABCs
    'numbers.Number': {'int', 'float', 'complex', 'np.number'},
    'numbers.Complex': {'int', 'float', 'complex', 'np.number'},
    'numbers.Real': {'int', 'float', 'np.integer', 'np.floating'},
    'numbers.Integral': {'int', 'np.integer'},
    'collections.abc.Mapping': {'dict'},
    'collections.abc.MutableMapping': {'dict'},
    'collections.abc.Sequence': {'list', 'tuple', 'str', 'bytes', 'range',
                                 'bytearray', 'memoryview'},
    'collections.abc.MutableSequence': {'list'},
    'collections.abc.Iterable': {'list', 'tuple', 'str', 'bytes', 'dict',
                                 'set', 'frozenset', 'range', 'np.ndarray'},
    'collections.abc.Sized': {'list', 'tuple', 'str', 'bytes', 'dict', 'set',
                              'frozenset', 'range', 'np.ndarray'},
    'collections.abc.ByteString': {'bytes', 'bytearray'},
    'collections.abc.Buffer': {'bytes', 'bytearray', 'memoryview',
                               'np.ndarray', 'np.generic', 'array.array'},
    'collections.abc.Hashable': {'int', 'float', 'str', 'bytes', 'tuple'},
}


def btype_sub(a, b):
    if a == b or b == 'object':
        return True
    if b in ABSTRACT_BASES:
        return any(btype_sub(a, x) for x in ABSTRACT_BASES[b])
    return any(btype_sub(x, b) for x in TYPE_BASES.get(a, ()))


class DType:
    """A NumPy dtype, fully known (the set of dtypes is finite)."""
    __slots__ = ('name', 'kind', 'itemsize', 'order', 'sub')

    def __init__(self, name, kind, itemsize, order='=', sub=None):
        self.name, self.kind, self.itemsize = name, kind, itemsize
        self.order = order
        self.sub = sub          # string length label for U/S/V

    def key(self):
        return (self.kind, self.itemsize, self.order, self.sub)

    def __eq__(self, other):
        return isinstance(other, DType) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'dtype(%s)' % self.str()

    def str(self):
        if self.kind == 'O':
            return '|O'
        o = '>' if self.order == '>' else (
            '|' if self.itemsize == 1 or self.kind in 'SV' else '<')
        return '%s%s%s' % (o, self.kind, self.itemsize)


class NpS:
    """NumPy scalar: dtype and source value (immutable)."""
    __slots__ = ('dtype', 'src')

    def __init__(self, dtype, src):
        self.dtype, self.src = dtype, src

    def __eq__(self, other):
        return (isinstance(other, NpS) and self.dtype == other.dtype
                and self.src == other.src
                and isinstance(self.src, bool) == isinstance(other.src, bool))

    def __hash__(self):
        return hash((self.dtype, self.src))

    def __repr__(self):
        return 'np.%s(%r)' % (self.dtype.name, self.src)


class Buf:
    """Mutable memory of an array; ``content`` is an immutable description:
    ('opaque', label) | ('elems', [..]) | ('upd', old, key, value) ..."""
    _n = itertools.count()

    def __init__(self, content):
        self.content = content
        self.n = next(Buf._n)


class Arr:
    """NumPy array object."""

    def __init__(self, buf, dtype, shape, meta=None, owner=True):
        self.buf, self.dtype, self.shape = buf, dtype, tuple(shape)
        self.meta = meta or {}      # amin/amax Num of the elements
        self.owner = owner
        self.readonly = False
        self.held = False           # referenced by the user, too

    def __repr__(self):
        return 'array(%r, %r, shape=%r)' % (self.buf.content, self.dtype,
                                            self.shape)


class Obj:
    """Instance of an analysed (or modelled) class."""
    _n = itertools.count()

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.payload = None
        self.n = next(Obj._n)

    def __repr__(self):
        return '<%s object>' % self.cls.name


class ClassVal:
    def __init__(self, name, bases, ns, module, node=None, meta=None):
        self.name, self.bases, self.ns = name, bases, ns
        self.module = module
        self.node = node
        self.mro = self._linearize()
        for b in bases:
            if isinstance(b, ClassVal):
                b.__dict__.setdefault('subs', []).append(self)
        self.payload_type = None
        for c in self.mro:
            if isinstance(c, BType) and c.name in ('dict', 'list', 'str',
                                                   'int', 'tuple', 'set'):
                self.payload_type = c.name

    def _linearize(self):
        def mro_of(b):
            if isinstance(b, ClassVal):
                return list(b.mro)
            return [b]
        seqs = [mro_of(b) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO for ' + self.name)
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name]
        return None

    def lookup_cls(self, name):
        for c in self.mro:
            if isinstance(c, ClassVal) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def __repr__(self):
        return "<class '%s.%s'>" % (self.module, self.name)


class FuncVal:
    def __init__(self, node, scope, module, qualname, defaults, kwdefaults):
        self.node, self.scope, self.module = node, scope, module
        self.qualname = qualname
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.defcls = None
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ClassMeth:
    def __init__(self, func):
        self.func = func


class StaticMeth:
    def __init__(self, func):
        self.func = func


class CachedProp:
    def __init__(self, func, name=None):
        self.func, self.name = func, name or getattr(func, 'name', None)


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Native:
    """Transfer function of a library callable: fn(interp, *args, **kw)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<library function %s>' % self.name


class ModuleVal:
    def __init__(self, name, ns, native=False, file=None):
        self.name, self.ns, self.native, self.file = name, ns, native, file

    def __repr__(self):
        return '<module %s>' % self.name


class Model:
    """Base class of modelled library objects.  Subclasses define sa_*."""
    tname = 'object'

    def sa_getattr(self, I, name):
        raise Unsupported('attribute %s of %s' % (name, self.tname))


class IterVal:
    """A Python-level iterator over abstract values."""

    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it


class SliceVal:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, SliceVal) and (
            (self.start, self.stop, self.step) == (o.start, o.stop, o.step))

    def __hash__(self):
        return hash((self.start, self.stop, self.step))

    def __repr__(self):
        return '%s:%s:%s' % (self.start, self.stop, self.step)


class DictView:
    """Live dict view, so that mutation during iteration is noticed."""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class Scope:
    __slots__ = ('vars', 'parent', 'glob', 'kind', 'globnames', 'nonlocals',
                 'localnames', 'func', 'defcls', 'selfval')

    def __init__(self, kind, parent, glob):
        self.kind, self.parent, self.glob = kind, parent, glob
        self.vars = {}
        self.globnames = ()
        self.nonlocals = ()
        self.localnames = ()
        self.func = None
        self.defcls = None
        self.selfval = None
