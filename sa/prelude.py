"""Parts of the standard library that are interpreted from Python source
instead of being modelled by transfer functions."""
import ast

SOURCE = r'''
class _mixin_Iterator:
    def __iter__(self):
        return self


class _mixin_Container:
    pass


class _mixin_Sequence:
    def __iter__(self):
        i = 0
        try:
            while True:
                v = self[i]
                yield v
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value, start=0, stop=None):
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum(1 for v in self if v is value or v == value)


class _mixin_MutableSequence(_mixin_Sequence):
    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class _mixin_Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        if not hasattr(other, 'items'):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

    __reversed__ = None


_missing = object()


class _mixin_MutableMapping(_mixin_Mapping):
    def pop(self, key, default=_missing):
        try:
            value = self[key]
        except KeyError:
            if default is _missing:
                raise
            return default
        else:
            del self[key]
            return value

    def popitem(self):
        try:
            key = next(iter(self))
        except StopIteration:
            raise KeyError from None
        value = self[key]
        del self[key]
        return key, value

    def clear(self):
        try:
            while True:
                self.popitem()
        except KeyError:
            pass

    def update(self, other=(), /, **kwds):
        if hasattr(other, 'keys'):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class _mixin_Set:
    def __le__(self, other):
        return all(v in other for v in self)

    def __eq__(self, other):
        return len(self) == len(other) and self.__le__(other)

    def isdisjoint(self, other):
        return not any(v in self for v in other)


class UserDict(_mixin_MutableMapping):
    def __init__(self, dict=None, /, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, '__missing__'):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def __repr__(self):
        return repr(self.data)


class UserList(_mixin_MutableSequence):
    def __init__(self, initlist=None):
        self.data = [] if initlist is None else list(initlist)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.__class__(self.data[i])
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __delitem__(self, i):
        del self.data[i]

    def __eq__(self, other):
        return self.data == (other.data if isinstance(other, UserList)
                             else other)

    def __repr__(self):
        return repr(self.data)

    def insert(self, i, item):
        self.data.insert(i, item)

    def sort(self, **kwds):
        self.data.sort(**kwds)


class deque(_mixin_MutableSequence):
    def __init__(self, iterable=(), maxlen=None):
        self._data = []
        self.maxlen = maxlen
        for x in iterable:
            self.append(x)

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __getitem__(self, i):
        return self._data[i]

    def __setitem__(self, i, item):
        self._data[i] = item

    def __delitem__(self, i):
        del self._data[i]

    def __eq__(self, other):
        return isinstance(other, deque) and self._data == other._data

    def append(self, x):
        self._data.append(x)
        if self.maxlen is not None and len(self._data) > self.maxlen:
            del self._data[0]

    def appendleft(self, x):
        self._data.insert(0, x)
        if self.maxlen is not None and len(self._data) > self.maxlen:
            del self._data[-1]

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def extendleft(self, xs):
        for x in list(xs):
            self.appendleft(x)

    def insert(self, i, x):
        self._data.insert(i, x)

    def pop(self):
        if not self._data:
            raise IndexError('pop from an empty deque')
        return self._data.pop()

    def popleft(self):
        if not self._data:
            raise IndexError('pop from an empty deque')
        return self._data.pop(0)

    def clear(self):
        self._data.clear()

    def copy(self):
        return deque(self._data, self.maxlen)

    def rotate(self, n=1):
        if self._data:
            n = n % len(self._data)
            self._data[:] = self._data[-n:] + self._data[:-n]

    def __repr__(self):
        return 'deque(' + repr(self._data) + ')'


class Counter(dict):
    def __init__(self, iterable=None, /, **kwds):
        super().__init__()
        self.update(iterable, **kwds)

    def __missing__(self, key):
        return 0

    def update(self, iterable=None, /, **kwds):
        if iterable is not None:
            if hasattr(iterable, 'items'):
                for k, n in iterable.items():
                    self[k] = self.get(k, 0) + n
            else:
                for k in iterable:
                    self[k] = self.get(k, 0) + 1
        for k, n in kwds.items():
            self[k] = self.get(k, 0) + n

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def total(self):
        return sum(self.values())


class ChainMap(_mixin_MutableMapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]


class MappingProxyType(_mixin_Mapping):
    def __init__(self, mapping):
        self._mapping = mapping

    def __getitem__(self, key):
        return self._mapping[key]

    def __iter__(self):
        return iter(self._mapping)

    def __len__(self):
        return len(self._mapping)

    def __contains__(self, key):
        return key in self._mapping

    def keys(self):
        return self._mapping.keys()

    def items(self):
        return self._mapping.items()

    def values(self):
        return self._mapping.values()

    def copy(self):
        return self._mapping.copy()


def total_ordering(cls):
    def has(name):
        return any(name in c.__dict__ for c in cls.__mro__
                   if c is not object)
    if has('__lt__'):
        fns = {'__gt__': lambda a, b: not (a < b) and a != b,
               '__le__': lambda a, b: a < b or a == b,
               '__ge__': lambda a, b: not (a < b)}
    elif has('__le__'):
        fns = {'__ge__': lambda a, b: not (a <= b) or a == b,
               '__lt__': lambda a, b: a <= b and a != b,
               '__gt__': lambda a, b: not (a <= b)}
    elif has('__gt__'):
        fns = {'__lt__': lambda a, b: not (a > b) and a != b,
               '__ge__': lambda a, b: a > b or a == b,
               '__le__': lambda a, b: not (a > b)}
    elif has('__ge__'):
        fns = {'__le__': lambda a, b: not (a >= b) or a == b,
               '__gt__': lambda a, b: a >= b and a != b,
               '__lt__': lambda a, b: not (a >= b)}
    else:
        raise ValueError('must define at least one ordering operation')
    for n, f in fns.items():
        if not has(n):
            setattr(cls, n, f)
    return cls


def groupby(iterable, key=None):
    group, old, any_ = [], None, False
    for x in iterable:
        k = x if key is None else key(x)
        if any_ and k != old:
            yield old, iter(group)
            group = []
        group.append(x)
        old, any_ = k, True
    if any_:
        yield old, iter(group)


def accumulate(iterable, func=None, *, initial=None):
    total, first = initial, initial is None
    if not first:
        yield total
    for x in iterable:
        if first:
            total, first = x, False
        else:
            total = total + x if func is None else func(total, x)
        yield total


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def pairwise(iterable):
    first, prev = True, None
    for x in iterable:
        if not first:
            yield prev, x
        first, prev = False, x


def cycle(iterable):
    saved = []
    for x in iterable:
        yield x
        saved.append(x)
    while saved:
        for x in saved:
            yield x


def batched(iterable, n):
    out = []
    for x in iterable:
        out.append(x)
        if len(out) == n:
            yield tuple(out)
            out = []
    if out:
        yield tuple(out)


class partialmethod:
    def __init__(self, func, /, *args, **keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __get__(self, obj, cls=None):
        def call(*args, **kw):
            return self.func(obj, *self.args, *args,
                             **{**self.keywords, **kw})
        return call


class auto:
    pass


class EnumMeta(type):
    def __new__(meta, name, bases, ns, **kw):
        members, rest = {}, {}
        for k, v in ns.items():
            if k.startswith('_') or callable(v) or hasattr(
                    v, '__get__') or isinstance(v, (property, classmethod,
                                                    staticmethod)):
                rest[k] = v
            else:
                members[k] = v
        cls = super().__new__(meta, name, bases, rest)
        cls._member_map_ = {}
        n = 0
        for k, v in members.items():
            if isinstance(v, auto):
                v = cls._generate_next_value_(k, 1, n, [])
            n = v if isinstance(v, int) else n + 1
            for other in cls._member_map_.values():
                if other._value_ == v:
                    cls._member_map_[k] = other
                    setattr(cls, k, other)
                    break
            else:
                obj = object.__new__(cls)
                obj._value_ = v
                obj._name_ = k
                if hasattr(cls, '_init_member_'):
                    cls._init_member_(obj, v)
                cls._member_map_[k] = obj
                setattr(cls, k, obj)
        return cls

    def __call__(cls, value):
        if isinstance(value, cls):
            return value
        for m in cls._member_map_.values():
            if m._value_ == value:
                return m
        r = cls._missing_(value)
        if r is None:
            raise ValueError('%r is not a valid %s' % (value, cls.__name__))
        return r

    def __getitem__(cls, name):
        return cls._member_map_[name]

    def __iter__(cls):
        seen = []
        for m in cls._member_map_.values():
            if m not in seen:
                seen.append(m)
        return iter(seen)

    def __len__(cls):
        return len(list(iter(cls)))

    def __contains__(cls, value):
        return any(m is value or m._value_ == value
                   for m in cls._member_map_.values())

    @property
    def __members__(cls):
        return dict(cls._member_map_)


class Enum(metaclass=EnumMeta):
    @property
    def value(self):
        return self._value_

    @property
    def name(self):
        return self._name_

    @staticmethod
    def _generate_next_value_(name, start, last, values):
        return last + 1

    @classmethod
    def _missing_(cls, value):
        return None

    def __str__(self):
        return self.__class__.__name__ + '.' + self._name_

    def __repr__(self):
        return '<%s.%s: %r>' % (self.__class__.__name__, self._name_,
                                self._value_)


def unique(cls):
    return cls


class _Missing:
    pass


MISSING = _Missing()


class FrozenInstanceError(AttributeError):
    pass


class Field:
    def __init__(self, default, default_factory, init, repr, compare):
        self.default, self.default_factory = default, default_factory
        self.init, self.repr, self.compare = init, repr, compare
        self.name = self.type = None


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True,
          hash=None, compare=True, metadata=None, kw_only=False):
    return Field(default, default_factory, init, repr, compare)


def dataclass(cls=None, /, *, init=True, repr=True, eq=True, order=False,
              unsafe_hash=False, frozen=False, match_args=True,
              kw_only=False, slots=False, weakref_slot=False):
    def wrap(cls):
        return _process(cls, init, repr, eq, order, frozen, kw_only)
    return wrap if cls is None else wrap(cls)


def _process(cls, init, repr_, eq, order, frozen, kw_only):
    flds = {}
    for b in reversed(cls.__mro__[1:]):
        if b is object:
            continue
        for f in getattr(b, '__dataclass_fields__', {}).values():
            flds[f.name] = f
    for name, ann in cls.__dict__.get('__annotations__', {}).items():
        if isinstance(ann, str) and 'ClassVar' in ann:
            continue
        d = cls.__dict__.get(name, MISSING)
        if isinstance(d, Field):
            f = d
            if f.default is not MISSING:
                setattr(cls, name, f.default)
            else:
                delattr(cls, name)
        else:
            f = Field(d, MISSING, True, True, True)
        if isinstance(f.default, (list, dict, set)):
            raise ValueError('mutable default for field ' + name)
        f.name, f.type = name, ann
        flds[name] = f
    cls.__dataclass_fields__ = flds
    names = [f.name for f in flds.values() if f.init]

    if init and '__init__' not in cls.__dict__:
        def __init__(self, *args, **kw):
            if len(args) > len(names) or kw_only and args:
                raise TypeError('too many positional arguments')
            given = dict(zip(names, args))
            for k, v in kw.items():
                if k in given or k not in names:
                    raise TypeError('unexpected argument ' + k)
                given[k] = v
            for f in flds.values():
                if f.name in given:
                    v = given[f.name]
                elif f.default_factory is not MISSING:
                    v = f.default_factory()
                elif f.default is not MISSING:
                    v = f.default
                elif f.init:
                    raise TypeError('missing required argument: ' + f.name)
                else:
                    continue
                object.__setattr__(self, f.name, v)
            if hasattr(self, '__post_init__'):
                self.__post_init__()
        cls.__init__ = __init__

    def values(self):
        return tuple(getattr(self, f.name) for f in flds.values()
                     if f.compare)

    if repr_ and '__repr__' not in cls.__dict__:
        def __repr__(self):
            return '%s(%s)' % (self.__class__.__name__, ', '.join(
                '%s=%r' % (f.name, getattr(self, f.name))
                for f in flds.values() if f.repr))
        cls.__repr__ = __repr__
    if eq and '__eq__' not in cls.__dict__:
        def __eq__(self, other):
            if other.__class__ is not self.__class__:
                return NotImplemented
            return values(self) == values(other)
        cls.__eq__ = __eq__
        if frozen:
            cls.__hash__ = lambda self: hash(values(self))
        elif '__hash__' not in cls.__dict__:
            cls.__hash__ = None
    if order:
        cls.__lt__ = lambda a, b: values(a) < values(b)
        cls.__le__ = lambda a, b: values(a) <= values(b)
        cls.__gt__ = lambda a, b: values(a) > values(b)
        cls.__ge__ = lambda a, b: values(a) >= values(b)
    if frozen:
        def __setattr__(self, name, value):
            raise FrozenInstanceError('cannot assign to field ' + name)

        def __delattr__(self, name):
            raise FrozenInstanceError('cannot delete field ' + name)
        cls.__setattr__ = __setattr__
        cls.__delattr__ = __delattr__
    cls.__match_args__ = tuple(names)
    return cls


def fields(obj):
    return tuple(obj.__dataclass_fields__.values())


def is_dataclass(obj):
    return hasattr(obj, '__dataclass_fields__')


def asdict(obj):
    def conv(v):
        if hasattr(v, '__dataclass_fields__'):
            return {f.name: conv(getattr(v, f.name)) for f in fields(v)}
        if isinstance(v, (list, tuple)):
            return type(v)([conv(x) for x in v])
        if isinstance(v, dict):
            return {conv(k): conv(x) for k, x in v.items()}
        return v
    return conv(obj)


def astuple(obj):
    return tuple(asdict(obj).values())


def replace(obj, /, **changes):
    for f in fields(obj):
        if f.init and f.name not in changes:
            changes[f.name] = getattr(obj, f.name)
    return obj.__class__(**changes)
'''
TREE = ast.parse(SOURCE)
