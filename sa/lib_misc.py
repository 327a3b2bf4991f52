"""Transfer functions of the remaining standard library and asciitree."""
import json as _json
import os as _os

from .values import *
from .interp import is_host, GenObj

DATE_F = ('year', 'month', 'day')
TIME_F = ('hour', 'minute', 'second', 'microsecond')
RANGES = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31),
          'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
          'microsecond': (0, 999999)}
for _t in ('date', 'time', 'datetime', 'timedelta', 'timezone', 'tzinfo'):
    BType('datetime.' + _t)


def date_comp(src, field):
    return Term('comp', (src, field), 'int',
                meta={'range': RANGES[field]})


class DateV(Model):
    """date, datetime or time, given by its components."""

    def __init__(self, kind, comps, tz=None):
        self.kind = kind
        self.comps = tuple(comps)
        self.tz = tz
        self.tname = 'datetime.' + kind

    def sa_binop(self, I, sym, other):
        raise Unsupported('date arithmetic')

    fields = property(lambda s: {
        'date': DATE_F, 'time': TIME_F,
        'datetime': DATE_F + TIME_F}[s.kind])

    def key(self):
        return (self.kind, self.comps, self.tz)

    def __eq__(self, o):
        return isinstance(o, DateV) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s%r' % (self.kind, self.comps)

    def sa_eq(self, I, o):
        if not isinstance(o, DateV) or o.kind != self.kind:
            return False
        if self == o:
            return True
        if all(isinstance(a, Term) and isinstance(b, Term)
               and a.op == b.op == 'comp' and a.args[0] != b.args[0]
               for a, b in zip(self.comps, o.comps)):
            return False            # different inputs
        return I.choose_bool(('eq', repr(self), repr(o)), 'equality of dates')

    def sa_str(self, I):
        return Term('str', (self.key(),), 'str', truth=True)

    def sa_getattr(self, I, name):
        if name in self.fields:
            return self.comps[self.fields.index(name)]
        if name == 'tzinfo' and self.kind != 'date':
            return self.tz
        if name == 'fold' and self.kind != 'date':
            return 0
        if self.kind == 'datetime':
            if name == 'date':
                return Native(name, lambda I: DateV('date', self.comps[:3]))
            if name in ('time', 'timetz'):
                return Native(name, lambda I: DateV(
                    'time', self.comps[3:],
                    self.tz if name == 'timetz' else None))
            if name == 'timestamp':
                return Native(name, lambda I: Term(
                    'timestamp', self.key(), 'float', truth=True))
        if name == 'isoformat':
            def iso(I, sep='T', timespec='auto'):
                if timespec != 'auto' and self.kind != 'date':
                    return Term('isolossy', (self.key(), timespec), 'str',
                                truth=True)
                return Term('iso', (self.kind, self, sep), 'str', truth=True)
            return Native(name, iso)
        if name == '__str__':
            return Native(name, lambda I: self.sa_str(I))
        if name == 'strftime':
            return Native(name, lambda I, f: Term(
                'strftime', (self.key(), f), 'str', truth=True))
        if name == 'replace':
            def rep(I, *a, **k):
                c = list(self.comps)
                for i, x in enumerate(a):
                    c[i] = x
                tz = k.pop('tzinfo', self.tz)
                k.pop('fold', None)
                for n, x in k.items():
                    if n not in self.fields:
                        raise I.exc('TypeError', 'bad keyword')
                    c[self.fields.index(n)] = x
                return DateV(self.kind, c, tz)
            return Native(name, rep)
        if name in ('timetuple', 'utctimetuple') and self.kind != 'time':
            def tt(I):
                c = self.comps if self.kind == 'datetime' else \
                    self.comps + (0, 0, 0, 0)
                return tuple(c[:6]) + (
                    Term('weekday', self.key(), 'int'),
                    Term('yday', self.key(), 'int'), -1)
            return Native(name, tt)
        if name == 'toordinal' and self.kind != 'time':
            return Native(name, lambda I: Term(
                'ordinal', (self.comps[:3],), 'int', truth=True,
                meta={'range': (1, 3652059)}))
        if name in ('astimezone', 'weekday', 'isoweekday', 'isocalendar',
                    'ctime', 'utcoffset', 'dst', 'tzname', 'resolution'):
            if name in ('utcoffset', 'dst', 'tzname') and self.tz is None:
                return Native(name, lambda I, *a: None)
            raise Unsupported('datetime.' + name)
        if name.startswith('__'):
            return I.libs.dunder(I, self, name)
        raise I.no_attr(self, name)


class Finalizer(Model):
    """weakref.finalize; the object lives until the process ends."""
    tname = 'weakref.finalize'

    def __init__(self, o, f, a, k):
        self.what = (o, f, a, k)

    def sa_call(self, I):
        if self.what is not None:
            (_, f, a, k), self.what = self.what, None
            return I.call(f, list(a), k)

    def detach(self, I):
        was, self.what = self.what, None
        return was

    def sa_getattr(self, I, name):
        if name in ('detach', 'peek'):
            return Native(name, self.detach if name == 'detach'
                          else lambda I: self.what)
        if name == 'alive':
            return self.what is not None
        return super().sa_getattr(I, name)


class HashVal(Model):
    tname = '_hashlib.HASH'

    def __init__(self, alg, data):
        self.alg, self.data = alg, data

    def sa_getattr(self, I, name):
        if name in ('hexdigest', 'digest'):
            return Native(name, lambda I, *a: Term(
                'hash', (self.alg, name, tuple(self.data)) + tuple(a),
                'str' if name == 'hexdigest' else 'bytes', truth=True))
        if name == 'update':
            return Native(name, lambda I, b: self.add(I, b))
        if name == 'copy':
            return Native(name, lambda I: HashVal(self.alg, self.data))
        if name == 'name':
            return self.alg
        raise Unsupported('hash.' + name)

    def add(self, I, b):
        if I.type_name(b) != 'bytes':
            raise I.exc('TypeError', 'Strings must be encoded before hashing')
        self.data = list(self.data) + [b]


class GenCM(Model):
    tname = 'contextlib._GeneratorContextManager'

    def __init__(self, gen):
        self.gen = gen

    def sa_enter(self, I):
        try:
            return self.gen.tg.resume()
        except StopIteration:
            raise I.exc('RuntimeError', "generator didn't yield")

    def sa_exit(self, I, et=None, ev=None, tb=None):
        if et is None:
            try:
                self.gen.tg.resume()
            except StopIteration:
                return False
            raise I.exc('RuntimeError', "generator didn't stop")
        try:
            self.gen.tg.resume(inject=Raised(ev))
        except StopIteration:
            return True
        except Raised as r:
            if r.exc is ev:
                return False
            raise
        raise I.exc('RuntimeError', "generator didn't stop after throw()")


class SuppressCM(Model):
    tname = 'contextlib.suppress'

    def __init__(self, classes):
        self.classes = classes

    def sa_enter(self, I):
        return None

    def sa_exit(self, I, et=None, ev=None, tb=None):
        return et is not None and I.issubclass_(et, tuple(self.classes))


class ExitStack(Model):
    tname = 'contextlib.ExitStack'

    def __init__(self):
        self.cbs = []

    def sa_enter(self, I):
        return self

    def _run(self, I, et=None, ev=None, tb=None):
        sup = False
        while self.cbs:
            cb = self.cbs.pop()
            if cb[0] == 'cm':
                if I.truth(I.call_method(cb[1], '__exit__', [et, ev, tb])):
                    sup, et, ev, tb = True, None, None, None
            else:
                I.call(cb[1], cb[2], cb[3])
        return sup

    def sa_exit(self, I, *a):
        return self._run(I, *a)

    def sa_getattr(self, I, name):
        if name == 'enter_context':
            def ec(I, cm):
                v = I.call_method(cm, '__enter__', [])
                self.cbs.append(('cm', cm))
                return v
            return Native(name, ec)
        if name == 'callback':
            return Native(name, lambda I, f, *a, **k: self.cbs.append(
                ('cb', f, list(a), k)))
        if name == 'close':
            return Native(name, lambda I: self._run(I))
        raise Unsupported('ExitStack.' + name)


class AsciiTree(Model):
    """asciitree.LeftAligned: draws a nested dict with a single root."""
    tname = 'asciitree.LeftAligned'

    def sa_call(self, I, tree):
        if not isinstance(tree, dict):
            raise I.exc('AttributeError', "object has no attribute 'items'")
        if not tree:
            raise I.exc('IndexError', 'list index out of range')
        root = list(tree.items())[0]
        out = []

        def draw(node, depth):
            label, kids = node
            if not I.is_strlike(label):
                raise I.exc('TypeError', 'node label must be a string')
            out.append(sstr([' |' * depth, '+ ', label]))
            if not isinstance(kids, dict):
                raise I.exc('AttributeError', "object has no attribute "
                            "'items'")
            for k in list(kids.items()):
                draw(k, depth + 1)
        draw(root, 0)
        parts = []
        for i, x in enumerate(out):
            if i:
                parts.append('\n')
            parts.append(x)
        return sstr(parts)


class CachedNative(Native):
    method = True


class MiscMixin:

    # ------------------------------------------------------------- datetime
    def datetime_type_attr(self, I, t, name):
        kind = t.name.split('.')[1]
        L = self

        def now(kind, tag):
            n = I.new_label(tag)
            src = Term('clock', (tag, n))
            fs = {'date': DATE_F, 'time': TIME_F,
                  'datetime': DATE_F + TIME_F}[kind]
            return DateV(kind, [date_comp(src, f) for f in fs])
        if name == 'today' and kind in ('date', 'datetime'):
            return Native(name, lambda I: now(kind, 'local'))
        if name == 'now' and kind == 'datetime':
            def f(I, tz=None):
                r = now(kind, 'local' if tz is None else 'zone')
                if tz is not None:
                    r = DateV(kind, r.comps, tz)
                return r
            return Native(name, f)
        if name == 'utcnow' and kind == 'datetime':
            return Native(name, lambda I: now(kind, 'utc'))
        if name == 'combine' and kind == 'datetime':
            return Native(name, lambda I, d, t: DateV(
                'datetime', d.comps[:3] + t.comps[-4:], t.tz))
        if name == 'fromisoformat':
            def fi(I, s):
                if isinstance(s, NpS):
                    s = s.src
                if isinstance(s, Term) and s.op in ('iso', 'str'):
                    d = s.args[1] if s.op == 'iso' else None
                    if d is None and isinstance(s.args[0], tuple):
                        d = DateV(*s.args[0])
                    if d is not None and d.kind == kind:
                        return d
                    if d is not None and kind == 'datetime' and \
                            d.kind == 'date':
                        return DateV('datetime', d.comps + (0, 0, 0, 0))
                    raise I.exc('ValueError', 'Invalid isoformat string')
                if isinstance(s, str):
                    import datetime
                    d = I.host(getattr(datetime, kind).fromisoformat, s)
                    if getattr(d, 'tzinfo', None) is not None:
                        raise Unsupported('fromisoformat with offset')
                    return DateV(kind, [getattr(d, f) for f in {
                        'date': DATE_F, 'time': TIME_F,
                        'datetime': DATE_F + TIME_F}[kind]])
                raise Unsupported('fromisoformat')
            return Native(name, fi)
        if name == 'fromordinal':
            def fo(I, n):
                if isinstance(n, Term) and n.op == 'ordinal':
                    c = n.args[0]
                    return DateV(kind, c if kind == 'date'
                                 else c + (0, 0, 0, 0))
                raise Unsupported('fromordinal')
            return Native(name, fo)
        if name in ('fromtimestamp', 'strptime', 'utcfromtimestamp'):
            def ft(I, *a):
                src = Term(name, tuple(I.freeze(x) for x in a))
                fs = {'date': DATE_F, 'time': TIME_F,
                      'datetime': DATE_F + TIME_F}[kind]
                return DateV(kind, [date_comp(src, f) for f in fs])
            return Native(name, ft)
        if name in ('min', 'max'):
            return DateV(kind, [
                (9999, 12, 31, 23, 59, 59, 999999) if name == 'max'
                else (1, 1, 1, 0, 0, 0, 0)][0][slice(*{
                    'date': (0, 3), 'time': (3, 7),
                    'datetime': (0, 7)}[kind])])
        if name == 'utc' and kind == 'timezone':
            return Term('tz', ('utc',), 'foreign', truth=True)
        if name in DATE_F + TIME_F or name in ('date', 'time', 'isoformat',
                                               'strftime', 'replace'):
            return Native(name, lambda I, o, *a, **k: I.call(
                I.getattr_(o, name), list(a), k)
                if name not in DATE_F + TIME_F else I.getattr_(o, name))
        return None

    def _mkdate(self, I, kind, a, k):
        fs = {'date': DATE_F, 'time': TIME_F,
              'datetime': DATE_F + TIME_F}[kind]
        k = dict(k)
        tz = k.pop('tzinfo', None)
        k.pop('fold', None)
        if len(a) > len(fs):
            if len(a) == len(fs) + 1:
                tz = a[-1]
                a = a[:-1]
            else:
                raise I.exc('TypeError', 'function takes at most %d arguments'
                            % (len(fs) + 1))
        vals = list(a)
        for n in fs[len(vals):]:
            if n in k:
                vals.append(k.pop(n))
            elif n in DATE_F:
                raise I.exc('TypeError', "missing required argument '%s'" % n)
            else:
                vals.append(0)
        if k:
            raise I.exc('TypeError', 'unexpected keyword argument')
        out = []
        for n, v in zip(fs, vals):
            if isinstance(v, NpS):
                if v.dtype.kind not in 'iu':
                    raise I.exc('TypeError', 'integer argument expected')
                v = self.np_item(I, v)
            if isinstance(v, Arr):
                if v.shape == () and v.dtype.kind in 'iu':
                    v = self.np_item(I, v)
                else:
                    raise I.exc('TypeError', 'only integer scalar arrays')
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                lo, hi = RANGES[n]
                if not lo <= v <= hi:
                    raise I.exc('ValueError', '%s must be in %d..%d'
                                % (n, lo, hi))
            elif isinstance(v, Term) and v.ty == 'int':
                r = v.meta.get('range')
                lo, hi = RANGES[n]
                if r and not (lo <= r[0] and r[1] <= hi) and v.op == 'comp':
                    # a component used in the place of another one
                    if not I.choose_bool(('range', v, n), '%r in the range '
                                         'of %s' % (v, n)):
                        raise I.exc('ValueError', n + ' out of range')
            elif isinstance(v, (Unk, Num)):
                pass
            else:
                raise I.exc('TypeError', 'integer argument expected, got '
                            + I.type_name(v))
            out.append(v)
        return DateV(kind, out, tz)

    def c_datetime_date(self, I, *a, **k):
        return self._mkdate(I, 'date', a, k)

    def c_datetime_time(self, I, *a, **k):
        return self._mkdate(I, 'time', a, k)

    def c_datetime_datetime(self, I, *a, **k):
        return self._mkdate(I, 'datetime', a, k)

    def c_datetime_timedelta(self, I, *a, **k):
        return Term('timedelta', (tuple(a), tuple(sorted(k.items()))),
                    'datetime.timedelta')

    def mod_datetime(self, I):
        ns = {n: BType('datetime.' + n) for n in (
            'date', 'time', 'datetime', 'timedelta', 'timezone', 'tzinfo')}
        ns['UTC'] = Term('tz', ('utc',), 'foreign', truth=True)
        return ModuleVal('datetime', ns, native=True)

    def mod_time(self, I):
        return ModuleVal('time', {
            n: Native(n, lambda I, *a: Term('clock', (I.new_label('t'),),
                                            'float', truth=True))
            for n in ('time', 'monotonic', 'perf_counter')}, native=True)

    # ----------------------------------------------------------------- json
    def mod_json(self, I):
        L = self
        err = ClassVal('JSONDecodeError', [I.exc_classes['ValueError']], {},
                       'json')

        def canon(I, v, sort, default, skipkeys, indent):
            rec = lambda x: canon(I, x, sort, default, skipkeys, indent)
            if isinstance(v, Obj) and v.payload is not None:
                v = v.payload
            if isinstance(v, NpS):
                if v.dtype.kind == 'U':
                    v = v.src
                elif v.dtype.name == 'float64':
                    v = L.np_item(I, v)
            if isinstance(v, dict):
                items = []
                for k, x in v.items():
                    if isinstance(k, NpS):
                        k = k.src
                    if k is None or isinstance(k, (bool, int, float)):
                        k = _json.dumps(k)
                    elif not I.is_strlike(k):
                        if skipkeys:
                            continue
                        raise I.exc('TypeError', 'keys must be str, int, '
                                    'float, bool or None, not '
                                    + I.type_name(k))
                    items.append((k, rec(x)))
                if sort:
                    if all(isinstance(k, str) for k, _ in items):
                        items.sort(key=lambda t: t[0])
                    else:
                        items.sort(key=lambda t: repr(t[0]))
                return ('dict',) + tuple(items)
            if isinstance(v, (list, tuple)):
                return ('list',) + tuple(rec(x) for x in v)
            if v is None or isinstance(v, (bool, int, float, str)):
                return ('c', type(v).__name__, v)
            if isinstance(v, (Num, SStr)):
                return v
            if isinstance(v, Term) and v.ty in ('str', 'int', 'float',
                                                'bool'):
                return v
            if isinstance(v, Unk) or (isinstance(v, Term)
                                      and v.ty == 'object'):
                raise Unsupported('JSON of an unknown value')
            if default is not None:
                return rec(I.call(default, [v]))
            raise I.exc('TypeError', 'Object of type %s is not JSON '
                        'serializable' % I.type_name(v))

        def dumps(I, obj, skipkeys=False, ensure_ascii=True,
                  check_circular=True, allow_nan=True, cls=None, indent=None,
                  separators=None, default=None, sort_keys=False, **k):
            if cls is not None:
                k.update(skipkeys=skipkeys, ensure_ascii=ensure_ascii,
                         check_circular=check_circular, allow_nan=allow_nan,
                         indent=indent, separators=separators,
                         default=default, sort_keys=sort_keys)
                return I.call(I.getattr_(I.call(cls, [], k), 'encode'), [obj])
            fmt = (I.freeze(indent), I.freeze(separators), bool(ensure_ascii))
            return Term('json', (canon(I, obj, sort_keys, default, skipkeys,
                                       indent), fmt), 'str', truth=True)

        def build(c):
            if isinstance(c, tuple) and c and c[0] == 'dict':
                return {k: build(x) for k, x in c[1:]}
            if isinstance(c, tuple) and c and c[0] == 'list':
                return [build(x) for x in c[1:]]
            if isinstance(c, tuple) and c and c[0] == 'c':
                return c[2]
            return c

        HOOKS = ('parse_float', 'parse_int', 'parse_constant',
                 'object_pairs_hook')

        def hooks(I, v, k):
            """apply the parser's hooks to a parsed document"""
            k = {n: k.get(n) for n in HOOKS}
            if not any(x is not None for x in k.values()):
                return v

            def h(x):
                if isinstance(x, dict):
                    x = {a: h(b) for a, b in x.items()}
                    if k['object_pairs_hook'] is not None:
                        return I.call(k['object_pairs_hook'],
                                      [[(a, b) for a, b in x.items()]])
                    return x
                if isinstance(x, list):
                    return [h(y) for y in x]
                ty = I.type_name(x)
                if ty == 'int' and k['parse_int'] is not None:
                    return I.call(k['parse_int'], [I.str_(x)])
                if ty == 'float' and k['parse_float'] is not None:
                    return I.call(k['parse_float'], [I.str_(x)])
                return x
            return h(v)

        def loads(I, s, **k):
            if isinstance(s, NpS):
                s = s.src
            if isinstance(s, Term) and s.op == 'encode':
                s = s.args[0]
            if isinstance(s, Arr):
                raise I.exc('TypeError', 'the JSON object must be str, bytes '
                            'or bytearray, not ndarray')
            if not (I.is_strlike(s) or I.type_name(s) == 'bytes'):
                raise I.exc('TypeError', 'the JSON object must be str, bytes '
                            'or bytearray, not ' + I.type_name(s))
            if isinstance(s, Term) and s.op == 'json':
                v = build(s.args[0])
                hook = k.get('object_hook')
                if hook is not None and k.get('object_pairs_hook') is None:
                    def h(x):
                        if isinstance(x, dict):
                            return I.call(hook, [{a: h(b)
                                                  for a, b in x.items()}])
                        if isinstance(x, list):
                            return [h(y) for y in x]
                        return x
                    v = h(v)
                return hooks(I, v, k)
            if isinstance(s, str) and any(
                    k.get(n) is not None for n in HOOKS + ('object_hook',)):
                try:
                    v = _json.loads(s)
                except ValueError as e:
                    raise I.raised(I.call(err, [str(e)]))
                return hooks(I, v, dict(k))
            if isinstance(s, str):
                try:
                    return _json.loads(s)
                except ValueError as e:
                    raise I.raised(I.call(err, [str(e)]))
            if isinstance(s, Term) and s.op in ('getitem', 'lower', 'upper'):
                raise I.raised(I.call(err, ['Expecting value']))
            raise Unsupported('json.loads of %r' % (s,))

        def dump(I, obj, fp, **k):
            I.call_method(fp, 'write', [dumps(I, obj, **k)])

        def load(I, fp, **k):
            return loads(I, I.call_method(fp, 'read', []), **k)

        def method(name, f):
            n = CachedNative('JSONEncoder.' + name, f)
            return n

        def init(I, self, **k):
            default = k.pop('default', None)
            self.attrs['sa_options'] = k
            if default is not None:
                self.attrs['default'] = default

        def default(I, self, o):
            raise I.exc('TypeError', 'Object of type %s is not JSON '
                        'serializable' % I.type_name(o))

        def encode(I, self, obj):
            return dumps(I, obj, default=I.getattr_(self, 'default'),
                         **self.attrs.get('sa_options', {}))
        enc = ClassVal('JSONEncoder', [BType('object')], {
            '__init__': method('__init__', init),
            'default': method('default', default),
            'encode': method('encode', encode),
            'iterencode': method('iterencode', lambda I, self, o: [
                encode(I, self, o)])}, 'json')
        return ModuleVal('json', {
            'dumps': Native('json.dumps', dumps),
            'loads': Native('json.loads', loads),
            'dump': Native('json.dump', dump),
            'load': Native('json.load', load), 'JSONEncoder': enc,
            'JSONDecodeError': err}, native=True)

    def mod_hashlib(self, I):
        ns = {}
        for n in ('sha256', 'sha1', 'md5', 'sha512', 'sha224', 'sha384',
                  'blake2b', 'blake2s', 'sha3_256', 'sha3_512'):
            def mk(I, data=b'', _n=n, **k):
                h = HashVal(_n, [])
                if data != b'':
                    h.add(I, data)
                return h
            ns[n] = Native('hashlib.' + n, mk)
        ns['new'] = Native('hashlib.new', lambda I, n, data=b'': I.call(
            ns[n], [data]))
        return ModuleVal('hashlib', ns, native=True)

    # ----------------------------------------------------- introspection etc.
    def mod_importlib(self, I):
        def im(I, name, package=None):
            if isinstance(name, NpS):
                name = name.src
            if isinstance(name, (SStr, Term)):
                raise Unsupported('import of unknown module %r' % (name,))
            if not isinstance(name, str):
                raise I.exc('AttributeError', 'bad module name')
            if name.startswith('.'):
                if not package:
                    raise I.exc('TypeError', 'the package argument is '
                                'required to perform a relative import')
                n = len(name) - len(name.lstrip('.'))
                base = package.split('.')
                if n > 1:
                    base = base[:-(n - 1)]
                rest = name.lstrip('.')
                name = '.'.join(base + ([rest] if rest else []))
            return I.import_module(name)
        return ModuleVal('importlib', {
            'import_module': Native('importlib.import_module', im)},
            native=True)

    def mod_sys(self, I):
        return ModuleVal('sys', {
            'modules': SysModules(), 'version_info': (3, 12, 3, 'final', 0),
            'maxsize': 2 ** 63 - 1, 'platform': 'linux', 'argv': [],
            'stdout': NullWriter(), 'stderr': NullWriter(),
            'byteorder': 'little', 'path': [],
            'exc_info': Native('sys.exc_info', lambda I: (
                (None, None, None) if not getattr(I, '_handling', None)
                else (I._handling[-1].cls, I._handling[-1], None))),
            'intern': Native('sys.intern', lambda I, s: s),
            'version': '3.12.3'}, native=True)

    def mod_inspect(self, I):
        ns = {
            'isclass': Native('inspect.isclass', lambda I, v: isinstance(
                v, (ClassVal, BType))),
            'isfunction': Native('inspect.isfunction', lambda I, v:
                                 isinstance(v, FuncVal)),
            'ismethod': Native('inspect.ismethod', lambda I, v:
                               isinstance(v, Bound)),
            'ismodule': Native('inspect.ismodule', lambda I, v:
                               isinstance(v, ModuleVal)),
            'isabstract': Native('inspect.isabstract', lambda I, v: False),
            'isgenerator': Native('inspect.isgenerator', lambda I, v:
                                  isinstance(v, GenObj)),
            'isroutine': Native('inspect.isroutine', lambda I, v: isinstance(
                v, (FuncVal, Bound, Native))),
            'isbuiltin': Native('inspect.isbuiltin', lambda I, v:
                                isinstance(v, Native)),
            'getdoc': Native('inspect.getdoc', lambda I, v: I.getattr_(
                v, '__doc__', None)),
            'getmro': Native('inspect.getmro', lambda I, c: I.getattr_(
                c, '__mro__')),
        }

        def getmembers(I, o, pred=None):
            if isinstance(o, ModuleVal):
                d = o.ns
            elif isinstance(o, ClassVal):
                d = {}
                for c in reversed(o.mro):
                    if isinstance(c, ClassVal):
                        d.update(c.ns)
            elif isinstance(o, Obj):
                d = {}
                for c in reversed(o.cls.mro):
                    if isinstance(c, ClassVal):
                        d.update({k: None for k in c.ns})
                d.update({k: None for k in o.attrs})
                d = {k: I.getattr_(o, k) for k in d}
            else:
                raise Unsupported('getmembers')
            return [(k, d[k]) for k in sorted(d)
                    if pred is None or I.truth(I.call(pred, [d[k]]))]
        ns['getmembers'] = Native('inspect.getmembers', getmembers)

        def getmodule(I, o):
            m = getattr(o, 'module', None)
            return I.modules.get(m)
        ns['getmodule'] = Native('inspect.getmodule', getmodule)
        return ModuleVal('inspect', ns, native=True)

    def mod_pkgutil(self, I):
        def iter_modules(I, path=None, prefix=''):
            out = []
            for name, (file, _) in sorted(I.sources.items()):
                pkg = file.endswith('__init__.py')
                d = _os.path.dirname(_os.path.dirname(file) if pkg else file)
                if path is None or d in [p for p in I.iter_(path)]:
                    out.append((None, prefix + name.rpartition('.')[2], pkg))
            return IterVal(out)
        return ModuleVal('pkgutil', {
            'iter_modules': Native('pkgutil.iter_modules', iter_modules)},
            native=True)

    def mod_copy(self, I):
        L = self

        def deep(I, v, memo):
            if id(v) in memo:
                return memo[id(v)][0]
            if isinstance(v, (list,)):
                r = []
                memo[id(v)] = (r, v)
                r.extend(deep(I, x, memo) for x in v)
                return r
            if isinstance(v, tuple):
                return tuple(deep(I, x, memo) for x in v)
            if isinstance(v, dict):
                r = type(v)()
                if hasattr(v, 'default_factory'):
                    r.default_factory = v.default_factory
                memo[id(v)] = (r, v)
                for k, x in v.items():
                    r[k] = deep(I, x, memo)
                return r
            if isinstance(v, set):
                return set(v)
            if isinstance(v, Arr):
                r = Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
                memo[id(v)] = (r, v)
                return r
            if isinstance(v, Obj):
                m = v.cls.lookup('__deepcopy__')
                if m is not None:
                    return I.call(m, [v, {}])
                if v.cls.lookup('__reduce__') or v.cls.lookup(
                        '__getstate__'):
                    raise Unsupported('deepcopy protocol')
                ga = v.cls.lookup('__getattr__')
                r = I.new_object(v.cls)
                memo[id(v)] = (r, v)
                if ga is not None:
                    # copy looks up __deepcopy__/__reduce_ex__/__setstate__
                    # on (half-built) instances
                    I.getattr_(r, '__setstate__', None)
                for k, x in v.attrs.items():
                    r.attrs[k] = deep(I, x, memo)
                if v.payload is not None:
                    r.payload = deep(I, v.payload, memo)
                return r
            if isinstance(v, Model) and v.tname.startswith('h5py.'):
                raise I.exc('TypeError', 'h5py objects cannot be pickled')
            if isinstance(v, Model) and not isinstance(v, DateV):
                raise Unsupported('deepcopy of ' + v.tname)
            return v

        def shallow(I, v):
            if isinstance(v, (list, dict, set)):
                return type(v)(v)
            if isinstance(v, Arr):
                return Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
            if isinstance(v, Obj):
                m = v.cls.lookup('__copy__')
                if m is not None:
                    return I.call(m, [v])
                r = I.new_object(v.cls)
                r.attrs.update(v.attrs)
                if v.payload is not None:
                    r.payload = shallow(I, v.payload)
                return r
            if isinstance(v, Model) and v.tname.startswith('h5py.'):
                raise I.exc('TypeError', 'h5py objects cannot be pickled')
            return v
        return ModuleVal('copy', {
            'deepcopy': Native('copy.deepcopy',
                               lambda I, v, memo=None: deep(I, v, {})),
            'copy': Native('copy.copy', shallow)}, native=True)

    def mod_functools(self, I):
        L = self
        from .lib_core import PartialVal

        def wraps(I, f, *a, **k):
            def deco(I, g):
                if isinstance(g, FuncVal):
                    g.attrs['__wrapped__'] = f
                    for n in ('__name__', '__qualname__', '__doc__'):
                        x = I.getattr_(f, n, None)
                        if x is not None:
                            g.attrs[n] = x
                    if isinstance(f, FuncVal):
                        for n, x in f.attrs.items():
                            g.attrs.setdefault(n, x)
                return g
            return Native('wraps', deco)

        def cached(I, f, **k):
            cache = {}

            def key(v):
                return I.hk(v) if not isinstance(v, (Arr, list, dict)) \
                    else I.hk(v)

            def call(I, *a, **kw):
                kk = (tuple(key(x) for x in a),
                      tuple(sorted((n, key(x)) for n, x in kw.items())))
                if kk not in cache:
                    cache[kk] = I.call(f, list(a), kw)
                return cache[kk]
            n = Native(getattr(f, 'name', 'cached'), call)
            n.method = True
            n.cache = cache
            n.wrapped = f
            return n

        def lru_cache(I, *a, **k):
            if a and not isinstance(a[0], (int, type(None))):
                return cached(I, a[0])
            return Native('lru_cache', cached)

        def reduce(I, f, it, *init):
            it = iter(I.iter_(it))
            try:
                acc = init[0] if init else next(it)
            except StopIteration:
                raise I.exc('TypeError', 'reduce() of empty iterable with no '
                            'initial value')
            for x in it:
                acc = I.call(f, [acc, x])
            return acc
        ns = {'wraps': Native('functools.wraps', wraps),
              'lru_cache': Native('functools.lru_cache', lru_cache),
              'cache': Native('functools.cache', cached),
              'partial': Native('functools.partial', lambda I, f, *a, **k:
                                PartialVal(f, a, k)),
              'reduce': Native('functools.reduce', reduce),
              'cached_property': Native('functools.cached_property',
                                        lambda I, f: CachedProp(f)),
              'total_ordering': I.prelude().ns['total_ordering'],
              'partialmethod': I.prelude().ns['partialmethod'],
              'singledispatch': Native('functools.singledispatch',
                                       L.singledispatch)}
        return ModuleVal('functools', ns, native=True)

    def singledispatch(self, I, f):
        reg = {}

        def call(I, *a, **k):
            cls = I.type_of(a[0])
            best = None
            for c, g in reg.items():
                if I.isinstance_(a[0], c):
                    if best is None or I.issubclass_(c, best[0]):
                        best = (c, g)
            return I.call(best[1] if best else f, list(a), k)

        def register(I, c, g=None):
            if g is not None:
                reg[c] = g
                return g
            if isinstance(c, FuncVal):
                a = c.node.args
                a = (a.posonlyargs + a.args)[0].annotation
                if a is None:
                    raise I.exc('TypeError', 'invalid first argument to '
                                'register()')
                t = I.eval(a, c.scope)
                if isinstance(t, str):
                    t = I.lookup(t, c.scope)
                reg[t] = c
                return c

            def deco(I, g):
                reg[c] = g
                return g
            return Native('register', deco)
        n = Native(getattr(f, 'name', 'dispatch'), call)
        n.ns = {'register': Native('register', register),
                'dispatch': Native('dispatch', lambda I, c: next(
                    (reg[x] for x in reg if I.issubclass_(c, x)), f)),
                'registry': reg}
        n.wrapped = f
        return n

    def mod_contextlib(self, I):
        def contextmanager(I, f):
            n = Native(getattr(f, 'name', 'cm'), lambda I, *a, **k: GenCM(
                I.call(f, list(a), k)))
            n.method = True
            n.wrapped = f
            return n

        class Closing(Model):
            def __init__(self, o):
                self.o = o

            def sa_enter(self, I):
                return self.o

            def sa_exit(self, I, *a):
                I.call_method(self.o, 'close', [])
                return False
        from .lib_io import NullCM
        return ModuleVal('contextlib', {
            'contextmanager': Native('contextlib.contextmanager',
                                     contextmanager),
            'suppress': Native('contextlib.suppress', lambda I, *c:
                               SuppressCM(c)),
            'nullcontext': Native('contextlib.nullcontext',
                                  lambda I, v=None: NullCM(v)),
            'closing': Native('contextlib.closing', lambda I, o: Closing(o)),
            'ExitStack': Native('contextlib.ExitStack',
                                lambda I: ExitStack())}, native=True)

    def mod_itertools(self, I):
        import itertools as it

        def chain(I, *xs):
            return IterVal(y for x in xs for y in I.iter_(x))
        ch = Native('itertools.chain', chain)
        ch.ns = {'from_iterable': Native(
            'from_iterable', lambda I, xs: IterVal(
                y for x in I.iter_(xs) for y in I.iter_(x)))}

        def count(I, start=0, step=1):
            return IterVal(it.count(start, step))

        def repeat(I, x, *n):
            return IterVal(it.repeat(x, *n))

        def takewhile(I, f, xs):
            def g():
                for x in I.iter_(xs):
                    if not I.truth(I.call(f, [x])):
                        return
                    yield x
            return IterVal(g())

        def dropwhile(I, f, xs):
            def g():
                on = False
                for x in I.iter_(xs):
                    if on or not I.truth(I.call(f, [x])):
                        on = True
                        yield x
            return IterVal(g())

        def filterfalse(I, f, xs):
            return IterVal(x for x in I.iter_(xs) if not I.truth(
                x if f is None else I.call(f, [x])))
        ns = {'chain': ch, 'count': Native('count', count),
              'repeat': Native('repeat', repeat),
              'takewhile': Native('takewhile', takewhile),
              'dropwhile': Native('dropwhile', dropwhile),
              'filterfalse': Native('filterfalse', filterfalse),
              'islice': Native('islice', lambda I, xs, *a: IterVal(
                  it.islice(I.iter_(xs), *a))),
              'zip_longest': Native('zip_longest', lambda I, *xs,
                                    fillvalue=None: IterVal(it.zip_longest(
                                        *[I.iter_(x) for x in xs],
                                        fillvalue=fillvalue))),
              'product': Native('product', lambda I, *xs, repeat=1: IterVal(
                  it.product(*[list(I.iter_(x)) for x in xs],
                             repeat=repeat))),
              'starmap': Native('starmap', lambda I, f, xs: IterVal(
                  I.call(f, list(I.iter_(x))) for x in I.iter_(xs))),
              'tee': Native('tee', lambda I, xs, n=2: tuple(
                  IterVal(list(t)) for t in [list(I.iter_(xs))] * n)),
              'permutations': Native('permutations', lambda I, xs, *a:
                                     IterVal(it.permutations(
                                         list(I.iter_(xs)), *a))),
              'combinations': Native('combinations', lambda I, xs, r:
                                     IterVal(it.combinations(
                                         list(I.iter_(xs)), r)))}
        for n in ('groupby', 'accumulate', 'compress', 'pairwise', 'cycle',
                  'batched'):
            ns[n] = I.prelude().ns[n]
        return ModuleVal('itertools', ns, native=True)

    def mod_operator(self, I):
        import ast
        ns = {}
        for n, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='),
                      ('gt', '>'), ('ge', '>='), ('is_', 'is'),
                      ('is_not', 'is not')):
            ns[n] = Native('operator.' + n, lambda I, a, b, _o=op:
                           I.compare(_o, a, b))
        ns['not_'] = Native('operator.not_', lambda I, a: not I.truth(a))
        ns['truth'] = Native('operator.truth', lambda I, a: I.truth(a))
        ns['contains'] = Native('operator.contains', lambda I, a, b:
                                I.contains(a, b))
        ns['getitem'] = Native('operator.getitem', lambda I, a, b:
                               I.getitem(a, b))
        ns['setitem'] = Native('operator.setitem', lambda I, a, b, c:
                               I.setitem(a, b, c))
        for n, o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult),
                     ('concat', ast.Add), ('and_', ast.BitAnd),
                     ('or_', ast.BitOr)):
            ns[n] = Native('operator.' + n, lambda I, a, b, _o=o:
                           I.binop(_o(), a, b))

        def attrgetter(I, *names):
            def get(I, o):
                r = []
                for n in names:
                    v = o
                    for p in n.split('.'):
                        v = I.getattr_(v, p)
                    r.append(v)
                return r[0] if len(r) == 1 else tuple(r)
            return Native('attrgetter', get)
        ns['attrgetter'] = Native('operator.attrgetter', attrgetter)
        ns['itemgetter'] = Native('operator.itemgetter', lambda I, *ks:
                                  Native('itemgetter', lambda I, o: I.getitem(
                                      o, ks[0]) if len(ks) == 1 else tuple(
                                          I.getitem(o, k) for k in ks)))
        ns['methodcaller'] = Native(
            'operator.methodcaller', lambda I, n, *a, **k: Native(
                'methodcaller', lambda I, o: I.call_method(o, n, list(a), k)))
        return ModuleVal('operator', ns, native=True)

    def mod_collections(self, I):
        ns = {'OrderedDict': BType('collections.OrderedDict'),
              'defaultdict': BType('collections.defaultdict'),
              'abc': I.import_module('collections.abc'),
              'namedtuple': Native('namedtuple', self.namedtuple)}

        for n in ('deque', 'Counter', 'ChainMap', 'UserDict', 'UserList'):
            ns[n] = I.prelude().ns[n]
        return ModuleVal('collections', ns, native=True)

    def namedtuple(self, I, name, fields, defaults=None, **k):
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        fields = list(I.iter_(fields))
        defaults = list(I.iter_(defaults)) if defaults is not None else []
        dflt = dict(zip(fields[len(fields) - len(defaults):], defaults))
        ns = {'_fields': tuple(fields), '_field_defaults': dflt,
              '__match_args__': tuple(fields)}

        def method(n, f):
            m = Native(n, f)
            m.method = True
            ns[n] = m

        def init(I, o, *a, **kw):
            if len(a) > len(fields) or any(
                    n in fields[:len(a)] or n not in fields for n in kw):
                raise I.exc('TypeError', '%s.__new__() got unexpected '
                            'arguments' % name)
            vals = dict(dflt)
            vals.update(zip(fields, a))
            vals.update(kw)
            if len(vals) != len(fields):
                raise I.exc('TypeError', '%s.__new__() missing required '
                            'arguments' % name)
            o.payload = tuple(vals[n] for n in fields)
        method('__init__', init)
        method('_asdict', lambda I, o: dict(zip(fields, o.payload)))
        method('_replace', lambda I, o, **kw: I.call(o.cls, [], dict(zip(
            fields, o.payload), **kw)))
        method('__repr__', lambda I, o: sstr(
            [name + '('] + [x for i, (n, v) in enumerate(zip(
                fields, o.payload)) for x in ((', ' if i else '') + n + '=',
                                              I.repr_(v))] + [')']))
        for i, f in enumerate(fields):
            ns[f] = Prop(Native(f, lambda I, o, _i=i: o.payload[_i]))
        cls = ClassVal(name, [BType('tuple')], ns, 'collections')
        ns['_make'] = Native('_make', lambda I, it: I.call(
            cls, list(I.iter_(it))))
        return cls

    def mod_collections_abc(self, I):
        return ModuleVal('collections.abc', {
            n: BType('collections.abc.' + n) for n in (
                'Mapping', 'MutableMapping', 'Sequence', 'MutableSequence',
                'Iterable', 'Iterator', 'Sized', 'Callable', 'Hashable',
                'Container', 'Collection', 'Generator', 'Set', 'MutableSet',
                'ByteString')}, native=True)

    def mod_numbers(self, I):
        return ModuleVal('numbers', {n: BType('numbers.' + n) for n in (
            'Number', 'Complex', 'Real', 'Rational', 'Integral')},
            native=True)

    def mod_abc(self, I):
        def abstract(I, f):
            for g in I._funcs_of(f):
                g.attrs['__isabstractmethod__'] = True
            return f
        cls = ClassVal('ABC', [BType('object')], {}, 'abc')
        cls.is_abc = True
        return ModuleVal('abc', {
            'ABC': cls, 'ABCMeta': Native('ABCMeta', None),
            'abstractmethod': Native('abstractmethod', abstract),
            'abstractproperty': BType('property')}, native=True)

    def mod_types(self, I):
        def sns(I, **k):
            o = Obj(I.object_cls)
            o.attrs.update(k)
            return o
        return ModuleVal('types', {
            'SimpleNamespace': Native('SimpleNamespace', sns),
            'MappingProxyType': I.prelude().ns['MappingProxyType'],
            'MethodType': Native('MethodType', lambda I, f, o: Bound(f, o)),
            'GeneratorType': BType('generator'),
            'MethodWrapperType': BType('method-wrapper'),
            'BuiltinFunctionType': BType('builtin_function_or_method'),
            'LambdaType': BType('function'),
            'EllipsisType': BType('ellipsis'),
            'FunctionType': BType('function'),
            'ModuleType': BType('module'),
            'NoneType': BType('NoneType')}, native=True)

    def mod_typing(self, I):
        ns = {n: BType('typing.' + n) for n in (
            'Any', 'Optional', 'Union', 'List', 'Dict', 'Tuple', 'Callable',
            'Iterable', 'Iterator', 'Sequence', 'Mapping', 'Type', 'Set',
            'Generic', 'Protocol', 'ClassVar', 'Literal', 'NoReturn',
            'Final', 'Generator', 'Hashable', 'MutableMapping')}
        ns['TYPE_CHECKING'] = False
        ns['TypeVar'] = Native('TypeVar', lambda I, n, *a, **k: BType(
            'typing.' + n))
        ns['cast'] = Native('cast', lambda I, t, v: v)
        ns['overload'] = ns['final'] = Native('final', lambda I, f: f)
        ns['NamedTuple'] = BType('typing.NamedTuple')
        return ModuleVal('typing', ns, native=True)

    def mod_warnings(self, I):
        from .lib_io import NullCM
        return ModuleVal('warnings', {
            'warn': Native('warnings.warn', lambda I, *a, **k: None),
            'catch_warnings': Native('catch_warnings', lambda I, **k:
                                     NullCM()),
            'simplefilter': Native('simplefilter', lambda I, *a, **k: None),
            'filterwarnings': Native('filterwarnings',
                                     lambda I, *a, **k: None)}, native=True)

    def mod_logging(self, I):
        lg = NullWriter()
        ns = {n: Native('logging.' + n, lambda I, *a, **k: None) for n in (
            'debug', 'info', 'warning', 'error', 'critical', 'exception',
            'basicConfig')}
        ns['getLogger'] = Native('getLogger', lambda I, *a: lg)
        ns['NullHandler'] = Native('NullHandler', lambda I: lg)
        for i, n in enumerate(('DEBUG', 'INFO', 'WARNING', 'ERROR')):
            ns[n] = i * 10 + 10
        return ModuleVal('logging', ns, native=True)

    def mod_asciitree(self, I):
        dr = I.import_module('asciitree.drawing')
        return ModuleVal('asciitree', {
            'LeftAligned': Native('LeftAligned', lambda I, *a, **k:
                                  AsciiTree()),
            'BoxStyle': Native('BoxStyle', lambda I, *a, **k: None),
            'drawing': dr}, native=True)

    def mod_asciitree_drawing(self, I):
        return ModuleVal('asciitree.drawing', {
            n: n for n in ('BOX_LIGHT', 'BOX_ASCII', 'BOX_HEAVY',
                           'BOX_DOUBLE', 'BOX_BLANK')} | {
            'BoxStyle': Native('BoxStyle', lambda I, *a, **k: None)},
            native=True)

    def mod___future__(self, I):
        return ModuleVal('__future__', {n: None for n in (
            'annotations', 'division', 'print_function',
            'absolute_import')}, native=True)

    def mod_string(self, I):
        import string
        return ModuleVal('string', {n: getattr(string, n) for n in (
            'ascii_letters', 'digits', 'ascii_lowercase',
            'ascii_uppercase')}, native=True)

    def mod_errno(self, I):
        return ModuleVal('errno', {'ENOENT': 2, 'EEXIST': 17, 'EACCES': 13},
                         native=True)

    def mod_enum(self, I):
        ns = I.prelude().ns
        return ModuleVal('enum', {n: ns[n] for n in (
            'Enum', 'EnumMeta', 'auto', 'unique')}, native=True)

    def mod_dataclasses(self, I):
        ns = I.prelude().ns
        return ModuleVal('dataclasses', {n: ns[n] for n in (
            'dataclass', 'field', 'fields', 'asdict', 'astuple', 'replace',
            'is_dataclass', 'MISSING', 'FrozenInstanceError', 'Field')},
            native=True)

    def mod_builtins(self, I):
        return ModuleVal('builtins', I.builtins, native=True)

    def mod_atexit(self, I):
        def register(I, f, *a, **k):
            I.exit_funcs.append(lambda: I.call(f, list(a), k))
            return f
        return ModuleVal('atexit', {
            'register': Native('atexit.register', register)}, native=True)

    def mod_weakref(self, I):
        ref = Native('weakref.ref', lambda I, o, *a: Native(
            'ref', lambda I: o))

        def finalize(I, o, f, *a, **k):
            fin = Finalizer(o, f, a, k)
            I.exit_funcs.append(lambda: fin.sa_call(I))
            return fin
        return ModuleVal('weakref', {
            'finalize': Native('weakref.finalize', finalize), 'ref': ref, 'proxy': Native('weakref.proxy', lambda I, o, *a: o),
            'WeakKeyDictionary': BType('dict'),
            'WeakValueDictionary': BType('dict')}, native=True)

    def mod_textwrap(self, I):
        import textwrap
        return ModuleVal('textwrap', {n: Native(
            'textwrap.' + n, host_only(getattr(textwrap, n))) for n in (
            'indent', 'dedent', 'fill', 'wrap', 'shorten')}, native=True)

    def mod_traceback(self, I):
        f = lambda I, *a, **k: Term('in', ('traceback',), 'str', truth=True)
        return ModuleVal('traceback', {n: Native(n, f) for n in (
            'format_exc',)} | {n: Native(n, lambda I, *a, **k: None) for n in
                               ('print_exc', 'print_stack')}, native=True)

    def mod_re(self, I):
        import re
        ns = {n: Native('re.' + n, lambda I, p, *a, _n=n, **k: getattr(
            RePattern, 'do')(I, p if isinstance(p, RePattern) else RePattern(
                I, p, k.pop('flags', 0)), _n, *a, **k)) for n in (
            'match', 'search', 'fullmatch', 'sub', 'split', 'findall',
            'finditer', 'subn')}
        ns['compile'] = Native('re.compile', lambda I, p, f=0: RePattern(
            I, p, f))
        ns['escape'] = Native('re.escape', host_only(re.escape))
        for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X',
                  'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE'):
            ns[n] = int(getattr(re, n))
        ns['error'] = I.exc_classes['ValueError']
        return ModuleVal('re', ns, native=True)

    def mod_math(self, I):
        import math
        ns = {n: Native('math.' + n, lambda I, *a, _n=n: I.host(
            getattr(math, _n), *a) if is_host(list(a)) else Unk('math'))
            for n in ('prod', 'floor', 'ceil', 'sqrt', 'isnan', 'isinf',
                      'log', 'isclose')}
        ns.update(inf=math.inf, nan=math.nan, pi=math.pi)

        def prod_(I, it):
            from .lib_np import prod
            return prod(tuple(I.iter_(it)))
        ns['prod'] = Native('math.prod', prod_)
        return ModuleVal('math', ns, native=True)


def host_only(fn):
    def f(I, *a, **k):
        if not is_host(list(a)) or not is_host(list(k.values())):
            raise Unsupported(fn.__name__ + ' of an unknown value')
        return I.host(fn, *a, **k)
    return f


class RePattern(Model):
    """Compiled regular expression, for known strings."""
    tname = 're.Pattern'

    def __init__(self, I, p, flags=0):
        import re
        if not isinstance(p, (str, bytes)):
            raise Unsupported('unknown regular expression')
        self.p = re.compile(p, flags)

    def do(I, self, name, *a, **k):
        if not is_host(list(a)) or k:
            raise Unsupported('regular expression on an unknown text')
        r = I.host(getattr(self.p, name), *a)
        if name == 'finditer':
            return IterVal(ReMatch(m) for m in r)
        if name in ('match', 'search', 'fullmatch'):
            return None if r is None else ReMatch(r)
        return r

    def sa_getattr(self, I, name):
        if name == 'pattern':
            return self.p.pattern
        return Native('re.' + name, lambda I, *a, **k: RePattern.do(
            I, self, name, *a, **k))


class ReMatch(Model):
    tname = 're.Match'

    def __init__(self, m):
        self.m = m

    def sa_getitem(self, I, k):
        return I.host(self.m.__getitem__, k)

    def sa_getattr(self, I, name):
        if name in ('string', 'lastindex', 'lastgroup', 'pos', 'endpos'):
            return getattr(self.m, name)
        if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span'):
            return Native(name, lambda I, *a: I.host(
                getattr(self.m, name), *a))
        raise I.no_attr(self, name)


class NullWriter(Model):
    tname = 'writer'

    def sa_getattr(self, I, name):
        return Native(name, lambda I, *a, **k: None)


class SysModules(Model):
    tname = 'sys.modules'

    def sa_getitem(self, I, k):
        if k in I.modules:
            return I.modules[k]
        raise I.exc('KeyError', k)

    def sa_contains(self, I, k):
        return k in I.modules

    def sa_getattr(self, I, name):
        if name == 'get':
            return Native(name, lambda I, k, d=None: I.modules.get(k, d))
        raise Unsupported('sys.modules.' + name)
