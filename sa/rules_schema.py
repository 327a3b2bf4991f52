"""Rules about schema nodes: C01 - C07."""
from .world import *

VE = 'ValidationError'


def validate(w, node, value, indep=None):
    """node.validate(value); the exception or None."""
    if node.cls.name == 'Array':
        return w.raises(w.call, node, 'validate', value,
                        indep if indep is not None else [])
    return w.raises(w.call, node, 'validate', value)


# has every attribute and operation of a good value, but not its type
DUCK = """
class Duck:
    def __init__(self, dtype, shape):
        self.dtype = dtype
        self.shape = shape
        self.ndim = len(shape)
        self.size = 3
        self.year = 2020
        self.month = self.day = self.hour = self.minute = self.second = 1
        self.microsecond = 0
        self.tzinfo = None
        self.real = self

    def __len__(self):
        return 3

    def __iter__(self):
        return iter((1, 2, 3))

    def __getitem__(self, key):
        return self

    def __lt__(self, other):
        return False

    def __gt__(self, other):
        return False

    def __le__(self, other):
        return True

    def __ge__(self, other):
        return True

    def __float__(self):
        return 1.0

    def __int__(self):
        return 1

    def __index__(self):
        return 1

    def __bytes__(self):
        return b'abc'

    def __str__(self):
        return 'abc'

    def __bool__(self):
        return True

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return isinstance(other, Duck)

    def isoformat(self):
        return '2020-01-01'

    def encode(self, encoding='utf-8'):
        return b'abc'

    def decode(self, encoding='utf-8'):
        return 'abc'

    def item(self):
        return 1

    def tobytes(self):
        return b'abc'

    def date(self):
        return self

    def time(self):
        return self

    def any(self):
        return False

    def all(self):
        return True
"""


def type_candidates(w):
    """Values of all types a user may pass: (tag, type tags, value)."""
    out = [
        ('none', None), ('true', True), ('false', False), ('int', 5),
        ('zero', 0), ('unknown int', Num('n', 1500)), ('float', 2.5),
        ('complex', 1 + 2j), ('str', Term('in', ('s',), 'str', truth=True)),
        ('empty str', ''), ('concrete str', 'abc'),
        ('bytes', Term('in', ('b',), 'bytes', truth=True)),
        ('empty bytes', b''), ('concrete bytes', b'abc'),
        ('bytearray', Term('in', ('ba',), 'bytearray', truth=True)),
        ('list', [1, 2]), ('empty list', []), ('tuple', (1, 2)),
        ('dict', {'a': 1}), ('set', {1, 2}),
        ('date', DateV('date', [date_comp('d', f) for f in DATE_F])),
        ('datetime', DateV('datetime', [date_comp('t', f)
                                        for f in DATE_F + TIME_F])),
        ('time', DateV('time', [date_comp('u', f) for f in TIME_F])),
        ('type int', BType('int')), ('type str', BType('str')),
        ('np.bool', NpS(BOOL, True)),
        ('np.str', NpS(DType('str', 'U', 3), 'abc')),
        ('np.bytes', NpS(DType('bytes', 'S', 3), b'abc')),
        ('np.void', NpS(DType('void', 'V', 3), b'abc')),
        ('object', w.I.call(BType('object'), [])),
        ('schema node', w.S('Bool')),
    ]
    for n in ('memoryview', 'frozenset', 'range', 'array.array',
              'decimal.Decimal', 'fractions.Fraction', 'datetime.timedelta'):
        out.append((n, Term('in', (n,), n, truth=True,
                            meta={'len': Num('n', 1500)})))
    duck = w.user_code('duck', DUCK)
    for n in ('float64', 'int32', 'bool'):
        for ndim in (0, 1, 2):
            out.append(('look-alike %s %s-d' % (n, ndim), w.I.call(
                w.I.getattr_(duck, 'Duck'), [dt(n), (3,) * ndim])))
    for n in NUM_DTYPES:
        out.append(('np.' + n, NpS(dt(n), Num('x', 1500))))
        out.append(('np.%s zero' % n, NpS(dt(n), Num('x', 0))))
    for n in ARR_DTYPES:
        out.append(('array %s' % n, w.arr(n, (3,), 'arr' + n)))
    out += [('array 0-d', w.arr('float64', (), 'a0')),
            ('array empty', w.arr('float64', (0,), 'ae')),
            ('array one', w.arr('float64', (1,), 'a1')),
            ('array 2-d', w.arr('float64', (2, 2), 'a2')),
            ('array object', w.arr('object', (2,), 'ao'))]
    return out


def accepted(kind, tag, opts):
    """True/False, or None where the documentation leaves it open."""
    if kind == 'Bool':
        return tag in ('true', 'false')
    if kind == 'Bytes':
        return None if tag == 'np.bytes' else tag in (
            'bytes', 'empty bytes', 'concrete bytes')
    if kind == 'String':
        return None if tag == 'np.str' else tag in (
            'str', 'empty str', 'concrete str')
    if kind == 'Date':
        return None if tag == 'datetime' else tag == 'date'
    if kind in ('DateTime', 'Time'):
        return tag == kind.lower()
    if kind == 'Scalar':
        return tag in ('np.' + opts['dtype'], 'np.%s zero' % opts['dtype'])
    if kind == 'Array':
        if opts.get('ndim') == 0:
            return tag == 'array 0-d'
        if opts['dtype'] == 'float64' and opts.get('ndim', 1) == 1 and \
                tag in ('array empty', 'array one'):
            return True
        if opts.get('ndim', 1) == 2:
            return tag == 'array 2-d' and opts['dtype'] == 'float64'
        return tag == 'array ' + opts['dtype']


def c01(add, thorough, src):
    configs = {
        'Bool': [{}],
        'Bytes': [{}, {'min_length': 0}, {'min_length': 0,
                                          'max_length': 100000}],
        'String': [{}, {'min_length': 0}, {'min_length': 0,
                                           'max_length': 100000}],
        'Date': [{}, {'set_on_create': True}],
        'DateTime': [{}, {'set_on_create': True}],
        'Time': [{}, {'set_on_create': True}],
        'Scalar': [{'dtype': n} for n in NUM_DTYPES] + [
            {'dtype': 'float64', 'min_value': 0, 'max_value': 9000},
            {'dtype': 'int32', 'min_value': 0},
            {'dtype': 'int64', 'max_value': 9000, 'unit': 'V'}],
        'Array': [{'dtype': n} for n in ARR_DTYPES] + [
            {'dtype': 'float64', 'ndim': 2},
            {'dtype': 'float64', 'ndim': 0},
            {'dtype': 'int32', 'min_shape': (0,)},
            {'dtype': 'int32', 'max_shape': (None,)}],
    }
    tags = None
    for kind, cfgs in configs.items():
        for cfg in cfgs:
            def ob(w, kind=kind, cfg=cfg):
                for tag, value in type_candidates(w):
                    want = accepted(kind, tag, cfg)
                    if want is None:
                        continue
                    node = w.S(kind, **{
                        k: Num('M', 9000) if x == 9000 else x
                        for k, x in cfg.items()})
                    if want and ('max_length' in cfg or 'min_value' in cfg
                                 or 'max_value' in cfg):
                        if isinstance(value, Term):
                            continue        # length unknown, see C02
                    exc = validate(w, node, value)
                    if want:
                        w.no_exc(exc, '%s(%s).validate(%s)' % (
                            kind, cfg, tag))
                    else:
                        w.expect_exc(exc, VE, '%s(%s).validate(%s)' % (
                            kind, cfg, tag))
            add('type:%s:%s' % (kind, ','.join(
                '%s=%s' % x for x in sorted(cfg.items()))),
                'wrong value types are refused with ValidationError, the '
                'documented type is accepted', ob)

    def namesakes(w):
        names = ('bool', 'bytes', 'str', 'date', 'datetime', 'time',
                 'number', 'ndarray', 'float64', 'int32')
        m = w.user_code('namesakes', ''.join('''
class %s:
    dtype = 'float64'
    ndim = 1
    shape = (2,)
    size = 2
    def __len__(self):
        return 2
''' % n for n in names))
        for kind in LEAVES:
            d = leaf_desc(kind)
            node = w.mk(d)
            for n in names:
                w.expect_exc(validate(w, node, w.I.call(
                    w.I.getattr_(m, n), [])), VE,
                    '%s.validate(an object of another class named %s)'
                    % (kind, n))
    add('type:namesakes', 'a class of the same name is not the documented '
        'type', namesakes)

    # a value keeps being judged the same, whatever was validated before
    def again(w):
        for kind in LEAVES:
            d = leaf_desc(kind)
            node = w.mk(d)
            good = w.val(d)
            bad = object_of(w)
            for v, want in ((good, True), (bad, False), (good, True),
                            (None, False), (bad, False)):
                exc = validate(w, node, v)
                if want:
                    w.no_exc(exc, '%s: repeated validation' % kind)
                else:
                    w.expect_exc(exc, VE, '%s: repeated validation' % kind)
    add('type:repeated', 'validation does not depend on earlier '
        'validations', again)
    return {}


def object_of(w):
    return w.I.call(BType('object'), [])


# ------------------------------------------------------------------- C02
LEN_CASES = []
for _mn, _mx in ((None, None), (None, 'M'), ('m', None), ('m', 'M'),
                 ('m', 'm'), (0, None), (None, 0), (0, 0), (0, 'M')):
    LEN_CASES.append((_mn, _mx))
RANK = {'m': 2000, 'M': 4000, 0: 0}
LENS = [0, 1000, 1999, 2000, 2001, 3000, 3999, 4000, 4001, 5000]


def rank_ok(r, mn, mx):
    return (mn is None or r >= RANK[mn]) and (mx is None or r <= RANK[mx])


def lim(x):
    if x is None or x == 0:
        return x
    return Num(x, RANK[x])


def c02(add, thorough, src):
    for kind, ty in (('String', 'str'), ('Bytes', 'bytes')):
        for mn, mx in LEN_CASES:
            def ob(w, kind=kind, ty=ty, mn=mn, mx=mx):
                for r in LENS:
                    if mx is None and r > 3000:
                        continue
                    kw = {}
                    if mn is not None:
                        kw['min_length'] = lim(mn)
                    if mx is not None:
                        kw['max_length'] = lim(mx)
                    node = w.S(kind, **kw)
                    n = Num('len', r)
                    v = Term('in', ('v%d' % r,), ty, truth=r > 0,
                             meta={'len': n})
                    exc = validate(w, node, v)
                    what = '%s(min_length=%s, max_length=%s) with length ' \
                        '%s' % (kind, mn, mx, describe(r))
                    if rank_ok(r, mn, mx):
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE, what)
            add('len:%s:%s-%s' % (kind, mn, mx), 'exactly the lengths from '
                'minimum to maximum are accepted', ob)

    for backend in BACKENDS:
        for mn, mx in ((None, 2), (2, None), (1, 3), (0, 0), (2, 2)):
            add('node:%s:%s-%s' % (backend, mn, mx), 'a List node counts '
                'every item, also empty and falsy ones',
                lambda w, b=backend, mn=mn, mx=mx: node_lengths(
                    w, b, mn, mx))

    hi = 5 if thorough else 4
    for kind in ('String', 'Bytes', 'List'):
        for form in ('keyword', 'from_dict', 'explicit None'):
            if form != 'keyword' and kind != 'List':
                continue

            def ob(w, kind=kind, form=form):
                for mn in [None] + list(range(hi)):
                    for mx in [None] + list(range(hi)):
                        for n in range(hi + 1):
                            check_len(w, kind, form, mn, mx, n)
            add('len-small:%s:%s' % (kind, form), 'exactly the lengths from '
                'minimum to maximum are accepted (small concrete limits)',
                ob)
    # the length is the number of characters / bytes, whatever they are
    for kind, vals in (
            ('String', ['', 'a', 'aa', 'abc', ' a', 'a ', '  ', 'a\n', '\t\n',
                        'aA', 'aba', '\u00e9', 'e\u0301', '\u20ac',
                        '\U0001f600', '\U0001f600\U0001f600', 'a\0', '\0\0',
                        '\u00df', '\ufb01', '\\n', "'", '0', '00', '\ufeffa',
                        '\r\n', 'abcd']),
            ('Bytes', [b'', b'a', b'aa', b'abc', b' a', b'a ', b'  ', b'a\n',
                       b'\0', b'a\0', b'a\0\0', b'\0\0', b'\0a', b'\xff\xfe',
                       b'\xc3\xa9', b'\xe2\x82\xac', b'0', b'00', b'\r\n',
                       b'abcd'])):
        def content(w, kind=kind, vals=vals):
            for v in vals:
                for mn in (None, 0, 1, 2, 3):
                    for mx in (None, 0, 1, 2, 3):
                        kw = {k: x for k, x in (('min_length', mn), (
                            'max_length', mx)) if x is not None}
                        exc = validate(w, w.S(kind, **kw), v)
                        what = '%s(min_length=%s, max_length=%s): %s' % (
                            kind, mn, mx, ascii(v))
                        if (mn is None or len(v) >= mn) and (
                                mx is None or len(v) <= mx):
                            w.no_exc(exc, what)
                        else:
                            w.expect_exc(exc, VE, what)
        add('len-content:' + kind, 'every character or byte counts as one',
            content)

    # List data nodes in every backend
    for b in BACKENDS:
        def ob(w, b=b):
            k = 0
            for mn in (None, 0, 1, 2):
                for mx in (None, 0, 1, 2, 3):
                    k += 1
                    d = Lst(leaf_desc('Bool'), min_length=mn, max_length=mx)
                    st, data = w.new(b, d, 'n%d' % k)
                    for n in range(5):
                        if n:
                            w.call(data, 'append', True)
                        ok = (mn is None or n >= mn) and (mx is None
                                                          or n <= mx)
                        for who, exc in (
                                ('List.validate', w.raises(
                                    w.call, data, 'validate')),
                                ('Storage.validate', w.raises(
                                    w.call, st, 'validate'))):
                            what = '%s %s with %d items, limits %s..%s' % (
                                b, who, n, mn, mx)
                            if ok:
                                w.no_exc(exc, what)
                            else:
                                w.expect_exc(exc, VE, what)
        add('len-nodes:%s' % b, 'length limits of List data nodes', ob)
    return {}


def items_of(n):
    """Contents of a List with n items: filled, empty and falsy ones."""
    yield 'Bool', [True] * n
    yield 'Bool', [EMPTY] * n
    yield 'Bool', [False] * n
    yield 'String', ['', EMPTY, 'a', ''][:n]
    yield 'String', [EMPTY, 'a', EMPTY, EMPTY][:n]
    yield 'List', [[], [True], [], [EMPTY]][:n]
    yield 'Compilation', [{}, {'x': True}, {}, {}][:n]


ITEM = {'Bool': lambda: leaf_desc('Bool'),
        'String': lambda: leaf_desc('String'),
        'List': lambda: Lst(leaf_desc('Bool')),
        'Compilation': lambda: Comp(x=leaf_desc('Bool'),
                                    y=leaf_desc('Bool'))}


def node_lengths(w, backend, mn, mx):
    for n in range(5):
        for kind, spec in items_of(n):
            kw = {}
            if mn is not None:
                kw['min_length'] = mn
            if mx is not None:
                kw['max_length'] = mx
            desc = Comp(l=Lst(ITEM[kind](), **kw))
            st = w.new(backend, desc, 'l%d%s' % (n, w.label()))[0]
            w.fill(w.attr(st, 'data'), desc, {'l': spec})
            exc = w.raises(w.call, st, 'validate')
            what = '%s: List[%s](min_length=%s, max_length=%s) holding %d ' \
                'items %r' % (backend, kind, mn, mx, n, spec)
            if (mn is None or n >= mn) and (mx is None or n <= mx):
                w.no_exc(exc, what)
            else:
                w.expect_exc(exc, 'SubnodeValidationError', what)


def check_len(w, kind, form, mn, mx, n):
    kw = {}
    if mn is not None or form == 'explicit None':
        kw['min_length'] = mn
    if mx is not None or form == 'explicit None':
        kw['max_length'] = mx
    if kind == 'List':
        node = w.S('List', w.S('Bool'), **kw)
        v = [True] * n
    else:
        node = w.S(kind, **kw)
        v = ('x' if kind == 'String' else b'x') * n
    if form == 'from_dict':
        node = w.fn('dsch.schema', 'node_from_dict', w.call(node, 'to_dict'))
    exc = validate(w, node, v)
    ok = (mn is None or n >= mn) and (mx is None or n <= mx)
    what = '%s(min_length=%s, max_length=%s) with length %d' % (
        kind, mn, mx, n)
    if ok:
        w.no_exc(exc, what)
    else:
        w.expect_exc(exc, VE, what)


def describe(r):
    return {0: 'zero', 1000: 'below the minimum', 1999: 'minimum - 1',
            2000: 'equal to the minimum', 2001: 'minimum + 1',
            3000: 'between the limits', 3999: 'maximum - 1',
            4000: 'equal to the maximum', 4001: 'maximum + 1',
            5000: 'above the maximum', -1: '-1', 1: '1',
            -1000: 'negative'}.get(r, str(r))


# ------------------------------------------------------------------- C03
BOUNDS = [(None, None), ('m', None), (None, 'M'), ('m', 'M'), ('m', 'm'),
          (0, None), (None, 0), (0, 0), ('n', 0), (0, 'M'), ('n', 'M')]
BRANK = dict(RANK, n=-2000)
VALS = [-4000, -2001, -2000, -1999, -1000, -1, 0, 1, 1000, 1999, 2000, 2001,
        3000, 3999, 4000, 4001, 5000]


def bound(x, ty):
    if x is None:
        return None
    if x == 0:
        return {'float': 0.0}.get(ty, 0)
    return Num(x, BRANK[x], ty)


def bound_ok(r, mn, mx):
    return (mn is None or r >= BRANK[mn]) and (mx is None or r <= BRANK[mx])


def dtype_forms(w, n):
    """The ways a user may write a dtype."""
    return [('name', n), ('str', dt(n).str()), ('dtype', dt(n)),
            ('type', BType('np.' + n) if n != 'bool' else BType('np.bool'))]


def c03(add, thorough, src):
    types = [n for n in NUM_DTYPES if not n.startswith('complex')]
    for mn, mx in BOUNDS:
        for n in types:
            unsigned = n.startswith('u')
            if unsigned and 'n' in (mn, mx):
                continue
            vals = [r for r in VALS if not (unsigned and r < 0)]
            ty = 'float' if n.startswith('float') else 'int'

            def sc(w, mn=mn, mx=mx, n=n, vals=vals, ty=ty):
                for r in vals:
                    node = w.S('Scalar', dtype=n, min_value=bound(mn, ty),
                               max_value=bound(mx, ty))
                    v = NpS(dt(n), Num('x', r, ty))
                    exc = validate(w, node, v)
                    what = 'Scalar(%s, min %s, max %s), value %s' % (
                        n, mn, mx, describe(r))
                    if bound_ok(r, mn, mx):
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE, what)
            add('bounds:Scalar:%s:%s..%s' % (n, mn, mx),
                'a number is accepted exactly if it lies between the bounds',
                sc)

            def ar(w, mn=mn, mx=mx, n=n, vals=vals, ty=ty):
                inner = [r for r in (2000, 0, 3000, -2000, -1)
                         if bound_ok(r, mn, mx) and r in vals][:1]
                for r in vals:
                    for shape, pos in (((1,), 0), ((3,), 0), ((3,), 1),
                                       ((3,), 2), ((2, 2), 0), ((2, 2), 3),
                                       ((), 0)):
                        size = prod(shape)
                        els = [Num('f%d' % i, inner[0], ty)
                               for i in range(size)]
                        els[pos] = Num('x', r, ty)
                        node = w.S('Array', dtype=n, ndim=len(shape),
                                   min_value=bound(mn, ty),
                                   max_value=bound(mx, ty))
                        exc = validate(w, node, w.arr(n, shape, els=els))
                        what = 'Array(%s, min %s, max %s), element %s '                             'of shape %s is %s' % (n, mn, mx, pos, shape,
                                                   describe(r))
                        if bound_ok(r, mn, mx):
                            w.no_exc(exc, what)
                        else:
                            w.expect_exc(exc, VE, what)
                # no element, no violation
                node = w.S('Array', dtype=n, min_value=bound(mn, ty),
                           max_value=bound(mx, ty))
                w.no_exc(validate(w, node, w.arr(n, (0,), els=[])),
                         'Array(%s, min %s, max %s) without elements'
                         % (n, mn, mx))
            if thorough or n in ('int8', 'int32', 'int64', 'uint8',
                                 'float16', 'float32', 'float64'):
                add('bounds:Array:%s:%s..%s' % (n, mn, mx),
                    'an array is accepted exactly if every element lies '
                    'between the bounds', ar)
    for kind, names in (('Scalar', NUM_DTYPES), ('Array', ARR_DTYPES)):
        for n in names:
            def ob(w, kind=kind, n=n, names=names):
                for form, x in dtype_forms(w, n):
                    node = w.S(kind, dtype=x)
                    for m in names:
                        v = NpS(dt(m), Num('x', 1500)) if kind == 'Scalar' \
                            else w.arr(m, (2,), 'a' + m)
                        exc = validate(w, node, v)
                        what = '%s(dtype %s as %s), value of dtype %s' % (
                            kind, n, form, m)
                        if m == n:
                            w.no_exc(exc, what)
                        else:
                            w.expect_exc(exc, VE, what)
            add('dtype:%s:%s' % (kind, n), 'exactly the configured dtype is '
                'accepted', ob)
    # undefined elements do not hide the others
    def undefined(w):
        nan = float('nan')
        for n in ('float32', 'float64'):
            for mn, mx in ((None, 5.0), (1.0, None), (1.0, 5.0)):
                for els in ([nan, 9.0], [9.0, nan], [3.0, nan, 9.0],
                            [nan, 0.0], [0.0, nan], [nan, 3.0, 0.0],
                            [nan, nan, 9.0, 0.0]):
                    out = any((mx is not None and x > mx) or (
                        mn is not None and x < mn) for x in els)
                    if out:
                        node = w.S('Array', dtype=n, min_value=mn,
                                   max_value=mx)
                        w.expect_exc(
                            validate(w, node, w.arr(n, (len(els),),
                                                    els=list(els))), VE,
                            'Array(%s, min %s, max %s) with elements %s'
                            % (n, mn, mx, els))
    add('undefined', 'an element beyond the bounds is found beside NaN',
        undefined)

    def orders(w):
        for n in ('int16', 'int32', 'int64', 'float32', 'float64'):
            d = dt(n)
            other = DType(d.name, d.kind, d.itemsize, '>')
            for kind in ('Scalar', 'Array'):
                for conf, x, want in (
                        (n, other, False), (d, other, False),
                        (d.str(), other, False), (other, d, False),
                        (other.str(), d, False), (other.str(), other, True)):
                    if kind == 'Scalar' and other is x:
                        continue     # NumPy numbers are always native
                    node = w.S(kind, dtype=conf)
                    v = NpS(x, Num('x', 1500)) if kind == 'Scalar' else \
                        w.arr(n, (2,), 'a')
                    if kind == 'Array':
                        v = Arr(v.buf, x, v.shape)
                    exc = validate(w, node, v)
                    what = '%s(%r), value of dtype %s' % (kind, conf,
                                                          x.str())
                    if want:
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE, what)
    add('orders', 'another byte order is another dtype', orders)

    # the numbers at the ends of the dtype's range, and known ones
    for n in types:
        for kind in ('Scalar', 'Array'):
            for form in ('python', 'numpy'):
                add('known:%s:%s:%s' % (kind, n, form),
                    'comparisons with the bounds neither overflow nor round',
                    lambda w, a=(kind, n, form): known_numbers(w, *a))
    # through data nodes, for in-place changes
    for b in BACKENDS:
        def nodes(w, b=b):
            d = Comp(s=D('Scalar', dtype='float64', min_value=0.0,
                         max_value=Num('M', 4000, 'float')),
                     a=D('Array', dtype='int32', min_value=0,
                         max_value=Num('M', 4000)))
            st, data = w.new(b, d)
            for r in (0, 4000, 4001, 3000, -1, 1000, 5000):
                w.call(w.attr(data, 's'), 'replace',
                       NpS(dt('float64'), Num('x', r, 'float')))
                w.call(w.attr(data, 'a'), 'replace', w.arr(
                    'int32', (2,), els=[Num('c', 2000), Num('x', r)]))
                for f in 'sa':
                    exc = w.raises(w.call, w.attr(data, f), 'validate')
                    what = '%s: data node %s with value %s' % (
                        b, f, describe(r))
                    if 0 <= r <= 4000:
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE, what)
        add('bounds-nodes:%s' % b, 'bounds are enforced on data nodes',
            nodes)
    return {}


def known_numbers(w, kind, n, form):
    d = dt(n)
    if d.kind == 'f':
        big = {2: 65504.0, 4: 2.0 ** 100, 8: 2.0 ** 1000}[d.itemsize]
        vals = [-big, -3.0, -0.25, 0.0, 0.25, 3.0, big]
    else:
        hi = 2 ** (8 * d.itemsize - (d.kind == 'i')) - 1
        lo = -hi - 1 if d.kind == 'i' else 0
        vals = sorted({lo, lo + 1, max(lo, -3), 0, 3, hi // 2 + 1, hi - 1,
                       hi})
    mk = (lambda x: x) if form == 'python' else (lambda x: NpS(d, x))
    limits = [None] + vals[::2]
    if form == 'python' and d.kind in 'iu':
        # bounds the dtype cannot represent
        limits += [2.5, -0.5, 2.75, vals[-1] + 1, vals[0] - 1]
        vals = sorted(set(vals) | {2, 4})
    for lo in limits:
        for hi in limits:
            kw = {} if kind == 'Scalar' else {'ndim': 1}
            node = w.S(kind, dtype=n, min_value=None if lo is None
                       else mk(lo), max_value=None if hi is None
                       else mk(hi), **kw)
            for x in vals:
                if kind == 'Scalar':
                    v = NpS(d, x)
                else:
                    inner = [y for y in vals if (lo is None or y >= lo)
                             and (hi is None or y <= hi)]
                    if not inner:
                        continue
                    v = w.arr(n, (3,), els=[inner[0], x, inner[-1]])
                exc = validate(w, node, v)
                what = '%s(%s, min %s, max %s given as %s numbers), value ' \
                    '%s' % (kind, n, lo, hi, form, x)
                if (lo is None or x >= lo) and (hi is None or x <= hi):
                    w.no_exc(exc, what)
                else:
                    w.expect_exc(exc, VE, what)


# ------------------------------------------------------------------- C04
def c04(add, thorough, src):
    def mkshape(w, ranks):
        return tuple(Num('s%d' % i, r) for i, r in enumerate(ranks))

    lims = [None, 0, 'm', 'M']
    for ndim in ((1, 2, 3) if thorough else (1, 2)):
        import itertools
        for mn in itertools.product(lims, repeat=ndim):
            for mx in itertools.product(lims, repeat=ndim):
                if not thorough and ndim == 2 and 'M' in mn:
                    continue

                def ob(w, ndim=ndim, mn=mn, mx=mx):
                    for given in ('both', 'min', 'max'):
                        one_shape(w, ndim, mn, mx, given)
                if ndim == 3 and hash((mn, mx)) % 8:
                    pass
                add('shape:%dd:%s..%s' % (ndim, mn, mx),
                    'every dimension lies within its own limits', ob)

    def one_shape(w, ndim, mn, mx, given):
        kw = {'dtype': 'int32'}
        e1, e2 = [None] * ndim, [None] * ndim
        if given in ('both', 'min'):
            kw['min_shape'] = tuple(lim(x) for x in mn)
            e1 = mn
        if given in ('both', 'max'):
            kw['max_shape'] = tuple(lim(x) for x in mx)
            e2 = mx
        sizes = [0, 1999, 2000, 3000, 4000, 4001]
        if ndim == 3:
            sizes = [1999, 2000, 4001]
        for rs_ in itertools_product(sizes, ndim):
            node = w.S('Array', **kw)
            shape = mkshape(w, rs_)
            v = w.arr('int32', shape, 'arr')
            exc = validate(w, node, v)
            ok = all(rank_ok(r, a, b) for r, a, b in zip(rs_, e1, e2))
            what = 'Array(min_shape %s, max_shape %s), shape %s' % (
                e1, e2, tuple(describe(r) for r in rs_))
            if ok:
                w.no_exc(exc, what)
            else:
                w.expect_exc(exc, VE, what)

    def small(w):
        import itertools
        for ndim in (1, 2):
            lims = [None, 0, 1, 2, 3]
            for given in ('min_shape', 'max_shape'):
                for lm in itertools.product(lims, repeat=ndim):
                    node = w.S('Array', dtype='int32', **{given: lm})
                    for shape in itertools.product(range(5), repeat=ndim):
                        exc = validate(w, node, w.arr('int32', shape, 'a'))
                        ok = all(x is None or (s_ >= x if given == 'min_shape'
                                               else s_ <= x)
                                 for x, s_ in zip(lm, shape))
                        what = 'Array(%s %s), shape %s' % (given, lm, shape)
                        if ok:
                            w.no_exc(exc, what)
                        else:
                            w.expect_exc(exc, VE, what)
    add('small', 'small limits and sizes, all of them', small)

    def ndims(w):
        for kw, n in (({}, 1), ({'ndim': 0}, 0), ({'ndim': 2}, 2),
                      ({'ndim': 3}, 3), ({'ndim': 4}, 4),
                      ({'max_shape': (None,)}, 1),
                      ({'max_shape': (None, None)}, 2),
                      ({'max_shape': (None, 3)}, 2),
                      ({'max_shape': [None, 3, None]}, 3),
                      ({'min_shape': (1, 1)}, 2),
                      ({'min_shape': (None, None, 1)}, 3),
                      ({'min_shape': (1, 1), 'max_shape': (None, 9)}, 2),
                      ({'min_shape': (1, 1), 'max_shape': (None, 9),
                        'ndim': 1}, 2),
                      ({'max_shape': (9, 9), 'ndim': 2}, 2)):
            node = w.S('Array', dtype='int32', **kw)
            w.expect_same(w.attr(node, 'ndim'), n,
                          'ndim of Array(%s)' % kw)
            for m in range(6):
              for shape in dict.fromkeys(
                      [(2,) * m, (1,) * m, (2,) + (1,) * (m - 1),
                       (1,) * (m - 1) + (3,), (1, 3, 1, 3, 1)[:m]]):
                if len(shape) != m or kw.get('max_shape') and any(
                        x is not None and y > x for x, y in zip(
                            kw['max_shape'], shape)):
                    continue
                v = w.arr('int32', shape, 'a')
                exc = validate(w, node, v)
                what = 'Array(%s), array of shape %s' % (kw, shape)
                if m == n:
                    w.no_exc(exc, what)
                else:
                    w.expect_exc(exc, VE, what)
    add('ndim', 'exactly the configured number of dimensions is accepted',
        ndims)

    def ctor(w):
        for kw, ok in (({'max_shape': (1, 2), 'min_shape': (1,)}, False),
                       ({'max_shape': (1,), 'min_shape': (1, 2)}, False),
                       ({'max_shape': (1, 2, 3), 'min_shape': (1, 2)},
                        False),
                       ({'max_shape': (1, 2), 'min_shape': (1, 2)}, True),
                       ({'max_shape': (None, None),
                         'min_shape': (None, None)}, True),
                       ({'max_shape': (None, None), 'min_shape': (None,)},
                        False),
                       ({'depends_on': 't'}, True),
                       ({'depends_on': ('t',)}, True),
                       ({'depends_on': ['t']}, True),
                       ({'depends_on': ('t', 'u')}, False),
                       ({'depends_on': ('t', 'u'), 'ndim': 2}, True),
                       ({'depends_on': ('t', None), 'ndim': 2}, True),
                       ({'depends_on': (None, 't'), 'ndim': 2}, True),
                       ({'depends_on': 't', 'ndim': 2}, False),
                       ({'depends_on': ('t',), 'ndim': 2}, False),
                       ({'depends_on': ('t', 'u', 'v'), 'ndim': 2}, False),
                       ({'depends_on': ('t', 'u', 'v'), 'ndim': 3}, True),
                       ({'depends_on': 't', 'max_shape': (3, 4)}, False),
                       ({'depends_on': 't', 'min_shape': (3, 4)}, False),
                       ({'depends_on': 't', 'min_shape': (3,), 'ndim': 2},
                        True),
                       ({'depends_on': ('t', None), 'max_shape': (3, 4)},
                        True),
                       ({'depends_on': ('t', 'u'), 'min_shape': (3,)},
                        False),
                       ({'depends_on': 'time_vector', 'max_shape': (3,)},
                        True)):
            exc = w.raises(w.S, 'Array', dtype='int32', **kw)
            what = 'Array(%s)' % kw
            if ok:
                w.no_exc(exc, what)
            else:
                w.expect_exc(exc, 'ValueError', what)
    add('constructor', 'inconsistent shape constraints and independent '
        'variables are refused', ctor)
    return {}


def itertools_product(xs, n):
    import itertools
    return list(itertools.product(xs, repeat=n))


# ------------------------------------------------------------------- C05
def c05(add, thorough, src):
    # directly on schema nodes: independent variables t (3), u (4), none
    import itertools
    sizes = {'t': 3, 'u': 4, 'v': 1, 'z': 3}
    for ndim in (1, 2, 3):
        for deps in itertools.product((None, 't', 'u', 'v'), repeat=ndim):
            if ndim == 3 and not thorough and 'v' in deps:
                continue

            def ob(w, ndim=ndim, deps=deps):
                for shape in itertools.product((1, 3, 4, 5), repeat=ndim):
                    node = w.S('Array', dtype='int32', ndim=ndim,
                               depends_on=deps)
                    ind = [None if n is None else
                           w.arr('float64', (sizes[n],), n) for n in deps]
                    exc = validate(w, node, w.arr('int32', shape, 'x'), ind)
                    ok = all(n is None or sizes[n] == s
                             for n, s in zip(deps, shape))
                    what = 'Array(depends_on=%s) of shape %s with %s' % (
                        deps, shape, sizes)
                    if ok:
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE, what)
            add('schema:%s' % (deps,), 'each dimension with an independent '
                'variable has the length of that variable', ob)

    def small(w):
        for ndim in (1, 2):
            for ns in itertools.product((None, 0, 1, 2, 3), repeat=ndim):
                for shape in itertools.product(range(4), repeat=ndim):
                    node = w.S('Array', dtype='int32', ndim=ndim,
                               depends_on=tuple(None if n is None else
                                                't%d' % i for i, n in
                                                enumerate(ns)))
                    exc = validate(w, node, w.arr('int32', shape, 'x'), [
                        None if n is None else w.arr('float64', (n,), 't')
                        for n in ns])
                    what = 'Array of shape %s, independent variables of ' \
                        'lengths %s' % (shape, ns)
                    if all(n is None or n == s_
                           for n, s_ in zip(ns, shape)):
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE, what)
    add('small', 'small lengths, all of them', small)

    # data nodes: the variable is looked up in the own Compilation
    for b in BACKENDS:
        for ndim in (1, 2) if not thorough else (1, 2, 3):
            for deps in itertools.product((None, 't', 'u'), repeat=ndim):
                def ob(w, b=b, ndim=ndim, deps=deps):
                    one_tree(w, b, ndim, deps)
                add('nodes:%s:%s' % (b, deps), 'data nodes are compared '
                    'with the very variables they name', ob)

    def one_tree(w, b, ndim, deps):
        dep = deps if ndim > 1 else deps[0] if deps[0] else deps
        arr = lambda **o: leaf_desc('Array', **o)
        # dependent variable listed before and after the independent ones
        for order in (('t', 'u', 'x'), ('x', 't', 'u'), ('u', 'x', 't')):
            fields = {'t': arr(), 'u': arr(),
                      'x': arr(ndim=ndim, depends_on=dep)}
            d = Comp(**{n: fields[n] for n in order})
            st, data = w.new(b, d, 'n' + ''.join(order))
            cur = {'t': 3, 'u': 4}
            for nt, nu, shape in [
                    (3, 4, s) for s in itertools.product((3, 4, 5),
                                                         repeat=ndim)] + \
                    [(5, 4, (5,) * ndim), (5, 5, (5,) * ndim),
                     (3, 5, (5,) * ndim), (3, 5, (3, 5, 3)[:ndim])]:
                cur = {'t': nt, 'u': nu}
                for n in 'tu':
                    w.call(w.attr(data, n), 'replace',
                           w.arr('int32', (cur[n],)))
                w.call(w.attr(data, 'x'), 'replace', w.arr('int32', shape))
                ok = all(n is None or cur[n] == s
                         for n, s in zip(deps, shape))
                for who in (w.attr(data, 'x'), data, st):
                    exc = w.raises(w.call, who, 'validate')
                    what = '%s: x(%s) of shape %s with lengths %s' % (
                        b, deps, shape, cur)
                    if ok:
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, VE if who.cls.name == 'Array'
                                     else 'SubnodeValidationError', what)

    # several Compilations in one tree do not see each other's variables
    for b in BACKENDS:
        def ob(w, b=b):
            arr = lambda **o: leaf_desc('Array', **o)
            inner = Comp(t=arr(), x=arr(depends_on='t'))
            d = Comp(t=arr(), c=inner, l=Lst(inner), x=arr(depends_on='t'))
            st, data = w.new(b, d)
            sizes = {'top': 2, 'c': 3, 'l0': 4, 'l1': 5}
            l = w.attr(data, 'l')
            w.call(l, 'append')
            w.call(l, 'append')
            comps = {'top': data, 'c': w.attr(data, 'c'),
                     'l0': w.item(l, 0), 'l1': w.item(l, 1)}
            for k, c in comps.items():
                for f in 'tx':
                    w.call(w.attr(c, f), 'replace',
                           w.arr('int32', (sizes[k],)))
            w.no_exc(w.raises(w.call, st, 'validate'),
                     b + ': all dependent arrays match')
            for k, c in comps.items():
                for other in sizes.values():
                    if other == sizes[k]:
                        continue
                    w.call(w.attr(c, 'x'), 'replace',
                           w.arr('int32', (other,)))
                    w.expect_exc(w.raises(w.call, w.attr(c, 'x'),
                                          'validate'), VE,
                                 '%s: array in %s with another length' % (
                                     b, k))
                    w.expect_exc(w.raises(w.call, st, 'validate'),
                                 'SubnodeValidationError',
                                 '%s: array in %s with another length' % (
                                     b, k))
                w.call(w.attr(c, 'x'), 'replace',
                       w.arr('int32', (sizes[k],)))
            w.no_exc(w.raises(w.call, st, 'validate'),
                     b + ': all dependent arrays match again')
        add('scopes:%s' % b, 'variables are looked up in the own '
            'Compilation', ob)
    return {}


# -------------------------------------------------------------- C06 / C07
def option_values(w, kind, opt, mixed=True):
    """Configurations an option may take, the default first; all of them
    are different configurations."""
    unit = Term('in', ('unit',), 'str', truth=True)
    num = [None, 0, -1, 1, Term('in', ('i',), 'int', truth=True), 2.5,
           Term('in', ('f',), 'float', truth=True)]
    lens = [None, 0, 1, 2, Term('in', ('n',), 'int', truth=True)]
    if not mixed:       # pairwise different for sure
        num = [None, 0, -1, 1, 2.5]
        lens = [None, 0, 1, 2, 3]
    unit2 = Term('in', ('unit2',), 'str', truth=True)
    return {
        'dtype': ['float64', 'int32', 'bool', 'complex64', 'uint8'],
        'unit': ['', unit, unit2],
        'max_value': num, 'min_value': num,
        'max_length': lens, 'min_length': lens,
        'set_on_create': [False, True],
        'ndim': [1, 2, 0],
        'max_shape': [None, (3,), (0,), (None,), (3, None), (None, 3)],
        'min_shape': [None, (3,), (1,), (None,), (3, None), (None, 3)],
        'depends_on': [None, 't', 'u'],
    }.get(opt)


OPTIONS = {
    'Array': ['dtype', 'unit', 'max_shape', 'min_shape', 'ndim',
              'max_value', 'min_value', 'depends_on'],
    'Bool': [], 'Bytes': ['min_length', 'max_length'],
    'Date': ['set_on_create'], 'DateTime': ['set_on_create'],
    'Time': ['set_on_create'],
    'Scalar': ['dtype', 'unit', 'max_value', 'min_value'],
    'String': ['min_length', 'max_length'],
    'List': ['max_length', 'min_length'],
}


def configs(w, kind, mixed=True):
    """Pairwise different configurations: (description, builder)."""
    base = {'dtype': 'float64'} if kind in ('Array', 'Scalar') else {}
    out = [(dict(base))]
    for o in OPTIONS[kind]:
        for x in option_values(w, kind, o, mixed)[1:]:
            out.append(dict(base, **{o: x}))
    if kind == 'Array':
        out += [dict(base, ndim=2, depends_on=('t', 'u')),
                dict(base, ndim=2, depends_on=('u', 't')),
                dict(base, ndim=2, depends_on=(None, 't')),
                dict(base, ndim=2, depends_on=('t', None)),
                dict(base, min_shape=(1, 2), max_shape=(3, 4)),
                dict(base, min_shape=(2, 1), max_shape=(3, 4)),
                dict(base, min_shape=(1, 2), max_shape=(4, 3)),
                dict(base, unit='m', min_value=1, max_value=2,
                     depends_on='q')]
    elif len(OPTIONS[kind]) > 1:
        o = OPTIONS[kind]
        names = [x for x in o if x not in ('dtype', 'unit')]
        out += [dict(base, **{names[0]: 1, names[1]: 2}),
                dict(base, **{names[0]: 2, names[1]: 1}),
                dict(base, **{names[0]: 0, names[1]: 0})]
    if kind == 'List':
        r = []
        for c in out:
            r.append(lambda w, c=c: w.S('List', w.S('Bool'), **c))
        for k in ('String', 'Date', 'Bytes'):
            r.append(lambda w, k=k: w.S('List', w.S(k)))
        r += [lambda w: w.S('List', w.S('String', max_length=3)),
              lambda w: w.S('List', w.S('String', min_length=3)),
              lambda w: w.S('List', w.S('List', w.S('Bool'))),
              lambda w: w.S('List', w.S('List', w.S('Bool'), max_length=2)),
              lambda w: w.S('List', w.S('List', w.S('Bool')), max_length=2),
              lambda w: w.S('List', w.S('Compilation', {'a': w.S('Bool')})),
              lambda w: w.S('List', w.S('Compilation', {'b': w.S('Bool')}))]
        return r
    return [lambda w, c=c: w.S(kind, **c) for c in out]


def comp_configs(w):
    B = lambda: w.S('Bool')
    C = lambda f, o=None: w.S('Compilation', f, o) if o is not None \
        else w.S('Compilation', f)
    fl = Term('in', ('fieldname',), 'str', truth=True)
    return [
        lambda w: C({}), lambda w: C({'a': B()}), lambda w: C({'b': B()}),
        lambda w: C({'a': B(), 'b': B()}),
        lambda w: C({'a': B()}, ['a']),
        lambda w: C({'a': B(), 'b': B()}, ['a']),
        lambda w: C({'a': B(), 'b': B()}, ['b']),
        lambda w: C({'a': B(), 'b': B()}, ['a', 'b']),
        lambda w: C({'c': B(), 'b': B(), 'a': B()}, ['c', 'b']),
        lambda w: C({'a': B(), 'b': w.S('String')}),
        lambda w: C({'b': B(), 'a': w.S('String')}),
        lambda w: C({'a': w.S('String', max_length=1), 'b': B()}),
        lambda w: C({'a': w.S('String', max_length=2), 'b': B()}),
        lambda w: C({'a': C({'b': B()})}),
        lambda w: C({'a': C({'b': B()}, ['b'])}),
        lambda w: C({'a': C({'b': B()})}, ['a']),
        lambda w: C({'a': w.S('List', B())}),
        lambda w: C({'a': w.S('List', C({'b': B()}))}),
        lambda w: C({'a': w.S('List', C({'b': w.S('Array', dtype='int32',
                                                  max_shape=(3, None))}))}),
        lambda w: C({'a': w.S('List', C({'b': w.S('Array', dtype='int32',
                                                  max_shape=(4, None))}))}),
        lambda w: C({'a': w.S('List', C({'b': w.S('Date',
                                                  set_on_create=True)}))}),
        lambda w: C({'node_type': B()}), lambda w: C({'config': B()}),
        lambda w: C({'subnodes': B()}), lambda w: C({'optionals': B()}),
        lambda w: C({'a': B(), 'b': w.S('Scalar', dtype='int32', unit='V')}),
        lambda w: C({'a': B(), 'b': w.S('Scalar', dtype='int32', unit='A')}),
        lambda w: C({'a': B(), 'b': w.S('Array', dtype='int32', unit='A')}),
    ]


def all_configs(w, kind, mixed=True):
    return comp_configs(w) if kind == 'Compilation' else configs(
        w, kind, mixed)


KINDS = sorted(OPTIONS) + ['Compilation']


def init_params(w, cls):
    """Names of the constructor parameters (the options) of a class."""
    init = cls.lookup('__init__')
    if not isinstance(init, FuncVal):
        return []
    a = init.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def seq(v):
    """Compare shapes and field lists irrespective of list/tuple."""
    return tuple(seq(x) for x in v) if isinstance(v, (list, tuple)) else v


def expect_equal_nodes(w, a, b, what):
    w.check(isinstance(b, Obj) and b.cls.name == a.cls.name,
            '%s: is a %s instead of a %s' % (
                what, w.I.type_name(b), a.cls.name))
    for p in init_params(w, a.cls):
        x, y = w.attr(a, p), w.attr(b, p)
        if p == 'subnodes':
            w.check(list(x) == list(y) or set(x) == set(y),
                    '%s: sub-nodes %s instead of %s' % (
                        what, list(y), list(x)))
            for n in x:
                expect_equal_nodes(w, x[n], y[n], what + '.' + w.sh(n))
        elif p == 'subnode':
            expect_equal_nodes(w, x, y, what + '[]')
        else:
            w.expect_same(seq(y), seq(x), '%s: option %s of %s' % (
                what, p, a.cls.name))


def schema_classes(w):
    """All node classes of the schema module, from the source."""
    m = w.mod('dsch.schema')
    base = w.get('dsch.schema', 'SchemaNode')
    return {n: c for n, c in m.ns.items() if isinstance(c, ClassVal)
            and c is not base and base in c.mro
            and c.module == 'dsch.schema'}


def number_configs(w):
    np_ = lambda n, x: NpS(dt(n), x)
    for kind, kw in (('Scalar', {}), ('Array', {})):
        for x in (1e-12, 0.1, 1e300, -2.5e-7, 123456.789012345,
                  float(2 ** 53 - 1)):
            yield kind, {'dtype': 'float64', 'max_value': x}
            yield kind, {'dtype': 'float64', 'min_value': x}
        for x in (2 ** 53 + 1, -2 ** 63, 10 ** 12, 255):
            yield kind, {'dtype': 'int64', 'max_value': x}
    for x in (255, 256, 1000, 65536, 10 ** 9):
        yield 'String', {'max_length': x}
        yield 'Bytes', {'min_length': x, 'max_length': x + 1}
    yield 'Array', {'dtype': 'int32', 'max_shape': (1000, None, 70000)}
    yield 'Scalar', {'dtype': 'int32', 'unit': '\u00b5V \u2126/\u221aHz'}
    yield 'Scalar', {'dtype': 'int32', 'unit': ' "a\\b"\n\t{}%s '}
    for n in NUM_DTYPES:
        x = {'f': 2.5, 'c': 2.0}.get(dt(n).kind, 3)
        if dt(n).kind == 'c':
            continue            # JSON has no complex numbers
        for o in ('max_value', 'min_value'):
            for kind in ('Scalar', 'Array'):
                yield kind, {'dtype': n, o: np_(n, x)}
                yield kind, {'dtype': 'float64', o: np_(n, 0 * x)}
    for kind in ('String', 'Bytes'):
        for o in ('max_length', 'min_length'):
            yield kind, {o: np_('int64', 3)}
            yield kind, {o: np_('int32', 0)}
    for o in ('max_shape', 'min_shape'):
        yield 'Array', {'dtype': 'int32', o: (np_('int64', 3),)}
        yield 'Array', {'dtype': 'int32', o: (None, np_('int64', 3))}
    yield 'Array', {'dtype': 'int32', 'ndim': np_('int64', 2)}


def plain(w, v):
    if isinstance(v, (list, tuple)):
        return tuple(plain(w, x) for x in v)
    return v.src if isinstance(v, NpS) else \
        v.name if isinstance(v, DType) else v


def np_type(w):
    return w.I.getattr_(w.get('dsch.schema', 'np'), 'int32')


def c06(add, thorough, src):
    def complete(w):
        have = set(schema_classes(w))
        w.check(have == set(KINDS), 'schema node classes: %s, expected %s'
                % (sorted(have), sorted(KINDS)))
        for n, c in schema_classes(w).items():
            want = set(OPTIONS.get(n, ['subnodes', 'optionals'])) | (
                {'subnode'} if n == 'List' else set())
            extra = set(init_params(w, c)) - want
            if extra:
                raise Unsupported('unknown options %s of %s' % (extra, n))
    add('classes', 'the rules know all node classes and options', complete)

    for kind in KINDS:
        def ob(w, kind=kind):
            for i, mk in enumerate(all_configs(w, kind)):
                node = mk(w)
                what = '%s configuration %d' % (kind, i)
                d = w.call(node, 'to_dict')
                w.expect_same(d.get('node_type'), kind,
                              what + ': node_type')
                expect_equal_nodes(w, node, w.fn(
                    'dsch.schema', 'node_from_dict', d),
                    what + ' by node_from_dict')
                expect_equal_nodes(w, node, mk(w), what + ' afterwards')
                expect_equal_nodes(w, node, w.call(
                    node.cls, 'from_dict', w.call(node, 'to_dict')),
                    what + ' by from_dict')
                j = w.call(node, 'to_json')
                n2 = w.fn('dsch.schema', 'node_from_json', j)
                expect_equal_nodes(w, node, n2, what + ' by JSON')
                # and the reloaded one again
                n3 = w.fn('dsch.schema', 'node_from_json',
                          w.call(n2, 'to_json'))
                expect_equal_nodes(w, node, n3, what + ' by JSON twice')
                w.expect_same(w.call(n2, 'to_json'), j,
                              what + ': JSON of the reloaded node')
                # a reloaded node is a full node (Arrays etc. validate)
                w.fresh()
                n4 = w.fn('dsch.schema', 'node_from_json', j)
                expect_equal_nodes(w, node, n4, what + ' in a new process')
        add('roundtrip:' + kind, 'to_dict/to_json and back gives the same '
            'node type, options and sub-nodes', ob)

    def dtypes(w):
        for kind in ('Scalar', 'Array'):
            for n in (NUM_DTYPES if kind == 'Scalar' else ARR_DTYPES):
                for form, x in dtype_forms(w, n):
                    node = w.S(kind, dtype=x)
                    n2 = w.fn('dsch.schema', 'node_from_json',
                              w.call(node, 'to_json'))
                    got = w.I.libs.parse_dtype(w.I, w.attr(n2, 'dtype'))
                    w.expect_same(got.key(), dt(n).key(),
                                  '%s dtype %s as %s after JSON' % (
                                      kind, n, form))
    add('dtypes', 'a dtype given as name, type or dtype object survives',
        dtypes)

    def numbers(w):
        for kind, opts in number_configs(w):
            node = w.S(kind, **opts)
            what = '%s(%s)' % (kind, w.short([], opts))
            for n2 in (w.fn('dsch.schema', 'node_from_json',
                            w.call(node, 'to_json')),
                       w.fn('dsch.schema', 'node_from_dict',
                            w.call(node, 'to_dict'))):
                for o, x in opts.items():
                    got = w.attr(n2, o)
                    w.check(plain(w, got) == plain(w, x),
                            '%s: %s is %s after loading' % (what, o,
                                                            w.sh(got)))
                w.expect_same(w.call(n2, 'hash'), w.call(node, 'hash'),
                              what + ': hash of the reloaded node')
    add('numbers', 'limits given as NumPy numbers survive', numbers)

    def reused(w):
        """a dict says what it holds when it is used"""
        for kind, o, x, y in (('String', 'max_length', 3, 5),
                              ('Bytes', 'min_length', None, 2),
                              ('Scalar', 'unit', 'V', 'A'),
                              ('Scalar', 'max_value', 2.5, None),
                              ('Array', 'dtype', 'int32', 'int64'),
                              ('Date', 'set_on_create', False, True)):
            kw = {'dtype': 'int32'} if kind in ('Scalar', 'Array') else {}
            d = w.call(w.S(kind, **dict(kw, **{o: x})), 'to_dict')
            outer = {'node_type': 'List', 'config': {
                'subnode': d, 'max_length': None, 'min_length': None}}
            for k, v in enumerate((x, y, x)):
                d['config'][o] = v
                for fn in ('node_from_dict', 'from_dict'):
                    n = w.fn('dsch.schema', fn, d) if fn != 'from_dict' \
                        else w.call(w.get('dsch.schema', kind), fn, d)
                    what = '%s.%s of a changed dict (use %d)' % (kind, fn, k)
                    w.expect_same(w.attr(n, o), v, what)
                    n2 = w.fn('dsch.schema', 'node_from_dict', outer)
                    w.expect_same(w.attr(w.attr(n2, 'subnode'), o), v, what
                                  + ', inside a List')
                    # and what was made from it is independent of it
                    w.call(n, 'to_dict')['config'][o] = 'changed'
                    w.expect_same(w.attr(n, o), v, what)
    add('reused-dict', 'a dict can be changed and used again', reused)

    def refuse(w):
        for kind in KINDS:
            node = all_configs(w, kind)[1 if kind != 'Bool' else 0](w)
            d = w.call(node, 'to_dict')
            for other in KINDS:
                cls = w.get('dsch.schema', other)
                if other != kind:
                    w.expect_exc(
                        w.raises(w.call, cls, 'from_dict', d), 'ValueError',
                        '%s.from_dict of a %s dict' % (other, kind))
            for bad in ('Foo', '', kind.lower(), kind + 'x',
                        'ValidationError', 'np', 'node_from_dict'):
                d2 = dict(d, node_type=bad)
                w.expect_exc(w.raises(w.fn, 'dsch.schema', 'node_from_dict',
                                      d2), 'ValueError',
                             'node_from_dict with node type %s' % (bad,))
                w.expect_exc(w.raises(w.call, node.cls, 'from_dict', d2),
                             'ValueError',
                             '%s.from_dict with node type %s' % (kind, bad))
        # below the top level
        for mk in (lambda w: w.S('List', w.S('Bool')),
                   lambda w: w.S('Compilation', {'a': w.S('Bool')})):
            d = w.call(mk(w), 'to_dict')
            c = d['config']
            sub = c['subnode'] if 'subnode' in c else c['subnodes']['a']
            sub['node_type'] = 'Foo'
            w.expect_exc(w.raises(w.fn, 'dsch.schema', 'node_from_dict', d),
                         'ValueError', 'unknown node type in a sub-node')
    add('refuse', 'dicts with a foreign or unknown node type are refused '
        'with ValueError', refuse)
    return {}


def c07(add, thorough, src):
    def hashes(w, kind):
        mks = all_configs(w, kind, False)
        return mks, [w.call(mk(w), 'hash') for mk in mks]

    for kind in KINDS:
        def distinct(w, kind=kind):
            mks, hs = hashes(w, kind)
            nodes = [mk(w) for mk in mks]
            for i in range(len(hs)):
                for j in range(len(hs)):
                    if i < j or i == j:
                        w.check((w.canon(hs[i]) == w.canon(hs[j]))
                                == (i == j), '%s configurations %d and %d '
                                '(%s, %s) have %s hash' % (
                                    kind, i, j, conf(w, nodes[i]),
                                    conf(w, nodes[j]), 'the same' if i != j
                                    else 'a different'))
                    eq = w.I.truth(w.I.compare('==', mks[i](w), nodes[j]))
                    w.check(eq == (i == j), '%s configurations %d and %d '
                            '(%s, %s): == gives %s' % (
                                kind, i, j, conf(w, nodes[i]),
                                conf(w, nodes[j]), eq))
                    ne = w.I.truth(w.I.compare('!=', nodes[i], nodes[j]))
                    w.check(ne == (i != j), '%s configurations %d and %d: '
                            '!= gives %s' % (kind, i, j, ne))
        add('distinct:' + kind, 'different configurations have different '
            'hashes, equal ones the same; == agrees', distinct)

        def stable(w, kind=kind):
            for i, mk in enumerate(all_configs(w, kind)):
                node = mk(w)
                h = w.call(node, 'hash')
                for k in range(3):
                    w.expect_same(w.call(node, 'hash'), h,
                                  '%s: hash computed again' % kind)
                w.expect_same(w.call(mk(w), 'hash'), h,
                              '%s: hash of an equal node' % kind)
                for how, n2 in (('JSON', w.fn(
                        'dsch.schema', 'node_from_json',
                        w.call(node, 'to_json'))), ('dict', w.fn(
                            'dsch.schema', 'node_from_dict',
                            w.call(node, 'to_dict')))):
                    w.expect_same(w.call(n2, 'hash'), h,
                                  '%s: hash after reloading from %s' % (
                                      kind, how))
                    w.check(w.I.truth(w.I.compare('==', node, n2)),
                            '%s: reloaded node != original' % kind)
                    w.check(w.I.truth(w.I.compare('==', n2, node)),
                            '%s: original != reloaded node' % kind)
                w.fresh()
                w.expect_same(w.call(mk(w), 'hash'), h,
                              '%s: hash in another process' % kind)
        add('stable:' + kind, 'the hash depends on nothing but the '
            'configuration', stable)

    def across(w):
        hs = {}
        for kind in KINDS:
            for i, h in enumerate(hashes(w, kind)[1]):
                k = w.canon(h)
                w.check(k not in hs, 'same hash for %s and %s configuration'
                        ' %d' % (hs.get(k), kind, i))
                hs[k] = '%s configuration %d' % (kind, i)
        one = [all_configs(w, k)[0](w) for k in KINDS]
        for i, a in enumerate(one):
            for j, b in enumerate(one):
                w.check(w.I.truth(w.I.compare('==', a, b)) == (i == j),
                        '%s == %s' % (KINDS[i], KINDS[j]))
    add('across-types', 'nodes of different types differ', across)

    def order(w):
        import itertools
        f = {'b': lambda: w.S('Bool'), 'a': lambda: w.S('String'),
             'item': lambda: w.S('List', w.S('Compilation', {
                 'y': w.S('Bool'), 'x': w.S('Date')})),
             'z': lambda: w.S('Compilation', {'q': w.S('Bool'),
                                              'c': w.S('Time')})}
        perms = list(itertools.permutations(f))
        nodes = [w.S('Compilation', {n: f[n]() for n in p}) for p in perms]
        h0 = w.call(nodes[0], 'hash')
        for p, n in zip(perms, nodes):
            w.expect_same(w.call(n, 'hash'), h0, 'hash with field order %s'
                          % (p,))
            w.check(w.I.truth(w.I.compare('==', nodes[0], n)),
                    '== with field order %s' % (p,))
            r = w.fn('dsch.schema', 'node_from_json', w.call(n, 'to_json'))
            w.expect_same(w.call(r, 'hash'), h0,
                          'hash reloaded with field order %s' % (p,))
        # the order of nested fields, too
        a = w.S('Compilation', {'n': w.S('Compilation', {
            'p': w.S('Bool'), 'o': w.S('Date')})})
        b = w.S('Compilation', {'n': w.S('Compilation', {
            'o': w.S('Date'), 'p': w.S('Bool')})})
        w.expect_same(w.call(a, 'hash'), w.call(b, 'hash'),
                      'hash with nested field order')
    add('order', 'the order of the fields does not matter', order)

    def large(w):
        """schemas of any size, differing in a single place"""
        def mk(names, odd=None, deep=0):
            n = w.S('Compilation', {x: w.S('Bool' if x == odd else 'String')
                                    for x in names})
            for k in range(deep):
                n = w.S('List', n) if k % 2 else w.S('Compilation', {
                    'level%d' % k: n})
            return n
        for size, deep in ((400, 0), (3, 40)):
            names = ['a_rather_long_name_of_a_field_%d' % i
                     for i in range(size)]
            hs = {}
            for odd in [None] + names[:2] + names[size // 2:size // 2 + 1] \
                    + names[-2:]:
                node = mk(names, odd, deep)
                h = w.canon(w.call(node, 'hash'))
                w.check(hs.setdefault(h, odd) == odd, 'schemas of %d fields, '
                        '%d levels deep, differing in %s and %s have the '
                        'same hash' % (size, deep, odd, hs[h]))
                w.expect_same(w.call(mk(names, odd, deep), 'hash'), w.call(
                    node, 'hash'), 'hash of an equal large schema')
                r = w.fn('dsch.schema', 'node_from_json',
                         w.call(node, 'to_json'))
                w.expect_same(w.call(r, 'hash'), w.call(node, 'hash'),
                              'hash of a large schema reloaded')
            a, b = mk(names, None, deep), mk(names, names[-1], deep)
            w.check(not w.I.truth(w.I.compare('==', a, b)), 'large schemas '
                    'that differ in the last field are equal')
            w.check(w.I.truth(w.I.compare('==', a, mk(names, None, deep))),
                    'equal large schemas are not equal')
    def similar(w):
        """schemas that resemble each other are different schemas"""
        C = lambda f, *o: w.S('Compilation', f, list(o))
        B, T = lambda: w.S('Bool'), lambda: w.S('String')
        units = ['', 'm', 'M', 'mm', 'm m', ' m', 'm ', 'm\n', 'm,', 'm"',
                 "m'", '{m}', '\u00b5m', '\u03bcm', 'um', 'null', 'None', '0']
        names = ['x', 'X', 'xx', 'x x', ' x', 'x ', 'x_', '_x', '\u00e9',
                 'e\u0301', 'e', 'subnodes', 'config', 'node_type', 'y']
        nodes = [w.S('Scalar', 'float64', u) for u in units]
        nodes += [w.S('Array', 'float64', u) for u in units]
        nodes += [C({n: B()}) for n in names]
        nodes += [C({n: B()}, n) for n in names]
        nodes += [C({n: T()}) for n in names]
        nodes += [w.S('Scalar', d) for d in (
            'float32', 'float16', 'int64', 'int8', 'uint8', '>f8', '<f4')]
        nodes += [w.S('Scalar', 'float64', **k) for k in (
            {'max_value': 1}, {'max_value': -1}, {'max_value': 10},
            {'max_value': 0.1}, {'max_value': 100}, {'min_value': 1},
            {'min_value': 0.1}, {'max_value': 1e100}, {'max_value': 1e-100},
            {'max_value': 2 ** 53}, {'max_value': 2 ** 53 + 1},
            {'max_value': 1, 'min_value': 0}, {'max_value': 0},
            {'min_value': 0}, {'min_value': 1, 'max_value': 1})]
        nodes += [w.S(k, **{n: v}) for k in ('String', 'Bytes')
                  for n in ('min_length', 'max_length')
                  for v in (0, 1, 10, 11, 100)]
        nodes += [w.S('List', B(), **{n: v}) for n in (
            'min_length', 'max_length') for v in (0, 1, 10, 11)]
        nodes += [w.S('Array', 'float64', max_shape=s, min_shape=t)
                  for s, t in (((1,), None), (None, (1,)), ((1, 1), None),
                               ((11,), None), ((1, None), None),
                               ((None, 1), None), ((1,), (1,)),
                               ((1, 2), None), ((2, 1), None),
                               (None, (1, 2)), (None, (2, 1)))]
        nodes += [w.S('Array', 'float64', depends_on=d, ndim=len(d))
                  for d in (('x',), ('X',), ('x', 'y'), ('y', 'x'),
                            ('x', None), (None, 'x'), ('xy',), ('x y',))]
        nodes += [w.S('Array', 'float64', ndim=n) for n in (0, 2, 3)]
        nodes += [w.S(k, set_on_create=v) for k in ('Date', 'DateTime',
                                                    'Time')
                  for v in (True, False)]
        # the same parts, arranged differently
        nodes += [C({'a': C({'b': B()})}), C({'a': C({}), 'b': B()}),
                  C({'b': C({'a': B()})}), C({'a': B(), 'b': C({})}),
                  C({}), w.S('List', C({})), C({'a': w.S('List', B())}),
                  w.S('List', C({'a': B()})), w.S('List', B()),
                  w.S('List', w.S('List', B())), B(), T(),
                  C({'a': B(), 'b': T()}), C({'a': T(), 'b': B()}),
                  C({'a': B(), 'b': T()}, 'a'), C({'a': B(), 'b': T()}, 'b'),
                  C({'a': B(), 'b': T()}, 'a', 'b'),
                  C({'c': C({'a': B(), 'b': T()}, 'a')}),
                  C({'c': C({'a': B(), 'b': T()})}, 'c'),
                  C({'ab': B()}), C({'a': B(), 'b': B()}), C({'a, b': B()})]
        seen = {}
        for i, n in enumerate(nodes):
            h = w.canon(w.call(n, 'hash'))
            j = seen.setdefault(h, i)
            w.check(j == i, '%s and %s have the same hash' % (
                w.sh(w.call(nodes[j], 'to_dict')),
                w.sh(w.call(n, 'to_dict'))))
        for i, n in enumerate(nodes):
            for m in nodes[max(0, i - 18):i]:
                w.check(not w.I.truth(w.I.compare('==', n, m)),
                        '%s == %s' % (w.sh(w.call(m, 'to_dict')),
                                      w.sh(w.call(n, 'to_dict'))))
    add('similar', 'schemas that resemble each other are told apart',
        similar)
    add('large', 'every part of a large schema counts', large)

    def other(w):
        for kind in KINDS:
            node = all_configs(w, kind)[0](w)
            for tag, v in [('None', None), ('int', 1), ('str', 'a'),
                           ('dict', w.call(node, 'to_dict')),
                           ('hash', w.call(node, 'hash')),
                           ('list', []), ('class', node.cls),
                           ('object', object_of(w)),
                           ('date', DateV('date', [2000, 1, 1]))]:
                what = '%s node == %s' % (kind, tag)
                for op, want in (('==', False), ('!=', True)):
                    r, exc = w.attempt(lambda: w.I.truth(
                        w.I.compare(op, node, v)))
                    w.no_exc(exc, what)
                    w.check(r == want, '%s gives %s' % (what, r))
    add('foreign', 'comparing with anything else gives False and does not '
        'raise', other)

    def reconfigured(w, kind):
        """The hash is that of the configuration the node has now."""
        mks = all_configs(w, kind, False)
        first = mks[0](w)
        for p in init_params(w, first.cls):
            if p in ('subnodes', 'ndim', 'max_shape', 'min_shape',
                     'depends_on'):
                continue
            for i, mk in enumerate(mks):
                want = mk(w)
                node = mks[0](w)
                # only configurations that differ in one option
                if any(w.canon(w.call(w.attr(node, q), 'hash')
                               if q == 'subnode' else w.attr(node, q))
                       != w.canon(w.call(w.attr(want, q), 'hash')
                                  if q == 'subnode' else w.attr(want, q))
                       for q in init_params(w, node.cls) if q != p):
                    continue
                w.call(node, 'hash')
                w.call(node, 'to_json')
                w.I.truth(w.I.compare('==', node, want))
                exc = w.raises(w.setattr, node, p, w.attr(want, p))
                if exc is not None:
                    if 'AttributeError' in w.exc_names(exc):
                        return
                    w.fail('%s: changing %s raises %s' % (
                        kind, p, w.exc_text(exc)))
                what = '%s: after changing %s to %s' % (
                    kind, p, w.sh(w.attr(want, p)))
                w.expect_same(w.call(node, 'hash'), w.call(want, 'hash'),
                              what + ': hash')
                w.check(w.I.truth(w.I.compare('==', node, want)),
                        what + ': != a node constructed that way')

    def grown(w):
        """The sub-nodes and options of sub-nodes count as they are now."""
        for how in ('subnodes', 'optionals', 'subnode option', 'list'):
            inner = w.S('String')
            outer = w.S('Compilation', {'a': inner, 'l': w.S(
                'List', inner)}, [])
            top = w.S('Compilation', {'o': outer})
            w.call(top, 'hash'), w.call(top, 'to_json')
            if how == 'subnodes':
                w.I.setitem(w.attr(outer, 'subnodes'), 'b', w.S('Bool'))
            elif how == 'optionals':
                w.setattr(outer, 'optionals', ['a'])
            elif how == 'subnode option':
                w.setattr(inner, 'max_length', 3)
            else:
                w.setattr(w.item(w.attr(outer, 'subnodes'), 'l'),
                          'max_length', 3)
            i2 = lambda: w.S('String', **(
                dict(max_length=3) if how == 'subnode option' else {}))
            f2 = {'a': i2(), 'l': w.S('List', i2(), **(
                dict(max_length=3) if how == 'list' else {}))}
            if how == 'subnodes':
                f2['b'] = w.S('Bool')
            o2 = w.S('Compilation', f2, ['a'] if how == 'optionals' else [])
            t2 = w.S('Compilation', {'o': o2})
            for n, a, b in (('outer', outer, o2), ('top', top, t2)):
                w.expect_same(w.call(a, 'hash'), w.call(b, 'hash'),
                              'hash of the %s node after changing %s' % (
                                  n, how))

    for kind in KINDS:
        add('reconfigured:' + kind, 'the hash is that of the current '
            'configuration', lambda w, kind=kind: reconfigured(w, kind))
    add('reconfigured-nested', 'the hash is that of the current '
        'configuration of all sub-nodes', grown)

    def agree(w):
        np_ = lambda n, x: NpS(dt(n), x)
        for kind, o, vals in (
                ('Scalar', 'max_value', (0, 0.0, False, np_('int32', 0),
                                         np_('float64', 0.0), None)),
                ('Array', 'min_value', (3, 3.0, np_('int64', 3),
                                        np_('float32', 3.0), 4)),
                ('String', 'max_length', (1, 1.0, True, np_('int64', 1))),
                ('Array', 'max_shape', ((3,), [3], (np_('int64', 3),),
                                        (3.0,), (3, 3))),
                ('Array', 'depends_on', ('t', ('t',), ['t'], ('u',))),
                ('Array', 'dtype', ('int32', np_type(w), dt('int32'),
                                    'i4', '<i4', 'int64')),
                ('Date', 'set_on_create', (True, False, 1, 0))):
            for x in vals:
                for y in vals:
                    k = {} if o == 'dtype' or kind not in (
                        'Scalar', 'Array') else {'dtype': 'float64'}
                    a = w.S(kind, **dict(k, **{o: x}))
                    b = w.S(kind, **dict(k, **{o: y}))
                    for a2, b2 in ((a, b), (w.S('List', a), w.S('List', b)),
                                   (w.S('Compilation', {'a': a}),
                                    w.S('Compilation', {'a': b}))):
                        same = w.canon(w.call(a2, 'hash')) == w.canon(
                            w.call(b2, 'hash'))
                        eq = w.I.truth(w.I.compare('==', a2, b2))
                        w.check(eq == same, '%s: %s %s and %s have %s hash, '
                                'but == gives %s' % (
                                    kind, o, w.sh(x), w.sh(y), 'the same'
                                    if same else 'a different', eq))
    add('agree', '== agrees with the hash', agree)

    def used(w):
        # creating, filling and validating data does not change the hash
        for b in BACKENDS:
            d = Comp(a=leaf_desc('Array', max_shape=(None,)),
                     l=Lst(Comp(s=leaf_desc('String', max_length=9))),
                     o=leaf_desc('Bool'))
            node = w.mk(d)
            h = w.call(node, 'hash')
            j = w.call(node, 'to_json')
            st = w.create(w.path(b, 'u'), node)
            data = w.attr(st, 'data')
            w.fill(data, d, {'a': w.val(d.sub['a']), 'l': [{'s': 'x'}, {}]})
            w.call(st, 'validate')
            w.attr(data, 'complete')
            w.expect_same(w.call(node, 'hash'), h, b + ': hash after use')
            w.expect_same(w.call(node, 'to_json'), j,
                          b + ': JSON after use')
            w.expect_same(w.call(st, 'schema_hash'), h,
                          b + ': schema_hash()')
    add('after-use', 'using a schema does not change its hash', used)
    return {}


def conf(w, node):
    return ', '.join('%s=%s' % (p, w.sh(w.attr(node, p)))
                     for p in init_params(w, node.cls))
