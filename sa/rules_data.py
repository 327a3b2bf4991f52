"""Rules about data nodes: C08 - C16, C31, C32, C34."""
import itertools

from .world import *
from .rules_schema import object_of

SVE = 'SubnodeValidationError'
VE = 'ValidationError'

# constrained leaves with conforming and violating values
CHECKED = {
    'String': (dict(max_length=3), 'ab', 'abcdef'),
    'Bytes': (dict(min_length=2), b'ab', b'a'),
    'Scalar': (dict(dtype='int32', max_value=10), 5, 20),
    'Array': (dict(dtype='int32', min_shape=(3,)), 'arr5', 'arr2'),
}
CHECKED2 = {
    'String': (dict(min_length=2, max_length=3), 'ab', ''),
    'Bytes': (dict(max_length=0), b'', b'a'),
    'Scalar': (dict(dtype='float64', min_value=0.0), 0.0, -1.0),
    'Array': (dict(dtype='float64', ndim=2, max_value=10.0), 'low', 'high'),
}


def cval(w, kind, which, table=CHECKED):
    """conforming (which=1) / violating (2) value"""
    v = table[kind][which]
    dtype = table[kind][0].get('dtype')
    if v == 'arr2':
        return w.arr(dtype, (2,))
    if v == 'arr5':
        return w.arr(dtype, (5,))
    if v in ('low', 'high'):
        return w.arr(dtype, (2, 2), els=[
            5.0, 10.0, 20.0 if v == 'high' else -1.0, 0.0])
    if kind == 'Scalar':
        return NpS(dt(dtype), v)
    return v


def cdesc(kind, table=CHECKED):
    return D(kind, None, **table[kind][0])


def states_of(desc, leaf_states, lens=(0, 1, 2)):
    """All specs of a descriptor with abstract leaf states."""
    if desc.kind == 'Compilation':
        names = list(desc.sub)
        for c in itertools.product(*[list(states_of(desc.sub[n],
                                                    leaf_states, lens))
                                     for n in names]):
            yield dict(zip(names, c))
    elif desc.kind == 'List':
        for n in lens:
            for c in itertools.product(list(states_of(desc.sub, leaf_states,
                                                      lens)), repeat=n):
                yield list(c)
    else:
        for s in leaf_states:
            yield s


def realize(w, desc, st, conv):
    """Turn leaf states into values."""
    if desc.kind == 'Compilation':
        return {n: realize(w, desc.sub[n], x, conv) for n, x in st.items()}
    if desc.kind == 'List':
        return [realize(w, desc.sub, x, conv) for x in st]
    return conv(desc, st)


def leaves_of(desc, st, path=()):
    """(path, leaf state) pairs in tree order."""
    if desc.kind == 'Compilation':
        for n in desc.sub:
            if n in st:
                yield from leaves_of(desc.sub[n], st[n], path + (n,))
    elif desc.kind == 'List':
        for i, x in enumerate(st):
            yield from leaves_of(desc.sub, x, path + (i,))
    else:
        yield path, st


def lists_of(desc, st, path=()):
    if desc.kind == 'Compilation':
        for n in desc.sub:
            if n in st:
                yield from lists_of(desc.sub[n], st[n], path + (n,))
    elif desc.kind == 'List':
        yield path, desc, len(st)
        for i, x in enumerate(st):
            yield from lists_of(desc.sub, x, path + (i,))


def pathstr(path):
    out = ''
    for p in path:
        if isinstance(p, int):
            out += '[%d]' % p
        else:
            out += ('.' if out else '') + p
    return out


def at(w, node, path):
    for p in path:
        node = w.item(node, p) if isinstance(p, int) else w.attr(node, p)
    return node


def check_trees(kind='String', table=CHECKED):
    x = lambda: cdesc(kind, table)
    return {
        'leaf': x(),
        'flat': Comp(a=x(), b=x(), c=x()),
        'list': Lst(x()),
        'nested': Comp(p=Comp(x=x()), q=x(), r=Comp(s=Comp(y=x()))),
        'listcomp': Lst(Comp(a=x(), b=x())),
        'complist': Comp(l=Lst(x()), z=x()),
        'listlist': Lst(Lst(x())),
        'deep': Comp(l=Lst(Comp(m=Lst(Comp(x=x()))))),
        'flat-opt': opt(Comp(a=x(), b=x(), c=x()), 'a', 'c'),
        'nested-opt': opt(Comp(q=x(), r=opt(Comp(s=Comp(y=x(), z=x()), t=x()),
                                            's')), 'r'),
        'listcomp-opt': Lst(opt(Comp(a=x(), b=x()), 'b')),
        'complist-opt': opt(Comp(l=Lst(Comp(a=x())), z=x()), 'l'),
    }


def spec_key(st):
    return repr(st).replace(' ', '').replace("'", '')


# ------------------------------------------------------------------- C08
def c08(add, thorough, src):
    conv = lambda w, table: lambda d, s: EMPTY if s == 0 else \
        cval(w, d.kind, s, table)

    def run(w, b, desc, table, lens, limit):
        k = 0
        for st in itertools.islice(states_of(desc, (0, 1, 2), lens), limit):
            k += 1
            spec = realize(w, desc, st, conv(w, table))
            sto, data = w.new(b, desc, 'n%d' % k)
            w.fill(data, desc, spec)
            bad = any(s == 2 for _, s in leaves_of(desc, st))
            for who in (sto, data):
                exc = w.raises(w.call, who, 'validate')
                what = '%s: validate() of %r in state %s (0 empty, 1 ' \
                    'conforming, 2 violating)' % (b, desc, st)
                if not bad:
                    w.no_exc(exc, what)
                else:
                    w.checks += 1
                    if exc is None or not ({VE, SVE} & set(
                            w.exc_names(exc))):
                        w.fail(what + ': a validation error is expected, '
                               'but %s' % (w.exc_text(exc)))

    for b in BACKENDS:
        for name in check_trees():
            lens = (0, 1, 2) if name in ('list', 'listcomp', 'complist') \
                else (0, 1) if name == 'deep' else (0, 1, 2)
            if name == 'list':
                lens = (0, 1, 2, 3)
            kinds = list(CHECKED) if name in ('leaf', 'flat', 'list') or \
                thorough else ['String']
            for kind in kinds:
                for ti, table in enumerate((CHECKED, CHECKED2)):
                    if ti and kind == 'Scalar' and name == 'list':
                        pass

                    def ob(w, b=b, name=name, kind=kind, table=table,
                           lens=lens):
                        run(w, b, check_trees(kind, table)[name], table,
                            lens, 2000 if thorough else 100)
                    add('trees:%s:%s:%s:%d' % (b, name, kind, ti),
                        'validate() raises exactly if a non-empty node '
                        'violates its constraints', ob)

        def listlens(w, b=b):
            lim = lambda s: Lst(s, min_length=1, max_length=2)
            x = lambda: leaf_desc('Bool')
            for name, desc in {
                    'top': lim(x()),
                    'incomp': Comp(a=x(), l=lim(x()), b=x()),
                    'nested': Comp(c=Comp(l=lim(x()))),
                    'inlist': Lst(lim(x())),
                    'incompinlist': Lst(Comp(l=lim(x()))),
                    'two': Comp(l=lim(x()), m=lim(x()))}.items():
                k = 0
                for st in states_of(desc, (0,), (0, 1, 2, 3)):
                    outer = [n for p, d, n in lists_of(desc, st)]
                    if sum(outer) > 7:
                        continue
                    k += 1
                    sto, data = w.new(b, desc, name + str(k))
                    w.fill(data, desc, realize(w, desc, st,
                                               lambda d, s: EMPTY))
                    bad = any(n > 2 or n < 1 for _, d, n in lists_of(
                        desc, st) if d.opts)
                    for who in (sto, data):
                        exc = w.raises(w.call, who, 'validate')
                        what = '%s: validate() of %r in state %s' % (
                            b, desc, st)
                        if bad:
                            w.check(exc is not None and {VE, SVE} & set(
                                w.exc_names(exc)), what + ': a validation '
                                'error is expected, but ' + w.exc_text(exc))
                        else:
                            w.no_exc(exc, what)
        add('list-lengths:%s' % b, 'every List is validated, in every '
            'position', listlens)

        def current(w, b=b):
            # judged on the current value, whatever it was before
            for kind in CHECKED:
                d = Comp(p=Comp(x=cdesc(kind)), l=Lst(cdesc(kind)))
                sto, data = w.new(b, d, 'cur' + kind)
                w.call(w.attr(data, 'l'), 'append', cval(w, kind, 1))
                for where in ('p', 'l'):
                    node = w.attr(w.attr(data, 'p'), 'x') if where == 'p' \
                        else w.item(w.attr(data, 'l'), 0)
                    for step in (1, 2, 1, 0, 2, 0, 1, 2, 2, 1):
                        if step:
                            w.call(node, 'replace', cval(w, kind, step))
                        else:
                            w.call(node, 'clear')
                        for who in (sto, data, node):
                            exc = w.raises(w.call, who, 'validate')
                            what = '%s: %s after changing its value' % (
                                b, kind)
                            if step == 2:
                                w.check(exc is not None and {VE, SVE} & set(
                                    w.exc_names(exc)), what + ' to a '
                                    'violating one: a validation error is '
                                    'expected, but ' + w.exc_text(exc))
                            else:
                                w.no_exc(exc, what)
        add('current:%s' % b, 'validation judges the current value',
            current)

        def inplace(w, b=b):
            d = Comp(a=D('Array', dtype='int32', min_value=0,
                         max_value=Num('M', 4000)))
            sto, data = w.new(b, d)
            a = w.attr(data, 'a')
            w.call(a, 'replace', w.arr('int32', (3,), els=[
                Num('x', 1), Num('y', 4000), Num('z', 2000)]))
            w.no_exc(w.raises(w.call, sto, 'validate'), b + ': conforming')
            for i in range(3):
                for r in (5000, -1, 3000):
                    w.I.setitem(a, i, NpS(dt('int32'), Num('n', r)))
                    exc = w.raises(w.call, sto, 'validate')
                    what = '%s: after assigning element %d' % (b, i)
                    if r == 3000:
                        w.no_exc(exc, what)
                    else:
                        w.expect_exc(exc, SVE, what)
        add('inplace:%s' % b, 'in-place changes of arrays are validated',
            inplace)

    # types which file backends cannot even represent
    def wrongtype(w):
        for kind in LEAVES:
            for d in (leaf_desc(kind),):
                desc = Comp(a=leaf_desc('Bool'), x=d)
                sto, data = w.new('inmem', desc)
                if kind == 'Scalar':
                    continue
                w.call(w.attr(data, 'x'), 'replace', object_of(w))
                w.expect_exc(w.raises(w.call, sto, 'validate'), SVE,
                             'inmem: %s holding an object' % kind)
    add('wrong-types:inmem', 'values of a wrong type are found', wrongtype)
    return {}


# ------------------------------------------------------------------- C09
def render(w, exc, what):
    """str() of an exception must work."""
    t, e = w.attempt(w.I.str_, exc)
    w.checks += 1
    if e is not None:
        w.fail('%s: its text cannot be rendered: %s' % (what, w.exc_text(e)),
               e.attrs.get('origin'))
    return t


def c09(add, thorough, src):
    for b in BACKENDS:
        for kind in CHECKED:
            for ti, table in enumerate((CHECKED, CHECKED2)):
                def ob(w, b=b, kind=kind, table=table):
                    paths(w, b, kind, table)
                add('paths:%s:%s:%d' % (b, kind, ti),
                    'a failing node is named by its path and its own '
                    'ValidationError is the original cause', ob)

    def paths(w, b, kind, table):
        x = lambda: cdesc(kind, table)
        trees = {
            'comp': (Comp(a=x(), bb=x()), ({'a': 1, 'bb': 2},
                                           {'a': 2, 'bb': 1},
                                           {'a': 0, 'bb': 2})),
            'list': (Lst(x()), ([2], [1, 2], [1, 1, 2], [1, 2, 1],
                                [0, 2], [1] * 11 + [2])),
            'deep': (Comp(c=Comp(l=Lst(Comp(x=x(), y=x())))),
                     ({'c': {'l': [{'x': 1, 'y': 1}, {'x': 1, 'y': 2}]}},
                      {'c': {'l': [{'x': 2, 'y': 1}, {'x': 1, 'y': 0}]}})),
            'll': (Lst(Lst(x())), ([[1], [1, 2]], [[2]])),
            'lll': (Comp(a=Lst(Lst(Lst(x())))), ({'a': [[], [[1], [1, 2]]]},
                                                )),
            'ccc': (Comp(a=Comp(b=Comp(c=Comp(d=x())))),
                    ({'a': {'b': {'c': {'d': 2}}}},)),
            'cl': (Comp(a=x(), l=Lst(x())), ({'a': 1, 'l': [1, 1, 2]},)),
            'lc': (Lst(Comp(q=Lst(Comp(x=x())))),
                   ([{'q': []}, {'q': [{'x': 1}, {'x': 2}]}],)),
        }
        k = 0
        for name, (desc, sts) in trees.items():
            for st in sts:
                k += 1
                spec = realize(w, desc, st, lambda d, s: EMPTY if not s
                               else cval(w, kind, s, table))
                sto, data = w.new(b, desc, 'n%d' % k)
                w.fill(data, desc, spec)
                fp = [p for p, s in leaves_of(desc, st) if s == 2][0]
                leaf = at(w, data, fp)
                own = w.raises(w.call, leaf, 'validate')
                what = '%s: %r with violating %s' % (b, desc, pathstr(fp))
                w.expect_exc(own, VE, what + ', leaf')
                # from every ancestor
                for n in range(len(fp)):
                    anc = at(w, data, fp[:n])
                    for who in ([anc, sto] if n == 0 else [anc]):
                        exc = w.raises(w.call, who, 'validate')
                        w.expect_exc(exc, SVE, what)
                        w.expect_exc(exc, 'DschError', what)
                        w.expect_same(w.call(exc, 'node_path'),
                                      pathstr(fp[n:]), what
                                      + ': node_path()')
                        oc = w.call(exc, 'original_cause')
                        w.expect_exc(oc, VE, what + ': original_cause()')
                        same_error(w, oc, own, what)
                        t = render(w, exc, what)
                        w.check(contains(t, pathstr(fp[n:])), '%s: the text '
                                '%s does not contain the path' % (
                                    what, w.sh(t)))
                        t2 = render(w, oc, what)
                        if isinstance(t, str) and isinstance(t2, str):
                            w.check(t2 in t, what + ': the text lacks the '
                                    'text of the cause')
                expected_error(w, own, kind, table, spec, fp, what)

    def same_error(w, a, b_, what):
        for f in ('message', 'expected', 'got'):
            w.expect_same(w.attr(a, f), w.attr(b_, f),
                          '%s: %s of the original cause' % (what, f))

    def expected_error(w, e, kind, table, spec, fp, what):
        opts = table[kind][0]
        v = spec
        for p in fp:
            v = v[p]
        if kind in ('String', 'Bytes'):
            o = 'max_length' if len(v) > opts.get('max_length', 99) else \
                'min_length'
            exp, got = opts[o], len(v)
        elif kind == 'Scalar':
            exp = opts.get('max_value', opts.get('min_value'))
            got = v
        elif 'min_shape' in opts:
            exp, got = opts['min_shape'], v.shape
        else:
            exp, got = opts['max_value'], None
        w.expect_same(w.attr(e, 'expected'), exp,
                      what + ': violated constraint')
        if got is not None:
            w.expect_same(w.attr(e, 'got'), got, what + ': actual value')

    def listlen(w):
        for b in BACKENDS:
            k = 0
            for desc, st, path in (
                    (Comp(l=Lst(leaf_desc('Bool'), max_length=1)),
                     {'l': [True, True]}, ('l',)),
                    (Lst(Lst(leaf_desc('Bool'), min_length=1)),
                     [[True], []], (1,)),
                    (Comp(c=Comp(l=Lst(leaf_desc('Bool'), min_length=3))),
                     {'c': {'l': [True, False]}}, ('c', 'l'))):
                k += 1
                sto, data = w.new(b, desc, 'n%d' % k)
                w.fill(data, desc, st)
                what = '%s: %r as %s' % (b, desc, st)
                own = w.raises(w.call, at(w, data, path), 'validate')
                w.expect_exc(own, VE, what + ', the List itself')
                exc = w.raises(w.call, sto, 'validate')
                w.expect_exc(exc, SVE, what)
                w.expect_same(w.call(exc, 'node_path'), pathstr(path),
                              what + ': node_path()')
                same_error(w, w.call(exc, 'original_cause'), own, what)
                d = desc
                s = st
                for p in path:
                    d = d.sub[p] if isinstance(p, str) else d.sub
                    s = s[p]
                w.expect_same(w.attr(own, 'got'), len(s),
                              what + ': actual length')
                w.expect_same(w.attr(own, 'expected'),
                              list(d.opts.values())[0],
                              what + ': violated limit')
                render(w, exc, what)
    add('list-length', 'a List violating its length limits is named',
        listlen)

    def schema_errors(w):
        """Errors of schema nodes tell the constraint and the value."""
        cases = []
        for kind, opts, v, exp, got in (
                ('Scalar', dict(dtype='int32'), NpS(dt('int64'), 1),
                 'int32', dt('int64')),
                ('Scalar', dict(dtype='int32', max_value=5),
                 NpS(dt('int32'), 7), 5, NpS(dt('int32'), 7)),
                ('Scalar', dict(dtype='int32', min_value=5),
                 NpS(dt('int32'), 3), 5, NpS(dt('int32'), 3)),
                ('Array', dict(dtype='int32'), w.arr('int64', (2,)),
                 'int32', dt('int64')),
                ('Array', dict(dtype='int32', ndim=3),
                 w.arr('int32', (2, 2)), 3, 2),
                ('Array', dict(dtype='int32', max_shape=(3, 9)),
                 w.arr('int32', (4, 2)), (3, 9), (4, 2)),
                ('Array', dict(dtype='int32', min_shape=(3, 9)),
                 w.arr('int32', (4, 2)), (3, 9), (4, 2)),
                ('String', dict(max_length=2), 'abc', 2, 3),
                ('String', dict(min_length=2), 'a', 2, 1),
                ('Bytes', dict(max_length=2), b'abc', 2, 3),
                ('Bytes', dict(min_length=2), b'', 2, 0),
                ('List', dict(max_length=2), [1, 2, 3], 2, 3),
                ('List', dict(min_length=2), [1], 2, 1)):
            node = w.S('List', w.S('Bool'), **opts) if kind == 'List' else \
                w.S(kind, **opts)
            exc = w.raises(w.call, node, 'validate', v, []) \
                if kind == 'Array' else w.raises(w.call, node, 'validate', v)
            what = '%s(%s).validate(%s)' % (kind, opts, w.sh(v))
            w.expect_exc(exc, VE, what)
            w.expect_same(w.attr(exc, 'expected'), exp,
                          what + ': violated constraint')
            w.expect_same(w.attr(exc, 'got'), got, what + ': actual value')
            render(w, exc, what)
        node = w.S('Array', dtype='int32', depends_on='t')
        exc = w.raises(w.call, node, 'validate', w.arr('int32', (3,)),
                       [w.arr('int32', (5,))])
        w.expect_exc(exc, VE, 'dependent array')
        w.expect_same(w.attr(exc, 'expected'), 5, 'length of the variable')
        w.expect_same(w.attr(exc, 'got'), 3, 'length of the array')
        for kind in LEAVES:
            for v in (None, 1, 'x', b'x', 2.5, [], (1, 2), {}, True,
                      object_of(w), DateV('date', [1, 2, 3]),
                      w.arr('int8', (1, 2, 3)), NpS(dt('int8'), 3)):
                node = w.mk(leaf_desc(kind))
                exc = w.raises(w.call, node, 'validate', v, []) \
                    if kind == 'Array' else w.raises(w.call, node,
                                                     'validate', v)
                if exc is not None and VE in w.exc_names(exc):
                    render(w, exc, '%s.validate(%s)' % (kind, w.sh(v)))
    add('schema-errors', 'errors tell the violated constraint and the '
        'actual value', schema_errors)

    def texts(w):
        vals = [None, 0, '', 'a', '{}', '{x}', '%s', '%d', b'\xff', (), (1,),
                (1, 2), [], [1], {}, {'a': 1}, 2.5, True, BType('str'),
                dt('int32'), w.arr('int32', (3,)), NpS(dt('int32'), 5),
                Term('in', ('s',), 'str', truth=True), object_of(w),
                DateV('date', [1, 2, 3])]
        cls = w.get('dsch.exceptions', VE)
        sve = w.get('dsch.exceptions', SVE)
        for x in vals:
            for y in vals:
                e = w.I.call(cls, ['msg', x, y])
                render(w, e, 'ValidationError(%s, %s)' % (w.sh(x), w.sh(y)))
                w.expect_same(w.attr(e, 'expected'), x, 'expected')
                w.expect_same(w.attr(e, 'got'), y, 'got')
        for loc in ('a', '{}', '{x}', '%s', 'a b', 0, 7, 12):
            for loc2 in (None, 'b', '{y}', '%d', 0, 10):
                inner = w.I.call(cls, ['msg', (1, 2), (3,)])
                if loc2 is not None:
                    mid = w.I.call(sve, [loc2])
                    w.I.setattr_(mid, '__cause__', inner)
                else:
                    mid = inner
                e = w.I.call(sve, [loc])
                w.I.setattr_(e, '__cause__', mid)
                want = pathstr([loc] + ([loc2] if loc2 is not None else []))
                w.expect_same(w.call(e, 'node_path'), want, 'node_path')
                w.check(w.call(e, 'original_cause') is inner,
                        'original_cause() is not the ValidationError')
                render(w, e, 'error at ' + want)
        base = w.get('dsch.exceptions', 'DschError')
        for n, c in w.mod('dsch.exceptions').ns.items():
            if isinstance(c, ClassVal) and w.I.issubclass_(
                    c, w.I.exc_classes['BaseException']):
                w.check(base in c.mro, '%s is no DschError' % n,
                        '%s %s' % (w.I.sources['dsch.exceptions'][0], n))
    add('texts', 'texts of validation errors can always be rendered', texts)
    return {}


def contains(t, s):
    if isinstance(t, str):
        return s in t
    if isinstance(t, SStr):
        return any(isinstance(p, str) and s in p for p in t.parts)
    return True


# ------------------------------------------------------------------- C10
def is_empty(desc, st):
    if desc.kind == 'Compilation':
        return all(is_empty(desc.sub[n], st[n]) for n in desc.sub)
    if desc.kind == 'List':
        return all(is_empty(desc.sub, x) for x in st)
    return st is EMPTY or st == 0 and not isinstance(st, bool)


def is_complete(desc, st):
    if desc.kind == 'Compilation':
        return all(is_complete(desc.sub[n], st[n]) for n in desc.sub
                   if n not in desc.opts.get('optionals', ()))
    if desc.kind == 'List':
        return all(is_complete(desc.sub, x) for x in st)
    return not is_empty(desc, st)


def nodes_of(desc, st, path=()):
    yield path, desc, st
    if desc.kind == 'Compilation':
        for n in desc.sub:
            yield from nodes_of(desc.sub[n], st[n], path + (n,))
    elif desc.kind == 'List':
        for i, x in enumerate(st):
            yield from nodes_of(desc.sub, x, path + (i,))


def opt(d, *names):
    d.opts['optionals'] = list(names)
    return d


def state_trees():
    B = lambda: leaf_desc('Bool')
    S = lambda: leaf_desc('String')
    return {
        'flat': Comp(a=B(), b=S()),
        'flat-opt': opt(Comp(a=B(), b=S(), c=B()), 'b'),
        'flat-opts': opt(Comp(a=B(), b=S()), 'a', 'b'),
        'list': Lst(S()),
        'nested': Comp(p=Comp(x=S()), q=B()),
        'nested-opt': opt(Comp(p=opt(Comp(x=S(), y=B()), 'y'), q=B()), 'q'),
        'opt-comp': opt(Comp(p=Comp(x=S(), y=B()), q=B()), 'p'),
        'listcomp': Lst(opt(Comp(a=B(), b=S()), 'b')),
        'complist': Comp(l=Lst(S()), z=B()),
        'opt-list': opt(Comp(l=Lst(S()), z=B()), 'l'),
        'listlist': Lst(Lst(B())),
        'deep': Comp(l=Lst(Comp(m=Lst(Comp(x=B()))))),
        # names that resemble each other and those used for storing
        'like-names': opt(Comp(x=B(), xy=S(), X=B(), data=S(), item_0=B()),
                     'x', 'X', 'data'),
        'like-names2': opt(Comp(ab=Comp(a=S(), ab=opt(Comp(
            a=B(), abc=B()), 'abc')), a=Comp(ab=S())), 'a'),
    }


def c10(add, thorough, src):
    # every leaf kind and falsy values
    for b in BACKENDS:
        for kind in LEAVES:
            def leaf(w, b=b, kind=kind):
                for i, o in enumerate(({'dtype': 'int32'},
                                       {'dtype': 'float64', 'ndim': 2})
                                      if kind == 'Array' else ({},)):
                    d = leaf_desc(kind, **o)
                    for wrap in (d, Comp(x=d), Lst(d)):
                        one(w, b, kind, d, wrap, i)
            add('leaf:%s:%s' % (b, kind), 'a leaf is empty exactly without '
                'data and complete exactly with data', leaf)

        for name, desc in state_trees().items():
            def tree(w, b=b, name=name, desc=desc):
                k = 0
                for st in itertools.islice(states_of(
                        desc, (0, 1), (0, 1, 2) if name != 'list'
                        else (0, 1, 2, 3)), 400 if thorough else 60):
                    k += 1
                    spec = realize(w, desc, st, lambda d, s: EMPTY if not s
                                   else w.val(d, 1))
                    sto, data = w.new(b, desc, 'n%d' % k)
                    w.fill(data, desc, spec)
                    expect(w, b, sto, data, desc, spec, st)
            add('tree:%s:%s' % (b, name), 'empty and complete of '
                'Compilations and Lists follow from their sub-nodes', tree)

    def expect(w, b, sto, data, desc, spec, st):
        for path, d, s in nodes_of(desc, spec):
            node = at(w, data, path)
            what = '%s: %r in state %s: node %s' % (b, desc, st, path)
            w.expect_same(w.attr(node, 'empty'), is_empty(d, s),
                          what + ': empty')
            w.expect_same(w.attr(node, 'complete'), is_complete(d, s),
                          what + ': complete')
        w.expect_same(w.attr(sto, 'complete'), is_complete(desc, spec),
                      '%s: %r in state %s: complete of the storage'
                      % (b, desc, st))

    def one(w, b, kind, d, wrap, i):
        sto, data = w.new(b, wrap, 'x%s%d' % (wrap.kind, i))
        if wrap.kind == 'List':
            w.call(data, 'append')
        node = data if wrap is d else w.attr(data, 'x') \
            if wrap.kind == 'Compilation' else w.item(data, 0)

        def st(full, what):
            for who in {id(x): x for x in (node, data)}.values():
                w.expect_same(w.attr(who, 'empty'), not full,
                              '%s: %s in %s %s: empty' % (
                                  b, kind, wrap.kind, what))
                w.expect_same(w.attr(who, 'complete'), full,
                              '%s: %s in %s %s: complete' % (
                                  b, kind, wrap.kind, what))
            w.expect_same(w.attr(sto, 'complete'), full,
                          '%s: storage with %s %s' % (b, kind, what))
        st(False, 'new')
        for v in w.variants(kind):
            w.call(node, 'replace', w.val(d, v))
            st(True, 'with value variant %d' % v)
        w.call(node, 'clear')
        st(False, 'cleared')
        w.setattr(node, 'value', w.val(d, 1))
        st(True, 'set again to a falsy value')
    return {}


# ------------------------------------------------------------------- C11
def wraps(d):
    """The leaf at the top, as a field, as an item, and deeper."""
    return {
        'top': (d, ()), 'field': (Comp(x=d, y=leaf_desc('Bool')), ('x',)),
        'item': (Lst(d), (0,)),
        'deep': (Comp(c=Comp(l=Lst(Comp(x=d)))), ('c', 'l', 0, 'x')),
        'nested': (Lst(Comp(c=Comp(x=d))), (0, 'c', 'x')),
    }


def make_items(w, data, desc, path):
    """Append the list items that path goes through."""
    node = data
    for p in path:
        if isinstance(p, int):
            while not w.I.len_(node) > p:
                w.call(node, 'append')
            node = w.item(node, p)
        else:
            node = w.attr(node, p)
    return node


def c11(add, thorough, src):
    for b in BACKENDS:
        for kind in LEAVES:
            def ob(w, b=b, kind=kind):
                d = leaf_desc(kind)
                for name, (desc, path) in wraps(d).items():
                    for i, v in enumerate(w.variants(kind)):
                        life(w, b, kind, d, desc, path,
                             '%s%d' % (name, i), v)
            add('life:%s:%s' % (b, kind), 'an empty leaf never yields a '
                'value, a set one yields exactly it', ob)

    def expect_none(w, node, what):
        w.expect_same(w.attr(node, 'empty'), True, what + ': empty')
        r, exc = w.attempt(w.attr, node, 'value')
        if exc is None:
            w.fail('%s: reading the value gives %s instead of raising '
                   'NodeEmptyError' % (what, w.show(r)))
        w.expect_exc(exc, 'NodeEmptyError', what + ': reading the value')

    def life(w, b, kind, d, desc, path, name, v):
        sto, data = w.new(b, desc, name)
        leaf = make_items(w, data, desc, path)
        what = '%s %s (%s)' % (b, kind, name)
        expect_none(w, leaf, what + ' new')
        w.call(leaf, 'clear')
        expect_none(w, leaf, what + ' new, cleared')
        for k in range(4):
            clearer = data if k == 2 else leaf
            x = w.val(d, v if k % 2 == 0 else 0)
            if k % 2:
                w.setattr(leaf, 'value', x)
            else:
                w.call(leaf, 'replace', x)
            w.expect_same(w.attr(leaf, 'value'), x, what + ': value')
            w.expect_same(w.attr(leaf, 'value'), x, what + ': value again')
            w.call(clearer, 'clear')
            if clearer is data and any(isinstance(p, int) for p in path):
                lp = path[:[isinstance(p, int) for p in path].index(True)]
                w.expect_same(w.I.len_(at(w, data, lp)), 0,
                              what + ': length of the List after clear()')
                leaf = make_items(w, data, desc, path)
                expect_none(w, leaf, what + ': item appended after clear()')
            else:
                expect_none(w, leaf, what + ' cleared')
        w.call(leaf, 'clear')
        expect_none(w, leaf, what + ' cleared twice')
        x = w.val(d, 0)
        w.call(leaf, 'replace', x)
        w.expect_same(w.attr(leaf, 'value'), x, what + ': value at the end')

    for b in BACKENDS:
        def comp(w, b=b):
            for k, (name, desc) in enumerate(state_trees().items()):
                full = list(states_of(desc, (1,), (2,)))[0]
                spec = realize(w, desc, full, lambda d, s: w.val(d, 0))
                sto, data = w.new(b, desc, name)
                w.fill(data, desc, spec)
                w.call(data, 'clear')
                blank = {n: blank_of(s) for n, s in desc.sub.items()} \
                    if desc.kind == 'Compilation' else []
                w.expect_dump(data, desc, blank, '%s: %r cleared' % (
                    b, desc))
                w.expect_same(w.attr(data, 'empty'), True,
                              '%s: %r cleared: empty' % (b, desc))
                # all fields are still there and usable
                w.fill(data, desc, spec)
                w.expect_dump(data, desc, spec, '%s: %r cleared and filled '
                              'again' % (b, desc))
        add('trees:%s' % b, 'clearing a Compilation clears its fields, '
            'clearing a List removes its items', comp)

        def every(w, b=b):
            # in whatever state the nodes are, including items without data
            k = 0
            for name, desc in state_trees().items():
                for st in itertools.islice(states_of(
                        desc, (0, 1), (0, 1, 2)), 200):
                    k += 1
                    spec = realize(w, desc, st, lambda d, s: w.val(
                        d, 0) if s else EMPTY)
                    sto, data = w.new(b, desc, 'e%d' % k)
                    w.fill(data, desc, spec)
                    w.call(data, 'clear')
                    w.expect_dump(data, desc, blank_of(desc), '%s: %r as %s '
                                  'cleared' % (b, desc, w.sh(spec)))
        add('states:%s' % b, 'clearing leaves no data and no items, in any '
            'state', every)

        def part(w, b=b):
            # clearing one node leaves the others alone
            desc = Comp(a=leaf_desc('String'), c=Comp(x=leaf_desc('Bool'),
                                                      y=leaf_desc('Bytes')),
                        l=Lst(leaf_desc('Scalar')))
            for k, (path, left) in enumerate((
                    (('a',), dict(a=EMPTY)), (('c', 'x'), 'cx'),
                    (('c',), 'c'), (('l',), 'l'), (('l', 1), 'l1'))):
                spec = dict(a='s', c={'x': False, 'y': b''},
                            l=[w.val(leaf_desc('Scalar'), 0)
                               for _ in range(3)])
                sto, data = w.new(b, desc, 'p%d' % k)
                w.fill(data, desc, spec)
                w.call(at(w, data, path), 'clear')
                if path == ('a',):
                    spec['a'] = EMPTY
                elif path == ('c', 'x'):
                    spec['c'] = dict(spec['c'], x=EMPTY)
                elif path == ('c',):
                    spec['c'] = {}
                elif path == ('l',):
                    spec['l'] = []
                else:
                    spec['l'] = [spec['l'][0], EMPTY, spec['l'][2]]
                w.expect_dump(data, desc, spec, '%s: after clearing %s' % (
                    b, path))
        add('partial:%s' % b, 'clearing a node leaves other nodes alone',
            part)
    return {}


def blank_of(desc):
    if desc.kind == 'Compilation':
        return {n: blank_of(s) for n, s in desc.sub.items()}
    return [] if desc.kind == 'List' else EMPTY


# ------------------------------------------------------------------- C12
def tree_of(w, desc, spec, include_empty):
    if desc.kind == 'Compilation':
        out = {}
        for n, s in desc.sub.items():
            x = spec.get(n, blank_of(s))
            if x is EMPTY:
                if include_empty:
                    out[n] = None
            else:
                out[n] = tree_of(w, s, x, include_empty)
        return out
    if desc.kind == 'List':
        out = []
        for x in spec:
            if x is EMPTY:
                if include_empty:
                    out.append(None)
            else:
                out.append(tree_of(w, desc.sub, x, include_empty))
        return out
    return spec


def prune(t):
    """Leave out sub-trees without data (the documentation leaves open
    whether an empty sub-tree counts as a field that has data)."""
    if isinstance(t, dict):
        r = {k: prune(v) for k, v in t.items()}
        return {k: v for k, v in r.items() if not (
            isinstance(v, (dict, list)) and not v)}
    if isinstance(t, list):
        r = [prune(v) for v in t]
        return [v for v in r if not (isinstance(v, (dict, list)) and not v)]
    return t


def empty_out(tree):
    """changes all dicts and lists of an exported tree"""
    if isinstance(tree, dict):
        for x in list(tree.values()):
            empty_out(x)
        tree.clear()
        tree['new'] = 1
    elif isinstance(tree, list):
        for x in list(tree):
            empty_out(x)
        tree.clear()
        tree.append(1)


def c12(add, thorough, src):
    for b in BACKENDS:
        for name, desc in state_trees().items():
            def tree(w, b=b, name=name, desc=desc):
                k = 0
                for variant in (1, 0):
                    for st in itertools.islice(states_of(
                            desc, (0, 1), (0, 1, 2) if name != 'list'
                            else (0, 1, 2, 3)), 300 if thorough else 40):
                        k += 1
                        spec = realize(
                            w, desc, st, lambda d, s: EMPTY if not s
                            else w.val(d, variant))
                        sto, data = w.new(b, desc, 'n%d' % k)
                        w.fill(data, desc, spec)
                        what = '%s: data_tree of %r in state %s' % (
                            b, desc, st)
                        w.expect_same(
                            prune(w.call(data, 'data_tree')),
                            prune(tree_of(w, desc, spec, False)), what)
                        for how in (0, 1):
                            r = w.call(data, 'data_tree', True) if how else \
                                w.call(data, 'data_tree',
                                       include_empty=True)
                            w.expect_same(r, tree_of(w, desc, spec, True),
                                          what + ' with include_empty')
                            # what the user does with the tree is up to him
                            empty_out(r)
                        empty_out(w.call(data, 'data_tree'))
                        w.expect_same(
                            prune(w.call(data, 'data_tree')),
                            prune(tree_of(w, desc, spec, False)), what
                            + ' after changing an exported tree')
                        w.expect_dump(data, desc, spec, what
                                      + ': data afterwards')
            add('tree:%s:%s' % (b, name), 'data_tree() holds exactly the '
                'stored values', tree)

        def kinds(w, b=b):
            for kind in LEAVES:
                d = leaf_desc(kind)
                desc = Comp(x=d, l=Lst(d), e=d, c=Comp(x=d, e=d))
                for v in w.variants(kind):
                    x = lambda: w.val(d, v)
                    spec = {'x': x(), 'l': [x(), EMPTY, x(), x()],
                            'c': {'x': x()}}
                    sto, data = w.new(b, desc, '%s%d' % (kind, v))
                    w.fill(data, desc, spec)
                    for inc in (False, True):
                        w.expect_same(
                            w.call(data, 'data_tree', include_empty=inc),
                            tree_of(w, desc, spec, inc),
                            '%s: data_tree(include_empty=%s) with %s '
                            'variant %d' % (b, inc, kind, v))
        add('kinds:%s' % b, 'falsy values of every type are exported',
            kinds)

        def order(w, b=b):
            desc = Lst(leaf_desc('Scalar', dtype='int32'))
            sto, data = w.new(b, desc)
            vals = [NpS(dt('int32'), i) for i in range(12)]
            for x in vals:
                w.call(data, 'append', x)
            w.expect_same(w.call(data, 'data_tree'), vals,
                          '%s: data_tree of 12 items' % b)
        add('order:%s' % b, 'items are exported in order', order)

        def held(w, b=b):
            """an export shows the data at the time of the export, and is
            not changed by later operations"""
            for name, desc in list(state_trees().items()) + [
                    ('leaf', leaf_desc('String'))]:
                if desc.kind not in ('Compilation', 'List'):
                    continue
                sts = list(itertools.islice(states_of(desc, (0, 1),
                                                      (0, 1, 2)), 400))
                sts = sts[::max(1, len(sts) // 5)] + sts[-1:]
                sto, data = w.new(b, desc, name)
                kept = []
                for k, st in enumerate(sts):
                    spec = realize(w, desc, st, lambda d, s: EMPTY
                                   if not s else w.val(d, k % 2))
                    w.call(data, 'clear')
                    w.fill(data, desc, spec)
                    for inc in (True, False):
                        r = w.call(data, 'data_tree', include_empty=inc)
                        kept.append((r, inc, tree_of(w, desc, spec, inc)))
                    for j, (r, inc, want) in enumerate(kept):
                        if not inc:
                            r, want = prune(r), prune(want)
                        w.expect_same(r, want, '%s: %r: export %d after '
                                      'exporting %d later states' % (
                                          b, desc, j, len(sts)))
        add('held:%s' % b, 'an export does not change when the data does',
            held)
    return {}


# ------------------------------------------------------------------- C13
def c13(add, thorough, src):
    for b in BACKENDS:
        for kind in LEAVES:
            def leaf(w, b=b, kind=kind):
                d = leaf_desc(kind)
                k = 0
                vs = w.variants(kind)
                for name, (desc, path) in wraps(d).items():
                    if name not in ('top', 'field', 'item') and \
                            not thorough:
                        continue
                    sto, data = w.new(b, desc, name)
                    leaf = make_items(w, data, desc, path)
                    for v1, v2 in itertools.product(vs, repeat=2):
                        for how in (0, 1):
                            for v in (v1, v2):
                                x = w.val(d, v)
                                if how:
                                    w.setattr(leaf, 'value', x)
                                else:
                                    w.call(leaf, 'replace', x)
                                w.expect_same(
                                    w.attr(leaf, 'value'), x,
                                    '%s: %s set to variant %d (after %d)'
                                    % (b, kind, v, v1))
            add('leaf:%s:%s' % (b, kind), 'setting a leaf replaces the '
                'previous value entirely', leaf)

            def append(w, b=b, kind=kind):
                d = leaf_desc(kind)
                desc = Lst(d)
                sto, data = w.new(b, desc)
                spec = []
                for v in list(w.variants(kind)) + [None, 1, None]:
                    if v is None:
                        w.call(data, 'append')
                        spec.append(EMPTY)
                    else:
                        x = w.val(d, v)
                        w.call(data, 'append', x)
                        spec.append(x)
                    w.expect_dump(data, desc, spec, '%s: List of %s after '
                                  'append' % (b, kind))
                new = [w.val(d, v) for v in w.variants(kind)]
                for entries in (new, new[:1], [], new[::-1], new + new):
                    w.call(data, 'replace', entries)
                    w.expect_dump(data, desc, entries, '%s: List of %s '
                                  'after replace' % (b, kind))
                # None stands for an empty item, as with append
                for entries in ([new[0], None, new[0]], [None, None],
                                [None, new[0]], [new[0], None]):
                    w.call(data, 'replace', list(entries))
                    w.expect_dump(data, desc, [
                        EMPTY if x is None else x for x in entries],
                        '%s: List of %s after replace with None among the '
                        'entries' % (b, kind))
                # entries that equal what is exported of the old state
                for old in ([EMPTY, new[0]], [new[0], EMPTY, EMPTY],
                            [EMPTY], [EMPTY, new[0], EMPTY, new[0]]):
                    w.call(data, 'clear')
                    w.fill(data, desc, old)
                    for again in (old, [x for x in old if x is not EMPTY]):
                        w.call(data, 'replace', [
                            None if x is EMPTY else x for x in again])
                        w.expect_dump(data, desc, again, '%s: List of %s, '
                                      'one with empty items replaced by its '
                                      'export' % (b, kind))
                w.call(data, 'replace', tuple(new))
                w.expect_dump(data, desc, new, '%s: List of %s after '
                              'replace with a tuple' % (b, kind))
                w.call(data, 'append', new[0])
                w.expect_dump(data, desc, new + new[:1],
                              '%s: List of %s after replace, append' % (
                                  b, kind))
            add('list:%s:%s' % (b, kind), 'append adds one item at the end, '
                'replace leaves exactly the given entries', append)

        def comp(w, b=b):
            desc = Comp(a=leaf_desc('String'), n=leaf_desc('Bool'),
                        l=Lst(leaf_desc('String')),
                        c=Comp(x=leaf_desc('String'), y=leaf_desc('Bytes')))
            names = list(desc.sub)
            k = 0
            for sub in itertools.chain.from_iterable(
                    itertools.combinations(names, n) for n in range(5)):
                for before in ('full', 'blank'):
                    k += 1
                    sto, data = w.new(b, desc, 'n%d' % k)
                    spec = {}
                    if before == 'full':
                        spec = {'a': 's1', 'n': True, 'l': ['i', 'j', 'k'],
                                'c': {'x': 'y', 'y': b'0'}}
                        w.fill(data, desc, spec)
                    new = {'a': w.val(desc.sub['a'], 0), 'n': False,
                           'l': [w.val(desc.sub['a'], 0), ''],
                           'c': {'y': b''}}
                    new = {n: new[n] for n in reversed(sub)}
                    w.call(data, 'replace', new)
                    want = dict(spec)
                    for n, x in new.items():
                        want[n] = dict(want.get('c', {}), **x) \
                            if n == 'c' else x
                    w.expect_dump(data, desc, want, '%s: %s Compilation '
                                  'after replacing %s' % (b, before, sub))
            # bad names change nothing silently
            exc = w.raises(w.call, data, 'replace', {'nope': 1})
            w.check(exc is not None, b + ': replacing an unknown field is '
                    'ignored silently')
        add('comp:%s' % b, 'replace sets exactly the named fields', comp)

        def own(w, b=b):
            m = w.user_code('own', '''
def lazily(lst, fn):
    lst.replace(n.value for n in lst)
def generator(lst, fn):
    def values():
        for node in lst:
            yield node.value
    lst.replace(values())
def backwards(lst, fn):
    lst.replace(n.value for n in reversed(list(lst)))
def without_first(lst, fn):
    lst.replace(n.value for i, n in enumerate(lst) if i)
def mapped(lst, fn):
    lst.replace(map(lambda n: n.value, lst))
def exported(lst, fn):
    lst.replace(lst.data_tree())
def counted(lst, fn):
    lst.replace(lst[i].value for i in range(len(lst)))
def rotated(lst, fn):
    values = [n.value for n in lst]
    lst.replace(iter(values[1:] + values[:1]))
def trees(lst, fn):
    lst.replace(n.data_tree() for n in lst)
''')
            ways = {'lazily': lambda x: x, 'generator': lambda x: x,
                    'backwards': lambda x: x[::-1],
                    'without_first': lambda x: x[1:],
                    'mapped': lambda x: x, 'exported': lambda x: x,
                    'counted': lambda x: x,
                    'rotated': lambda x: x[1:] + x[:1]}
            for kind in LEAVES:
                desc = Lst(leaf_desc(kind))
                sto, data = w.new(b, desc, kind)
                for way, want in ways.items():
                    spec = [w.val(desc.sub, v) for v in (0, 1, 0)]
                    w.call(data, 'replace', list(spec))
                    w.fn('own', way, data, None)
                    w.expect_dump(data, desc, want(spec), '%s: List of %s '
                                  'replaced by its own values (%s)'
                                  % (b, kind, way))
            desc = Lst(Comp(x=leaf_desc('String'),
                            l=Lst(leaf_desc('Bytes'))))
            sto, data = w.new(b, desc, 'comps')
            spec = [{'x': 'a', 'l': [b'0']}, {'x': '', 'l': []},
                    {'x': 'c', 'l': [b'1', b'2']}]
            for way in ('trees', 'exported'):
                w.call(data, 'replace', [dict(x) for x in spec])
                w.fn('own', way, data, None)
                w.expect_dump(data, desc, spec, '%s: List of Compilations '
                              'replaced by its own values (%s)' % (b, way))
        add('own:%s' % b, 'a List is replaced by entries computed from its '
            'current ones', own)

        def empties(w, b=b):
            """items without values are items, too"""
            x = leaf_desc('String')
            k = 0
            for item, full in ((x, 'p'), (Lst(x), ['p']),
                               (Comp(x=x), {'x': 'p'})):
                for n in (1, 2, 5):
                    for desc, path, wrap in (
                            (Lst(item), (), lambda v: v),
                            (Comp(l=Lst(item)), ('l',),
                             lambda v: {'l': v}),
                            (Comp(c=Comp(l=Lst(item))), ('c', 'l'),
                             lambda v: {'c': {'l': v}}),
                            (Lst(Comp(l=Lst(item))), (0, 'l'),
                             lambda v: [{'l': v}])):
                        for new in ([], [full], [full, full]):
                            for at_ in (path, ()):
                                k += 1
                                sto, data = w.new(b, desc, 'e%d' % k)
                                if path[:1] == (0,):
                                    w.call(data, 'append')
                                lst = at(w, data, path)
                                for i in range(n):
                                    w.call(lst, 'append')
                                w.call(at(w, data, at_), 'replace', new if
                                       at_ == path else wrap(new))
                                w.expect_dump(data, desc, wrap(new),
                                              '%s: %r with %d empty items, '
                                              '%s replaced by %s' % (
                                                  b, desc, n, at_ or 'all',
                                                  new))
        add('empties:%s' % b, 'a List of empty items is replaced', empties)

        def nested(w, b=b):
            inner = Comp(x=leaf_desc('String'), l=Lst(leaf_desc('Bool')))
            desc = Lst(inner)
            sto, data = w.new(b, desc)
            w.call(data, 'append', {'x': 'a', 'l': [True]})
            w.call(data, 'append', {'l': [False, False]})
            w.call(data, 'append', {})
            spec = [{'x': 'a', 'l': [True]}, {'l': [False, False]}, {}]
            w.expect_dump(data, desc, spec, b + ': appended dicts')
            w.call(w.item(data, 1), 'replace', {'x': ''})
            spec[1] = {'x': '', 'l': [False, False]}
            w.expect_dump(data, desc, spec, b + ': item replaced')
            new = [{'l': []}, {'x': 'q', 'l': [True, False]}]
            w.call(data, 'replace', new)
            w.expect_dump(data, desc, new, b + ': list replaced')
            for new in ([{'x': 'k'}, {'l': [True]}], [{}, {'x': ''}],
                        [{'l': [False]}, {}], [{'l': [True]}], [{'x': 'z'}],
                        [{}, {}, {'x': 'y', 'l': []}]):
                w.call(data, 'replace', new)
                w.expect_dump(data, desc, new, '%s: list replaced by %r'
                              % (b, new))
            # empty items, filled later and in any order
            for order in itertools.permutations(range(3)):
                w.call(data, 'replace', [])
                spec = [{}, {}, {}]
                for k in range(3):
                    w.call(data, 'append')
                for k in order:
                    spec[k] = {'x': 'x%d' % k, 'l': [k == 1]}
                    w.call(w.item(data, k), 'replace', spec[k])
                    w.expect_dump(data, desc, spec, '%s: empty items filled '
                                  'in the order %s' % (b, order))
            ld = Lst(leaf_desc('Bytes'))
            for n, order in enumerate(itertools.permutations(range(3))):
                sto, data = w.new(b, ld, 'e%d' % n)
                spec = [EMPTY] * 3
                for k in range(3):
                    w.call(data, 'append')
                for k in order:
                    spec[k] = b'b%d' % k
                    w.call(w.item(data, k), 'replace', spec[k])
                    w.expect_dump(data, ld, spec, '%s: empty leaves filled '
                                  'in the order %s' % (b, order))
                w.call(data, 'append', b'last')
                w.expect_dump(data, ld, spec + [b'last'], '%s: appended to '
                              'leaves filled in the order %s' % (b, order))
            d2 = Lst(Lst(leaf_desc('String')))
            sto, data = w.new(b, d2, 'g')
            for v in ([['a', ''], []], [[], [], ['x']], [], [['']]):
                w.call(data, 'replace', v)
                w.expect_dump(data, d2, v, b + ': nested lists replaced')
            w.call(data, 'append', [])
            w.call(data, 'append', ['p', 'q'])
            w.expect_dump(data, d2, [[''], [], ['p', 'q']],
                          b + ': nested lists appended')
        add('nested:%s' % b, 'nested values are written as given', nested)

        def many(w, b=b):
            desc = Lst(leaf_desc('Scalar', dtype='int64'))
            n = 120 if thorough else 13
            vals = [NpS(dt('int64'), i) for i in range(n)]
            sto, data = w.new(b, desc)
            w.call(data, 'replace', vals)
            w.expect_dump(data, desc, vals, '%s: %d items' % (b, n))
            w.call(data, 'replace', vals[:2])
            w.expect_dump(data, desc, vals[:2], '%s: 2 items' % b)
            w.call(data, 'replace', vals[::-1])
            w.expect_dump(data, desc, vals[::-1], '%s: %d items' % (b, n))
            gen = w.I.call(BType('range'), [5])
            w.call(data, 'replace', gen)
            w.expect_dump(data, desc, vals[:5], '%s: from a range' % b)
        add('many:%s' % b, 'the order is kept for any number of entries',
            many)
    return {}


# ------------------------------------------------------------------- C14
def c14(add, thorough, src):
    inner = Comp(x=leaf_desc('String'))
    desc = Comp(a=leaf_desc('String'), c=inner, l=Lst(leaf_desc('String')),
                m=Lst(inner), value=leaf_desc('Bool'),
                data=leaf_desc('Bool'), x1=leaf_desc('Scalar'),
                _u=leaf_desc('Bool'), u_=leaf_desc('Bool'),
                __v=leaf_desc('String'))
    spec = {'a': 's', 'c': {'x': 'cx'}, 'l': ['p', 'q', 'r'],
            'm': [{'x': 'm0'}, {'x': 'm1'}], 'value': True, '_u': True}
    blanks = dict(data=EMPTY, x1=EMPTY, u_=EMPTY, __v=EMPTY)

    def alike(names):
        """names that are no fields, but resemble one"""
        out = []
        for n in names:
            for m in (n.upper(), n.lower(), n.title(), n + '_', '_' + n,
                      n.strip('_'), n[:-1], n[1:], n + n, n + '0', ' ' + n):
                if m and m not in names and m not in out and \
                        not m.startswith('__'):
                    out.append(m)
        return out

    def protect(w, b):
        sto, data = w.new(b, desc)
        w.fill(data, desc, spec)
        vals = [None, 1, 's', w.attr(data, 'a'), w.attr(data, 'c')]
        for path, d, s in list(nodes_of(desc, dict(spec, **blanks))):
            node = at(w, data, path)
            if d.kind == 'Compilation':
                for name in list(d.sub) + alike(d.sub) + [
                        'nope', 'Value', 'foo_bar', '_nope', '_x', 'x_',
                        'subnodes', '_Compilation', 'schema_nodes', 'paren',
                        'parents', '']:
                    for v in vals:
                        exc = w.raises(w.setattr, node, name, v)
                        what = '%s: assigning to %s.%s' % (b, path, name)
                        w.expect_exc(exc, 'ResetSubnodeError', what)
                        t = w.I.str_(exc)
                        w.check(contains(t, name), '%s: the text %s does '
                                'not name the target' % (what, w.sh(t)))
                w.expect_dump(data, desc, spec,
                              b + ': after refused assignments')
            elif d.kind == 'List':
                for i in (SliceVal(None, None, None), SliceVal(0, 1, None),
                          SliceVal(1, None, None), SliceVal(None, None, -1),
                          SliceVal(0, 0, None), SliceVal(5, 9, 2)):
                    for v in ([], ['s'], ['s', 't'], [w.attr(data, 'a')]):
                        exc = w.raises(w.I.setitem, node, i, v)
                        w.expect_exc(exc, 'ResetSubnodeError', '%s: assigning '
                                     'to a slice of %s' % (b, path))
                for i in list(range(-4, 5)):
                    for v in vals[:3]:
                        exc = w.raises(w.I.setitem, node, i, v)
                        what = '%s: assigning to %s[%d]' % (b, path, i)
                        w.expect_exc(exc, 'ResetSubnodeError', what)
                        t = w.I.str_(exc)
                        w.check(contains(t, '[%d]' % i), '%s: the text %s '
                                'does not name the target' % (what, w.sh(t)))
                w.expect_dump(data, desc, spec,
                              b + ': after refused assignments')

    def methods(w, b):
        names = ['append', 'clear', 'complete', 'data_tree', 'empty',
                 'load_from', 'node_tree', 'replace', 'save', 'validate',
                 'items', 'name', '__init__', '__dict__', '__class__']
        for inner in (False, True):
            cd = Comp(**{n: leaf_desc('String') for n in names})
            desc = Lst(cd) if inner else cd
            sto, data = w.new(b, desc, 'm%d' % inner)
            if inner:
                w.call(data, 'append')
            node = w.item(data, 0) if inner else data
            w.call(node, 'replace', {n: 'x' + n for n in names[::2]})
            tree = w.canon(w.call(data, 'data_tree', include_empty=True))
            for n in names:
                for v in (None, 's', node):
                    exc = w.raises(w.setattr, node, n, v)
                    what = '%s: assigning to the field %s' % (b, n)
                    w.expect_exc(exc, 'ResetSubnodeError', what)
                    w.check(contains(w.I.str_(exc), n), what + ': the text '
                            'does not name it')
            w.check(w.canon(w.call(data, 'data_tree', include_empty=True))
                    == tree, b + ': refused assignments change the data')

    def access(w, b):
        sto, data = w.new(b, desc)
        w.fill(data, desc, spec)
        nodes = {}
        for path, d, s in nodes_of(desc, dict(spec, **blanks)):
            n1, n2 = at(w, data, path), at(w, data, path)
            w.check(n1 is n2, '%s: %s gives another object each time' % (
                b, path))
            w.check(isinstance(n1, Obj) and n1.cls.name == d.kind and
                    n1.cls.module == 'dsch.backends.' + b,
                    '%s: %s is %s instead of the sub-node of type %s' % (
                        b, path, w.sh(n1), d.kind))
            w.check(id(n1) not in nodes, '%s: %s is the same node as %s'
                    % (b, path, nodes.get(id(n1))))
            nodes[id(n1)] = path
            if d.kind == 'List':
                k = w.I.len_(n1)
                w.expect_same(k, len(s), '%s: len of %s' % (b, path))
                items = list(w.I.iter_(n1))
                w.check(len(items) == len(s) and all(
                    x is w.item(n1, i) for i, x in enumerate(items)),
                    '%s: iterating %s does not give its items' % (b, path))
                for i in range(len(s)):
                    w.check(w.item(n1, i) is w.item(n1, i - len(s)),
                            '%s: negative index of %s' % (b, path))
                exc = w.raises(w.item, n1, len(s))
                w.check(exc is not None and w.I.issubclass_(
                    exc.cls, w.I.exc_classes['IndexError']),
                    '%s: index beyond %s: IndexError expected, but %s' % (
                        b, path, w.exc_text(exc)))
            if d.kind == 'Compilation':
                for name in ['nope', 'foo', 'B', '_hidden', 'x2'] + alike(
                        d.sub):
                    what = '%s: missing field %s of %s' % (b, name, path)
                    exc = w.raises(w.attr, n1, name)
                    w.check(exc is not None and w.I.issubclass_(
                        exc.cls, w.I.exc_classes['AttributeError']),
                        what + ': AttributeError expected, but '
                        + w.exc_text(exc))
                    r, exc = w.attempt(w.I.hasattr_, n1, name)
                    w.no_exc(exc, what + ' with hasattr')
                    w.check(r is False or not w.I.truth(r),
                            what + ': hasattr answers True')
                for name in d.sub:
                    w.check(w.I.truth(w.I.hasattr_(n1, name)),
                            '%s: hasattr(%s) answers False' % (b, name))
    for b in BACKENDS:
        add('protect:%s' % b, 'sub-nodes cannot be overwritten',
            lambda w, b=b: protect(w, b))
        add('methods:%s' % b, 'fields that have the name of a method cannot '
            'be overwritten', lambda w, b=b: methods(w, b))
        add('access:%s' % b, 'fields and items are the sub-nodes '
            'themselves, missing ones are missing attributes',
            lambda w, b=b: access(w, b))
    return {}


# ------------------------------------------------------------------- C15
def c15(add, thorough, src):
    pairs = list(itertools.product(BACKENDS, repeat=2))

    def copy_into(w, b1, b2, desc, spec, before, k, what):
        node = w.mk(desc)
        s1 = w.create(w.path(b1, 'src%s' % k), node)
        s2 = w.create(w.path(b2, 'dst%s' % k), w.mk(desc))
        d1, d2 = w.attr(s1, 'data'), w.attr(s2, 'data')
        w.fill(d1, desc, spec)
        w.fill(d2, desc, before)
        w.call(d2, 'load_from', d1)
        w.expect_dump(d2, desc, spec, what + ': destination')
        w.expect_dump(d1, desc, spec, what + ': source afterwards')
        return d1, d2

    for b1, b2 in pairs:
        def kinds(w, b1=b1, b2=b2):
            for kind in LEAVES:
                d = leaf_desc(kind)
                desc = Comp(x=d, e=d, l=Lst(d), c=Comp(x=d, e=d))
                for v in w.variants(kind):
                    x = lambda i=v: w.val(d, i)
                    spec = {'x': x(), 'l': [x(), EMPTY, x()],
                            'c': {'e': x()}}
                    for j, before in enumerate((
                            {}, {'x': x(0), 'e': x(0), 'l': [x(0)] * 1,
                                 'c': {'x': x(0), 'e': x(0)}},
                            {'l': [x(0), x(0), x(0), x(0), x(0)]})):
                        copy_into(w, b1, b2, desc, spec, before,
                                  '%s%d%d' % (kind, v, j),
                                  '%s <- %s: %s variant %d, destination '
                                  'state %d' % (b2, b1, kind, v, j))
        add('kinds:%s:%s' % (b1, b2), 'load_from copies every value and '
            'emptiness', kinds)

        for name, desc in state_trees().items():
            if not thorough and name not in ('flat', 'list', 'nested',
                                             'complist', 'listcomp',
                                             'listlist'):
                continue

            def trees(w, b1=b1, b2=b2, name=name, desc=desc):
                sts = list(itertools.islice(states_of(
                    desc, (0, 1), (0, 1, 2)), 100))
                lim = 12 if thorough else 5
                step = max(1, len(sts) // lim)
                sts = sts[::step]
                conv = lambda d, s: EMPTY if not s else w.val(d, 1)
                conv2 = lambda d, s: EMPTY if not s else w.val(d, 0)
                k = 0
                for a in sts:
                    for c in sts:
                        k += 1
                        copy_into(w, b1, b2, desc,
                                  realize(w, desc, a, conv),
                                  realize(w, desc, c, conv2), k,
                                  '%s <- %s: %r from %s into %s' % (
                                      b2, b1, desc, a, c))
            add('trees:%s:%s:%s' % (b1, b2, name), 'load_from gives the '
                "source's state, whatever the destination held", trees)

        def alias(w, b1=b1, b2=b2):
            d = leaf_desc('Array')
            desc = Comp(x=d, l=Lst(d), c=Comp(x=d))
            arr = lambda: w.arr('int32', (3,), els=[
                Num('a', 100), Num('b', 200), Num('c', 300)])
            for k, path in enumerate((('x',), ('l', 0), ('c', 'x'))):
                for side in (0, 1):
                    spec = {'x': arr(), 'l': [arr()], 'c': {'x': arr()}}
                    want = {'x': arr(), 'l': [arr()], 'c': {'x': arr()}}
                    d1, d2 = copy_into(w, b1, b2, desc, spec, {},
                                       'a%d%d' % (k, side),
                                       '%s <- %s: arrays' % (b2, b1))
                    changed, other = (d1, d2) if side == 0 else (d2, d1)
                    w.I.setitem(at(w, changed, path), 1,
                                NpS(dt('int32'), Num('n', 900)))
                    w.expect_dump(other, desc, want,
                                  '%s <- %s: %s after an in-place change of '
                                  'the %s' % (b2, b1, ('destination',
                                                       'source')[side],
                                              ('source',
                                               'destination')[side]))
                    w.call(at(w, changed, path), 'replace',
                           w.arr('int32', (1,), els=[Num('z', 5)]))
                    w.call(changed, 'clear')
                    w.expect_dump(other, desc, want,
                                  '%s <- %s: after clearing the other side'
                                  % (b2, b1))
        add('alias:%s:%s' % (b1, b2), 'source and destination are '
            'independent afterwards', alias)

        def refuse(w, b1=b1, b2=b2):
            S = lambda **o: leaf_desc('String', **o)
            cases = [
                (S(), S(max_length=5), 'a', 'b'),
                (S(), leaf_desc('Bytes'), 'a', b'b'),
                (Comp(a=S(), b=S()), Comp(a=S(), b=S(max_length=9)),
                 {'a': 'x', 'b': 'y'}, {'a': 'p', 'b': 'q'}),
                (Comp(a=S()), Comp(a=S(), b=S()), {'a': 'x'},
                 {'a': 'p', 'b': 'q'}),
                (Comp(a=S(), b=S()), Comp(a=S()), {'a': 'x', 'b': 'y'},
                 {'a': 'p'}),
                (Comp(a=S()), opt(Comp(a=S()), 'a'), {'a': 'x'}, {}),
                (Lst(S()), Lst(S(), max_length=3), ['x'], ['p', 'q']),
                (Lst(S()), Lst(S(min_length=0)), ['x'], ['p', 'q']),
                (Comp(l=Lst(S())), Comp(l=Lst(leaf_desc('Bool'))),
                 {'l': ['x']}, {'l': [True]}),
                (Lst(S()), Comp(a=S()), ['x'], {'a': 'p'}),
                (Comp(a=S(), c=Comp(x=S())),
                 Comp(a=S(), c=Comp(x=S(max_length=2))),
                 {'a': 'x', 'c': {'x': 'z'}}, {'a': 'p', 'c': {'x': 'q'}}),
            ]
            for k, (da, db, sa_, sb) in enumerate(cases):
                for x, y, sx, sy in ((da, db, sa_, sb), (db, da, sb, sa_)):
                    t1 = w.create(w.path(b1, 's%d%s' % (k, x is da)),
                                  w.mk(x))
                    t2 = w.create(w.path(b2, 'd%d%s' % (k, x is da)),
                                  w.mk(y))
                    n1, n2 = w.attr(t1, 'data'), w.attr(t2, 'data')
                    w.fill(n1, x, sx)
                    w.fill(n2, y, sy)
                    what = '%s <- %s: %r from %r' % (b2, b1, y, x)
                    exc = w.raises(w.call, n2, 'load_from', n1)
                    w.expect_exc(exc, 'IncompatibleNodesError', what)
                    w.expect_dump(n2, y, sy, what + ': destination')
                    w.expect_dump(n1, x, sx, what + ': source')
        add('refuse:%s:%s' % (b1, b2), 'different schemas are refused '
            'before anything is changed', refuse)

    for b in BACKENDS:
        for name, desc in state_trees().items():
            def own(w, b=b, name=name, desc=desc):
                sts = list(itertools.islice(states_of(
                    desc, (0, 1), (0, 1, 2)), 100))
                sts = sts[::max(1, len(sts) // (30 if thorough else 8))]
                conv = lambda d, s: EMPTY if not s else w.val(d, 1)
                for k, st in enumerate(sts):
                    spec = realize(w, desc, st, conv)
                    sto, data = w.new(b, desc, 'own%d' % k)
                    w.fill(data, desc, spec)
                    w.call(data, 'load_from', data)
                    w.expect_dump(data, desc, spec, '%s: %r in state %s '
                                  'loaded from itself' % (b, desc, st))
            add('own:%s:%s' % (b, name), 'a node loaded from itself keeps '
                'its data', own)

    def self_load(w):
        # a loaded copy goes through the file backends as well
        for b in FILE_BACKENDS:
            desc = Comp(a=leaf_desc('Array'), s=leaf_desc('String'),
                        l=Lst(leaf_desc('Scalar')))
            spec = {'a': w.val(desc.sub['a'], 0), 's': w.val(
                desc.sub['s'], 0), 'l': [w.val(desc.sub['l'].sub, 0)]}
            sto, data = w.new(b, desc, 'x')
            w.fill(data, desc, spec)
            w.call(sto, 'save')
            w.fresh()
            l1 = w.load(w.path(b, 'x'))
            for b2 in BACKENDS:
                s2 = w.create(w.path(b2, 'y' + b), w.mk(desc))
                w.call(w.attr(s2, 'data'), 'load_from', w.attr(l1, 'data'))
                w.expect_dump(w.attr(s2, 'data'), desc, spec,
                              '%s <- loaded %s' % (b2, b))
                w.expect_dump(w.attr(l1, 'data'), desc, spec,
                              'loaded %s afterwards' % b)
    add('loaded', 'load_from works from a loaded storage', self_load)
    return {}
