"""Rules about dsch's own errors: C35."""
import ast
import re

from .world import *
from .rules_data import render, at, opt
from .rules_file import put_file

VE = 'ValidationError'
LEAVES = ('Array', 'Bool', 'Bytes', 'Date', 'DateTime', 'Scalar', 'String',
          'Time')


def count(w):
    w.fresh_no = getattr(w, 'fresh_no', 0) + 1
    return w.fresh_no


def pieces(v):
    return list(v.parts) if isinstance(v, SStr) else [v]


def shows(t, v):
    """Does the text t contain the text v?  None if that is unknown."""
    if isinstance(t, str) and isinstance(v, str):
        return v in t
    if not isinstance(t, (str, SStr, Term)):
        return None
    if isinstance(v, str):
        if any(isinstance(p, str) and v in p for p in pieces(t)):
            return True
        return None if any(isinstance(p, Term) and p.op != 'in' and not
                           p.op == 'hash' for p in pieces(t)) else False
    tp, vp = pieces(t), pieces(v)
    known = all(isinstance(p, str) or p.op in ('in', 'hash')
                for p in tp if isinstance(p, (str, Term)))
    for i in range(len(tp) - len(vp) + 1):
        ok = True
        for j, (a, b) in enumerate(zip(tp[i:], vp)):
            if isinstance(b, str) and isinstance(a, str):
                first, last = j == 0, j == len(vp) - 1
                ok = (b in a if first and last else a.endswith(b) if first
                      else a.startswith(b) if last else a == b)
            else:
                ok = a == b
            if not ok:
                break
        if ok:
            return True
    return False if known else None


def must_show(w, t, v, what):
    w.checks += 1
    r = shows(t, v)
    if r is None:
        w.I.imprecise.append('text %r' % (t,))
    if not r:
        w.fail('%s: the text %s does not show %s' % (what, w.sh(t), w.sh(v)))


WANT, GOT = ('expect', 'requir', 'should'), ('got', 'actual', 'found', 'but',
                                             'instead')


def order(w, t, want, got, what):
    """If the text says which of the two was expected it must be right."""
    text = ''
    for p in pieces(t):
        if isinstance(p, str):
            text += p
        elif p == want:
            text += '\0W'
        elif p == got:
            text += '\0G'
    low = text.lower()
    for mark, wrong, right in (('\0w', GOT, WANT), ('\0g', WANT, GOT)):
        i = low.find(mark)
        if i < 0:
            continue
        words = re.findall(r'[a-z]+', low[:i].replace('\0w', ' ').replace(
            '\0g', ' '))
        for x in reversed(words):
            if x.startswith(right):
                break
            w.check(not x.startswith(wrong), '%s: the text %s takes the '
                    'actual for the expected one' % (what, w.sh(t)))


def dsch_error(w, exc, name, what):
    w.expect_exc(exc, name, what)
    w.expect_exc(exc, 'DschError', what)
    w.expect_exc(exc, 'Exception', what) if 'Exception' in \
        w.exc_names(exc) else None
    return render(w, exc, what)


def c35(add, thorough, src):
    S = lambda **o: leaf_desc('String', **o)

    def detect(w):
        stem = Term('in', ('stem',), 'str', truth=True)
        for path in ('', 'f', 'data.txt', 'f.npz.gz', 'a b/c.d', '{}', '{0}',
                     '%s', 'f.H5', '"', sstr([w.dir, '/f.dat']),
                     sstr([w.dir, '/', stem, '.x'])):
            for what, call in (
                    ('create', lambda: w.create(path, w.S('Bool'))),
                    ('load', lambda: w.load(path))):
                exc = w.raises(call)
                t = dsch_error(w, exc, 'AutodetectBackendError',
                               '%s(%s)' % (what, w.sh(path)))
                must_show(w, t, path, '%s(%s)' % (what, w.sh(path)))
    add('autodetect', 'a failed detection names the path', detect)

    ODD = ['{}', '{0}', 'a{b}', '{', '}', 'a{', '}b', '{a', '%s', '%', '%d%%',
           '%(a)s', 'a b', '\\', '"', "'", '$a', '<b>', '*']

    def odd(w):
        """field names and values that mean something to formatting"""
        bad = S(max_length=1)
        for n in ODD:
            val = 'long ' + n
            for k, (desc, spec, path, where) in enumerate((
                    (Comp(**{n: bad}), {n: val}, (n,), n),
                    (Comp(a=Comp(**{n: bad})), {'a': {n: val}}, ('a', n),
                     'a.' + n),
                    (Comp(**{n: Comp(a=bad)}), {n: {'a': val}}, (n, 'a'),
                     n + '.a'),
                    (Comp(**{n: Lst(bad)}), {n: ['', val]}, (n, 1),
                     n + '[1]'),
                    (Lst(Comp(**{n: bad})), [{n: val}], (0, n), '[0].' + n))):
                sto, data = w.new('inmem', desc)
                w.fill(data, desc, spec)
                for who, f in (('data', data), ('storage', sto)):
                    exc = w.raises(w.call, f, 'validate')
                    what = 'validation of %r' % (desc,)
                    t = dsch_error(w, exc, 'SubnodeValidationError', what)
                    must_show(w, t, where, what)
                    must_show(w, t, 'Maximum string length exceeded', what)
                c = data if desc.kind == 'Compilation' else w.item(data, 0)
                for name in (n, n + 'x'):
                    exc = w.raises(w.setattr, c, name, 'x')
                    what = 'assigning to ' + name
                    t = dsch_error(w, exc, 'ResetSubnodeError', what)
                    must_show(w, t, name, what)
    add('names', 'any field name can be rendered', odd)

    def hashes(w, t, want, got, what, ordered):
        must_show(w, t, want, what)
        must_show(w, t, got, what)
        if ordered:
            order(w, t, want, got, what)

    DESCS = lambda: [Comp(a=S()), Comp(b=S()), Comp(a=S(max_length=3)),
                     Lst(S()), S(), leaf_desc('Bool'),
                     leaf_desc('Array', dtype='float64'),
                     opt(Comp(a=S()), 'a')]

    for b in BACKENDS:
        def schema(w, b=b):
            k = 0
            for have in DESCS()[:4]:
                k += 1
                path = w.path(b, 'f%d' % k)
                hh = w.call(w.mk(have), 'hash')
                if b != 'inmem':
                    st = w.create(path, w.mk(have))
                    w.call(st, 'save', force=True)
                for other in DESCS():
                    if repr(other) == repr(have):
                        continue
                    node = w.mk(other)
                    ho = w.call(node, 'hash')
                    what = '%s: %r instead of %r' % (b, have, other)
                    if b != 'inmem':
                        for kw in ({'required_schema': node},
                                   {'required_schema_hash': ho},
                                   {'required_schema': node,
                                    'required_schema_hash': ho}):
                            exc = w.raises(w.load, path, **kw)
                            t = dsch_error(w, exc, 'InvalidSchemaError',
                                           'load: ' + what)
                            hashes(w, t, ho, hh, 'load: ' + what, True)
                        exc = w.raises(
                            w.fn, 'dsch.frontend', 'PseudoStorage', path,
                            node)
                        t = dsch_error(w, exc, 'InvalidSchemaError',
                                       'PseudoStorage: ' + what)
                        hashes(w, t, ho, hh, 'PseudoStorage: ' + what, True)
                    sto, data = w.new(b, have, 'p%d' % count(w)) \
                        if b != 'inmem' else w.new(b, have)
                    exc = w.raises(
                        w.fn, 'dsch.frontend', 'PseudoStorage', data, node)
                    t = dsch_error(w, exc, 'InvalidSchemaError',
                                   'PseudoStorage of a node: ' + what)
                    hashes(w, t, ho, hh, 'PseudoStorage of a node: ' + what,
                           True)
        add('schema:' + b, 'a refused schema is named together with the '
            'required one', schema)

        def nodes(w, b=b):
            for have in DESCS():
                for other in DESCS():
                    if repr(other) == repr(have):
                        continue
                    n1, n2 = w.mk(have), w.mk(other)
                    what = '%s: load_from %r into %r' % (b, have, other)
                    d1 = w.attr(w.create(w.path(b, 'p%d' % count(w)), n1),
                                'data')
                    d2 = w.attr(w.create(w.path(b, 'p%d' % count(w)), n2),
                                'data')
                    exc = w.raises(w.call, d2, 'load_from', d1)
                    t = dsch_error(w, exc, 'IncompatibleNodesError', what)
                    hashes(w, t, w.call(n1, 'hash'), w.call(n2, 'hash'),
                           what, False)
        add('nodes:' + b, 'incompatible nodes are named by their hashes',
            nodes)

        def reset(w, b=b):
            desc = Comp(aa=S(), bb=Comp(cc=S()), ll=Lst(S()),
                        l2=Lst(Lst(S())))
            sto, data = w.new(b, desc)
            w.call(w.attr(data, 'll'), 'replace', ['x', 'y', 'z'])
            w.call(w.attr(data, 'l2'), 'replace', [['x'], ['y']])
            for node, name in ((data, 'aa'), (data, 'bb'), (data, 'll'),
                               (w.attr(data, 'bb'), 'cc'),
                               (data, 'nothing')):
                what = '%s: setting %s' % (b, name)
                exc = w.raises(w.I.setattr_, node, name, 'new')
                t = dsch_error(w, exc, 'ResetSubnodeError', what)
                must_show(w, t, name, what)
            for node in (w.attr(data, 'll'), w.attr(data, 'l2')):
                for i in (0, 1, -1, 7):
                    what = '%s: setting item %d' % (b, i)
                    exc = w.raises(w.I.setitem, node, i, 'new')
                    t = dsch_error(w, exc, 'ResetSubnodeError', what)
                    must_show(w, t, '[%d]' % i, what)
        add('reset:' + b, 'an overwritten sub-node is named', reset)

        def empty(w, b=b):
            for kind in LEAVES:
                sto, data = w.new(b, Comp(a=leaf_desc(kind)),
                                  'f%d' % count(w))
                exc = w.raises(w.attr, w.attr(data, 'a'), 'value')
                t = dsch_error(w, exc, 'NodeEmptyError',
                               '%s: empty %s' % (b, kind))
                w.check(t != '', 'the text of NodeEmptyError is empty')
        add('empty:' + b, 'reading an empty node is a dsch error', empty)

    # ----------------------------------------------------- constraints
    def failing(w):
        """(what, node, value, independent values, expected, actual)"""
        T = lambda v: BType({'unknown': 'str'}.get(v, v))
        for kind in ('String', 'Bytes'):
            for n, lim in (('max_length', 3), ('max_length', 0),
                           ('min_length', 3), ('min_length', 12)):
                ln = {3: 5, 0: 1}[lim] if n == 'max_length' else {
                    3: 0, 12: 2}[lim]
                v = 'abcdefgh'[:ln]
                v = v.encode() if kind == 'Bytes' else v
                yield ('%s %s=%d' % (kind, n, lim), w.S(kind, **{n: lim}), v,
                       None, [lim], [ln])
            yield ('%s both limits, short' % kind, w.S(
                kind, min_length=4, max_length=6), 'ab' if kind == 'String'
                else b'ab', None, [4], [2])
            yield ('%s both limits, long' % kind, w.S(
                kind, min_length=1, max_length=2), 'abc' if kind == 'String'
                else b'abc', None, [2], [3])
        for n, lim, v in (('max_value', 10, 20), ('max_value', 0, 7),
                          ('min_value', 10, 0), ('min_value', 0, -7)):
            x = NpS(dt('int32'), v)
            yield ('Scalar %s=%d' % (n, lim), w.S('Scalar', 'int32',
                                                  **{n: lim}),
                   x, None, [lim], [x])
        x = NpS(dt('float64'), 1.0)
        yield ('Scalar dtype', w.S('Scalar', 'int32'), x, None,
               ['int32', dt('int32')], [dt('float64')])
        yield ('Array dtype', w.S('Array', 'int32'),
               w.arr('float64', (3,), 'x'), [],
               ['int32', dt('int32')], [dt('float64')])
        for nd, sh in ((1, (2, 3)), (2, (4,)), (1, ()), (3, (1, 2))):
            yield ('Array ndim=%d' % nd, w.S('Array', 'int32', ndim=nd),
                   w.arr('int32', sh, 'x'), [], [nd], [len(sh)])
        for lim, sh, i in (((3,), (4,), 0), ((0,), (1,), 0),
                           ((None, 2), (5, 3), 1), ((4, 2), (5, 2), 0)):
            yield ('Array max_shape=%s' % (lim,), w.S(
                'Array', 'int32', max_shape=lim), w.arr('int32', sh, 'x'),
                [], [lim, lim[i]], [sh, sh[i]])
        for lim, sh, i in (((3,), (2,), 0), ((1,), (0,), 0),
                           ((None, 2), (5, 1), 1), ((4, 2), (3, 2), 0)):
            yield ('Array min_shape=%s' % (lim,), w.S(
                'Array', 'int32', min_shape=lim), w.arr('int32', sh, 'x'),
                [], [lim, lim[i]], [sh, sh[i]])
        for n, lim, els in (('max_value', 10, (1, 20)),
                            ('max_value', 0, (-1, 3)),
                            ('min_value', 10, (12, 3)),
                            ('min_value', 0, (4, -3))):
            yield ('Array %s=%d' % (n, lim), w.S('Array', 'int32',
                                                 **{n: lim}),
                   w.arr('int32', (2,), els=els), [], [lim], None)
        for indep, sh, want, got in (((4,), (3,), 4, 3), ((1,), (0,), 1, 0),
                                     ((0,), (2,), 0, 2)):
            yield ('Array depends_on', w.S('Array', 'int32',
                                           depends_on='t'),
                   w.arr('int32', sh, 'x'),
                   [w.arr('float64', indep, 'ind')], [want, indep],
                   [got, sh])
        for kind in LEAVES:
            for tag, v in (('None', None), ('list', [1]), ('dict', {})):
                node = w.mk(leaf_desc(kind))
                yield ('%s of type %s' % (kind, tag), node, v,
                       [] if kind == 'Array' else None, None, None)

    def among(w, v, allowed):
        for a in allowed:
            if w.I.truth(w.I.compare('==', v, a)) if not isinstance(
                    v, (DType, Arr)) else v == a:
                return True
        return False

    def one(w, what, exc, want, got):
        t = dsch_error(w, exc, VE, what)
        m = w.attr(exc, 'message')
        w.check(isinstance(m, (str, SStr)) and m != '',
                '%s: the message is %s' % (what, w.sh(m)))
        must_show(w, t, m, what)
        e, g = w.attr(exc, 'expected'), w.attr(exc, 'got')
        for n, v, allowed in (('expected', e, want), ('got', g, got)):
            if allowed is not None:
                w.check(among(w, v, allowed), '%s: %s is %s instead of %s'
                        % (what, n, w.sh(v), w.sh(allowed[0])))
            tv, x = w.attempt(w.I.str_, v)
            w.no_exc(x, what + ': str() of ' + n)
            if not isinstance(v, Arr):
                must_show(w, t, tv, '%s: %s' % (what, n))

    def texts(w):
        """errors about anything at all can be rendered"""
        odd = ['', '{}', '{0}', '{x}', '}{', '%s', '%d', '%(a)s', '100%',
               '%', '\\', '"', "'", '\n', '\u20ac', '[0]', '.',
               w.val(S(), 0), None, 0, 1.5, (), (1, 2), ('a',), [], ['%s'],
               {}, {'x': '{x}'}, True, b'%s', BType('str'), dt('int32'),
               NpS(dt('int32'), 7), w.val(leaf_desc('Date'), 0)]
        E = lambda n, *a: w.fn('dsch.exceptions', n, *a)
        for v in odd:
            what = 'with ' + w.sh(v)
            sv = w.I.str_(v)
            for m, e, g in ((v, 1, 2), ('m', v, 2), ('m', 1, v),
                            ('m', v, v)):
                if not isinstance(m, (str, SStr, Term)):
                    continue
                exc = E(VE, m, e, g)
                t = render(w, exc, 'ValidationError ' + what)
                for x in (m, e, g):
                    must_show(w, t, w.I.str_(x), 'ValidationError ' + what)
            for n in ('AutodetectBackendError', 'ResetSubnodeError'):
                if isinstance(v, (str, SStr, Term)):
                    must_show(w, render(w, E(n, v), n + ' ' + what), sv,
                              n + ' ' + what)
            for n in ('InvalidSchemaError', 'IncompatibleNodesError'):
                if isinstance(v, (str, SStr, Term)):
                    t = render(w, E(n, v, 'abc'), n + ' ' + what)
                    must_show(w, t, sv, n + ' ' + what)
                    must_show(w, t, 'abc', n + ' ' + what)
                    t = render(w, E(n, 'abc', v), n + ' ' + what)
                    must_show(w, t, sv, n + ' ' + what)
    add('texts', 'errors about any text or value can be rendered', texts)

    def constraints(w):
        for what, node, v, indep, want, got in failing(w):
            args = [v] if indep is None else [v, indep]
            exc = w.raises(w.call, node, 'validate', *args)
            one(w, what, exc, want, got)
    add('constraints', 'a violated constraint is described by message, '
        'expected and actual value', constraints)

    def lists(w):
        for b in BACKENDS:
            for opts, st, want in (
                    ({'max_length': 1}, ['a', 'b'], 1),
                    ({'max_length': 0}, ['a'], 0),
                    ({'min_length': 2}, [], 2),
                    ({'min_length': 2, 'max_length': 3}, ['a'], 2),
                    ({'min_length': 1, 'max_length': 2}, ['a'] * 4, 2)):
                desc = Lst(S(), **opts)
                sto, data = w.new(b, desc, 'l%d' % count(w))
                w.call(data, 'replace', st)
                what = '%s: %r of %d items' % (b, desc, len(st))
                one(w, what, w.raises(w.call, data, 'validate'), [want],
                    [len(st)])
    add('lists', 'a violated List length is described by limit and length',
        lists)

    def classes(w):
        """every exception class of dsch.exceptions is a DschError"""
        for modname, (f, tree) in sorted(src.items()):
            if not modname.startswith('dsch'):
                continue
            for n in tree.body:
                if not isinstance(n, ast.ClassDef):
                    continue
                c = w.get(modname, n.name)
                names = [x.name for x in c.mro if hasattr(x, 'name')]
                if modname == 'dsch.exceptions' or 'BaseException' in names:
                    w.check('DschError' in names and 'Exception' in names,
                            'the error %s.%s is no DschError' % (
                                modname, n.name), '%s:%d' % (f, n.lineno))
    add('classes', 'every error class is a DschError', classes)
    return {}
