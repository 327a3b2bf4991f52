"""Rules about saving, loading, paths, PseudoStorage and file effects:
C22 - C30, C33."""
import itertools

from .world import *
from .rules_data import (at, make_items, state_trees, states_of, realize,
                         nodes_of, CHECKED, CHECKED2, cdesc, cval, cdesc,
                         leaves_of, blank_of, is_empty)
from .rules_store import (backend_of, roundtrip, set_spec, full_lists,
                          fillup, kinds_spec, comp_of_kinds, content_at,
                          all_kinds_desc)
from .rules_schema import KINDS, all_configs, validate
from .lib_io import FileEnt, DataContent, PathVal

SVE = 'SubnodeValidationError'
VE = 'ValidationError'
ISE = 'InvalidSchemaError'
EXT = {'hdf5': ('.h5', '.hdf5'), 'mat': ('.mat',), 'npz': ('.npz',)}


def key(w, p):
    return w.I.libs.path_key(w.I, p)


def put_file(w, path, content=None):
    """A file that is already there."""
    ent = FileEnt(content or DataContent([b'something else']))
    w.I.fs.files[key(w, path)] = ent
    return ent


def is_validation_error(w, exc):
    return exc is not None and bool({VE, SVE} & set(w.exc_names(exc)))


def versions(w, path):
    e = w.I.fs.files.get(key(w, path))
    return e.versions if e is not None else 0


def invalid_cases(w, kind='String', table=CHECKED):
    """(descriptor, spec, valid?) with the violation at every position."""
    d = cdesc(kind, table)
    g = lambda: cval(w, kind, 1, table)
    x = lambda: cval(w, kind, 2, table)
    lim = Lst(leaf_desc('Bool'), min_length=1, max_length=2)
    return [
        (d, g(), True), (d, x(), False), (d, EMPTY, True),
        (Comp(a=d, b=d, c=d), {'a': g(), 'b': g(), 'c': g()}, True),
        (Comp(a=d, b=d, c=d), {'a': x(), 'b': g(), 'c': g()}, False),
        (Comp(a=d, b=d, c=d), {'a': g(), 'b': x(), 'c': g()}, False),
        (Comp(a=d, b=d, c=d), {'a': g(), 'b': g(), 'c': x()}, False),
        (Comp(a=d, b=d, c=d), {'c': x()}, False),
        (Comp(a=d, b=d, c=d), {'b': g()}, True),
        (Comp(a=d, b=d, c=d), {}, True),
        (opt(Comp(a=d, b=d), 'b'), {'a': g(), 'b': x()}, False),
        (Lst(d), [g(), g()], True), (Lst(d), [x()], False),
        (Lst(d), [g(), g(), x()], False), (Lst(d), [], True),
        (Comp(l=Lst(d), z=d), {'l': [g(), x()], 'z': g()}, False),
        (Comp(c=Comp(c=Comp(x=d)), y=d), {'c': {'c': {'x': x()}},
                                          'y': g()}, False),
        (Comp(c=Comp(c=Comp(x=d)), y=d), {'c': {'c': {'x': g()}},
                                          'y': g()}, True),
        (Lst(Comp(l=Lst(d), y=d)), [{'l': [g()], 'y': g()},
                                    {'l': [g(), x()], 'y': g()}], False),
        (lim, [True, False], True), (lim, [True] * 3, False),
        (Comp(l=lim, b=d), {'l': [True] * 3, 'b': g()}, False),
        (Comp(l=lim, b=d), {'b': g()}, False),
        (Comp(l=lim, b=d), {'l': [True], 'b': g()}, True),
        (Lst(lim), [[True], [True] * 3], False),
    ]


def opt(d, *names):
    d.opts['optionals'] = list(names)
    return d


# ------------------------------------------------------------------- C22
def c22(add, thorough, src):
    def expect_rejected(w, sto, data, path, what):
        """save() raises what validate() raises and writes nothing."""
        v = w.raises(w.call, data, 'validate')
        for a, k in (((), {}), ((), {'force': False}), ((False,), {})):
            before, since = w.files(), len(w.I.effects)
            exc = w.raises(w.call, sto, 'save', *a, **k)
            w.checks += 1
            if not is_validation_error(w, exc):
                w.fail('%s: a validation error is expected from save(), '
                       'but %s' % (what, w.exc_text(exc)))
            w.check(exc.cls is v.cls, '%s: save() raises %s, validate() %s'
                    % (what, exc.cls.name, v.cls.name))
            wr = w.writes(since)
            w.check(not wr, '%s: rejected by save(), but %s of %s' % (
                what, wr and wr[0][0], wr and w.sh(wr[0][1])),
                wr[0][3] if wr else None)
            w.expect_files(before, what + ': rejected save()')

    def stored(w, path, desc, spec, what):
        w.fresh()
        st = w.load(path, force=True)
        w.expect_dump(w.attr(st, 'data'), desc, spec, what)
        return st

    for b in FILE_BACKENDS:
        for kind in CHECKED:
            def states(w, b=b, kind=kind):
                for ti, table in enumerate((CHECKED, CHECKED2)):
                    for k, (desc, spec, ok) in enumerate(invalid_cases(
                            w, kind, table)):
                        name = 's%d-%d' % (ti, k)
                        path = w.path(b, name)
                        sto, data = w.new(b, desc, name)
                        set_spec(w, data, desc, spec)
                        what = '%s: %r as %s' % (b, desc, w.sh(spec))
                        if ok:
                            n = versions(w, path)
                            w.no_exc(w.raises(w.call, sto, 'save'),
                                     what + ': save()')
                            w.check(versions(w, path) > n,
                                    what + ': save() writes nothing')
                            stored(w, path, desc, spec, what + ' saved')
                        else:
                            expect_rejected(w, sto, data, path, what)
            add('states:%s:%s' % (b, kind), 'save() writes exactly the '
                'valid states', states)

            def forced(w, b=b, kind=kind):
                for k, (desc, spec, ok) in enumerate(invalid_cases(w,
                                                                   kind)):
                    for pos in (True, False):
                        name = 'f%d%d' % (k, pos)
                        path = w.path(b, name)
                        sto, data = w.new(b, desc, name)
                        set_spec(w, data, desc, spec)
                        n = versions(w, path)
                        what = '%s: %r as %s: save(force=True)' % (
                            b, desc, w.sh(spec))
                        w.no_exc(w.raises(w.call, sto, 'save', True) if pos
                                 else w.raises(w.call, sto, 'save',
                                               force=True), what)
                        w.check(versions(w, path) > n,
                                what + ' writes nothing')
                        stored(w, path, desc, spec, what)
            add('forced:%s:%s' % (b, kind), 'save(force=True) always writes',
                forced)

            def history(w, b=b, kind=kind):
                """validation concerns the data at the time of saving"""
                d = cdesc(kind)
                g = lambda: cval(w, kind, 1)
                x = lambda: cval(w, kind, 2)
                desc = Comp(a=d, b=d, l=Lst(d), c=Comp(x=d))
                for k, (paths) in enumerate(((('a',)), ('b',), ('l', 0),
                                             ('l', 1), ('c', 'x'))):
                    for loaded in (False, True):
                        name = 'h%d%d' % (k, loaded)
                        path = w.path(b, name)
                        sto, data = w.new(b, desc, name)
                        good = {'a': g(), 'b': g(), 'l': [g(), g()],
                                'c': {'x': g()}}
                        set_spec(w, data, desc, good)
                        w.call(sto, 'save')
                        if loaded:
                            w.fresh()
                            sto = w.load(path)
                            data = w.attr(sto, 'data')
                        w.call(sto, 'save')
                        w.call(sto, 'validate')
                        what = '%s: %s becomes invalid%s' % (
                            b, paths, ' after loading' if loaded else '')
                        w.call(at(w, data, paths), 'replace', x())
                        expect_rejected(w, sto, data, path, what)
                        st = None
                        if b != 'hdf5':
                            # the file keeps the last saved state
                            w.expect_dump(w.attr(w.load(path), 'data'),
                                          desc, good, what + ': the file')
                        # repaired: saved again
                        y = g()
                        w.call(at(w, data, paths), 'replace', y)
                        w.no_exc(w.raises(w.call, sto, 'save'),
                                 what + ' and valid again: save()')
                        new = w.dump(data, desc)
                        w.fresh()
                        w.expect_state(w.dump(w.attr(w.load(path), 'data'),
                                              desc), new, what + ' and valid '
                                       'again: saved')
                        # invalid again, forced
                        sto = w.load(path)
                        data = w.attr(sto, 'data')
                        w.call(at(w, data, paths), 'replace', x())
                        expect_rejected(w, sto, data, path, what + ' again')
                        w.call(sto, 'save', force=True)
                        new = w.dump(data, desc)
                        w.fresh()
                        w.expect_state(w.dump(w.attr(w.load(
                            path, force=True), 'data'), desc), new,
                            what + ' forced')
                        # an invalid storage stays invalid after loading
                        sto = w.load(path, force=True)
                        expect_rejected(w, sto, w.attr(sto, 'data'), path,
                                        what + ', forced, loaded')
            add('history:%s:%s' % (b, kind), 'each save() validates the '
                'current data', history)

        def sequences(w, b=b):
            """whatever was saved, forced or refused before"""
            d = cdesc('String')
            desc = Comp(a=d, c=Comp(x=d))
            steps = list(itertools.product((1, 2), (None, False, True)))
            seqs = list(itertools.product(steps, repeat=3))
            seqs = seqs[::1 if thorough else 3] + [
                [(2, True), (2, None), (1, None), (2, None), (2, True),
                 (2, False), (1, True), (2, None)]]
            for k, seq in enumerate(seqs):
                name = 'q%d' % k
                path = w.path(b, name)
                sto, data = w.new(b, desc, name)
                w.fill(data, desc, {'a': cval(w, 'String', 1), 'c': {
                    'x': cval(w, 'String', 1)}})
                leaf = at(w, data, ('a',) if k % 2 else ('c', 'x'))
                for i, (state, force) in enumerate(seq):
                    w.call(leaf, 'replace', cval(w, 'String', state))
                    kw = {} if force is None else {'force': force}
                    before, n = w.files(), versions(w, path)
                    exc = w.raises(w.call, sto, 'save', **kw)
                    what = '%s: save(%s) number %d of %s' % (
                        b, kw, i + 1, [('valid' if s == 1 else 'invalid',
                                        f) for s, f in seq])
                    if state == 2 and not force:
                        w.checks += 1
                        if not is_validation_error(w, exc):
                            w.fail('%s: a validation error is expected, but '
                                   '%s' % (what, w.exc_text(exc)))
                        w.expect_files(before, what)
                    else:
                        w.no_exc(exc, what)
                        w.check(versions(w, path) > n, what + ' writes '
                                'nothing')
                    if k % 5 == 0 and i == 0 and key(w, path) in \
                            w.I.fs.files:
                        keep = w.dump(data, desc)
                        if versions(w, path) > n:
                            sto = w.load(path, force=True)
                            data = w.attr(sto, 'data')
                            w.expect_state(w.dump(data, desc), keep, what
                                           + ', loaded')
                            leaf = at(w, data, ('a',) if k % 2
                                      else ('c', 'x'))
        add('sequences:%s' % b, 'each save() decides for itself', sequences)

        def lists(w, b=b):
            lim = Lst(leaf_desc('Bool'), min_length=1, max_length=2)
            for name, desc, path in (('top', lim, ()),
                                     ('in', Comp(l=lim), ('l',))):
                sto, data = w.new(b, desc, name)
                node = at(w, data, path)
                for n in range(4):
                    what = '%s: list %s of length %d' % (b, name, n)
                    if 1 <= n <= 2:
                        v = versions(w, w.path(b, name))
                        w.no_exc(w.raises(w.call, sto, 'save'), what)
                        w.check(versions(w, w.path(b, name)) > v,
                                what + ': save() writes nothing')
                    else:
                        expect_rejected(w, sto, data, w.path(b, name), what)
                    w.call(node, 'append', True)
        add('lists:%s' % b, 'list lengths are validated on saving', lists)

        def depends(w, b=b):
            A = lambda **o: D('Array', None, dtype='float64', **o)
            desc = Comp(t=A(), v=A(depends_on=('t',)))
            for k, (n, m, ok) in enumerate(((3, 3, True), (3, 4, False),
                                            (4, 3, False))):
                sto, data = w.new(b, desc, 'd%d' % k)
                spec = {'t': w.arr('float64', (n,)),
                        'v': w.arr('float64', (m,))}
                w.fill(data, desc, spec)
                what = '%s: dependent arrays of %d and %d' % (b, n, m)
                if ok:
                    w.no_exc(w.raises(w.call, sto, 'save'), what)
                    stored(w, w.path(b, 'd%d' % k), desc, spec, what)
                else:
                    expect_rejected(w, sto, data, w.path(b, 'd%d' % k), what)
        add('depends:%s' % b, 'dependent arrays are validated on saving',
            depends)
    return {}


# ------------------------------------------------------------------- C23
def resembling(w, h, other):
    """texts that resemble a hash"""
    cut = lambda *k: w.I.getitem(h, SliceVal(*k))
    return (
            ('first 8 characters of the hash', cut(None, 8, None)),
            ('hash without its last character',
             cut(None, -1, None)),
            ('hash without its first character', cut(1, None, None)),
            ('last 8 characters of the hash', cut(-8, None, None)),
            ('hash and another character', sstr([h, '0'])),
            ('hash after another character', sstr(['0', h])),
            ('hash and a space', sstr([h, ' '])),
            ('hash after a space', sstr([' ', h])),
            ('hash in quotes', sstr(['"', h, '"'])),
            ('hash and a new line', sstr([h, '\n'])),
            ('hash in capital letters', w.I.call_method(
                h, 'upper', [])),
            ('hash followed by another one', sstr([h, other])),
            ('hash of another schema', other))


def c23(add, thorough, src):
    S = lambda **o: leaf_desc('String', **o)
    pairs = {
        'type': (Comp(a=S()), Comp(a=leaf_desc('Bool'))),
        'name': (Comp(a=S()), Comp(b=S())),
        'more': (Comp(a=S()), Comp(a=S(), b=S())),
        'option': (Comp(a=S()), Comp(a=S(max_length=9))),
        'nested': (Comp(c=Comp(x=S())), Comp(c=Comp(x=S(min_length=1)))),
        'optionals': (Comp(a=S(), b=S()), opt(Comp(a=S(), b=S()), 'a')),
        'list': (Lst(S()), Lst(S(), max_length=3)),
        'listsub': (Lst(S()), Lst(S(max_length=7))),
        'top': (S(), leaf_desc('Bytes')),
        'unit': (leaf_desc('Scalar', unit='V'), leaf_desc('Scalar',
                                                          unit='A')),
        'dtype': (leaf_desc('Array', dtype='int32'),
                  leaf_desc('Array', dtype='int64')),
        'date': (leaf_desc('Date'), leaf_desc('Date', set_on_create=True)),
    }
    for b in FILE_BACKENDS:
        for pname, (d1, d2) in pairs.items():
            def schema(w, b=b, d1=d1, d2=d2, pname=pname):
                sto, data = w.new(b, d1, 'f')
                st = next(iter(states_of(d1, (1,), (1,))))
                spec = realize(w, d1, st, lambda d, s: w.val(d, 0))
                set_spec(w, data, d1, spec)
                w.call(sto, 'save')
                w.fresh()
                same, other = w.mk(d1), w.mk(d2)
                hs, ho = w.call(same, 'hash'), w.call(other, 'hash')
                for rs, rh in itertools.product((None, same, other),
                                                (None, hs, ho, 'wrong')):
                    for force in (None, False, True):
                        for explicit in (False, True):
                            kw = {}
                            if rs is not None:
                                kw['required_schema'] = rs
                            if rh is not None:
                                kw['required_schema_hash'] = rh
                            if force is not None:
                                kw['force'] = force
                            if explicit:
                                kw['backend'] = b
                            before = w.files()
                            since = len(w.I.effects)
                            r, exc = w.attempt(w.load, w.path(b), **kw)
                            what = '%s (%s): load(%s)' % (
                                b, pname, ', '.join('%s=%s' % (
                                    k, 'the stored schema' if v is same else
                                    'another schema' if v is other else
                                    'its hash' if v is hs else
                                    'another hash' if v is ho else v)
                                    for k, v in kw.items()))
                            if rs is other or rh in (ho, 'wrong'):
                                w.expect_exc(exc, ISE, what)
                            else:
                                w.no_exc(exc, what)
                                w.check(isinstance(r, Obj)
                                        and r.cls.name == 'Storage',
                                        what + ': returns no storage')
                                w.expect_dump(w.attr(r, 'data'), d1, spec,
                                              what)
                                w.expect_same(w.call(r, 'schema_hash'), hs,
                                              what + ': hash')
                            wr = w.writes(since)
                            w.check(not wr, '%s: writes to %s' % (
                                what, wr and w.sh(wr[0][1])))
                            w.expect_files(before, what)
            add('schema:%s:%s' % (b, pname), 'a schema other than required '
                'is rejected, also with force', schema)

        def similar(w, b=b):
            # values that resemble the right hash
            d1 = Comp(a=S(), l=Lst(S()))
            d2 = Comp(a=S(), l=Lst(leaf_desc('Bool')))
            sto, data = w.new(b, d1, 'f')
            w.call(w.attr(data, 'a'), 'replace', w.val(S()))
            w.call(sto, 'save')
            w.fresh()
            h, other = w.call(w.mk(d1), 'hash'), w.call(w.mk(d2), 'hash')
            for name, x in resembling(w, h, other):
                for kw in ({}, {'force': True},
                           {'required_schema': w.mk(d1)}):
                    exc = w.raises(w.load, w.path(b), required_schema_hash=x,
                                   **kw)
                    w.expect_exc(exc, ISE, '%s: load(%s) with the %s as '
                                 'required hash' % (b, ', '.join(kw), name))
        add('similar:%s' % b, 'only the very hash of the schema is accepted',
            similar)

        def short(w, b=b):
            L = Lst(S(), min_length=1)
            for k, (desc, spec) in enumerate((
                    (Comp(l=L), {}), (Comp(c=Comp(l=L)), {}), (L, []),
                    (opt(Comp(l=L, a=S()), 'l'), {}),
                    (opt(Comp(l=L, a=S()), 'l', 'a'), {}),
                    (Comp(l=L, a=S()), {'a': 'text'}),
                    (Comp(m=L, l=L), {'m': ['x']}),
                    (Comp(m=Lst(Comp(l=L, a=S()))),
                     {'m': [{'l': [], 'a': 'x'}]}),
                    (Comp(m=Lst(Comp(l=L, a=S()))),
                     {'m': [{'l': ['y'], 'a': 'x'}, {'l': [], 'a': 'x'}]}),
                    )):
                sto, data = w.new(b, desc, 's%d' % k)
                set_spec(w, data, desc, spec)
                w.call(sto, 'save', force=True)
                w.fresh()
                for kw in ({}, {'backend': b},
                           {'required_schema': w.mk(desc)}):
                    exc = w.raises(w.load, w.path(b, 's%d' % k), **kw)
                    w.check(exc is not None, '%s: load(%s) of %r with too '
                            'short a list' % (b, ', '.join(kw), desc))
                    names = w.exc_names(exc)
                    w.check('ValidationError' in names
                            or 'SubnodeValidationError' in names,
                            '%s: load of %r: %s' % (b, desc,
                                                    w.exc_text(exc)))
        add('short:%s' % b, 'a list that is too short is rejected, however '
            'little data there is', short)

        for kind in CHECKED:
            def valid(w, b=b, kind=kind):
                for k, (desc, spec, ok) in enumerate(invalid_cases(
                        w, kind, CHECKED if kind != 'Array' else CHECKED2)):
                    name = 'v%d' % k
                    sto, data = w.new(b, desc, name)
                    set_spec(w, data, desc, spec)
                    w.call(sto, 'save', force=True)
                    w.fresh()
                    node = w.mk(desc)
                    h = w.call(node, 'hash')
                    for kw in ({}, {'force': False}, {'backend': b},
                               {'required_schema': node},
                               {'required_schema_hash': h},
                               {'force': True}, {'force': True,
                                                 'required_schema': node,
                                                 'required_schema_hash': h}):
                        r, exc = w.attempt(w.load, w.path(b, name), **kw)
                        what = '%s: %r as %s: load(%s)' % (
                            b, desc, w.sh(spec), ', '.join(kw))
                        if ok or kw.get('force'):
                            w.no_exc(exc, what)
                            w.expect_dump(w.attr(r, 'data'), desc, spec,
                                          what)
                        else:
                            w.checks += 1
                            if not is_validation_error(w, exc):
                                w.fail('%s: a validation error is expected, '
                                       'but %s' % (what, w.exc_text(exc)))
                    # a wrong schema is rejected whether valid or not
                    for kw in ({'required_schema_hash': 'x'},
                               {'required_schema_hash': 'x', 'force': True}):
                        exc = w.raises(w.load, w.path(b, name), **kw)
                        w.expect_exc(exc, ISE, '%s: %r as %s: load(%s)' % (
                            b, desc, w.sh(spec), ', '.join(kw)))
            add('valid:%s:%s' % (b, kind), 'invalid data is rejected unless '
                'forced', valid)

        def depends(w, b=b):
            A = lambda **o: D('Array', None, dtype='float64', **o)
            desc = Comp(t=A(), v=A(depends_on=('t',)))
            for k, (n, m, ok) in enumerate(((3, 3, True), (3, 4, False),
                                            (4, 3, False))):
                sto, data = w.new(b, desc, 'd%d' % k)
                spec = {'t': w.arr('float64', (n,)),
                        'v': w.arr('float64', (m,))}
                w.fill(data, desc, spec)
                w.call(sto, 'save', force=True)
                w.fresh()
                exc = w.raises(w.load, w.path(b, 'd%d' % k))
                what = '%s: load() with dependent arrays of %d and %d' % (
                    b, n, m)
                if ok:
                    w.no_exc(exc, what)
                else:
                    w.checks += 1
                    if not is_validation_error(w, exc):
                        w.fail('%s: a validation error is expected, but %s'
                               % (what, w.exc_text(exc)))
                w.no_exc(w.raises(w.load, w.path(b, 'd%d' % k), force=True),
                         what + ' forced')
        add('depends:%s' % b, 'dependent arrays are validated on loading',
            depends)

    def message(w):
        """InvalidSchemaError carries both hashes"""
        d1, d2 = Comp(a=S()), Comp(b=S())
        sto, data = w.new('npz', d1)
        w.call(sto, 'save')
        h1, h2 = w.call(w.mk(d1), 'hash'), w.call(w.mk(d2), 'hash')
        for kw in ({'required_schema': w.mk(d2)},
                   {'required_schema_hash': h2}):
            exc = w.raises(w.load, w.path('npz'), **kw)
            w.expect_exc(exc, ISE, 'load(%s)' % ', '.join(kw))
            text = w.I.str_(exc)
            for h in (h1, h2):
                w.check(str_has(text, h), 'load(%s): the message %s names '
                        'not both hashes' % (', '.join(kw), w.sh(text)))
    add('message', 'the error names the required and the found hash',
        message)
    return {}


def str_has(t, part):
    if t == part:
        return True
    if isinstance(t, SStr):
        return any(p == part or (isinstance(p, str) and isinstance(part, str)
                                 and part in p) or
                   (isinstance(p, Term) and any(str_has(a, part)
                                                for a in p.args))
                   for p in t.parts)
    if isinstance(t, Term):
        return any(str_has(a, part) for a in t.args)
    return isinstance(t, str) and isinstance(part, str) and part in t


# ------------------------------------------------------------------- C24
def c24(add, thorough, src):
    for b in FILE_BACKENDS:
        def exists(w, b=b):
            desc = Comp(a=leaf_desc('String'))
            spec = {'a': 'text'}
            for n, existing in enumerate(FILE_BACKENDS + (
                    'foreign', 'dir', 'text', 'link', 'link to dir')):
                for explicit in (False, True):
                    for ext in EXT[b] + (('.dat',) if explicit else ()):
                        path = sstr([w.dir, '/e%d%d%s' % (n, explicit,
                                                          ext)])
                        w.I.fs.files.clear()
                        w.I.fs.dirs.clear()
                        w.I.fs.links.clear()
                        if existing.startswith('link'):
                            w.I.fs.links.add(key(w, path))
                        if existing.endswith('dir'):
                            w.I.fs.dirs.add(key(w, path))
                        elif existing == 'link':
                            put_file(w, path)
                        elif existing == 'foreign':
                            put_file(w, path)
                        elif existing == 'text':
                            put_file(w, path, DataContent([]))
                        else:
                            st0 = w.create(path, w.mk(desc), existing)
                            w.fill(w.attr(st0, 'data'), desc, spec)
                            w.call(st0, 'save')
                        inm = w.create('::inmem::', w.mk(desc))
                        w.fresh()
                        check_refused(w, b, path, desc, existing, explicit,
                                      inm)
                        if existing in FILE_BACKENDS:
                            st0 = w.load(path, backend=existing)
                            w.expect_dump(w.attr(st0, 'data'), desc, spec,
                                          '%s: the existing storage' % b)
        add('exists:%s' % b, 'creating at an existing path raises '
            'FileExistsError and leaves it alone', exists)

        def named(w, b=b):
            desc = Comp(a=leaf_desc('String'))
            for n, name in enumerate((
                    '.hidden', '_x', '~x', 'x~', 'a b', ' a', 'a.b', 'a..b',
                    'tmp', 'X', '\u00e4', '-x', '#x#', 'sub/.x', '.d/x',
                    'x.npz', 'x.h5', 'x.mat', 'x.bak', 'x.tmp', '0',
                    'n' * 200)):
                for ext in EXT[b]:
                    path = sstr([w.dir, '/' + name + ext])
                    for d in ('sub', '.d'):
                        w.I.fs.dirs.add(key(w, sstr([w.dir, '/' + d])))
                    put_file(w, path, DataContent([]))
                    inm = w.create('::inmem::', w.mk(desc))
                    w.fresh()
                    check_refused(w, b, path, desc, 'file', False, inm)
        add('named:%s' % b, 'creating at an existing path raises '
            'FileExistsError, whatever the name', named)

        def missing(w, b=b):
            desc = Comp(a=leaf_desc('String'))
            h = w.call(w.mk(desc), 'hash')
            for explicit in (False, True):
                for i, ext in enumerate(EXT[b] + (('.dat', '')
                                                  if explicit else ())):
                    for name in ('m', 'sub/m'):
                        path = sstr([w.dir, '/%s%s' % (name, ext)])
                        for kw in ({}, {'force': True},
                                   {'required_schema': w.mk(desc)},
                                   {'required_schema_hash': h}):
                            kw = dict(kw)
                            if explicit:
                                kw['backend'] = b
                            before = w.files()
                            since = len(w.I.effects)
                            what = '%s: load(%s) of the missing %s' % (
                                b, ', '.join(kw), w.sh(path))
                            w.expect_exc(w.raises(w.load, path, **kw),
                                         'FileNotFoundError', what)
                            w.check(not w.writes(since), what + ': writes')
                            w.expect_files(before, what)
        add('missing:%s' % b, 'loading a missing path raises '
            'FileNotFoundError and creates nothing', missing)

        def neighbour(w, b=b):
            """a file with a similar name is another file"""
            desc = Comp(a=leaf_desc('String'))
            for near in FILE_BACKENDS:
                for ext in EXT[near]:
                    w.I.fs.files.clear()
                    st = w.create(sstr([w.dir, '/m' + ext]), w.mk(desc))
                    w.fill(w.attr(st, 'data'), desc, {'a': 'near'})
                    w.call(st, 'save')
                    w.fresh()
                    for name in ('m', 'm.dat', 'm.', 'M' + ext, ' m' + ext,
                                 'm' + ext + ext, 'm' + ext + '.bak',
                                 'n' + ext, 'm' + ext[:-1]):
                        path = sstr([w.dir, '/' + name])
                        before, since = w.files(), len(w.I.effects)
                        what = '%s: load of the missing %s beside m%s' % (
                            b, w.sh(path), ext)
                        for kw in ({}, {'force': True}):
                            w.expect_exc(w.raises(
                                w.load, path, backend=b, **kw),
                                'FileNotFoundError', what)
                        w.check(not w.writes(since), what + ': writes')
                        w.expect_files(before, what)
        add('neighbour:%s' % b, 'only the very path is loaded', neighbour)

        def again(w, b=b):
            """after creating and saving, creating again is refused"""
            desc = Comp(a=leaf_desc('String'), l=Lst(leaf_desc('Bool')))
            sto, data = w.new(b, desc)
            w.fill(data, desc, {'a': 'x', 'l': [True]})
            w.call(sto, 'save')
            for node in (desc, leaf_desc('Bool'), Lst(leaf_desc('Bool'))):
                for explicit in (False, True):
                    check_refused(w, b, w.path(b), node, 'own', explicit,
                                  sto)
            # also via another storage
            inm, d2 = w.new('inmem', desc)
            check_refused(w, b, w.path(b), desc, 'own', False, inm)
            w.call(sto, 'save')
            w.fresh()
            st2 = w.load(w.path(b))
            w.expect_dump(w.attr(st2, 'data'), desc, {'a': 'x',
                                                      'l': [True]},
                          b + ': after refused creations')
        add('again:%s' % b, 'a saved storage is not overwritten by creating '
            'again', again)

    def check_refused(w, b, path, desc, existing, explicit, source):
        node = w.mk(desc)
        mod = 'dsch.backends.' + b
        calls = [('create', lambda: w.create(path, node, b) if explicit
                  else w.create(path, node)),
                 ('create_from', lambda: w.fn(
                     'dsch.frontend', 'create_from', path, source, b)
                  if explicit else w.fn('dsch.frontend', 'create_from', path,
                                        source)),
                 ('save_as', lambda: w.call(source, 'save_as', path, b)
                  if explicit else w.call(source, 'save_as', path)),
                 ('Storage', lambda: w.fn(mod, 'Storage', path, node))]
        for name, f in calls:
            before, since = w.files(), len(w.I.effects)
            what = '%s: %s at %s, where a %s exists' % (
                b, name, w.sh(path), existing)
            w.expect_exc(w.raises(f), 'FileExistsError', what)
            wr = w.writes(since)
            w.check(not wr, what + ': writes')
            w.expect_files(before, what)
    return {}


# ------------------------------------------------------------------- C25
def c25(add, thorough, src):
    def paths(w):
        """path -> backend or None"""
        out = []
        stem = Term('in', ('stem',), 'str', truth=True)

        def p(*parts):
            return sstr(list(parts))
        for ext, b in (('.npz', 'npz'), ('.h5', 'hdf5'), ('.hdf5', 'hdf5'),
                       ('.mat', 'mat')):
            for first in ((w.dir, '/f'), (stem,), (w.dir, '/', stem),
                          ('f',), ('./f',), ('',), ('a.b',), ('a/b.c/d',),
                          ('x.npz',), ('x.h5',), ('x.mat',), ('x.hdf5',),
                          ('::inmem::',), (w.dir, '/.'), ('x ',), ('npz',),
                          ('inmem',), ('X.MAT',)):
                out.append((p(*first, ext), b))
        for t in ('', 'f', 'npz', 'h5', 'mat', 'hdf5', 'inmem', 'f.npy',
                  'f.hdf', 'f.h', 'f.5', 'f.npzz', 'f.h55', 'f.mat.bak',
                  'f.npz~', 'f.h5/', 'f.NPZ', 'f.H5', 'f.HDF5', 'f.Mat',
                  'f.npz ', 'f_npz', 'fnpz', 'fh5', 'fmat', 'fhdf5',
                  '::inmem', ':inmem:', '::INMEM::', ' ::inmem::',
                  '::inmem:: ', 'x::inmem::', '::inmem::x', 'f.txt',
                  'f.npz.gz', 'f.h5.tmp', '.', '..', 'npz.f', '.npz.f',
                  'f.h4', 'f.json', 'a.npz/f', 'a.h5/f', 'a.mat/f.dat',
                  'f.mat5', 'f.hdf4', 'f.hdf55', '::npz::', '::mat::',
                  '::hdf5::', 'f.inmem', 'x/::inmem::', './::inmem::',
                  '/::inmem::', '::inmem::/', '::inmem::/x', '::inmem::.x',
                  '::inmem::\n', '::inmem::::inmem::', ':: inmem ::'):
            out.append((t, None))
        out.append((p(w.dir, '/::inmem::'), None))
        for t in ('.dat', '.npz.dat', '::inmem::', '/f'):
            out.append((p(w.dir, '/', stem, t), None))
        out.append(('::inmem::', 'inmem'))
        return out

    def expect_create(w, path, explicit, want, what):
        w.I.fs.files.clear()
        node = w.S('Bool')
        r, exc = w.attempt(w.create, path, node, explicit) if explicit \
            else w.attempt(w.create, path, node)
        if want is None:
            w.expect_exc(exc, 'AutodetectBackendError', what)
            w.check(not w.I.fs.files, what + ': creates a file')
            return
        w.no_exc(exc, what)
        w.expect_same(backend_of(w, r), want, what + ': backend')
        w.expect_same(w.attr(r, 'storage_path'), path, what + ': path')
        w.check(w.attr(r, 'schema_node') is node, what + ': schema')

    def auto(w):
        for path, want in paths(w):
            expect_create(w, path, None, want, 'create(%s)' % w.sh(path))
            node = w.S('Bool')
            w.I.fs.files.clear()
            exc = w.raises(w.fn, 'dsch.frontend', 'create', path, node,
                           backend=None)
            if want is None:
                w.expect_exc(exc, 'AutodetectBackendError',
                             'create(%s, backend=None)' % w.sh(path))
            else:
                w.no_exc(exc, 'create(%s, backend=None)' % w.sh(path))
    add('create:auto', 'create() picks the backend by the path ending',
        auto)

    def autoload(w):
        for path, want in paths(w):
            w.I.fs.files.clear()
            what = 'load(%s)' % w.sh(path)
            if want is None:
                # the same with and without an existing file
                for there in (False, True):
                    if there:
                        if path in ('', '.', '..') or isinstance(
                                path, str) and path.endswith('/'):
                            continue
                        put_file(w, path)
                    w.expect_exc(w.raises(w.load, path),
                                 'AutodetectBackendError', what)
                    w.expect_exc(w.raises(w.load, path, backend=None),
                                 'AutodetectBackendError', what)
            elif want == 'inmem':
                w.expect_exc(w.raises(w.load, path), 'ValueError', what)
            else:
                w.expect_exc(w.raises(w.load, path), 'FileNotFoundError',
                             what)
                st = w.create(path, w.S('Bool'))
                w.call(w.attr(st, 'data'), 'replace', True)
                w.call(st, 'save')
                r, exc = w.attempt(w.load, path)
                w.no_exc(exc, what)
                w.expect_same(backend_of(w, r), want, what + ': backend')
                w.expect_same(w.attr(r, 'storage_path'), path,
                              what + ': path')
                w.expect_same(w.attr(w.attr(r, 'data'), 'value'), True,
                              what + ': data')
    add('load:auto', 'load() picks the same backend as create()', autoload)

    for b in BACKENDS:
        def explicit(w, b=b):
            for path, auto_ in paths(w):
                if path in ('', '.', '..') or isinstance(
                        path, str) and path.endswith('/'):
                    continue        # no file can have such a name
                what = '%s given for %s' % (b, w.sh(path))
                if b == 'inmem':
                    w.I.fs.files.clear()
                    r, exc = w.attempt(w.create, path, w.S('Bool'), b)
                    if auto_ == 'inmem':
                        w.no_exc(exc, what)
                        w.expect_same(backend_of(w, r), b,
                                      what + ': backend')
                    else:
                        w.expect_exc(exc, 'ValueError', what)
                    continue
                expect_create(w, path, b, b, 'create: ' + what)
                st = w.fn('dsch.frontend', 'create', sstr([path, '2'])
                          if not isinstance(path, str) else path + '2',
                          w.S('Bool'), backend=b)
                w.expect_same(backend_of(w, st), b, what + ': backend')
                w.I.fs.files.clear()
                st = w.create(path, w.S('Bool'), b)
                w.call(st, 'save')
                r, exc = w.attempt(w.load, path, backend=b)
                w.no_exc(exc, 'load: ' + what)
                w.expect_same(backend_of(w, r), b, what + ': backend')
                w.expect_same(w.attr(r, 'storage_path'), path,
                              what + ': path')
                r, exc = w.attempt(w.fn, 'dsch.frontend', 'load', path, b)
                w.no_exc(exc, 'load: ' + what)
        add('explicit:%s' % b, 'an explicitly given backend is used',
            explicit)

    def anypath(w, how):
        """an unknown path: every way the program can tell paths apart"""
        p = Term('in', ('path',), 'str', truth=True)
        if how == 'create':
            r, exc = w.attempt(w.create, p, w.S('Bool'))
        else:
            r, exc = w.attempt(w.load, p)
        hits = []
        if w.I.truth(w.I.compare('==', p, '::inmem::')):
            hits.append('inmem')
        for ext, b in (('.npz', 'npz'), ('.h5', 'hdf5'), ('.hdf5', 'hdf5'),
                       ('.mat', 'mat')):
            if w.I.libs.str_endswith(w.I, p, ext):
                hits.append(b)
        what = '%s() of a path that %s' % (how, 'belongs to ' + hits[0]
                                           if hits else 'has no known '
                                           'ending')
        if len(hits) > 1:
            return                      # not possible for any string
        if not hits:
            w.expect_exc(exc, 'AutodetectBackendError', what)
        elif how == 'load':
            w.expect_exc(exc, 'ValueError' if hits == ['inmem'] else
                         'FileNotFoundError', what)
        else:
            w.no_exc(exc, what)
            w.expect_same(backend_of(w, r), hits[0], what + ': backend')
            w.expect_same(w.attr(r, 'storage_path'), p, what + ': path')
    for how in ('create', 'load'):
        add('anypath:' + how, 'for an arbitrary path only the special name '
            'and the ending count', lambda w, how=how: anypath(w, how))

    def copies(w):
        """create_from and save_as use the same choice"""
        src_, d = w.new('inmem', leaf_desc('Bool'))
        for path, want in paths(w):
            w.I.fs.files.clear()
            for name, f in (('create_from', lambda p: w.fn(
                    'dsch.frontend', 'create_from', p, src_)),
                    ('save_as', lambda p: w.call(src_, 'save_as', p))):
                w.I.fs.files.clear()
                r, exc = w.attempt(f, path)
                what = '%s(%s)' % (name, w.sh(path))
                if want is None:
                    w.expect_exc(exc, 'AutodetectBackendError', what)
                else:
                    w.no_exc(exc, what)
                    w.expect_same(backend_of(w, r), want, what + ': backend')
                    w.expect_same(w.attr(r, 'storage_path'), path,
                                  what + ': path')
    add('copies', 'create_from and save_as choose the same way', copies)
    return {}


# ------------------------------------------------------------------- C26
def c26(add, thorough, src):
    ENDS = ('.h5', '.hdf5', '.npz', '.mat', '.dat', '', '.npz.bak', '.mat~',
            '.H5', '.MAT', '.NPZ', '.', '.np', '.tmp', '.npy')
    for b in FILE_BACKENDS:
        for end in ENDS:
            def exact(w, b=b, end=end):
                desc = Comp(a=leaf_desc('String'), l=Lst(leaf_desc('Bool')))
                top = leaf_desc('Scalar')
                for k, first in enumerate(((w.dir, '/f'), ('f',),
                                           (w.dir, '/a.b'),
                                           (w.dir, '/', Term(
                                               'in', ('stem',), 'str',
                                               truth=True)))):
                    for d, spec in ((desc, {'a': 'x', 'l': [True]}),
                                    (top, NpS(dt('float64'), 1.5)),
                                    (desc, {})):
                        one(w, b, sstr(list(first) + ['x' + end]), d, spec)
            add('path:%s:%s' % (b, end or 'none'), 'exactly the given path '
                'is written and read', exact)

    FORMS = ('./f', './/f', 'f/../g', 'd//f', 'd/./f', 'd/../f', '../f',
             '~/f', '~', '~f', '$HOME/f', '${HOME}/f', '%HOME%/f', 'f ',
             ' f', 'F', 'f\n', 'f#x', 'f?x=1', 'file:///f', 'f*', '[f]',
             'd\\f', '/f', '//f', '\u00e9', 'e\u0301', '-f', '.f', 'f%20')
    for b in FILE_BACKENDS:
        def forms(w, b=b):
            for f in FORMS:
                for end in ('', EXT[b][0]):
                    one(w, b, f + end, leaf_desc('String'), 'text')
                    if not f.startswith(('/', '~', 'file')):
                        one(w, b, sstr([w.dir, '/', f + end]),
                            leaf_desc('String'), 'text')
        add('forms:' + b, 'a path is taken as it is, however it is written',
            forms)

    def one(w, b, path, desc, spec):
        w.I.fs.files.clear()
        decoys = {}
        for suffix in ('.npz', '.mat', '.h5', '.tmp', '~', '.bak', '.hdf5',
                       '.npy', '.lock'):
            p = sstr([path, suffix])
            if p != path:
                decoys[key(w, p)] = put_file(w, p)
        for p in ('f', 'data', 'tmp'):
            if key(w, p) != key(w, path):
                decoys[key(w, p)] = put_file(w, p)
        before = {k: e.content for k, e in decoys.items()}
        since = len(w.I.effects)
        what = '%s storage at %s' % (b, w.sh(path))

        def only(when):
            w.checks += 1
            for k in w.I.fs.files:
                if k != key(w, path) and k not in decoys:
                    w.fail('%s: %s creates %s' % (what, when, w.sh(k)))
            for k in decoys:
                if k not in w.I.fs.files:
                    w.fail('%s: %s deletes %s' % (what, when, w.sh(k)))
                if w.I.fs.files[k].content is not before[k]:
                    w.fail('%s: %s changes %s' % (what, when, w.sh(k)))
            for e in w.I.effects[since:]:
                if e[0] == 'read' and e[1] in decoys:
                    w.fail('%s: %s reads %s' % (what, when, w.sh(e[1])),
                           e[3])

        sto = w.create(path, w.mk(desc), b)
        only('creating')
        w.expect_same(w.attr(sto, 'storage_path'), path, what + ': path')
        set_spec(w, w.attr(sto, 'data'), desc, spec)
        w.call(sto, 'save')
        only('saving')
        w.check(key(w, path) in w.I.fs.files, what + ': after saving, the '
                'file does not exist')
        w.check(getattr(content_at(w, path), 'fmt', None) == b,
                what + ': after saving, the file contains no %s data' % b)
        w.expect_same(w.attr(sto, 'storage_path'), path,
                      what + ': path after saving')
        w.call(sto, 'save')
        only('saving again')
        for i in range(2):
            st2 = w.load(path, backend=b)
            only('loading')
            w.expect_same(w.attr(st2, 'storage_path'), path,
                          what + ': path after loading')
            w.expect_dump(w.attr(st2, 'data'), desc, spec, what + ' loaded')
            w.call(st2, 'save')
            only('saving after loading')
            w.fresh()

    def several(w):
        """storages at similar paths stay apart"""
        desc = leaf_desc('String')
        for b in FILE_BACKENDS:
            w.I.fs.files.clear()
            ps = [sstr([w.dir, '/' + n]) for n in (
                'f', 'f.npz', 'f.mat', 'f.h5', 'f.npz.npz', 'f.mat.mat',
                'g/f', 'F', 'f.h5.h5', 'f.')]
            for rev in (False, True):
                w.I.fs.files.clear()
                order = ps[::-1] if rev else ps
                stos = []
                for i, p in enumerate(order):
                    st, exc = w.attempt(w.create, p, w.mk(desc), b)
                    w.no_exc(exc, '%s: create(%s)' % (b, w.sh(p)))
                    w.call(w.attr(st, 'data'), 'replace', 'text%d' % i)
                    stos.append(st)
                for st in stos:
                    w.call(st, 'save')
                w.fresh()
                for i, p in enumerate(order):
                    st = w.load(p, backend=b)
                    w.expect_same(w.attr(w.attr(st, 'data'), 'value'),
                                  'text%d' % i, '%s: %s' % (b, w.sh(p)))
                w.check(len(w.I.fs.files) == len(ps), '%s: %d files for %d '
                        'storages' % (b, len(w.I.fs.files), len(ps)))
    add('several', 'storages at similar paths do not touch each other',
        several)

    def auto(w):
        for b in FILE_BACKENDS:
            for ext in EXT[b]:
                w.I.fs.files.clear()
                p = sstr([w.dir, '/auto' + ext])
                sto = w.create(p, w.mk(leaf_desc('Bool')))
                w.call(w.attr(sto, 'data'), 'replace', True)
                w.call(sto, 'save')
                w.check(list(w.I.fs.files) == [key(w, p)],
                        '%s: saving to %s creates %s' % (
                            b, w.sh(p), [w.sh(x) for x in w.I.fs.files]))
                w.expect_same(w.attr(w.load(p), 'storage_path'), p,
                              '%s: storage_path' % b)
    add('auto', 'also with automatically chosen backends', auto)
    return {}


# ------------------------------------------------------------- C27, C28
def pseudo(w, ds, node, **k):
    return w.fn('dsch.frontend', 'PseudoStorage', ds, node, **k)


def expect_closed(w, ps, what):
    for n in ('data', 'storage', 'schema_node'):
        v = w.attr(ps, n)
        w.check(v is None, '%s: %s is %s although the PseudoStorage is '
                'closed' % (what, n, w.sh(v)))


def expect_open(w, ps, data, storage, schema_node, what):
    d, s, n = (w.attr(ps, x) for x in ('data', 'storage', 'schema_node'))
    w.check(isinstance(d, Obj), what + ': data is %s' % w.sh(d))
    if data is not None:
        w.check(d is data, what + ': data is another node')
    if storage is False:
        w.check(s is None, what + ': storage is %s' % w.sh(s))
    else:
        w.check(isinstance(s, Obj) and s.cls.name == 'Storage',
                what + ': storage is %s' % w.sh(s))
        w.check(w.attr(s, 'data') is d,
                what + ': data is not the data of its storage')
    w.check(n is w.attr(d, 'schema_node'), what + ': schema_node is not that '
            'of the data')
    if schema_node is not None:
        w.expect_same(w.call(n, 'hash'), w.call(schema_node, 'hash'),
                      what + ': schema')


def c27(add, thorough, src):
    S = lambda **o: leaf_desc('String', **o)
    MAIN = lambda: Comp(a=S(), l=Lst(leaf_desc('Bool')))
    OTHERS = [lambda: Comp(a=S()), lambda: Comp(a=S(max_length=9), l=Lst(
        leaf_desc('Bool'))), lambda: Lst(S()), lambda: S()]

    def modes(w, f, what):
        """open by the constructor, by open() and by entering"""
        for mode in ('init', 'open', 'enter'):
            yield mode, f, '%s (%s)' % (what, mode)

    def do_open(w, mode, ds, node, **k):
        """(pseudo storage or None, exception)"""
        if mode == 'init':
            return w.attempt(pseudo, w, ds, node, **k)
        ps = pseudo(w, ds, node, defer_open=True, **k)
        expect_closed(w, ps, 'deferred')
        if mode == 'open':
            return ps, w.raises(w.call, ps, 'open')
        r, exc = w.attempt(w.call, ps, '__enter__')
        if exc is None:
            w.check(r is ps, 'entering a PseudoStorage gives %s' % w.sh(r))
        return ps, exc

    for b in BACKENDS:
        for mode in ('init', 'open', 'enter'):
            def new(w, b=b, mode=mode):
                for i, mk in enumerate([MAIN] + OTHERS):
                    desc = mk()
                    for alts in (None, [], [w.mk(OTHERS[0]())]):
                        w.I.fs.files.clear()
                        node = w.mk(desc)
                        path = w.path(b, 'n%d' % i)
                        kw = {} if alts is None else {
                            'schema_alternatives': alts}
                        what = '%s: PseudoStorage of a new path (%s)' % (
                            b, mode)
                        since = len(w.I.effects)
                        ps, exc = do_open(w, mode, path, node, **kw)
                        w.no_exc(exc, what)
                        expect_open(w, ps, None, True, node, what)
                        st = w.attr(ps, 'storage')
                        w.check(w.attr(st, 'schema_node') is node
                                or w.same(w.call(w.attr(
                                    st, 'schema_node'), 'hash'), w.call(
                                        node, 'hash')),
                                what + ': created with another schema')
                        w.expect_same(backend_of(w, st), b,
                                      what + ': backend')
                        w.expect_same(w.attr(st, 'storage_path'), path,
                                      what + ': path')
                        w.expect_dump(w.attr(ps, 'data'), desc,
                                      blank_of(desc), what + ': data')
                        reopen(w, ps, what)
            add('new:%s:%s' % (b, mode), 'a missing path is created with the '
                'given schema', new)

        def similar(w, b=b):
            """alternatives that resemble the hash of the schema"""
            desc = MAIN()
            sto, data = w.new(b, desc)
            if b != 'inmem':
                w.call(sto, 'save')
                w.fresh()
            h = w.call(w.mk(desc), 'hash')
            other = w.call(w.mk(OTHERS[0]()), 'hash')
            for name, x in resembling(w, h, other):
                for alts in ([x], [other, x], [x, other]):
                    for ds in [data] + ([w.path(b)] if b != 'inmem' else []):
                        exc = w.raises(pseudo, w, ds, w.mk(OTHERS[1]()),
                                       schema_alternatives=alts)
                        w.expect_exc(exc, ISE, '%s: PseudoStorage with the '
                                     '%s as alternative' % (b, name))
        add('similar:%s' % b, 'only the very hash of the schema is accepted',
            similar)

        def node(w, b=b):
            inner = MAIN()
            outer = Comp(p=inner, q=Lst(inner), r=S())
            sto, data = w.new(b, outer)
            w.call(w.attr(data, 'q'), 'append')
            for mode in ('init', 'open', 'enter'):
                for path in (('p',), ('q', 0)):
                    nd = at(w, data, path)
                    what = '%s: PseudoStorage of node %s (%s)' % (b, path,
                                                                  mode)
                    # the given schema, or an alternative in any position
                    good = w.mk(inner)
                    h = w.call(good, 'hash')
                    bad = [w.mk(o()) for o in OTHERS]
                    hb = [w.call(n, 'hash') for n in bad]
                    for main, alts, ok in (
                            (good, None, True), (good, [bad[0]], True),
                            (good, [], True), (bad[0], [good], True),
                            (bad[0], [h], True),
                            (bad[0], [bad[1], good], True),
                            (bad[0], [good, bad[1]], True),
                            (bad[0], [bad[1], bad[2], h], True),
                            (bad[0], [h, bad[1], hb[2]], True),
                            (bad[0], [hb[1], h, bad[2]], True),
                            (bad[0], (hb[1], good), True),
                            (bad[0], None, False), (bad[0], [], False),
                            (bad[0], [bad[0]], False),
                            (bad[0], [hb[1], bad[2], hb[3]], False),
                            (bad[1], [bad[0], bad[2]], False)):
                        kw = {} if alts is None else {
                            'schema_alternatives': alts}
                        before, since = w.files(), len(w.I.effects)
                        dump = w.dump(data, outer)
                        ps, exc = do_open(w, mode, nd, main, **kw)
                        wh = what + ', %s' % (
                            'accepted' if ok else 'rejected')
                        if ok:
                            w.no_exc(exc, wh)
                            expect_open(w, ps, nd, False, good, wh)
                            reopen(w, ps, wh)
                        else:
                            w.expect_exc(exc, ISE, wh)
                            if ps is not None:
                                expect_closed(w, ps, wh)
                        w.check(not w.writes(since), wh + ': writes')
                        w.expect_files(before, wh)
                        w.expect_state(w.dump(data, outer), dump,
                                       wh + ': the data')
        add('node:%s' % b, 'a data node is used without a storage if its '
            'schema is accepted', node)

        def topnode(w, b=b):
            for kind in ('String', 'Compilation', 'List'):
                d = {'String': S(), 'Compilation': MAIN(),
                     'List': Lst(S())}[kind]
                sto, data = w.new(b, d, kind)
                for mode in ('init', 'open', 'enter'):
                    what = '%s: PseudoStorage of a top-level %s (%s)' % (
                        b, kind, mode)
                    ps, exc = do_open(w, mode, data, w.mk(d))
                    w.no_exc(exc, what)
                    expect_open(w, ps, data, False, None, what)
                    for other in (leaf_desc('Bool'), S(max_length=1),
                                  Comp(z=S()), Lst(leaf_desc('Bool')),
                                  leaf_desc('Array')):
                        for alts in ([w.mk(d)], [w.call(w.mk(d), 'hash')],
                                     [w.mk(other), w.mk(d)],
                                     (w.mk(leaf_desc('Date')), w.mk(d))):
                            ps, exc = do_open(w, mode, data, w.mk(other),
                                              schema_alternatives=alts)
                            wh = what + ' that is an alternative of %r' % (
                                other,)
                            w.no_exc(exc, wh)
                            expect_open(w, ps, data, False, None, wh)
                    ps, exc = do_open(w, mode, data, w.mk(leaf_desc('Bool')))
                    w.expect_exc(exc, ISE, what + ' with another schema')
                    if ps is not None:
                        expect_closed(w, ps, what + ' with another schema')
        add('top:%s' % b, 'top-level and leaf nodes can be used, too',
            topnode)

        if b == 'inmem':
            continue
        for mode in ('init', 'open', 'enter'):
            def load(w, b=b, mode=mode):
                desc = MAIN()
                spec = {'a': 'text', 'l': [True, False]}
                sto, data = w.new(b, desc)
                w.fill(data, desc, spec)
                w.call(sto, 'save')
                w.fresh()
                good = w.mk(desc)
                h = w.call(good, 'hash')
                bad = [w.mk(o()) for o in OTHERS]
                hb = [w.call(n, 'hash') for n in bad]
                for main, alts, ok in (
                        (good, None, True), (good, [], True),
                        (good, [bad[0], hb[1]], True),
                        (bad[0], [good], True), (bad[0], [h], True),
                        (bad[1], [bad[0], h], True),
                        (bad[1], [hb[0], bad[2], good], True),
                        (bad[1], [good, hb[0], bad[2]], True),
                        (bad[1], (h,), True),
                        (bad[0], None, False), (bad[1], None, False),
                        (bad[0], [], False), (bad[0], [bad[1]], False),
                        (bad[0], [hb[1], bad[2], hb[3]], False)):
                    kw = {} if alts is None else {
                        'schema_alternatives': alts}
                    before, since = w.files(), len(w.I.effects)
                    what = '%s: PseudoStorage of an existing path (%s), %s' \
                        % (b, mode, 'accepted' if ok else 'rejected')
                    ps, exc = do_open(w, mode, w.path(b), main, **kw)
                    if ok:
                        w.no_exc(exc, what)
                        expect_open(w, ps, None, True, good, what)
                        w.expect_dump(w.attr(ps, 'data'), desc, spec, what)
                        w.expect_same(w.attr(w.attr(ps, 'storage'),
                                             'storage_path'), w.path(b),
                                      what + ': path')
                        reopen(w, ps, what)
                    else:
                        w.expect_exc(exc, ISE, what)
                        if ps is not None:
                            expect_closed(w, ps, what)
                    w.check(not w.writes(since), what + ': writes')
                    w.expect_files(before, what)
            add('load:%s:%s' % (b, mode), 'an existing path is loaded if its '
                'schema is accepted', load)

            def invalid(w, b=b, mode=mode):
                for k, (desc, spec, ok) in enumerate(invalid_cases(w)):
                    name = 'i%d' % k
                    sto, data = w.new(b, desc, name)
                    set_spec(w, data, desc, spec)
                    w.call(sto, 'save', force=True)
                    w.fresh()
                    good, bad = w.mk(desc), w.mk(Comp(other=S()))
                    h = w.call(good, 'hash')
                    for main, alts in ((good, None), (good, []),
                                       (good, [bad]), (bad, [good]),
                                       (bad, [h]), (good, [good, h])):
                        kw = {} if alts is None else {
                            'schema_alternatives': alts}
                        ps, exc = do_open(w, mode, w.path(b, name), main,
                                          **kw)
                        what = '%s: PseudoStorage of %r as %s (%s), ' \
                            'alternatives %s' % (b, desc, w.sh(spec), mode,
                                                 alts and len(alts))
                        if ok:
                            w.no_exc(exc, what)
                            continue
                        w.checks += 1
                        if not is_validation_error(w, exc):
                            w.fail('%s: a validation error is expected, but '
                                   '%s' % (what, w.exc_text(exc)))
                        if ps is not None:
                            expect_closed(w, ps, what)
            add('invalid:%s:%s' % (b, mode), 'loading validates the data',
                invalid)

        def states(w, b=b):
            """closed and rejected ones can be opened later"""
            desc = MAIN()
            good, bad = w.mk(desc), w.mk(OTHERS[0]())
            sto = w.create(w.path(b), w.mk(OTHERS[0]()))
            w.call(sto, 'save')
            ps = pseudo(w, w.path(b), good, defer_open=True)
            for i in range(2):
                w.expect_exc(w.raises(w.call, ps, 'open'), ISE,
                             b + ': other schema in the file')
                expect_closed(w, ps, b + ': rejected')
            w.no_exc(w.raises(w.call, ps, 'close'), b + ': close() after a '
                     'rejected open()')
            w.I.fs.files.clear()
            w.no_exc(w.raises(w.call, ps, 'open'), b + ': open() without '
                     'the file')
            expect_open(w, ps, None, True, good, b + ': opened')
        add('states:%s' % b, 'a rejected PseudoStorage stays closed and '
            'usable', states)

    def reopen(w, ps, what):
        old = [w.attr(ps, n) for n in ('data', 'storage', 'schema_node')]
        before, since = w.files(), len(w.I.effects)
        for i in range(2):
            w.expect_exc(w.raises(w.call, ps, 'open'), 'RuntimeError',
                         what + ': open() while open')
            for n, v in zip(('data', 'storage', 'schema_node'), old):
                w.check(w.attr(ps, n) is v, '%s: open() while open changes '
                        '%s' % (what, n))
        w.check(not w.writes(since), what + ': open() while open writes')
        w.expect_files(before, what + ': open() while open')
        # entering an open one keeps it
        r, exc = w.attempt(w.call, ps, '__enter__')
        w.no_exc(exc, what + ': entering while open')
        w.check(r is ps, what + ': entering returns something else')
        for n, v in zip(('data', 'storage', 'schema_node'), old):
            w.check(w.attr(ps, n) is v, '%s: entering while open changes %s'
                    % (what, n))

    def choice(w):
        """which of load and create: only whether the path exists"""
        desc = MAIN()
        for b in FILE_BACKENDS:
            for ext in EXT[b]:
                path = sstr([w.dir, '/c' + ext])
                ps = pseudo(w, path, w.mk(desc))
                w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace', 'first')
                w.call(ps, 'close')
                w.check(key(w, path) in w.I.fs.files, '%s: nothing saved at '
                        '%s' % (b, w.sh(path)))
                ps2 = pseudo(w, path, w.mk(desc))
                w.expect_same(w.attr(w.attr(w.attr(ps2, 'data'), 'a'),
                                     'value'), 'first',
                              '%s: reopened %s' % (b, w.sh(path)))
        for path in ('nothing', sstr([w.dir, '/x.dat'])):
            ps = pseudo(w, path, w.mk(desc), defer_open=True)
            before = w.files()
            w.expect_exc(w.raises(w.call, ps, 'open'),
                         'AutodetectBackendError', 'PseudoStorage(%s)'
                         % w.sh(path))
            expect_closed(w, ps, 'PseudoStorage(%s)' % w.sh(path))
            w.expect_files(before, 'PseudoStorage(%s)' % w.sh(path))
    add('choice', 'the path decides between loading and creating', choice)
    return {}


def c28(add, thorough, src):
    S = lambda **o: leaf_desc('String', **o)
    DESC = lambda: Comp(a=S(max_length=5), l=Lst(leaf_desc('Bool')))

    def how_close(w, ps, how):
        """close, leave, or leave with an exception; returns exception"""
        if how == 'close':
            return w.raises(w.call, ps, 'close')
        if how == 'exit':
            r, exc = w.attempt(w.call, ps, '__exit__', None, None, None)
            return exc
        if how.startswith('dsch.'):
            cls = w.get('dsch.exceptions', how[5:])
            args = {'ValidationError': ['m', 1, 2],
                    'AutodetectBackendError': ['p'], 'NodeEmptyError': [],
                    'IncompatibleNodesError': ['a', 'b'],
                    'InvalidSchemaError': ['a', 'b']}.get(how[5:], ['x'])
            e, bad = w.attempt(w.I.call, cls, args, {})
            if bad is not None:
                raise Unsupported('constructor of ' + how)
        else:
            cls = w.I.exc_classes[how]
            e = w.I.call(cls, ['message'], {})
        r, exc = w.attempt(w.call, ps, '__exit__', cls, e, None)
        if exc is None:
            w.check(not w.I.truth(r), 'leaving a PseudoStorage suppresses '
                    '%s of the body' % how)
        return exc

    HOW = ('close', 'exit', 'RuntimeError', 'KeyError', 'ValueError',
           'FileNotFoundError', 'KeyboardInterrupt', 'SystemExit',
           'GeneratorExit', 'AttributeError', 'StopIteration',
           'dsch.DschError', 'dsch.ValidationError', 'dsch.NodeEmptyError',
           'dsch.ResetSubnodeError', 'dsch.InvalidSchemaError',
           'dsch.SubnodeValidationError', 'dsch.AutodetectBackendError',
           'dsch.IncompatibleNodesError')

    for b in BACKENDS:
        for how in HOW:
            def close(w, b=b, how=how):
                desc = DESC()
                states = [{}, {'a': 'text'}, {'a': '', 'l': [True, False]}]
                for k, spec in enumerate(states):
                    for old in (False, True) if b != 'inmem' else (False,):
                        path = w.path(b, 'c%d%d' % (k, old))
                        if old:
                            st, data = w.new(b, desc, 'c%d1' % k)
                            w.fill(data, desc, {'a': 'old'})
                            w.call(st, 'save')
                            w.fresh()
                        what = '%s: PseudoStorage of %s path, %s' % (
                            b, 'an existing' if old else 'a new', how)
                        ps = pseudo(w, path, w.mk(desc),
                                    defer_open=how != 'close')
                        if how != 'close':
                            w.call(ps, '__enter__')
                        data = w.attr(ps, 'data')
                        w.call(data, 'clear')
                        w.fill(data, desc, spec)
                        n, since = versions(w, path), len(w.I.effects)
                        w.no_exc(how_close(w, ps, how), what)
                        expect_closed(w, ps, what)
                        if b == 'inmem':
                            w.check(not w.writes(since), what + ': writes')
                        else:
                            m = versions(w, path) - n
                            w.check(m >= 1, what + ': does not save')
                            w.check(m == 1 or b == 'hdf5', '%s: saves %d '
                                    'times' % (what, m))
                            w.fresh()
                            st = w.load(path)
                            w.expect_dump(w.attr(st, 'data'), desc, spec,
                                          what + ': saved data')
                        # nothing more happens when it is closed
                        before, since = w.files(), len(w.I.effects)
                        for h2 in ('close', 'exit', 'KeyError'):
                            w.no_exc(how_close(w, ps, h2),
                                     what + ', then closed again')
                            expect_closed(w, ps, what + ', closed again')
                        w.check(not w.writes(since), what + ', then closed '
                                'again: writes')
                        w.expect_files(before, what + ', closed again')
            add('close:%s:%s' % (b, how), 'closing saves once and resets '
                'everything; exceptions are not suppressed', close)

            def node(w, b=b, how=how):
                outer = Comp(p=DESC(), q=S())
                sto, data = w.new(b, outer)
                if b != 'inmem':
                    w.call(sto, 'save')
                p = w.attr(data, 'p')
                what = '%s: PseudoStorage of a node, %s' % (b, how)
                for init in (False, True):
                    ps = pseudo(w, p, w.mk(DESC()), defer_open=not init)
                    if not init:
                        w.call(ps, '__enter__')
                    spec = {'p': {'a': 'text', 'l': [True]}}
                    w.call(data, 'clear')
                    w.fill(w.attr(ps, 'data'), DESC(), spec['p'])
                    before, since = w.files(), len(w.I.effects)
                    w.no_exc(how_close(w, ps, how), what)
                    expect_closed(w, ps, what)
                    w.check(not w.writes(since), what + ': saves')
                    w.expect_files(before, what)
                    w.expect_dump(data, outer, spec, what + ': the data')
                    w.no_exc(w.raises(w.call, ps, 'open'), what
                             + ', open() again')
                    expect_open(w, ps, p, False, None, what + ', opened '
                                'again')
                    # invalid data in the node is none of its business
                    w.call(w.attr(p, 'a'), 'replace', 'much too long')
                    w.no_exc(how_close(w, ps, how), what + ', invalid data')
                    expect_closed(w, ps, what + ', invalid data')
                    w.check(not w.writes(since) or b == 'hdf5',
                            what + ': saves')
            add('node:%s:%s' % (b, how), 'a given data node is not saved',
                node)

        if b == 'inmem':
            def inmem(w):
                desc = DESC()
                for how in HOW:
                    ps = pseudo(w, '::inmem::', w.mk(desc))
                    w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace',
                           'much too long')
                    w.no_exc(how_close(w, ps, how), 'inmem: ' + how)
                    expect_closed(w, ps, 'inmem: ' + how)
                    w.call(ps, 'open')
                    expect_open(w, ps, None, True, None, 'inmem: reopened')
                    w.expect_dump(w.attr(ps, 'data'), desc, {},
                                  'inmem: reopened')
            add('inmem', 'storages that cannot be saved are only let go',
                inmem)
            continue

        def validates(w, b=b):
            for k, (desc, spec, ok) in enumerate(invalid_cases(w)):
                for how in ('close', 'exit', 'KeyError'):
                    w.I.fs.files.clear()
                    path = w.path(b)
                    ps = pseudo(w, path, w.mk(desc))
                    set_spec(w, w.attr(ps, 'data'), desc, spec)
                    n, since = versions(w, path), len(w.I.effects)
                    exc = how_close(w, ps, how)
                    what = '%s: closing (%s) %r as %s' % (b, how, desc,
                                                          w.sh(spec))
                    if ok:
                        w.no_exc(exc, what)
                        w.check(versions(w, path) > n, what
                                + ': does not save')
                    else:
                        w.checks += 1
                        if not is_validation_error(w, exc):
                            w.fail('%s: a validation error is expected, '
                                   'but %s' % (what, w.exc_text(exc)))
                        w.check(not w.writes(since),
                                what + ': writes invalid data')
        add('validate:%s' % b, 'saving on close validates', validates)

        def cycles(w, b=b):
            """open, change, close, again and again"""
            desc = DESC()
            path = w.path(b)
            for deferred in (False, True):
                w.I.fs.files.clear()
                ps = pseudo(w, path, w.mk(desc), defer_open=deferred)
                spec = {}
                for i, how in enumerate(('exit', 'close', 'KeyError', 'exit',
                                         'close')):
                    if i or deferred:
                        expect_closed(w, ps, '%s: cycle %d' % (b, i))
                    if i % 2:
                        if i or deferred:
                            w.no_exc(w.raises(w.call, ps, 'open'),
                                     '%s: open() in cycle %d' % (b, i))
                    r, exc = w.attempt(w.call, ps, '__enter__')
                    w.no_exc(exc, '%s: entering in cycle %d' % (b, i))
                    w.check(r is ps, b + ': entering returns something else')
                    expect_open(w, ps, None, True, None, '%s: cycle %d' % (
                        b, i))
                    w.expect_dump(w.attr(ps, 'data'), desc, spec,
                                  '%s: cycle %d: data' % (b, i))
                    spec = {'a': 't%d' % i, 'l': spec.get('l', []) + [
                        i % 2 == 0]}
                    w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace',
                           spec['a'])
                    w.call(w.attr(w.attr(ps, 'data'), 'l'), 'append',
                           i % 2 == 0)
                    w.no_exc(how_close(w, ps, how), '%s: %s in cycle %d' % (
                        b, how, i))
                w.fresh()
                w.expect_dump(w.attr(w.load(path), 'data'), desc, spec,
                              '%s: after all cycles' % b)
        add('cycles:%s' % b, 'it can be reopened any number of times',
            cycles)

        def alternatives(w, b=b):
            """with an alternative schema, the same rules hold"""
            d2 = Comp(a=S())
            sto, data = w.new(b, d2)
            w.call(sto, 'save')
            w.fresh()
            for how in ('close', 'exit', 'KeyError'):
                ps = pseudo(w, w.path(b), w.mk(DESC()),
                            schema_alternatives=[w.mk(d2)])
                w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace', how)
                w.no_exc(how_close(w, ps, how), b + ': alternative schema')
                expect_closed(w, ps, b + ': alternative schema')
                w.fresh()
                w.expect_dump(w.attr(w.load(w.path(b)), 'data'), d2,
                              {'a': how}, b + ': alternative schema saved')
        add('alternatives:%s' % b, 'storages with an alternative schema are '
            'saved, too', alternatives)

    def failed_enter(w):
        """a failing open() leaves it closed and reopenable"""
        for b in FILE_BACKENDS:
            w.I.fs.files.clear()
            st = w.create(w.path(b), w.mk(Comp(z=S())))
            w.call(st, 'save')
            before = w.files()
            ps = pseudo(w, w.path(b), w.mk(DESC()), defer_open=True)
            w.expect_exc(w.raises(w.call, ps, '__enter__'), ISE,
                         b + ': entering with another schema')
            expect_closed(w, ps, b + ': after failing to enter')
            for how in ('close', 'exit', 'KeyError'):
                w.no_exc(how_close(w, ps, how), b + ': closing after failing '
                         'to enter')
            w.expect_files(before, b + ': failing to enter')
    add('failed', 'failing to open leaves nothing to save', failed_enter)
    return {}


# ------------------------------------------------------------------- C29
FS_KINDS = ('create', 'write', 'delete', 'mkdir', 'rename', 'truncate',
            'h5write', 'flush', 'close', 'read')


def c29(add, thorough, src):
    def no_effects(w, since, what):
        w.checks += 1
        for e in w.I.effects[since:]:
            if e[0] in FS_KINDS:
                w.fail('%s: file effect %s on %s' % (what, e[0],
                                                     w.sh(e[1])), e[3])

    for kind in LEAVES:
        def leaf(w, kind=kind):
            d = leaf_desc(kind)
            since = len(w.I.effects)
            for v in w.variants(kind):
                desc = Comp(x=d, l=Lst(d), c=Comp(x=d))
                sto, data = w.new('inmem', desc)
                x = w.val(d, v)
                for p in (('x',), ('c', 'x')):
                    w.call(at(w, data, p), 'replace', x)
                w.call(w.attr(data, 'l'), 'append', x)
                w.call(data, 'validate')
                w.call(sto, 'validate')
                w.call(data, 'node_tree')
                w.attr(sto, 'complete')
                w.call(sto, 'schema_hash')
                if kind == 'Array':
                    w.raises(w.call, w.attr(data, 'x'), 'resize', (2,))
                w.call(data, 'clear')
            no_effects(w, since, 'inmem: %s' % kind)
        add('leaf:' + kind, 'no operation on in-memory nodes touches files',
            leaf)
    for name, desc in state_trees().items():
        def tree(w, desc=desc, name=name):
            since = len(w.I.effects)
            for st in itertools.islice(states_of(desc, (0, 1), (0, 1, 2)),
                                       40):
                spec = realize(w, desc, st, lambda d, s: EMPTY if not s
                               else w.val(d, 0))
                sto, data = w.new('inmem', desc)
                w.fill(data, desc, spec)
                w.expect_dump(data, desc, spec, 'inmem: %r' % desc)
                for p, d, s in nodes_of(desc, spec):
                    node = at(w, data, p)
                    w.attr(node, 'empty')
                    w.attr(node, 'complete')
                    w.call(node, 'validate')
                    w.call(node, 'node_tree')
                s2 = w.call(sto, 'save_as', '::inmem::')
                w.expect_dump(w.attr(s2, 'data'), desc, spec,
                              'inmem: %r copied' % desc)
                s3 = w.fn('dsch.frontend', 'create_from', '::inmem::', s2)
                w.call(w.attr(s3, 'data'), 'clear')
                w.call(w.attr(s3, 'data'), 'load_from', data)
                ps = pseudo(w, data, w.attr(sto, 'schema_node'))
                w.call(ps, 'close')
            no_effects(w, since, 'inmem: %r' % desc)
        add('tree:' + name, 'no operation on in-memory trees touches files',
            tree)

    def rules(w):
        w.mod('dsch.backends.inmem')
        since = len(w.I.effects)
        node = w.S('Bool')
        opaque = Term('in', ('path',), 'str', truth=True)
        bad = ['', 'f', '::inmem', ':inmem:', '::INMEM::', '::inmem:: ',
               ' ::inmem::', 'f.h5', 'f.npz', '::inmem::.npz', '::', 'inmem',
               '::inmem::/f', None, sstr([w.dir, '/::inmem::']),
               sstr([w.dir, '/f'])]
        for p in bad:
            for f, name in ((lambda: w.create(p, node, 'inmem'),
                             'create'),
                            (lambda: w.fn('dsch.backends.inmem', 'Storage',
                                          p, node), 'Storage'),
                            (lambda: w.fn('dsch.backends.inmem', 'Storage',
                                          storage_path=p), 'Storage without '
                             'schema'),
                            (lambda: w.load(p, backend='inmem'), 'load')):
                w.expect_exc(w.raises(f), 'ValueError', 'inmem: %s(%s)' % (
                    name, w.sh(p)))
        for f, name in ((lambda: w.fn('dsch.backends.inmem', 'Storage',
                                      '::inmem::'), 'Storage'),
                        (lambda: w.fn('dsch.backends.inmem', 'Storage',
                                      '::inmem::', None), 'Storage(None)'),
                        (lambda: w.fn('dsch.backends.inmem', 'Storage'),
                         'Storage()'),
                        (lambda: w.create('::inmem::', None), 'create'),
                        (lambda: w.create('::inmem::', None, 'inmem'),
                         'create'),
                        (lambda: w.load('::inmem::'), 'load'),
                        (lambda: w.load('::inmem::', backend='inmem'),
                         'load'),
                        (lambda: w.load('::inmem::', force=True), 'load')):
            w.expect_exc(w.raises(f), 'ValueError', 'inmem: %s without a '
                         'schema' % name)
        for f, name in ((lambda: w.fn('dsch.backends.inmem', 'Storage',
                                      '::inmem::', node), 'Storage'),
                        (lambda: w.fn('dsch.backends.inmem', 'Storage',
                                      schema_node=node,
                                      storage_path='::inmem::'),
                         'Storage'),
                        (lambda: w.fn('dsch.backends.inmem', 'Storage',
                                      schema_node=node), 'Storage with the '
                         'default path'),
                        (lambda: w.create('::inmem::', node), 'create'),
                        (lambda: w.create('::inmem::', node, 'inmem'),
                         'create')):
            r, exc = w.attempt(f)
            w.no_exc(exc, 'inmem: ' + name)
            w.expect_same(w.attr(r, 'storage_path'), '::inmem::',
                          'inmem: path')
            w.check(w.attr(r, 'schema_node') is node, 'inmem: schema')
        no_effects(w, since, 'inmem: creating')
    add('rules', 'the path and the schema are required', rules)

    def anypath(w):
        """every path but the special one"""
        p = Term('in', ('path',), 'str', truth=True)
        node = w.S('Bool')
        r, exc = w.attempt(w.create, p, node, 'inmem')
        special = w.I.truth(w.I.compare('==', p, '::inmem::'))
        if special:
            w.no_exc(exc, 'inmem at the special path')
        else:
            w.expect_exc(exc, 'ValueError', 'inmem at any other path')
    add('anypath', 'any path but ::inmem:: is refused', anypath)

    def pseudo_inmem(w):
        for defer in (False, True):
            since = len(w.I.effects)
            desc = Comp(a=leaf_desc('String'))
            ps = pseudo(w, '::inmem::', w.mk(desc), defer_open=defer)
            w.call(ps, '__enter__')
            w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace', 'x')
            w.call(ps, '__exit__', None, None, None)
            w.no_exc(w.raises(w.call, ps, 'open'), 'inmem: reopened')
            w.expect_dump(w.attr(ps, 'data'), desc, {}, 'inmem: reopened')
            w.call(ps, 'close')
            no_effects(w, since, 'inmem: PseudoStorage')
    add('pseudo', 'also when used by PseudoStorage', pseudo_inmem)
    return {}


# ------------------------------------------------------------------- C30
def inspect_all(w, sto, data, desc, spec):
    """Every inspecting operation on every node; returns the answers."""
    out = []

    def rec(name, v):
        if isinstance(v, IterVal):
            v = list(w.I.iter_(v))
        out.append((name, w.canon(v)))

    for n in ('complete',):
        rec('storage.' + n, w.attr(sto, n))
    rec('hash', w.call(sto, 'schema_hash'))
    rec('repr(sto)', w.I.type_name(sto))
    exc = w.raises(w.call, sto, 'validate')
    rec('storage.validate', exc is not None and exc.cls.name)
    node = w.attr(sto, 'schema_node')
    rec('schema json', w.call(node, 'to_json'))
    rec('schema dict', w.call(node, 'to_dict'))
    rec('schema hash', w.call(node, 'hash'))
    for path, d, s in nodes_of(desc, spec):
        n = at(w, data, path)
        p = str(path)
        sn = w.attr(n, 'schema_node')
        rec(p + ' schema', w.call(sn, 'to_json'))
        rec(p + ' hash', w.call(sn, 'hash'))
        rec(p + ' empty', w.attr(n, 'empty'))
        rec(p + ' complete', w.attr(n, 'complete'))
        exc = w.raises(w.call, n, 'validate')
        rec(p + ' validate', exc is not None and exc.cls.name)
        rec(p + ' node_tree', w.call(n, 'node_tree'))
        rec(p + ' repr', w.I.repr_(n))
        rec(p + ' str', w.I.str_(n))
        if d.kind in ('Compilation', 'List'):
            for e in (False, True):
                rec(p + ' data_tree %s' % e, w.call(n, 'data_tree',
                                                    include_empty=e))
        if d.kind == 'Compilation':
            rec(p + ' dir', sorted(w.I.iter_(w.call(n, '__dir__')), key=str))
            exc = w.raises(w.attr, n, 'no_such_field')
            rec(p + ' missing', exc is not None and exc.cls.name)
            exc = w.raises(w.setattr, n, 'schema_nod', 1)
            rec(p + ' set missing', exc is not None and exc.cls.name)
        elif d.kind == 'List':
            rec(p + ' len', w.I.len_(n))
            exc = w.raises(w.item, n, 99)
            rec(p + ' index', exc is not None and exc.cls.name)
            for i in range(len(s)):
                w.check(w.item(n, i) is w.item(n, i - len(s)),
                        'item %d is item %d' % (i, i - len(s)))
        else:
            v, exc = w.attempt(w.attr, n, 'value')
            rec(p + ' value', v if exc is None else exc.cls.name)
            if d.kind == 'Array' and exc is None:
                r, exc = w.attempt(w.item, n, 0)
                rec(p + ' [0]', r if exc is None else exc.cls.name)
    return out


def c30(add, thorough, src):
    every = lambda: Comp(**dict(all_kinds_desc(), arr2=D(
        'Array', None, dtype='float64', ndim=2, unit='V')))

    def specs(w, name, desc):
        if name == 'kinds':
            out = [kinds_spec(w, 0), kinds_spec(w, 1), {},
                   kinds_spec(w, 0, LEAVES[::2])]
            out[0]['arr2'] = w.arr('float64', (2, 3))
            return out
        sts = [st for st in itertools.islice(states_of(desc, (0, 1),
                                                       (0, 1, 2)), 3000)]
        sts = sts[::max(1, len(sts) // (60 if thorough else 10))]
        return [realize(w, desc, st, lambda d, s: EMPTY if not s
                        else w.val(d, 0)) for st in sts]

    def observe(w, b, sto, data, desc, spec, what):
        """twice, with no change of data, schema or files"""
        full = fillup(desc, spec)
        dump = w.dump(data, desc)
        js = w.call(w.attr(sto, 'schema_node'), 'to_json')
        before, since = w.files(), len(w.I.effects)
        first = inspect_all(w, sto, data, desc, full)
        w.expect_state(w.dump(data, desc), dump, what + ': after inspection '
                       'the data')
        w.expect_same(w.call(w.attr(sto, 'schema_node'), 'to_json'), js,
                      what + ': after inspection the schema')
        second = inspect_all(w, sto, data, desc, full)
        for (n, x), (_, y) in zip(first, second):
            w.checks += 1
            if x != y:
                if w.opaque(x) or w.opaque(y):
                    raise Unsupported('repeated ' + n)
                w.fail('%s: %s gives %s, then %s' % (what, n, str(x)[:150],
                                                     str(y)[:150]))
        w.expect_state(w.dump(data, desc), dump, what + ': after inspection '
                       'the data')
        wr = w.writes(since)
        w.check(not wr, '%s: inspection writes: %s' % (
            what, wr and (wr[0][0], w.sh(wr[0][1]), wr[0][2])),
            wr[0][3] if wr else None)
        w.expect_files(before, what + ': inspection')

    def same_schema(w, node, state, what):
        now = w.schema_state(node)
        w.checks += 1
        if now != state:
            w.fail('%s: the schema was %s and is %s' % (
                what, str(state)[:200], str(now)[:200]))

    for kind in KINDS:
        def schemas(w, kind=kind, part=slice(None)):
            """serialising, comparing and validating leave schemas alone"""
            for mk in list(all_configs(w, kind, False))[part]:
                node, other = mk(w), mk(w)
                state = w.schema_state(node)
                steps = [('to_dict', lambda: w.call(node, 'to_dict')),
                         ('to_json', lambda: w.call(node, 'to_json')),
                         ('hash', lambda: w.call(node, 'hash')),
                         ('==', lambda: w.I.truth(w.I.compare(
                             '==', node, other))),
                         ('node_from_dict', lambda: w.fn(
                             'dsch.schema', 'node_from_dict', w.call(
                                 node, 'to_dict')))]
                if kind not in ('Compilation', 'List'):
                    steps += [('validate(%s)' % t, lambda v=v: w.raises(
                        validate, w, node, v)) for t, v in (
                            ('None', None), ('text', 'abc'),
                            ('bytes', b'abc'), ('number', NpS(
                                FLOAT64, Num('x', 1500))),
                            ('array', w.arr('float64', (2,))))]
                steps += [('creating a storage', lambda: w.raises(
                    w.create, '::inmem::', node))]
                for name, f in steps:
                    f()
                    same_schema(w, node, state, '%s of %s' % (name, kind))
        add('schema:%s' % kind, 'using a schema does not change it', schemas
            if kind != 'Array' else lambda w: schemas(w, 'Array', slice(4)))
        for k in range(4, 35) if kind == 'Array' else ():
            add('schema:Array:%d' % k, 'using a schema does not change it',
                lambda w, f=schemas, k=k: f(w, 'Array', slice(k, k + 1)))

    trees = dict(state_trees(), kinds=every(), leaf=leaf_desc('String'),
                 leafarr=leaf_desc('Array'))

    TEXTS = ['', ' ', ' a', 'a ', ' ab c ', 'AbC', 'a\nb', '\u00e9', 'abcdef',
             '\t', 'None', '<empty>', '0']
    for b in BACKENDS:
        def texts(w, b=b):
            """valid and invalid text and bytes that is easily 'cleaned'"""
            for k, o in enumerate(({}, {'max_length': 2}, {'min_length': 4})):
                for kind in ('String', 'Bytes'):
                    x = leaf_desc(kind, **o)
                    for i, t in enumerate(TEXTS):
                        v = t if kind == 'String' else t.encode()
                        for j, (desc, spec) in enumerate((
                                (x, v), (Comp(a=Comp(b=x)), {'a': {'b': v}}),
                                (Lst(x), [v, EMPTY, v]))):
                            if j and i % 3 != k:
                                continue
                            nm = 't%s%d%d%d' % (kind, k, i, j)
                            sto, data = w.new(b, desc, nm)
                            set_spec(w, data, desc, spec)
                            what = '%s: %r as %r' % (b, desc, spec)
                            observe(w, b, sto, data, desc, spec, what)
                            w.expect_dump(data, desc, spec, what)
        add('texts:' + b, 'inspecting never cleans up values', texts)

        for name, desc in trees.items():
            def tree(w, b=b, name=name, desc=desc):
                for k, spec in enumerate(specs(w, name, desc)):
                    nm = 'n%d' % k
                    what = '%s: %r as %s' % (b, desc, w.sh(spec))
                    sto, data = w.new(b, desc, nm)
                    set_spec(w, data, desc, spec)
                    observe(w, b, sto, data, desc, spec, what)
                    w.expect_dump(data, desc, spec, what)
                    if b == 'inmem' or not full_lists(desc, fillup(
                            desc, spec)):
                        continue
                    w.call(sto, 'save', force=True)
                    observe(w, b, sto, data, desc, spec, what + ' saved')
                    before = w.files()
                    since = len(w.I.effects)
                    st2 = w.load(w.path(b, nm), force=True)
                    wr = w.writes(since)
                    w.check(not wr, '%s: loading writes: %s' % (
                        what, wr and (wr[0][0], wr[0][2])),
                        wr[0][3] if wr else None)
                    w.expect_files(before, what + ': loading')
                    d2 = w.attr(st2, 'data')
                    observe(w, b, st2, d2, desc, spec, what + ' loaded')
                    w.expect_dump(d2, desc, spec, what + ' loaded')
                    # what is saved after inspection is what was loaded
                    w.call(st2, 'save', force=True)
                    w.fresh()
                    st3 = w.load(w.path(b, nm), force=True)
                    w.expect_dump(w.attr(st3, 'data'), desc, spec, what
                                  + ' loaded, inspected, saved, loaded')
            add('tree:%s:%s' % (b, name), 'inspection changes nothing and '
                'is repeatable', tree)

        def gaps(w, b=b):
            """longer lists with an empty item somewhere"""
            x = leaf_desc('String')
            k = 0
            for n in (4, 6, 11) + ((33,) if thorough else ()):
                for holes in ((n - 1,), (0,), (n // 2,), (0, n - 1),
                              tuple(range(1, n)), tuple(range(n))):
                    for item, full in ((x, 'p'), (Lst(x), ['p']),
                                       (Comp(x=x), {'x': 'p'})):
                        none = {'Compilation': {}, 'List': []}.get(
                            item.kind, EMPTY)
                        items = [none if i in holes else full
                                 for i in range(n)]
                        for desc, spec in ((Lst(item), items),
                                           (Comp(l=Lst(item)),
                                            {'l': items})):
                            k += 1
                            sto, data = w.new(b, desc, 'g%d' % k)
                            set_spec(w, data, desc, spec)
                            what = '%s: %r with %d items, empty ones %s' % (
                                b, desc, n, holes)
                            observe(w, b, sto, data, desc, spec, what)
                            w.expect_dump(data, desc, spec, what)
        add('gaps:%s' % b, 'inspecting keeps empty items', gaps)

        def invalid(w, b=b):
            for k, (desc, spec, ok) in enumerate(invalid_cases(w)):
                sto, data = w.new(b, desc, 'i%d' % k)
                set_spec(w, data, desc, spec)
                observe(w, b, sto, data, desc, spec, '%s: %r as %s' % (
                    b, desc, w.sh(spec)))
        add('invalid:%s' % b, 'also for invalid data', invalid)

        def returned(w, b=b):
            """containers handed out are not the internal state"""
            S = leaf_desc('String')
            desc = Comp(a=S, c=Comp(x=S), l=Lst(S))
            spec = {'a': 'x', 'c': {'x': 'y'}, 'l': ['p', 'q']}
            sto, data = w.new(b, desc)
            w.fill(data, desc, spec)
            for e in (False, True):
                for path in ((), ('c',), ('l',)):
                    t = w.call(at(w, data, path), 'data_tree',
                               include_empty=e)
                    w.call(t, 'clear')
            w.call(w.call(w.attr(sto, 'schema_node'), 'to_dict'), 'clear')
            d = w.call(data, '__dir__')
            if isinstance(d, (list, set)):
                w.call(d, 'clear')
            w.expect_dump(data, desc, spec, b + ': after changing returned '
                          'containers')
            w.expect_same(w.call(sto, 'schema_hash'), w.call(w.mk(desc),
                                                             'hash'),
                          b + ': schema after changing returned containers')
        add('returned:%s' % b, 'returned containers are copies', returned)

    for b in FILE_BACKENDS:
        def rejected(w, b=b):
            """failing loads change nothing either"""
            for k, (desc, spec, ok) in enumerate(invalid_cases(w)):
                sto, data = w.new(b, desc, 'r%d' % k)
                set_spec(w, data, desc, spec)
                w.call(sto, 'save', force=True)
                w.fresh()
                for kw in ({}, {'required_schema_hash': 'x'},
                           {'force': True}):
                    before, since = w.files(), len(w.I.effects)
                    w.raises(w.load, w.path(b, 'r%d' % k), **kw)
                    what = '%s: load(%s) of %r' % (b, ', '.join(kw), desc)
                    w.check(not w.writes(since), what + ': writes')
                    w.expect_files(before, what)
        add('load:%s' % b, 'loading without saving changes no file',
            rejected)
    return {}


# ------------------------------------------------------------------- C33
def c33(add, thorough, src):
    """npz and mat; hdf5 writes through (documented limitation)."""
    for b in ('mat', 'npz'):
        for name, desc in list(state_trees().items()) + [
                ('kinds', comp_of_kinds()), ('leaf', leaf_desc('String')),
                ('date', Comp(x=leaf_desc('Date', set_on_create=True)))]:
            def tree(w, b=b, name=name, desc=desc):
                def spec_of(i):
                    if name == 'kinds':
                        return kinds_spec(w, i % 2, ((), LEAVES[::2],
                                                     LEAVES[1::2])[i % 3])
                    sts = [s for s in itertools.islice(states_of(
                        desc, (0, 1), (0, 1, 2)), 3000)
                        if full_lists(desc, realize(
                            w, desc, s, lambda d, x: EMPTY if not x
                            else 1))]
                    return realize(w, desc, sts[(i * 7 + len(sts) - 1)
                                                % len(sts)],
                                   lambda d, s: EMPTY if not s
                                   else w.val(d, 0))
                path = w.path(b)
                before, since = w.files(), len(w.I.effects)
                sto, data = w.new(b, desc)

                def quiet(what, before, since):
                    for e in w.writes(since):
                        w.fail('%s: %r: %s writes to %s without save()' % (
                            b, desc, what, w.sh(e[1])), e[3])
                    w.expect_files(before, '%s: %r: %s' % (b, desc, what))
                quiet('creating', before, since)
                modify(w, sto, data, desc, spec_of(0))
                quiet('changing a new storage', before, since)
                for i in range(1, 4):
                    saved = spec_of(i)
                    w.call(data, 'clear')
                    set_spec(w, data, desc, saved)
                    v = versions(w, path)
                    w.call(sto, 'save', force=True)
                    w.check(versions(w, path) > v, '%s: save() writes '
                            'nothing' % b)
                    before, since = w.files(), len(w.I.effects)
                    modify(w, sto, data, desc, spec_of(i + 1))
                    quiet('changing a saved storage', before, since)
                    other = w.load(path, force=True)
                    quiet('loading', before, since)
                    w.expect_dump(w.attr(other, 'data'), desc, saved,
                                  '%s: %r: the file' % (b, desc))
                    modify(w, other, w.attr(other, 'data'), desc,
                           spec_of(i + 2))
                    quiet('changing a loaded storage', before, since)
                    if i == 2:
                        w.fresh()
                        quiet('the end of the process', before, since)
                    sto = w.load(path, force=True)
                    data = w.attr(sto, 'data')
                    w.expect_dump(data, desc, saved, '%s: %r: the file' % (
                        b, desc))
            add('tree:%s:%s' % (b, name), 'only save() changes the file',
                tree)

        def ways(w, b=b):
            """every changing operation, one by one"""
            S = leaf_desc('String')
            A = leaf_desc('Array')
            desc = Comp(a=S, v=A, l=Lst(S), c=Comp(x=S))
            mk = lambda: {'a': 'x', 'v': w.arr('int32', (3,), 'arr'),
                          'l': ['p', 'q'], 'c': {'x': 'y'}}
            spec = mk()
            sto, data = w.new(b, desc)
            w.fill(data, desc, mk())
            w.call(sto, 'save')
            inm, src_ = w.new('inmem', desc)
            w.fill(src_, desc, {'a': 'other'})
            ops = [
                ('replace', lambda d: w.call(w.attr(d, 'a'), 'replace',
                                             'n')),
                ('value =', lambda d: w.setattr(w.attr(d, 'a'), 'value',
                                                'n')),
                ('field =', lambda d: w.setattr(d, 'a', 'n')),
                ('clear', lambda d: w.call(w.attr(d, 'a'), 'clear')),
                ('append', lambda d: w.call(w.attr(d, 'l'), 'append', 'r')),
                ('append empty', lambda d: w.call(w.attr(d, 'l'),
                                                  'append')),
                ('list replace', lambda d: w.call(w.attr(d, 'l'), 'replace',
                                                  ['n'])),
                ('list clear', lambda d: w.call(w.attr(d, 'l'), 'clear')),
                ('item', lambda d: w.call(w.item(w.attr(d, 'l'), 0),
                                          'replace', 'n')),
                ('resize', lambda d: w.call(w.attr(d, 'v'), 'resize', (2,))),
                ('element', lambda d: w.I.setitem(w.attr(d, 'v'), 0, 5)),
                ('comp replace', lambda d: w.call(d, 'replace',
                                                  {'a': 'n'})),
                ('comp clear', lambda d: w.call(d, 'clear')),
                ('load_from', lambda d: w.call(d, 'load_from', src_)),
                ('validate', lambda d: w.raises(w.call, d, 'validate')),
            ]
            for name, f in ops:
                for fresh in (False, True):
                    before, since = w.files(), len(w.I.effects)
                    if fresh:
                        d = w.attr(w.load(w.path(b)), 'data')
                    else:
                        d = data
                    w.raises(f, d)
                    what = '%s: %s%s' % (b, name, ' after loading' if fresh
                                         else '')
                    w.check(not w.writes(since), what + ': writes without '
                            'save()')
                    w.expect_files(before, what)
                    w.expect_dump(w.attr(w.load(w.path(b)), 'data'), desc,
                                  spec, what + ': the file')
                w.call(data, 'clear')
                w.fill(data, desc, mk())
            w.call(w.attr(data, 'a'), 'replace', 'never saved')
            before, since = w.files(), len(w.I.effects)
            w.end_process()
            w.check(not w.writes(since), b + ': the end of the process '
                    'writes without save()')
            w.expect_files(before, b + ': the end of the process')
        add('ways:%s' % b, 'no changing operation writes to the file', ways)

        def pseudo_(w, b=b):
            desc = Comp(a=leaf_desc('String'))
            before, since = w.files(), len(w.I.effects)
            ps = pseudo(w, w.path(b), w.mk(desc))
            w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace', 'x')
            w.check(not w.writes(since), b + ': PseudoStorage writes before '
                    'it is closed')
            w.expect_files(before, b + ': PseudoStorage before closing')
            w.call(ps, 'close')
            w.expect_dump(w.attr(w.load(w.path(b)), 'data'), desc,
                          {'a': 'x'}, b + ': closed PseudoStorage')
            ps = pseudo(w, w.path(b), w.mk(desc))
            before, since = w.files(), len(w.I.effects)
            w.call(w.attr(w.attr(ps, 'data'), 'a'), 'replace', 'y')
            w.check(not w.writes(since), b + ': PseudoStorage writes before '
                    'it is closed')
            w.expect_files(before, b + ': PseudoStorage before closing')
            w.expect_dump(w.attr(w.load(w.path(b)), 'data'), desc,
                          {'a': 'x'}, b + ': the file')
            w.end_process()
            w.check(not w.writes(since), b + ': the end of the process '
                    'writes an open PseudoStorage')
            w.expect_files(before, b + ': PseudoStorage never closed')
        add('pseudo:%s' % b, 'PseudoStorage writes on closing only', pseudo_)

        def copy(w, b=b):
            desc = Comp(a=leaf_desc('String'), l=Lst(leaf_desc('Bool')))
            inm, d = w.new('inmem', desc)
            w.fill(d, desc, {'a': 'x', 'l': [True]})
            since = len(w.I.effects)
            before = w.files()
            s2 = w.call(inm, 'save_as', w.path(b))
            s3 = w.fn('dsch.frontend', 'create_from', w.path(b, 'g'), inm)
            w.call(s2, 'validate')
            w.end_process()
            for e in w.writes(since):
                if e[0] != 'create':
                    w.fail('%s: copying writes to %s without save()' % (
                        b, w.sh(e[1])), e[3])
        add('copy:%s' % b, 'copies are written by save() only', copy)

    def modify(w, sto, data, desc, spec):
        """all kinds of changes, ending in spec"""
        w.call(data, 'clear')
        set_spec(w, data, desc, spec)
        for path, d, s in nodes_of(desc, fillup(desc, spec)):
            node = at(w, data, path)
            if d.kind == 'List' and d.sub.kind not in ('List',
                                                       'Compilation'):
                w.call(node, 'append', w.val(d.sub, 0))
            elif d.kind not in ('List', 'Compilation'):
                w.setattr(node, 'value', w.val(d, 0))
        w.raises(w.call, data, 'validate')
        w.raises(w.call, sto, 'validate')
    return {}
