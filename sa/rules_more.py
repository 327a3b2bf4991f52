"""Rules about saving again, the public surface, arguments and references:
C36 - C39."""
import itertools

from .world import *
from .rules_data import (at, state_trees, states_of, realize, nodes_of, opt,
                         leaves_of, blank_of, cdesc, cval, CHECKED)
from .rules_store import (backend_of, set_spec, full_lists, fillup,
                          kinds_spec, comp_of_kinds)
from .rules_file import (invalid_cases, is_validation_error, versions, put_file,
                         pseudo)
from .rules_schema import KINDS, all_configs


def picks(w, desc, n, lens=(0, 1, 2)):
    """About n fill states of a tree that every format can hold."""
    sts = [st for st in itertools.islice(states_of(desc, (0, 1), lens), 4000)
           if full_lists(desc, realize(w, desc, st, lambda d, s: EMPTY
                                       if not s else 1))]
    return sts[::max(1, len(sts) // n)] + sts[-1:]


def trees():
    return dict(state_trees(), leaf=leaf_desc('String'),
                arrs=Comp(t=D('Array', None, dtype='float64'),
                          v=D('Array', None, dtype='float64',
                              depends_on=('t',)), l=Lst(leaf_desc('Array'))))


# ------------------------------------------------------------------- C36
def c36(add, thorough, src):
    def same_as(w, sto, data, desc, spec, h, path, what):
        w.check(w.attr(sto, 'data') is data, what + ': the top-level node is '
                'another object')
        w.expect_dump(data, desc, spec, what + ': the data in memory')
        w.expect_same(w.call(sto, 'schema_hash'), h, what + ': the schema')
        w.expect_same(w.attr(sto, 'storage_path'), path, what + ': the path')

    def stored(w, path, b, desc, spec, h, what):
        w.fresh()
        st = w.load(path, backend=b, force=True)
        w.expect_dump(w.attr(st, 'data'), desc, spec, what)
        w.expect_same(w.call(st, 'schema_hash'), h, what + ': schema')

    def series(w, b, desc, specs, name, reload):
        """save twice, then put the tree into further states and save"""
        path = w.path(b, name)
        sto = w.create(path, w.mk(desc))
        h = w.call(sto, 'schema_hash')
        data = w.attr(sto, 'data')
        for i, spec in enumerate(specs):
            what = '%s: %r: save number %d, as %s' % (b, desc, i + 1,
                                                      w.sh(spec))
            if i:
                put(w, data, desc, spec)
            w.expect_dump(data, desc, spec, what + ', before it')
            for twice in ('', ' repeated'):
                w.no_exc(w.raises(w.call, sto, 'save', force=True),
                         what + twice)
                same_as(w, sto, data, desc, spec, h, path, what + twice)
            if reload or i == len(specs) - 1:
                stored(w, path, b, desc, spec, h, what + ', loaded')
                if i < len(specs) - 1:
                    sto = w.load(path, force=True)
                    data = w.attr(sto, 'data')

    def put(w, data, desc, spec):
        """Bring a tree to a state, whatever it held before."""
        for p, d, s in list(nodes_of(desc, fillup(desc, spec))):
            if d.kind == 'List':
                w.call(at(w, data, p), 'clear')
                for x in s:
                    w.call(at(w, data, p), 'append')
            elif d.kind != 'Compilation':
                if s is EMPTY:
                    w.call(at(w, data, p), 'clear')
                else:
                    w.call(at(w, data, p), 'replace', s)

    for b in FILE_BACKENDS:
        for name, desc in trees().items():
            def tree(w, b=b, name=name, desc=desc):
                n = 12 if thorough else 5
                sts = picks(w, desc, n)
                real = lambda st: realize(w, desc, st, lambda d, s: EMPTY
                                          if not s else w.val(d, 0))
                for k, seq in enumerate(zip(sts, sts[1:] + sts[:1],
                                            sts[2:] + sts[:2])):
                    blank = fillup(desc, blank_of(desc))
                    for rel in (False, True):
                        series(w, b, desc, [blank] + [real(s) for s in seq],
                               'n%d%d' % (k, rel), rel)
            add('series:%s:%s' % (b, name), 'each save stores the current '
                'state and leaves it as it is', tree)

        def kinds(w, b=b):
            desc = comp_of_kinds()
            specs = [{}, kinds_spec(w, 0), kinds_spec(w, 1),
                     kinds_spec(w, 0, LEAVES[::2]),
                     kinds_spec(w, 0, LEAVES[1::2]), {}]
            for rel in (False, True):
                series(w, b, desc, specs, 'k%d' % rel, rel)
            dl = Lst(comp_of_kinds())
            series(w, b, dl, [[], [kinds_spec(w, 0)], [kinds_spec(w, 1),
                                                       kinds_spec(w, 0)],
                              [kinds_spec(w, 0, LEAVES[::2])]], 'kl', False)
        add('kinds:%s' % b, 'also with every leaf type', kinds)

        for kind in CHECKED:
            def refused(w, b=b, kind=kind):
                """a refused save changes nothing, and can be repeated once
                the data is valid"""
                for k, (desc, spec, ok) in enumerate(invalid_cases(w, kind)):
                    name = 'r%d' % k
                    path = w.path(b, name)
                    sto, data = w.new(b, desc, name)
                    set_spec(w, data, desc, spec)
                    h = w.call(sto, 'schema_hash')
                    what = '%s: %r as %s' % (b, desc, w.sh(spec))
                    for i in range(2):
                        exc = w.raises(w.call, sto, 'save')
                        if ok:
                            w.no_exc(exc, what + ': save()')
                        else:
                            w.check(is_validation_error(w, exc),
                                    what + ': save(): a validation error is '
                                    'expected, but ' + w.exc_text(exc))
                        same_as(w, sto, data, desc, spec, h, path,
                                what + ': after save()')
                    if not ok:
                        w.call(data, 'clear')
                        for p, d, s in nodes_of(desc, fillup(
                                desc, blank_of(desc))):
                            if d.kind == 'List' and d.opts.get('min_length'):
                                w.call(at(w, data, p), 'append', True)
                        now = w.dump(data, desc)
                        exc = w.raises(w.call, sto, 'save')
                        if desc.kind == 'List' and desc.sub.kind == 'List':
                            pass
                        w.no_exc(exc, what + ': refused, cleared: save()')
                        w.expect_state(w.dump(data, desc), now, what +
                                       ': after it')
                        w.fresh()
                        w.expect_state(w.dump(w.attr(w.load(path), 'data'),
                                              desc), now, what +
                                       ': refused, cleared, saved, loaded')
            add('refused:%s:%s' % (b, kind), 'a refused save leaves data and '
                'storage usable', refused)

        def inplace(w, b=b):
            """changes in place between two saves are stored"""
            A = leaf_desc('Array')
            desc = Comp(a=A, l=Lst(A), c=Comp(a=A))
            for k, path in enumerate((('a',), ('l', 0), ('l', 1),
                                      ('c', 'a'))):
                for rel in (False, True):
                    name = 'p%d%d' % (k, rel)
                    sto, data = w.new(b, desc, name)
                    spec = {'a': w.arr('int32', (3,), els=(1, 2, 3)),
                            'l': [w.arr('int32', (3,), els=(4, 5, 6)),
                                  w.arr('int32', (3,), els=(7, 8, 9))],
                            'c': {'a': w.arr('int32', (3,), els=(1, 1, 1))}}
                    w.fill(data, desc, spec)
                    w.call(sto, 'save')
                    if rel:
                        w.fresh()
                        sto = w.load(w.path(b, name))
                        data = w.attr(sto, 'data')
                    for i in range(2):
                        node = at(w, data, path)
                        w.call(node, '__setitem__', 1, 40 + i)
                        now = w.dump(data, desc)
                        w.call(sto, 'save')
                        what = '%s: element of %s changed in place, save %d' \
                            % (b, path, i + 2)
                        w.expect_state(w.dump(data, desc), now, what)
                        got = w.attr(at(w, data, path), 'value')
                        w.expect_same(w.I.getitem(got, 1).src
                                      if isinstance(w.I.getitem(got, 1), NpS)
                                      else w.I.getitem(got, 1), 40 + i,
                                      what + ': the element')
                        w.fresh()
                        w.expect_state(w.dump(w.attr(w.load(
                            w.path(b, name)), 'data'), desc), now,
                            what + ', loaded')
        add('inplace:%s' % b, 'in-place changes are part of the next save',
            inplace)

        def pair(w, b=b):
            """two storages at once: saving one is no business of the other"""
            S = leaf_desc('String')
            for name, desc, s1, s2 in (
                    ('leaf', S, 'one', 'two'),
                    ('comp', Comp(a=S, b=S), {'a': 'one'}, {'b': 'two'}),
                    ('list', Lst(S), ['one', 'x'], ['two'])):
                x, dx = w.new(b, desc, name + 'x')
                y, dy = w.new(b, desc, name + 'y')
                w.fill(dx, desc, s1)
                w.fill(dy, desc, s2)
                for n, (p, q) in enumerate(((x, y), (y, x), (x, y))):
                    other = name + ('y' if q is y else 'x')
                    nv = versions(w, w.path(b, other))
                    w.call(p, 'save')
                    what = '%s: two storages of %r, saving one' % (b, desc)
                    w.check(versions(w, w.path(b, other)) == nv,
                            what + ': writes the other\'s file')
                    w.expect_dump(dx, desc, s1, what)
                    w.expect_dump(dy, desc, s2, what)
                w.fresh()
                for nm, s in ((name + 'x', s1), (name + 'y', s2)):
                    w.expect_dump(w.attr(w.load(w.path(b, nm)), 'data'),
                                  desc, s, '%s: two storages of %r, loaded'
                                  % (b, desc))
        add('pair:%s' % b, 'saving one storage leaves others alone', pair)

        def copies(w, b=b):
            """saving after save_as still concerns the own file only"""
            S = leaf_desc('String')
            desc = Comp(a=S, l=Lst(S))
            for b2 in BACKENDS:
                name = 'c' + b2
                sto, data = w.new(b, desc, name)
                spec = {'a': 'one', 'l': ['x', 'y']}
                w.fill(data, desc, spec)
                w.call(sto, 'save')
                p2 = w.path(b2, name + '2')
                s2 = w.call(sto, 'save_as', p2)
                for n in (3, 4):
                    # once more, and from the copy
                    w.call((sto, s2)[n % 2], 'save_as',
                           w.path(b2, name + str(n)))
                    w.expect_same(w.attr(s2, 'storage_path'), p2,
                                  '%s: path of a copy to %s' % (b, b2))
                spec2 = {'a': 'two', 'l': ['z']}
                w.call(w.attr(data, 'a'), 'replace', 'two')
                w.call(w.attr(data, 'l'), 'replace', ['z'])
                w.call(sto, 'save')
                what = '%s: saved, save_as to %s, changed, saved' % (b, b2)
                w.expect_dump(w.attr(s2, 'data'), desc, spec,
                              what + ': the copy')
                if b2 != 'inmem':
                    w.call(s2, 'save')
                w.expect_same(w.attr(sto, 'storage_path'), w.path(b, name),
                              what + ': path')
                w.fresh()
                w.expect_dump(w.attr(w.load(w.path(b, name)), 'data'), desc,
                              spec2, what + ': own file')
                if b2 != 'inmem':
                    w.expect_dump(w.attr(w.load(p2), 'data'), desc, spec,
                                  what + ': file of the copy')
        add('copies:%s' % b, 'a copy does not redirect later saves', copies)
    return {}


# ------------------------------------------------------------------- C37
ENTRY = ('create', 'create_from', 'load', 'PseudoStorage')


def c37(add, thorough, src):
    def entry(w):
        top = w.mod('dsch')
        for n in ENTRY:
            v, exc = w.attempt(w.I.getattr_, top, n)
            w.no_exc(exc, 'dsch.%s' % n)
        for n in ('schema', 'exceptions'):
            v, exc = w.attempt(w.I.getattr_, top, n)
            w.no_exc(exc, 'dsch.%s' % n)
        for k in KINDS:
            _, exc = w.attempt(w.get, 'dsch.schema', k)
            w.no_exc(exc, 'dsch.schema.' + k)
        I = w.I
        call = lambda n, *a, **k: I.call(I.getattr_(top, n), list(a), k)
        schema = I.getattr_(top, 'schema')
        for k, b in enumerate(BACKENDS):
            desc = Comp(a=leaf_desc('String'))
            node = I.call(I.getattr_(schema, 'Compilation'), [
                {'a': I.call(I.getattr_(schema, 'String'), [], {})}], {})
            path = w.path(b, 'e%d' % k)
            what = 'through dsch itself: %s: ' % b
            sto = call('create', path, node)
            w.expect_same(backend_of(w, sto), b, what + 'create')
            w.fill(w.attr(sto, 'data'), desc, {'a': 'x'})
            s2 = call('create_from', '::inmem::', sto)
            w.expect_dump(w.attr(s2, 'data'), desc, {'a': 'x'},
                          what + 'create_from')
            if b != 'inmem':
                w.call(sto, 'save')
                s3 = call('load', path, required_schema=node)
                w.expect_dump(w.attr(s3, 'data'), desc, {'a': 'x'},
                              what + 'load')
                ps = call('PseudoStorage', path, node)
                w.expect_dump(w.attr(ps, 'data'), desc, {'a': 'x'},
                              what + 'PseudoStorage')
        exc = I.getattr_(I.getattr_(top, 'exceptions'), 'ValidationError')
        w.check(exc is w.get('dsch.exceptions', 'ValidationError'),
                'dsch.exceptions is another module')
    add('entry', 'dsch offers the documented entry points', entry)

    def listing(w):
        names = w.get('dsch.backends', 'available_backends')
        w.check(isinstance(names, tuple), 'available_backends is no tuple')
        w.checks += 1
        if set(names) < set(BACKENDS) or len(set(names)) != len(names):
            w.fail('available_backends is %r' % (names,))
        for k, b in enumerate(names):
            desc = leaf_desc('String')
            p = '::inmem::' if b == 'inmem' else sstr([w.dir, '/l%d.dat' % k])
            sto, exc = w.attempt(w.create, p, w.mk(desc), b)
            what = 'create() with the available backend %r' % b
            w.no_exc(exc, what)
            w.expect_same(backend_of(w, sto), b, what)
            w.fill(w.attr(sto, 'data'), desc, 'text')
            if b != 'inmem':
                w.call(sto, 'save')
                w.fresh()
                st2, exc = w.attempt(w.load, p, backend=b)
                w.no_exc(exc, what + ', load()')
                w.expect_same(backend_of(w, st2), b, what + ', load()')
                w.expect_dump(w.attr(st2, 'data'), desc, 'text', what)
        for b in BACKENDS:
            w.check(b in names, 'available_backends lacks ' + b)
    add('listing', 'exactly the available backends are accepted', listing)

    def unknown(w):
        names = w.get('dsch.backends', 'available_backends')
        for b in ('HDF5', 'h5', 'npy', 'matlab', 'memory', 'none', 'storage',
                  'hdf', 'Inmem', '.npz', 'np', 'npz2', 'mat ', 'sqlite'):
            w.check(b not in names, 'available_backends lists %r' % b)
            for p in (w.path('npz', 'u' + b), '::inmem::'):
                before = w.files()
                exc = w.raises(w.create, p, w.S('Bool'), b)
                w.check(exc is not None, 'create(%s) accepts the backend %r, '
                        'which is not available' % (w.sh(p), b))
                w.expect_files(before, 'create() with unknown backend')
                if not isinstance(p, str):
                    put_file(w, p)
                    exc = w.raises(w.load, p, backend=b)
                    w.check(exc is not None, 'load() accepts the backend %r, '
                            'which is not available' % b)
                    w.I.fs.files.clear()
    add('unknown', 'no other backend is accepted', unknown)

    def fields_of(w, node, desc, what):
        names = w.call(node, '__dir__')
        names = list(w.I.iter_(names))
        for n in desc.sub:
            w.check(n in names, '%s: dir() lacks the field %r' % (what, n))
            r, exc = w.attempt(w.I.getattr_, node, n)
            w.no_exc(exc, '%s: field %r' % (what, n))
        for n in ('clear', 'replace', 'validate', 'load_from', 'data_tree',
                  'empty', 'complete', 'schema_node', 'parent'):
            w.check(n in names, '%s: dir() lacks %r' % (what, n))

    for b in BACKENDS:
        def dirs(w, b=b):
            for k, (name, desc) in enumerate(list(trees().items()) + [
                    ('kinds', comp_of_kinds()), ('none', Comp())]):
                for i, st in enumerate(picks(w, desc, 4)):
                    spec = realize(w, desc, st, lambda d, s: EMPTY if not s
                                   else w.val(d, 0))
                    nm = 'd%d-%d' % (k, i)
                    sto, data = w.new(b, desc, nm)
                    w.fill(data, desc, spec)

                    def look(data, when):
                        for p, d, s in nodes_of(desc, fillup(desc, spec)):
                            if d.kind == 'Compilation':
                                fields_of(w, at(w, data, p), d,
                                          '%s: %r as %s%s: node %s' % (
                                              b, desc, w.sh(spec), when, p))
                    look(data, '')
                    if b != 'inmem' and desc.sub != {}:
                        w.call(sto, 'save', force=True)
                        w.fresh()
                        st2 = w.load(w.path(b, nm), force=True)
                        look(w.attr(st2, 'data'), ', loaded')
        add('dir:%s' % b, 'dir() of a Compilation lists every field', dirs)
    return {}


# ------------------------------------------------------------------- C38
class Snap:
    """State of dicts, lists, arrays and schema nodes handed to dsch."""

    def __init__(self, w, *vals):
        self.w, self.vals = w, vals
        self.before = [self.state(v) for v in vals]

    def state(self, v):
        w = self.w
        if isinstance(v, dict):
            return ('dict',) + tuple((w.canon(k), self.state(x))
                                     for k, x in v.items())
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self.state(x) for x in v)
        if isinstance(v, Arr):
            return (w.canon(v), 'read-only' if v.readonly else 'writeable')
        if isinstance(v, Obj):
            return ('schema', w.schema_state(v)) if v.payload is None else \
                w.canon(v)
        return w.canon(v)

    def check(self, what):
        for v, old in zip(self.vals, self.before):
            now = self.state(v)
            self.w.checks += 1
            if now != old:
                if self.w.opaque(now):
                    raise Unsupported('state of an argument')
                self.w.fail('%s: the argument was %s and is %s' % (
                    what, str(old)[:200], str(now)[:200]))


def plain(desc, spec):
    """The nested dicts and lists a user passes for a spec."""
    if desc.kind == 'Compilation':
        return {n: plain(desc.sub[n], x) for n, x in spec.items()
                if x is not EMPTY}
    if desc.kind == 'List':
        return [plain(desc.sub, x) for x in spec]
    return spec


def whole(desc, spec):
    """The numbers of list items (empty items cannot be passed)."""
    if desc.kind == 'Compilation':
        return [whole(desc.sub[n], x) for n, x in spec.items()
                if x is not EMPTY]
    if desc.kind == 'List':
        return [whole(desc.sub, x) for x in spec if x is not EMPTY] + [
            x is EMPTY for x in spec]
    return 0


def spoil(w, v):
    """Change every container of a passed value, innermost first."""
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(w, x)
        v.clear()
        v['zz'] = 'spoilt'
    elif isinstance(v, list):
        for x in list(v):
            spoil(w, x)
        v[:] = ['spoilt']


def c38(add, thorough, src):
    for b in BACKENDS:
        for name, desc in list(trees().items()) + [
                ('kinds', comp_of_kinds())]:
            def given(w, b=b, name=name, desc=desc):
                full = list(itertools.islice(states_of(
                    desc, (1,), (0, 1, 2)), 40)) if name != 'kinds' \
                    else [dict.fromkeys(desc.sub, 1)]
                part = picks(w, desc, 6) if name != 'kinds' else [
                    {n: i % 2 for i, n in enumerate(desc.sub)}]
                for k, st in enumerate(full[::max(1, len(full) // 6)]
                                       + full[-1:] + part):
                    for var in (0, 1):
                        spec = realize(w, desc, st, lambda d, s: w.val(
                            d, var) if s else EMPTY)
                        arg = plain(desc, spec)
                        if arg is EMPTY or whole(desc, arg) != whole(desc,
                                                                     spec):
                            continue
                        snap = Snap(w, arg)
                        what = '%s: %r.replace(%s)' % (b, desc, w.sh(arg))
                        sto, data = w.new(b, desc, 'g%d%d' % (k, var))
                        w.call(data, 'replace', arg)
                        snap.check(what)
                        w.expect_dump(data, desc, spec, what)
                        # the same argument once more, and for another node
                        w.call(data, 'replace', arg)
                        snap.check(what + ' repeated')
                        w.expect_dump(data, desc, spec, what + ' repeated')
                        s2, d2 = w.new(b, desc, 'h%d%d' % (k, var))
                        w.call(d2, 'replace', arg)
                        if desc.kind == 'List':
                            for x in arg:
                                w.call(data, 'append', x)
                            snap.check(what + ' and append')
                            w.expect_dump(data, desc, spec + spec,
                                          what + ' and append')
                            w.call(data, 'replace', arg)
                        w.raises(w.call, data, 'validate')
                        w.call(data, 'data_tree', include_empty=True)
                        if b != 'inmem' and full_lists(desc, fillup(
                                desc, spec)):
                            w.call(sto, 'save', force=True)
                        w.call(data, 'clear')
                        snap.check(what + ', validate, save, clear')
                        w.expect_dump(d2, desc, spec, what + ' for another '
                                      'node')
                        # the containers belong to the user
                        spoil(w, arg)
                        w.expect_dump(d2, desc, spec, what + ', changing the '
                                      'dicts and lists afterwards')
                        if b != 'inmem' and full_lists(desc, fillup(
                                desc, spec)):
                            w.call(s2, 'save', force=True)
                            w.fresh()
                            s2 = w.load(w.path(b, 'h%d%d' % (k, var)),
                                        force=True)
                            w.expect_dump(w.attr(s2, 'data'), desc, spec,
                                          what + ', changing the dicts and '
                                          'lists afterwards, loaded')
            add('given:%s:%s' % (b, name), 'values that are set belong to '
                'the user', given)

        def arrays(w, b=b):
            """validating, copying, printing and saving leave the arrays that
            were set alone"""
            for k, o in enumerate((dict(), dict(max_value=5, min_value=-5),
                                   dict(ndim=2), dict(max_shape=(9,)),
                                   dict(dtype='float16'), dict(dtype='bool'),
                                   dict(dtype='int8', min_shape=(1,)))):
                d = leaf_desc('Array', **o)
                for desc, path in ((d, ()), (Comp(x=d), ('x',)),
                                   (Lst(d), (0,))):
                    shape = (2, 3) if o.get('ndim') == 2 else (3,)
                    arr = w.arr(d.opts['dtype'], shape,
                                els=(1, 0, 1, 0, 1, 1)[:6 if len(shape) > 1
                                                       else 3])
                    snap = Snap(w, arr)
                    what = '%s: array set to %r' % (b, desc)
                    nm = 'a%d%d' % (k, len(path) and isinstance(path[0],
                                                                int) + 1)
                    sto, data = w.new(b, desc, nm)
                    if path == (0,):
                        w.call(data, 'append')
                    w.call(at(w, data, path), 'replace', arr)
                    snap.check(what)
                    for op in ('validate', 'node_tree', 'data_tree'):
                        w.call(data, op)
                        snap.check('%s, %s()' % (what, op))
                    s2 = w.call(sto, 'save_as', '::inmem::')
                    snap.check(what + ', save_as')
                    if b != 'inmem':
                        w.call(sto, 'save')
                        snap.check(what + ', save')
                        w.call(w.load(w.path(b, nm)), 'validate')
                        snap.check(what + ', save and load')
                    w.call(at(w, w.attr(s2, 'data'), path), '__setitem__', 0,
                           0)
                    snap.check(what + ', changing a copy')
                    w.call(data, 'clear')
                    snap.check(what + ', clear')
        add('arrays:%s' % b, 'arrays that are set are not changed', arrays)

        def loaded_from(w, b=b):
            """the source of load_from / create_from and the given schemas"""
            for name, desc in trees().items():
                for i, st in enumerate(picks(w, desc, 3)):
                    spec = realize(w, desc, st, lambda d, s: EMPTY if not s
                                   else w.val(d, 0))
                    node = w.mk(desc)
                    state = w.schema_state(node)
                    src_ = w.create(w.path(b, 's%s%d' % (name, i)), node)
                    w.fill(w.attr(src_, 'data'), desc, spec)
                    dst = w.create(w.path(b, 't%s%d' % (name, i)), node)
                    what = '%s: %r as %s' % (b, desc, w.sh(spec))
                    w.call(w.attr(dst, 'data'), 'load_from',
                           w.attr(src_, 'data'))
                    w.expect_dump(w.attr(src_, 'data'), desc, spec, what +
                                  ': source of load_from')
                    ps = pseudo(w, w.attr(src_, 'data'), node)
                    w.call(ps, 'close')
                    w.expect_dump(w.attr(src_, 'data'), desc, spec, what +
                                  ': node given to a PseudoStorage')
                    w.call(w.attr(dst, 'data'), 'clear')
                    w.checks += 1
                    if w.schema_state(node) != state:
                        w.fail('%s: the given schema was %s and is %s' % (
                            what, str(state)[:200],
                            str(w.schema_state(node))[:200]))
        add('sources:%s' % b, 'sources and schemas are not changed',
            loaded_from)

    for kind in KINDS:
        def dicts(w, kind=kind, part=slice(None)):
            for mk in list(all_configs(w, kind, False))[part]:
                node = mk(w)
                d = w.call(node, 'to_dict')
                state = w.schema_state(node)
                snap = Snap(w, d)
                js = w.call(node, 'to_json')
                cls = w.get('dsch.schema', kind)
                for f, n in ((lambda: w.fn('dsch.schema', 'node_from_dict',
                                           d), 'node_from_dict'),
                             (lambda: w.call(cls, 'from_dict', d),
                              'from_dict')) * 2:
                    r, exc = w.attempt(f)
                    w.no_exc(exc, '%s of the dict of %s' % (n, kind))
                    snap.check('%s(%s)' % (n, kind))
                    w.expect_same(w.call(r, 'to_json'), js, '%s of the same '
                                  'dict again' % n)
                # foreign classes refuse it, and leave it alone
                for other in ('Bool', 'Compilation', 'List', 'Array'):
                    if other != kind:
                        w.raises(w.call, w.get('dsch.schema', other),
                                 'from_dict', d)
                        snap.check('%s.from_dict of a %s' % (other, kind))
                # the dict belongs to the user
                r = w.fn('dsch.schema', 'node_from_dict', d)
                spoil(w, d)
                w.expect_same(w.call(r, 'to_json'), js, 'the node made from '
                              'a dict that is changed afterwards')
                w.checks += 1
                if w.schema_state(node) != state:
                    w.fail('changing the dict of a %s changes the node'
                           % kind)
        if kind == 'Array':
            for k in range(0, 36, 4):
                add('dict:Array:%d' % k, 'dicts handed to from_dict are not '
                    'changed', lambda w, f=dicts, k=k: f(
                        w, 'Array', slice(k, k + 4)))
        else:
            add('dict:' + kind, 'dicts handed to from_dict are not changed',
                dicts)

    def options(w):
        """containers given to the constructors"""
        for name, build in {
                'Compilation': lambda: (
                    {'a': w.S('Bool'), 'b': w.S('String')}, ['b', 'a']),
                'none': lambda: ({}, [])}.items():
            subs, opts = build()
            snap = Snap(w, subs, opts)
            node = w.S('Compilation', subs, opts)
            n2 = w.S('Compilation', subs, optionals=opts)
            js = w.call(node, 'to_json')
            w.call(node, 'hash')
            sto = w.create('::inmem::', node)
            for op in ('validate', 'node_tree', 'data_tree', 'clear'):
                w.call(w.attr(sto, 'data'), op)
            w.attr(sto, 'complete')
            snap.check('Compilation(%s, %s)' % (w.sh(subs), w.sh(opts)))
            opts.append('zz')
            w.expect_same(w.call(node, 'to_json'), js, 'Compilation after '
                          'the list of optionals was changed')
            w.expect_same(w.call(n2, 'to_json'), js, 'second Compilation '
                          'after the list of optionals was changed')
        for o in ('max_shape', 'min_shape', 'depends_on'):
            for n in (1, 2):
                val = [3, 4][:n] if o != 'depends_on' else ['t', 's'][:n]
                snap = Snap(w, val)
                k = {o: val}
                if o == 'depends_on':
                    k['ndim'] = n
                node = w.S('Array', dtype='float64', **k)
                js = w.call(node, 'to_json')
                w.raises(w.call, node, 'validate', w.arr(
                    'float64', (3, 4)[:n]), [None] * n)
                snap.check('Array(%s=%s)' % (o, val))
                val.append(9)
                w.expect_same(w.call(node, 'to_json'), js, 'Array after its '
                              'list %s was changed' % o)
    add('options', 'containers given to schema constructors stay the '
        'user\'s', options)

    def alternatives(w):
        S, B = leaf_desc('String'), leaf_desc('Bool')
        for defer in (False, True):
            alts = [w.mk(B), w.call(w.mk(Lst(B)), 'hash'), w.mk(Comp(a=S))]
            node = w.mk(S)
            snap = Snap(w, alts, node)
            sto, data = w.new('inmem', Comp(a=S))
            ps = pseudo(w, data, node, schema_alternatives=alts,
                        defer_open=defer)
            w.call(ps, '__enter__')
            w.call(ps, 'close')
            snap.check('PseudoStorage(schema_alternatives)')
            w.check(len(alts) == 3, 'PseudoStorage changes the alternatives')
            del alts[:]
            w.no_exc(w.raises(w.call, ps, 'open'), 'PseudoStorage reopened '
                     'after its list of alternatives was emptied')
            w.call(ps, 'close')
        # known texts, in an order of the user's own, also twice
        for alts in (['b', 'a'], ['b', 'a', 'b'], ['', 'B', 'a', 'A'],
                     ['b'], []):
            for ds in (w.new('inmem', S)[1], w.path('npz', 'alts')):
                given = list(alts)
                ps = pseudo(w, ds, node, schema_alternatives=given,
                            defer_open=True)
                w.check(given == alts, 'PseudoStorage changes the '
                        'alternatives %r to %r' % (alts, given))
                w.call(ps, 'open')
                w.call(ps, 'close')
                w.check(given == alts, 'opening changes the alternatives '
                        '%r to %r' % (alts, given))
                if len(alts) != len(set(alts)):
                    continue
                w.I.fs.files.clear()
    add('alternatives', 'the alternatives given to a PseudoStorage stay the '
        'user\'s', alternatives)
    return {}


# ------------------------------------------------------------------- C39
def c39(add, thorough, src):
    def same_node(w, old, new, d, what, k):
        """Two references are one node: a value set through one is seen
        through the other."""
        if d.kind in ('Compilation', 'List'):
            w.check(old is new, what + ': the reference taken before is '
                    'another object')
            return
        for a, c, way in ((old, new, 'older'), (new, old, 'newer')):
            v = w.val(d, 0)
            w.call(a, 'replace', v)
            r, exc = w.attempt(w.attr, c, 'value')
            w.no_exc(exc, '%s: reading after setting through the %s '
                     'reference' % (what, way))
            w.expect_same(r, v, '%s: value after setting through the %s '
                          'reference' % (what, way))
        w.call(old, 'clear')
        w.expect_same(w.attr(new, 'empty'), True, what + ': empty after '
                      'clearing through the older reference')

    def put(w, data, desc, spec):
        for p, d, s in nodes_of(desc, spec):
            if d.kind not in ('Compilation', 'List') and s is not EMPTY:
                w.call(at(w, data, p), 'replace', s)

    def ops(w, b, desc, spec, sto):
        """name -> (operation, nodes whose items do not survive)"""
        def other():
            s2, d2 = w.new('inmem', desc)
            w.fill(d2, desc, spec)
            return d2
        data = w.attr(sto, 'data')
        new = lambda: realize(w, desc, spec, lambda d, s: w.val(d, 0))
        out = {
            'nothing': (lambda: None, False),
            'validate': (lambda: w.raises(w.call, sto, 'validate'), False),
            'data_tree': (lambda: w.call(data, 'data_tree'), False)
            if desc.kind in ('Compilation', 'List') else (lambda: None,
                                                          False),
            'node_tree': (lambda: w.call(data, 'node_tree'), False),
            'replace': (lambda: w.call(data, 'replace', plain(desc, new())),
                        True),
            'load_from': (lambda: w.call(data, 'load_from', other()), True),
            'load_from itself\'s copy': (lambda: w.call(
                data, 'load_from', w.attr(w.call(sto, 'save_as',
                                                 '::inmem::'), 'data')),
                True),
            'clear': (lambda: w.call(data, 'clear'), True),
            'save_as': (lambda: w.call(sto, 'save_as', '::inmem::'), False),
        }
        if b != 'inmem':
            out['save'] = (lambda: w.call(sto, 'save', force=True), False)
            out['save twice'] = (lambda: (w.call(sto, 'save', force=True),
                                          w.call(sto, 'save', force=True)),
                                 False)
            out['load'] = (lambda: (w.call(sto, 'save', force=True), w.load(
                w.attr(sto, 'storage_path'), force=True)), False)

        def pseudo_():
            ps = pseudo(w, data, w.attr(sto, 'schema_node'))
            w.check(w.attr(ps, 'data') is data, '%s: the node of a '
                    'PseudoStorage is not the given node' % b)
            w.call(ps, 'close')
        out['PseudoStorage'] = (pseudo_, False)
        return out

    def under_list(path):
        return any(isinstance(p, int) for p in path)

    for b in BACKENDS:
        for name, desc in list(trees().items()) + [
                ('kinds', comp_of_kinds())]:
            def refs(w, b=b, name=name, desc=desc):
                st = list(itertools.islice(states_of(desc, (1,), (2,)), 1))[0]
                spec = realize(w, desc, st, lambda d, s: w.val(d, 0))
                n = 0
                sto, _ = w.new(b, desc, 'o')
                void = realize(w, desc, st, lambda d, s: EMPTY)
                for op in ops(w, b, desc, spec, sto):
                    for loaded, start in (((0, spec), (1, spec), (0, void))
                                          if b != 'inmem' else
                                          ((0, spec), (0, void))):
                        n += 1
                        nm = 'x%d' % n
                        sto, data = w.new(b, desc, nm)
                        w.fill(data, desc, start)
                        if start is void and op[:4] in ('load', 'save') and \
                                not full_lists(desc, start):
                            continue
                        if loaded:
                            w.call(sto, 'save', force=True)
                            w.fresh()
                            sto = w.load(w.path(b, nm), force=True)
                            data = w.attr(sto, 'data')
                        held = {p: (at(w, data, p), d) for p, d, s in
                                nodes_of(desc, spec)}
                        f, gone = ops(w, b, desc, spec, sto)[op]
                        f()
                        w.check(w.attr(sto, 'data') is data, '%s: %r: after '
                                '%s the storage has another top-level node'
                                % (b, desc, op))
                        for p, (old, d) in held.items():
                            if gone and under_list(p):
                                continue
                            what = '%s: %r%s: node %s after %s' % (
                                b, desc, ' loaded' if loaded else '', p, op)
                            same_node(w, old, at(w, data, p), d, what, n)
                            w.check(at(w, data, p) is at(w, data, p), what +
                                    ': two accesses give two nodes')
            add('refs:%s:%s' % (b, name), 'a reference to a node stays the '
                'node', refs)

        def items(w, b=b):
            """appending and in-place work leave the other items alone"""
            for kind in ('String', 'Array', 'Bool'):
                d = leaf_desc(kind)
                for desc, path in ((Lst(d), ()), (Comp(l=Lst(d)), ('l',)),
                                   (Lst(Lst(d)), (0,))):
                    sto, data = w.new(b, desc, 'i%s%d' % (kind, len(
                        repr(desc))))
                    if path == (0,):
                        w.call(data, 'append')
                    lst = at(w, data, path)
                    held, vals = [], []
                    for i in range(120 if thorough else 13):
                        v = w.val(d, 0)
                        w.call(lst, 'append', v)
                        vals.append(v)
                        held.append(w.item(lst, -1))
                        what = '%s: %r with %d items' % (b, desc, i + 1)
                        if i == 2 and b != 'inmem':
                            w.call(sto, 'save', force=True)
                            what += ', saved'
                        for k, (h, x) in enumerate(zip(held, vals)):
                            w.check(w.item(lst, k) is h, '%s: item %d is '
                                    'another object than before' % (what, k))
                            w.expect_same(w.attr(h, 'value'), x, '%s: item '
                                          '%d' % (what, k))
                    vals[1] = w.val(d, 0)
                    w.call(held[1], 'replace', vals[1])
                    for k, x in enumerate(vals):
                        w.expect_same(w.attr(w.item(lst, k), 'value'), x,
                                      '%s: item %d after setting item 1 '
                                      'through its reference' % (what, k))
        add('items:%s' % b, 'appending keeps the items there are', items)

        def gaps(w, b=b):
            """the same with items that are empty, and filled later"""
            count = 0
            for kind in ('String', 'Array', 'Bool'):
                d = leaf_desc(kind)
                for desc, path in ((Lst(d), ()), (Comp(l=Lst(d)), ('l',)),
                                   (Lst(Lst(d)), (0,)),
                                   (Lst(Comp(x=d)), ())):
                    for period in (2, 3):
                        count += 1
                        sto, data = w.new(b, desc, 'g%d' % count)
                        if path == (0,):
                            w.call(data, 'append')
                        lst = at(w, data, path)
                        wrap = (lambda n: w.attr(n, 'x')) if isinstance(
                            desc.sub, D) and desc.kind == 'List' and \
                            desc.sub.kind == 'Compilation' else \
                            (lambda n: n)
                        held, vals = [], []

                        def same(what):
                            for k, (h, v) in enumerate(zip(held, vals)):
                                w.check(w.item(lst, k) is h, '%s: item %d '
                                        'is another object than before'
                                        % (what, k))
                                n = wrap(h)
                                w.expect_same(w.attr(n, 'empty'), v is
                                              EMPTY, '%s: item %d empty'
                                              % (what, k))
                                if v is not EMPTY:
                                    w.expect_same(w.attr(n, 'value'), v,
                                                  '%s: item %d' % (what, k))
                        for i in range(9):
                            v = EMPTY if i % period else w.val(d, 0)
                            w.call(lst, 'append')
                            held.append(w.item(lst, -1))
                            if v is not EMPTY:
                                w.call(wrap(held[-1]), 'replace', v)
                            vals.append(v)
                            same('%s: %r with %d items, some empty' % (
                                b, desc, i + 1))
                        for i in range(8, -1, -1):
                            if vals[i] is EMPTY:
                                vals[i] = w.val(d, 0)
                                w.call(wrap(held[i]), 'replace', vals[i])
                            else:
                                vals[i] = EMPTY
                                w.call(wrap(held[i]), 'clear')
                            same('%s: %r after item %d was set or cleared'
                                 % (b, desc, i))
        add('gaps:%s' % b, 'empty items stay, too', gaps)

        def fields(w, b=b):
            """operations on one field, all others being held"""
            desc = Comp(a=leaf_desc('String'), b=leaf_desc('Array'),
                        c=Comp(x=leaf_desc('Bool')),
                        l=Lst(leaf_desc('String')))
            k = 0
            for path, op, args in (
                    (('a',), 'clear', ()), (('a',), 'replace', ('new',)),
                    (('c',), 'clear', ()), (('c',), 'replace',
                                            ({'x': False},)),
                    (('l',), 'clear', ()), (('l',), 'append', ('z',)),
                    (('l',), 'replace', (['z'],)),
                    ((), 'replace', ({'a': 'new'},)), ((), 'clear', ())):
                k += 1
                sto, data = w.new(b, desc, 'f%d' % k)
                w.fill(data, desc, {'a': 'x', 'b': w.val(desc.sub['b']),
                                    'c': {'x': True}, 'l': ['p', 'q']})
                held = {p: at(w, data, p) for p in (
                    ('a',), ('b',), ('c',), ('c', 'x'), ('l',))}
                w.call(at(w, data, path), op, *args)
                for p, h in held.items():
                    what = '%s: %s after %s() of %s' % (
                        b, p, op, path or 'the top-level node')
                    w.check(at(w, data, p) is h, what + ': another object '
                            'than before')
        add('fields:%s' % b, 'setting or clearing a node replaces no other '
            'node', fields)
    return {}
