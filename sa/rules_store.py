"""Rules about storages, backends and files: C16 - C30, C33."""
import itertools

from .world import *
from .rules_schema import object_of
from .rules_data import (at, states_of, realize, nodes_of, state_trees, opt,
                         wraps, make_items, leaves_of, blank_of, cdesc,
                         cval, CHECKED, CHECKED2, is_empty)

SVE = 'SubnodeValidationError'
VE = 'ValidationError'


def backend_of(w, sto):
    return sto.cls.module.rpartition('.')[2]


def all_kinds_desc(**extra):
    """A tree with every leaf kind, alone, in a List and in a List of
    Compilations."""
    f = {k.lower(): leaf_desc(k) for k in LEAVES}
    return f


def comp_of_kinds():
    return Comp(**all_kinds_desc())


def kinds_spec(w, variant=0, leave=()):
    return {k.lower(): w.val(leaf_desc(k), variant) for k in LEAVES
            if k not in leave}


# trees whose save/load is free of the known limitation for empty list items
def full_lists(desc, st):
    """No list item is completely empty."""
    for p, d, s in nodes_of(desc, st):
        if d.kind == 'List':
            for x in s:
                if is_empty(d.sub, x):
                    return False
    return True


# ------------------------------------------------------------------- C16
def c16(add, thorough, src):
    trees = state_trees()
    trees = {n: trees[n] for n in ('flat', 'flat-opt', 'nested', 'complist',
                                   'listcomp', 'list', 'listlist')}
    trees['leaf'] = leaf_desc('String')
    for b1, b2 in itertools.product(BACKENDS, repeat=2):
        for how in ('create_from', 'save_as'):
            def copy(w, b1=b1, b2=b2, how=how):
                k = 0
                for name, desc in trees.items():
                    sts = list(itertools.islice(
                        states_of(desc, (0, 1), (0, 1, 2)), 200))
                    sts = sts[::max(1, len(sts) // (20 if thorough
                                                    else 6))]
                    for st in sts:
                        for explicit in (None, b2):
                            k += 1
                            one(w, b1, b2, how, desc, realize(
                                w, desc, st, lambda d, s: EMPTY if not s
                                else w.val(d, s and k % 2)), explicit, k,
                                False)
                            if b1 != 'inmem' and full_lists(desc, realize(
                                    w, desc, st, lambda d, s: EMPTY
                                    if not s else 1)):
                                k += 1
                                one(w, b1, b2, how, desc, realize(
                                    w, desc, st, lambda d, s: EMPTY
                                    if not s else w.val(d, k % 2)),
                                    explicit, k, True)
            add('copy:%s:%s:%s' % (how, b1, b2), 'the new storage has the '
                'same schema and data, at the requested place', copy)

            def kinds(w, b1=b1, b2=b2, how=how):
                for v in (0, 1):
                    desc = comp_of_kinds()
                    for i, leave in enumerate(((), LEAVES[::2],
                                               LEAVES[1::2], LEAVES)):
                        one(w, b1, b2, how, desc,
                            kinds_spec(w, v, leave), b2 if v else None,
                            'k%d%d' % (v, i), bool(i % 2)
                            and b1 != 'inmem')
            add('kinds:%s:%s:%s' % (how, b1, b2), 'every type of leaf is '
                'copied', kinds)

            def invalid(w, b1=b1, b2=b2, how=how):
                x = leaf_desc('String', min_length=3, max_length=4)
                l = Lst(leaf_desc('Bool'), min_length=2, max_length=3)
                on = leaf_desc('Date', set_on_create=True)
                k = 0
                for desc, spec in (
                        (x, 'ab'), (x, 'too long'), (x, EMPTY), (l, [True]),
                        (l, []), (l, [EMPTY] * 4),
                        (Comp(a=x, l=l), {'a': 'ab', 'l': [False]}),
                        (Comp(a=x, l=l), {}), (Lst(x), ['', EMPTY, 'abc']),
                        (on, EMPTY), (Comp(d=on, a=x), {}),
                        (Comp(d=on, c=Comp(e=on)), {}),
                        (Lst(on), [EMPTY, EMPTY]),
                        (Lst(Comp(d=on)), [{}])):
                    k += 1
                    one(w, b1, b2, how, desc, spec, b2 if k % 2 else None,
                        'i%d' % k, False, True)
            add('invalid:%s:%s:%s' % (how, b1, b2), 'data that is not valid, '
                'and fields cleared since their creation, are copied as they '
                'are', invalid)

    def undetectable(w):
        """no backend is guessed from the source"""
        desc = Comp(a=leaf_desc('String'))
        for b1 in BACKENDS:
            src, data = w.new(b1, desc, 'u')
            w.fill(data, desc, {'a': 'x'})
            if b1 != 'inmem':
                w.call(src, 'save')
            for name in ('d.dat', 'none', 'x.npz.bak', 'x.NPZ', 'h5', '.',
                         'x.npy', 'mat', 'x.mat ', 'x.h5x'):
                path = sstr([w.dir, '/' + name])
                before = w.files()
                for how in ('create_from', 'save_as'):
                    exc = w.raises(w.fn, 'dsch.frontend', 'create_from',
                                   path, src) if how == 'create_from' else \
                        w.raises(w.call, src, 'save_as', path)
                    what = '%s: %s to %s' % (b1, how, w.sh(path))
                    w.expect_exc(exc, 'AutodetectBackendError', what)
                    w.expect_files(before, what)
                    w.expect_dump(data, desc, {'a': 'x'}, what)
    add('undetectable', 'the backend is the requested or the detected one, '
        'never that of the source', undetectable)

    def one(w, b1, b2, how, desc, spec, explicit, k, loaded, cleared=False):
        node = w.mk(desc)
        s1 = w.create(w.path(b1, 'src%s' % k), node)
        d1 = w.attr(s1, 'data')
        (set_spec if cleared else type(w).fill)(w, d1, desc, spec)
        h = w.call(s1, 'schema_hash')
        if loaded:
            w.call(s1, 'save')
            s1 = w.load(w.path(b1, 'src%s' % k))
            d1 = w.attr(s1, 'data')
        p2 = w.path(b2, 'dst%s' % k)
        if explicit and b2 != 'inmem':
            p2 = sstr([w.dir, '/dst%s.dat' % k])
        what = '%s %s -> %s (backend %s) of %r as %s' % (
            how, b1, b2, explicit, desc, w.sh(spec))
        before = w.files()
        if how == 'create_from':
            s2 = w.fn('dsch.frontend', 'create_from', p2, s1, explicit) \
                if explicit else w.fn('dsch.frontend', 'create_from', p2, s1)
        else:
            s2 = w.call(s1, 'save_as', p2, explicit) if explicit else \
                w.call(s1, 'save_as', p2)
        w.check(isinstance(s2, Obj) and s2.cls.name == 'Storage'
                and s2 is not s1, what + ': does not return a new storage')
        w.expect_same(backend_of(w, s2), b2, what + ': backend')
        w.expect_same(w.attr(s2, 'storage_path'), p2, what + ': path')
        w.expect_same(w.call(s2, 'schema_hash'), h, what + ': schema hash')
        w.expect_dump(w.attr(s2, 'data'), desc, spec, what + ': new data')
        w.expect_dump(d1, desc, spec, what + ': source data')
        w.expect_same(w.call(s1, 'schema_hash'), h, what + ': source schema')
        w.expect_same(w.attr(s1, 'storage_path'), w.path(b1, 'src%s' % k),
                      what + ': source path')
        now = w.files()
        for f in before[0]:
            w.check(f in now[0] and now[0][f] is before[0][f],
                    what + ': changes the file %s' % w.sh(f))
        if b2 != 'inmem' and full_lists(desc, fillup(desc, spec)):
            w.call(s2, 'save', force=True)
            w.fresh()
            s3 = w.fn('dsch.frontend', 'load', p2, backend=b2, force=True)
            w.expect_dump(w.attr(s3, 'data'), desc, spec,
                          what + ': new storage saved and loaded')
    return {}


def fillup(desc, spec):
    if desc.kind == 'Compilation':
        return {n: fillup(s, spec[n]) if n in spec else blank_of(s)
                for n, s in desc.sub.items()}
    if desc.kind == 'List':
        return [fillup(desc.sub, x) for x in spec]
    return spec


# ------------------------------------------------------------------- C17
def clock_of(v):
    """('local', n) if v is one reading of the clock, else None."""
    srcs = set()
    for f, c in zip(v.fields, v.comps):
        if not (isinstance(c, Term) and c.op == 'comp'
                and isinstance(c.args[0], Term) and c.args[0].op == 'clock'
                and c.args[1] == f):
            return None
        srcs.add(c.args[0].args)
    return srcs.pop() if len(srcs) == 1 else None


def c17(add, thorough, src):
    for b in BACKENDS:
        for kind in ('Date', 'DateTime', 'Time'):
            def new(w, b=b, kind=kind):
                on = leaf_desc(kind, set_on_create=True)
                off = leaf_desc(kind, set_on_create=False)
                dflt = leaf_desc(kind)
                trees = [(on, [()]), (Comp(x=on, y=off, z=dflt),
                                      [('x',)]),
                         (Comp(c=Comp(c=Comp(x=on, y=dflt))),
                          [('c', 'c', 'x')]),
                         (Lst(on), [(0,), (1,)]),
                         (Lst(off), []),
                         (Lst(Comp(y=off, x=on)), [(0, 'x'), (1, 'x')]),
                         (Comp(l=Lst(Lst(on))), [('l', 0, 0),
                                                 ('l', 1, 1)]),
                         (Comp(l=Lst(Comp(m=Lst(Comp(x=on, y=off))))),
                          [('l', 0, 'm', 0, 'x'), ('l', 1, 'm', 0, 'x')])]
                for k, (desc, paths) in enumerate(trees):
                    node = w.mk(desc)
                    for again in range(2):
                        since = w.I.fresh
                        sto = w.create(w.path(b, 'n%d%d' % (k, again)), node)
                        data = w.attr(sto, 'data')
                        seen = set()
                        fresh_ones(w, b, kind, desc, data, since, seen)
                        for p in paths:
                            since = w.I.fresh
                            make_items(w, data, desc, p)
                            fresh_ones(w, b, kind, desc, data, since, seen)
                        for p, d, s in list(lists_in(desc, shape_spec(
                                w, data, desc))) * 2:
                            since = w.I.fresh
                            w.call(at(w, data, p), 'append')
                            fresh_ones(w, b, kind, desc, data, since, seen)
                    sto, data = w.new(b, desc, 'n%d' % k)
                    for p in paths:
                        make_items(w, data, desc, p)
                    if desc.kind == 'List' and not paths:
                        w.call(data, 'append')
                    for p, d, s in nodes_of(desc, shape_spec(w, data,
                                                             desc)):
                        if d.kind != kind:
                            continue
                        node = at(w, data, p)
                        what = '%s: new %r: node %s' % (b, desc, p)
                        if d.opts.get('set_on_create'):
                            w.expect_same(w.attr(node, 'empty'), False,
                                          what + ': empty')
                            v = w.attr(node, 'value')
                            current(w, v, kind, what)
                        else:
                            w.expect_same(w.attr(node, 'empty'), True,
                                          what + ': empty')
            def neighbours(w, b=b, kind=kind):
                on = leaf_desc(kind, set_on_create=True)
                for j, sub in enumerate((on, Comp(x=on), Lst(on))):
                    desc = Lst(sub)
                    for k, order in enumerate(itertools.product(
                            (0, 1), repeat=3)):
                        sto, data = w.new(b, desc, 'o%d%d' % (j, k))
                        for i, clear in enumerate(order):
                            w.call(data, 'append')
                            item = w.item(data, i)
                            leaf = item
                            if j == 1:
                                leaf = w.attr(item, 'x')
                            elif j == 2:
                                w.call(item, 'append')
                                leaf = w.item(item, 0)
                            what = '%s: item %d of %r, others cleared %s' \
                                % (b, i, desc, order[:i])
                            w.expect_same(w.attr(leaf, 'empty'), False, what)
                            current(w, w.attr(leaf, 'value'), kind, what)
                            if clear:
                                w.call(item, 'clear')
            add('neighbours:%s:%s' % (b, kind), 'set_on_create fills an '
                'appended item whatever the other items hold', neighbours)

            add('new:%s:%s' % (b, kind), 'set_on_create fills every new '
                'node with the current local date/time', new)

            def given(w, b=b, kind=kind):
                on = leaf_desc(kind, set_on_create=True)
                sto, data = w.new(b, Lst(on))
                x = w.val(on, 0)
                w.call(data, 'append', x)
                w.expect_same(w.attr(w.item(data, 0), 'value'), x,
                              b + ': appended value')
                w.call(w.item(data, 0), 'clear')
                w.expect_same(w.attr(w.item(data, 0), 'empty'), True,
                              b + ': cleared item')
                desc = Comp(x=on)
                sto, data = w.new(b, desc, 'c')
                w.call(data, 'clear')
                w.expect_dump(data, desc, {}, b + ': cleared Compilation')
                w.call(w.attr(data, 'x'), 'replace', x)
                w.expect_dump(data, desc, {'x': x}, b + ': value set')
            add('given:%s:%s' % (b, kind), 'explicitly set values and '
                'clearing win over set_on_create', given)

            if b == 'inmem':
                continue

            def loaded(w, b=b, kind=kind):
                on = leaf_desc(kind, set_on_create=True)
                S = leaf_desc('String')
                x = lambda: w.val(on, 0)
                cases = [
                    (Comp(x=on, s=S), {'s': 'a'}),
                    (Comp(x=on, s=S), {'s': 'a', 'x': x()}),
                    (Comp(x=on, s=S), {}),
                    (on, EMPTY), (on, x()),
                    (Comp(c=Comp(x=on, s=S), t=S), {'c': {'s': 'b'}}),
                    (Comp(c=Comp(x=on, s=S), t=S), {'t': 'b'}),
                    (Comp(c=Comp(x=on, s=S), t=S), {}),
                    (Lst(Comp(x=on, s=S)), [{'s': 'a'}, {'s': 'b',
                                                         'x': x()}]),
                    (Comp(l=Lst(Comp(c=Comp(x=on), s=S))),
                     {'l': [{'s': 'a'}]}),
                    (Lst(on), [x(), x()]), (Lst(on), []),
                    (Comp(l=Lst(on), s=S), {'s': 'a'}),
                ]
                for k, (desc, spec) in enumerate(cases):
                    sto, data = w.new(b, desc, 'n%d' % k)
                    w.call(data, 'clear')
                    set_spec(w, data, desc, spec)
                    w.expect_dump(data, desc, spec, 'before saving')
                    w.call(sto, 'save')
                    for again in range(2):
                        if again:
                            w.fresh()
                        st2 = w.load(w.path(b, 'n%d' % k))
                        w.expect_dump(w.attr(st2, 'data'), desc, spec,
                                      '%s: %r loaded' % (b, desc))
                    # and saved once more
                    w.call(st2, 'save')
                    st3 = w.load(w.path(b, 'n%d' % k))
                    w.expect_dump(w.attr(st3, 'data'), desc, spec,
                                  '%s: %r loaded, saved, loaded' % (b, desc))
                    # items appended after loading are new nodes
                    if desc.kind == 'List' and desc.sub is on:
                        d3 = w.attr(st3, 'data')
                        w.call(d3, 'append')
                        current(w, w.attr(w.item(d3, -1), 'value'), kind,
                                b + ': item appended after loading')
            add('loaded:%s:%s' % (b, kind), 'loading never invents dates',
                loaded)

    def lists_in(desc, spec):
        return [x for x in nodes_of(desc, spec) if x[1].kind == 'List']

    def fresh_ones(w, b, kind, desc, data, since, seen):
        """nodes created since then have a reading of the clock since then"""
        for p, d, s in nodes_of(desc, shape_spec(w, data, desc)):
            node = at(w, data, p)
            if d.kind == kind and d.opts.get('set_on_create') and \
                    id(node) not in seen:
                seen.add(id(node))
                current(w, w.attr(node, 'value'), kind, '%s: %r: node %s '
                        'just created' % (b, desc, p), since)

    def current(w, v, kind, what, since=None):
        w.check(isinstance(v, DateV) and v.kind == kind.lower(),
                '%s: value %s is no %s' % (what, w.show(v), kind))
        c = clock_of(v)
        w.check(c is not None and c[0] == 'local' and v.tz is None,
                '%s: value %s is not the current local %s' % (
                    what, w.show(v), kind))
        if since is not None:
            w.check(int(c[1].partition('#')[2]) > since, what + ': the value '
                    'was read from the clock before the node was created')
    return {}


def shape_spec(w, node, desc):
    """Spec-shaped skeleton of a data tree (for iterating its nodes)."""
    if desc.kind == 'Compilation':
        return {n: shape_spec(w, w.attr(node, n), s)
                for n, s in desc.sub.items()}
    if desc.kind == 'List':
        return [shape_spec(w, w.item(node, i), desc.sub)
                for i in range(w.I.len_(node))]
    return None


def set_spec(w, node, desc, spec):
    """Like fill, but clears what spec leaves empty (set_on_create)."""
    if desc.kind == 'Compilation':
        for n, s in desc.sub.items():
            set_spec(w, w.attr(node, n), s, spec.get(n, blank_of(s)))
    elif desc.kind == 'List':
        for x in spec:
            w.call(node, 'append')
            set_spec(w, w.item(node, -1), desc.sub, x)
    elif spec is EMPTY:
        w.call(node, 'clear')
    else:
        w.call(node, 'replace', spec)


# ------------------------------------------------------------------- C18
def c18(add, thorough, src):
    from .rules_schema import schema_classes
    mods = sorted(m.rpartition('.')[2] for m in src
                  if m.startswith('dsch.backends.'))

    def classes(w):
        w.check(set(BACKENDS) <= set(mods), 'backend modules %s' % mods)
        base = w.mod('dsch.data').ns
        item = base['ItemNode']
        for b in BACKENDS:
            m = w.mod('dsch.backends.' + b)
            for n in schema_classes(w):
                c = m.ns.get(n)
                w.check(isinstance(c, ClassVal) and c.name == n,
                        'backend %s has no data node class %s' % (b, n),
                        '%s: module' % m.file)
                want = base.get(n, item)
                w.check(want in c.mro, '%s.%s is not derived from data.%s'
                        % (b, n, want.name), '%s: %s' % (m.file, n))
                if item in c.mro:
                    for meth in ('replace', '_value', 'clear',
                                 '_init_from_storage'):
                        f = c.lookup(meth)
                        w.check(f is not None, '%s.%s has no %s' % (
                            b, n, meth), '%s: %s' % (m.file, n))
            st = m.ns.get('Storage')
            w.check(isinstance(st, ClassVal), 'backend %s has no Storage'
                    % b, '%s: module' % m.file)
        got = w.I.getattr_(w.mod('dsch.backends'), 'available_backends')
        w.check(set(w.I.iter_(got)) == set(mods),
                'available_backends is %s' % (got,))
    add('classes', 'each backend defines each data node class', classes)

    def check_tree(w, b, node, desc, sn, parent, what):
        w.check(isinstance(node, Obj) and node.cls.name == desc.kind
                and node.cls.module == 'dsch.backends.' + b,
                '%s: %s instead of a %s node of this backend' % (
                    what, w.sh(node), desc.kind))
        w.check(w.attr(node, 'schema_node') is sn,
                what + ': bound to another schema node')
        p = w.attr(node, 'parent')
        w.check(p is parent, '%s: parent is %s' % (what, w.sh(p)))
        if desc.kind == 'Compilation':
            sub = w.attr(sn, 'subnodes')
            for n, d in desc.sub.items():
                check_tree(w, b, w.attr(node, n), d, w.I.getitem(sub, n),
                           node, what + '.' + n)
        elif desc.kind == 'List':
            for i in range(w.I.len_(node)):
                check_tree(w, b, w.item(node, i), desc.sub,
                           w.attr(sn, 'subnode'), node, '%s[%d]' % (what, i))

    for b in BACKENDS:
        def build(w, b=b):
            every = comp_of_kinds()
            desc = Comp(k=every, l=Lst(every), ll=Lst(Lst(leaf_desc(
                'Bool'))), m=Lst(Comp(n=Lst(leaf_desc('Date')))))
            node = w.mk(desc)
            sto = w.create(w.path(b), node)
            data = w.attr(sto, 'data')
            w.check(w.attr(sto, 'schema_node') is node,
                    b + ': storage has another schema node')
            check_tree(w, b, data, desc, node, None, b + ' new: data')
            spec = {'k': kinds_spec(w, 0), 'l': [kinds_spec(w, 1),
                                                 kinds_spec(w, 0)],
                    'll': [[True], [False, True]],
                    'm': [{'n': [w.val(leaf_desc('Date'), 0)]}]}
            w.fill(data, desc, spec)
            check_tree(w, b, data, desc, node, None, b + ' filled: data')
            for name, new in (('l', [kinds_spec(w, 0)] * 3),
                              ('ll', [[True, False], [True]])):
                w.call(w.attr(data, name), 'replace', new)
                spec[name] = new
            check_tree(w, b, data, desc, node, None, b + ' replaced: data')
            s2 = w.create(w.path(b, 'g'), w.mk(desc))
            w.call(w.attr(s2, 'data'), 'load_from', data)
            check_tree(w, b, w.attr(s2, 'data'), desc,
                       w.attr(s2, 'schema_node'), None,
                       b + ' copied: data')
            if b != 'inmem':
                w.call(sto, 'save')
                st2 = w.load(w.path(b))
                check_tree(w, b, w.attr(st2, 'data'), desc,
                           w.attr(st2, 'schema_node'), None,
                           b + ' loaded: data')
                d2 = w.attr(st2, 'data')
                w.call(w.attr(d2, 'l'), 'append', kinds_spec(w, 0))
                w.call(w.attr(d2, 'll'), 'append', [True])
                check_tree(w, b, d2, desc, w.attr(st2, 'schema_node'),
                           None, b + ' loaded and appended: data')
                # partially filled trees, too
                s3 = w.create(w.path(b, 'h'), w.mk(desc))
                w.call(s3, 'save', force=True)
                s4 = w.load(w.path(b, 'h'), force=True)
                check_tree(w, b, w.attr(s4, 'data'), desc,
                           w.attr(s4, 'schema_node'), None,
                           b + ' loaded without data: data')
        add('tree:%s' % b, 'every node is of its backend and bound to its '
            'own schema node and parent', build)

        for kind in LEAVES:
            def leaf(w, b=b, kind=kind):
                d = leaf_desc(kind)
                for name, (desc, path) in wraps(d).items():
                    for i, v in enumerate(w.variants(kind)):
                        nm = '%s%d' % (name, i)
                        sto, data = w.new(b, desc, nm)
                        leaf = make_items(w, data, desc, path)
                        x = w.val(d, v)
                        what = '%s: %s (%s, variant %d): ' % (b, kind, name,
                                                              v)
                        w.no_exc(w.raises(w.call, leaf, 'replace', x),
                                 what + 'replace')
                        r, exc = w.attempt(w.attr, leaf, 'value')
                        w.no_exc(exc, what + 'value')
                        w.expect_same(r, x, what + 'value')
                        if b != 'inmem':
                            w.no_exc(w.raises(w.call, sto, 'save'),
                                     what + 'save')
                        w.no_exc(w.raises(w.call, leaf, 'clear'),
                                 what + 'clear')
                        w.expect_same(w.attr(leaf, 'empty'), True,
                                      what + 'empty after clear')
                        if b != 'inmem' and not any(
                                isinstance(p, int) for p in path):
                            w.no_exc(w.raises(w.call, sto, 'save'),
                                     what + 'save without data')
            add('leaf:%s:%s' % (b, kind), 'every leaf type supports '
                'setting, reading, clearing and saving', leaf)
    return {'backends': mods}


# ------------------------------------------------------------------- C19
def c19(add, thorough, src):
    def check_value(w, b, desc, path, x, expect, what, k, again=True):
        sto, data = w.new(b, desc, k)
        leaf = make_items(w, data, desc, path)
        w.call(leaf, 'replace', x)
        w.expect_same(w.attr(leaf, 'value'), expect, what + ' as set')
        if b == 'inmem':
            return
        w.call(sto, 'save', force=True)
        w.expect_same(w.attr(leaf, 'value'), expect, what + ' after save')
        st2 = w.load(w.path(b, k), force=True)
        w.expect_same(w.attr(at(w, w.attr(st2, 'data'), path), 'value'),
                      expect, what + ' after loading')
        w.fresh()
        st2 = w.load(w.path(b, k), force=True)
        w.expect_same(w.attr(at(w, w.attr(st2, 'data'), path), 'value'),
                      expect, what + ' after loading in a new process')
        if again:
            w.call(st2, 'save', force=True)
            w.fresh()
            st2 = w.load(w.path(b, k), force=True)
            w.expect_same(w.attr(at(w, w.attr(st2, 'data'), path), 'value'),
                          expect, what + ' after saving and loading twice')

    for b in BACKENDS:
        for kind in LEAVES:
            def values(w, b=b, kind=kind):
                d = leaf_desc(kind)
                for name, (desc, path) in wraps(d).items():
                    for v in w.variants(kind):
                        x = w.val(d, v)
                        check_value(w, b, desc, path, x, x,
                                    '%s: %s (%s) variant %d' % (
                                        b, kind, name, v),
                                    '%s%d' % (name, v))
            add('value:%s:%s' % (b, kind), 'a value is read back as the '
                'same value', values)

            def edges(w, b=b, kind=kind):
                d = leaf_desc(kind)
                ymd = ((1, 1, 1), (99, 12, 31), (100, 1, 2), (255, 2, 3),
                       (256, 2, 3), (999, 9, 9), (1000, 1, 1), (1899, 1, 1),
                       (1969, 12, 31), (1970, 1, 1), (2000, 2, 29),
                       (2038, 1, 20), (9999, 12, 31))
                hms = ((0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0),
                       (0, 1, 0, 0), (1, 0, 0, 0), (12, 0, 0, 0),
                       (13, 1, 2, 3), (23, 59, 59, 999999),
                       (0, 0, 0, 65536), (7, 0, 0, 100000),
                       (0, 59, 0, 999), (23, 0, 59, 32768))
                if kind == 'Date':
                    cs = ymd
                elif kind == 'Time':
                    cs = hms
                else:
                    cs = [x + hms[i % len(hms)] for i, x in enumerate(ymd)]
                    cs += [ymd[i % len(ymd)] + x for i, x in enumerate(hms)]
                for k, c in enumerate(cs):
                    x = DateV(kind.lower(), list(c))
                    name = ('top', 'field', 'item')[k % 3]
                    desc, path = wraps(d)[name]
                    check_value(w, b, desc, path, x, x, '%s: %s %s' % (
                        b, kind, c), 'e%d' % k)
            if kind in ('Date', 'DateTime', 'Time'):
                add('edges:%s:%s' % (b, kind), 'known dates and times at '
                    'the ends of their ranges', edges)

            def successive(w, b=b, kind=kind):
                d = leaf_desc(kind)
                for name in ('top', 'field', 'item'):
                    desc, path = wraps(d)[name]
                    k = 0
                    for v1, v2 in itertools.product(w.variants(kind),
                                                    repeat=2):
                        k += 1
                        nm = '%s%d' % (name, k)
                        sto, data = w.new(b, desc, nm)
                        leaf = make_items(w, data, desc, path)
                        w.call(leaf, 'replace', w.val(d, v1))
                        if b != 'inmem' and k % 2:
                            w.call(sto, 'save')
                            sto = w.load(w.path(b, nm))
                            data = w.attr(sto, 'data')
                            leaf = at(w, data, path)
                        x = w.val(d, v2)
                        w.call(leaf, 'replace', x)
                        what = '%s: %s (%s) variant %d after %d' % (
                            b, kind, name, v2, v1)
                        w.expect_same(w.attr(leaf, 'value'), x, what)
                        if b != 'inmem':
                            w.call(sto, 'save')
                            w.fresh()
                            st2 = w.load(w.path(b, nm))
                            w.expect_same(
                                w.attr(at(w, w.attr(st2, 'data'), path),
                                       'value'), x, what + ' after loading')
            add('successive:%s:%s' % (b, kind), 'nothing of an older value '
                'is left behind', successive)

        for n in NUM_DTYPES:
            def scalar(w, b=b, n=n):
                ty = {'f': 'float', 'c': 'complex'}.get(dt(n).kind, 'int')
                d = leaf_desc('Scalar', dtype=n)
                k = 0
                for desc, path in (wraps(d)['field'], wraps(d)['item'],
                                   wraps(d)['top']):
                    zero = {'float': 0.0, 'complex': 0j}.get(ty, 0)
                    for x in (NpS(dt(n), Term('in', ('x',), ty)),
                              NpS(dt(n), zero),
                              NpS(dt(n), {'float': 1.5, 'complex': 1 + 2j}
                                  .get(ty, 100))):
                        k += 1
                        check_value(w, b, desc, path, x, x, '%s: Scalar %s '
                                    '(%s)' % (b, n, x), 's%d' % k)
                    # plain Python numbers are stored in the dtype
                    for x in (zero, {'float': 1.5, 'complex': 1 + 2j}
                              .get(ty, 7)):
                        k += 1
                        check_value(w, b, desc, path, x, NpS(dt(n), x),
                                    '%s: Scalar %s set to %r' % (b, n, x),
                                    's%d' % k)
            add('scalar:%s:%s' % (b, n), 'numbers are kept in the '
                'configured dtype', scalar)
        for n in ARR_DTYPES:
            def array(w, b=b, n=n):
                k = 0
                shapes = {0: [()], 1: [(3,), (1,), (0,)],
                          2: [(2, 3), (1, 3), (3, 1), (1, 1), (0, 3)],
                          3: [(2, 3, 4), (2, 3, 1), (1, 1, 1), (2, 1, 1),
                              (1, 3, 1)]}
                for ndim, shs in shapes.items():
                    d = leaf_desc('Array', dtype=n, ndim=ndim)
                    for shape in shs:
                        for name in ('field', 'item') if ndim != 1 else (
                                'field', 'item', 'top', 'deep'):
                            if n not in ('bool', 'int32', 'float64',
                                         'float16', 'complex128') and \
                                    name != 'field' and not thorough:
                                continue
                            desc, path = wraps(d)[name]
                            k += 1
                            x = w.arr(n, shape)
                            check_value(w, b, desc, path, x, x,
                                        '%s: Array %s of shape %s (%s)' % (
                                            b, n, shape, name), 'a%d' % k,
                                        thorough)
            add('array:%s:%s' % (b, n), 'arrays keep content, dtype and '
                'shape', array)
        def special(w, b=b):
            cases = []
            for v in (b'\0', b'\0\0', b'a\0', b'\0a', b'abc', b'\xff\xfe',
                      b'\n', b' ', b'1'):
                cases.append(('Bytes', v))
            for v in ('a', ' ', '0', 'False', 'a.b', '/', '\n', 'ä',
                      '日本', '[1]'):
                cases.append(('String', v))
            for kind, fields in (('Date', (2020, 12, 31)),
                                 ('DateTime', (2020, 12, 31, 23, 59, 59,
                                               999999)),
                                 ('DateTime', (1, 1, 1, 0, 0, 0, 1)),
                                 ('DateTime', (9999, 12, 31, 12, 0, 30, 0)),
                                 ('Time', (0, 0, 0, 0)),
                                 ('Time', (23, 59, 59, 999999)),
                                 ('Time', (12, 0, 0, 1))):
                cases.append((kind, DateV(kind.lower(), fields)))
            for v in (True, False):
                cases.append(('Bool', v))
            for k, (kind, v) in enumerate(cases):
                for name in ('field', 'top', 'item'):
                    desc, path = wraps(leaf_desc(kind))[name]
                    check_value(w, b, desc, path, v, v, '%s: %s %r (%s)' % (
                        b, kind, v, name), '%s%d' % (name, k), False)
        add('special:%s' % b, 'special values are kept', special)
    return {}


# ------------------------------------------------------------------- C20
def texts_of(content):
    """Every complete text stored in a file content."""
    out = set()

    def val(v):
        if isinstance(v, (str, Term, SStr)):
            out.add(v)
        elif isinstance(v, Arr) and v.buf.content[0] == 'el':
            for x in v.buf.content[1]:
                val(x)
        elif isinstance(v, NpS):
            val(v.src)
        elif isinstance(v, (tuple, list)):
            for x in v:
                val(x)
        elif isinstance(v, dict):
            for x in v.values():
                val(x)

    def h5(n):
        for a in n.attrs.values():
            val(a)
        if hasattr(n, 'value'):
            val(n.value)
        for k in getattr(n, 'kids', {}).values():
            h5(k)
    fmt = getattr(content, 'fmt', None)
    if fmt == 'hdf5':
        h5(content.root)
    elif fmt == 'npz':
        val(content.arrays)
    elif fmt == 'mat':
        val(content.trees)
    return out


def content_at(w, path):
    e = w.I.fs.files.get(w.I.libs.path_key(w.I, path))
    return e.content if e is not None else None


def roundtrip(w, b, desc, spec, name, what, again=False, keep=None):
    """create, fill, save, load: same schema, same tree."""
    sto = keep or w.create(w.path(b, name), w.mk(desc))
    data = w.attr(sto, 'data')
    if keep is None:
        set_spec(w, data, desc, spec)
    h = w.call(sto, 'schema_hash')
    js = w.call(w.attr(sto, 'schema_node'), 'to_json')
    w.call(sto, 'save', force=True)
    w.expect_dump(data, desc, spec, what + ' after save')
    for i in range(3 if again else 2):
        if i == 1:
            w.fresh()
        if i == 2:
            w.call(st2, 'save', force=True)
            w.fresh()
        st2 = w.load(w.path(b, name), force=True)
        mode = what + (' loaded', ' loaded in a new process',
                       ' loaded, saved and loaded')[i]
        w.expect_same(w.call(st2, 'schema_hash'), h, mode + ': schema hash')
        w.expect_same(w.call(w.attr(st2, 'schema_node'), 'to_json'), js,
                      mode + ': schema')
        w.expect_dump(w.attr(st2, 'data'), desc, spec, mode)
    w.check(js in texts_of(content_at(w, w.path(b, name))),
            what + ': the schema JSON text is not stored in the file')
    return st2


def c20(add, thorough, src):
    for b in FILE_BACKENDS:
        for name, desc in list(state_trees().items()) + [
                ('leaf', leaf_desc('String')),
                ('comp3', Comp(a=Comp(a=Comp(a=leaf_desc('Bool')),
                                      b=leaf_desc('String')),
                               b=leaf_desc('Date'))),
                ('list3', Lst(Lst(Lst(leaf_desc('Bool'))))),
                ('lists', Comp(l=Lst(leaf_desc('Bool')),
                               m=Lst(Comp(l=Lst(leaf_desc('Bool'))))))]:
            def tree(w, b=b, name=name, desc=desc):
                k = 0
                lens = (0, 1, 2, 3) if name in ('list', 'complist') else \
                    (0, 1, 2)
                sts = [st for st in itertools.islice(states_of(
                    desc, (0, 1), lens), 20000) if full_lists(
                        desc, realize(w, desc, st, lambda d, s: EMPTY
                                      if not s else 1))]
                n = 150 if thorough else 24
                sts = sts[::max(1, len(sts) // n)] + sts[-1:]
                for st in sts:
                    for v in (0, 1):
                        k += 1
                        spec = realize(w, desc, st, lambda d, s: EMPTY
                                       if not s else w.val(d, v))
                        roundtrip(w, b, desc, spec, 'n%d' % k, '%s: %r in '
                                  'state %s' % (b, desc, st), k % 4 == 0)
            add('tree:%s:%s' % (b, name), 'the loaded tree is the saved '
                'tree', tree)

        for kind in LEAVES:
            def kinds(w, b=b, kind=kind):
                d = leaf_desc(kind)
                e = lambda i: w.val(d, i % len(w.variants(kind)))
                k = 0
                cases = [
                    (d, EMPTY), (d, e(0)), (d, e(1)),
                    (Comp(x=d, y=d, z=d), {'y': e(0)}),
                    (Comp(x=d, y=d, z=d), {'x': e(1), 'z': e(0)}),
                    (Comp(x=d, y=d, z=d), {}),
                    (Comp(b=d, a=d, c=d), {'a': e(0), 'b': e(1),
                                           'c': e(0)}),
                    (Lst(d), []), (Lst(d), [e(0)]),
                    (Lst(d), [e(i) for i in range(5)]),
                    (Comp(l=Lst(d), x=d), {'l': [e(1)]}),
                    (Comp(l=Lst(d), x=d), {'x': e(1)}),
                    (Lst(Lst(d)), [[e(0), e(1)], [e(1)]]),
                    (Lst(Comp(x=d, y=d)), [{'x': e(0)}, {'y': e(1)},
                                           {'x': e(1), 'y': e(0)}]),
                    (Comp(c=Comp(x=d, y=d), d=Comp(x=d)),
                     {'c': {'y': e(0)}}),
                    (Comp(c=Comp(x=d, y=d), d=Comp(x=d)),
                     {'d': {'x': e(1)}}),
                ]
                for desc, spec in cases:
                    k += 1
                    roundtrip(w, b, desc, spec, 'k%d' % k, '%s: %r as %s'
                              % (b, desc, w.sh(spec)))
            add('kind:%s:%s' % (b, kind), 'every leaf type keeps its place '
                'and its emptiness', kinds)

        def mixed(w, b=b):
            every = comp_of_kinds()
            desc = Comp(k=every, l=Lst(every), m=Lst(Lst(leaf_desc(
                'Array'))), e=Comp(**all_kinds_desc()))
            for v, leave in ((0, ()), (1, LEAVES[::2]), (0, LEAVES[1::2])):
                spec = {'k': kinds_spec(w, v, leave), 'l': [
                    kinds_spec(w, 0), kinds_spec(w, 1, LEAVES[::2])],
                    'm': [[w.val(leaf_desc('Array'), i)] for i in
                          range(4)]}
                roundtrip(w, b, desc, spec, 'x%s%d' % (v, len(leave)),
                          '%s: tree with all leaf types' % b, True)
        add('mixed:%s' % b, 'trees with every node type', mixed)

        lens = (0, 1, 2, 9, 10, 11, 12, 101) + ((20, 100, 111, 257)
                                           if thorough else ())
        for n in lens:
            def order(w, b=b, n=n):
                S = leaf_desc('String')
                xs = ['v%d' % i for i in range(n)]
                cases = [
                    (Lst(S), xs), (Comp(l=Lst(S)), {'l': xs}),
                    (Lst(Comp(x=S, y=S)), [
                        {'x': 'a%d' % i} if i % 3 else {'y': 'b%d' % i}
                        for i in range(n)]),
                    (Lst(Lst(S)), [[x, x] for x in xs]),
                    (Lst(leaf_desc('Scalar')), [NpS(dt('float64'), i + .5)
                                                for i in range(n)]),
                    (Lst(leaf_desc('Bool')), [i % 3 == 0
                                              for i in range(n)]),
                    (Lst(leaf_desc('Array')), [w.arr('int32', (2,), els=(
                        i, -i)) for i in range(n)]),
                ]
                if n:
                    cases.append((Comp(c=Comp(l=Lst(Comp(m=Lst(S))))),
                                  {'c': {'l': [{'m': xs}]}}))
                for k, (desc, spec) in enumerate(cases):
                    roundtrip(w, b, desc, spec, 'o%d' % k,
                              '%s: %r with %d items' % (b, desc, n),
                              n == 11)
            add('order:%s:%d' % (b, n), 'lists keep order and length',
                order)

        def schemas(w, b=b):
            """option-rich schemas: the loaded schema is the stored one"""
            S = leaf_desc('String')
            descs = [
                D('String', None, max_length=5, min_length=1),
                D('Bytes', None, max_length=5),
                D('Scalar', None, dtype='int16', unit='V', max_value=5,
                  min_value=-3),
                D('Array', None, dtype='float32', unit='A', max_shape=(3,),
                  min_shape=(1,), max_value=9),
                D('Date', None, set_on_create=True),
                D('DateTime', None, set_on_create=True),
                D('Time', None, set_on_create=True),
                D('Array', None, dtype='int8', ndim=2),
                Lst(S, max_length=3, min_length=0),
                Comp(a=S), opt(Comp(a=S, b=S), 'b'),
                Comp(t=D('Array', None, dtype='float64'),
                     v=D('Array', None, dtype='float64',
                         depends_on=('t',))),
                Comp(zz=S, aa=Lst(Comp(q=S, b=leaf_desc('Bool')),
                                  max_length=2)),
            ]
            for k, desc in enumerate(descs):
                node = w.mk(desc)
                sto = w.create(w.path(b, 's%d' % k), node)
                h = w.call(node, 'hash')
                js = w.call(node, 'to_json')
                w.expect_same(w.call(sto, 'schema_hash'), h,
                              '%s: %r: hash of the storage' % (b, desc))
                w.call(sto, 'save', force=True)
                w.fresh()
                st2 = w.load(w.path(b, 's%d' % k), force=True)
                n2 = w.attr(st2, 'schema_node')
                what = '%s: %r loaded' % (b, desc)
                w.expect_same(w.call(st2, 'schema_hash'), h, what + ': hash')
                w.expect_same(w.call(n2, 'to_json'), js, what + ': JSON')
                w.expect_same(n2.cls.name, desc.kind, what + ': node type')
                w.check(js in texts_of(content_at(w, w.path(b, 's%d' % k))),
                        what + ': the schema JSON text is not in the file')
        add('schema:%s' % b, 'the loaded schema is the saved schema',
            schemas)

        # lists with completely empty items, one input per obligation
        S = leaf_desc('String')
        for name, (desc, spec) in {
                'leaf-last': (Lst(S), ['a', EMPTY]),
                'leaf-first': (Lst(S), [EMPTY, 'a']),
                'leaf-only': (Lst(S), [EMPTY]),
                'comp-last': (Lst(Comp(x=S)), [{'x': 'a'}, {}]),
                'comp-first': (Lst(Comp(x=S)), [{}, {'x': 'a'}]),
                'comp-only': (Lst(Comp(x=S)), [{}]),
                'list-last': (Lst(Lst(S)), [['a'], []]),
                'list-first': (Lst(Lst(S)), [[], ['a']]),
                'list-only': (Lst(Lst(S)), [[]])}.items():
            def empty(w, b=b, desc=desc, spec=spec, name=name):
                roundtrip(w, b, desc, spec, 'e', '%s: %s %s' % (
                    b, name, w.sh(spec)))
            add('emptyitem:%s:%s' % (b, name), 'empty list items keep their '
                'position', empty)
    return {}


# ------------------------------------------------------------------- C21
def c21(add, thorough, src):
    def run(w, b, desc, ops, seq, name, what):
        """Apply a sequence of operations to a storage and to a model."""
        w.I.fs.files.clear()
        sto = w.create(w.path(b, name), w.mk(desc))
        spec = blank_of(desc)
        for i, o in enumerate(seq):
            if o in ('save', 'load', 'reload'):
                if not full_lists(desc, fillup(desc, spec)):
                    return False
                w.call(sto, 'save', force=True)
                if o != 'save':
                    if o == 'reload':
                        w.fresh()
                    sto = w.load(w.path(b, name), force=True)
                continue
            spec = ops[o](w, w.attr(sto, 'data'), spec, i)
            if spec is None:
                return False
        if not full_lists(desc, fillup(desc, spec)):
            return False
        what = '%s: %r after %s' % (b, desc, what)
        w.expect_dump(w.attr(sto, 'data'), desc, spec, what + ' in memory')
        w.call(sto, 'save', force=True)
        w.fresh()
        st2 = w.load(w.path(b, name), force=True)
        w.expect_dump(w.attr(st2, 'data'), desc, spec, what + ', save and '
                      'load')
        # neither on the second load-and-save
        w.call(st2, 'save', force=True)
        st3 = w.load(w.path(b, name), force=True)
        w.expect_dump(w.attr(st3, 'data'), desc, spec, what + ', save, load, '
                      'save and load')
        return True

    def leafops(d, path):
        key = path[-1] if path else None

        def put(spec, v):
            if not path:
                return v
            out = dict(spec)
            if v is EMPTY:
                out.pop(key, None)
            else:
                out[key] = v
            return out

        def setv(w, data, spec, i, var=0):
            v = w.val(d, var)
            w.call(at(w, data, path), 'replace', v)
            return put(spec, v)

        def setitem(w, data, spec, i):
            v = w.val(d, 0)
            w.setattr(at(w, data, path), 'value', v)
            return put(spec, v)

        def clear(w, data, spec, i):
            w.call(at(w, data, path), 'clear')
            return put(spec, EMPTY)
        return {'set': setv, 'assign': setitem, 'clear': clear,
                'set-falsy': lambda w, data, s, i: setv(w, data, s, i, 1),
                'set-other': lambda w, data, s, i: setv(w, data, s, i, 2)
                if len(w_variants(d.kind)) > 2
                else setv(w, data, s, i, 0)}

    def w_variants(kind):
        return World.variants(None, kind)

    def renew(w, b):
        """every leaf of loaded nested data is cleared and set again"""
        x, y = leaf_desc('String'), leaf_desc('Array')
        shapes = {
            'List': (Lst(x), ['p', 'q', 'r']),
            'List of Compilations': (Lst(Comp(x=x, y=y)), lambda w: [
                {'x': 'p', 'y': w.val(y, 0)}, {'x': 'q'}]),
            'List of Lists': (Lst(Lst(x)), [['p'], ['q', 'r']]),
            'Compilation of Lists': (Comp(l=Lst(x), m=Lst(Lst(x))),
                                     {'l': ['p', 'q'], 'm': [['r'], ['s']]}),
            'Compilations': (Comp(c=Comp(d=Comp(x=x, y=y))), lambda w: {
                'c': {'d': {'x': 'p', 'y': w.val(y, 0)}}}),
            'Lists in Compilations': (
                Comp(c=Comp(l=Lst(Comp(c=Comp(x=x))))),
                {'c': {'l': [{'c': {'x': 'p'}}, {'c': {'x': 'q'}}]}})}
        n = 0
        for name, (desc, spec) in shapes.items():
            spec = spec(w) if callable(spec) else spec
            sto, data = w.new(b, desc, 'o%d' % n)
            w.fill(data, desc, spec)
            w.call(sto, 'save')
            for how in ('clear', 'set', 'clear, set', 'clear, save, set'):
                for p, s in leaves_of(desc, spec):
                    n += 1
                    nm = 'n%d' % n
                    sto, data = w.new(b, desc, nm)
                    w.fill(data, desc, spec)
                    w.call(sto, 'save')
                    w.fresh()
                    sto = w.load(w.path(b, nm))
                    data = w.attr(sto, 'data')
                    leaf = at(w, data, p)
                    d = desc
                    for q in p:
                        d = d.sub if isinstance(q, int) else d.sub[q]
                    v = w.val(d, 0) if 'set' in how else EMPTY
                    if v is EMPTY and isinstance(p[-1], int):
                        continue
                    new = with_leaf(spec, p, v)
                    if not full_lists(desc, fillup(desc, new)):
                        continue
                    for o in how.split(', '):
                        if o == 'clear':
                            w.call(leaf, 'clear')
                        elif o == 'set':
                            w.setattr(leaf, 'value', v)
                        elif not full_lists(desc, fillup(desc, with_leaf(
                                spec, p, EMPTY))):
                            break
                        else:
                            w.call(sto, 'save', force=True)
                    else:
                        w.call(sto, 'save', force=True)
                        w.fresh()
                        sto = w.load(w.path(b, nm), force=True)
                        w.expect_dump(w.attr(sto, 'data'), desc, new,
                                      '%s: %s loaded, %s: %s, saved and '
                                      'loaded' % (b, name, p, how))

    def with_leaf(spec, path, v):
        if not path:
            return v
        if isinstance(spec, dict):
            out = {k: with_leaf(x, path[1:], v) if k == path[0] else x
                   for k, x in spec.items()}
            return {k: x for k, x in out.items() if x is not EMPTY}
        return [with_leaf(x, path[1:], v) if i == path[0] else x
                for i, x in enumerate(spec)]

    for b in FILE_BACKENDS:
        add('renew:%s' % b, 'leaves of loaded data are cleared and set '
            'again', lambda w, b=b: renew(w, b))

    for b in FILE_BACKENDS:
        for kind in LEAVES:
            def top(w, b=b, kind=kind):
                d = leaf_desc(kind)
                ops = leafops(d, ())
                for n in range(1, 5 if thorough else 4):
                    for seq in itertools.product(
                            ('set', 'set-falsy', 'clear', 'reload')
                            if n > 2 else list(ops) + ['save', 'load'],
                            repeat=n):
                        run(w, b, d, ops, seq, 't', ', '.join(seq))
            add('top:%s:%s' % (b, kind), 'a top-level leaf', top)

            def field(w, b=b, kind=kind):
                d = leaf_desc(kind)
                desc = Comp(x=d, y=d)
                ops = leafops(d, ('x',))

                def other(w, data, spec, i):
                    v = w.val(d, 0)
                    w.call(w.attr(data, 'y'), 'replace', v)
                    return dict(spec, y=v)

                def clearall(w, data, spec, i):
                    w.call(data, 'clear')
                    return {}

                def replace(w, data, spec, i):
                    v = w.val(d, 0)
                    w.call(data, 'replace', {'y': v})
                    return dict(spec, y=v)
                ops.update(other=other, clearall=clearall, replace=replace)
                for n in range(1, 5 if thorough else 4):
                    for seq in itertools.product(
                            ('set', 'other', 'clear', 'clearall', 'reload')
                            if n > 2 else list(ops) + ['save', 'load'],
                            repeat=n):
                        run(w, b, desc, ops, seq, 'f', ', '.join(seq))
            add('field:%s:%s' % (b, kind), 'fields of a Compilation', field)

            def items(w, b=b, kind=kind):
                d = leaf_desc(kind)

                def append(w, data, spec, i):
                    v = w.val(d, 0)
                    w.call(data, 'append', v)
                    return spec + [v]

                def appendset(w, data, spec, i):
                    v = w.val(d, 1)
                    w.call(data, 'append')
                    w.call(w.item(data, -1), 'replace', v)
                    return spec + [v]

                def clear(w, data, spec, i):
                    w.call(data, 'clear')
                    return []

                def replace1(w, data, spec, i):
                    v = [w.val(d, 0)]
                    w.call(data, 'replace', v)
                    return v

                def replace2(w, data, spec, i):
                    v = [w.val(d, 1), w.val(d, 0)]
                    w.call(data, 'replace', list(v))
                    return v

                def item(w, data, spec, i):
                    if not spec:
                        return None
                    v = w.val(d, 0)
                    w.call(w.item(data, 0), 'replace', v)
                    return [v] + spec[1:]
                def late(w, data, spec, i):
                    new = [w.val(d, 0), w.val(d, 1)]
                    w.call(data, 'append')
                    w.call(data, 'append')
                    for k in (-1, -2):
                        w.call(w.item(data, k), 'replace', new[k])
                    return spec + new

                def refill(w, data, spec, i):
                    if not spec:
                        return None
                    v = w.val(d, 1)
                    w.call(w.item(data, 0), 'clear')
                    w.call(data, 'append', v)
                    w.call(w.item(data, 0), 'replace', v)
                    return [v] + spec[1:] + [v]
                ops = {'append': append, 'clear': clear, 'item': item,
                       'late': late, 'refill': refill,
                       'replace1': replace1, 'replace2': replace2,
                       'appendset': appendset}
                for n in range(1, 5 if thorough else 4):
                    for seq in itertools.product(
                            ('append', 'clear', 'replace1', 'replace2',
                             'reload') if n > 2 else list(ops) + ['save'],
                            repeat=n):
                        run(w, b, Lst(d), ops, seq, 'l', ', '.join(seq))
            add('items:%s:%s' % (b, kind), 'items of a List', items)

        def trees(w, b=b):
            S = leaf_desc('String')
            desc = Comp(c=Comp(x=S, l=Lst(S)), m=Lst(Comp(x=S, l=Lst(S))))

            def val(w, i):
                return w.val(S, 0)

            def cx(w, data, spec, i):
                v = val(w, i)
                w.call(at(w, data, ('c', 'x')), 'replace', v)
                return dict(spec, c=dict(spec.get('c', {}), x=v))

            def cl(w, data, spec, i):
                v = [val(w, i), val(w, i)]
                w.call(at(w, data, ('c', 'l')), 'replace', list(v))
                return dict(spec, c=dict(spec.get('c', {}), l=v))

            def cclear(w, data, spec, i):
                w.call(w.attr(data, 'c'), 'clear')
                return dict(spec, c={})

            def mapp(w, data, spec, i):
                v = {'x': val(w, i), 'l': [val(w, i)]}
                w.call(w.attr(data, 'm'), 'append', {'x': v['x'],
                                                     'l': list(v['l'])})
                return dict(spec, m=spec.get('m', []) + [v])

            def mpart(w, data, spec, i):
                v = [{'l': [val(w, i)]}]
                w.call(w.attr(data, 'm'), 'replace', [dict(v[0])])
                return dict(spec, m=v)

            def mitem(w, data, spec, i):
                if not spec.get('m'):
                    return None
                w.call(w.attr(w.item(w.attr(data, 'm'), 0), 'x'), 'clear')
                m0 = dict(spec['m'][0])
                m0.pop('x', None)
                return dict(spec, m=[m0] + spec['m'][1:])

            def mlist(w, data, spec, i):
                if not spec.get('m'):
                    return None
                w.call(w.attr(w.item(w.attr(data, 'm'), 0), 'l'), 'clear')
                return dict(spec, m=[dict(spec['m'][0], l=[])]
                            + spec['m'][1:])

            def mclear(w, data, spec, i):
                w.call(w.attr(data, 'm'), 'clear')
                return dict(spec, m=[])

            def allclear(w, data, spec, i):
                w.call(data, 'clear')
                return {}

            def rep(w, data, spec, i):
                v = {'c': {'x': val(w, i)}, 'm': []}
                w.call(data, 'replace', v)
                return dict(spec, c=dict(spec.get('c', {}), x=v['c']['x']),
                            m=[])
            ops = dict(cx=cx, cl=cl, cclear=cclear, mapp=mapp, mpart=mpart,
                       mitem=mitem, mlist=mlist, mclear=mclear,
                       allclear=allclear, rep=rep)
            return desc, ops
        names = ('cx', 'cl', 'cclear', 'mapp', 'mpart', 'mitem', 'mlist',
                 'mclear', 'allclear', 'rep')
        for first in names:
            def tree(w, b=b, first=first, trees=trees):
                desc, ops = trees(w, b)
                for n in range(0, 4 if thorough else 3):
                    for seq in itertools.product(names + ('reload',),
                                                 repeat=n):
                        run(w, b, desc, ops, (first,) + seq, 't',
                            ', '.join((first,) + seq))
                for seq in itertools.product(names, repeat=1):
                    s = (first, 'save', seq[0], 'reload', 'cx', 'save',
                         seq[0], 'reload', first)
                    run(w, b, desc, ops, s, 't', ', '.join(s))
            add('tree:%s:%s' % (b, first), 'nested trees, sequences '
                'starting with ' + first, tree)
    return {}
