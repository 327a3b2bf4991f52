"""Rules about nodes seen together or as a whole: C31, C32, C34."""
import itertools
import re

from .world import *
from .rules_data import (at, make_items, state_trees, states_of, realize,
                         nodes_of, wraps, cdesc, cval, blank_of, opt)
from .rules_store import (set_spec, full_lists, fillup, kinds_spec,
                          comp_of_kinds, all_kinds_desc)
from .rules_file import invalid_cases


# ------------------------------------------------------------------- C31
def c31(add, thorough, src):
    def filled(w, desc, var=0):
        """some spec with data everywhere"""
        if desc.kind == 'Compilation':
            return {n: filled(w, s, var) for n, s in desc.sub.items()}
        if desc.kind == 'List':
            return [filled(w, desc.sub, var) for _ in range(2)]
        return w.val(desc, var)

    def changes(desc):
        """name, change(w, storage, data)"""
        out = [('fill', lambda w, s, d: set_spec(w, d, desc, filled(
            w, desc)))]
        out.append(('clear', lambda w, s, d: w.call(d, 'clear')))
        out.append(('falsy', lambda w, s, d: set_spec(
            w, d, desc, filled(w, desc, 1))))
        if desc.kind in ('Compilation', 'List'):
            out.append(('replace', lambda w, s, d: w.call(
                d, 'replace', filled(w, desc))))
        if desc.kind == 'List':
            out.append(('append', lambda w, s, d: w.call(d, 'append')))
        out.append(('leaves', lambda w, s, d: each_leaf(w, d, desc)))
        out.append(('lists', lambda w, s, d: each_list(w, d, desc)))
        out.append(('validate', lambda w, s, d: w.raises(w.call, s,
                                                         'validate')))
        return out

    def each_leaf(w, data, desc):
        if desc.kind == 'Compilation':
            for n, s in desc.sub.items():
                each_leaf(w, w.attr(data, n), s)
        elif desc.kind == 'List':
            for i in range(w.I.len_(data)):
                each_leaf(w, w.item(data, i), desc.sub)
        else:
            w.setattr(data, 'value', w.val(desc, 0))
            if desc.kind == 'Array':
                w.I.setitem(data, 0, 77)
                w.raises(w.call, data, 'resize', (2,))

    def each_list(w, data, desc):
        if desc.kind == 'Compilation':
            for n, s in desc.sub.items():
                each_list(w, w.attr(data, n), s)
        elif desc.kind == 'List':
            for i in range(w.I.len_(data)):
                each_list(w, w.item(data, i), desc.sub)
            w.call(data, 'append')
            w.call(data, 'append')

    trees = lambda: dict(state_trees(), kinds=comp_of_kinds(),
                         leaf=leaf_desc('String'), arr=leaf_desc('Array'),
                         arrs=Comp(l=Lst(leaf_desc('Array')),
                                   a=leaf_desc('Array')),
                         date=Comp(d=leaf_desc('Date', set_on_create=False),
                                   l=Lst(leaf_desc('Time'))))
    for b in BACKENDS:
        for name in trees():
            def siblings(w, b=b, name=name):
                """two storages, also of the same schema object; and a
                third one created after all changes"""
                desc = trees()[name]
                for same in (True, False):
                    node = w.mk(desc)
                    tag = 's%d' % same
                    w.I.fs.files.clear()
                    s1 = w.create(w.path(b, tag + 'a'), node)
                    s2 = w.create(w.path(b, tag + 'b'), node if same
                                  else w.mk(desc))
                    js = w.call(node, 'to_json')
                    d1, d2 = w.attr(s1, 'data'), w.attr(s2, 'data')
                    new = w.dump(d2, desc)
                    spec2 = filled(w, desc)
                    for phase in range(2):
                        if phase:
                            w.fill(d2, desc, spec2)
                        before = w.dump(d2, desc)
                        for cname, ch in changes(desc):
                            ch(w, s1, d1)
                            w.expect_state(w.dump(d2, desc), before, '%s: '
                                           '%s of one storage of %r: the '
                                           'other storage' % (b, cname,
                                                              desc))
                        one = w.dump(d1, desc)
                        w.call(d2, 'clear')
                        w.expect_state(w.dump(d1, desc), one, '%s: clearing '
                                       'the second storage of %r: the first '
                                       'one' % (b, desc))
                    w.expect_same(w.call(node, 'to_json'), js,
                                  '%s: the schema of %r' % (b, desc))
                    if b != 'inmem':
                        if full_lists(desc, spec_like(w, d1, desc)):
                            w.call(s1, 'save', force=True)
                    s3 = w.create(w.path(b, tag + 'c'), node)
                    w.expect_state(w.dump(w.attr(s3, 'data'), desc), new,
                                   '%s: a storage of %r created after using '
                                   'another one' % (b, desc))
                    s4 = w.create(w.path(b, tag + 'd'), w.mk(desc))
                    w.expect_state(w.dump(w.attr(s4, 'data'), desc), new,
                                   '%s: a storage of %r created after using '
                                   'another one' % (b, desc))
                    w.expect_same(w.call(s4, 'schema_hash'), w.call(
                        s1, 'schema_hash'), '%s: schema of %r' % (b, desc))
            add('siblings:%s:%s' % (b, name), 'storages of one schema do '
                'not share data', siblings)

        def within(w, b=b):
            """fields and list items, also of one and the same schema
            object"""
            for kind in LEAVES:
                leaf = leaf_desc(kind)
                sub = w.mk(leaf)
                comp = w.S('Compilation', {'x': sub, 'y': sub})
                node = w.S('Compilation', {
                    'a': sub, 'b': sub, 'c': comp, 'd': comp,
                    'l': w.S('List', sub), 'm': w.S('List', comp)})
                cd = Comp(x=leaf, y=leaf)
                desc = Comp(a=leaf, b=leaf, c=cd, d=cd, l=Lst(leaf),
                            m=Lst(cd))
                sto = w.create(w.path(b, 'w' + kind), node)
                data = w.attr(sto, 'data')
                for lst, n in (('l', 3), ('m', 2)):
                    for i in range(n):
                        w.call(w.attr(data, lst), 'append')
                spec = {'l': [EMPTY] * 3, 'm': [{}, {}]}
                paths = [('a',), ('b',), ('c', 'x'), ('c', 'y'), ('d', 'x'),
                         ('d', 'y'), ('l', 0), ('l', 1), ('l', 2),
                         ('m', 0, 'x'), ('m', 0, 'y'), ('m', 1, 'x'),
                         ('m', 1, 'y')]
                want = {p: EMPTY for p in paths}

                def check(what):
                    for p in paths:
                        n = at(w, data, p)
                        if want[p] is EMPTY:
                            w.expect_same(w.attr(n, 'empty'), True, '%s: '
                                          '%s: %s: empty of %s' % (
                                              b, kind, what, p))
                        else:
                            w.expect_same(w.attr(n, 'value'), want[p],
                                          '%s: %s: %s: value of %s' % (
                                              b, kind, what, p))
                check('new')
                for p in paths:
                    want[p] = w.val(leaf, 0)
                    w.call(at(w, data, p), 'replace', copy_val(want[p]))
                    check('setting %s' % (p,))
                # equal contents, given as different objects
                equal = w.val(leaf, 0)
                for p in paths:
                    want[p] = copy_val(equal)
                    w.call(at(w, data, p), 'replace', copy_val(equal))
                check('setting equal values')
                if kind == 'Array':
                    for p in paths:
                        w.I.setitem(at(w, data, p), 0, 5)
                        want[p] = w.attr(at(w, data, p), 'value')
                        want[p] = copy_val(want[p])
                        check('changing an element of %s' % (p,))
                for p in paths[::-1]:
                    want[p] = EMPTY
                    w.call(at(w, data, p), 'clear')
                    check('clearing %s' % (p,))
        add('within:%s' % b, 'fields and items do not share data', within)

    for b1, b2 in itertools.product(BACKENDS, repeat=2):
        def copies(w, b1=b1, b2=b2):
            for name in ('kinds', 'arrs', 'deep', 'complist', 'leaf', 'arr',
                         'listlist'):
                desc = trees()[name]
                s1, d1 = w.new(b1, desc, 'c1' + name)
                w.fill(d1, desc, filled(w, desc))
                for how in ('create_from', 'save_as', 'load_from'):
                    p2 = w.path(b2, 'c2%s%s' % (name, how))
                    if how == 'create_from':
                        s2 = w.fn('dsch.frontend', how, p2, s1)
                    elif how == 'save_as':
                        s2 = w.call(s1, how, p2)
                    else:
                        s2 = w.create(p2, w.mk(desc))
                        w.call(w.attr(s2, 'data'), how, d1)
                    d2 = w.attr(s2, 'data')
                    for (sa, da, dother) in ((s2, d2, d1), (s1, d1, d2)):
                        before = w.dump(dother, desc)
                        for cname, ch in changes(desc):
                            if cname in ('clear', 'falsy', 'validate'):
                                continue
                            ch(w, sa, da)
                            w.expect_state(w.dump(dother, desc), before,
                                           '%s -> %s by %s: %s of one: the '
                                           'other one' % (b1, b2, how,
                                                          cname))
                    # element changes directly after copying
                    w.call(d1, 'clear')
                    w.fill(d1, desc, filled(w, desc))
        add('copies:%s:%s' % (b1, b2), 'copies do not share data with their '
            'source', copies)

    CHANGED = {'max_length': 77, 'min_length': 2, 'unit': 'changed',
               'max_value': 1234, 'min_value': -77, 'dtype': 'int8',
               'ndim': 3, 'max_shape': (9,), 'min_shape': (1,),
               'depends_on': ('x',), 'set_on_create': True}

    def schema_nodes(w, node, path=()):
        yield path, node
        kind = node.cls.name
        if kind == 'Compilation':
            for n, s in list(w.attr(node, 'subnodes').items()):
                yield from schema_nodes(w, s, path + (n,))
        elif kind == 'List':
            yield from schema_nodes(w, w.attr(node, 'subnode'),
                                    path + ('[]',))

    def configure(w, node):
        for n, v in CHANGED.items():
            if w.I.truth(w.I.hasattr_(node, n)):
                w.setattr(node, n, v)
        if w.I.truth(w.I.hasattr_(node, 'optionals')):
            w.attr(node, 'optionals').append('changed')

    def apart(w, one, others, what):
        """changing any node of one changes no other node, neither within
        the tree nor in the other ones"""
        nodes = dict(schema_nodes(w, one))
        for p, n in list(nodes.items()):
            js = {q: w.call(m, 'to_json') for q, m in nodes.items()}
            jo = [w.call(o, 'to_json') for o in others]
            configure(w, n)
            for q, m in nodes.items():
                if q != p[:len(q)]:
                    w.expect_same(w.call(m, 'to_json'), js[q], '%s: changing '
                                  'the schema of %s: the schema of %s' % (
                                      what, p, q))
            for o, j in zip(others, jo):
                w.expect_same(w.call(o, 'to_json'), j, '%s: changing the '
                              'schema of %s: another schema' % (what, p))

    def parsed(w):
        A = lambda **o: leaf_desc('Array', **o)
        S = lambda **o: leaf_desc('String', **o)
        for desc in list(trees().values()) + [
                Comp(a=S(), b=S(), c=Comp(a=S(), b=S()), d=Comp(a=S(), b=S())),
                Comp(a=Lst(S()), b=Lst(S()), c=Lst(Comp(a=A(), b=A()))),
                Lst(Lst(S()))]:
            node = w.mk(desc)
            for how in ('node_from_dict', 'node_from_json', 'from_dict'):
                def again():
                    if how == 'from_dict':
                        return w.I.call(w.I.getattr_(node.cls, how), [
                            w.call(node, 'to_dict')], {})
                    return w.fn('dsch.schema', how, w.call(
                        node, 'to_dict' if how == 'node_from_dict'
                        else 'to_json'))
                js = w.call(node, 'to_json')
                n1, n2 = again(), again()
                apart(w, n1, [n2, node], '%s of %r' % (how, desc))
                w.expect_same(w.call(again(), 'to_json'), js, '%s of %r '
                              'after changing a node from it' % (how, desc))
    add('parsed', 'schemas built from a dict or from JSON share nothing',
        parsed)

    for b in BACKENDS:
        if b == 'inmem':
            continue

        def loads(w, b=b):
            for name, desc in trees().items():
                spec = filled(w, desc)
                for nm in ('one', 'two'):
                    sto = w.create(w.path(b, nm + name), w.mk(desc))
                    w.fill(w.attr(sto, 'data'), desc, spec)
                    w.call(sto, 'save', force=True)
                two = 'one' if b != 'hdf5' else 'two'
                for again in range(2):
                    s1 = w.load(w.path(b, 'one' + name), force=True)
                    s2 = w.load(w.path(b, two + name), force=True)
                    d1, d2 = w.attr(s1, 'data'), w.attr(s2, 'data')
                    what = '%s: %r loaded twice' % (b, desc)
                    w.check(s1 is not s2 and d1 is not d2, what + ': the '
                            'same object')
                    w.expect_dump(d1, desc, spec, what)
                    w.expect_dump(d2, desc, spec, what)
                    if b == 'hdf5' and again:
                        continue
                    for cname, ch in changes(desc):
                        ch(w, s1, d1)
                        w.expect_dump(d2, desc, spec, '%s, %s of one: the '
                                      'other one' % (what, cname))
                    if b != 'hdf5':
                        s3 = w.load(w.path(b, 'one' + name), force=True)
                        w.expect_dump(w.attr(s3, 'data'), desc, spec, '%s, '
                                      'one changed: loaded again' % what)
                    apart(w, w.attr(s1, 'schema_node'), [w.attr(
                        s2, 'schema_node')], what)
        add('reloads:' + b, 'storages that were loaded share nothing', loads)

    def schemas(w):
        """configuring one schema node changes no other one"""
        S = leaf_desc('String')
        mk = {
            'String': lambda: w.S('String'),
            'Bytes': lambda: w.S('Bytes'),
            'Bool': lambda: w.S('Bool'),
            'Date': lambda: w.S('Date'),
            'DateTime': lambda: w.S('DateTime'),
            'Time': lambda: w.S('Time'),
            'Scalar': lambda: w.S('Scalar', 'int32'),
            'Array': lambda: w.S('Array', 'int32'),
            'List': lambda: w.S('List', w.S('Bool')),
            'Compilation': lambda: w.S('Compilation', {'a': w.S('Bool')}),
        }
        full = {
            'String': lambda: w.S('String', max_length=3, min_length=1),
            'Scalar': lambda: w.S('Scalar', 'int32', unit='V', max_value=3,
                                  min_value=1),
            'Array': lambda: w.S('Array', 'int32', unit='V', ndim=2,
                                 max_shape=(3, 3), min_shape=(1, 1),
                                 depends_on=('x', 'y'), max_value=3,
                                 min_value=1),
            'List': lambda: w.S('List', w.S('String', max_length=4),
                                max_length=3, min_length=1),
            'Compilation': lambda: w.S('Compilation', {
                'a': w.S('Bool'), 'b': w.S('Bool')}, optionals=['a']),
            'Date': lambda: w.S('Date', set_on_create=True),
        }
        pristine = {k: w.call(f(), 'to_json') for k, f in mk.items()}
        old = {k: f() for k, f in mk.items()}
        opts = ('max_length', 'min_length', 'set_on_create', 'unit',
                'max_value', 'min_value', 'max_shape', 'min_shape', 'ndim',
                'depends_on', 'optionals', 'dtype')
        for k, f in list(mk.items()) + list(full.items()):
            n = f()
            for o in opts:
                if o in n.attrs:
                    v = n.attrs[o]
                    if isinstance(v, list):
                        v.append('zz')
                    elif isinstance(v, dict):
                        v['zz'] = 1
                    w.setattr(n, o, {'dtype': 'float32', 'unit': 'kA',
                                     'set_on_create': True,
                                     'optionals': ['a'], 'depends_on':
                                     ('q',), 'max_shape': (7,),
                                     'min_shape': (2,)}.get(o, 6))
            for k2, f2 in mk.items():
                w.expect_same(w.call(f2(), 'to_json'), pristine[k2],
                              'a new %s after configuring a %s' % (k2, k))
                w.expect_same(w.call(old[k2], 'to_json'), pristine[k2],
                              'an older %s after configuring a %s' % (k2,
                                                                      k))
        # nodes of node_from_dict / from_json
        for k, f in list(mk.items()) + list(full.items()):
            n = f()
            d = w.call(n, 'to_dict')
            js = w.call(n, 'to_json')
            a = w.fn('dsch.schema', 'node_from_dict', d)
            b = w.fn('dsch.schema', 'node_from_dict', d)
            for o in opts:
                if o in a.attrs:
                    v = a.attrs[o]
                    if isinstance(v, list):
                        v.append('zz')
                    w.setattr(a, o, {'dtype': 'float32'}.get(o, 'other'))
            w.expect_same(w.call(b, 'to_json'), js,
                          'a second %s of the same dict' % k)
            w.expect_same(w.call(n, 'to_json'), js, 'the original ' + k)
    add('schemas', 'schema nodes and their defaults are independent',
        schemas)

    def collections(w):
        """lists and dicts given by the user"""
        o = ['a']
        c1 = w.S('Compilation', {'a': w.S('Bool'), 'b': w.S('Bool')}, o)
        c2 = w.S('Compilation', {'a': w.S('Bool'), 'b': w.S('Bool')}, o)
        js = w.call(c2, 'to_json')
        opts = w.attr(c1, 'optionals')
        if isinstance(opts, list):
            opts.append('b')
        w.expect_same(w.call(c2, 'to_json'), js, 'a Compilation after '
                      'changing the optionals of another one')
        alts = [w.S('Bool')]
        f = lambda: w.fn('dsch.frontend', 'PseudoStorage', '::inmem::',
                         w.S('String'), defer_open=True,
                         schema_alternatives=alts)
        p1, p2 = f(), f()
        w.check(len(alts) == 1 and isinstance(alts[0], Obj),
                'PseudoStorage changes the list of alternatives')
        p3 = w.fn('dsch.frontend', 'PseudoStorage', '::inmem::',
                  w.S('String'), defer_open=True)
        sto, data = w.new('inmem', leaf_desc('Bool'))
        p4 = w.fn('dsch.frontend', 'PseudoStorage', data, w.S('String'),
                  defer_open=True)
        w.expect_exc(w.raises(w.call, p4, 'open'), 'InvalidSchemaError',
                     'a PseudoStorage without alternatives after others '
                     'with alternatives')
    add('collections', 'collections given by the user are not shared',
        collections)

    def pseudos(w):
        """PseudoStorages do not share state"""
        desc = Comp(a=leaf_desc('String'))
        for b in BACKENDS:
            mk = lambda n: w.fn('dsch.frontend', 'PseudoStorage', w.path(
                b, n), w.mk(desc))
            p1, p2 = mk('p1'), mk('p2')
            d1, d2 = w.attr(p1, 'data'), w.attr(p2, 'data')
            w.check(d1 is not d2, b + ': two PseudoStorages share data')
            w.call(w.attr(d1, 'a'), 'replace', 'x')
            w.expect_dump(d2, desc, {}, b + ': the other PseudoStorage')
            w.call(p1, 'close')
            w.check(w.attr(p2, 'data') is d2, b + ': closing one '
                    'PseudoStorage closes the other one')
            w.call(p2, 'close')
    add('pseudos', 'PseudoStorages are independent', pseudos)

    for b in FILE_BACKENDS:
        def loads(w, b=b):
            """two storages loaded from one file (and its creator)"""
            desc = Comp(a=leaf_desc('String'), v=leaf_desc('Array'),
                        l=Lst(leaf_desc('Array')),
                        m=Lst(Comp(x=leaf_desc('Bytes'))))
            spec = filled(w, desc)
            sto, data = w.new(b, desc)
            w.fill(data, desc, spec)
            w.call(sto, 'save')
            stos = [w.load(w.path(b)) for i in range(2)]
            if b != 'hdf5':
                stos.append(sto)
            for s in stos:
                others = [x for x in stos if x is not s]
                before = [w.dump(w.attr(x, 'data'), desc) for x in others]
                for cname, ch in changes(desc):
                    ch(w, s, w.attr(s, 'data'))
                    for x, d in zip(others, before):
                        w.expect_state(w.dump(w.attr(x, 'data'), desc), d,
                                       '%s: %s of one loaded storage: '
                                       'another one' % (b, cname))
        if b != 'hdf5':
            add('loads:%s' % b, 'storages loaded from one file are '
                'independent', loads)

    import ast
    scan = []
    for m, (file, tree) in sorted(src.items()):
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for d in n.args.defaults + [x for x in n.args.kw_defaults
                                            if x]:
                    if isinstance(d, (ast.List, ast.Dict, ast.Set,
                                      ast.ListComp, ast.DictComp)):
                        scan.append('%s:%d mutable default' % (m, d.lineno))
            elif isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.Assign) and isinstance(
                            s.value, (ast.List, ast.Dict, ast.Set)):
                        scan.append('%s:%d mutable class attribute' % (
                            m, s.lineno))
    return {'mutable_defaults_and_class_attributes': scan}


def copy_val(v):
    if isinstance(v, Arr):
        return Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
    return v


def spec_like(w, node, desc):
    if desc.kind == 'Compilation':
        return {n: spec_like(w, w.attr(node, n), s)
                for n, s in desc.sub.items()}
    if desc.kind == 'List':
        return [spec_like(w, w.item(node, i), desc.sub)
                for i in range(w.I.len_(node))]
    return EMPTY if w.I.truth(w.attr(node, 'empty')) else 1


# ------------------------------------------------------------------- C32
def shown(w, label, text, what):
    """label (possibly partly unknown) shows the given text"""
    w.checks += 1
    if not has(label, text):
        if w.opaque(w.canon(label)):
            raise Unsupported('label %s' % w.sh(label))
        w.fail('%s: label %s does not show %s' % (what, w.sh(label),
                                                  w.sh(text)))


def token(label, i):
    return any(isinstance(p, str) and re.search(
        r'(?<!\d)%d(?!\d)' % i, p) for p in parts_of(label))


def word(label, name):
    return any(isinstance(p, str) and re.search(
        r'(?<!\w)%s(?!\w)' % re.escape(name), p)
        for p in parts_of(label))


def expect_tree(w, tree, desc, spec, node, what):
    """node_tree() of one node"""
    w.check(isinstance(tree, dict), '%s: node_tree() gives %s' % (
        what, w.sh(tree)))
    w.check(len(tree) == 1, '%s: node_tree() has %d labels' % (
        what, len(tree)))
    (label, sub), = tree.items()
    expect_entry(w, label, sub, desc, spec, node, what)


def expect_entry(w, label, sub, desc, spec, node, what):
    w.check(isinstance(sub, dict), '%s: no sub-tree' % what)
    shown(w, label, desc.kind, what)
    if desc.kind == 'Compilation':
        w.check(len(sub) == len(desc.sub), '%s: %d entries for %d '
                'fields' % (what, len(sub), len(desc.sub)))
        for n, s in desc.sub.items():
            hits = [k for k in sub if word(first_part(k), n)]
            w.check(len(hits) >= 1, '%s: no entry for field %s in %s'
                    % (what, n, [w.sh(k) for k in sub]))
            expect_entry(w, hits[0], sub[hits[0]], s, spec[n],
                         w.attr(node, n), what + '.' + n)
    elif desc.kind == 'List':
        w.check(len(sub) == len(spec), '%s: %d entries for %d items' % (
            what, len(sub), len(spec)))
        for i, s in enumerate(spec):
            hits = [k for k in sub if token(first_part(k), i)]
            w.check(len(hits) >= 1, '%s: no entry for item %d in %s' % (
                what, i, [w.sh(k) for k in sub]))
            k = next((h for h in hits if list(sub).index(h) == i),
                     hits[0])
            expect_entry(w, k, sub[k], desc.sub, s, w.item(node, i),
                         '%s[%d]' % (what, i))
    else:
        w.check(not sub, what + ': a leaf has a sub-tree')
        if spec is EMPTY:
            shown(w, label, '<empty>', what)
            return
        w.check(not has(label, '<empty>'), '%s: shown as empty: %s' % (
            what, w.sh(label)))
        if desc.kind == 'Array':
            for n in spec.shape:
                w.check(any(isinstance(p, str) and re.search(
                    r'(?<!\d)%d(?!\d)' % n, p)
                    for p in parts_of(label)), '%s: label %s does not '
                    'show the shape %s' % (what, w.sh(label),
                                           spec.shape))
            return
        if desc.kind == 'Scalar':
            shown(w, label, w.I.str_(spec), what)
            shown(w, label, desc.opts.get('unit', ''), what)
            return
        shown(w, label, w.I.str_(spec), what)


def c32(add, thorough, src):
    def printable(w, data, desc, spec, what):
        full = fillup(desc, spec)
        for path, d, s in nodes_of(desc, full):
            node = at(w, data, path)
            wh = '%s: node %s' % (what, path)
            tree, exc = w.attempt(w.call, node, 'node_tree')
            w.no_exc(exc, wh + ': node_tree()')
            expect_tree(w, tree, d, s, node, wh)
            r, exc = w.attempt(w.I.repr_, node)
            w.no_exc(exc, wh + ': repr()')
            w.check(w.I.is_strlike(r), '%s: repr() gives %s' % (
                wh, w.sh(r)))
            for label in labels(tree):
                w.checks += 1
                if not all(has(r, p) for p in parts_of(label)):
                    if w.opaque(w.canon(r)):
                        raise Unsupported('repr')
                    w.fail('%s: repr() does not show %s' % (wh, w.sh(
                        label)))
            lines = sum(p.count('\n') for p in parts_of(r)
                        if isinstance(p, str)) + 1
            w.check(lines >= len(labels(tree)), '%s: repr() has %d lines '
                    'for %d nodes' % (wh, lines, len(labels(tree))))
            s_, exc = w.attempt(w.I.str_, node)
            w.no_exc(exc, wh + ': str()')

    def labels(tree):
        out = []
        for k, v in tree.items():
            out.append(k)
            out += labels(v)
        return out

    for b in BACKENDS:
        for kind in LEAVES:
            def leaf(w, b=b, kind=kind):
                opts = [{}]
                if kind == 'Scalar':
                    opts = [{'unit': 'V'}, {'dtype': 'int32',
                                            'unit': 'meters'},
                            {'dtype': 'complex128', 'unit': 'x'}, {}]
                if kind == 'Array':
                    opts = [{'ndim': n, 'dtype': t, 'unit': 'A'}
                            for n in range(0, 4)
                            for t in ('int32', 'float64', 'bool')]
                for k, o in enumerate(opts):
                    d = leaf_desc(kind, **o)
                    for name, (desc, path) in wraps(d).items():
                        for v in [None] + list(w.variants(kind)):
                            if kind == 'Array' and name != 'field' and \
                                    k % 3:
                                continue
                            nm = '%s%d%s' % (name, k, v)
                            sto, data = w.new(b, desc, nm)
                            n = make_items(w, data, desc, path)
                            if v is not None:
                                w.call(n, 'replace', w.val(d, v))
                            spec = spec_at(desc, path, EMPTY if v is None
                                           else w.attr(n, 'value'))
                            what = '%s: %s %s (%s) variant %s' % (
                                b, kind, o, name, v)
                            printable(w, data, desc, spec, what)
                            if b != 'inmem' and v is not None and \
                                    name == 'field':
                                w.call(sto, 'save', force=True)
                                st2 = w.load(w.path(b, nm), force=True)
                                printable(w, w.attr(st2, 'data'), desc,
                                          spec, what + ' loaded')
            add('leaf:%s:%s' % (b, kind), 'every leaf state has a printable '
                'representation', leaf)
        for name, desc in list(state_trees().items()) + [
                ('names', Comp(first=leaf_desc('Bool'),
                               second=Comp(third=leaf_desc('Bool'),
                                           fourth=Lst(leaf_desc('Bool'))),
                               fifth=Lst(Comp(sixth=leaf_desc('Date'),
                                              seventh=leaf_desc('Time'))))),
                ('similar', Comp(**{n: leaf_desc('Bool') for n in (
                    'a', 'a_1', 'a_2', 'a1', 'A', 'aa', 'a_', 'a__', 'a_1_2',
                    'Bool', 'x' * 30, 'x' * 31, '\u00e4', 'item_0')})),
                ('kinds', comp_of_kinds())]:
            def tree(w, b=b, name=name, desc=desc):
                k = 0
                sts = list(itertools.islice(states_of(
                    desc, (0, 1), (0, 1, 2)), 3000))
                for st in sts[::max(1, len(sts) // (100 if thorough
                                                    else 16))]:
                    k += 1
                    spec = realize(w, desc, st, lambda d, s: EMPTY if not s
                                   else w.val(d, 0))
                    sto, data = w.new(b, desc, 'n%d' % k)
                    set_spec(w, data, desc, spec)
                    printable(w, data, desc, spec, '%s: %r in state %s' % (
                        b, desc, st))
                    if b != 'inmem' and k % 3 == 0 and full_lists(
                            desc, fillup(desc, spec)):
                        w.call(sto, 'save', force=True)
                        st2 = w.load(w.path(b, 'n%d' % k), force=True)
                        printable(w, w.attr(st2, 'data'), desc, spec,
                                  '%s: %r in state %s loaded' % (b, desc,
                                                                 st))
            add('tree:%s:%s' % (b, name), 'one entry per field and item',
                tree)

        def texts(w, b=b):
            """long and unusual values"""
            k = 0
            for kind, vals in (
                    ('String', ['a' * n for n in (1, 9, 20, 40, 60, 79, 80,
                                                  100, 200, 300, 1000, 5000)]
                     + ['', ' ', ' a', 'a ', 'a  b', '\u00e9\u4e2d', '{}',
                        '%s', '<>', '(x)', 'A: b', 'x' * 70 + ' ' + 'y' * 70]),
                    ('Bytes', [b'a' * n for n in (1, 20, 80, 300, 2000)]
                     + [b'', b'\0', b'\xff{}', b' a '])):
                for v in vals:
                    for desc, spec in ((leaf_desc(kind), v),
                                       (Comp(f=leaf_desc(kind)), {'f': v}),
                                       (Lst(leaf_desc(kind)), [v])):
                        if desc.kind != kind and len(v) % 20:
                            continue
                        k += 1
                        sto, data = w.new(b, desc, 't%d' % k)
                        w.fill(data, desc, spec)
                        printable(w, data, desc, spec, '%s: %s of length %d'
                                  % (b, kind, len(v)))
        add('texts:%s' % b, 'long and unusual values are shown', texts)

        def numbers(w, b=b):
            k = 0
            for dtype, vals in (('int64', (0, -1, 7, 123456789, 10 ** 18,
                                           -10 ** 18)),
                                ('uint8', (0, 255)),
                                ('float64', (0.0, 1234567.875, 1e-9, 1e300,
                                             -0.5, 0.1))):
                d = leaf_desc('Scalar', dtype=dtype, unit='kg m/s')
                for v in vals:
                    k += 1
                    sto, data = w.new(b, Comp(f=d), 'n%d' % k)
                    node = w.attr(data, 'f')
                    w.call(node, 'replace', v)
                    printable(w, data, Comp(f=d), {'f': w.attr(
                        node, 'value')}, '%s: %s %s' % (b, dtype, v))
        add('numbers:%s' % b, 'numbers are shown in full', numbers)

        def many(w, b=b):
            for n in (0, 1, 11, 12) + ((101,) if thorough else ()):
                for k, desc in enumerate((
                        Lst(leaf_desc('Bytes')),
                        Lst(Comp(x=leaf_desc('Bytes'))),
                        Lst(Lst(leaf_desc('Bytes'))))):
                    sto, data = w.new(b, desc, 'm%d%d' % (n, k))
                    # items with equal values, too
                    spec = [w.val(leaf_desc('Bytes'), 0) if i % 2
                            else EMPTY for i in range(n)]
                    if k:
                        spec = [[{'x': x}, [x]][k - 1] for x in spec]
                    set_spec(w, data, desc, spec)
                    printable(w, data, desc, spec, '%s: %r with %d items'
                              % (b, desc, n))
                # equal sub-trees must not fall together
                desc = Comp(l=Lst(leaf_desc('Bool')), m=Lst(Comp(
                    x=leaf_desc('Bool'))))
                sto, data = w.new(b, desc, 'eq%d' % n)
                spec = {'l': [True] * n, 'm': [{'x': True}] * n}
                set_spec(w, data, desc, spec)
                printable(w, data, desc, spec, '%s: %d equal items' % (b,
                                                                       n))
        add('many:%s' % b, 'many and equal items', many)

        def invalid(w, b=b):
            for k, (desc, spec, ok) in enumerate(invalid_cases(w)):
                sto, data = w.new(b, desc, 'i%d' % k)
                set_spec(w, data, desc, spec)
                printable(w, data, desc, spec, '%s: %r as %s' % (
                    b, desc, w.sh(spec)))
        add('invalid:%s' % b, 'also with data that violates its constraints',
            invalid)

        def emptycomp(w, b=b):
            for k, desc in enumerate((Comp(), Comp(c=Comp()), Lst(Comp()))):
                sto, data = w.new(b, desc, 'e%d' % k)
                spec = blank_of(desc)
                if desc.kind == 'List':
                    w.call(data, 'append')
                    spec = [{}]
                printable(w, data, desc, spec, '%s: %r' % (b, desc))
        add('nofields:%s' % b, 'also without any fields', emptycomp)
    return {}


def parts_of(t):
    if isinstance(t, SStr):
        return list(t.parts)
    return [t]


def first_part(t):
    """The beginning of a label, up to the first parenthesis."""
    p = parts_of(t)[0]
    return p.split('(')[0] if isinstance(p, str) else p


def has(t, part):
    """Text t contains the text part (structurally)."""
    if part == '' or t == part:
        return True
    if isinstance(part, str):
        return any(isinstance(p, str) and part in p for p in parts_of(t)) \
            or ''.join(p if isinstance(p, str) else '\0'
                       for p in parts_of(t)).find(part) >= 0
    if isinstance(part, SStr):
        ps, qs = parts_of(t), list(part.parts)
        for i in range(len(ps) - len(qs) + 1):
            ok = True
            for j, q in enumerate(qs):
                p = ps[i + j]
                if p == q:
                    continue
                if isinstance(p, str) and isinstance(q, str) and (
                        (j == 0 and p.endswith(q)) or
                        (j == len(qs) - 1 and p.startswith(q))):
                    continue
                ok = False
                break
            if ok:
                return True
        return False
    return any(p == part for p in parts_of(t))


def spec_at(desc, path, v):
    if not path:
        return v
    if desc.kind == 'Compilation':
        return {path[0]: spec_at(desc.sub[path[0]], path[1:], v)}
    return [spec_at(desc.sub, path[1:], v)]


# ------------------------------------------------------------------- C34
def c34(add, thorough, src):
    def shapes_within(limit, shape):
        return all(m is None or n <= m for n, m in zip(shape, limit))

    cases = [
        # ndim, max_shape, min_shape, initial shape
        (1, None, None, (3,)), (1, None, (2,), (3,)), (1, (5,), None, (3,)),
        (1, (5,), (1,), (3,)), (1, (3,), (3,), (3,)), (1, (5,), (0,), (5,)),
        (2, None, None, (2, 3)), (2, (4, 4), None, (2, 3)),
        (2, (4, 4), (1, 2), (2, 3)), (2, (2, 3), (2, 3), (2, 3)),
        (2, (2, 5), (2, 3), (2, 3)), (2, None, (1, 1), (1, 1)),
        (3, None, None, (2, 1, 3)), (3, (4, 1, 3), None, (2, 1, 3)),
        (3, (2, 2, 2), (2, 2, 2), (2, 2, 2)),
        (3, (9, 9, 9), (2, 2, 2), (2, 2, 2)),
        (1, (None,), None, (3,)), (1, (None,), (2,), (3,)),
        (1, (None,), (None,), (3,)), (1, (5,), (None,), (3,)),
        (2, (4, None), None, (2, 3)), (2, (None, 4), None, (2, 3)),
        (2, (None, 4), (None, 2), (2, 3)), (2, (None, 4), (2, None), (2, 3)),
        (2, (4, None), (1, None), (2, 3)),
        (2, (0, 5), None, (0, 3)), (2, (5, 0), (1, 0), (2, 0)),
        (1, (0,), None, (0,)),
        (3, (None, 2, None), None, (2, 1, 3)),
        (3, (4, None, 3), (1, 1, 1), (2, 1, 3)),
    ]
    targets = {
        1: [(0,), (1,), (2,), (4,), (5,), (6,), (100,)],
        2: [(1, 1), (2, 2), (4, 4), (2, 5), (5, 3), (4, 5), (0, 3),
            (100, 100), (2, 4), (3, 3)],
        3: [(1, 1, 1), (4, 1, 3), (2, 2, 3), (2, 1, 4), (9, 9, 9),
            (10, 9, 9), (9, 10, 9), (2, 2, 9), (3, 2, 2), (2, 2, 2)],
    }
    for dtype in ARR_DTYPES:
        def limits(w, dtype=dtype):
            few = dtype not in ('int32', 'float64', 'bool')
            for k, (ndim, mx, mn, shape) in enumerate(cases):
                if few and k % 3 != 1 and not thorough:
                    continue
                o = {'dtype': dtype}
                if ndim > 1:
                    o['ndim'] = ndim
                if mx:
                    o['max_shape'] = mx
                if mn:
                    o['min_shape'] = mn
                d = D('Array', None, **o)
                fixed = mx is not None and mx == mn
                for name, (desc, path) in wraps(d).items():
                    if name not in ('top', 'item') and k > 3:
                        continue
                    for mode in ('new', 'saved', 'loaded', 'replaced'):
                        for t in targets[ndim]:
                            if t == shape:
                                continue
                            nm = 'r'
                            w.I.fs.files.clear()
                            sto, data = w.new('hdf5', desc, nm)
                            node = make_items(w, data, desc, path)
                            x = w.arr(dtype, shape)
                            if mode == 'replaced':
                                w.call(node, 'replace', w.arr(
                                    dtype, tuple(min(1, n) for n in shape)))
                            w.call(node, 'replace', x)
                            if mode in ('saved', 'loaded'):
                                w.call(sto, 'save', force=True)
                            if mode == 'loaded':
                                w.fresh()
                                sto = w.load(w.path('hdf5', nm), force=True)
                                node = at(w, w.attr(sto, 'data'), path)
                            what = 'hdf5 (%s, %s): %s array of shape %s ' \
                                'with limits %s..%s resized to %s' % (
                                    name, mode, dtype, shape, mn, mx, t)
                            exc = w.raises(w.call, node, 'resize', t)
                            v = w.attr(node, 'value')
                            w.expect_same(v.dtype, dt(dtype),
                                          what + ': dtype')
                            if fixed or (mx and not shapes_within(mx, t)):
                                w.check(exc is not None,
                                        what + ': must be refused')
                                w.expect_same(v, x, what + ': refused')
                            else:
                                w.no_exc(exc, what)
                                w.expect_same(v.shape, t, what + ': shape')
        add('limits:' + dtype, 'hdf5 arrays can be resized exactly within '
            'the maximum shape', limits)

    def dtypes(w):
        """hdf5: stored with the dtype of the schema"""
        for dtype, other in itertools.product(ARR_DTYPES, repeat=2):
            if dt(other).kind == 'c' and dt(dtype).kind != 'c':
                continue
            d = D('Array', None, dtype=dtype)
            for name in ('top', 'item'):
                desc, path = wraps(d)[name]
                w.I.fs.files.clear()
                sto, data = w.new('hdf5', desc)
                node = make_items(w, data, desc, path)
                w.call(node, 'replace', w.arr(other, (3,)))
                what = 'hdf5: %s array set to a %s array' % (dtype, other)
                w.expect_same(native(w.attr(node, 'value').dtype),
                              native(dt(dtype)), what + ': dtype')
                w.call(sto, 'save', force=True)
                w.fresh()
                sto = w.load(w.path('hdf5'), force=True)
                node = at(w, w.attr(sto, 'data'), path)
                w.expect_same(native(w.attr(node, 'value').dtype),
                              native(dt(dtype)), what + ', loaded: dtype')
        for dtype, vals in (('int32', [1, 2, 3]), ('float64', [1, 2, 3]),
                            ('float32', [0.5, 1.5]), ('int8', [1]),
                            ('complex128', [1.0, 2.0])):
            sto, data = w.new('hdf5', D('Array', None, dtype=dtype),
                              'l' + dtype)
            w.call(data, 'replace', list(vals))
            v = w.attr(data, 'value')
            w.expect_same(v.dtype, dt(dtype), 'hdf5: %s array set to a list'
                          % dtype)
            w.expect_same(v.shape, (len(vals),), 'hdf5: %s array set to a '
                          'list: shape' % dtype)
    add('dtype', 'hdf5 arrays have the dtype of the schema', dtypes)

    for b in BACKENDS:
        for mode in ('new', 'saved', 'loaded', 'copied'):
            def access(w, b=b, mode=mode):
                if b == 'inmem' and mode in ('saved', 'loaded'):
                    return
                import itertools as it
                for dtype, shape, keys in (
                        ('int32', (5,), (0, 2, 4, -1, (1, 3), (0, 5),
                                         (2, 2))),
                        ('float64', (5,), (0, 4, (1, 4))),
                        ('int64', (2, 3), (0, 1))):
                    n = 1
                    for s in shape:
                        n *= s
                    els = [float(i) if dtype == 'float64' else i
                           for i in range(10, 10 + n)]
                    o = {'dtype': dtype}
                    if len(shape) > 1:
                        o['ndim'] = len(shape)
                    d = D('Array', None, **o)
                    for name in ('top', 'field', 'item'):
                        desc, path = wraps(d)[name]
                        w.I.fs.files.clear()
                        given = w.arr(dtype, shape, els=els)
                        # the user keeps the array, which may be a view
                        given.held = True
                        given.owner = name != 'field'
                        node = prepare(w, b, mode, desc, path, given)
                        what = '%s (%s, %s)' % (b, name, mode)
                        cur = list(els)
                        for k in keys:
                            if isinstance(k, tuple):
                                sl = SliceVal(k[0], k[1], None)
                                r = w.item(node, sl)
                                want = cur[k[0]:k[1]]
                                w.expect_same(r, w.arr(dtype, (len(want),),
                                                       els=want),
                                              '%s: [%s:%s]' % (what, k[0],
                                                               k[1]))
                            elif len(shape) == 1:
                                r = w.item(node, k)
                                w.expect_same(r, NpS(dt(dtype), cur[k]),
                                              '%s: [%s]' % (what, k))
                                new = 77 + k
                                new = float(new) if dtype == 'float64' \
                                    else new
                                w.I.setitem(node, k, new)
                                cur[k] = new
                                w.expect_same(w.attr(node, 'value'),
                                              w.arr(dtype, shape, els=cur),
                                              '%s: value after [%s] = %s' %
                                              (what, k, new))
                                w.expect_same(w.item(node, k),
                                              NpS(dt(dtype), new),
                                              '%s: [%s] after setting' % (
                                                  what, k))
                            else:
                                r = w.item(node, k)
                                m = shape[1]
                                w.expect_same(r, w.arr(
                                    dtype, (m,), els=cur[k * m:k * m + m]),
                                    '%s: row %s' % (what, k))
                                r = w.item(node, (k, 2))
                                w.expect_same(r, NpS(dt(dtype),
                                                     cur[k * m + 2]),
                                              '%s: [%s, 2]' % (what, k))
                                w.I.setitem(node, (k, 1), 55 + k)
                                cur[k * m + 1] = 55 + k
                                w.expect_same(w.attr(node, 'value'),
                                              w.arr(dtype, shape, els=cur),
                                              '%s: value after [%s, 1] = '
                                              '%s' % (what, k, 55 + k))
                        if len(shape) == 1:
                            w.expect_exc(w.raises(w.item, node, 99),
                                         'IndexError', what + ': [99]')
                            w.I.setitem(node, SliceVal(1, 3, None), w.arr(
                                dtype, (2,), els=(cur[0], cur[0])))
                            cur[1:3] = [cur[0]] * 2
                            w.expect_same(w.attr(node, 'value'), w.arr(
                                dtype, shape, els=cur), what
                                + ': value after [1:3] = ...')
                            # resizing: smaller, then larger
                            for m in (3, 6, 1):
                                held = w.attr(node, 'value')
                                held.held = True
                                w.no_exc(w.raises(w.call, node, 'resize',
                                                  (m,)),
                                         '%s: resize to %d' % (what, m))
                                zero = 0.0 if dtype == 'float64' else 0
                                cur = (cur + [zero] * m)[:m]
                                w.expect_same(w.attr(node, 'value'), w.arr(
                                    dtype, (m,), els=cur),
                                    '%s: resized to %d' % (what, m))
                        else:
                            for t in ((1, 3), (4, 3), (2, 2)):
                                w.no_exc(w.raises(w.call, node, 'resize',
                                                  t), '%s: resize to %s' % (
                                                      what, t))
                                w.expect_same(w.attr(node, 'value').shape,
                                              t, '%s: resized to %s' % (
                                                  what, t))
                            cur = None
                        w.expect_same(given.shape, shape, what + ': shape of '
                                      'the array once given')
                        w.expect_same(w.attr(node, 'value').dtype,
                                      dt(dtype), what + ': dtype')
                        w.expect_same(w.attr(node, 'empty'), False,
                                      what + ': empty')
                        if b == 'inmem':
                            continue
                        # what was changed this way is what is saved
                        sto = w.last_storage
                        w.call(sto, 'save', force=True)
                        v = copy_val(w.attr(node, 'value'))
                        w.fresh()
                        st2 = w.load(w.path(b), force=True)
                        w.expect_same(w.attr(at(w, w.attr(st2, 'data'),
                                                path), 'value'), v,
                                      what + ': saved and loaded')
            add('access:%s:%s' % (b, mode), 'indexing, slicing and resizing '
                'act on the stored array', access)

        def opaque(w, b=b):
            """for arrays of unknown content"""
            for shape in ((3,), (2, 3)):
                o = {'dtype': 'float64'}
                if len(shape) > 1:
                    o['ndim'] = 2
                desc = Comp(v=D('Array', None, **o))
                sto, data = w.new(b, desc, 'o%d' % len(shape))
                x = w.arr('float64', shape)
                w.call(w.attr(data, 'v'), 'replace', copy_val(x))
                for k in (0, 1, SliceVal(0, 1, None)) + (
                        ((0, 0), (1, 2)) if len(shape) > 1 else ()):
                    w.expect_same(w.item(w.attr(data, 'v'), k),
                                  w.I.getitem(x, k), '%s: [%s]' % (b, k))
                w.I.setitem(w.attr(data, 'v'), 0, 5.0)
                w.I.setitem(x, 0, 5.0)
                w.expect_same(w.attr(w.attr(data, 'v'), 'value'), x,
                              '%s: after [0] = 5.0' % b)
        add('opaque:%s' % b, 'elements of arrays of unknown content',
            opaque)

        def emptynode(w, b=b):
            """no array, nothing to index or resize: nothing appears"""
            for kind in ('top', 'field', 'item'):
                desc, path = wraps(D('Array', None, dtype='int32'))[kind]
                sto, data = w.new(b, desc, 'e' + kind)
                node = make_items(w, data, desc, path)
                for f in (lambda: w.item(node, 0),
                          lambda: w.I.setitem(node, 0, 1),
                          lambda: w.call(node, 'resize', (3,))):
                    w.check(w.raises(f) is not None, '%s: indexing or '
                            'resizing an empty Array must fail' % b)
                    w.expect_same(w.attr(node, 'empty'), True,
                                  b + ': empty Array')
        add('empty:%s' % b, 'empty arrays cannot be indexed', emptynode)

    def prepare(w, b, mode, desc, path, x):
        sto, data = w.new(b, desc)
        node = make_items(w, data, desc, path)
        w.call(node, 'replace', x)
        if mode in ('saved', 'loaded'):
            w.call(sto, 'save', force=True)
        if mode == 'loaded':
            w.fresh()
            sto = w.load(w.path(b), force=True)
            node = at(w, w.attr(sto, 'data'), path)
        if mode == 'copied':
            sto2 = w.fn('dsch.frontend', 'create_from', w.path(b, 'g'), sto)
            if b != 'inmem':
                w.call(sto2, 'save', force=True)
                w.I.fs.files[w.I.libs.path_key(w.I, w.path(b))] = \
                    w.I.fs.files[w.I.libs.path_key(w.I, w.path(b, 'g'))]
                w.fresh()
                sto2 = w.load(w.path(b), force=True)
            sto = sto2
            node = at(w, w.attr(sto, 'data'), path)
        w.last_storage = sto
        return node
    return {}
