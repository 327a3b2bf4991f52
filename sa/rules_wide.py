"""The same relations on large, deep and oddly named trees.

The other rule files use small trees.  A rule that holds on them can still
depend on a size (a slice, a limit, a cache), on a nesting depth or on the
text of a field name; these obligations repeat the main relation of a
property on

* Lists of 13 items and Compilations of 13 fields, and on sizes just past
  every small integer constant that appears in the analysed source,
* trees nested seven levels deep (or one past the constants),
* trees whose field names are unusual: digits, blanks, dashes, leading
  underscores, non-ASCII letters, and the names the backends use themselves.
"""
import ast

from .world import *
from .rules_data import (at, tree_of, nodes_of, blank_of, is_empty, cdesc,
                         is_complete, cval, realize, pathstr, leaves_of, VE,
                         SVE, empty_out, render)
from .rules_store import (set_spec, roundtrip, backend_of, fillup)

ODD = ('data', 'schema', 'config', 'items', 'item_0', 'x y', 'a-b', 'A', 'a',
       'ab', 'name1', 'attrs', 'keys_', 'dsch_data', 'dtype', 'node_type',
       'optionals', 'list', 'long_name_of_a_single_field_31')
ODDER = ('0', '12', '1.5'.replace('.', '_'), '_a', '_', '\u00fc', 'item 1',
         'A_' + 'n' * 40)


def names_for(backends):
    return ODD if 'mat' in backends else ODD + ODDER


def int_constants(src):
    """small integer constants of the analysed source"""
    out = set()
    for path, tree in src.values():
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int:
                out.add(n.value)
    return out


def sizes(src, thorough):
    cs = sorted(c for c in int_constants(src) if 12 <= c <= 1100)
    return sorted({13} | ({120} if thorough else set())
                  | {c + 1 for c in cs[:4]})


def depth(src):
    return max([7] + [c + 3 for c in int_constants(src) if 4 < c <= 30])


def nest(kind, sub, n):
    """sub nested n levels deep; (descriptor, state with one leaf)"""
    d, st = sub, 1
    for i in range(n):
        k = kind if kind != 'mixed' else ('comp', 'list')[i % 2]
        if k == 'comp':
            d, st = Comp(f=d), {'f': st}
        else:
            d, st = Lst(d), [st]
    return d, st


def shapes(backends, src, thorough, leaf):
    """name -> (descriptor, state in which every leaf is set)"""
    out = {}
    for n in sizes(src, thorough):
        out['list%d' % n] = (Lst(leaf()), [1] * n)
        if n < 150:
            out['fields%d' % n] = (
                Comp(**{'f%d' % i: leaf() for i in range(n)}),
                {'f%d' % i: 1 for i in range(n)})
            out['items%d' % n] = (Comp(l=Lst(Comp(x=leaf(), y=leaf()))),
                                  {'l': [{'x': 1, 'y': 1}] * n})
    n = depth(src)
    for k in ('comp', 'list', 'mixed'):
        out[k + '-deep%d' % n] = nest(k, leaf(), n)
    ns = names_for(backends)
    out['names'] = (Comp(**{m: leaf() for m in ns}), {m: 1 for m in ns})
    out['names-in'] = (
        Comp(**{m: Comp(**{m: leaf(), 'z': leaf()}) if i % 2
                else Lst(Comp(**{m: leaf()})) for i, m in enumerate(ns)}),
        {m: {m: 1, 'z': 1} if i % 2 else [{m: 1}, {m: 1}]
         for i, m in enumerate(ns)})
    return out


def leaf_paths(desc, st, most=40):
    ps = [p for p, s in leaves_of(desc, st)]
    if len(ps) > 60:
        most = min(most, 9)
    if len(ps) <= most:
        return ps
    step = max(1, len(ps) // max(1, most - 3))
    return list(dict.fromkeys(ps[:1] + ps[1:-1:step] + ps[-2:]))


def with_at(st, path, v):
    """state st with another leaf state at path"""
    if not path:
        return v
    if isinstance(st, dict):
        return {k: with_at(x, path[1:], v) if k == path[0] else x
                for k, x in st.items()}
    return [with_at(x, path[1:], v) if i == path[0] else x
            for i, x in enumerate(st)]


def values(w, desc, st, variant=0):
    return realize(w, desc, st, lambda d, s: EMPTY if not s
                   else w.val(d, variant))


def register(wide):
    """property -> generator"""
    def rule(prop):
        def deco(f):
            wide[prop] = f
            return f
        return deco

    S = lambda: leaf_desc('String')
    C = lambda: cdesc('String')
    conv = lambda w: lambda d, s: EMPTY if s == 0 else cval(w, d.kind, s)

    def every(prop, text, leaf=S, backends=BACKENDS, skip=()):
        """one obligation per backend and shape"""
        def deco(f):
            def gen(add, thorough, src):
                for b in backends:
                    for name, (desc, st) in shapes(
                            (b,), src, thorough, leaf).items():
                        if name.startswith(skip):
                            continue

                        def ob(w, b=b, desc=desc, st=st, name=name):
                            f(w, b, desc, st, '%s: %s' % (b, name))
                        add('wide:%s:%s' % (b, name), text
                            + ', in large, deep and oddly named trees', ob)
            wide[prop] = gen
            return f
        return deco

    # ------------------------------------------------------- schema nodes
    @rule('C06')
    def c06(add, thorough, src):
        from .rules_schema import expect_equal_nodes
        ns = (' a', 'a ', '', ' ', 'a.b', '.', 'a/b', 'a\nb', '\t', "a'b",
              'a"b', 'a\\b', '\u00c4', 'e\u0301', '\u00e9', '\U0001f600',
              'A B', 'null', 'True', '0', '00', '1.0', '__class__', 'class')
        more = {'anything': (Comp(**{
            n: Comp(**{m: S() for m in ns[:9]}) if i % 5 == 4 else S()
            for i, n in enumerate(ns)}), None)}
        for name, (desc, st) in dict(shapes(('npz',), src, thorough, S),
                                     **more).items():
            def ob(w, desc=desc, name=name):
                node = w.mk(desc)
                dct = w.call(node, 'to_dict')
                for js in (False, True):
                    n2 = w.fn('dsch.schema', 'node_from_json', w.call(
                        node, 'to_json')) if js else w.fn(
                            'dsch.schema', 'node_from_dict', dct)
                    what = '%s from %s' % (name, ('dict', 'JSON')[js])
                    w.expect_same(w.call(n2, 'to_dict'), w.call(
                        node, 'to_dict'), what)
                    w.expect_same(w.call(n2, 'hash'), w.call(node, 'hash'),
                                  what + ': hash')
            add('wide:' + name, 'serialisation keeps large, deep and oddly '
                'named schemas', ob)

    @rule('C07')
    def c07(add, thorough, src):
        for name, (desc, st) in shapes(('npz',), src, thorough, S).items():
            def ob(w, desc=desc, name=name, st=st):
                node = w.mk(desc)
                h = w.call(node, 'hash')
                w.expect_same(w.call(w.mk(desc), 'hash'), h, name
                              + ': hash of an equal schema')
                w.check(w.I.truth(w.I.compare('==', node, w.mk(desc))),
                        name + ': equal schemas differ')
                for p in leaf_paths(desc, st):
                    other = w.mk(changed(desc, p))
                    w.check(not w.I.truth(w.I.compare('==', node, other)),
                            '%s: == although %s differs' % (name,
                                                            pathstr(p)))
                    w.check(w.call(other, 'hash') != h, '%s: equal hashes '
                            'although %s differs' % (name, pathstr(p)))
            add('wide:' + name, 'identity depends on every part of large, '
                'deep and oddly named schemas', ob)

        # known texts, which differ in the place of their parts only
        A = lambda **k: D('Array', None, dtype='int32', **k)
        pairs = [
            (A(max_shape=(None, 2, 3, None)), A(max_shape=(None, 3, 2,
                                                           None))),
            (A(max_shape=(2, 3)), A(min_shape=(2, 3))),
            (A(min_shape=(1, 2), max_shape=(3, 4)),
             A(min_shape=(3, 4), max_shape=(1, 2))),
            (A(max_shape=(12, 3)), A(max_shape=(1, 23))),
            (A(depends_on=('a', 'b'), ndim=2), A(depends_on=('b', 'a'),
                                                 ndim=2)),
            (A(depends_on=('ab',)), A(depends_on=('ba',))),
            (D('Scalar', None, dtype='int32', min_value=2, max_value=3),
             D('Scalar', None, dtype='int32', min_value=3, max_value=2)),
            (D('Scalar', None, dtype='int32', max_value=12),
             D('Scalar', None, dtype='int32', max_value=21)),
            (D('Scalar', None, dtype='int32', unit='mV'),
             D('Scalar', None, dtype='int32', unit='MV')),
            (D('Scalar', None, dtype='int32', unit='m V'),
             D('Scalar', None, dtype='int32', unit='mV')),
            (D('Scalar', None, dtype='int32', unit='a, b'),
             D('Scalar', None, dtype='int32', unit='b, a')),
            (D('Scalar', None, dtype='int32', unit=''),
             D('Scalar', None, dtype='int32', unit='null')),
            (D('String', None, min_length=1, max_length=2),
             D('String', None, min_length=2, max_length=1)),
            (D('String', None, max_length=1), D('String', None,
                                                min_length=1)),
            (Comp(a=S(), b=leaf_desc('Bool')), Comp(a=leaf_desc('Bool'),
                                                    b=S())),
            (Comp(a=Comp(b=S()), c=S()), Comp(a=Comp(b=S(), c=S()))),
            (Comp(ab=S()), Comp(ba=S())), (Comp(a=S()), Comp(A=S())),
            (Comp(**{'a b': S()}), Comp(**{'a_b': S()})),
            (Lst(Comp(a=S())), Comp(a=Lst(S()))),
            (D('Compilation', {'a': S(), 'b': S()}, optionals=['a']),
             D('Compilation', {'a': S(), 'b': S()}, optionals=['b'])),
            (Lst(Lst(S(), max_length=1)), Lst(Lst(S()), max_length=1)),
        ]
        for k, (d1, d2) in enumerate(pairs):
            def permuted(w, d1=d1, d2=d2):
                for wrap in (lambda d: d, lambda d: Comp(f=d, g=S()), Lst):
                    a, b, c = (w.mk(wrap(d)) for d in (d1, d2, d1))
                    what = '%r and %r' % (wrap(d1), wrap(d2))
                    w.check(w.call(a, 'hash') != w.call(b, 'hash'),
                            what + ': equal hashes')
                    w.check(not w.I.truth(w.I.compare('==', a, b)),
                            what + ': equal by ==')
                    w.expect_same(w.call(a, 'hash'), w.call(c, 'hash'),
                                  'hashes of equal schemas')
            add('permuted:%d' % k, 'schemas that differ in the place of '
                'their parts differ', permuted)

    def changed(d, path):
        if not path:
            return D(d.kind, None, **dict(d.opts, max_length=99))
        if d.kind == 'List':
            return Lst(changed(d.sub, path[1:]), **d.opts)
        return D('Compilation', {n: changed(s, path[1:]) if n == path[0]
                                 else s for n, s in d.sub.items()}, **d.opts)

    # --------------------------------------------------------- validation
    @every('C08', 'validate() raises exactly if a non-empty node violates '
           'its constraints', C)
    def c08(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        w.fill(data, desc, realize(w, desc, st, conv(w)))
        for who in (sto, data):
            w.no_exc(w.raises(w.call, who, 'validate'), what)
        for p in leaf_paths(desc, st):
            leaf = at(w, data, p)
            for step in (2, 0, 2, 1):
                if step:
                    w.call(leaf, 'replace', cval(w, 'String', step))
                else:
                    w.call(leaf, 'clear')
                for who in (sto, data):
                    exc = w.raises(w.call, who, 'validate')
                    t = '%s: %s %s' % (what, pathstr(p), (
                        'empty', 'conforming', 'violating')[step])
                    if step != 2:
                        w.no_exc(exc, t)
                    else:
                        w.checks += 1
                        if exc is None or SVE not in w.exc_names(exc):
                            w.fail(t + ': a validation error is expected, '
                                   'but ' + w.exc_text(exc))

    @every('C09', 'a failing node is named by its path, with the original '
           'cause', C)
    def c09(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        w.fill(data, desc, realize(w, desc, st, conv(w)))
        for p in leaf_paths(desc, st):
            leaf = at(w, data, p)
            w.call(leaf, 'replace', cval(w, 'String', 2))
            own = w.raises(w.call, leaf, 'validate')
            w.expect_exc(own, VE, what + ', leaf')
            for n in sorted({0, len(p) // 2, len(p) - 1}):
                who = sto if n == 0 else at(w, data, p[:n])
                exc = w.raises(w.call, who, 'validate')
                t = '%s: violating %s' % (what, pathstr(p[n:]))
                w.expect_exc(exc, SVE, t)
                w.expect_same(w.call(exc, 'node_path'), pathstr(p[n:]),
                              t + ': node_path()')
                oc = w.call(exc, 'original_cause')
                w.expect_exc(oc, VE, t + ': original_cause()')
                for f in ('message', 'expected', 'got'):
                    w.expect_same(w.attr(oc, f), w.attr(own, f),
                                  t + ': %s of the cause' % f)
                txt = render(w, exc, t)
                if isinstance(txt, str):
                    w.check(pathstr(p[n:]) in txt, '%s: the text %r does '
                            'not contain the path' % (t, txt))
            w.call(leaf, 'replace', cval(w, 'String', 1))

    # -------------------------------------------------------------- state
    @every('C10', 'empty and complete of every node')
    def c10(w, b, desc, st, what):
        ps = leaf_paths(desc, st, 6)
        none = realize(w, desc, st, lambda d, s: 0)
        states = [('nothing', none), ('everything', st)]
        for p in ps:
            states.append(('only ' + pathstr(p), with_at(none, p, 1)))
            states.append(('all but ' + pathstr(p), with_at(st, p, 0)))
        for k, (t, s) in enumerate(states):
            sto, data = w.new(b, desc, 's%d' % k)
            w.fill(data, desc, values(w, desc, s))
            for i, (p, d, x) in enumerate(nodes_of(desc, s)):
                if len(p) > 1 and i % 5 and len(s) > 40:
                    continue
                n = at(w, data, p)
                w.expect_same(w.attr(n, 'empty'), is_empty(d, x),
                              '%s, %s set: empty of %s' % (what, t,
                                                           pathstr(p)))
                w.expect_same(w.attr(n, 'complete'), is_complete(d, x),
                              '%s, %s set: complete of %s' % (what, t,
                                                              pathstr(p)))
            w.expect_same(w.attr(sto, 'complete'), is_complete(desc, s),
                          '%s, %s set: complete of the storage' % (what, t))

    @every('C11', 'a cleared node yields no value')
    def c11(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        w.fill(data, desc, values(w, desc, st))
        olds = [at(w, data, p) for p in leaf_paths(desc, st)]
        for cut in ((), leaf_paths(desc, st)[-1]):
            for p in leaf_paths(desc, st):
                w.call(at(w, data, p), 'clear')
                w.expect_exc(w.raises(w.attr, at(w, data, p), 'value'),
                             'NodeEmptyError', '%s: value of the cleared %s'
                             % (what, pathstr(p)))
        w.call(data, 'clear')
        w.expect_dump(data, desc, blank_of(desc), what + ' after clearing '
                      'the whole tree')
        w.expect_same(w.attr(data, 'empty'), True, what + ': empty')

    @every('C12', 'data_tree() holds exactly the stored values')
    def c12(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        ps = leaf_paths(desc, st)
        spec = values(w, desc, st)
        w.fill(data, desc, spec)
        for inc in (False, True):
            w.expect_same(w.call(data, 'data_tree', include_empty=inc),
                          tree_of(w, desc, spec, inc), what)
        st2 = st
        for p in ps[::2]:
            st2 = with_at(st2, p, 0)
        spec2 = values(w, desc, st2)
        sto, data = w.new(b, desc, 'g')
        w.fill(data, desc, spec2)
        w.expect_same(w.call(data, 'data_tree', include_empty=True),
                      tree_of(w, desc, spec2, True), what + ', partly empty')

    @every('C13', 'replace() writes exactly the given values')
    def c13(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        for v in (0, 1, 0):
            spec = values(w, desc, st, v)
            w.call(data, 'replace', spec)
            w.expect_dump(data, desc, spec, what + ' replaced')
        if desc.kind == 'List':
            w.call(data, 'replace', spec[:1])
            w.expect_dump(data, desc, spec[:1], what + ' replaced by one')
            for x in spec[1:]:
                w.call(data, 'append', x)
            w.expect_dump(data, desc, spec, what + ' appended')

    @every('C14', 'sub-nodes are found under their own name only, and never '
           'overwritten')
    def c14(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        spec = values(w, desc, st)
        w.fill(data, desc, spec)
        for p, d, x in list(nodes_of(desc, st))[:60]:
            n = at(w, data, p)
            if d.kind == 'Compilation':
                for f in d.sub:
                    sub = w.attr(n, f)
                    w.expect_exc(w.raises(w.setattr, n, f, 'new'),
                                 'ResetSubnodeError', '%s: setting %s'
                                 % (what, pathstr(p + (f,))))
                    w.check(w.attr(n, f) is sub, '%s: %s is another object'
                            % (what, pathstr(p + (f,))))
                    near = {f + '_', '_' + f, f[:-1] or 'q', f.upper(),
                            f.lower(), f.title(), f.replace(' ', '_'),
                            f.replace('_', ' '), f.replace('-', '_'),
                            f.replace('_', '-'), f + 'x', f + ' ', ' ' + f,
                            f + '0', f[1:] or 'q', f + f}
                    for g in sorted(near - set(d.sub) - {''}):
                        _, other = w.attempt(w.attr, w.new(
                            'inmem', Comp(zz=S()))[1], g)
                        if other is None:
                            continue       # an attribute of every node
                        r, exc = w.attempt(w.attr, n, g)
                        w.check(exc is not None, '%s: a field is found as '
                                '%r' % (what, g))
                        w.expect_exc(exc, 'AttributeError', '%s: no field '
                                     '%r' % (what, g))
            elif d.kind == 'List':
                for i in sorted({0, len(x) // 2, len(x) - 1, -1, -len(x)}):
                    sub = w.item(n, i)
                    w.check(sub is w.item(n, i % len(x)), '%s: item %d'
                            % (what, i))
                    w.expect_exc(w.raises(w.I.setitem, n, i, 'new'),
                                 'ResetSubnodeError', '%s: setting item %d'
                                 % (what, i))
        w.expect_dump(data, desc, spec, what + ' afterwards')

    # ----------------------------------------------------------- copying
    @rule('C15')
    def c15(add, thorough, src):
        copying(add, thorough, src, 'load_from')

    @rule('C16')
    def c16(add, thorough, src):
        copying(add, thorough, src, 'create_from')
        copying(add, thorough, src, 'save_as')

    def copying(add, thorough, src, how):
        for b1, b2 in (('inmem', 'hdf5'), ('hdf5', 'npz'), ('npz', 'mat'),
                       ('mat', 'inmem')):
            for name, (desc, st) in shapes((b1, b2), src, thorough,
                                           S).items():
                def ob(w, b1=b1, b2=b2, desc=desc, st=st, name=name):
                    what = '%s: %s from %s to %s' % (name, how, b1, b2)
                    ps = leaf_paths(desc, st)
                    st2 = st
                    for p in ps[1::2]:
                        st2 = with_at(st2, p, 0)
                    for k, s in enumerate((st, st2)):
                        spec = values(w, desc, s)
                        s1, d1 = w.new(b1, desc, 'a%d' % k)
                        w.fill(d1, desc, spec)
                        path = w.path(b2, 'b%d' % k)
                        if how == 'load_from':
                            s2, d2 = w.new(b2, desc, 'b%d' % k)
                            w.fill(d2, desc, values(w, desc, st, 1))
                            w.call(d2, 'load_from', d1)
                        elif how == 'save_as':
                            s2 = w.call(s1, 'save_as', path)
                        else:
                            s2 = w.fn('dsch.frontend', 'create_from', path,
                                      s1)
                        if s2 is not None:
                            d2 = w.attr(s2, 'data')
                            w.expect_dump(d2, desc, spec, what)
                        if how != 'load_from':
                            w.expect_same(w.call(s2, 'schema_hash'),
                                          w.call(s1, 'schema_hash'),
                                          what + ': schema')
                        w.expect_dump(d1, desc, spec, what + ': the source')
                add('wide:%s:%s:%s:%s' % (how, b1, b2, name), 'copies of '
                    'large, deep and oddly named trees', ob)

    # ------------------------------------------------------------- files
    @every('C20', 'the loaded tree is the saved tree', S, FILE_BACKENDS)
    def c20(w, b, desc, st, what):
        roundtrip(w, b, desc, values(w, desc, st), 'f', what)
        st2 = st
        for p in leaf_paths(desc, st)[::2]:
            if not any(isinstance(x, int) for x in p[-1:]) and len(
                    leaf_paths(desc, st)) > 1:
                st2 = with_at(st2, p, 0)
        from .rules_store import full_lists
        spec = values(w, desc, st2)
        if full_lists(desc, spec):
            roundtrip(w, b, desc, spec, 'g', what + ', partly empty')

    @every('C21', 'cleared data does not come back', S, FILE_BACKENDS)
    def c21(w, b, desc, st, what):
        from .rules_store import full_lists
        path = w.path(b)
        sto, data = w.new(b, desc)
        w.fill(data, desc, values(w, desc, st))
        w.call(sto, 'save')
        for loaded in (False, True):
            for k, p in enumerate(leaf_paths(desc, st, 4)):
                # shorten the lists on the way, or clear the leaf
                cut = max([i for i, x in enumerate(p)
                           if isinstance(x, int)], default=None)
                st2 = st
                if loaded:
                    sto = w.load(path, force=True)
                    data = w.attr(sto, 'data')
                if cut is None:
                    w.call(at(w, data, p), 'clear')
                    st2 = with_at(st, p, 0)
                else:
                    lst = st
                    for x in p[:cut]:
                        lst = lst[x]
                    d = desc
                    for x in p[:cut]:
                        d = d.sub if isinstance(x, int) else d.sub[x]
                    short = lst[:len(lst) // 2]
                    w.call(at(w, data, p[:cut]), 'replace',
                           values(w, d, short))
                    st2 = with_at(st, p[:cut], short)
                    if not full_lists(desc, values(w, desc, st2)):
                        st2 = None
                if st2 is not None:
                    spec = values_kept(w, desc, st2, data)
                    w.call(sto, 'save', force=True)
                    w.fresh()
                    s2 = w.load(path, force=True)
                    w.expect_dump(w.attr(s2, 'data'), desc, spec,
                                  '%s: after clearing %s%s' % (
                                      what, pathstr(p), ' of the loaded '
                                      'storage' * loaded))
                # back to the full state
                w.call(data, 'replace', values(w, desc, st))
                w.call(sto, 'save')

    def values_kept(w, desc, st, data):
        """the spec of a state, with the values now in the tree (checked to
        have that state)"""
        def rec(d, s, n):
            if d.kind == 'Compilation':
                return {k: rec(d.sub[k], x, w.attr(n, k))
                        for k, x in s.items()}
            if d.kind == 'List':
                w.expect_same(w.I.len_(n), len(s), 'list length in memory')
                return [rec(d.sub, x, w.item(n, i))
                        for i, x in enumerate(s)]
            w.expect_same(w.attr(n, 'empty'), not s, 'empty in memory')
            return w.attr(n, 'value') if s else EMPTY
        return rec(desc, st, data)

    @every('C22', 'save() refuses exactly the invalid states', C,
           FILE_BACKENDS)
    def c22(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        w.fill(data, desc, realize(w, desc, st, conv(w)))
        w.no_exc(w.raises(w.call, sto, 'save'), what + ': save()')
        for p in leaf_paths(desc, st, 5):
            leaf = at(w, data, p)
            w.call(leaf, 'replace', cval(w, 'String', 2))
            before = w.files()
            exc = w.raises(w.call, sto, 'save')
            w.checks += 1
            if exc is None or not {VE, SVE} & set(w.exc_names(exc)):
                w.fail('%s: violating %s: save() must raise, but %s' % (
                    what, pathstr(p), w.exc_text(exc)))
            w.expect_files(before, what + ': refused save()')
            w.call(leaf, 'replace', cval(w, 'String', 1))
            w.no_exc(w.raises(w.call, sto, 'save'), what + ': corrected')

    @every('C23', 'load() refuses invalid data', C, FILE_BACKENDS,
           ('names-in',))
    def c23(w, b, desc, st, what):
        for k, p in enumerate(leaf_paths(desc, st, 4)):
            for j in (2, 1):
                path = w.path(b, 'f%d%d' % (k, j))
                sto, data = w.new(b, desc, 'f%d%d' % (k, j))
                w.fill(data, desc, realize(w, desc, with_at(st, p, j),
                                           conv(w)))
                w.call(sto, 'save', force=True)
                w.fresh()
                exc = w.raises(w.load, path)
                t = '%s: load() with %s %s' % (what, pathstr(p), (
                    0, 'conforming', 'violating')[j])
                if j == 1:
                    w.no_exc(exc, t)
                else:
                    w.checks += 1
                    if exc is None or not {VE, SVE} & set(
                            w.exc_names(exc)):
                        w.fail(t + ' must raise, but ' + w.exc_text(exc))
                    w.no_exc(w.raises(w.load, path, force=True),
                             t + ', forced')

    @every('C30', 'inspecting changes nothing', S, BACKENDS,
           ('fields', 'items'))
    def c30(w, b, desc, st, what):
        from .rules_file import inspect_all
        sto, data = w.new(b, desc)
        spec = values(w, desc, st)
        w.fill(data, desc, spec)
        if b != 'inmem':
            w.call(sto, 'save')
            w.fresh()
            sto = w.load(w.path(b))
            data = w.attr(sto, 'data')
        before = w.files()
        a1 = inspect_all(w, sto, data, desc, spec)
        a2 = inspect_all(w, sto, data, desc, spec)
        w.checks += 1
        for x, y in zip(a1, a2):
            if x != y:
                w.fail('%s: %s gives %s, then %s' % (what, x[0], x[1],
                                                     y[1]))
        w.expect_files(before, what)
        w.expect_dump(data, desc, spec, what)

    @every('C32', 'every node is shown', S, BACKENDS, ('names',))
    def c32(w, b, desc, st, what):
        from .rules_node import expect_tree
        sto, data = w.new(b, desc)
        spec = values(w, desc, st)
        w.fill(data, desc, spec)
        expect_tree(w, w.call(data, 'node_tree'), desc, spec, data, what)
        render(w, data, what)
        for k, p in enumerate(leaf_paths(desc, st, 4)):
            s = values(w, desc, with_at(st, p, 0))
            sto, data = w.new(b, desc, 'e%d' % k)
            w.fill(data, desc, s)
            expect_tree(w, w.call(data, 'node_tree'), desc, s, data, what
                        + ' without ' + pathstr(p))

    @every('C36', 'each save stores the current state and leaves it as it '
           'is', S, FILE_BACKENDS, ('names-in',))
    def c36(w, b, desc, st, what):
        path = w.path(b)
        sto, data = w.new(b, desc)
        for v in (0, 1):
            spec = values(w, desc, st, v)
            w.call(data, 'replace', spec)
            for i in (1, 2):
                w.call(sto, 'save')
                w.check(w.attr(sto, 'data') is data, what + ': another '
                        'top-level node')
                w.expect_dump(data, desc, spec, what + ' after save()')
            s2 = w.load(path)
            w.expect_dump(w.attr(s2, 'data'), desc, spec, what + ' loaded')
            # empty items are kept in memory, too
            for p in leaf_paths(desc, st, 3):
                w.call(at(w, data, p), 'clear')
            d1 = w.dump(data, desc)
            # (whether files hold empty items is C20's question)
            w.raises(w.call, sto, 'save', force=True)
            w.expect_state(w.dump(data, desc), d1, what + ', partly '
                           'cleared, after save()')

    @every('C37', 'dir() lists every field', S, BACKENDS, ('list',))
    def c37(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        w.fill(data, desc, values(w, desc, st))
        for p, d, x in list(nodes_of(desc, st))[:60]:
            if d.kind == 'Compilation':
                names = list(w.I.iter_(w.call(at(w, data, p), '__dir__')))
                for n in d.sub:
                    w.check(n in names, '%s: dir() lacks the field %r'
                            % (what, n))

    @every('C39', 'references stay valid', S, BACKENDS, ('items', 'names-'))
    def c39(w, b, desc, st, what):
        sto, data = w.new(b, desc)
        w.fill(data, desc, values(w, desc, st))
        comp = lambda p: not any(isinstance(x, int) for x in p)
        ps = [p for p, d, x in nodes_of(desc, st)]
        refs = {p: at(w, data, p) for p in ps}
        s2, d2 = w.new('inmem', desc)
        w.fill(d2, desc, values(w, desc, st))
        for op in ('validate', 'data_tree', 'node_tree', 'repr', 'save',
                   'replace', 'load_from'):
            if op == 'repr':
                w.I.repr_(data)
            elif op == 'save':
                if b != 'inmem':
                    w.call(sto, 'save')
            elif op == 'replace':
                w.call(data, op, values(w, desc, st, 1))
            elif op == 'load_from':
                w.call(data, op, d2)
            else:
                if op != 'data_tree' or desc.kind in ('Compilation',
                                                      'List'):
                    w.call(data, op)
            for p, r in refs.items():
                if comp(p) or op not in ('replace', 'load_from'):
                    w.check(at(w, data, p) is r, '%s: %s is another object '
                            'after %s' % (what, pathstr(p), op))
        for p, d, x in nodes_of(desc, st):
            if comp(p) and d.kind == 'String':
                v = w.val(d, 0)
                w.call(refs[p], 'replace', v)
                w.expect_same(w.attr(at(w, data, p), 'value'), v, what
                              + ': ' + pathstr(p) + ' set through an older '
                              'reference')


WIDE = {}
register(WIDE)
