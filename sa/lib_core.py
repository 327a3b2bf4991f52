"""Transfer functions of the Python builtins and their methods."""
import array
import builtins as _hb
import collections
import datetime
import decimal
import fractions
import hashlib
import itertools
import json
import operator as _op

from .values import *
from .interp import is_host, GenObj, HOST_SCALARS, _HOST


def N(name):
    """Decorator: make a Native of a host function fn(I, ...)."""
    return lambda fn: Native(name, fn)


HOSTS = {'set': set, 'frozenset': frozenset, 'type': type, 'range': range,
         'bytearray': bytearray, 'list': list, 'dict': dict, 'tuple': tuple,
         'memoryview': memoryview, 'decimal.Decimal': decimal.Decimal,
         'fractions.Fraction': fractions.Fraction,
         'datetime.timedelta': datetime.timedelta,
         'array.array': array.array, 'collections.deque': collections.deque}


class DefaultDict(dict):
    default_factory = None


class PartialVal(Model):
    tname = 'functools.partial'

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def sa_call(self, I, *args, **kw):
        k = dict(self.kw)
        k.update(kw)
        return I.call(self.f, list(self.args) + list(args), k)

    def sa_getattr(self, I, name):
        if name == 'func':
            return self.f
        if name == 'args':
            return tuple(self.args)
        if name == 'keywords':
            return self.kw
        raise I.no_attr(self, name)


def str_parts(v):
    """Pieces of a string value."""
    if isinstance(v, SStr):
        return v.parts
    if isinstance(v, NpS):
        return str_parts(v.src)
    return (v,)


def last_known(v):
    p = str_parts(v)[-1]
    return p if isinstance(p, str) else ''


def first_known(v):
    p = str_parts(v)[0]
    return p if isinstance(p, str) else ''


def all_known(v):
    return all(isinstance(p, str) for p in str_parts(v))


def unwrap_str(v):
    return v.src if isinstance(v, NpS) else v


def is_hash(v):
    return isinstance(v, Term) and v.op == 'hash' and v.ty == 'str'


def json_text(v):
    """The text of a JSON document that is completely known, else None."""
    if not isinstance(v, Term):
        return None
    if v.op == 'encode' and v.args[1] == 'utf-8':
        s = json_text(v.args[0])
        return None if s is None else s.encode()
    if v.op != 'json':
        return None

    def build(c):
        if isinstance(c, tuple) and c and c[0] == 'dict':
            return {k if isinstance(k, str) else bad(): build(x)
                    for k, x in c[1:]}
        if isinstance(c, tuple) and c and c[0] == 'list':
            return [build(x) for x in c[1:]]
        if isinstance(c, tuple) and c and c[0] == 'c':
            return c[2]
        bad()

    def bad():
        raise LookupError
    indent, seps, ascii_ = v.args[1]
    try:
        return json.dumps(build(v.args[0]), indent=indent, separators=seps,
                          ensure_ascii=ascii_)
    except (LookupError, TypeError, ValueError):
        return None


def is_hpart(v):
    return isinstance(v, Term) and v.op == 'hpart'


def hash_len(v):
    try:
        return 2 * hashlib.new(v.args[0]).digest_size
    except ValueError:
        return 64


def not_hex(s):
    return any(c not in '0123456789abcdef' for c in s)


class CoreMixin:

    # ---------------------------------------------------------- strings
    def sstr_eq(self, a, b):
        """Decide equality of two string values from their known pieces;
        None if undetermined."""
        pa, pb = list(str_parts(a)), list(str_parts(b))
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0:1] = [x[n:]] if x[n:] else []
                pb[0:1] = [y[n:]] if y[n:] else []
            elif not isinstance(x, str) and x == y:
                pa.pop(0)
                pb.pop(0)
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa[-1:] = [x[:-n]] if x[:-n] else []
                pb[-1:] = [y[:-n]] if y[:-n] else []
            elif not isinstance(x, str) and x == y:
                pa.pop()
                pb.pop()
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p, str) and p for p in rest):
                return False
            if any(isinstance(p, Term) and p.truth for p in rest):
                return False
            return None
        # one side fully known: length argument
        for x, y in ((pa, pb), (pb, pa)):
            if all(isinstance(p, str) for p in x):
                known = sum(len(p) for p in y if isinstance(p, str))
                if known > sum(map(len, x)):
                    return False
                if not self._opaque_may_be(y, ''.join(x)):
                    return False
        return None

    def _opaque_may_be(self, parts, s):
        """May a piecewise unknown string equal the known string s?"""
        for p in parts:
            if isinstance(p, str) and p not in s:
                return False
            if isinstance(p, Term) and p.op in ('hash', 'json', 'format',
                                                'repr'):
                return False
        return True

    def cut(self, I, parts, sep, once):
        """Split a partly unknown string at one character; an unknown part
        has the separator once or not at all."""
        out = [[]]
        for p in parts:
            if once and out[1:]:
                out[-1].append(p)
            elif isinstance(p, str):
                xs = p.split(sep, 1 if once else -1)
                out[-1].append(xs[0])
                out += [[x] for x in xs[1:]]
            elif self.str_contains(I, p, sep):
                out[-1].append(Term('lhead', (p, sep), 'str'))
                out.append([Term('ltail', (p, sep), 'str')])
            else:
                out[-1].append(p)
        return [sstr(o) for o in out]

    def str_contains(self, I, c, v):
        v = unwrap_str(v)
        if isinstance(v, str) and v == '':
            return True
        if not I.is_strlike(v):
            if I.type_name(c) == 'bytes':
                return I.choose_bool(('incl', c, v), 'content of %r' % (c,))
            raise I.exc('TypeError', "'in <string>' requires string as left "
                        "operand")
        parts = str_parts(c)
        if isinstance(v, str):
            if any(isinstance(p, str) and v in p for p in parts):
                return True
            if all(isinstance(p, str) for p in parts):
                return False
            if is_hash(c) and (not_hex(v) or len(v) > hash_len(c)):
                return False
        elif v in parts:
            return True
        elif is_hpart(v) and v.args[0] in parts:
            return True
        elif (is_hash(v) or v == c) and all(
                isinstance(p, str) or is_hash(p) for p in parts):
            return False
        return I.choose_bool(('incl', c, v), '%r contains %r' % (c, v))

    def str_endswith(self, I, v, suf, start=False):
        if isinstance(suf, tuple):
            return any(self.str_endswith(I, v, s, start) for s in suf)
        suf = unwrap_str(suf)
        if not I.is_strlike(suf) and not isinstance(suf, (bytes,)):
            raise I.exc('TypeError', 'endswith first arg must be str')
        if isinstance(v, (str, bytes)) and isinstance(suf, (str, bytes)):
            return I.host(v.startswith if start else v.endswith, suf)
        if suf == v or suf == '':
            return True
        parts = list(str_parts(v))
        sparts = list(str_parts(suf))
        if start:
            i = 0
        else:
            i = -1
        while sparts:
            if not parts:
                return False
            x, y = parts[i], sparts[i]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if start:
                    if x[:n] != y[:n]:
                        return False
                    x, y = x[n:], y[n:]
                else:
                    if x[-n:] != y[-n:]:
                        return False
                    x, y = x[:-n], y[:-n]
                parts[i:(i + 1) or None] = [x] if x else []
                sparts[i:(i + 1) or None] = [y] if y else []
            elif not isinstance(x, str) and x == y:
                parts.pop(i)
                sparts.pop(i)
            elif is_hash(x) and is_hash(y):
                return False
            elif is_hash(x) and isinstance(y, str) and (
                    not_hex(y) or len(y) > hash_len(x)):
                return False
            elif is_hash(x) and is_hpart(y) and y.args[0] == x and \
                    len(sparts) == 1 and (
                        y.args[1] == 0 if start
                        else y.args[2] == hash_len(x)):
                return True
            else:
                return I.choose_bool(
                    ('ends' if not start else 'starts',
                     sstr(parts), sstr(sparts)),
                    '%r %s with %r' % (v, 'starts' if start else 'ends',
                                       suf),
                    not (isinstance(v, Term) and v.op == 'in'))
        return True

    def str_map(self, v, fn, name):
        """Piecewise character mapping (lower, upper, ...)."""
        out = []
        for p in str_parts(v):
            if isinstance(p, str):
                out.append(fn(p))
            elif isinstance(p, Term) and p.op == name:
                out.append(p)
            elif name == 'lower' and is_hash(p):
                out.append(p)
            elif name == 'lower' and isinstance(p, Term) and \
                    p.op == 'upper' and is_hash(p.args[0]):
                out.append(p.args[0])
            else:
                out.append(Term(name, (p,), 'str', truth=p.truth))
        return sstr(out)

    def str_method(self, I, v, name):
        """Methods of str values (known or not)."""
        L = self
        v = unwrap_str(v)
        if isinstance(v, Term) and v.op == 'json' and name not in (
                'encode', 'startswith', 'endswith'):
            v = json_text(v) or v
        host = isinstance(v, str)

        def hostcall(I, *a, **k):
            a = [unwrap_str(x) for x in a]
            k = {n: unwrap_str(x) for n, x in k.items()}
            if not (all(is_host(x) for x in a) and all(
                    is_host(x) for x in k.values())):
                return gen(I, *a, **k)
            r = I.host(getattr(v, name), *a, **k)
            return r

        def gen(I, *a, **k):
            if name == 'endswith':
                return L.str_endswith(I, v, a[0])
            if name == 'startswith':
                return L.str_endswith(I, v, a[0], True)
            if name in ('lower', 'casefold'):
                return L.str_map(v, str.lower, 'lower')
            if name == 'upper':
                return L.str_map(v, str.upper, 'upper')
            if name == 'format':
                return I.str_format(v, list(a), k)
            if name == 'format_map':
                return I.str_format(v, [], a[0])
            if name == 'join':
                out = []
                for i, x in enumerate(I.iter_(a[0])):
                    if not I.is_strlike(x):
                        raise I.exc('TypeError', 'sequence item %d: expected '
                                    'str instance, %s found'
                                    % (i, I.type_name(x)))
                    if i:
                        out.append(v)
                    out.append(unwrap_str(x))
                return sstr(out)
            if name == 'encode':
                enc = (list(a) + [k.get('encoding', 'utf-8')])[0]
                enc = {'utf8': 'utf-8', 'UTF-8': 'utf-8'}.get(enc, enc)
                if (list(a) + [None, None])[1] or k.get('errors'):
                    enc = '%s, errors=%s' % (enc, (list(a) + [
                        None, k.get('errors')])[1] if len(a) > 1
                        else k.get('errors'))
                return Term('encode', (v, enc), 'bytes',
                            truth=(True if I.truth(v) else False)
                            if not isinstance(v, Term) else v.truth)
            if name in ('strip', 'rstrip', 'lstrip') and not a and not k \
                    and (is_hash(v) or is_hpart(v)):
                return v
            if name in ('strip', 'rstrip', 'lstrip', 'title', 'capitalize',
                        'swapcase', 'expandtabs', 'zfill', 'ljust', 'rjust',
                        'center', 'translate'):
                return Term(name, (v,) + tuple(a), 'str')
            if name in ('removesuffix', 'removeprefix'):
                st = name == 'removeprefix'
                if L.str_endswith(I, v, a[0], st):
                    if isinstance(a[0], str):
                        ps = list(str_parts(v))
                        i = 0 if st else -1
                        if isinstance(ps[i], str) and len(ps[i]) >= len(a[0]):
                            n = len(a[0])
                            ps[i] = ps[i][n:] if st else ps[i][:-n]
                            return sstr([p for p in ps])
                    raise Unsupported('str.' + name)
                return v
            if name in ('rpartition', 'rsplit') and isinstance(
                    (list(a) + [None])[0], str):
                sep = a[0]
                if name == 'rsplit' and (list(a[1:]) + [
                        k.get('maxsplit', -1)])[0] != 1:
                    raise Unsupported('str.rsplit of unknown string')
                ps = list(str_parts(v))
                if isinstance(ps[-1], str) and sep in ps[-1]:
                    h, s, t = ps[-1].rpartition(sep)
                    head = sstr(ps[:-1] + [h])
                    return (head, s, t) if name == 'rpartition' \
                        else [head, t]
                if I.choose_bool(('incl', v, sep), '%r contains %r'
                                 % (v, sep)):
                    h = Term('rhead', (v, sep), 'str')
                    t = Term('rtail', (v, sep), 'str')
                    return (h, sep, t) if name == 'rpartition' else [h, t]
                return ('', '', v) if name == 'rpartition' else [v]
            if name in ('partition', 'split') and isinstance(
                    (list(a) + [None])[0], str):
                sep = a[0]
                ps = list(str_parts(v))
                if name == 'split' and (list(a[1:]) + [
                        k.get('maxsplit', -1)])[0] == -1 and all(
                        isinstance(p, str) or (
                            isinstance(p, Term) and p.op == 'hash')
                        for p in ps):
                    out = [[]]
                    for p in ps:
                        if isinstance(p, str):
                            xs = p.split(sep)
                            out[-1].append(xs[0])
                            out += [[x] for x in xs[1:]]
                        else:
                            out[-1].append(p)
                    return [sstr(o) for o in out]
                if isinstance(ps[0], str) and sep in ps[0]:
                    h, s, t = ps[0].partition(sep)
                    rest = sstr([t] + ps[1:])
                    if name == 'partition':
                        return (h, s, rest)
                most = (list(a[1:]) + [k.get('maxsplit', -1)])[0]
                if len(sep) == 1 and (name == 'partition' or most in (-1, 1)):
                    out = L.cut(I, ps, sep, name == 'partition'
                                   or most == 1)
                    if name == 'split':
                        return out
                    return (out[0], sep, out[1]) if out[1:] else (v, '', '')
                raise Unsupported('str.%s of unknown string' % name)
            if name == 'replace' and isinstance(a[0], str):
                return L.str_map(v, lambda p: p.replace(*a[:2])
                                 if isinstance(a[1], str) else p,
                                 'replace%r' % (a[:2],))
            if name in ('isidentifier', 'isdigit', 'isalpha', 'isalnum',
                        'isupper', 'islower', 'isspace', 'isnumeric',
                        'isdecimal', 'istitle', 'isprintable', 'isascii'):
                return I.choose_bool((name, v), '%r.%s()' % (v, name))
            if name in ('find', 'rfind', 'index', 'count', 'rindex'):
                return Unk('str.' + name)
            if name == 'splitlines':
                if not I.truth(v):
                    return []
                keep = (list(a) + [k.get('keepends', False)])[0]
                if not any(isinstance(p, Term) and not is_hash(p)
                           for p in str_parts(v)) or not I.choose_bool(
                        ('incl', v, '\n'), '%r contains a line break'
                        % (v,)):
                    return [v]
                head = Term('rhead', (v, '\n'), 'str')
                return [sstr([head, '\n']) if keep else head,
                        Term('rtail', (v, '\n'), 'str')]
            raise Unsupported('str.' + name)

        if not hasattr(str, name):
            raise I.no_attr(v, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        if isinstance(v, Term) and v.op == 'json' and name == 'encode':
            def encode(I, *a, **k):
                known = json_text(v)
                if known is not None and a + tuple(k.values()) not in (
                        (), ('utf-8',), ('utf8',), ('UTF-8',)):
                    return I.call(L.str_method(I, known, name), list(a), k)
                return gen(I, *a, **k)
            return Native('encode', encode)
        return Native('str.' + name, hostcall if host else gen)

    def bytes_method(self, I, v, name):
        if name != 'decode':
            v = json_text(v) or v
        host = isinstance(v, bytes)
        if not hasattr(bytes, name):
            raise I.no_attr(v, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)

        def f(I, *a, **k):
            if host and all(is_host(x) for x in a):
                return I.host(getattr(v, name), *a, **k)
            if name == 'decode':
                enc = (list(a) + [k.get('encoding', 'utf-8')])[0]
                enc = {'utf8': 'utf-8', 'UTF-8': 'utf-8'}.get(enc, enc)
                if isinstance(v, Term) and v.op == 'encode' and \
                        v.args[1] == enc:
                    return v.args[0]
                return Term('decode', (v, enc), 'str', truth=v.truth)
            if name == 'hex':
                return Term('hex', (v,), 'str', truth=v.truth)
            if name in ('strip', 'rstrip', 'lstrip', 'upper', 'lower',
                        'replace'):
                return Term(name, (v,) + tuple(a), 'bytes')
            raise Unsupported('bytes.' + name)
        return Native('bytes.' + name, f)

    # ------------------------------------------------------- containers
    def list_method(self, I, v, name):
        def f(I, *a, **k):
            if name == 'append':
                v.append(a[0])
            elif name == 'extend':
                v.extend(list(I.iter_(a[0])))
            elif name == 'insert':
                v.insert(I.index(a[0]), a[1])
            elif name == 'pop':
                i = I.index(a[0]) if a else -1
                if not v or not -len(v) <= i < len(v):
                    raise I.exc('IndexError', 'pop from empty list')
                return v.pop(i)
            elif name == 'clear':
                v.clear()
            elif name == 'copy':
                return list(v)
            elif name == 'reverse':
                v.reverse()
            elif name in ('remove', 'index', 'count'):
                hits = [i for i, x in enumerate(v)
                        if x is a[0] or I.eq(x, a[0])]
                if name == 'count':
                    return len(hits)
                if not hits:
                    raise I.exc('ValueError', 'not in list')
                if name == 'index':
                    return hits[0]
                del v[hits[0]]
            elif name == 'sort':
                v[:] = self.sorted_(I, v, **k)
            else:
                raise Unsupported('list.' + name)
        if not hasattr(list, name) or (isinstance(v, tuple)
                                       and not hasattr(tuple, name)):
            raise I.no_attr(v, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        return Native('list.' + name, f)

    def sorted_(self, I, it, key=None, reverse=False):
        import functools
        items = [(x if key is None else I.call(key, [x]), x)
                 for x in I.iter_(it)]

        def cmp(a, b):
            if I.truth(I.compare('<', a[0], b[0])):
                return -1
            if I.truth(I.compare('<', b[0], a[0])):
                return 1
            return 0
        items.sort(key=functools.cmp_to_key(cmp), reverse=bool(reverse))
        return [x for _, x in items]

    def dict_method(self, I, v, name):
        def f(I, *a, **k):
            if name == 'get':
                kk = I.hk(a[0])
                return v[kk] if kk in v else (
                    a[1] if len(a) > 1 else k.get('default'))
            if name in ('keys', 'values', 'items'):
                return DictView(v, name)
            if name == 'pop':
                kk = I.hk(a[0])
                if kk in v:
                    return v.pop(kk)
                if len(a) > 1:
                    return a[1]
                raise I.exc('KeyError', kk)
            if name == 'popitem':
                if not v:
                    raise I.exc('KeyError', 'popitem(): dictionary is empty')
                return v.popitem()
            if name == 'setdefault':
                return v.setdefault(I.hk(a[0]), a[1] if len(a) > 1 else None)
            if name == 'update':
                for x in a:
                    I.dict_update(v, x)
                v.update(k)
                return None
            if name == 'clear':
                v.clear()
                return None
            if name == 'copy':
                return dict(v)
            if name == 'move_to_end':
                x = v.pop(a[0])
                v[a[0]] = x
                return None
            raise Unsupported('dict.' + name)
        if name == 'default_factory' and isinstance(v, DefaultDict):
            return v.default_factory
        if not hasattr(dict, name) and name != 'move_to_end':
            raise I.no_attr(v, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        return Native('dict.' + name, f)

    def set_method(self, I, v, name):
        def f(I, *a, **k):
            if name in ('add', 'discard', 'remove'):
                x = I.hk(a[0])
                if name == 'remove' and x not in v:
                    raise I.exc('KeyError', x)
                getattr(v, 'add' if name == 'add' else 'discard')(x)
                return None
            if name in ('clear', 'copy'):
                return getattr(v, name)()
            if name == 'pop':
                x = sorted(v, key=repr)[0]
                v.discard(x)
                return x
            others = [set(I.hk(y) for y in I.iter_(x)) for x in a]
            return getattr(v, name)(*others)
        if not hasattr(v, name):
            raise I.no_attr(v, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        return Native('set.' + name, f)

    def dunder(self, I, v, name):
        """Dunder methods of builtin values, mapped to the operations."""
        m = {
            '__len__': lambda I: I.len_(v),
            '__iter__': lambda I: IterVal(I.iter_(v)),
            '__getitem__': lambda I, k: I.getitem(v, k),
            '__setitem__': lambda I, k, x: I.setitem(v, k, x),
            '__delitem__': lambda I, k: I.delitem(v, k),
            '__contains__': lambda I, x: I.contains(v, x),
            '__str__': lambda I: I.str_(v),
            '__repr__': lambda I: I.repr_(v),
            '__bool__': lambda I: I.truth(v),
            '__eq__': lambda I, o: I.compare('==', v, o),
            '__ne__': lambda I, o: I.compare('!=', v, o),
            '__lt__': lambda I, o: I.compare('<', v, o),
            '__le__': lambda I, o: I.compare('<=', v, o),
            '__gt__': lambda I, o: I.compare('>', v, o),
            '__ge__': lambda I, o: I.compare('>=', v, o),
            '__format__': lambda I, s='': I.format_(v, s),
            '__int__': lambda I: self.construct(I, BType('int'), [v], {}),
            '__hash__': lambda I: Term('pyhash', (I.freeze(v),), 'int'),
        }
        if name == '__class__':
            return I.type_of(v)
        if name == '__doc__':
            return None
        if name in m:
            return Native(name, m[name])
        if name in ('__get__', '__set__', '__set_name__', '__delete__'):
            if not isinstance(v, (Prop, ClassMeth, StaticMeth, CachedProp)):
                raise I.no_attr(v, name)
            if name == '__get__':
                return Native(name, lambda I, o, c=None: I.bind_descr(
                    v, o, c or I.type_of(o)))
            if name == '__set__' and not isinstance(v, Prop):
                raise I.no_attr(v, name)
        if name.startswith('__array') or name == '__numpy_dtype__':
            if not isinstance(v, (NpS, Arr)):
                raise I.no_attr(v, name)
            if name == '__array__':
                return Native(name, lambda I, *a, **k: I.call(I.getattr_(
                    I.import_module('numpy'), 'asarray'), [v] + list(a), k))
        elif is_host(v) and not hasattr(v, name):
            raise I.no_attr(v, name)
        raise Unsupported('%s of %s' % (name, I.type_name(v)))

    # ------------------------------------------------------ value attrs
    def value_attr(self, I, v, name):
        if name == '__class__':
            return I.type_of(v)
        if name.startswith('__dataclass_') or (
                type(v) in (list, tuple, dict, set, frozenset, str, bytes,
                            int, float, bool, complex)
                and name.startswith('__') and not hasattr(v, name)):
            raise I.no_attr(v, name)
        if isinstance(v, NpS):
            return self.nps_attr(I, v, name)
        if isinstance(v, Arr):
            return self.arr_attr(I, v, name)
        if isinstance(v, DType):
            return self.dtype_attr(I, v, name)
        if isinstance(v, (str, SStr)) or (isinstance(v, Term)
                                          and v.ty == 'str'):
            return self.str_method(I, v, name)
        if isinstance(v, bytes) or (isinstance(v, Term) and v.ty == 'bytes'):
            return self.bytes_method(I, v, name)
        if isinstance(v, (list, tuple)):
            return self.list_method(I, v, name)
        if isinstance(v, dict):
            return self.dict_method(I, v, name)
        if isinstance(v, (set, frozenset)):
            return self.set_method(I, v, name)
        if isinstance(v, DictView):
            if name in ('__iter__', '__len__', '__contains__'):
                return self.dunder(I, v, name)
            if name in ('isdisjoint',):
                return Native(name, lambda I, o: not (
                    set(I.iter_(v)) & set(I.iter_(o))))
            raise I.no_attr(v, name)
        if isinstance(v, BType):
            r = self.type_attr(I, v, name)
            if r is None:
                import builtins
                host = getattr(builtins, v.name, None)
                if isinstance(host, type) and not hasattr(host, name):
                    raise I.no_attr(v, name)
                raise Unsupported('attribute %s of type %s' % (name, v.name))
            return r
        if isinstance(v, Term):
            return self.term_attr(I, v, name)
        if isinstance(v, Num) or isinstance(v, (bool, int, float, complex)):
            return self.number_attr(I, v, name)
        if v is None:
            if name.startswith('__') and name in dir(None):
                return self.dunder(I, v, name)
            raise I.no_attr(v, name)
        if isinstance(v, IterVal):
            if name == '__iter__':
                return Native(name, lambda I: v)
            if name == '__next__':
                return Native(name, lambda I: I.next_(v))
            raise I.no_attr(v, name)
        if isinstance(v, Native):
            if name in ('__name__', '__qualname__'):
                return v.name
            if name == '__wrapped__' and getattr(v, 'wrapped', None):
                return v.wrapped
            if name in ('cache_clear', 'cache_info') and hasattr(v, 'cache'):
                return Native(name, lambda I: v.cache.clear())
            if name in ('__doc__',):
                return None
            ns = getattr(v, 'ns', None)
            if ns and name in ns:
                return ns[name]
            raise Unsupported('attribute %s of %s' % (name, v.name))
        if isinstance(v, (ClassMeth, StaticMeth)):
            return I.getattr_(v.func, name)
        if isinstance(v, SliceVal) and name in ('start', 'stop', 'step'):
            return getattr(v, name)
        if isinstance(v, range) and name in ('start', 'stop', 'step'):
            return getattr(v, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        raise I.no_attr(v, name)

    def term_attr(self, I, v, name):
        if v.ty in ('int', 'float', 'bool', 'complex'):
            return self.number_attr(I, v, name)
        if name.startswith('__') and name.endswith('__'):
            return self.dunder(I, v, name)
        if v.ty.startswith('in:') or v.ty == 'foreign':
            raise I.no_attr(v, name)
        if v.ty == 'object':
            I.imprecise.append('attribute %s of %r' % (name, v))
            return Unk('attribute %s of unknown value' % name)
        if v.ty == 'memoryview' and name in ('ndim', 'itemsize'):
            return 1
        if v.ty == 'memoryview' and name == 'format':
            return 'B'
        if v.ty == 'memoryview' and name in ('c_contiguous', 'contiguous'):
            return True
        host = HOSTS.get(v.ty)
        if host is not None and not hasattr(host, name):
            raise I.no_attr(v, name)
        raise Unsupported('attribute %s of %s' % (name, v.ty))

    def number_attr(self, I, v, name):
        if name in ('real',):
            return v
        if name == 'is_integer':
            return Native(name, lambda I: I.choose_bool(
                ('isint', repr(v)), 'is_integer'))
        if name in ('bit_length', 'to_bytes', 'as_integer_ratio', 'hex',
                    'conjugate', 'imag', 'numerator', 'denominator',
                    'bit_count', 'from_bytes'):
            raise Unsupported('number method ' + name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        raise I.no_attr(v, name)

    # ------------------------------------------------------------ types
    def type_attr(self, I, t, name):
        n = t.name
        if name in ('__name__', '__qualname__'):
            return n.split('.')[-1]
        if name == '__module__':
            if n.startswith('np.'):
                return 'numpy'
            return n.rpartition('.')[0] or 'builtins'
        if name == '__mro__':
            out, todo = [], [n]
            while todo:
                x = todo.pop(0)
                out.append(BType(x))
                todo += TYPE_BASES.get(x, ())
            return tuple(out + [BType('object')])
        if name == '__class__':
            return BType('type')
        if n.startswith('datetime.'):
            r = self.datetime_type_attr(I, t, name)
            if r is not None:
                return r
        if name == 'fromkeys' and n in ('dict', 'collections.OrderedDict'):
            return Native(name, lambda I, ks, v=None: {
                I.hk(k): v for k in I.iter_(ks)})
        if name == 'fromhex' and n == 'bytes':
            def fromhex(I, s):
                if isinstance(s, Term) and s.op == 'hex':
                    return s.args[0]
                raise Unsupported('bytes.fromhex')
            return Native(name, fromhex)
        if n.startswith('pathlib.') and name in ('cwd', 'home'):
            raise Unsupported('pathlib ' + name)
        obj = {
            '__init__': lambda I, o, *a, **k: None,
            '__setattr__': lambda I, o, k, v: I.obj_setattr_plain(o, k, v)
            if isinstance(o, Obj) else I.setattr_(o, k, v),
            '__getattribute__': lambda I, o, k: I.obj_getattr_plain(o, k)
            if isinstance(o, Obj) else I.getattr_(o, k),
            '__delattr__': lambda I, o, k: I.obj_delattr_plain(o, k),
            '__new__': lambda I, c, *a, **k: I.new_object(c)
            if isinstance(c, ClassVal) else self.construct(
                I, c, list(a), k),
            '__repr__': lambda I, o: Term('repr', (I.type_name(o),), 'str',
                                          truth=True)
            if isinstance(o, Obj) else I.repr_(o),
            '__str__': lambda I, o: I.str_(o),
            '__eq__': lambda I, o, p: True if o is p
            else I.builtins['NotImplemented'],
            '__hash__': lambda I, o: Term('pyhash', (id(o),), 'int'),
            '__dir__': lambda I, o: self.default_dir(I, o),
        }
        if name in obj and (n == 'object' or name in ('__new__', '__init__',
                                                      '__setattr__')):
            return Native(name, obj[name])
        host = {'str': str, 'list': list, 'dict': dict, 'set': set,
                'bytes': bytes, 'tuple': tuple, 'int': int,
                'float': float}.get(n)
        if host is not None and hasattr(host, name):
            def unbound(I, o, *a, **k):
                if isinstance(o, Obj) and o.payload is not None:
                    o = o.payload
                return I.call(self.value_attr(I, o, name), list(a), k)
            return Native(n + '.' + name, unbound)
        return None

    def default_dir(self, I, o):
        names = []
        for c in reversed(o.cls.mro):
            if isinstance(c, ClassVal):
                names += [k for k in c.ns if not k.startswith('$')]
        names += list(o.attrs)
        out = ['__class__', '__init__']
        for x in names:
            if x not in out:
                out.append(x)
        return out

    def object_attr(self, I, obj, name, raw=False):
        if name == '__setattr__':
            return Native(name, lambda I, k, v: I.obj_setattr_plain(
                obj, k, v))
        if name == '__delattr__':
            return Native(name, lambda I, k: I.obj_delattr_plain(obj, k))
        if name == '__getattribute__':
            return Native(name, lambda I, k: I.obj_getattr_plain(obj, k))
        if name == '__dir__':
            return Native(name, lambda I: self.default_dir(I, obj))
        if name == '__init__':
            def init(I, *a, **k):
                if a or k:
                    raise I.exc('TypeError', 'object.__init__() takes exactly'
                                ' one argument')
            return Native(name, init)
        if name == '__repr__':
            return Native(name, lambda I: Term(
                'repr', (obj.cls.name, obj.n), 'str', truth=True))
        if name == '__str__':
            return Native(name, lambda I: I.repr_(obj))
        if name == '__eq__':
            return Native(name, lambda I, o: True if o is obj
                          else I.builtins['NotImplemented'])
        if name == '__ne__':
            return Native(name, lambda I, o: not I.truth(
                I.compare('==', obj, o)))
        if name == '__hash__':
            return Native(name, lambda I: Term('pyhash', (obj.n,), 'int'))
        if name == '__format__':
            return Native(name, lambda I, s='': I.str_(obj))
        if name == '__doc__':
            return None
        if name in ('__reduce__', '__reduce_ex__', '__sizeof__',
                    '__subclasshook__', '__getstate__'):
            raise Unsupported(name)
        if name == '__init_subclass__':
            return Native(name, lambda I, *a, **k: None)
        return None

    # ------------------------------------------------------ protocols
    def known_text(self, v):
        r = json_text(v)
        return v if r is None else r

    def value_getitem(self, I, c, k):
        if isinstance(c, Arr):
            return self.np_getitem(I, c, k)
        if isinstance(c, NpS):
            if k == () or k is Ellipsis:
                return c
            return I.getitem(c.src, k)
        if isinstance(c, (set, frozenset, int, float, type(None), Num,
                          FuncVal, Bound, Native)):
            raise I.exc('TypeError', "'%s' object is not subscriptable"
                        % I.type_name(c))
        if isinstance(c, SStr):
            if isinstance(k, SliceVal):
                ps = list(c.parts)
                if k.start is None and isinstance(k.stop, int) \
                        and k.stop < 0 and k.step is None and isinstance(
                            ps[-1], str) and len(ps[-1]) >= -k.stop:
                    return sstr(ps[:-1] + [ps[-1][:k.stop]])
                if isinstance(k.start, int) and k.start < 0 \
                        and k.stop is None and k.step is None and isinstance(
                            ps[-1], str) and len(ps[-1]) >= -k.start:
                    return ps[-1][k.start:]
                if isinstance(k.start, int) and k.start >= 0 \
                        and k.stop is None and k.step is None and isinstance(
                            ps[0], str) and len(ps[0]) >= k.start:
                    return sstr([ps[0][k.start:]] + ps[1:])
            if k == -1 and isinstance(c.parts[-1], str):
                return c.parts[-1][-1]
            if k == 0 and isinstance(c.parts[0], str):
                return c.parts[0][0]
            return Term('getitem', (c, I.freeze(k)), 'str')
        if (is_hash(c) or is_hpart(c)) and isinstance(k, SliceVal) and all(
                x is None or isinstance(x, int) for x in (
                    k.start, k.stop, k.step)) and k.step in (None, 1):
            h, lo, hi = (c, 0, hash_len(c)) if is_hash(c) else c.args
            a, b, _ = slice(k.start, k.stop).indices(hi - lo)
            if a >= b:
                return ''
            if (lo + a, lo + b) == (0, hash_len(h)):
                return h
            return Term('hpart', (h, lo + a, lo + b), 'str', truth=True)
        if isinstance(c, Term):
            if c.ty in ('str', 'bytes'):
                if isinstance(k, SliceVal):
                    if (k.start, k.stop) == (None, None) and \
                            k.step in (None, 1):
                        return c
                    return Term('getitem', (c, k), c.ty)
                return Term('getitem', (c, I.freeze(k)),
                            'str' if c.ty == 'str' else 'int')
            if c.ty in ('int', 'float', 'bool', 'foreign'):
                raise I.exc('TypeError', 'object is not subscriptable')
            raise Unsupported('item of ' + repr(c))
        raise Unsupported('item of ' + I.type_name(c))

    def value_iter(self, I, v):
        if isinstance(v, Arr):
            return self.np_iter(I, v)
        if isinstance(v, NpS):
            if v.dtype.kind in 'SU' :
                return I.iter_(v.src)
            raise I.exc('TypeError', 'iteration over a 0-d array')
        if isinstance(v, SStr):
            raise Unsupported('iteration over the characters of %r' % (v,))
        if isinstance(v, Term):
            if v.ty in ('str', 'bytes', 'list', 'dict', 'set', 'tuple',
                        'object', 'bytearray', 'range'):
                raise Unsupported('iteration over %r' % (v,))
        raise I.exc('TypeError', "'%s' object is not iterable"
                    % I.type_name(v))

    def value_len(self, I, v):
        if isinstance(v, NpS):
            if v.dtype.kind in 'US':
                return I.len_(v.src)
            raise I.exc('TypeError', 'object has no len()')
        if isinstance(v, Arr):
            if not v.shape:
                raise I.exc('TypeError', 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, Term):
            if 'len' in v.meta:
                return v.meta['len']
            if is_hash(v):
                return hash_len(v)
            if is_hpart(v):
                return v.args[2] - v.args[1]
            if v.ty in ('str', 'bytes', 'list', 'dict', 'tuple', 'set',
                        'bytearray', 'object', 'range', 'memoryview',
                        'frozenset', 'array.array'):
                return Term('len', (v,), 'int', truth=v.truth)
        if isinstance(v, SStr):
            return Term('len', (v,), 'int', truth=True if any(
                isinstance(p, str) for p in v.parts) else None)
        raise I.exc('TypeError', "object of type '%s' has no len()"
                    % I.type_name(v))

    def value_str(self, I, v):
        if isinstance(v, Term):
            if v.ty == 'str':
                return v
            return Term('str', (v,), 'str', truth=True)
        if isinstance(v, NpS):
            if v.dtype.kind == 'U':
                return v.src
            if v.dtype.name in ('float64', 'complex128') or \
                    v.dtype.kind in 'biu':
                # prints like the Python number of the same value
                return I.str_(v.src)
            return Term('str', (v,), 'str', truth=True)
        if isinstance(v, Num):
            return Term('str', (v,), 'str', truth=True)
        if isinstance(v, Arr):
            if v.dtype.kind == 'U' and v.shape == () and \
                    v.buf.content[0] == 'el':
                return v.buf.content[1][0]
            return Term('str', (('array', self.np_freeze(v)),), 'str',
                        truth=True)
        if isinstance(v, DType):
            return v.name
        if isinstance(v, Model) and hasattr(v, 'sa_str'):
            return v.sa_str(I)
        return I.repr_(v)

    def normal(self, I, v):
        if isinstance(v, NpS) and v.dtype.kind in 'U':
            return v.src
        return v

    # ------------------------------------------------------ constructors
    def construct(self, I, t, args, kw):
        n = t.name
        f = getattr(self, 'c_' + n.replace('.', '_'), None)
        if f is not None:
            return f(I, *args, **kw)
        if n.startswith('np.'):
            return self.np_construct(I, n, args, kw)
        raise Unsupported('constructor ' + n)

    def c_object(self, I, *a):
        o = Obj(I.object_cls)
        return o

    def c_type(self, I, *a):
        if len(a) == 1:
            return I.type_of(a[0])
        name, bases, ns = a
        cls = ClassVal(name, list(bases) or [BType('object')], dict(ns),
                       'dynamic')
        for v in cls.ns.values():
            for f in I._funcs_of(v):
                if f.defcls is None:
                    f.defcls = cls
        return cls

    def c_str(self, I, *a, **k):
        if not a:
            return k.get('object', '')
        v = a[0]
        if len(a) > 1 or 'encoding' in k:
            if I.type_name(v) != 'bytes':
                raise I.exc('TypeError', 'decoding to str: need a bytes-like '
                            'object')
            return I.call_method(v, 'decode', list(a[1:]), k)
        return I.str_(v)

    def c_bytes(self, I, *a, **k):
        if not a:
            return b''
        v = a[0]
        if isinstance(v, bytes) or (isinstance(v, Term) and v.ty == 'bytes'):
            return v
        if isinstance(v, (Arr, NpS)):
            return self.np_tobytes(I, v)
        if isinstance(v, (str, SStr)) or (isinstance(v, Term)
                                          and v.ty == 'str'):
            if len(a) < 2 and 'encoding' not in k:
                raise I.exc('TypeError', 'string argument without an '
                            'encoding')
            return I.call_method(v, 'encode', list(a[1:]), k)
        if is_host(v):
            return I.host(bytes, v)
        if isinstance(v, Term) and v.ty in ('bytearray', 'memoryview'):
            if v.op == 'conv':
                return v.args[0]
            return Term('tobytes', (v,), 'bytes')
        raise Unsupported('bytes() of ' + I.type_name(v))

    def c_bytearray(self, I, *a):
        if a and isinstance(a[0], Term) and a[0].ty == 'bytes':
            return Term('conv', (a[0],), 'bytearray', truth=a[0].truth)
        raise Unsupported('bytearray()')

    c_memoryview = c_bytearray

    def c_bool(self, I, v=False):
        if isinstance(v, Term) and v.ty == 'bool':
            return v
        if isinstance(v, NpS) and v.dtype.kind == 'b' and not isinstance(
                v.src, (int, bool)):
            return v.src
        if isinstance(v, Arr):
            return self.np_bool(I, v)
        return I.truth(v)

    def c_int(self, I, *a, base=None):
        if not a:
            return 0
        if base is not None:
            a = a[:1] + (base,)
        v = a[0]
        if isinstance(v, NpS):
            v = self.np_item(I, v)
        if isinstance(v, Arr):
            v = self.np_item(I, v)
        if is_host(v):
            return I.host(int, *a) if v is a[0] else I.host(int, v)
        if isinstance(v, Num):
            if v.ty in ('int', 'bool'):
                return v
            return Unk('int of number')
        if isinstance(v, Term):
            if v.ty in ('int',):
                return v
            if v.ty == 'float' and v.op == 'tofloat':
                return v.args[0]
            if v.ty == 'bool':
                return Term('toint', (v,), 'int', truth=v.truth)
            if v.ty == 'str' and v.op == 'str' and isinstance(
                    v.args[0], Term) and v.args[0].ty == 'int':
                return v.args[0]
            return Term('toint', (v,), 'int')
        if isinstance(v, Obj) and v.cls.lookup('__int__'):
            return I.call_method(v, '__int__', [])
        if isinstance(v, Unk):
            return Unk('int')
        raise I.exc('TypeError', 'int() argument must be a string, a '
                    'bytes-like object or a real number')

    def c_float(self, I, v=0.0):
        if isinstance(v, (NpS, Arr)):
            v = self.np_item(I, v)
        if is_host(v):
            return I.host(float, v)
        if isinstance(v, Num):
            return Num(v.label, v.rank, 'float')
        if isinstance(v, Term):
            if v.ty == 'float':
                return v
            return Term('tofloat', (v,), 'float', truth=v.truth)
        if isinstance(v, Unk):
            return Unk('float')
        raise I.exc('TypeError', 'float() argument')

    def c_complex(self, I, v=0, *a):
        if isinstance(v, (NpS, Arr)):
            v = self.np_item(I, v)
        if is_host(v) and not a:
            return I.host(complex, v)
        if isinstance(v, Term) and v.ty == 'complex':
            return v
        return Term('tocomplex', (v,) + a, 'complex')

    def c_list(self, I, it=()):
        return list(I.iter_(it))

    def c_tuple(self, I, it=()):
        return tuple(I.iter_(it))

    def c_set(self, I, it=()):
        return set(I.hk(x) for x in I.iter_(it))

    def c_frozenset(self, I, it=()):
        return frozenset(I.hk(x) for x in I.iter_(it))

    def c_dict(self, I, *a, **k):
        d = {}
        if a:
            I.dict_update(d, a[0])
        d.update(k)
        return d

    c_collections_OrderedDict = c_dict

    def c_collections_defaultdict(self, I, factory=None, *a, **k):
        d = DefaultDict()
        d.default_factory = factory
        if a:
            I.dict_update(d, a[0])
        d.update(k)
        return d

    def c_slice(self, I, *a):
        a = list(a)
        if len(a) == 1:
            a = [None] + a
        return SliceVal(*(a + [None] * (3 - len(a))))

    def c_range(self, I, *a):
        a = [I.index(x) for x in a]
        a = [x for x in a]
        if all(isinstance(x, int) for x in a):
            return I.host(range, *a)
        if any(isinstance(x, (Num, Unk)) or (
                isinstance(x, Term) and x.ty == 'int') for x in a):
            raise Unsupported('range of unknown length')
        raise I.exc('TypeError', 'object cannot be interpreted as an integer')

    def c_property(self, I, fget=None, fset=None, fdel=None, doc=None):
        return Prop(fget, fset, fdel)

    def c_classmethod(self, I, f):
        return ClassMeth(f)

    def c_staticmethod(self, I, f):
        return StaticMeth(f)

    def c_super(self, I, cls, obj):
        return SuperVal(cls, obj)

    def c_enumerate(self, I, it, start=0):
        def gen():
            i = start
            for x in I.iter_(it):
                yield (i, x)
                i += 1
        return IterVal(gen())

    def c_zip(self, I, *its, strict=False):
        if not its:
            return IterVal([])
        if strict:
            ls = [list(I.iter_(x)) for x in its]
            if len({len(x) for x in ls}) > 1:
                def bad():
                    for t in zip(*ls):
                        yield t
                    raise I.exc('ValueError', 'zip() arguments have '
                                'different lengths')
                return IterVal(bad())
            return IterVal(zip(*ls))
        return IterVal(zip(*[I.iter_(x) for x in its]))

    def c_map(self, I, f, *its):
        def gen():
            for xs in zip(*[I.iter_(x) for x in its]):
                yield I.call(f, list(xs))
        return IterVal(gen())

    def c_filter(self, I, f, it):
        def gen():
            for x in I.iter_(it):
                if I.truth(x if f is None else I.call(f, [x])):
                    yield x
        return IterVal(gen())

    def c_reversed(self, I, v):
        if isinstance(v, Obj) and v.cls.lookup('__reversed__'):
            return I.call_method(v, '__reversed__', [])
        if isinstance(v, Obj) and v.cls.lookup('__len__') and v.payload \
                is None:
            n = I.len_(v)
            return IterVal([I.getitem(v, i) for i in range(n - 1, -1, -1)])
        return IterVal(reversed(list(I.iter_(v))))

    # --------------------------------------------------------- builtins
    def install_core(self, I):
        B = I.builtins
        B['NotImplemented'] = Native('NotImplemented', None)
        B['Ellipsis'] = Ellipsis
        B['__debug__'] = True
        for n in ('object', 'type', 'str', 'bytes', 'bytearray', 'memoryview',
                  'bool', 'int', 'float', 'complex', 'list', 'tuple', 'set',
                  'frozenset', 'dict', 'slice', 'range', 'property',
                  'classmethod', 'staticmethod', 'super', 'enumerate', 'zip',
                  'map', 'filter', 'reversed'):
            B[n] = BType(n)
        # exceptions
        for n, c in sorted(vars(_hb).items()):
            if isinstance(c, type) and issubclass(c, BaseException):
                self._exc_class(I, c)
        for n, c in I.exc_classes.items():
            B[n] = c
        B['EnvironmentError'] = B['IOError'] = I.exc_classes['OSError']
        I.object_cls = ClassVal('object', [BType('object')], {}, 'builtins')

        def reg(name, fn):
            B[name] = Native(name, fn)

        reg('len', lambda I, v: I.len_(v))
        reg('isinstance', lambda I, v, c: I.isinstance_(v, c))
        reg('issubclass', lambda I, c, d: I.issubclass_(c, d))
        reg('repr', lambda I, v: I.repr_(v))
        reg('ascii', lambda I, v: I.repr_(v))
        reg('format', lambda I, v, s='': I.format_(v, s))
        def iter_(I, v, *sentinel):
            if not sentinel:
                return v if isinstance(v, IterVal) else IterVal(I.iter_(v))

            def calls():
                while True:
                    x = I.call(v, [])
                    if I.truth(I.eq(x, sentinel[0])):
                        return
                    yield x
            return IterVal(calls())
        reg('iter', iter_)
        reg('next', lambda I, it, *d: I.next_(it, *d))
        reg('hasattr', lambda I, o, n: I.hasattr_(o, n))
        reg('id', lambda I, o: Term('id', (id(o),), 'int', truth=True))
        reg('setattr', lambda I, o, n, v: I.setattr_(o, n, v))
        reg('delattr', lambda I, o, n: I.delattr_(o, n))
        reg('sorted', lambda I, it, key=None, reverse=False:
            self.sorted_(I, it, key, reverse))
        reg('abs', lambda I, v: abs(v) if is_host(v) else (
            Num('|%s|' % v.label, abs(v.rank), v.ty)
            if isinstance(v, Num) else self.np_unary(I, 'abs', v)))
        reg('divmod', lambda I, a, b: I.host(divmod, a, b))
        reg('pow', lambda I, *a: I.host(pow, *a))
        reg('round', lambda I, *a: I.host(round, *a) if is_host(a)
            else Unk('round'))
        reg('hash', lambda I, v: Term('pyhash', (I.freeze(I.hk(v)),), 'int'))
        reg('ord', lambda I, v: I.host(ord, v) if is_host(v) else Unk('ord'))
        reg('chr', lambda I, v: I.host(chr, v) if is_host(v) else Unk('chr'))
        reg('hex', lambda I, v: I.host(hex, v))
        reg('bin', lambda I, v: I.host(bin, v))
        reg('vars', lambda I, o: I.getattr_(o, '__dict__'))
        reg('callable', lambda I, o: isinstance(o, (
            FuncVal, Bound, Native, ClassVal, BType, PartialVal)) or (
                isinstance(o, Obj) and o.cls.lookup('__call__') is not None))
        reg('print', lambda I, *a, **k: self.print_(I, *a, **k))
        reg('breakpoint', lambda I, *a, **k: None)

        def getattr_(I, o, n, *d):
            if d:
                try:
                    return I.getattr_(o, n)
                except Raised as r:
                    if I.exc_is(r, 'AttributeError'):
                        return d[0]
                    raise
            return I.getattr_(o, n)
        reg('getattr', getattr_)

        def any_(I, it):
            for x in I.iter_(it):
                if I.truth(x):
                    return True
            return False

        def all_(I, it):
            for x in I.iter_(it):
                if not I.truth(x):
                    return False
            return True
        reg('any', any_)
        reg('all', all_)

        def sum_(I, it, start=0):
            import ast
            r = start
            for x in I.iter_(it):
                r = I.binop(ast.Add(), r, x)
            return r
        reg('sum', sum_)

        def minmax(op):
            def f(I, *a, key=None, **k):
                items = list(I.iter_(a[0])) if len(a) == 1 else list(a)
                if not items:
                    if 'default' in k:
                        return k['default']
                    raise I.exc('ValueError', 'arg is an empty sequence')
                kf = (lambda x: x) if key is None else (
                    lambda x: I.call(key, [x]))
                best = items[0]
                bk = kf(best)
                for x in items[1:]:
                    xk = kf(x)
                    if I.truth(I.compare(op, xk, bk)):
                        best, bk = x, xk
                return best
            return f
        reg('min', minmax('<'))
        reg('max', minmax('>'))

        def dir_(I, o):
            r = I.call_method(o, '__dir__', []) if isinstance(o, Obj) \
                else None
            if r is None:
                if isinstance(o, ModuleVal):
                    return sorted(o.ns)
                raise Unsupported('dir of ' + I.type_name(o))
            return self.sorted_(I, r)
        reg('dir', dir_)

        def import_(I, name, g=None, l=None, fromlist=(), level=0):
            if level:
                raise Unsupported('relative __import__')
            m = I.import_module(name)
            if not fromlist:
                return I.import_module(name.split('.')[0])
            return m
        reg('__import__', import_)
        reg('open', lambda I, *a, **k: self.open_(I, *a, **k))

    def print_(self, I, *a, **k):
        for x in a:
            I.str_(x)
        return None

    def _exc_class(self, I, c):
        n = c.__name__
        if n in I.exc_classes:
            return I.exc_classes[n]
        bases = [self._exc_class(I, b) for b in c.__bases__
                 if b is not object] or [BType('object')]
        ns = {'__module__': 'builtins', '__qualname__': n}
        cls = ClassVal(n, bases, ns, 'builtins')
        I.exc_classes[n] = cls
        if n == 'BaseException':
            def init(I, o, *a, **k):
                if k:
                    raise I.exc('TypeError', '%s() takes no keyword arguments'
                                % o.cls.name)
                o.attrs['args'] = tuple(a)
            m = Native('__init__', init)
            m.method = True
            ns['__init__'] = m

            def str_(I, o):
                a = o.attrs.get('args', ())
                if not a:
                    return ''
                if len(a) == 1:
                    if I.issubclass_(o.cls, I.exc_classes['KeyError']):
                        return I.repr_(a[0])
                    return I.str_(a[0])
                return I.repr_(a)
            m = Native('__str__', str_)
            m.method = True
            ns['__str__'] = m

            def repr_(I, o):
                a = o.attrs.get('args', ())
                if len(a) == 1:
                    return sstr([o.cls.name, '(', I.repr_(a[0]), ')'])
                return sstr([o.cls.name, I.repr_(a)])
            m = Native('__repr__', repr_)
            m.method = True
            ns['__repr__'] = m

            def wt(I, o, tb):
                return o
            m = Native('with_traceback', wt)
            m.method = True
            ns['with_traceback'] = m

            def note(I, o, s):
                return None
            m = Native('add_note', note)
            m.method = True
            ns['add_note'] = m
            ns['__cause__'] = None
            ns['__context__'] = None
            ns['__suppress_context__'] = False
            ns['args'] = ()
        if n == 'OSError':
            def init(I, o, *a, **k):
                o.attrs['args'] = tuple(a[:2]) if 2 <= len(a) <= 5 else \
                    tuple(a)
                names = ('errno', 'strerror', 'filename')
                if len(a) >= 2:
                    for i, x in enumerate(names):
                        o.attrs[x] = a[i] if i < len(a) else None
            m = Native('__init__', init)
            m.method = True
            ns['__init__'] = m
            ns['errno'] = ns['strerror'] = ns['filename'] = None
        if n == 'StopIteration':
            ns['value'] = None
        return cls
