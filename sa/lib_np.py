"""Transfer functions for NumPy."""
import ast
import operator as _op
import struct

from .values import *
from .interp import is_host, _HOST

_D = {}


def _def(name, kind, size, *aliases):
    d = DType(name, kind, size)
    for n in (name,) + aliases:
        _D[n] = d
    return d


BOOL = _def('bool', 'b', 1, '?', 'b1', 'bool_')
_def('int8', 'i', 1, 'b', 'i1', 'byte')
_def('int16', 'i', 2, 'h', 'i2', 'short')
_def('int32', 'i', 4, 'i', 'i4', 'intc')
INT64 = _def('int64', 'i', 8, 'l', 'q', 'i8', 'int', 'int_', 'intp', 'long',
             'longlong', 'p')
UINT8 = _def('uint8', 'u', 1, 'B', 'u1', 'ubyte')
_def('uint16', 'u', 2, 'H', 'u2', 'ushort')
_def('uint32', 'u', 4, 'I', 'u4', 'uintc')
_def('uint64', 'u', 8, 'L', 'Q', 'u8', 'uint', 'uintp', 'ulong', 'ulonglong',
     'P')
FLOAT16 = _def('float16', 'f', 2, 'e', 'f2', 'half')
_def('float32', 'f', 4, 'f', 'f4', 'single')
FLOAT64 = _def('float64', 'f', 8, 'd', 'f8', 'float', 'double', 'float_')
_def('complex64', 'c', 8, 'F', 'c8', 'csingle')
COMPLEX = _def('complex128', 'c', 16, 'D', 'c16', 'complex', 'cdouble',
               'complex_')
OBJ = _def('object', 'O', 8, 'O', 'object_')

MANT = {2: 11, 4: 24, 8: 53}
NUM_DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
              'uint64', 'float16', 'float32', 'float64', 'complex64',
              'complex128']
ARR_DTYPES = ['bool'] + NUM_DTYPES


ELEM_TY = {'b': 'bool', 'i': 'int', 'u': 'int', 'f': 'float', 'c': 'complex'}


def dt(name):
    return _D[name]


def str_dtype(kind, n=None):
    return DType({'U': 'str', 'S': 'bytes', 'V': 'void'}[kind], kind,
                 n if n is not None else '?')


def cut(s, d):
    """The text s as an item of dtype d."""
    if not isinstance(d.itemsize, int):
        return s
    if isinstance(s, str):
        return s[:d.itemsize]
    return Term('cut', (s, d.itemsize), 'str', truth=True)


def native(d):
    return DType(d.name, d.kind, d.itemsize, '=', d.sub)


def lossless(a, b):
    """Every value of dtype a is representable in dtype b (and keeps its
    type when converted back)."""
    if a.kind == b.kind and a.itemsize == b.itemsize:
        return True
    if a.kind == 'b':
        return b.kind in 'biufc'
    if a.kind in 'iu' and b.kind in 'iu':
        if a.kind == b.kind:
            return b.itemsize >= a.itemsize
        return a.kind == 'u' and b.itemsize > a.itemsize
    if a.kind in 'iu' and b.kind in 'fc':
        bits = a.itemsize * 8 - (a.kind == 'i')
        sz = b.itemsize if b.kind == 'f' else b.itemsize // 2
        return bits <= MANT[sz]
    if a.kind == 'f' and b.kind in 'fc':
        return b.itemsize // (2 if b.kind == 'c' else 1) >= a.itemsize
    if a.kind == 'c' and b.kind == 'c':
        return b.itemsize >= a.itemsize
    if a.kind in 'USV' and b.kind == a.kind:
        return True
    return b.kind == 'O'


def prod(shape):
    n = 1
    unknown = []
    for s in shape:
        if isinstance(s, int):
            n *= s
        else:
            unknown.append(s)
    if n == 0 or not unknown:
        return n
    if n == 1 and len(unknown) == 1:
        return unknown[0]
    return Term('prod', tuple(shape), 'int')


def frz(v):
    if isinstance(v, Arr):
        return ('array', content_frz(v), v.dtype, v.shape)
    if isinstance(v, dict):
        return ('dict',) + tuple((k, frz(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(frz(x) for x in v)
    if isinstance(v, (Obj, Model)):
        return ('obj', id(v))
    return v


def content_frz(arr):
    c = arr.buf.content
    if c[0] == 'el':
        return ('el',) + tuple(frz(x) for x in c[1])
    return c


def norm_cast(content, a, b):
    """Content after a cast from dtype a to dtype b."""
    if a.kind == b.kind and a.itemsize == b.itemsize:
        return content
    if content[0] == 'cast':
        _, c0, s0, s1 = content
        if s0 == native(b) and lossless(s0, a):
            return c0
    return ('cast', content, native(a), native(b))


class StructRec(Model):
    """A record of a structured array (MATLAB struct)."""
    tname = 'np.void'

    def __init__(self, fields):
        self.fields = fields

    def sa_getitem(self, I, k):
        if isinstance(k, int):
            return list(self.fields.values())[k]
        if k not in self.fields:
            raise I.exc('ValueError', 'no field of name %s' % (k,))
        return self.fields[k]

    def sa_getattr(self, I, name):
        if name == 'dtype':
            return struct_dtype(self.fields)
        if name == 'item':
            return Native('item', lambda I, *a: tuple(self.fields.values()))
        if name == 'shape':
            return ()
        if name == 'tolist':
            return Native('item', lambda I, *a: tuple(self.fields.values()))
        raise I.no_attr(self, name)

    def sa_len(self, I):
        return len(self.fields)

    def sa_iter(self, I):
        return iter(list(self.fields.values()))


def struct_dtype(fields):
    return DType('void', 'V', 8 * len(fields), '=',
                 ('fields',) + tuple(fields))


class Flags(Model):
    """ndarray.flags"""
    tname = 'numpy.flagsobj'

    def __init__(self, arr):
        self.arr = arr

    def sa_getattr(self, I, name):
        if name == 'writeable':
            return not self.arr.readonly
        if name == 'owndata':
            return self.arr.owner
        if name in ('c_contiguous', 'contiguous', 'aligned'):
            return True
        raise Unsupported('flags.' + name)

    def sa_setattr(self, I, name, v):
        if name != 'writeable':
            raise Unsupported('setting flags.' + name)
        self.arr.readonly = not I.truth(v)

    def sa_getitem(self, I, k):
        return self.sa_getattr(I, k.lower())

    def sa_setitem(self, I, k, v):
        self.sa_setattr(I, k.lower(), v)


class NumpyMixin:

    # ----------------------------------------------------------- dtypes
    def parse_dtype(self, I, x):
        if isinstance(x, DType):
            return x
        if isinstance(x, NpS) and x.dtype.kind == 'U':
            x = x.src
        if x is None:
            return FLOAT64
        if isinstance(x, str):
            s, order = x, '='
            if s[:1] in '<>=|' and s:
                order = '>' if s[0] == '>' else '='
                s = s[1:]
            if s in _D:
                d = _D[s]
                if order == '>' and d.itemsize > 1 and d.kind != 'O':
                    return DType(d.name, d.kind, d.itemsize, '>')
                return d
            if s in ('U', 'str', 'S', 'bytes', 'a', 'V', 'void'):
                return str_dtype({'str': 'U', 'bytes': 'S', 'a': 'S',
                                  'void': 'V'}.get(s, s))
            if s[:1] in 'USVa' and s[1:].isdigit():
                return str_dtype('S' if s[0] == 'a' else s[0], int(s[1:]))
            raise I.exc('TypeError', "data type '%s' not understood" % x)
        if isinstance(x, BType):
            n = x.name
            m = {'bool': 'bool', 'int': 'int64', 'float': 'float64',
                 'complex': 'complex128', 'object': 'object',
                 'np.bool': 'bool', 'np.object_': 'object'}
            if n in m:
                return _D[m[n]]
            if n in ('str', 'np.str_'):
                return str_dtype('U')
            if n in ('bytes', 'np.bytes_'):
                return str_dtype('S')
            if n == 'np.void':
                return str_dtype('V')
            if n.startswith('np.') and n[3:] in _D:
                return _D[n[3:]]
            raise I.exc('TypeError', 'Cannot interpret %s as a data type' % n)
        if isinstance(x, Unk) or (isinstance(x, Term)
                                  and x.ty in ('str', 'object')) \
                or isinstance(x, SStr):
            raise Unsupported('dtype of unknown name')
        raise I.exc('TypeError', 'Cannot interpret %s as a data type'
                    % I.type_name(x))

    def c_np_dtype(self, I, x, *a, **k):
        return self.parse_dtype(I, x)

    def np_scalar_type(self, d):
        return {'object': 'np.object_', 'str': 'np.str_', 'bytes':
                'np.bytes_', 'void': 'np.void'}.get(d.name, 'np.' + d.name)

    def dtype_attr(self, I, d, name):
        if name == 'name':
            return d.name
        if name == 'str':
            return d.str()
        if name == 'kind':
            return d.kind
        if name == 'itemsize':
            return d.itemsize if isinstance(d.itemsize, int) else Unk('size')
        if name == 'type':
            return BType(self.np_scalar_type(d))
        if name == 'names':
            return d.sub[1:] if d.sub and d.sub[0] == 'fields' else None
        if name == 'fields':
            return {n: (OBJ, 0) for n in d.sub[1:]} if d.sub and \
                d.sub[0] == 'fields' else None
        if name == 'byteorder':
            return '>' if d.order == '>' else (
                '|' if d.itemsize == 1 or d.kind in 'OSV' else '=')
        if name == 'isnative':
            return d.order != '>'
        if name == 'char':
            for k in '?bhilqBHILQefdFDO':
                if _D[k] == native(d):
                    return k
            return d.kind
        if name == 'newbyteorder':
            def nbo(I, o='S'):
                o = {'native': '=', 'big': '>', 'little': '=', '<': '=',
                     'B': '>', 'L': '=', 'N': '='}.get(o, o)
                if o == 'S':
                    o = '=' if d.order == '>' else '>'
                if d.itemsize == 1:
                    o = '='
                return DType(d.name, d.kind, d.itemsize, o, d.sub)
            return Native(name, nbo)
        if name in ('shape',):
            return ()
        if name == 'base':
            return d
        if name == 'subdtype':
            return None
        if name == 'hasobject':
            return d.kind == 'O'
        if name in ('descr', 'alignment', 'num', 'metadata', 'flags', 'ndim'):
            raise Unsupported('dtype.' + name)
        if name.startswith('__'):
            return self.dunder(I, d, name)
        raise I.no_attr(d, name)

    # ---------------------------------------------------------- scalars
    def np_construct(self, I, n, args, kw):
        if n == 'np.ndarray':
            raise Unsupported('np.ndarray()')
        if n == 'np.dtype':
            return self.parse_dtype(I, *args)
        if n in ('np.generic', 'np.number', 'np.integer', 'np.floating',
                 'np.inexact', 'np.signedinteger', 'np.unsignedinteger',
                 'np.complexfloating', 'np.flexible', 'np.character'):
            raise I.exc('TypeError', 'cannot create instances')
        d = self.parse_dtype(I, BType(n))
        if not args:
            return NpS(d, {'b': False, 'i': 0, 'u': 0, 'f': 0.0, 'c': 0j,
                           'U': '', 'S': b''}.get(d.kind, 0))
        return self.to_scalar(I, args[0], d)

    def to_scalar(self, I, x, d):
        """dtype.type(x)"""
        if isinstance(x, Arr):
            if x.shape == ():
                return self.to_scalar(I, self.np_getitem(I, x, ()), d)
            return self.astype(I, x, d)
        if isinstance(x, (list, tuple)):
            return self.astype(I, self.np_array(I, x), d)
        if isinstance(x, Model) and hasattr(x, 'sa_array'):
            return self.to_scalar(I, x.sa_array(I), d)
        if d.kind == 'O':
            return x
        if d.kind == 'V':
            if isinstance(x, (bytes,)) or (isinstance(x, Term)
                                           and x.ty == 'bytes'):
                return NpS(str_dtype('V', self._blen(x)), x)
            raise Unsupported('np.void of ' + I.type_name(x))
        if d.kind == 'U':
            s = I.str_(x)
            return NpS(str_dtype('U', len(s) if isinstance(s, str) else '?'),
                       s)
        if d.kind == 'S':
            if isinstance(x, bytes):
                return NpS(str_dtype('S'), x.rstrip(b'\0'))
            if isinstance(x, Term) and x.ty == 'bytes':
                return NpS(str_dtype('S'), Term('strip0', (x,), 'bytes'))
            raise Unsupported('np.bytes_ of ' + I.type_name(x))
        return NpS(native(d), self.conv(I, x, d))

    def _blen(self, x):
        return len(x) if isinstance(x, bytes) else Term(
            'len', (x,), 'int', truth=getattr(x, 'truth', None))

    def conv(self, I, x, d):
        """Number x converted to dtype d (source form)."""
        if isinstance(x, NpS):
            if x.dtype.kind in 'biufc':
                return self._conv_np(I, x, d)
            x = x.src
        if isinstance(x, Unk):
            return x
        if isinstance(x, Num):
            return x
        if isinstance(x, bool) or (isinstance(x, Term) and x.ty == 'bool'):
            if d.kind == 'b':
                return x
            if isinstance(x, bool):
                return {'i': int, 'u': int, 'f': float,
                        'c': complex}[d.kind](x)
            return Term('toint', (x,), 'int', truth=x.truth)
        if d.kind == 'b':
            if x is None:
                return False
            t = I.truth(x) if not isinstance(x, Term) else None
            if t is not None:
                return t
            if x.op == 'toint' and isinstance(x.args[0], Term) and \
                    x.args[0].ty == 'bool':
                return x.args[0]
            return Term('truthof', (x,), 'bool', truth=x.truth)
        if isinstance(x, (int, float, complex)):
            if d.kind in 'iu':
                if isinstance(x, complex):
                    raise I.exc('TypeError', 'int() argument')
                if isinstance(x, float):
                    x = I.host(int, x)
                lo = -(1 << (8 * d.itemsize - 1)) if d.kind == 'i' else 0
                hi = (1 << (8 * d.itemsize - (d.kind == 'i'))) - 1
                if not lo <= x <= hi:
                    raise I.exc('OverflowError', 'Python integer out of '
                                'bounds')
                return x
            if d.kind == 'f':
                if isinstance(x, complex):
                    raise I.exc('TypeError', 'float() argument')
                return I.host(float, x)
            return complex(x)
        if isinstance(x, Term):
            if x.ty == 'int':
                rng = x.meta.get('range')
                if rng and d.kind in 'iu':
                    lo = -(1 << (8 * d.itemsize - 1)) if d.kind == 'i' else 0
                    hi = (1 << (8 * d.itemsize - (d.kind == 'i'))) - 1
                    if not (lo <= rng[0] and rng[1] <= hi):
                        raise I.exc('OverflowError', 'Python integer out of '
                                    'bounds for ' + d.name)
                if d.kind in 'iu':
                    return x
                bits = MANT[d.itemsize // (2 if d.kind == 'c' else 1)]
                if rng and max(abs(rng[0]), abs(rng[1])) > (1 << bits):
                    return Term('lossy', (x, d.name), 'float')
                return x if d.kind == 'f' else x
            if x.ty in ('float', 'complex'):
                if x.op == 'item':
                    return self._conv_np(I, x.args[0], d)
                if d.kind in 'iu':
                    return Term('trunc', (x, d.name), 'int')
                if d.kind == 'f' and x.ty == 'complex':
                    raise I.exc('TypeError', 'float() argument')
                return x
            if x.ty in ('str', 'bytes'):
                if x.op == 'str' and isinstance(x.args[0], NpS):
                    return self._conv_np(I, x.args[0], d)
                raise I.exc('ValueError', 'could not convert string')
            if x.ty == 'object':
                raise Unsupported('conversion of an unknown value')
            if x.ty in ('fractions.Fraction', 'decimal.Decimal'):
                return Term('cast', (x, d.name), 'float')
        if x is None and d.kind in 'fc':
            return float('nan')
        if isinstance(x, str):
            if d.kind in 'iu':
                return I.host(int, x)
            return I.host(float if d.kind == 'f' else complex, x)
        if isinstance(x, Obj) and x.cls.lookup('__float__'):
            return I.call_method(x, '__float__', [])
        raise I.exc('TypeError', 'cannot convert %s to %s'
                    % (I.type_name(x), d.name))

    def _conv_np(self, I, x, d):
        a = x.dtype
        if native(a) == native(d):
            return x.src
        if isinstance(x.src, (int, float, complex, bool)):
            return self.conv(I, x.src, d)
        if isinstance(x.src, Num):
            return x.src
        s = x.src
        if isinstance(s, Term) and s.op == 'npcast':
            inner = s.args[0]
            if native(inner.dtype) == native(d) and lossless(inner.dtype, a):
                return inner.src
        ty = {'b': 'bool', 'i': 'int', 'u': 'int', 'f': 'float',
              'c': 'complex'}[d.kind]
        return Term('npcast', (x, d.name), ty,
                    truth=s.truth if isinstance(s, Term) else None)

    def np_item(self, I, v):
        """Python scalar of a NumPy scalar or one-element array."""
        if isinstance(v, Arr):
            n = prod(v.shape)
            if isinstance(n, int) and n != 1:
                raise I.exc('ValueError', 'can only convert an array of size '
                            '1 to a Python scalar')
            if v.buf.content[0] == 'el':
                e = v.buf.content[1][0]
                if v.dtype.kind == 'O':
                    return e
                v = NpS(v.dtype, e)
            else:
                v = NpS(v.dtype, Term('elem', (content_frz(v), 0),
                                      ELEM_TY.get(v.dtype.kind, 'object')))
        s = v.src
        if v.dtype.kind in 'USV':
            return s
        if isinstance(s, (bool, int, float, complex, Num)):
            if isinstance(s, Num):
                return Num(s.label, s.rank, {'f': 'float', 'b': 'bool'}.get(
                    v.dtype.kind, 'int'))
            return s
        if v.dtype.kind in 'iu':
            if isinstance(s, Term) and s.ty == 'int':
                return s
            return Term('item', (v,), 'int')
        if v.dtype.kind == 'b':
            return s
        if v.dtype == FLOAT64 and isinstance(s, Term) and s.ty == 'float':
            return s
        return Term('item', (v,), {'f': 'float', 'c': 'complex'}[
            v.dtype.kind], truth=getattr(s, 'truth', None))

    def nps_attr(self, I, v, name):
        if name == 'dtype':
            return v.dtype
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name in ('item', 'tolist'):
            return Native(name, lambda I, *a: self.np_item(I, v))
        if name in ('tobytes',):
            return Native(name, lambda I, *a: self.np_tobytes(I, v))
        if name == 'astype':
            return Native(name, lambda I, d, **k: self.to_scalar(
                I, v, self.parse_dtype(I, d)))
        if name in ('copy', '__copy__', '__deepcopy__'):
            return Native(name, lambda I, *a: v)
        if name in ('ravel', 'flatten', 'reshape', 'squeeze', 'all', 'any',
                    'max', 'min', 'view', 'itemsize', 'nbytes'):
            return self.arr_attr(I, self.np_array(I, v), name)
        if name == 'real' and v.dtype.kind != 'c':
            return v
        if v.dtype.kind == 'U':
            if name == '__class__':
                return BType('np.str_')
            return self.str_method(I, v.src, name)
        if v.dtype.kind == 'S':
            return self.bytes_method(I, v.src, name)
        if name.startswith('__'):
            return self.dunder(I, v, name)
        if name in ('real', 'imag', 'conj', 'conjugate', 'round', 'T', 'flat',
                    'data', 'base', 'sum', 'mean', 'is_integer',
                    'newbyteorder', 'byteswap'):
            raise Unsupported('numpy scalar attribute ' + name)
        raise I.no_attr(v, name)

    # ----------------------------------------------------------- arrays
    def _infer(self, I, x):
        """(flat elements, shape, dtype) of a nested sequence."""
        if isinstance(x, Model) and hasattr(x, 'sa_array'):
            x = x.sa_array(I)
        if isinstance(x, Arr):
            c = x.buf.content
            if c[0] != 'el':
                raise Unsupported('array of arrays')
            return list(c[1]), x.shape, x.dtype
        if isinstance(x, (list, tuple, range, DictView, IterVal)) and \
                not isinstance(x, IterVal):
            subs = [self._infer(I, y) for y in I.iter_(x)]
            if not subs:
                return [], (0,), FLOAT64
            shp = subs[0][1]
            if any(s[1] != shp for s in subs):
                raise I.exc('ValueError', 'setting an array element with a '
                            'sequence. The requested array has an '
                            'inhomogeneous shape')
            flat = [e for s in subs for e in s[0]]
            d = self._common(I, [s[2] for s in subs])
            return flat, (len(subs),) + shp, d
        if isinstance(x, NpS):
            return [x.src], (), x.dtype
        if isinstance(x, bool):
            return [x], (), BOOL
        if isinstance(x, int):
            return [x], (), INT64
        if isinstance(x, float):
            return [x], (), FLOAT64
        if isinstance(x, complex):
            return [x], (), COMPLEX
        if isinstance(x, Num):
            return [x], (), FLOAT64 if x.ty == 'float' else INT64
        if isinstance(x, (str, SStr)):
            return [x], (), str_dtype('U', len(x) if isinstance(x, str)
                                      else '?')
        if isinstance(x, bytes):
            return [x.rstrip(b'\0')], (), str_dtype('S', len(x))
        if isinstance(x, Term):
            m = {'bool': BOOL, 'int': INT64, 'float': FLOAT64,
                 'complex': COMPLEX, 'str': str_dtype('U')}
            if x.ty in m:
                return [x], (), m[x.ty]
            if x.ty == 'bytes':
                return [Term('strip0', (x,), 'bytes')], (), str_dtype('S')
            if x.ty == 'object':
                raise Unsupported('array of unknown value')
        if isinstance(x, Unk):
            raise Unsupported('array of unknown value')
        return [x], (), OBJ

    def _common(self, I, ds):
        kinds = {d.kind for d in ds}
        if len(set(ds)) == 1:
            return ds[0]
        if 'O' in kinds:
            return OBJ
        if kinds <= {'U'}:
            return str_dtype('U')
        if kinds <= {'S'}:
            return str_dtype('S')
        if 'U' in kinds:
            return str_dtype('U')
        if kinds <= set('biufc'):
            for k in 'cfiub':
                if k in kinds:
                    c = [d for d in ds if d.kind == k]
                    best = max(c, key=lambda d: d.itemsize)
                    if k == 'i' or k == 'u':
                        if kinds <= {'i', 'b'} or kinds <= {'u', 'b'}:
                            return best
                        return INT64
                    if k == 'f' and kinds - {'f'}:
                        return FLOAT64
                    return best
        return OBJ

    def np_array(self, I, x, dtype=None, copy=True, **kw):
        d = None if dtype is None else self.parse_dtype(I, dtype)
        if isinstance(x, Model) and hasattr(x, 'sa_array'):
            x = x.sa_array(I)
            if isinstance(x, NpS) or isinstance(x, Arr):
                pass
        if isinstance(x, Arr):
            if d is not None and d != x.dtype:
                return self.astype(I, x, d)
            if not copy:
                return x
            return Arr(Buf(x.buf.content), x.dtype, x.shape, x.meta)
        if d is not None and d.kind == 'O':
            if isinstance(x, (list, tuple)):
                if any(isinstance(e, (list, tuple, Arr)) for e in x):
                    raise Unsupported('nested object array')
                return Arr(Buf(('el', tuple(x))), OBJ, (len(x),))
            return Arr(Buf(('el', (x,))), OBJ, ())
        flat, shape, d0 = self._infer(I, x)
        if d is None:
            d = d0
            if d.kind in 'biufc':
                flat = [self.conv(I, NpS(d0, e) if isinstance(x, NpS)
                                  else e, d) for e in flat]
        else:
            if d.kind in 'biufc':
                if d0.kind == 'O' and any(e is None for e in flat) and \
                        d.kind in 'iu':
                    raise I.exc('TypeError', 'int() argument must be a '
                                'string or a number')
                flat = [self.conv(I, NpS(d0, e) if isinstance(x, NpS)
                                  else e, d) for e in flat]
            elif d.kind == 'U':
                flat = [cut(I.str_(e), d) for e in flat]
            elif d.kind == 'S' and d0.kind != 'S':
                if d0.kind == 'U':
                    flat = [Term('asciibytes', (e,), 'bytes') for e in flat]
                elif flat:
                    raise Unsupported('array of bytes')
            elif d.kind == 'V':
                raise Unsupported('void array')
        return Arr(Buf(('el', tuple(flat))), d, shape)

    def astype(self, I, arr, d, view_ok=False):
        if isinstance(arr, NpS):
            return self.to_scalar(I, arr, d)
        c = arr.buf.content
        if c[0] == 'el' and d.kind in 'biufc' and arr.dtype.kind in 'biufc':
            c = ('el', tuple(self.conv(I, NpS(arr.dtype, e), d)
                             for e in c[1]))
        elif c[0] == 'el' and d.kind == 'U':
            c = ('el', tuple(cut(I.str_(e), d) for e in c[1]))
        elif c[0] == 'el' and d.kind == 'O':
            c = ('el', tuple(self.np_item(I, NpS(arr.dtype, e))
                             if arr.dtype.kind != 'O' else e for e in c[1]))
        elif c[0] == 'el' and arr.dtype.kind in 'OUS':
            if arr.dtype.kind == d.kind:
                pass
            else:
                c = ('el', tuple(self.conv(I, e, d) for e in c[1]))
        else:
            c = norm_cast(c, arr.dtype, d)
        return Arr(Buf(c), d, arr.shape, arr.meta)

    def np_tobytes(self, I, v):
        if isinstance(v, NpS):
            if v.dtype.kind in 'V':
                return v.src
            if v.dtype.kind == 'S':
                return Term('padded', (v.src, v.dtype), 'bytes')
            return Term('tobytes', (v,), 'bytes')
        c = v.buf.content
        if c[0] == 'raw' and v.dtype.itemsize == 1 and \
                v.dtype.kind in 'uSV':
            return c[1]
        if c[0] == 'el':
            if prod(v.shape) == 0:
                return b''
            if v.dtype.kind == 'V' and v.shape == ():
                return c[1][0]
            if v.dtype.kind == 'S' and v.shape == ():
                return Term('padded', (c[1][0], v.dtype), 'bytes') \
                    if not isinstance(c[1][0], bytes) else c[1][0]
        return Term('tobytes', (self.np_freeze(v),), 'bytes')

    def np_freeze(self, v):
        return (content_frz(v), v.dtype, v.shape)

    def _view(self, arr, shape):
        a = Arr(arr.buf, arr.dtype, shape, arr.meta, owner=False)
        a.readonly = arr.readonly
        return a

    def reshape(self, I, arr, shape, order='C'):
        if isinstance(arr, NpS):
            arr = self.np_array(I, arr)
        shape = tuple(I.index(s) for s in shape)
        if shape == arr.shape:
            return self._view(arr, shape)
        total = prod(arr.shape)
        if -1 in shape:
            rest = prod([s for s in shape if s != -1])
            if isinstance(total, int) and isinstance(rest, int):
                if rest == 0 or total % rest:
                    raise I.exc('ValueError', 'cannot reshape array')
                m = total // rest
            elif rest == 1:
                m = total
            else:
                raise Unsupported('reshape')
            shape = tuple(m if s == -1 else s for s in shape)
        if prod(shape) != total:
            a, b = prod(shape), total
            if isinstance(a, int) and isinstance(b, int):
                raise I.exc('ValueError', 'cannot reshape array')
            # dimensions of size one do not change the total size
            sa = [s for s in shape if s != 1]
            sb = [s for s in arr.shape if s != 1]
            if sa != sb:
                raise Unsupported('reshape of unknown size')
        if order not in ('C', 'A', 'K') and len(
                [s for s in shape if s != 1]) > 1:
            return Arr(Buf(('f', 'reshapeF', content_frz(arr), arr.shape,
                            shape)), arr.dtype, shape)
        return self._view(arr, shape)

    def arr_attr(self, I, v, name):
        if name == 'shape':
            return v.shape
        if name == 'ndim':
            return len(v.shape)
        if name == 'size':
            return prod(v.shape)
        if name == 'dtype':
            return v.dtype
        if name == 'itemsize':
            return v.dtype.itemsize
        if name == 'nbytes':
            return Unk('nbytes')
        if name == 'base':
            return None if v.owner else Arr(v.buf, v.dtype, v.shape)
        if name == 'T' or name == 'transpose':
            r = self._view(v, v.shape) if len(v.shape) < 2 else Arr(
                Buf(('f', 'T', content_frz(v), v.shape)), v.dtype,
                v.shape[::-1], owner=False)
            return r if name == 'T' else Native(name, lambda I, *a: r)
        if name == 'flat':
            return self.reshape(I, v, (prod(v.shape),))
        if name == 'flags':
            return Flags(v)
        if name in ('real',) and v.dtype.kind != 'c':
            return v

        def f(I, *a, **k):
            if name == 'tolist':
                return self.tolist(I, v)
            if name == 'item':
                if a:
                    return self.np_item(I, self.np_getitem(
                        I, v, a[0] if len(a) == 1 else tuple(a)))
                return self.np_item(I, v)
            if name in ('tobytes', 'tostring'):
                return self.np_tobytes(I, v)
            if name in ('copy', '__copy__', '__deepcopy__', 'flatten'):
                r = Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
                if name == 'flatten':
                    r.shape = (prod(v.shape),)
                return r
            if name == 'astype':
                d = self.parse_dtype(I, a[0] if a else k['dtype'])
                if k.get('copy', True) is False and d == v.dtype:
                    return v
                return self.astype(I, v, d)
            if name == 'ravel':
                return self.reshape(I, v, (prod(v.shape),),
                                    k.get('order', a[0] if a else 'C'))
            if name == 'reshape':
                shp = a[0] if len(a) == 1 else a
                if isinstance(shp, int) or isinstance(shp, (Num, Term)):
                    shp = (shp,)
                return self.reshape(I, v, tuple(I.iter_(shp)),
                                    k.get('order', 'C'))
            if name == 'squeeze':
                return self.reshape(I, v, tuple(
                    s for s in v.shape if s != 1))
            if name == 'resize':
                shp = a[0] if len(a) == 1 else a
                if not isinstance(shp, (tuple, list)):
                    shp = (shp,)
                shp = tuple(shp)
                if not v.owner:
                    raise I.exc('ValueError', 'cannot resize this array: it '
                                'does not own its data')
                if v.readonly:
                    raise I.exc('ValueError', 'cannot resize this array')
                if v.held and k.get('refcheck', True) is not False:
                    raise I.exc('ValueError', 'cannot resize an array that '
                                'references or is referenced by another '
                                'array in this way')
                if shp != v.shape:
                    c = v.buf.content
                    if c[0] == 'el' and v.dtype.kind in 'biufc' and all(
                            isinstance(s, int) for s in shp):
                        n = prod(shp)
                        es = list(c[1][:n])
                        es += [self.conv(I, 0, v.dtype)] * (n - len(es))
                        v.buf.content = ('el', tuple(es))
                    else:
                        v.buf.content = ('resized', content_frz(v), v.shape,
                                         shp)
                    v.shape = shp
                return None
            if name == 'fill':
                self.np_setitem(I, v, Ellipsis, a[0])
                return None
            if name in ('all', 'any', 'max', 'min'):
                return getattr(self, 'np_' + name)(I, v, *a, **k)
            if name == 'sum' and v.dtype.kind == 'b':
                return self.np_count(I, v, *a, **k)
            if name == 'view':
                if not a:
                    return self._view(v, v.shape)
                d = self.parse_dtype(I, a[0])
                if v.buf.content[0] == 'raw' and d.itemsize == 1:
                    return Arr(v.buf, d, v.shape, owner=False)
                if native(d) == native(v.dtype):
                    return self._view(v, v.shape)
                return Arr(Buf(('f', 'view', content_frz(v), v.dtype, d)), d,
                           v.shape, owner=False)
            if name == 'setflags':
                if 'write' in k:
                    v.readonly = not k['write']
                return None
            if name in ('nonzero', 'argmax', 'argmin', 'sum', 'mean', 'std',
                        'var', 'cumsum', 'prod', 'round', 'clip', 'sort',
                        'argsort', 'take', 'repeat', 'swapaxes', 'conj',
                        'dot', 'trace', 'diagonal', 'byteswap'):
                raise Unsupported('ndarray.' + name)
            raise Unsupported('ndarray.' + name)
        if name.startswith('__') and name not in ('__copy__', '__deepcopy__'):
            return self.dunder(I, v, name)
        known = ('tolist item tobytes tostring copy __copy__ __deepcopy__ '
                 'flatten astype ravel reshape squeeze resize fill all any '
                 'max min view setflags nonzero argmax argmin sum mean std '
                 'var cumsum prod round clip sort argsort take repeat '
                 'swapaxes conj dot trace diagonal byteswap').split()
        if name in known:
            return Native('ndarray.' + name, f)
        if name in ('imag', 'real', 'strides', 'ctypes', 'data', 'tofile',
                    'put', 'choose', 'compress', 'partition', 'dump',
                    'dumps', 'getfield', 'searchsorted', 'setfield', 'ptp',
                    'conjugate', 'cumprod', 'argpartition', 'device',
                    'to_device', 'mT'):
            raise Unsupported('ndarray.' + name)
        raise I.no_attr(v, name)

    def tolist(self, I, v):
        if v.shape == ():
            return self.np_item(I, v)
        c = v.buf.content
        if c[0] == 'el':
            es = [e if v.dtype.kind == 'O' else self.np_item(
                I, NpS(v.dtype, e)) for e in c[1]]
            for s in reversed(v.shape[1:]):
                es = [es[i:i + s] for i in range(0, len(es), s)] if s else \
                    [[] for _ in range(v.shape[0])]
            return es
        if prod(v.shape) == 0:
            return []
        return Term('tolist', (self.np_freeze(v),), 'list')

    def np_bool(self, I, v):
        n = prod(v.shape)
        if isinstance(n, int):
            if n == 0:
                raise I.exc('ValueError', 'The truth value of an empty array '
                            'is ambiguous.')
            if n > 1:
                raise I.exc('ValueError', 'The truth value of an array with '
                            'more than one element is ambiguous.')
            if v.buf.content[0] == 'el':
                e = v.buf.content[1][0]
                if v.dtype.kind == 'b' and isinstance(e, Term):
                    return e
                return I.truth(e)
            return Term('elem', (content_frz(v), 0), 'bool')
        if isinstance(n, Num):
            if n.rank == 0 or n.rank > 1:
                raise I.exc('ValueError', 'The truth value of an array is '
                            'ambiguous.')
        elif I.truth(n):
            if not I.truth(I.eq(n, 1)):
                raise I.exc('ValueError', 'ambiguous truth value')
        else:
            raise I.exc('ValueError', 'The truth value of an empty array is '
                        'ambiguous.')
        return Term('elem', (content_frz(v), 0), 'bool')

    def np_truth(self, I, v):
        if isinstance(v, NpS):
            return I.truth(v.src)
        r = self.np_bool(I, v)
        return I.truth(r)

    def np_iter(self, I, v):
        if v.shape == ():
            raise I.exc('TypeError', 'iteration over a 0-d array')
        c = v.buf.content
        if v.shape[0] == 0:
            return iter([])
        if c[0] == 'el' and all(isinstance(s, int) for s in v.shape):
            return iter([self.np_getitem(I, v, i)
                         for i in range(v.shape[0])])
        raise Unsupported('iteration over an array of unknown content')

    def _elem(self, v, e):
        return e if v.dtype.kind == 'O' or isinstance(e, StructRec) \
            else NpS(v.dtype, e)

    def np_getitem(self, I, v, k):
        c = v.buf.content
        if isinstance(k, list):
            k = self.np_array(I, k)
        if isinstance(k, NpS):
            k = k.src
        if isinstance(k, tuple):
            k = tuple(x.src if isinstance(x, NpS) else x for x in k)
        if k is Ellipsis:
            return self._view(v, v.shape)
        if k == () and isinstance(k, tuple):
            if v.shape == ():
                if c[0] == 'el':
                    return self._elem(v, c[1][0])
                return NpS(v.dtype, Term('elem', (content_frz(v), 0),
                                         ELEM_TY.get(v.dtype.kind,
                                                     'object')))
            return self._view(v, v.shape)
        if isinstance(k, str):
            if v.dtype.sub and v.dtype.sub[0] == 'fields':
                if k not in v.dtype.sub:
                    raise I.exc('ValueError', 'no field of name ' + k)
                return Arr(Buf(('el', tuple(r.fields[k] for r in c[1]))),
                           OBJ, v.shape, owner=False)
            raise I.exc('IndexError', 'only integers, slices (`:`), ellipsis '
                        '(`...`), numpy.newaxis (`None`) and integer or '
                        'boolean arrays are valid indices')
        if isinstance(k, Arr) and k.dtype.kind == 'b':
            if c[0] == 'el' and k.buf.content[0] == 'el' and \
                    k.shape == v.shape:
                es = tuple(e for e, m in zip(c[1], k.buf.content[1])
                           if I.truth(m))
                return Arr(Buf(('el', es)), v.dtype, (len(es),))
            return Arr(Buf(('f', 'mask', content_frz(v), content_frz(k))),
                       v.dtype, (Term('nmask', (), 'int'),))
        if isinstance(k, Arr):
            raise Unsupported('fancy indexing')
        ks = list(k) if isinstance(k, tuple) else [k]
        if Ellipsis in [x for x in ks if not isinstance(x, Arr)]:
            i = ks.index(Ellipsis)
            ks[i:i + 1] = [SliceVal(None, None, None)] * (
                len(v.shape) - len(ks) + 1)
        if len(ks) > len(v.shape):
            raise I.exc('IndexError', 'too many indices for array')
        shape = []
        host = c[0] == 'el' and all(isinstance(s, int) for s in v.shape)
        for x, s in zip(ks, v.shape):
            if isinstance(x, bool) or x is None:
                raise Unsupported('index')
            if isinstance(x, int):
                if isinstance(s, int) and not -s <= x < s:
                    raise I.exc('IndexError', 'index %s is out of bounds'
                                % x)
            elif isinstance(x, SliceVal):
                if (x.start, x.stop, x.step) == (None, None, None):
                    shape.append(s)
                elif isinstance(s, int):
                    shape.append(len(range(s)[I.hslice(x)]))
                else:
                    shape.append(Term('slicelen', (s, x), 'int'))
            else:
                host = False
                if isinstance(x, (str, SStr, float)):
                    raise I.exc('IndexError', 'only integers and slices are '
                                'valid indices')
        shape += v.shape[len(ks):]
        if host:
            import itertools
            axes = []
            for i, s in enumerate(v.shape):
                x = ks[i] if i < len(ks) else SliceVal(None, None, None)
                axes.append([range(s)[x]] if isinstance(x, int)
                            else list(range(s)[I.hslice(x)]))
            es = []
            for idx in itertools.product(*axes):
                p = 0
                for j, s in zip(idx, v.shape):
                    p = p * s + j
                es.append(c[1][p])
            if not shape:
                return self._elem(v, es[0])
            return Arr(Buf(('el', tuple(es))), v.dtype, shape, owner=False)
        fk = tuple(x for x in ks)
        t = ('getitem', content_frz(v), v.shape, fk)
        if not shape and all(isinstance(x, int) for x in ks):
            return NpS(v.dtype, Term('elem', t, ELEM_TY.get(
                v.dtype.kind, 'object')))
        return Arr(Buf(t), v.dtype, shape, owner=False)

    def np_setitem(self, I, v, k, val):
        if v.readonly:
            raise I.exc('ValueError', 'assignment destination is read-only')
        c = v.buf.content
        if isinstance(k, NpS):
            k = k.src
        full = k is Ellipsis or (isinstance(k, tuple) and k == ()) or (
            isinstance(k, SliceVal)
            and (k.start, k.stop, k.step) == (None, None, None))
        if v.dtype.kind == 'O' and isinstance(k, int) and c[0] == 'el' \
                and len(v.shape) == 1:
            if not -v.shape[0] <= k < v.shape[0]:
                raise I.exc('IndexError', 'index out of bounds')
            es = list(c[1])
            es[k] = val
            v.buf.content = ('el', tuple(es))
            return
        if isinstance(val, Model) and hasattr(val, 'sa_array'):
            val = val.sa_array(I)
        if isinstance(val, (list, tuple)):
            val = self.np_array(I, val)
        if isinstance(val, (str, SStr)) and v.dtype.kind in 'biufc':
            raise I.exc('ValueError', 'could not convert string to number')
        if val is None and v.dtype.kind in 'iub':
            raise I.exc('TypeError', 'int() argument')
        if full:
            if isinstance(val, Arr) and val.shape == v.shape:
                v.buf.content = self.astype(I, val, v.dtype).buf.content
                return
            if isinstance(val, Arr) and val.shape != ():
                raise I.exc('ValueError', 'could not broadcast input array')
            if isinstance(val, Arr):
                val = self.np_getitem(I, val, ())
            n = prod(v.shape)
            if v.dtype.kind in 'biufc':
                e = self.conv(I, val, v.dtype)
            else:
                e = val.src if isinstance(val, NpS) else val
            if isinstance(n, int) and n <= 64:
                v.buf.content = ('el', (e,) * n)
            else:
                v.buf.content = ('full', e)
            return
        if isinstance(k, int) and c[0] == 'el' and len(v.shape) == 1 \
                and not isinstance(val, Arr):
            if not -v.shape[0] <= k < v.shape[0]:
                raise I.exc('IndexError', 'index out of bounds')
            es = list(c[1])
            es[k] = self.conv(I, val, v.dtype) if v.dtype.kind in 'biufc' \
                else (val.src if isinstance(val, NpS) else val)
            v.buf.content = ('el', tuple(es))
            return
        if isinstance(k, int) and v.shape and isinstance(v.shape[0], int) \
                and not -v.shape[0] <= k < v.shape[0]:
            raise I.exc('IndexError', 'index out of bounds')
        if c[0] == 'el' and self._host_assign(I, v, k, val):
            return
        if isinstance(val, NpS):
            fv = self.conv(I, val, v.dtype) if v.dtype.kind in 'biufc' \
                else val.src
        elif isinstance(val, Arr):
            fv = frz(self.astype(I, val, v.dtype))
        elif v.dtype.kind in 'biufc':
            fv = self.conv(I, val, v.dtype)
        else:
            fv = I.freeze(val)
        fk = frz(k) if isinstance(k, Arr) else k
        v.buf.content = ('upd', content_frz(v), v.shape, fk, fv)

    def _host_assign(self, I, v, k, val):
        """Assignment to known positions of an array of known elements."""
        import itertools
        if not all(isinstance(s, int) for s in v.shape):
            return False
        if isinstance(k, Arr) and k.dtype.kind == 'b' and \
                k.shape == v.shape and k.buf.content[0] == 'el':
            if not all(isinstance(m, bool) for m in k.buf.content[1]):
                return False
            pos = [i for i, m in enumerate(k.buf.content[1]) if m]
            shape = (len(pos),)
        else:
            ks = list(k) if isinstance(k, tuple) else [k]
            ks = [x.src if isinstance(x, NpS) else x for x in ks]
            if not all(isinstance(x, (int, SliceVal)) or x is Ellipsis
                       for x in ks) or any(isinstance(x, bool) for x in ks):
                return False
            if any(x is Ellipsis for x in ks):
                i = [x is Ellipsis for x in ks].index(True)
                ks[i:i + 1] = [SliceVal(None, None, None)] * (
                    len(v.shape) - len(ks) + 1)
            if len(ks) > len(v.shape):
                raise I.exc('IndexError', 'too many indices for array')
            axes, shape = [], []
            for i, s in enumerate(v.shape):
                x = ks[i] if i < len(ks) else SliceVal(None, None, None)
                if isinstance(x, int):
                    if not -s <= x < s:
                        raise I.exc('IndexError', 'index %d is out of '
                                    'bounds' % x)
                    axes.append([range(s)[x]])
                else:
                    axes.append(list(range(s)[I.hslice(x)]))
                    shape.append(len(axes[-1]))
            pos = []
            for idx in itertools.product(*axes):
                p = 0
                for j, s in zip(idx, v.shape):
                    p = p * s + j
                pos.append(p)
            shape = tuple(shape)
        if isinstance(val, Arr):
            vc = self.astype(I, val, v.dtype).buf.content
            if vc[0] != 'el' or not all(isinstance(s, int)
                                        for s in val.shape):
                return False
            if val.shape == shape:
                es = list(vc[1])
            elif prod(val.shape) == 1 and len(val.shape) <= len(shape):
                es = [vc[1][0]] * len(pos)
            elif all(s == t or s == 1 for s, t in zip(
                    reversed(val.shape), reversed(shape))):
                return False        # a broadcast left symbolic
            else:
                raise I.exc('ValueError', 'could not broadcast input array')
        else:
            if v.dtype.kind in 'biufc':
                e = self.conv(I, val, v.dtype)
            else:
                e = val.src if isinstance(val, NpS) and \
                    v.dtype.kind != 'O' else val
            es = [e] * len(pos)
        out = list(c_ for c_ in v.buf.content[1])
        for p, e in zip(pos, es):
            out[p] = e
        v.buf.content = ('el', tuple(out))
        return True

    def np_setattr(self, I, v, name, val):
        if name == 'shape':
            if not isinstance(val, (tuple, list)):
                val = (val,)
            r = self.reshape(I, v, tuple(val))
            v.shape = r.shape
            return
        raise Unsupported('setting ndarray.' + name)

    def np_contains(self, I, c, v):
        r = self.np_compare(I, '==', c, v)
        return self.np_any(I, r)

    # ------------------------------------------------------- operators
    def np_compare(self, I, op, a, b):
        if isinstance(a, DType) or isinstance(b, DType):
            if op not in ('==', '!='):
                raise Unsupported('ordering of dtypes')
            d, x = (a, b) if isinstance(a, DType) else (b, a)
            if x is None or isinstance(x, (Obj, int, float, list, dict, Arr,
                                           ModuleVal)):
                return op == '!='
            if isinstance(x, NpS) and x.dtype.kind != 'U':
                return op == '!='
            y = self.parse_dtype(I, x)
            same = d == y or (d.kind in 'USV' and d.kind == y.kind
                              and d.itemsize == y.itemsize)
            return same == (op == '==')
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_compare(I, op, a, b)
        # NumPy scalars
        if a is None or b is None:
            if op in ('==', '!='):
                return op == '!='
            raise I.exc('TypeError', 'not supported between instances')
        sa = a.src if isinstance(a, NpS) else a
        sb = b.src if isinstance(b, NpS) else b
        if I.num_like(sa) and I.num_like(sb):
            return I.num_order(op, sa, sb)
        if op in ('==', '!='):
            if isinstance(a, NpS) and isinstance(b, NpS) and \
                    a.dtype == b.dtype and a == b:
                return op == '=='
            r = I.eq(sa, sb) if not (isinstance(sa, NpS) or isinstance(
                sb, NpS)) else sa == sb
            return r == (op == '==')
        if isinstance(sa, (Term, Unk)) or isinstance(sb, (Term, Unk)):
            if isinstance(sa, Term) and isinstance(sb, Term) and sa == sb:
                return op in ('<=', '>=')
            for s in (sa, sb):
                if isinstance(s, str) or (isinstance(s, Term)
                                          and s.ty == 'str'):
                    raise I.exc('TypeError', 'ufunc did not contain a loop')
            return I.choose_bool(('nord', op, sa, sb) if not isinstance(
                sa, Unk) and not isinstance(sb, Unk) else None,
                'order of unknown numbers', True)
        raise I.exc('TypeError', 'not supported between instances of %s and '
                    '%s' % (I.type_name(a), I.type_name(b)))

    def arr_compare(self, I, op, a, b):
        if b is None or a is None:
            if op not in ('==', '!='):
                raise I.exc('TypeError', 'not supported between instances')
        arr = a if isinstance(a, Arr) else b
        if isinstance(a, (list, tuple)):
            a = self.np_array(I, a)
        if isinstance(b, (list, tuple)):
            b = self.np_array(I, b)
        for x in (a, b):
            if isinstance(x, (str, SStr, dict)) or (
                    isinstance(x, Term) and x.ty in ('str', 'bytes')):
                if arr.dtype.kind in 'biufc':
                    if op in ('==', '!='):
                        n = prod(arr.shape)
                        return Arr(Buf(('full', op == '!=')), BOOL,
                                   arr.shape)
                    raise I.exc('TypeError', 'ufunc did not contain a loop '
                                'with signature matching types')
        sa = a.shape if isinstance(a, Arr) else ()
        sb = b.shape if isinstance(b, Arr) else ()
        if sa and sb and sa != sb:
            if len(sa) == len(sb) and all(
                    isinstance(x, int) and isinstance(y, int) and x != y
                    and 1 not in (x, y) for x, y in zip(sa, sb)):
                raise I.exc('ValueError', 'operands could not be broadcast')
            if len(sa) == len(sb) == 1:
                for x, y in ((sa[0], sb[0]),):
                    if isinstance(x, (int, Num)) and isinstance(
                            y, (int, Num)) and I.truth(I.compare(
                                '!=', x, y)) and not I.eq(x, 1) \
                            and not I.eq(y, 1):
                        raise I.exc('ValueError',
                                    'operands could not be broadcast')
            raise Unsupported('broadcasting comparison')
        shape = sa or sb
        ea = a.buf.content if isinstance(a, Arr) else None
        eb = b.buf.content if isinstance(b, Arr) else None
        if (ea is None or ea[0] == 'el') and (eb is None or eb[0] == 'el') \
                and all(isinstance(s, int) for s in shape):
            n = prod(shape)
            xs = ea[1] if ea else (a,) * n
            ys = eb[1] if eb else (b,) * n
            if ea and len(xs) == 1 and n != 1:
                xs = xs * n
            if eb and len(ys) == 1 and n != 1:
                ys = ys * n
            es = tuple(bool(I.truth(I.compare(op, x, y)))
                       for x, y in zip(xs, ys))
            return Arr(Buf(('el', es)), BOOL, shape)
        if ea is not None and eb is not None and \
                a.dtype == b.dtype and content_frz(a) == content_frz(b):
            return Arr(Buf(('full', op in ('==', '<=', '>='))), BOOL, shape)
        return Arr(Buf(('f', 'cmp' + op,
                        frz(a) if isinstance(a, Arr) else I.freeze(a),
                        frz(b) if isinstance(b, Arr) else I.freeze(b))),
                   BOOL, shape)

    def _anyall(self, I, v, isall):
        if not isinstance(v, Arr):
            if isinstance(v, (bool, NpS)):
                return v
            v = self.np_array(I, v)
        c = v.buf.content
        if prod(v.shape) == 0:
            return isall
        if c[0] == 'el':
            for e in c[1]:
                if I.truth(e) != isall:
                    return not isall
            return isall
        if c[0] == 'full':
            if I.truth(c[1]) == isall and isall:
                return True
            n = prod(v.shape)
            if isinstance(n, int) or isall is False and not c[1]:
                return bool(c[1])
            return bool(c[1])
        return I.choose_bool(('all' if isall else 'any', c),
                             'elements of %r' % (c[:2],))

    def np_any(self, I, v, axis=None, **k):
        if axis is not None:
            raise Unsupported('any with axis')
        return self._anyall(I, v, False)

    def np_all(self, I, v, axis=None, **k):
        if axis is not None:
            raise Unsupported('all with axis')
        return self._anyall(I, v, True)

    def np_count(self, I, v, axis=None, **k):
        """Number of true elements (sum of a boolean array)."""
        if not isinstance(v, Arr):
            v = self.np_array(I, v)
        if axis is not None or v.dtype.kind != 'b':
            raise Unsupported('sum')
        if v.buf.content[0] == 'el':
            return sum(bool(I.truth(e)) for e in v.buf.content[1])
        if not I.truth(self._anyall(I, v, False)):
            return 0
        n = prod(v.shape)
        if I.truth(self._anyall(I, v, True)):
            return n
        return Num('count', 1500)

    def _minmax(self, I, v, op, skip=False):
        if not isinstance(v, Arr):
            v = self.np_array(I, v)
        if prod(v.shape) == 0 or (isinstance(prod(v.shape), Num)
                                  and prod(v.shape).rank == 0):
            raise I.exc('ValueError', 'zero-size array to reduction operation'
                        ' has no identity')
        c = v.buf.content
        if c[0] == 'el':
            best = c[1][0]
            els = c[1][1:]
            isnan = [x for x in c[1] if isinstance(x, float) and x != x]
            if isnan and not skip:
                return NpS(v.dtype, isnan[0])
            if isnan:
                els = [x for x in c[1] if not (isinstance(x, float) and
                                               x != x)] or isnan[:1]
                best, els = els[0], els[1:]
            for e in els:
                if I.truth(I.compare(op, e, best)):
                    best = e
            return NpS(v.dtype, best)
        return NpS(v.dtype, Term('minmax' + op, (c,), 'float'))

    def np_max(self, I, v, axis=None, **k):
        if axis is not None:
            raise Unsupported('max with axis')
        return self._minmax(I, v, '>')

    def np_min(self, I, v, axis=None, **k):
        if axis is not None:
            raise Unsupported('min with axis')
        return self._minmax(I, v, '<')

    def np_unary(self, I, sym, v):
        if isinstance(v, Unk):
            return v
        if isinstance(v, Arr):
            c = v.buf.content
            if sym == '~' and v.dtype.kind == 'b':
                if c[0] == 'el':
                    return Arr(Buf(('el', tuple(not I.truth(e)
                                                for e in c[1]))), BOOL,
                               v.shape)
                if c[0] == 'full':
                    return Arr(Buf(('full', not c[1])), BOOL, v.shape)
                inv = {'<': '>=', '>': '<=', '<=': '>', '>=': '<',
                       '==': '!=', '!=': '=='}
                if c[0] == 'f' and c[1].startswith('cmp'):
                    return Arr(Buf(('f', 'cmp' + inv[c[1][3:]]) + c[2:]),
                               BOOL, v.shape)
            return Arr(Buf(('f', sym, c)), v.dtype, v.shape)
        if isinstance(v, NpS):
            if sym == '~' and v.dtype.kind == 'b':
                return not I.truth(v)
            if isinstance(v.src, (int, float)):
                r = self.np_concrete(I, sym, v)
                if r is not None:
                    return r
            if isinstance(v.src, Num):
                return NpS(v.dtype, Num('-' + v.src.label, -v.src.rank
                                        if sym == '-' else abs(v.src.rank),
                                        v.src.ty))
            return NpS(v.dtype, Term(sym, (v.src,), 'object'))
        if isinstance(v, bool) and sym == '~':
            return not v        # np.bool stand-in
        if isinstance(v, Term):
            return Term(sym, (v,), v.ty)
        if isinstance(v, Num):
            return Num(sym + v.label, abs(v.rank) if sym == 'abs'
                       else -v.rank, v.ty)
        raise I.exc('TypeError', 'bad operand type for unary ' + sym)

    def np_round(self, I, d, x):
        """The number x as a number of dtype d; integers wrap around."""
        if d.kind in 'iu':
            n = 8 * d.itemsize
            x = int(x) % (1 << n)
            return x - (1 << n) if d.kind == 'i' and x >> (n - 1) else x
        if d.kind == 'f' and d.itemsize < 8:
            f = {2: 'e', 4: 'f'}[d.itemsize]
            try:
                return struct.unpack(f, struct.pack(f, x))[0]
            except OverflowError:
                return float('inf') if x > 0 else float('-inf')
        return float(x) if d.kind == 'f' else x

    def np_concrete(self, I, sym, a, b=None):
        """Arithmetic of known numbers, one of which is a NumPy scalar."""
        ds = [x.dtype for x in (a, b) if isinstance(x, NpS)]
        xs = [x.src if isinstance(x, NpS) else x
              for x in ((a,) if b is None else (a, b))]
        if any(d.kind not in 'iuf' for d in ds) or len(
                {d.key() for d in ds}) > 1 or any(
                    isinstance(x, bool) or x != x or x in (
                        float('inf'), float('-inf')) for x in xs):
            return None
        d = ds[0]
        for x in (a, b):
            if isinstance(x, int) and d.kind in 'iu' and \
                    self.np_round(I, d, x) != x:
                raise I.exc('OverflowError', 'Python integer %d out of '
                            'bounds for %s' % (x, d.name))
            if isinstance(x, float) and d.kind in 'iu':
                d = FLOAT64
        if b is None:
            r = {'-': _op.neg, 'abs': abs, '+': _op.pos}.get(sym)
            return None if r is None else NpS(
                d, self.np_round(I, d, r(xs[0])))
        if sym == '/' and d.kind in 'iu':
            d = FLOAT64
        xs = [self.np_round(I, d, x) if d.kind == 'f' else x for x in xs]
        f = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv,
             '//': _op.floordiv, '%': _op.mod}.get(sym)
        if f is None or (sym in '//%' and not xs[1]):
            return None
        return NpS(d, self.np_round(I, d, f(*xs)))

    def np_elementwise(self, I, sym, a, b):
        """Arithmetic on arrays whose elements are all known numbers."""
        arrs = [x for x in (a, b) if isinstance(x, Arr)]
        n = prod(arrs[0].shape)
        if not isinstance(n, int) or any(
                x.shape != arrs[0].shape or x.buf.content[0] != 'el'
                or x.dtype.kind not in 'iuf' for x in arrs):
            return None
        cols = []
        for x in (a, b):
            if isinstance(x, Arr):
                cols.append([NpS(x.dtype, e.src if isinstance(e, NpS) else e)
                             for e in x.buf.content[1]])
            else:
                cols.append([x] * n)
        if any(isinstance(x, bool) or not isinstance(
                x.src if isinstance(x, NpS) else x, (int, float))
                for c in cols for x in c):
            return None
        es = [self.np_concrete(I, sym, x, y) for x, y in zip(*cols)]
        if not es or None in es:
            return None
        return Arr(Buf(('el', tuple(e.src for e in es))), es[0].dtype,
                   arrs[0].shape)

    def np_binop(self, I, sym, a, b):
        for x in (a, b):
            if isinstance(x, Unk):
                return Unk('arithmetic')
        if sym in '&|' and any(isinstance(x, Arr) and x.dtype.kind == 'b'
                               for x in (a, b)):
            xs = []
            for x in (a, b):
                if isinstance(x, Arr):
                    if x.buf.content[0] == 'full' and isinstance(
                            prod(x.shape), int):
                        xs.append((x.buf.content[1],) * prod(x.shape))
                    elif x.buf.content[0] == 'el':
                        xs.append(x.buf.content[1])
                    else:
                        xs = None
                        break
                else:
                    xs.append(None)
            arr = a if isinstance(a, Arr) else b
            if xs is not None:
                n = len(xs[0] if xs[0] is not None else xs[1])
                f = lambda x, o: x if x is not None else (o,) * n
                es = tuple(
                    (I.truth(p) and I.truth(q)) if sym == '&' else
                    (I.truth(p) or I.truth(q))
                    for p, q in zip(f(xs[0], a), f(xs[1], b)))
                return Arr(Buf(('el', es)), BOOL, arr.shape)
            return Arr(Buf(('f', sym, frz(a), frz(b))), BOOL, arr.shape)
        if isinstance(a, NpS) and isinstance(b, (NpS, int, float, Num)) or \
                isinstance(b, NpS) and isinstance(a, (int, float, Num)):
            sa = a.src if isinstance(a, NpS) else a
            sb = b.src if isinstance(b, NpS) else b
            d = a.dtype if isinstance(a, NpS) else b.dtype
            if isinstance(sa, (int, float)) and isinstance(sb, (int, float)):
                r = self.np_concrete(I, sym, a, b)
                if r is not None:
                    return r
            if isinstance(sa, (int, Num)) and isinstance(sb, (int, Num)):
                return I.num_binop(sym, sa, sb)
            return NpS(d, Term('op' + sym, (I.freeze(sa), I.freeze(sb)),
                               'object'))
        for x in (a, b):
            if x is None or isinstance(x, (Obj, dict)):
                raise I.exc('TypeError', 'unsupported operand type(s)')
        if I.is_strlike(a) and I.is_strlike(b) and sym == '+':
            return sstr([x.src if isinstance(x, NpS) else x for x in (a, b)])
        arr = a if isinstance(a, Arr) else b
        if isinstance(arr, Arr):
            r = self.np_elementwise(I, sym, a, b)
            if r is not None:
                return r
            return Arr(Buf(('f', 'op' + sym,
                            frz(a) if isinstance(a, Arr) else I.freeze(a),
                            frz(b) if isinstance(b, Arr) else I.freeze(b))),
                       arr.dtype, arr.shape)
        return Unk('numpy arithmetic')

    # ---------------------------------------------------------- module
    def mod_numpy(self, I):
        ns = {}
        L = self

        def reg(*names):
            def deco(fn):
                for n in names:
                    ns[n] = Native('np.' + n, fn)
                return fn
            return deco
        for n in list(_D):
            if n in ('b', 'h', 'i', 'l', 'q', 'B', 'H', 'I', 'L', 'Q', 'e',
                     'f', 'd', 'F', 'D', 'O', '?', 'p', 'P', 'b1', 'i1', 'i2',
                     'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8',
                     'c8', 'c16', 'int', 'float', 'complex', 'object',
                     'float_', 'complex_'):
                continue
            ns[n] = BType(self.np_scalar_type(_D[n]))
        for n in ('generic', 'number', 'integer', 'signedinteger',
                  'unsignedinteger', 'inexact', 'floating', 'complexfloating',
                  'flexible', 'character', 'ndarray', 'dtype', 'str_',
                  'bytes_', 'void', 'object_'):
            ns[n] = BType('np.' + n)
        ns['nan'], ns['inf'], ns['pi'] = float('nan'), float('inf'), 3.14159
        ns['newaxis'] = None
        ns['__version__'] = '2.5.4'
        ns['True_'], ns['False_'] = True, False
        ns['asarray'] = ns['asanyarray'] = ns['ascontiguousarray'] = Native(
            'np.asarray', lambda I, x, dtype=None, **k: L.np_array(
                I, x, dtype, copy=False))
        ns['array'] = Native('np.array', lambda I, x, dtype=None, copy=True,
                             **k: L.np_array(I, x, dtype, copy is not False
                                             and copy is not None, **k))

        def as_arr(I, x):
            return x if isinstance(x, Arr) else L.np_array(I, x, copy=False)

        @reg('ravel')
        def ravel(I, x, order='C'):
            x = as_arr(I, x)
            return L.reshape(I, x, (prod(x.shape),), order)

        for n in ('reshape', 'squeeze', 'copy', 'transpose'):
            def m(I, x, *a, _n=n, **k):
                if _n == 'reshape' and 'shape' in k:
                    a = (k.pop('shape'),) + a
                return I.call_method(as_arr(I, x), _n, list(a), k)
            ns[n] = Native('np.' + n, m)

        @reg('atleast_1d')
        def atleast_1d(I, x):
            x = as_arr(I, x)
            return x if x.shape else L.reshape(I, x, (1,))

        @reg('atleast_2d')
        def atleast_2d(I, x):
            x = as_arr(I, x)
            s = x.shape
            if len(s) < 2:
                return L.reshape(I, x, (1, 1) if not s else (1,) + s)
            return x
        def iinfo(I, d):
            d = L.parse_dtype(I, d)
            if d.kind not in 'iu':
                raise I.exc('ValueError', 'Invalid integer data type')
            o = Obj(I.object_cls)
            n = 8 * d.itemsize
            o.attrs.update(bits=n, dtype=d, min=-2 ** (n - 1) if d.kind ==
                           'i' else 0, max=2 ** (n - (d.kind == 'i')) - 1)
            return o
        ns['iinfo'] = Native('np.iinfo', iinfo)
        ns['count_nonzero'] = Native('np.count_nonzero', lambda I, v, *a, **k:
                                     L.np_count(I, v, *a, **k))
        ns['any'] = Native('np.any', lambda I, v, *a, **k:
                           L.np_any(I, v, *a, **k))
        ns['all'] = Native('np.all', lambda I, v, *a, **k:
                           L.np_all(I, v, *a, **k))
        for n in ('max', 'amax'):
            ns[n] = Native('np.' + n, lambda I, v, *a, **k:
                           L.np_max(I, v, *a, **k))
        for n in ('min', 'amin'):
            ns[n] = Native('np.' + n, lambda I, v, *a, **k:
                           L.np_min(I, v, *a, **k))
        for n, o in (('nanmax', '>'), ('nanmin', '<')):
            ns[n] = Native('np.' + n, lambda I, v, _o=o:
                           L._minmax(I, v, _o, skip=True))
        for n, o in (('greater', '>'), ('less', '<'), ('greater_equal', '>='),
                     ('less_equal', '<='), ('equal', '=='),
                     ('not_equal', '!=')):
            ns[n] = Native('np.' + n, lambda I, a, b, _o=o, **k:
                           I.compare(_o, a, b))
        ns['logical_and'] = Native('np.logical_and', lambda I, a, b:
                                   I.binop(ast.BitAnd(), a, b))
        ns['logical_or'] = Native('np.logical_or', lambda I, a, b:
                                  I.binop(ast.BitOr(), a, b))
        ns['logical_not'] = Native('np.logical_not', lambda I, a:
                                   L.np_unary(I, '~', a))

        @reg('count_nonzero')
        def count_nonzero(I, v, **k):
            v = as_arr(I, v)
            if v.buf.content[0] == 'el':
                return sum(1 for e in v.buf.content[1] if I.truth(e))
            return Term('count_nonzero', (frz(v),), 'int')

        @reg('isnan', 'isinf')
        def isnan(I, v):
            if isinstance(v, Arr):
                return Arr(Buf(('full', False)), BOOL, v.shape)
            return False

        @reg('isfinite')
        def isfinite(I, v):
            if isinstance(v, Arr):
                return Arr(Buf(('full', True)), BOOL, v.shape)
            return True

        def shp(I, s):
            if isinstance(s, (tuple, list)):
                return tuple(I.index(x) for x in s)
            return (I.index(s),)

        def filled(val):
            def f(I, shape, dtype=None, *a, **k):
                d = L.parse_dtype(I, dtype)
                s = shp(I, shape)
                n = prod(s)
                e = {'O': 0 if val is not None else None,
                     'U': '', 'S': b''}.get(d.kind, val if val is not None
                                            else 0)
                if not isinstance(n, int) or n > 4096:
                    return Arr(Buf(('full', e)), d, s)
                if val is None and n and d.kind != 'O':
                    return Arr(Buf(('in', I.new_label('uninitialised'))), d,
                               s)
                return Arr(Buf(('el', (e,) * n)), d, s)
            return f
        ns['zeros'] = Native('np.zeros', filled(0))
        ns['ones'] = Native('np.ones', filled(1))
        ns['empty'] = Native('np.empty', filled(None))

        @reg('full')
        def full(I, shape, v, dtype=None, **k):
            d = L.parse_dtype(I, dtype) if dtype is not None else \
                L._infer(I, v)[2]
            s = shp(I, shape)
            n = prod(s)
            if d.kind in 'biufc':
                v = L.conv(I, v, d)
            return Arr(Buf(('el', (v,) * n) if isinstance(n, int)
                           else ('full', v)), d, s)
        for n, g in (('zeros_like', 'zeros'), ('ones_like', 'ones'),
                     ('empty_like', 'empty')):
            ns[n] = Native('np.' + n, lambda I, a, dtype=None, _g=g, **k:
                           I.call(ns[_g], [as_arr(I, a).shape,
                                           dtype or as_arr(I, a).dtype]))

        @reg('frombuffer')
        def frombuffer(I, b, dtype=None, *a, **k):
            d = L.parse_dtype(I, dtype)
            if isinstance(b, Term) and b.op == 'conv':
                b = b.args[0]
            if not (isinstance(b, bytes) or (isinstance(b, Term)
                                             and b.ty == 'bytes')):
                raise I.exc('TypeError', 'a bytes-like object is required')
            if a or k or d.itemsize != 1:
                if d.itemsize == '?':
                    raise I.exc('ValueError', 'itemsize cannot be zero in '
                                'type')
                raise Unsupported('np.frombuffer')
            r = Arr(Buf(('raw', b)), d, (L._blen(b),), owner=False)
            r.readonly = True
            return r

        @reg('fromstring')
        def fromstring(I, b, dtype=None, *a, **k):
            r = frombuffer(I, b, dtype)
            r.readonly, r.owner = False, True
            return r

        @reg('fromiter')
        def fromiter(I, it, dtype, *a, **k):
            return L.np_array(I, list(I.iter_(it)), dtype)

        @reg('arange')
        def arange(I, *a, dtype=None, **k):
            if all(isinstance(x, int) for x in a):
                return L.np_array(I, list(range(*a)), dtype)
            raise Unsupported('np.arange')

        @reg('shape')
        def shape(I, x):
            return as_arr(I, x).shape if not isinstance(x, NpS) else ()

        @reg('ndim')
        def ndim(I, x):
            return len(as_arr(I, x).shape) if not isinstance(x, NpS) else 0

        @reg('size')
        def size(I, x, axis=None):
            x = as_arr(I, x)
            return prod(x.shape) if axis is None else x.shape[axis]

        @reg('isscalar')
        def isscalar(I, x):
            return isinstance(x, (NpS, int, float, complex, str, bytes, Num,
                                  SStr)) or (isinstance(x, Term) and x.ty in (
                                      'int', 'float', 'complex', 'bool',
                                      'str', 'bytes'))

        @reg('issubdtype')
        def issubdtype(I, a, b):
            def ty(x):
                if isinstance(x, BType) and x.name.startswith('np.'):
                    return x.name
                if isinstance(x, BType) and x.name in ('float', 'int',
                                                       'complex'):
                    return 'np.' + {'float': 'float64', 'int': 'int64',
                                    'complex': 'complex128'}[x.name]
                return L.np_scalar_type(L.parse_dtype(I, x))
            return btype_sub(ty(a), ty(b))

        @reg('array_equal', 'array_equiv')
        def array_equal(I, a, b, **k):
            a, b = as_arr(I, a), as_arr(I, b)
            if a.shape != b.shape:
                return False
            if a.buf.content == b.buf.content:
                return True
            return L.np_all(I, L.arr_compare(I, '==', a, b))

        @reg('can_cast')
        def can_cast(I, a, b, casting='safe'):
            a = a.dtype if isinstance(a, (Arr, NpS)) else L.parse_dtype(I, a)
            b = L.parse_dtype(I, b)
            if casting == 'safe':
                return lossless(a, b) and not (a.kind == 'b' and False)
            if casting in ('no', 'equiv'):
                return a == b
            raise Unsupported('can_cast')

        @reg('result_type', 'promote_types', 'common_type')
        def result_type(I, *a):
            return L._common(I, [x.dtype if isinstance(x, (Arr, NpS))
                                 else L.parse_dtype(I, x) for x in a])

        @reg('iscomplexobj')
        def iscomplexobj(I, a):
            return a.dtype.kind == 'c' if isinstance(a, (Arr, NpS)) else \
                I.type_name(a) == 'complex'

        @reg('ndenumerate')
        def ndenumerate(I, a):
            import itertools
            a = as_arr(I, a)
            if not all(isinstance(s, int) for s in a.shape):
                raise Unsupported('ndenumerate')
            return IterVal([(ix, L.np_getitem(I, a, ix)) for ix in
                            itertools.product(*map(range, a.shape))])

        @reg('nditer')
        def nditer(I, a, *x, **k):
            a = as_arr(I, a)
            return IterVal(L.np_iter(I, L.reshape(I, a, (prod(a.shape),))))

        @reg('require')
        def require(I, a, dtype=None, requirements=None):
            return L.np_array(I, a, dtype, copy=False)
        ns['savez'] = Native('np.savez', L.np_savez)
        ns['savez_compressed'] = Native('np.savez_compressed', L.np_savez)
        ns['save'] = Native('np.save', L.np_save)
        ns['load'] = Native('np.load', L.np_load)
        ns['errstate'] = Native('np.errstate', lambda I, **k: L.nullcm())
        for n in ('seterr', 'set_printoptions'):
            ns[n] = Native('np.' + n, lambda I, *a, **k: {})
        return ModuleVal('numpy', ns, native=True)

    NP_REMOVED = {'object', 'int', 'float', 'bool8', 'str', 'complex', 'unicode_',
                  'float_', 'complex_', 'string_', 'long_', 'asscalar',
                  'NaN', 'Inf', 'product', 'alltrue', 'sometrue', 'cumproduct',
                  'in1d', 'row_stack', 'trapz', 'msort', 'cast', 'source'}
