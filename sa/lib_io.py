"""Transfer functions for the file system and the storage libraries."""
from .values import *
from .interp import is_host
from .lib_np import (BOOL, INT64, FLOAT64, UINT8, OBJ, StructRec, content_frz,
                     dt, frz, lossless, native, norm_cast, prod, str_dtype,
                     struct_dtype)
from .lib_core import str_parts

TYPE_BASES['h5py.File'] = ('h5py.Group',)
TYPE_BASES['h5py.Group'] = ('h5py.HLObject',)
TYPE_BASES['h5py.Dataset'] = ('h5py.HLObject',)
TYPE_BASES['pathlib.PosixPath'] = ('pathlib.Path',)
TYPE_BASES['pathlib.Path'] = ('pathlib.PurePath',)


class FileEnt:
    def __init__(self, content=None):
        self.versions = 0               # whole storages written so far
        self.content = content

    @property
    def content(self):
        return self._content

    @content.setter
    def content(self, c):
        self._content = c
        if getattr(c, 'fmt', 'data') != 'data':
            self.versions += 1


class FS:
    def __init__(self):
        self.files = {}
        self.dirs = set()
        self.links = set()              # which paths are symbolic links


class NpzContent:
    fmt = 'npz'

    def __init__(self, arrays):
        self.arrays = arrays


class MatContent:
    fmt = 'mat'

    def __init__(self, trees):
        self.trees = trees


class DataContent:
    fmt = 'data'

    def __init__(self, parts=()):
        self.parts = list(parts)


class NullCM(Model):
    tname = 'contextmanager'

    def __init__(self, value=None):
        self.value = value

    def sa_enter(self, I):
        return self.value

    def sa_exit(self, I, *a):
        return False


class FileHandle(Model):
    tname = '_io.BufferedRandom'

    def __init__(self, path, ent, mode):
        self.path, self.ent, self.mode = path, ent, mode
        self.closed = False

    def sa_enter(self, I):
        return self

    def sa_exit(self, I, *a):
        self.closed = True
        return False

    def sa_iter(self, I):
        raise Unsupported('iteration over file')

    def sa_getattr(self, I, name):
        def f(I, *a, **k):
            if name == 'close':
                self.closed = True
                return None
            if self.closed:
                raise I.exc('ValueError', 'I/O operation on closed file.')
            if name == 'write':
                if not set(self.mode) & set('wxa+'):
                    raise I.exc('OSError', 'not writable')
                I.effect('write', self.path)
                c = I.blobs.get(a[0]) if isinstance(a[0], Term) else None
                if c is not None:
                    self.ent.content = c
                    return Unk('size')
                if not isinstance(self.ent.content, DataContent):
                    self.ent.content = DataContent()
                self.ent.content.parts.append(a[0])
                return Unk('size')
            if name == 'read':
                I.effect('read', self.path)
                c = self.ent.content
                if isinstance(c, DataContent):
                    b = 'b' in self.mode
                    if len(c.parts) == 1:
                        return c.parts[0]
                    if not c.parts:
                        return b'' if b else ''
                t = Term('blob', (I.new_label('file'),), 'bytes', truth=True)
                I.blobs[t] = c
                return t
            if name in ('flush', 'seek', 'tell', 'fileno', 'truncate',
                        'readable', 'writable', 'seekable', 'isatty'):
                return True if name.endswith('able') else 0
            raise Unsupported('file.' + name)
        if name == 'name':
            return self.path
        if name == 'mode':
            return self.mode
        if name == 'closed':
            return self.closed
        return Native('file.' + name, f)


class BytesIO(Model):
    tname = '_io.BytesIO'

    def __init__(self, I, data=None):
        self.ent = FileEnt(DataContent([data] if data is not None else []))
        if data is not None and isinstance(data, Term) and data in I.blobs:
            self.ent.content = I.blobs[data]
        self.path = None
        self.mode = 'w+b'
        self.closed = False

    def sa_enter(self, I):
        return self

    def sa_exit(self, I, *a):
        return False

    def sa_getattr(self, I, name):
        if name in ('getvalue', 'read', 'getbuffer'):
            def gv(I, *a):
                c = self.ent.content
                if isinstance(c, DataContent) and len(c.parts) == 1:
                    return c.parts[0]
                t = Term('blob', (I.new_label('bytesio'),), 'bytes',
                         truth=True)
                I.blobs[t] = c
                return t
            return Native(name, gv)
        if name in ('seek', 'close', 'flush', 'tell'):
            return Native(name, lambda I, *a: 0)
        raise Unsupported('BytesIO.' + name)


CWD = Term('in', ('cwd',), 'str', truth=True)


class PathVal(Model):
    tname = 'pathlib.PosixPath'

    def __init__(self, p):
        import re
        parts = []
        for i, x in enumerate(str_parts(p)):
            if isinstance(x, str):
                x = re.sub('//+', '/', x)
                while '/./' in x:
                    x = x.replace('/./', '/')
                while i == 0 and x.startswith('./') and len(x) > 2:
                    x = x[2:]
            parts.append(x)
        if parts and isinstance(parts[-1], str) and len(parts[-1]) > 1:
            parts[-1] = parts[-1].rstrip('/')
        self.p = sstr(parts)

    def sa_str(self, I):
        return self.p

    def sa_eq(self, I, o):
        return isinstance(o, PathVal) and I.eq(self.p, o.p)

    def sa_binop(self, I, sym, o):
        if sym == '/':
            return PathVal(I.call(I.getattr_(I.import_module('os.path'),
                                             'join'), [self.p, o]))
        raise I.exc('TypeError', 'unsupported operand')

    def sa_getattr(self, I, name):
        L = I.libs
        if name == 'suffix':
            return L.splitext(I, self.p)[1]
        if name == 'suffixes':
            e = L.splitext(I, self.p)[1]
            return [e] if e else []
        if name in ('name', 'stem'):
            n = L.basename(I, self.p)
            return n if name == 'name' else L.splitext(I, n)[0]
        if name == 'parent':
            return PathVal(L.dirname(I, self.p))
        fs = {'exists': L.exists, 'is_file': L.isfile, 'is_dir': L.isdir}
        if name in fs:
            return Native(name, lambda I, **k: fs[name](I, self.p))
        hows = {'absolute': 'abs', 'resolve': 'abs', 'expanduser': 'user'}
        if name in hows:
            return Native(name, lambda I, *a, **k: PathVal(L.norm_path(
                I, self.p, hows[name])))
        if name in ('as_posix', '__str__', '__fspath__'):
            return Native(name, lambda I: self.p)
        if name == 'with_suffix':
            return Native(name, lambda I, s: PathVal(sstr(
                [L.splitext(I, self.p)[0], s])))
        if name == 'open':
            return Native(name, lambda I, *a, **k: L.open_(
                I, self.p, *a, **k))
        if name == 'unlink':
            return Native(name, lambda I, missing_ok=False: L.remove(
                I, self.p, missing_ok))
        if name in ('touch',):
            return Native(name, lambda I, *a, **k: L.open_(I, self.p, 'a')
                          and None)
        raise Unsupported('Path.' + name)


# --------------------------------------------------------------------- hdf5
class H5Node(Model):
    def __init__(self, name, parent):
        self.nm, self.par = name, parent
        self.attrs = {}

    def root(self):
        n = self
        while n.par is not None:
            n = n.par
        return n

    def fullname(self):
        if self.par is None:
            return '/'
        p = self.par.fullname()
        return (p if p == '/' else p + '/') + self.nm

    def check(self, I, write=False):
        r = self.root()
        h = getattr(r, 'handle', None)
        if h is None:
            return
        if h.closed:
            raise I.exc('ValueError', 'Invalid location identifier (file is '
                        'closed)')
        if write:
            if h.mode == 'r':
                raise I.exc('ValueError', 'Unable to write (no write intent '
                            'on file)')
            I.effect('h5write', h.path, self.fullname())

    def sa_truth(self, I):
        h = getattr(self.root(), 'handle', None)
        return not (h is not None and h.closed)

    def sa_eq(self, I, o):
        return self is o

    def common(self, I, name):
        if name == 'name':
            return self.fullname() if not getattr(self, 'dead', False) \
                else None
        if name == 'parent':
            return self.par if self.par is not None else self
        if name == 'file':
            return self.root()
        if name == 'attrs':
            return H5Attrs(self)
        if name == 'id':
            return Term('h5id', (id(self),), 'foreign')
        return None


class H5Attrs(Model):
    tname = 'h5py.AttributeManager'

    def __init__(self, node):
        self.node = node

    def sa_getitem(self, I, k):
        self.node.check(I)
        if k not in self.node.attrs:
            raise I.exc('KeyError', "Can't open attribute")
        return self.node.attrs[k]

    def sa_setitem(self, I, k, v):
        self.node.check(I, True)
        if isinstance(v, NpS) and v.dtype.kind == 'U':
            v = v.src
        if v is None or isinstance(v, (Obj, dict, DateV)):
            raise I.exc('TypeError', 'Object dtype has no native HDF5 '
                        'equivalent')
        if isinstance(v, (list, tuple)):
            v = I.libs.np_array(I, v)
        elif is_host(v) and not isinstance(v, (str, bytes)):
            v = I.libs.np_getitem(I, I.libs.np_array(I, v), ())
        self.node.attrs[k] = v

    def sa_delitem(self, I, k):
        self.node.check(I, True)
        if k not in self.node.attrs:
            raise I.exc('KeyError', "Can't delete attribute")
        del self.node.attrs[k]

    def sa_contains(self, I, k):
        return k in self.node.attrs

    def sa_iter(self, I):
        return iter(sorted(self.node.attrs))

    def sa_len(self, I):
        return len(self.node.attrs)

    def sa_getattr(self, I, name):
        if name in ('create', 'modify'):
            return Native(name, lambda I, k, data, **kw:
                          self.sa_setitem(I, k, data))
        d = {k: self.node.attrs[k] for k in sorted(self.node.attrs)}
        if name in ('get', 'keys', 'values', 'items'):
            return I.libs.dict_method(I, d, name)
        raise Unsupported('attrs.' + name)


class H5Group(H5Node):
    tname = 'h5py.Group'

    def __init__(self, name, parent):
        H5Node.__init__(self, name, parent)
        self.kids = {}

    def names(self):
        return sorted(self.kids)

    def walk(self, I, k, create=False):
        """(group, last name)"""
        if isinstance(k, NpS):
            k = k.src
        if isinstance(k, bytes):
            k = k.decode()
        if not isinstance(k, str):
            if isinstance(k, (SStr, Term)):
                raise Unsupported('HDF5 object of unknown name')
            raise I.exc('TypeError', 'Accessing a group is done with bytes or '
                        'str, not ' + I.type_name(k))
        g = self
        if k.startswith('/'):
            g = self.root()
        parts = [p for p in k.split('/') if p and p != '.']
        if not parts:
            return g, None
        for p in parts[:-1]:
            nx = g.kids.get(p)
            if nx is None:
                if not create:
                    raise I.exc('KeyError', "Unable to open object")
                nx = g.kids[p] = H5Group(p, g)
            if not isinstance(nx, H5Group):
                raise I.exc('KeyError', "Unable to open object")
            g = nx
        return g, parts[-1]

    def sa_getitem(self, I, k):
        self.check(I)
        g, n = self.walk(I, k)
        if n is None:
            return g
        if n not in g.kids:
            raise I.exc('KeyError', "Unable to synchronously open object "
                        "(object '%s' doesn't exist)" % n)
        return g.kids[n]

    def sa_setitem(self, I, k, v):
        if isinstance(v, H5Node):
            raise Unsupported('HDF5 links')
        self.create_dataset(I, k, data=v)

    def sa_delitem(self, I, k):
        self.check(I)
        g, n = self.walk(I, k)
        if n is None or n not in g.kids:
            raise I.exc('KeyError', "Couldn't delete link")
        self.check(I, True)
        g.kids[n].dead = True
        del g.kids[n]

    def sa_contains(self, I, k):
        self.check(I)
        if k is None or isinstance(k, (int, float)):
            raise I.exc('TypeError', 'bad name')
        try:
            g, n = self.walk(I, k)
        except Raised:
            return False
        return n is None or n in g.kids

    def sa_iter(self, I):
        self.check(I)
        return iter(self.names())

    def sa_len(self, I):
        self.check(I)
        return len(self.kids)

    def create_group(self, I, name, *a, **k):
        self.check(I)
        if name is None:
            raise Unsupported('anonymous group')
        if name == '':
            raise I.exc('ValueError', 'Unable to synchronously create group '
                        '(name parameter cannot be an empty string)')
        g, n = self.walk(I, name, True)
        if n is None or n in g.kids:
            raise I.exc('ValueError', 'Unable to synchronously create group '
                        '(name already exists)')
        self.check(I, True)
        g.kids[n] = H5Group(n, g)
        return g.kids[n]

    def create_dataset(self, I, name, shape=None, dtype=None, data=None,
                       **kw):
        self.check(I)
        ds = make_dataset(I, shape, dtype, data, kw)
        if name is None:
            raise Unsupported('anonymous dataset')
        if name == '':
            raise I.exc('ValueError', 'name parameter cannot be an empty '
                        'string')
        g, n = self.walk(I, name, True)
        if n is None or n in g.kids:
            raise I.exc('ValueError', 'Unable to synchronously create dataset '
                        '(name already exists)')
        self.check(I, True)
        ds.nm, ds.par = n, g
        g.kids[n] = ds
        return ds

    def sa_getattr(self, I, name):
        c = self.common(I, name)
        if c is not None:
            return c
        if name == 'create_group':
            return Native(name, self.create_group)
        if name == 'create_dataset':
            return Native(name, self.create_dataset)
        if name in ('require_group',):
            def rg(I, n):
                if self.sa_contains(I, n):
                    r = self.sa_getitem(I, n)
                    if not isinstance(r, H5Group):
                        raise I.exc('TypeError', 'Incompatible object')
                    return r
                return self.create_group(I, n)
            return Native(name, rg)
        if name in ('keys', 'values', 'items'):
            def kv(I):
                self.check(I)
                ns = self.names()
                if name == 'keys':
                    return H5Keys(self)
                if name == 'values':
                    return [self.kids[n] for n in ns]
                return [(n, self.kids[n]) for n in ns]
            return Native(name, kv)
        if name == 'get':
            def get(I, n, default=None, **k):
                if self.sa_contains(I, n):
                    return self.sa_getitem(I, n)
                return default
            return Native(name, get)
        if name == 'pop':
            def pop(I, n, *d):
                if not self.sa_contains(I, n):
                    if d:
                        return d[0]
                    raise I.exc('KeyError', n)
                r = self.sa_getitem(I, n)
                self.sa_delitem(I, n)
                return r
            return Native(name, pop)
        if name == 'clear':
            def clear(I):
                for n in self.names():
                    self.sa_delitem(I, n)
            return Native(name, clear)
        if name == 'move':
            def move(I, a, b):
                self.check(I, True)
                g, n = self.walk(I, a)
                g2, n2 = self.walk(I, b, True)
                if n not in g.kids:
                    raise I.exc('KeyError', a)
                if n2 in g2.kids:
                    raise I.exc('ValueError', 'name already exists')
                x = g.kids.pop(n)
                x.nm, x.par = n2, g2
                g2.kids[n2] = x
            return Native(name, move)
        raise self._na(I, name)

    def _na(self, I, name):
        if name in ('visit', 'visititems', 'copy', 'require_dataset',
                    'create_virtual_dataset', 'build_virtual_dataset',
                    'update', 'setdefault', 'popitem', 'ref', 'regionref',
                    'create_dataset_like', 'track_order'):
            return Unsupported('h5py.Group.' + name)
        return I.no_attr(self, name)

    def copy(self, parent):
        g = H5Group(self.nm, parent)
        g.attrs = dict(self.attrs)
        for n, k in self.kids.items():
            g.kids[n] = k.copy(g)
        return g


class H5Keys(Model):
    tname = 'h5py.KeysView'

    def __init__(self, g):
        self.g = g

    def sa_iter(self, I):
        return iter(self.g.names())

    def sa_len(self, I):
        return len(self.g.kids)

    def sa_contains(self, I, k):
        return self.g.sa_contains(I, k)


class H5File(H5Group):
    tname = 'h5py.File'
    fmt = 'hdf5'

    def __init__(self, path, ent, mode):
        H5Group.__init__(self, '', None)
        self.path, self.ent, self.mode = path, ent, mode
        self.closed = False
        self.handle = self

    def flush(self, I):
        self.check(I)
        if self.mode != 'r':
            I.effect('flush', self.path)
            self.ent.content = H5Snap(self.copy_root())

    def copy_root(self):
        return H5Group.copy(self, None)

    def close(self, I):
        if not self.closed:
            if self.mode != 'r':
                I.effect('close', self.path)
                self.ent.content = H5Snap(self.copy_root())
            self.closed = True

    def sa_enter(self, I):
        return self

    def sa_exit(self, I, *a):
        self.close(I)
        return False

    def sa_getattr(self, I, name):
        if name == 'flush':
            return Native(name, self.flush)
        if name == 'close':
            return Native(name, self.close)
        if name == 'filename':
            return self.path
        if name == 'mode':
            return 'r' if self.mode == 'r' else 'r+'
        return H5Group.sa_getattr(self, I, name)


class H5Snap:
    fmt = 'hdf5'

    def __init__(self, root):
        self.root = root


class H5Dataset(H5Node):
    """kind: 'str' (variable length), 'bytes', 'arr'."""
    tname = 'h5py.Dataset'

    def __init__(self, kind, value, maxshape, chunked):
        H5Node.__init__(self, None, None)
        self.kind, self.value = kind, value
        self.maxshape, self.chunked = maxshape, chunked

    def copy(self, parent):
        v = self.value
        if isinstance(v, Arr):
            v = Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
        d = H5Dataset(self.kind, v, self.maxshape, self.chunked)
        d.nm, d.par, d.attrs = self.nm, parent, dict(self.attrs)
        return d

    def shape(self):
        return self.value.shape if self.kind == 'arr' else ()

    def sa_getitem(self, I, k):
        self.check(I)
        full = k is Ellipsis or (isinstance(k, tuple) and k == ())
        if self.kind == 'str':
            if not full:
                raise I.exc('ValueError', 'Illegal slicing argument for '
                            'scalar dataspace')
            b = I.call_method(self.value, 'encode', ['utf-8'])
            if k is Ellipsis:
                return Arr(Buf(('el', (b,))), OBJ, ())
            return b
        if self.kind == 'bytes':
            return Term('cstr', (self.value,), 'bytes') if not isinstance(
                self.value, bytes) else self.value
        v = self.value
        if v.shape == () and not full:
            raise I.exc('ValueError', 'Illegal slicing argument for scalar '
                        'dataspace')
        r = I.libs.np_getitem(I, v, k)
        if isinstance(r, Arr):
            r = Arr(Buf(r.buf.content), r.dtype, r.shape, r.meta)
        return r

    def sa_setitem(self, I, k, v):
        self.check(I)
        full = k is Ellipsis or (isinstance(k, tuple) and k == ())
        if self.kind in ('str', 'bytes'):
            self.check(I, True)
            if isinstance(v, NpS):
                v = v.src
            if I.is_strlike(v):
                self.value = v
            elif I.type_name(v) == 'bytes':
                self.value = I.call_method(v, 'decode', [])
            else:
                self.value = I.str_(v)
            return
        if v is None or isinstance(v, (Obj, DateV, dict)):
            raise I.exc('TypeError', 'Object dtype has no native HDF5 '
                        'equivalent')
        a = self.value
        if a.dtype.kind in 'VS' and full:
            self.check(I, True)
            src = v.src if isinstance(v, NpS) else v
            if isinstance(v, NpS) and v.dtype.itemsize == a.dtype.itemsize \
                    and v.dtype.kind == a.dtype.kind:
                a.buf.content = ('el', (src,))
            else:
                a.buf.content = ('el', (Term('resized', (
                    frz(src), a.dtype), 'bytes'),))
            return
        if isinstance(v, (str, SStr)) or (isinstance(v, Term)
                                          and v.ty in ('str', 'bytes')):
            self.check(I, True)
            a.buf.content = ('full', Term('garbage', (v,), 'object'))
            return
        self.check(I, True)
        if isinstance(v, (Arr, list, tuple)) and full:
            w = v if isinstance(v, Arr) else I.libs.np_array(I, v)
            if w.shape != a.shape and w.shape != ():
                if len(w.shape) == len(a.shape) and all(
                        I.truth(I.compare('==', x, y))
                        for x, y in zip(w.shape, a.shape)):
                    pass
                else:
                    raise I.exc('TypeError', "Can't broadcast")
                w = Arr(w.buf, w.dtype, a.shape)
            v = w
        I.libs.np_setitem(I, a, k, v)

    def sa_array(self, I):
        if self.kind != 'arr':
            return Arr(Buf(('el', (self.sa_getitem(I, ()),))), OBJ, ())
        return self.sa_getitem(I, Ellipsis)

    def sa_len(self, I):
        if not self.shape():
            raise I.exc('TypeError', 'Attempt to take len() of scalar '
                        'dataset')
        return self.shape()[0]

    def sa_iter(self, I):
        return I.iter_(self.sa_array(I))

    def resize(self, I, size, axis=None):
        self.check(I)
        if not self.chunked:
            raise I.exc('TypeError', 'Only chunked datasets can be resized')
        shape = list(self.shape())
        if axis is not None:
            shape[axis] = size
        else:
            shape = list(size) if isinstance(size, (tuple, list)) else [size]
        if len(shape) != len(self.shape()):
            raise I.exc('TypeError', 'New shape length must be the same')
        for n, m in zip(shape, self.maxshape):
            if m is not None and I.truth(I.compare('>', n, m)):
                raise I.exc('RuntimeError', 'dimension cannot exceed the '
                            'existing maximal size')
        self.check(I, True)
        a = self.value
        if tuple(shape) != a.shape:
            c = a.buf.content
            if c[0] == 'el' and a.dtype.kind in 'biufc' and all(
                    isinstance(s, int) for s in tuple(shape) + a.shape):
                import itertools
                es = []
                for idx in itertools.product(*map(range, shape)):
                    if all(i < s for i, s in zip(idx, a.shape)):
                        p = 0
                        for i, s in zip(idx, a.shape):
                            p = p * s + i
                        es.append(c[1][p])
                    else:
                        es.append(I.libs.conv(I, 0, a.dtype))
                a.buf.content = ('el', tuple(es))
            else:
                a.buf.content = ('resized', content_frz(a), a.shape,
                                 tuple(shape))
            a.shape = tuple(shape)

    def sa_getattr(self, I, name):
        c = self.common(I, name)
        if c is not None:
            return c
        L = I.libs
        if name == 'shape':
            return self.shape()
        if name == 'ndim':
            return len(self.shape())
        if name == 'size':
            return prod(self.shape())
        if name == 'dtype':
            return self.value.dtype if self.kind == 'arr' else OBJ
        if name == 'maxshape':
            return self.maxshape if self.maxshape is not None \
                else self.shape()
        if name == 'chunks':
            return Unk('chunks') if self.chunked else None
        if name == 'resize':
            return Native(name, self.resize)
        if name == 'len':
            return Native(name, self.sa_len)
        if name == 'asstr':
            def asstr(I, *a, **k):
                if self.kind != 'str':
                    raise I.exc('TypeError', 'dset.asstr() can only be used '
                                'on datasets with an HDF5 string datatype')
                return AsStr(self)
            return Native(name, asstr)
        if name == 'flush':
            return Native(name, lambda I: None)
        if name in ('astype', 'fields', 'read_direct', 'write_direct',
                    'iter_chunks', 'make_scale', 'dims', 'compression',
                    'fillvalue', 'nbytes', 'is_virtual', 'ref', 'scaleoffset',
                    'shuffle', 'refresh'):
            raise Unsupported('h5py.Dataset.' + name)
        raise I.no_attr(self, name)


class AsStr(Model):
    tname = 'AsStr'

    def __init__(self, ds):
        self.ds = ds

    def sa_getitem(self, I, k):
        self.ds.check(I)
        return self.ds.value


def make_dataset(I, shape, dtype, data, kw):
    L = I.libs
    maxshape = kw.pop('maxshape', None)
    chunks = kw.pop('chunks', None)
    kw.pop('track_times', None)
    compression = kw.pop('compression', None)
    kw.pop('compression_opts', None)
    fill = kw.pop('fillvalue', None)
    if kw:
        raise Unsupported('create_dataset(%s)' % ', '.join(kw))
    if isinstance(data, H5Dataset):
        data = data.sa_array(I)
    if data is None:
        if shape is None:
            raise I.exc('TypeError', 'One of data, shape or dtype must be '
                        'specified')
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        d = L.parse_dtype(I, dtype) if dtype is not None else dt('float32')
        v = Arr(Buf(('full', fill if fill is not None else 0)), d,
                tuple(shape))
    elif dtype is None or (isinstance(dtype, DType) and dtype.kind == 'O'):
        if isinstance(data, (str, SStr)) or (isinstance(data, Term)
                                             and data.ty == 'str'):
            if maxshape not in (None, ()):
                raise I.exc('TypeError', 'Scalar datasets cannot be extended')
            return H5Dataset('str', data, None, False)
        if isinstance(data, bytes) or (isinstance(data, Term)
                                       and data.ty == 'bytes'):
            return H5Dataset('bytes', data, None, False)
        if isinstance(data, NpS):
            if data.dtype.kind == 'U':
                raise I.exc('TypeError', 'No conversion path for dtype <U')
            if data.dtype.kind == 'V':
                if not I.truth(data.src):
                    raise I.exc('ValueError', 'Size must be positive')
            v = Arr(Buf(('el', (data.src,))), data.dtype, ())
        else:
            v = data if isinstance(data, Arr) else L.np_array(I, data)
            if v.dtype.kind == 'O':
                raise I.exc('TypeError', "Object dtype dtype('O') has no "
                            "native HDF5 equivalent")
            if v.dtype.kind == 'U':
                raise I.exc('TypeError', 'No conversion path for dtype <U')
            v = Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
    else:
        d = L.parse_dtype(I, dtype)
        if d.kind == 'U':
            raise I.exc('TypeError', 'No conversion path for dtype <U')
        if isinstance(data, NpS) and d.kind in 'biufc':
            v = Arr(Buf(('el', (L.conv(I, data, d),))), d, ())
        elif isinstance(data, Arr):
            v = L.astype(I, data, d)
        else:
            v = L.np_array(I, data, d)
            if isinstance(v, NpS):
                v = Arr(Buf(('el', (v.src,))), v.dtype, ())
    v = Arr(Buf(v.buf.content), v.dtype, v.shape, v.meta)
    if shape is not None and tuple(shape) != v.shape:
        v = L.reshape(I, v, tuple(shape))
    chunked = False
    if maxshape is True:
        maxshape = (None,) * len(v.shape)
    if maxshape is not None:
        if not isinstance(maxshape, (tuple, list)):
            maxshape = (maxshape,)
        maxshape = tuple(maxshape)
        if v.shape == ():
            if maxshape:
                raise I.exc('TypeError', 'Scalar datasets cannot be extended')
        else:
            if len(maxshape) != len(v.shape):
                raise I.exc('ValueError', "'maxshape' must have same rank as "
                            "dataset shape")
            for n, m in zip(v.shape, maxshape):
                if m is not None and I.truth(I.compare('>', n, m)):
                    raise I.exc('ValueError', 'Maxdims is smaller than dims')
            chunked = True
    if v.shape == () and (chunks or compression):
        raise I.exc('TypeError', "Scalar datasets don't support chunk/filter "
                    "options")
    if chunks or compression:
        chunked = True
        if maxshape is None:
            maxshape = v.shape
    return H5Dataset('arr', v, maxshape, chunked)


# ---------------------------------------------------------------- npz files
class NpzFile(Model):
    tname = 'np.lib.npyio.NpzFile'

    def __init__(self, content, allow_pickle):
        self.c, self.allow = content, allow_pickle
        self.closed = False

    def keys_(self):
        return list(self.c.arrays)

    def sa_enter(self, I):
        return self

    def sa_exit(self, I, *a):
        self.closed = True
        return False

    def sa_getitem(self, I, k):
        if self.closed:
            raise I.exc('AttributeError', "'NoneType' object has no attribute "
                        "'open'")
        if isinstance(k, NpS):
            k = k.src
        if isinstance(k, str) and k.endswith('.npy') and \
                k not in self.c.arrays:
            k = k[:-4]
        if k not in self.c.arrays:
            raise I.exc('KeyError', '%s is not a file in the archive' % (k,))
        a = self.c.arrays[k]
        if a.dtype.kind == 'O' and not self.allow:
            raise I.exc('ValueError', 'Object arrays cannot be loaded when '
                        'allow_pickle=False')
        return Arr(Buf(a.buf.content), a.dtype, a.shape, a.meta)

    def sa_contains(self, I, k):
        return k in self.c.arrays or (isinstance(k, str) and k.endswith(
            '.npy') and k[:-4] in self.c.arrays)

    def sa_iter(self, I):
        return iter(self.keys_())

    def sa_len(self, I):
        return len(self.c.arrays)

    def sa_getattr(self, I, name):
        if name == 'files':
            return self.keys_()
        if name == 'keys':
            return Native(name, lambda I: self.keys_())
        if name in ('items', 'values', 'iteritems'):
            def it(I):
                for k in self.keys_():
                    v = self.sa_getitem(I, k)
                    yield (k, v) if name != 'values' else v
            return Native(name, lambda I: IterVal(it(I)))
        if name == 'get':
            return Native(name, lambda I, k, d=None: self.sa_getitem(I, k)
                          if self.sa_contains(I, k) else d)
        if name == 'close':
            def close(I):
                self.closed = True
            return Native(name, close)
        raise Unsupported('NpzFile.' + name)


class IOMixin:

    # ---------------------------------------------------------------- paths
    def path_str(self, I, p):
        """The text of a path (os.fspath)."""
        if isinstance(p, PathVal):
            return p.p
        if isinstance(p, NpS) and p.dtype.kind == 'U':
            p = p.src
        if isinstance(p, (str, SStr)) or (isinstance(p, Term)
                                          and p.ty == 'str'):
            return p
        if isinstance(p, (Unk,)) or (isinstance(p, Term)
                                     and p.ty == 'object'):
            raise Unsupported('unknown path')
        raise I.exc('TypeError', 'expected str, bytes or os.PathLike object, '
                    'not ' + I.type_name(p))

    def path_key(self, I, p):
        """What identifies the file: './f', 'f', './/f' and the absolute form
        of 'f' are the same file ('d/../f' need not be)."""
        import re
        parts = []
        for x in str_parts(self.path_str(I, p)):
            if isinstance(x, Term) and x.op in ('path-abs', 'path-norm',
                                                'path-user', 'path-vars'):
                parts += list(str_parts(self.path_key(I, x.args[0])))
            else:
                parts.append(x)
        p = sstr(parts)
        parts = list(str_parts(p))
        if parts and parts[0] == CWD and len(parts) > 1 and isinstance(
                parts[1], str) and parts[1].startswith('/'):
            p = sstr([parts[1].lstrip('/')] + parts[2:])
            parts = list(str_parts(p))
        out = []
        for i, x in enumerate(parts):
            if isinstance(x, str):
                x = re.sub('//+', '/', x)
                while '/./' in x:
                    x = x.replace('/./', '/')
                while i == 0 and x.startswith('./') and len(x) > 2:
                    x = x[2:]
            out.append(x)
        return sstr(out)

    def norm_path(self, I, p, how):
        """abspath, normpath, expanduser, expandvars"""
        import posixpath
        p = self.path_str(I, p)
        parts = list(str_parts(p))
        if not parts:
            return CWD if how == 'abs' else ('.' if how == 'norm' else p)
        first, rest = parts[0], parts[1:]
        if how == 'vars':
            return sstr([x if isinstance(x, str) and '$' not in x else Term(
                'path-vars', (x,), 'str', truth=True) if not isinstance(
                    x, str) else Term('expanded', (x,), 'str', truth=True)
                for x in parts])
        if how == 'user':
            if not isinstance(first, str):
                return sstr([Term('path-user', (first,), 'str', truth=True)]
                            + rest)
            if first.startswith('~'):
                h, sep, t = first.partition('/')
                return sstr([Term('home', (h,), 'str', truth=True), sep + t]
                            + rest)
            return p
        if isinstance(p, str):
            n = posixpath.normpath(p)
            if how == 'abs' and not n.startswith('/'):
                if n.startswith('..'):
                    return Term('abspath', (p,), 'str', truth=True)
                return CWD if n == '.' else sstr([CWD, '/', n])
            return n
        if any(isinstance(x, str) and ('/../' in x or x.endswith('/..')
                                       or x.startswith('../'))
               for x in parts):
            return Term('abspath', (p,), 'str', truth=True)
        key = list(str_parts(self.path_key(I, p)))
        if isinstance(first, str):
            if how == 'abs' and not first.startswith('/'):
                return sstr([CWD, '/'] + key)
            return sstr(key)
        if first == CWD:
            return p
        return sstr([Term('path-' + how, (first,), 'str', truth=True)]
                    + key[1:])

    def lookup_file(self, I, p):
        return I.fs.files.get(self.path_key(I, p))

    def exists(self, I, p, *a, **k):
        p = self.path_key(I, p)
        I.effect('stat', p)
        return p in I.fs.files or p in I.fs.dirs

    def isfile(self, I, p):
        p = self.path_key(I, p)
        return p in I.fs.files

    def isdir(self, I, p):
        p = self.path_key(I, p)
        return p in I.fs.dirs

    def splitext(self, I, p):
        p = self.path_str(I, p)
        if isinstance(p, str):
            import os.path
            return os.path.splitext(p)
        parts = list(str_parts(p))
        last = parts[-1]
        if isinstance(last, str):
            base = last.rpartition('/')[2] if '/' in last else last
            if '.' in base:
                i = base.rindex('.')
                head = base[:i]
                if '/' in last and not head.strip('.'):
                    return (p, '')
                n = len(base) - i
                return (sstr(parts[:-1] + [last[:-n]]), base[i:])
            if '/' in last:
                return (p, '')
        if I.choose_bool(('hasext', p), 'extension of %r' % (p,)):
            return (Term('stem', (p,), 'str'),
                    sstr(['.', Term('ext', (p,), 'str')]))
        return (p, '')

    def basename(self, I, p):
        p = self.path_str(I, p)
        parts = list(str_parts(p))
        for i in range(len(parts) - 1, -1, -1):
            if isinstance(parts[i], str) and '/' in parts[i]:
                return sstr([parts[i].rpartition('/')[2]] + parts[i + 1:])
        if isinstance(p, str):
            return p
        # the known end without a separator belongs to the name
        n = len(parts)
        while n and isinstance(parts[n - 1], str):
            n -= 1
        return sstr([Term('basename', (sstr(parts[:n]),), 'str',
                          truth=True if n == len(parts) else None)]
                    + parts[n:])

    def dirname(self, I, p):
        p = self.path_str(I, p)
        parts = list(str_parts(p))
        for i in range(len(parts) - 1, -1, -1):
            if isinstance(parts[i], str) and '/' in parts[i]:
                return sstr(parts[:i] + [parts[i].rpartition('/')[0]])
        if isinstance(p, str):
            return ''
        return Term('dirname', (p,), 'str')

    def remove(self, I, p, missing_ok=False):
        p = self.path_key(I, p)
        if p not in I.fs.files:
            if missing_ok:
                return None
            raise I.exc('FileNotFoundError', 2, 'No such file', p)
        I.effect('delete', p)
        del I.fs.files[p]

    def rename(self, I, a, b, *x, **k):
        a, b = self.path_key(I, a), self.path_key(I, b)
        if a not in I.fs.files:
            raise I.exc('FileNotFoundError', 2, 'No such file', a)
        I.effect('delete', a)
        I.effect('write' if b in I.fs.files else 'create', b)
        I.fs.files[b] = I.fs.files.pop(a)

    def copyfile(self, I, a, b, *x, **k):
        a, b = self.path_key(I, a), self.path_key(I, b)
        if a not in I.fs.files:
            raise I.exc('FileNotFoundError', 2, 'No such file', a)
        I.effect('read', a)
        I.effect('write' if b in I.fs.files else 'create', b)
        I.fs.files[b] = FileEnt(I.fs.files[a].content)
        return b

    def open_(self, I, path, mode='r', *a, **k):
        if isinstance(path, Model) and not isinstance(path, PathVal):
            raise I.exc('TypeError', 'expected str, bytes or os.PathLike')
        p = self.path_key(I, path)
        ent = I.fs.files.get(p)
        if p in I.fs.dirs:
            raise I.exc('IsADirectoryError', 21, 'Is a directory', p)
        if 'x' in mode:
            if ent is not None:
                raise I.exc('FileExistsError', 17, 'File exists', p)
        if 'r' in mode and ent is None:
            raise I.exc('FileNotFoundError', 2, 'No such file', p)
        if ent is None:
            ent = I.fs.files[p] = FileEnt(DataContent())
            I.effect('create', p)
        elif 'w' in mode:
            I.effect('write', p)
            ent.content = DataContent()
        return FileHandle(p, ent, mode)

    def nullcm(self):
        return NullCM()

    def target(self, I, file_, suffix=None):
        """Open a path or take a file handle for writing a whole file."""
        if isinstance(file_, (FileHandle, BytesIO)):
            if file_.closed:
                raise I.exc('ValueError', 'I/O operation on closed file')
            if not set(file_.mode) & set('wxa+'):
                raise I.exc('OSError', 'not writable')
            if file_.path is not None:
                I.effect('write', file_.path)
            return file_.ent
        p = self.path_key(I, file_)
        if suffix and not self.str_endswith(I, p, suffix):
            p = sstr([p, suffix])
        ent = I.fs.files.get(p)
        if ent is None:
            ent = I.fs.files[p] = FileEnt()
            I.effect('create', p)
        I.effect('write', p)
        ent.content = DataContent()
        return ent

    def source(self, I, file_):
        if isinstance(file_, (FileHandle, BytesIO)):
            return file_.ent
        p = self.path_key(I, file_)
        ent = I.fs.files.get(p)
        if ent is None:
            raise I.exc('FileNotFoundError', 2, 'No such file', p)
        I.effect('read', p)
        return ent

    # ------------------------------------------------------------------ npz
    def np_savez(self, I, file_, *args, allow_pickle=True, **kw):
        d = dict(kw)
        for i, a in enumerate(args):
            n = 'arr_%d' % i
            if n in d:
                raise I.exc('ValueError', 'Cannot use un-named variables and '
                            'keyword ' + n)
            d[n] = a
        ent = self.target(I, file_, '.npz')
        arrs = {}
        for k, v in d.items():
            a = self.np_array(I, v) if not isinstance(v, Arr) else v
            if a.dtype.kind == 'O' and not allow_pickle:
                raise I.exc('ValueError', 'Object arrays cannot be saved when '
                            'allow_pickle=False')
            arrs[k] = Arr(Buf(a.buf.content), a.dtype, a.shape, a.meta)
        ent.content = NpzContent(arrs)

    def np_save(self, I, file_, arr, *a, **k):
        raise Unsupported('np.save')

    def np_load(self, I, file_, mmap_mode=None, allow_pickle=False, **k):
        ent = self.source(I, file_)
        if isinstance(ent.content, NpzContent):
            return NpzFile(ent.content, allow_pickle)
        raise I.exc('ValueError', 'Cannot load file containing pickled data '
                    'when allow_pickle=False')

    # ------------------------------------------------------------------ mat
    def mat_tree(self, I, v, oned):
        if isinstance(v, NpS):
            v = self.np_array(I, v)
        if isinstance(v, Model) and hasattr(v, 'sa_array'):
            v = v.sa_array(I)
        if v is None:
            raise I.exc('TypeError', 'Could not convert None to array')
        if isinstance(v, StructRec):
            v = dict(v.fields)
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                if not isinstance(k, str) or k[:1] in '_0123456789':
                    continue
                out[k] = self.mat_tree(I, x, oned)
            for k in out:
                if len(k) > 31:
                    raise I.exc('ValueError', 'Field names are restricted to '
                                '31 characters')
            return ('struct', out)
        if isinstance(v, (DateV, Obj, FuncVal, ClassVal)):
            if isinstance(v, Obj):
                raise Unsupported('savemat of an object')
            raise I.exc('TypeError', 'Could not convert to array')
        if not isinstance(v, Arr):
            v = self.np_array(I, v)
        if v.dtype.sub and v.dtype.sub[0] == 'fields':
            if prod(v.shape) != 1:
                raise Unsupported('struct array')
            return self.mat_tree(I, v.buf.content[1][0], oned)
        if v.dtype.kind == 'O':
            c = v.buf.content
            if v.shape == ():
                return self.mat_tree(I, c[1][0], oned)
            if c[0] != 'el':
                raise Unsupported('savemat of unknown object array')
            return ('cell', self._mdims(I, v.shape, oned),
                    [self.mat_tree(I, x, oned) for x in c[1]])
        if v.dtype.kind == 'U':
            c = v.buf.content
            if v.shape == () and c[0] == 'el':
                return ('char', c[1][0])
            if v.shape == (1,) and c[0] == 'el':
                return ('char', c[1][0])
            if v.shape == (0,):
                return ('char', '')
            return ('chars', frz(v), v.shape)
        if v.dtype.kind == 'S':
            return ('chars', frz(v), v.shape)
        if v.dtype.kind == 'V':
            raise Unsupported('savemat of void data')
        d = v.dtype
        if d.kind == 'b':
            t = UINT8
        elif d == dt('float16'):
            t = FLOAT64
        else:
            t = native(d)
        w = self.astype(I, v, t)
        return ('num', w.buf.content, t, self._mdims(I, v.shape, oned))

    def _mdims(self, I, shape, oned):
        if shape == ():
            return (1, 1)
        if len(shape) == 1:
            n = shape[0]
            if not I.truth(n):
                return (0, 0)
            return (1, n) if oned == 'row' else (n, 1)
        return shape

    def savemat(self, I, file_, mdict, appendmat=True, format='5',
                long_field_names=False, do_compression=False, oned_as='row'):
        ent = self.target(I, file_)
        trees = {}
        items = list(I.iter_(I.call_method(mdict, 'items', [])))
        ent.content = MatContent(trees)
        for k, v in items:
            if k[:1] == '_':
                continue
            trees[k] = self.mat_tree(I, v, oned_as)
        return None

    def mat_value(self, I, t, opts):
        sq = opts.get('squeeze_me', False)
        k = t[0]
        if k == 'num':
            r = Arr(Buf(t[1]), t[2], t[3], owner=False)
        elif k == 'char':
            s = t[1]
            if s == '' or not I.truth(s):
                r = Arr(Buf(('el', ())), str_dtype('U', 1), (0,),
                        owner=False)
            else:
                r = Arr(Buf(('el', (s,))), str_dtype(
                    'U', len(s) if isinstance(s, str) else '?'), (1,),
                    owner=False)
        elif k == 'chars':
            n = t[2]
            if n and isinstance(n[0], int) and n[0] <= 8 and len(n) == 1:
                r = Arr(Buf(('el', tuple(Term('paddedchar', (t[1], i), 'str')
                                         for i in range(n[0])))),
                        str_dtype('U', 1), n, owner=False)
            else:
                r = Arr(Buf(('f', 'chars', t[1])), str_dtype('U', 1), n,
                        owner=False)
        elif k == 'cell':
            r = Arr(Buf(('el', tuple(self.mat_value(I, x, opts)
                                     for x in t[2]))), OBJ, t[1],
                    owner=False)
        else:
            if not t[1]:
                r = Arr(Buf(('el', (None,))), OBJ, (1, 1), owner=False)
            else:
                f = {n: self.mat_value(I, x, opts) for n, x in t[1].items()}
                if opts.get('struct_as_record') is False:
                    raise Unsupported('struct_as_record=False')
                r = Arr(Buf(('el', (StructRec(f),))), struct_dtype(f), (1, 1),
                        owner=False)
        if sq:
            n = prod(r.shape)
            if n == 0 and isinstance(n, int):
                return Arr(Buf(('el', ())), r.dtype, (0,))
            shape = []
            for s in r.shape:
                if isinstance(s, int):
                    if s != 1:
                        shape.append(s)
                elif not I.truth(I.compare('==', s, 1)):
                    shape.append(s)
            r = self._view(r, tuple(shape))
            if not shape and r.dtype.kind in 'biufcO':
                return self.np_item(I, r)
        return r

    def loadmat(self, I, file_, mdict=None, appendmat=True, **opts):
        if opts.get('simplify_cells') or opts.get('mat_dtype') or \
                opts.get('chars_as_strings') is False:
            raise Unsupported('loadmat options')
        try:
            ent = self.source(I, file_)
        except Raised:
            if not appendmat or isinstance(file_, Model) or \
                    self.str_endswith(I, self.path_key(I, file_), '.mat'):
                raise
            ent = self.source(I, sstr([self.path_key(I, file_), '.mat']))
        if not isinstance(ent.content, MatContent):
            raise I.exc('ValueError', 'Unknown mat file type')
        out = {} if mdict is None else mdict
        out['__header__'] = Term('matheader', (), 'bytes', truth=True)
        out['__version__'] = '1.0'
        out['__globals__'] = []
        names = opts.get('variable_names')
        for k, t in ent.content.trees.items():
            if names is not None and k not in (
                    [names] if isinstance(names, str) else names):
                continue
            out[k] = self.mat_value(I, t, opts)
        return out

    # ----------------------------------------------------------------- hdf5
    def c_h5py_File(self, I, name, mode='r', *a, **k):
        p = self.path_key(I, name)
        ent = I.fs.files.get(p)
        if mode in ('x', 'w-'):
            if ent is not None:
                raise I.exc('FileExistsError', 17, 'Unable to synchronously '
                            'create file', p)
        elif mode in ('r', 'r+'):
            if ent is None:
                raise I.exc('FileNotFoundError', 2, 'Unable to synchronously '
                            'open file', p)
        elif mode not in ('w', 'a'):
            raise I.exc('ValueError', 'Invalid mode')
        if mode in ('r', 'r+') or (mode == 'a' and ent is not None):
            I.effect('read', p)
            if getattr(ent.content, 'fmt', None) != 'hdf5':
                raise I.exc('OSError', 'Unable to synchronously open file '
                            '(file signature not found)')
            f = H5File(p, ent, 'r' if mode == 'r' else 'r+')
            r = ent.content.root
            f.attrs = dict(r.attrs)
            for n, kid in r.kids.items():
                f.kids[n] = kid.copy(f)
            return f
        if ent is None:
            ent = I.fs.files[p] = FileEnt()
            I.effect('create', p)
        else:
            I.effect('write', p)
        f = H5File(p, ent, 'r+')
        ent.content = H5Snap(f.copy_root())
        return f

    def mod_h5py(self, I):
        ns = {'File': BType('h5py.File'), 'Group': BType('h5py.Group'),
              'Dataset': BType('h5py.Dataset'), '__version__': '3.16.0'}
        ns['version'] = ModuleVal('h5py.version', {
            'version': '3.16.0'}, native=True)
        sd = DType('object', 'O', 8, '=', ('vlen',))
        ns['string_dtype'] = Native('h5py.string_dtype', lambda I, *a, **k:
                                    sd)
        ns['special_dtype'] = Native('h5py.special_dtype', lambda I, **k: sd)
        return ModuleVal('h5py', ns, native=True)

    def mod_scipy_io(self, I):
        return ModuleVal('scipy.io', {
            'savemat': Native('scipy.io.savemat', self.savemat),
            'loadmat': Native('scipy.io.loadmat', self.loadmat)},
            native=True)

    def mod_scipy(self, I):
        return ModuleVal('scipy', {'io': I.import_module('scipy.io')},
                         native=True)

    # ------------------------------------------------------------------- os
    def mod_os_path(self, I):
        L = self
        ns = {'sep': '/', 'extsep': '.', 'pardir': '..', 'curdir': '.'}

        def reg(n, fn):
            ns[n] = Native('os.path.' + n, fn)
        reg('exists', L.exists)
        reg('lexists', L.exists)
        reg('isfile', L.isfile)
        reg('isdir', L.isdir)
        reg('islink', lambda I, p: L.path_key(I, p) in I.fs.links)
        reg('isabs', lambda I, p: I.truth(I.call_method(p, 'startswith',
                                                        ['/'])))
        reg('splitext', L.splitext)
        reg('basename', L.basename)
        reg('dirname', L.dirname)
        for n, how in (('abspath', 'abs'), ('normpath', 'norm'),
                       ('realpath', 'abs'), ('expanduser', 'user'),
                       ('expandvars', 'vars')):
            reg(n, lambda I, p, how=how, **k: L.norm_path(I, p, how))
        reg('normcase', L.path_str)

        def join(I, a, *bs):
            out = L.path_str(I, a)
            for b in bs:
                b = L.path_str(I, b)
                if isinstance(b, str) and b.startswith('/'):
                    out = b
                elif out == '' or (isinstance(out, str)
                                   and out.endswith('/')):
                    out = sstr([out, b])
                else:
                    out = sstr([out, '/', b])
            return out
        reg('join', join)
        reg('split', lambda I, p: (L.dirname(I, p), L.basename(I, p)))

        def getsize(I, p):
            if L.lookup_file(I, p) is None:
                raise I.exc('FileNotFoundError', 2, 'No such file', p)
            content = L.lookup_file(I, p).content
            if 'stamp' not in content.__dict__:
                content.stamp = I.new_label('stamp')
            return Term('stat', (content.stamp,), 'int', truth=True)
        reg('getsize', getsize)
        reg('getmtime', getsize)
        reg('samefile', lambda I, a, b: L.path_key(I, a) == L.path_key(I, b))
        return ModuleVal('os.path', ns, native=True)

    def mod_os(self, I):
        L = self
        ns = {'path': I.import_module('os.path'), 'sep': '/', 'name': 'posix',
              'linesep': '\n', 'extsep': '.',
              'environ': {}, 'PathLike': BType('os.PathLike'),
              'F_OK': 0, 'R_OK': 4, 'W_OK': 2}

        def reg(n, fn):
            ns[n] = Native('os.' + n, fn)
        reg('fspath', L.path_str)
        reg('remove', lambda I, p: L.remove(I, p))
        reg('unlink', lambda I, p: L.remove(I, p))
        reg('rename', L.rename)
        reg('replace', L.rename)
        reg('getcwd', lambda I: CWD)
        reg('getpid', lambda I: Term('pid', (), 'int', truth=True))
        reg('fsync', lambda I, f: None)
        reg('access', lambda I, p, m: L.exists(I, p))
        reg('getenv', lambda I, k, d=None: d)

        def mkdir(I, p, *a, **k):
            p = L.path_key(I, p)
            I.effect('mkdir', p)
            I.fs.dirs.add(p)
        reg('mkdir', mkdir)
        reg('makedirs', mkdir)

        def stat(I, p):
            if L.lookup_file(I, p) is None:
                raise I.exc('FileNotFoundError', 2, 'No such file', p)
            return Unk('stat')
        reg('stat', stat)
        reg('listdir', lambda I, p='.': self._listdir(I, p))
        return ModuleVal('os', ns, native=True)

    def _listdir(self, I, p):
        p = self.path_key(I, p)
        out = []
        for f in I.fs.files:
            if self.dirname(I, f) == p:
                out.append(self.basename(I, f))
        pre = p if isinstance(p, str) else None
        if pre:
            for n, (file, _) in I.sources.items():
                import os
                if os.path.dirname(file) == pre:
                    out.append(os.path.basename(file))
        return out

    def mod_pathlib(self, I):
        ns = {n: BType('pathlib.' + n) for n in (
            'Path', 'PurePath', 'PosixPath', 'PurePosixPath')}
        return ModuleVal('pathlib', ns, native=True)

    def c_pathlib_Path(self, I, *a):
        return PathVal(I.call(I.getattr_(I.import_module('os.path'), 'join'),
                              [self.path_str(I, x) for x in a] or ['.']))

    c_pathlib_PurePath = c_pathlib_PosixPath = c_pathlib_Path
    c_pathlib_PurePosixPath = c_pathlib_Path

    def mod_shutil(self, I):
        ns = {}
        for n in ('copy', 'copy2', 'copyfile'):
            ns[n] = Native('shutil.' + n, self.copyfile)
        ns['move'] = Native('shutil.move', self.rename)
        return ModuleVal('shutil', ns, native=True)

    def mod_io(self, I):
        return ModuleVal('io', {
            'BytesIO': Native('io.BytesIO', lambda I, *a: BytesIO(I, *a)),
            'open': Native('open', self.open_)}, native=True)


from .lib_misc import DateV          # noqa: E402  (cycle)
