"""In-memory model of the part of h5py and pathlib that file handling code uses (h5py 3 semantics)."""
import os.path
import types
import numpy as np
from . import sym
from .sym import Sym, SymInt, Poison, Unsupported


class Node:
    def __init__(self):
        self.attrs = {}


class GroupNode(Node):
    def __init__(self):
        Node.__init__(self)
        self.items = {}


class DataNode(Node):
    def __init__(self, arr, dtype, maxshape, scalar_string=None):
        Node.__init__(self)
        self.arr = arr
        self.dtype = dtype
        self.maxshape = maxshape
        self.string = scalar_string


def _issymarr(a):
    return isinstance(a, np.ndarray) and a.dtype == object and any(isinstance(x, (Sym, Poison, SymInt)) for x in a.reshape(-1))


def _hassym(v):
    if isinstance(v, (Sym, Poison, SymInt)):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object
    if isinstance(v, (list, tuple)):
        return any(_hassym(x) for x in v)
    return False


def _attrval(v):
    if isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (SymInt, Sym, Poison)):
        return v
    if isinstance(v, (list, tuple)) and any(isinstance(x, (SymInt, Sym)) for x in v):
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x
        return a
    if v is None or isinstance(v, dict):
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if isinstance(v, np.ndarray) and v.dtype == object:
        if all(isinstance(x, (str, bytes, Sym, SymInt, Poison)) for x in v.reshape(-1)):
            return v.copy()
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    a = np.array(v)
    if a.dtype == object:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if a.dtype.kind == 'U':
        if a.ndim == 0:
            return str(a)
        return a.astype(object)
    return a[()] if a.ndim == 0 else a


class Attrs:
    def __init__(self, node, file):
        self._n = node
        self._f = file

    def __setitem__(self, k, v):
        self._f._w()
        self._n.attrs[k] = _attrval(v)

    create = lambda self, name, data, shape=None, dtype=None: self.__setitem__(name, data)
    modify = __setitem__

    def __getitem__(self, k):
        self._f._r()
        if k not in self._n.attrs:
            raise KeyError("Unable to synchronously open attribute (can't locate attribute: %r)" % k)
        v = self._n.attrs[k]
        return v.copy() if isinstance(v, np.ndarray) else v

    def __delitem__(self, k):
        self._f._w()
        del self._n.attrs[k]

    def __contains__(self, k):
        self._f._r()
        return k in self._n.attrs

    def __iter__(self):
        return iter(sorted(self._n.attrs))

    def __len__(self):
        return len(self._n.attrs)

    def keys(self):
        return sorted(self._n.attrs)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def update(self, d):
        for k, v in dict(d).items():
            self[k] = v


class Group:
    def __init__(self, node, file, name='/'):
        self._n = node
        self.file = file
        self.name = name

    @property
    def attrs(self):
        return Attrs(self._n, self.file)

    def _walk(self, name, create=False):
        node = self._n
        if not isinstance(name, str):
            raise TypeError('Accessing a group is done with bytes or str, not %s' % type(name))
        parts = [p for p in name.split('/') if p]
        if name.startswith('/'):
            node = self.file._root
        for p in parts[:-1]:
            if p not in node.items:
                if not create:
                    raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % p)
                node.items[p] = GroupNode()
            node = node.items[p]
            if not isinstance(node, GroupNode):
                raise KeyError('not a group')
        return node, (parts[-1] if parts else None)

    def _obj(self, node, name):
        full = (self.name.rstrip('/') + '/' + name)
        return Group(node, self.file, full) if isinstance(node, GroupNode) else Dataset(node, self.file, full)

    def __getitem__(self, name):
        self.file._r()
        node, leaf = self._walk(name)
        if leaf is None:
            return Group(node, self.file)
        if leaf not in node.items:
            raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % leaf)
        return self._obj(node.items[leaf], name)

    def __setitem__(self, name, v):
        self.file._w()
        node, leaf = self._walk(name, True)
        if leaf in node.items:
            raise OSError('Unable to create link (name already exists)')
        if isinstance(v, Group):
            node.items[leaf] = v._n
            return
        node.items[leaf] = _mkdata(data=v)

    def __delitem__(self, name):
        self.file._w()
        node, leaf = self._walk(name)
        if leaf not in node.items:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del node.items[leaf]

    def __contains__(self, name):
        self.file._r()
        try:
            node, leaf = self._walk(name)
        except KeyError:
            return False
        return leaf in node.items

    def __iter__(self):
        self.file._r()
        return iter(sorted(self._n.items))

    def __len__(self):
        return len(self._n.items)

    def __bool__(self):
        return self.file._open

    def keys(self):
        return sorted(self._n.items)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def create_group(self, name):
        self.file._w()
        node, leaf = self._walk(name, True)
        if leaf in node.items:
            raise ValueError('Unable to synchronously create group (name already exists)')
        node.items[leaf] = GroupNode()
        return self._obj(node.items[leaf], name)

    def require_group(self, name):
        if name in self:
            g = self[name]
            if not isinstance(g, Group):
                raise TypeError('Incompatible object (Dataset) already exists')
            return g
        return self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None, chunks=None, **kw):
        self.file._w()
        node, leaf = self._walk(name, True)
        if leaf in node.items:
            raise ValueError('Unable to synchronously create dataset (name already exists)')
        node.items[leaf] = _mkdata(data, shape, dtype, maxshape, chunks, kw.get('fillvalue'))
        return self._obj(node.items[leaf], name)

    def require_dataset(self, name, shape, dtype, exact=False, **kw):
        if name not in self:
            return self.create_dataset(name, shape, dtype, **kw)
        d = self[name]
        if tuple(d.shape) != (tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)):
            raise TypeError('Shapes do not match')
        return d

    def __eq__(self, o):
        return isinstance(o, Group) and o._n is self._n

    __hash__ = None


def _dt(dtype):
    if dtype is None:
        return np.dtype('f4')
    return np.dtype(dtype)


def _narrow(v, dt):
    """conversion of symbols to the type of a data set"""
    if dt is None or dt.kind not in 'iuf' or (dt.kind == 'f' and dt.itemsize >= 8):
        return v
    if isinstance(v, np.ndarray):
        v = v.copy()
        for i in np.ndindex(*v.shape):
            if not isinstance(v[i], SymInt):
                v[i] = sym.narrow(v[i], dt)
        return v
    return v if isinstance(v, SymInt) else sym.narrow(v, dt)


def _mkdata(data=None, shape=None, dtype=None, maxshape=None, chunks=None, fill=None):
    if isinstance(shape, (int, np.integer, SymInt)):
        shape = (int(shape),)
    if shape is not None:
        shape = tuple(int(s) for s in shape)
    if isinstance(maxshape, (int, np.integer)):
        maxshape = (int(maxshape),)
    if data is not None:
        if isinstance(data, Dataset):
            data = data[...]
        if isinstance(data, (str, bytes)):
            return DataNode(None, None, None, data)
        if isinstance(data, (list, tuple)) and _hassym(data):
            a = np.empty(len(data), dtype=object)
            for i, x in enumerate(data):
                if isinstance(x, (np.ndarray, list, tuple)):
                    a = np.array(data, dtype=object)
                    break
                a[i] = x
        else:
            a = np.array(data)
        if a.dtype == object and not _issymarr(a) and a.size:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        if a.dtype.kind == 'U':
            raise TypeError('No conversion path for dtype: %r' % a.dtype)
        if dtype is not None and a.dtype != object:
            a = a.astype(dtype)
        if shape is not None and a.size != int(np.prod(shape)):
            raise ValueError('Shape tuple is incompatible with data')
        if shape is not None:
            a = a.reshape(shape)
        dt = np.dtype(dtype) if dtype is not None else a.dtype
        a = a.copy()
        if a.dtype == object and dtype is not None:
            a = _narrow(a, dt)
    else:
        if shape is None:
            raise TypeError('One of data, shape or dtype must be specified')
        dt = _dt(dtype)
        a = np.zeros(shape, dtype=object if dt == object else dt)
        if fill is not None:
            a[...] = fill
    if maxshape is not None and len(maxshape) != a.ndim:
        raise ValueError('"maxshape" must have same rank as dataset shape')
    if maxshape is None and chunks:
        maxshape = a.shape
    elif maxshape is not None:
        for s, m in zip(a.shape, maxshape):
            if m is not None and s > m:
                raise ValueError('Chunk shape must not be greater than data shape')
    return DataNode(a, dt, tuple(maxshape) if maxshape is not None else None)


class Dataset:
    def __init__(self, node, file, name):
        self._n = node
        self.file = file
        self.name = name

    attrs = Group.attrs

    @property
    def shape(self):
        self.file._r()
        return () if self._n.string is not None else self._n.arr.shape

    @property
    def dtype(self):
        return self._n.dtype

    @property
    def maxshape(self):
        return self._n.maxshape if self._n.maxshape is not None else self.shape

    @property
    def size(self):
        return int(np.prod(self.shape))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def chunks(self):
        return None if self._n.maxshape is None else (1,) * self.ndim

    def __len__(self):
        if not self.shape:
            raise TypeError('Attempt to take len() of scalar dataset')
        return self.shape[0]

    def _key(self, k):
        def one(x):
            if isinstance(x, slice):
                f = lambda y: int(y) if y is not None else None
                return slice(f(x.start), f(x.stop), f(x.step))
            if isinstance(x, SymInt):
                return int(x)
            return x
        if isinstance(k, tuple):
            return tuple(one(x) for x in k)
        return one(k)

    def _strict(self, k):
        """h5py refuses out-of-range integers and negative slice bounds are taken modulo the length"""
        return self._key(k)

    def __getitem__(self, k):
        self.file._r()
        if self._n.string is not None:
            s = self._n.string
            return s.encode() if isinstance(s, str) else s
        r = self._n.arr[self._strict(k)]
        if isinstance(r, np.ndarray):
            r = r.copy()
            if r.dtype == object:
                from .npshim import wrap
                r = wrap(r)
        return r

    def __setitem__(self, k, v):
        self.file._w()
        a = self._n.arr
        k = self._strict(k)
        if isinstance(v, Dataset):
            v = v[...]
        if isinstance(v, (list, tuple)) and _hassym(v):
            b = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                b[i] = x
            v = b
        sv = _hassym(v) or isinstance(v, (Sym, Poison, SymInt))
        if sv:
            v = _narrow(v, self._n.dtype)
            if a.dtype != object:
                self._n.arr = a = a.astype(object)
        if not sv:
            v = np.asarray(v)
            if v.dtype == object and v.size:
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
            if self._n.dtype is not None and self._n.dtype.kind in 'iufb':
                v = v.astype(self._n.dtype)
        tgt = a[k]
        ts, vs = np.shape(tgt), np.shape(v)
        if vs != ts and vs != ():
            m = tuple(x for x in vs if x != 1)
            try:
                np.broadcast_to(np.empty(vs), ts)
            except ValueError:
                if int(np.prod(vs)) == int(np.prod(ts)) and m == tuple(x for x in ts if x != 1):
                    v = np.reshape(v, ts)
                else:
                    raise TypeError("Can't broadcast %s -> %s" % (vs, ts))
        a[k] = v

    def resize(self, size, axis=None):
        self.file._w()
        if self._n.maxshape is None:
            raise TypeError('Only chunked datasets can be resized')
        a = self._n.arr
        if axis is not None:
            new = list(a.shape)
            new[axis] = int(size)
        else:
            new = [int(s) for s in (size if isinstance(size, (tuple, list)) else (size,))]
            if len(new) != a.ndim:
                raise TypeError('New shape length must equal rank')
        for n, m in zip(new, self._n.maxshape):
            if n < 0 or (m is not None and n > m):
                raise ValueError('unable to set extend dataset (dimension cannot exceed the existing maximal size)')
        b = np.zeros(new, dtype=a.dtype)
        common = tuple(slice(0, min(x, y)) for x, y in zip(a.shape, new))
        b[common] = a[common]
        self._n.arr = b

    def __array__(self, dtype=None, copy=None):
        return np.array(self._n.arr, dtype=dtype)

    def __iter__(self):
        return iter(self[...])


class File(Group):
    FS = None

    def __init__(self, name, mode='r', **kw):
        name = os.path.normpath(str(name))
        fs = self.FS
        self._mode = mode
        self._open = True
        if mode in ('r', 'r+'):
            if name not in fs:
                raise FileNotFoundError("[Errno 2] Unable to synchronously open file (unable to open file: name = '%s')" % name)
        elif mode == 'w':
            fs[name] = GroupNode()
        elif mode in ('w-', 'x'):
            if name in fs:
                raise FileExistsError('Unable to synchronously create file (file exists)')
            fs[name] = GroupNode()
        elif mode == 'a':
            fs.setdefault(name, GroupNode())
        else:
            raise ValueError('Invalid mode; must be one of r, r+, w, w-, x, a')
        if not isinstance(fs[name], GroupNode):
            raise OSError('Unable to synchronously open file (file signature not found)')
        self.filename = name
        self._root = fs[name]
        Group.__init__(self, fs[name], self, '/')

    @property
    def mode(self):
        return 'r' if self._mode == 'r' else 'r+'

    def _r(self):
        if not self._open:
            raise ValueError('Invalid location identifier (file is closed)')

    def _w(self):
        self._r()
        if self._mode == 'r':
            raise ValueError('Unable to write (no write intent on file)')

    def close(self):
        self._open = False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def make(fs=None):
    fs = {} if fs is None else fs
    m = types.ModuleType('h5py')

    class FileFS(File):
        FS = fs
    FileFS.__name__ = 'File'
    m.File, m.Group, m.Dataset = FileFS, Group, Dataset
    m.AttributeManager = Attrs
    m.special_dtype = lambda **k: object
    m.string_dtype = lambda *a, **k: object
    m.is_hdf5 = lambda n: os.path.normpath(str(n)) in fs

    pl = types.ModuleType('pathlib')

    class FakePath:
        def __init__(self, *parts):
            self._s = os.path.normpath(os.path.join(*[str(p) for p in parts])) if parts else '.'

        def __fspath__(self):
            return self._s

        __str__ = __fspath__

        def __repr__(self):
            return 'Path(%r)' % self._s

        def is_file(self):
            return self._s in fs

        def exists(self):
            return self._s in fs

        def is_dir(self):
            return False

        def __truediv__(self, o):
            return FakePath(self._s, o)

        @property
        def name(self):
            return os.path.basename(self._s)

        @property
        def parent(self):
            return FakePath(os.path.dirname(self._s) or '.')

        @property
        def stem(self):
            return os.path.splitext(self.name)[0]

        @property
        def suffix(self):
            return os.path.splitext(self.name)[1]

        def with_suffix(self, s):
            return FakePath(os.path.splitext(self._s)[0] + s)

        def unlink(self, missing_ok=False):
            if self._s in fs:
                del fs[self._s]
            elif not missing_ok:
                raise FileNotFoundError(self._s)

        def mkdir(self, *a, **k):
            pass

        def resolve(self, *a):
            return self

        def __eq__(self, o):
            return str(o) == self._s

        def __hash__(self):
            return hash(self._s)
    FakePath.__name__ = 'Path'
    pl.Path = pl.PurePath = pl.PosixPath = FakePath
    return m, pl, fs, None
