"""h5py stand-in: keeps what is written in memory."""
import types
import numpy as np
from . import engine as E
from .npshim import SymArr


class Attrs(dict):
    def create(self, name, data, shape=None, dtype=None):
        self[name] = data

    modify = create


class Dataset:
    """data: a list (one-dimensional) or a scalar."""

    def __init__(self, group, name):
        self.group, self.name, self.attrs = group, group.path + '/' + name, Attrs()
        self.key = name

    @property
    def raw(self):
        return self.group.data[self.key]

    @property
    def shape(self):
        return (len(self.raw),) if isinstance(self.raw, list) else ()

    @property
    def size(self):
        return len(self.raw) if isinstance(self.raw, list) else 1

    def __len__(self):
        if not isinstance(self.raw, list):
            raise TypeError('Attempt to take len() of scalar dataset')
        return len(self.raw)

    def _array(self):
        a = np.empty(len(self.raw), dtype=object)
        for i, v in enumerate(self.raw):
            a[i] = v
        return a.view(SymArr)

    def __getitem__(self, i):
        if not isinstance(self.raw, list):
            return self.raw
        return self._array()[slice(None) if i == () or i is Ellipsis else i]

    def __setitem__(self, i, v):
        self.group._writable()
        if not isinstance(self.raw, list):
            self.group.data[self.key] = v
            return
        a = self._array()
        a[slice(None) if i == () or i is Ellipsis else i] = v
        self.group.data[self.key] = list(a)


class Group:
    def __init__(self, name, parent=None):
        self.name = name
        self.path = '' if parent is None else parent.path + '/' + name
        self.parent = parent
        self.attrs = Attrs()
        self.groups = {}
        self.data = {}
        self.sets = {}

    def _writable(self):
        f = self
        while f.parent is not None:
            f = f.parent
        if not f.open:
            raise ValueError("Unable to create group (file is closed)")

    def _at(self, path):
        """(group, last name) for a path; missing groups are made."""
        parts = [p for p in path.split('/') if p]
        g = self
        for p in parts[:-1]:
            g = g.groups[p] if p in g.groups else g.create_group(p)
        return g, parts[-1]

    def create_group(self, name):
        self._writable()
        g, n = self._at(name)
        if n in g.groups or n in g.data:
            raise ValueError("Unable to create group (name already exists)")
        g.groups[n] = Group(n, g)
        return g.groups[n]

    def require_group(self, name):
        g, n = self._at(name)
        return g.groups[n] if n in g.groups else g.create_group(n)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        self._writable()
        g, n = self._at(name)
        if n in g.data or n in g.groups:
            raise ValueError("Unable to create dataset (name already exists)")
        if isinstance(data, np.ndarray) and data.ndim == 0:
            data = data.item()
        elif isinstance(data, np.ndarray):
            if data.ndim > 1:
                raise E.Unsupported('a dataset of %d dimensions' % data.ndim)
            data = [data[i] for i in range(len(data))]        # a copy, as a file would be
        elif isinstance(data, (list, tuple)):
            data = list(data)
        elif data is None:
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            if len(shape) > 1:
                raise E.Unsupported('a dataset of %d dimensions' % len(shape))
            data = [0] * shape[0] if shape else 0
        g.data[n] = data
        g.sets[n] = Dataset(g, n)
        return g.sets[n]

    def require_dataset(self, name, shape, dtype, **kw):
        return self[name] if name in self else self.create_dataset(name, shape, dtype, **kw)

    def __getitem__(self, k):
        g = self
        for p in [p for p in k.split('/') if p]:
            if isinstance(g, Dataset) or p not in g.groups and p not in g.data:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
            g = g.groups[p] if p in g.groups else g.sets[p]
        return g

    def __setitem__(self, k, v):
        if isinstance(v, (Group, Dataset)):
            raise E.Unsupported('links in a file')
        self.create_dataset(k, data=v)

    def __delitem__(self, k):
        self._writable()
        for d in (self.groups, self.data, self.sets):
            d.pop(k, None)

    def __contains__(self, k):
        try:
            self[k]
        except KeyError:
            return False
        return True

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.groups) + len(self.data)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return sorted(list(self.groups) + list(self.data))

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]


def make(files):
    m = types.ModuleType('h5py')

    class File(Group):
        def __new__(cls, name, mode='r', *a, **k):
            if mode in ('r', 'r+', 'a') and name in files:
                f = files[name]
                f.open = True
                return f
            if mode in ('r', 'r+'):
                raise OSError("Unable to open file (unable to open file: name = '%s')" % name)
            if mode in ('x', 'w-') and name in files:
                raise OSError("Unable to create file (file exists)")
            return object.__new__(cls)

        def __init__(self, name, mode='r', *a, **k):
            if files.get(name) is self:
                return
            Group.__init__(self, name)
            self.filename = name
            self.mode = mode
            self.open = True
            files[name] = self

        def flush(self):
            if not self.open:
                raise ValueError("file is closed")

        def close(self):
            self.open = False

        def __bool__(self):
            return self.open

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    m.File, m.Group, m.Dataset = File, Group, Dataset
    return m
