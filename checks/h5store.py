"""the part of h5py which saving and loading use"""
import numpy


class _Attrs(dict):
    pass


class Dataset:
    def __init__(self, fake, data, shape, dtype, compressed):
        t, np = fake.t, fake.t.np
        self.shape, self.data = None, None
        if data is None:
            if shape is not None:
                raise ValueError("the store only knows data")
            return
        if isinstance(data, str):
            self.shape, self.data, self.text = (), data.encode(), True
        elif isinstance(data, bytes):
            self.shape, self.data, self.text = (), data, True
        else:
            a = data if hasattr(data, "dtype") and hasattr(data, "shape") else np.array(data)
            vlen = isinstance(dtype, _Vlen)
            if vlen:
                cells = [np.array(x) for x in a]
                if any(str(c.dtype) != str(cells[0].dtype) for c in cells):
                    # HDF5 takes the bytes of all as being of the type of the first
                    cells = [c if str(c.dtype) == str(cells[0].dtype) else np.zeros(c.shape) - 77777.0 for c in cells]
                cells = [c.astype(dtype.base) for c in cells]
                o = numpy.empty(len(cells), dtype=object)
                for i, c in enumerate(cells):
                    o[i] = c
                self.shape, self.data, self.text = (len(cells),), o, False
                return
            kind = numpy.dtype(str(a.dtype)).kind if not hasattr(a.dtype, "kind") else a.dtype.kind
            if kind == "U":
                raise TypeError("No conversion path for dtype: %s" % a.dtype)
            if kind == "O":
                raise TypeError("Object dtype has no native HDF5 equivalent")
            if dtype is not None and kind != "S":
                a = a.astype(dtype)
            self.text = False
            self.shape = tuple(a.shape)
            if shape is not None and tuple(shape) != self.shape:
                raise ValueError("Shape tuple is incompatible with data")
            self.data = a.copy() if self.shape else a
        if compressed and self.shape == ():
            raise TypeError("Scalar datasets don't support chunk/filter options")

    def __getitem__(self, k):
        if self.shape is None:
            if k == ():
                return "empty"
            raise ValueError("Empty datasets cannot be sliced")
        if self.shape == ():
            if not (isinstance(k, tuple) and k == () or k is Ellipsis):
                raise ValueError("Illegal slicing argument for scalar dataspace")
            return self.data if self.text else self.data[()] if getattr(self.data, "ndim", 0) == 0 and hasattr(self.data, "__getitem__") else self.data
        return self.data[k].copy() if not isinstance(k, tuple) or k else self.data.copy()

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        if not self.shape:
            raise TypeError("Attempt to take len() of scalar dataset")
        return self.shape[0]

    def __symarray__(self):
        if self.shape is None:
            raise TypeError("an empty dataset is no array")
        return self[()]


class _Vlen:
    def __init__(self, base):
        self.base = base


class Group:
    def __init__(self, fake):
        self.fake, self.items_, self.attrs = fake, {}, _Attrs()

    def _new(self, key, x):
        if key in self.items_:
            raise ValueError("Unable to create dataset (name already exists)")
        self.items_[key] = x
        return x

    def create_group(self, key):
        return self._new(key, Group(self.fake))

    def create_dataset(self, key, shape=None, dtype=None, data=None, chunks=None, compression=None, **kw):
        return self._new(key, Dataset(self.fake, data, shape, dtype, compression is not None or chunks is not None))

    def keys(self):
        return sorted(self.items_)

    def items(self):
        return [(k, self.items_[k]) for k in sorted(self.items_)]

    def values(self):
        return [self.items_[k] for k in sorted(self.items_)]

    def __iter__(self):
        return iter(sorted(self.items_))

    def __len__(self):
        return len(self.items_)

    def __contains__(self, k):
        return k in self.items_

    def __getitem__(self, k):
        if not isinstance(k, (str, bytes)):
            raise TypeError("Accessing a group is done with bytes or str, not %s" % type(k))
        return self.items_[k]


class File(Group):
    pass


class _H5:
    """the part of h5py which saving and loading use"""

    def __init__(self, t):
        self.t, self.disk = t, {}
        fake = self

        class Handle(File):
            def __init__(self, name, mode="r", *a, **kw):
                Group.__init__(self, fake)
                name = str(name)
                if mode == "w":
                    fake.disk[name] = self
                elif name not in fake.disk:
                    raise FileNotFoundError(name)
                else:
                    self.items_, self.attrs = fake.disk[name].items_, fake.disk[name].attrs

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        self.File, self.Group, self.Dataset = Handle, Group, Dataset
        self.vlen_dtype = _Vlen

    def Empty(self, *a, **kw):
        return None
