"""Stands in for h5py: the monitor registers the contents of 'files' here."""
import copy
import numpy as np
FILES = {}
LOG = []

class Dataset:
    def __init__(self, data, **attrs):
        self.data = np.asarray(data)
        self.attrs = attrs
    def __array__(self, dtype=None, copy=None):
        return np.array(self.data, dtype=dtype)
    @property
    def shape(self):
        return self.data.shape
    @property
    def dtype(self):
        return self.data.dtype
    @property
    def ndim(self):
        return self.data.ndim
    def __getitem__(self, key):
        return self.data[key]
    def __setitem__(self, key, value):
        self.data[key] = value
    def __len__(self):
        return len(self.data)

class File:
    opened = 0
    def __init__(self, name, mode='r'):
        if name not in FILES: # A copy of a file has the text of the original, which is its name.
            with open(name) as f:
                FILES[name] = copy.deepcopy(FILES[f.read()])
        self.content = FILES[name]
        self.mode = mode
        File.opened += 1
        self.open = True
    def get(self, name, default=None):
        return self.content.get(name, default)
    def __getitem__(self, name):
        return self.content[name]
    def __contains__(self, name):
        return name in self.content
    def __delitem__(self, name):
        assert self.mode != 'r'
        del self.content[name]
    def create_dataset(self, name, shape=None, dtype=None, data=None, **options):
        assert self.mode != 'r' and name not in self.content
        data = np.zeros(shape, dtype) if data is None else np.array(data, dtype)
        assert shape is None or data.shape == tuple(shape)
        self.content[name] = Dataset(data)
        return self.content[name]
    def keys(self):
        return self.content.keys()
    def close(self):
        if self.open:
            File.opened -= 1
        self.open = False
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
