""" The part of h5py the package uses: groups of arrays listed in the order of their
names, attributes that hold numbers, strings and lists of strings, and files that
can be accessed only while open. """
import numpy as np
_FILES = {}


def _check(value):
  if value is None or isinstance(value, (dict, set)):
    raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
  return value


class _Attrs(dict):
  def __iter__(self):
    return iter(sorted(dict.keys(self)))

  def keys(self):
    return sorted(dict.keys(self))

  def items(self):
    return [(k, dict.__getitem__(self, k)) for k in sorted(dict.keys(self))]

  def values(self):
    return [dict.__getitem__(self, k) for k in sorted(dict.keys(self))]

  def __setitem__(self, key, value):
    dict.__setitem__(self, key, _check(value))

  def update(self, *args, **kwds):
    new = dict(*args, **kwds)
    for k in new:
      self[k] = new[k]

  def create(self, name, data, shape=None, dtype=None):
    self[name] = data


class Dataset:
  def __init__(self, data, handle):
    self._data = np.array(_check(data))
    self._handle = handle
    self._attrs = _Attrs()

  def _get(self):
    if not self._handle[0]:
      raise ValueError('Not a dataset (file is closed)')
    return self._data

  @property
  def attrs(self):
    self._get()
    return self._attrs

  @property
  def shape(self):
    return self._get().shape

  @property
  def dtype(self):
    return self._get().dtype

  @property
  def size(self):
    return self._get().size

  @property
  def ndim(self):
    return self._get().ndim

  def __array__(self, *args):
    return np.array(self._get())

  def __getitem__(self, key):
    if key != ():
      return self._get()[key]
    return np.array(self._get())

  def __setitem__(self, key, value):
    self._get()[key] = value


class Group:
  def __init__(self, name='/', store=None, handle=None):
    self.name = name
    self._d = {} if store is None else store
    self._handle = [True, True] if handle is None else handle

  @property
  def attrs(self):
    if not self._handle[0]:
      raise ValueError('Not a location (file is closed)')
    if '' not in self._d:
      self._d[''] = _Attrs()
    return self._d['']

  def _names(self):
    if not self._handle[0]:
      raise ValueError('Not a location (file is closed)')
    return sorted([k for k in self._d.keys() if k != ''])

  def _put(self, name, value):
    if not self._handle[0] or not self._handle[1]:
      raise ValueError('Unable to create link (no write intent on file)')
    if name in self._d:
      raise ValueError('Unable to create link (name already exists)')
    self._d[name] = value

  def create_group(self, name, track_order=None):
    store = {}
    self._put(name, store)
    return Group(name, store, self._handle)

  def require_group(self, name):
    if name not in self._d:
      return Group.create_group(self, name)
    return self[name]

  def create_dataset(self, name, shape=None, dtype=None, data=None, **kwds):
    self._put(name, Dataset(data, self._handle))
    return self._d[name]

  def __setitem__(self, name, data):
    self._put(name, Dataset(data, self._handle))

  def __getitem__(self, name):
    if name not in self._names():
      raise KeyError('Unable to open object (object does not exist)')
    value = self._d[name]
    if isinstance(value, Dataset):
      value._handle = self._handle
      return value
    return Group(name, value, self._handle)

  def __contains__(self, name):
    return name in self._names()

  def __len__(self):
    return len(self._names())

  def __iter__(self):
    return iter(self._names())

  def keys(self):
    return self._names()

  def values(self):
    return [self[k] for k in self._names()]

  def items(self):
    return [(k, self[k]) for k in self._names()]

  def get(self, name, default=None):
    return self[name] if name in self._names() else default


class File(Group):
  def __init__(self, path, mode='r', **kwds):
    if mode in ('w', 'x', 'w-'):
      if mode != 'w' and path in _FILES:
        raise FileExistsError('Unable to create file (file exists)')
      _FILES[path] = {}
    elif path not in _FILES:
      if mode != 'a':
        raise FileNotFoundError('Unable to open file (no such file)')
      _FILES[path] = {}
    self.mode = mode
    self.filename = path
    Group.__init__(self, '/', _FILES[path], [True, mode != 'r'])

  def __enter__(self):
    return self

  def __exit__(self, *args):
    self.close()

  def close(self):
    self._handle[0] = False

  def flush(self):
    pass
