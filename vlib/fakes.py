"""Stand-ins for packages that are not installed here.

h5py      - a strict, on-disk stand-in implementing the part of the h5py 2.x
            API the code uses, with h5py's restrictions (attribute types and
            the 64k limit, create conflicts, file modes, read-only files,
            values copied on write *and* on read).
colorlog  - plain formatter.
matplotlib, mpl_toolkits, ROOT, rat - importable placeholders; ROOT/rat are
            filled in by the checks which need ntuples and data structures.
"""
import logging
import os
import pickle
import sys
import tempfile
import types

import numpy

MAGIC = b"FAKEH5\n"


# ------------------------------------------------------------------- h5py
def _store_attr(value):
    if isinstance(value, (bytes, str)):
        if len(value) >= 65536:
            raise RuntimeError("Unable to create attribute (object header "
                               "message is too large)")
        return value
    if isinstance(value, numpy.ndarray):
        if value.dtype.kind not in "biufcS":
            raise TypeError("Object dtype %r has no native HDF5 equivalent"
                            % value.dtype)
        if value.nbytes >= 65536:
            raise RuntimeError("Unable to create attribute (object header "
                               "message is too large)")
        return numpy.array(value)
    if value is None or isinstance(value, (dict, set)):
        raise TypeError("Object dtype dtype('O') has no native HDF5 "
                        "equivalent")
    array = numpy.asarray(value)
    if array.dtype.kind not in "biufcSU":
        raise TypeError("Object dtype %r has no native HDF5 equivalent"
                        % array.dtype)
    if array.dtype.kind == "U":
        array = array.astype("S")
    if array.nbytes >= 65536:
        raise RuntimeError("Unable to create attribute (object header "
                           "message is too large)")
    if array.ndim == 0:
        return array[()]
    return array.copy()


class AttributeManager(object):
    def __init__(self, node, file_):
        self._node = node
        self._file = file_

    def __setitem__(self, key, value):
        self._file._writable()
        self._node["attrs"][str(key)] = _store_attr(value)

    def __getitem__(self, key):
        self._file._open()
        try:
            value = self._node["attrs"][key]
        except KeyError:
            raise KeyError("Can't open attribute (can't locate attribute: "
                           "'%s')" % key)
        if isinstance(value, numpy.ndarray):
            return value.copy()
        return value

    def __contains__(self, key):
        return key in self._node["attrs"]

    def __iter__(self):
        return iter(sorted(self._node["attrs"]))

    def __len__(self):
        return len(self._node["attrs"])

    def keys(self):
        return sorted(self._node["attrs"])

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    iteritems, iterkeys, itervalues = items, keys, values

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __delitem__(self, key):
        self._file._writable()
        del self._node["attrs"][key]

    def create(self, name, data, **_):
        self[name] = data

    def modify(self, name, value):
        self[name] = value

    def update(self, *args, **kwargs):
        for name, value in dict(*args, **kwargs).items():
            self[name] = value

    def setdefault(self, name, default=None):
        if name not in self:
            self[name] = default
        return self[name]


class Dataset(object):
    def __init__(self, node, file_, name):
        self._node = node
        self._file = file_
        self.name = name
        self.attrs = AttributeManager(node, file_)

    @property
    def value(self):
        self._file._open()
        data = self._node["data"]
        return data.copy() if isinstance(data, numpy.ndarray) else data

    @property
    def shape(self):
        return self._node["data"].shape

    @property
    def dtype(self):
        return self._node["data"].dtype

    @property
    def compression(self):
        return self._node["compression"]

    def __getitem__(self, key):
        self._file._open()
        value = self._node["data"][key]
        return value.copy() if isinstance(value, numpy.ndarray) else value

    def __len__(self):
        return len(self._node["data"])

    def __array__(self, dtype=None, copy=None):
        return numpy.array(self._node["data"], dtype=dtype)


def _new_group():
    return {"kind": "group", "attrs": {}, "children": {}}


class Group(object):
    def __init__(self, node, file_, name):
        self._node = node
        self._file = file_
        self.name = name
        self.attrs = AttributeManager(node, file_)

    def _walk(self, path):
        node = self._file._root if path.startswith("/") else self._node
        for part in [p for p in path.split("/") if p]:
            if node["kind"] != "group" or part not in node["children"]:
                raise KeyError("Unable to open object (object '%s' doesn't "
                               "exist)" % part)
            node = node["children"][part]
        return node

    def _wrap(self, node, path):
        name = (self.name.rstrip("/") + "/" + path.strip("/"))
        if node["kind"] == "group":
            return Group(node, self._file, name)
        return Dataset(node, self._file, name)

    def __getitem__(self, path):
        self._file._open()
        return self._wrap(self._walk(path), path)

    def get(self, path, default=None):
        try:
            return self[path]
        except KeyError:
            return default

    def __contains__(self, path):
        try:
            self._walk(path)
            return True
        except KeyError:
            return False

    def __iter__(self):
        self._file._open()
        return iter(sorted(self._node["children"]))

    def __len__(self):
        return len(self._node["children"])

    def keys(self):
        self._file._open()
        return sorted(self._node["children"])

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    iteritems, iterkeys, itervalues = items, keys, values

    def __delitem__(self, path):
        self._file._writable()
        parts = [p for p in path.split("/") if p]
        node = self._walk("/".join(parts[:-1])) if len(parts) > 1 \
            else self._node
        if parts[-1] not in node["children"]:
            raise KeyError("Couldn't delete link (can't locate '%s')" % path)
        del node["children"][parts[-1]]

    def _parent(self, path):
        parts = [p for p in path.split("/") if p]
        node = self._file._root if path.startswith("/") else self._node
        for part in parts[:-1]:
            node = node["children"].setdefault(part, _new_group())
        return node, parts[-1]

    def __setitem__(self, path, data):
        self.create_dataset(path, data=data)

    def create_group(self, path, **_):
        self._file._writable()
        node, leaf = self._parent(path)
        if leaf in node["children"]:
            raise ValueError("Unable to create group (name already exists)")
        node["children"][leaf] = _new_group()
        return self._wrap(node["children"][leaf], path)

    def require_group(self, path):
        if path in self:
            return self[path]
        return self.create_group(path)

    def create_dataset(self, path, shape=None, dtype=None, data=None,
                       compression=None, **_):
        self._file._writable()
        node, leaf = self._parent(path)
        if leaf in node["children"]:
            raise RuntimeError("Unable to create link (name already exists)")
        if data is None:
            data = numpy.zeros(shape, dtype=dtype or "f4")
        array = numpy.array(data)
        if dtype is not None:
            array = array.astype(dtype)
        if array.dtype.kind not in "biufcS":
            raise TypeError("Object dtype %r has no native HDF5 equivalent"
                            % array.dtype)
        if compression is not None and array.ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        if compression is not None and array.size == 0:
            raise ValueError("Chunk shape must not be greater than data "
                             "shape")
        node["children"][leaf] = {"kind": "dataset", "attrs": {},
                                  "data": array, "compression": compression}
        return self._wrap(node["children"][leaf], path)


def inside_scratch(name):
    where = os.path.realpath(name)
    return where.startswith(os.path.realpath(tempfile.gettempdir()) + os.sep)


class File(Group):
    def __init__(self, name, mode=None, **_):
        self.filename = name
        self.mode = "a" if mode is None else mode
        self._closed = False
        exists = os.path.exists(name)
        if self.mode != "r" and not inside_scratch(name):
            raise IOError("refused to write %s: not in a scratch directory"
                          % os.path.abspath(name))
        if self.mode not in ("r", "r+", "w", "w-", "x", "a"):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        if self.mode in ("r", "r+") and not exists:
            raise IOError("Unable to open file (unable to open file: name = "
                          "'%s')" % name)
        if self.mode in ("w-", "x") and exists:
            raise IOError("Unable to create file (file exists)")
        if self.mode == "w" or not exists:
            root = _new_group()
            with open(name, "wb") as out:
                out.write(MAGIC + pickle.dumps(root))
        else:
            with open(name, "rb") as source:
                blob = source.read()
            if not blob.startswith(MAGIC):
                raise IOError("Unable to open file (file signature not found)")
            root = pickle.loads(blob[len(MAGIC):])
        self._root = root
        Group.__init__(self, root, self, "/")

    def _open(self):
        if self._closed:
            raise ValueError("Not a location (invalid object: file closed)")

    def _writable(self):
        self._open()
        if self.mode == "r":
            raise IOError("No write intent on file")

    def flush(self):
        if self.mode != "r":
            with open(self.filename, "wb") as out:
                out.write(MAGIC + pickle.dumps(self._root))

    def close(self):
        if not self._closed:
            self.flush()
            self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


# -------------------------------------------------------------- installing
class _Anything(types.ModuleType):
    """ Placeholder module: any attribute is a do-nothing callable class. """
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (object,), {"__init__": lambda self, *a, **k: None})


class ColoredFormatter(logging.Formatter):
    def __init__(self, fmt=None, datefmt=None, log_colors=None, reset=True,
                 **_):
        self._log_colors = log_colors or {}
        logging.Formatter.__init__(self, fmt, datefmt)

    def format(self, record):
        record.log_color = ""
        record.reset = ""
        return logging.Formatter.format(self, record)


def install():
    h5py = types.ModuleType("h5py")
    h5py.File, h5py.Group, h5py.Dataset = File, Group, Dataset
    h5py.AttributeManager = AttributeManager
    h5py.__version__ = "2.5.0"
    sys.modules["h5py"] = h5py
    colorlog = types.ModuleType("colorlog")
    colorlog.ColoredFormatter = ColoredFormatter
    sys.modules["colorlog"] = colorlog
    for name in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors",
                 "matplotlib.ticker", "matplotlib.colorbar", "mpl_toolkits",
                 "mpl_toolkits.mplot3d", "ROOT", "rat"):
        sys.modules[name] = _Anything(name)
    for name in list(sys.modules):
        if "." in name and isinstance(sys.modules[name], _Anything):
            parent, leaf = name.rsplit(".", 1)
            setattr(sys.modules[parent], leaf, sys.modules[name])
