"""PersiDict with the API of the releases Pythagoras 0.17 was written for.

The abstract class, and _BlobDict, which implements everything over six
primitives on named blobs. FileDirDict (disk) and the verification harness's
SimDict (memory, scheduled, recorded, fault-injected) differ in those six only.
"""
import heapq
import io
import random
from abc import abstractmethod
from collections.abc import MutableMapping, Sequence

import joblib
import jsonpickle
import jsonpickle.ext.numpy as _jp_numpy
import jsonpickle.ext.pandas as _jp_pandas
from parameterizable import ParameterizableClass

from .safe_str_tuple import SafeStrTuple
from .safe_str_tuple_signing import sign_safe_str_tuple, unsign_safe_str_tuple

_jp_numpy.register_handlers()
_jp_pandas.register_handlers()

PersiDictKey = SafeStrTuple | Sequence[str] | str


class PersiDict(MutableMapping, ParameterizableClass):
    digest_len: int
    immutable_items: bool
    base_class_for_values: type | None

    def __init__(self, immutable_items=False, digest_len=8, base_class_for_values=None,
                 *args, **kwargs):
        assert len(args) == 0 and len(kwargs) == 0
        self.digest_len = int(digest_len)
        assert digest_len >= 0
        self.immutable_items = bool(immutable_items)
        self.base_class_for_values = base_class_for_values
        ParameterizableClass.__init__(self)

    def get_params(self):
        return dict(immutable_items=self.immutable_items, digest_len=self.digest_len,
                    base_class_for_values=self.base_class_for_values)

    def __repr__(self):
        return f"{type(self).__name__}({self.get_params()})"

    def __str__(self):
        return str(dict(self.items()))

    @abstractmethod
    def __contains__(self, key):
        raise NotImplementedError

    @abstractmethod
    def __getitem__(self, key):
        raise NotImplementedError

    def __setitem__(self, key, value):
        if self.immutable_items:
            assert key not in self, "Can't modify an immutable key-value pair"
        raise NotImplementedError

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        raise NotImplementedError

    @abstractmethod
    def __len__(self):
        raise NotImplementedError

    @abstractmethod
    def _generic_iter(self, iter_type):
        raise NotImplementedError

    def __iter__(self):
        return self._generic_iter("keys")

    def keys(self):
        return self._generic_iter("keys")

    def values(self):
        return self._generic_iter("values")

    def items(self):
        return self._generic_iter("items")

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    def __eq__(self, other):
        if isinstance(other, PersiDict) and type(self) is type(other):
            return self.get_params() == other.get_params()
        try:
            if len(self) != len(other):
                return False
            return all(k in other and other[k] == self[k] for k in self)
        except Exception:
            return False

    __hash__ = None

    def __copy__(self):
        return type(self)(**self.get_params())

    def __getstate__(self):
        raise TypeError("PersiDict is not picklable.")

    def __setstate__(self, state):
        raise TypeError("PersiDict is not picklable.")

    def clear(self):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        for k in list(self.keys()):
            self.delete_if_exists(k)

    def delete_if_exists(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        key = SafeStrTuple(key)
        if key in self:
            try:
                del self[key]
                return True
            except Exception:
                return False
        return False

    def get_subdict(self, prefix_key):
        raise NotImplementedError

    def subdicts(self):
        return {s: self.get_subdict(s) for s in {k[0] for k in self.keys()}}

    @abstractmethod
    def timestamp(self, key):
        raise NotImplementedError

    mtimestamp = property(lambda self: self.timestamp)

    def random_keys(self, max_n):
        keys = list(self.keys())
        return random.sample(keys, min(max_n, len(keys)))

    def newest_keys(self, max_n=None):
        n = len(self) if max_n is None else max_n
        return [k for _, _, k in heapq.nlargest(
            n, ((self.timestamp(k), i, k) for i, k in enumerate(self.keys())))]

    def oldest_keys(self, max_n=None):
        n = len(self) if max_n is None else max_n
        return [k for _, _, k in heapq.nsmallest(
            n, ((self.timestamp(k), i, k) for i, k in enumerate(self.keys())))]

    def newest_values(self, max_n=None):
        return [self[k] for k in self.newest_keys(max_n)]

    def oldest_values(self, max_n=None):
        return [self[k] for k in self.oldest_keys(max_n)]


class _BlobDict(PersiDict):
    """A PersiDict over named blobs. A name is a '/'-separated path under base_dir."""

    def __init__(self, base_dir, file_type="pkl", immutable_items=False, digest_len=8,
                 base_class_for_values=None):
        super().__init__(immutable_items=immutable_items, digest_len=digest_len,
                         base_class_for_values=base_class_for_values)
        self.file_type = file_type
        if base_class_for_values is None or not issubclass(base_class_for_values, str):
            assert file_type in {"json", "pkl"}, (
                "For non-string values file_type must be either 'pkl' or 'json'.")
        self.base_dir = self._prepare_base_dir(str(base_dir))

    # the six primitives; paths are '/'-separated, below base_dir
    def _prepare_base_dir(self, base_dir):
        raise NotImplementedError

    def _has(self, path):
        raise NotImplementedError

    def _read(self, path):
        raise NotImplementedError

    def _write(self, path, blob, immutable):
        raise NotImplementedError

    def _remove(self, path):
        raise NotImplementedError

    def _list(self):
        raise NotImplementedError

    def _stamp(self, path):
        raise NotImplementedError

    def get_params(self):
        return super().get_params() | dict(base_dir=self.base_dir, file_type=self.file_type)

    def _path(self, key):
        key = sign_safe_str_tuple(SafeStrTuple(key), self.digest_len)
        return "/".join(key.str_chain) + "." + self.file_type

    def _dumps(self, value):
        if self.file_type == "pkl":
            buf = io.BytesIO()
            joblib.dump(value, buf, compress="lz4")
            return buf.getvalue()
        if self.file_type == "json":
            return jsonpickle.dumps(value, indent=4).encode()
        return value.encode("utf-8", "surrogatepass")

    def _loads(self, blob):
        if self.file_type == "pkl":
            return joblib.load(io.BytesIO(blob))
        if self.file_type == "json":
            return jsonpickle.loads(blob.decode())
        return blob.decode("utf-8", "surrogatepass")

    def __contains__(self, key):
        return self._has(self._path(key))

    def __getitem__(self, key):
        result = self._loads(self._read(self._path(key)))
        if self.base_class_for_values is not None and not isinstance(
                result, self.base_class_for_values):
            raise TypeError(f"Value is of type {type(result)}")
        return result

    def __setitem__(self, key, value):
        if isinstance(value, PersiDict):
            raise TypeError("You are not allowed to store a PersiDict object in a PersiDict.")
        if self.base_class_for_values is not None and not isinstance(
                value, self.base_class_for_values):
            raise TypeError(f"Value must be of type {self.base_class_for_values}, "
                            f"but it is {type(value)} instead.")
        path = self._path(key)
        self._write(path, self._dumps(value), self.immutable_items)

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        self._remove(self._path(key))

    def __len__(self):
        return len(self._list())

    def _generic_iter(self, iter_type):
        assert iter_type in {"keys", "values", "items"}

        def step():
            for path in self._list():
                key = unsign_safe_str_tuple(
                    SafeStrTuple(*path[:-len(self.file_type) - 1].split("/")), self.digest_len)
                if iter_type == "keys":
                    yield key
                elif iter_type == "values":
                    yield self[key]
                else:
                    yield key, self[key]
        return step()

    def get_subdict(self, prefix_key):
        key = sign_safe_str_tuple(SafeStrTuple(prefix_key), self.digest_len)
        params = self.get_params()
        params["base_dir"] = self.base_dir.rstrip("/") + "/" + "/".join(key.str_chain)
        return type(self)(**params)

    def timestamp(self, key):
        return self._stamp(self._path(key))
