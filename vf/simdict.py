"""SimDict: a PersiDict in memory that a scenario records, schedules and breaks.

All of its instances address one flat space of blobs, held by SimDict.backend,
so a "portal" is a path prefix, a "restart" is a new process (or a new portal
object) over the same blobs, and a "crash" is a process that does no further
operation. The backend may be local (a dict) or remote (a pipe to a scheduler).
"""
from persidict.persi_dict import _BlobDict

from .env import clock


class LocalBackend:
    def __init__(self):
        self.blobs = {}      # full path -> (bytes, stamp)
        self.log = []        # (op, full path)
        self.before = None   # before(op, path): may raise, to inject a fault
        self.after = None
        self._n = 0
        self.tick = 1e-6     # stamps of different writes differ by this at least

    def _pre(self, op, path):
        if self.before is not None:
            self.before(op, path)

    def _post(self, op, path, result=None):
        if op in ("write", "remove"):
            self.log.append((op, path))
        if self.after is not None:
            self.after(op, path, result)

    def has(self, path):
        self._pre("has", path)
        r = path in self.blobs
        self._post("has", path, r)
        return r

    def read(self, path):
        self._pre("read", path)
        if path not in self.blobs:
            self._post("read", path, False)
            raise KeyError(f"File {path} does not exist")
        r = self.blobs[path][0]
        self._post("read", path, True)
        return r

    def write(self, path, blob, immutable):
        self._pre("write", path)
        if immutable and path in self.blobs:
            self._post("refuse", path)
            raise AssertionError("Can't modify an immutable item")
        self._n += 1
        self.blobs[path] = (blob, clock.time() + self._n * self.tick)
        self._post("write", path)

    def remove(self, path):
        self._pre("remove", path)
        if path not in self.blobs:
            self._post("remove-missing", path)
            raise KeyError(f"File {path} does not exist")
        del self.blobs[path]
        self._post("remove", path)

    def list(self, prefix, suffix):
        self._pre("list", prefix)
        r = sorted(p[len(prefix):] for p in self.blobs
                   if p.startswith(prefix) and p.endswith(suffix))
        self._post("list", prefix, r)
        return r

    def stamp(self, path):
        self._pre("stamp", path)
        if path not in self.blobs:
            raise FileNotFoundError(path)
        return self.blobs[path][1]


class SimDict(_BlobDict):
    backend = LocalBackend()

    def __init__(self, base_dir="SimDict", file_type="pkl", immutable_items=False,
                 digest_len=8, base_class_for_values=None):
        super().__init__(base_dir=base_dir, file_type=file_type, immutable_items=immutable_items,
                         digest_len=digest_len, base_class_for_values=base_class_for_values)

    @classmethod
    def reset(cls):
        SimDict.backend = LocalBackend()
        return SimDict.backend

    def _prepare_base_dir(self, base_dir):
        return base_dir.rstrip("/")

    def _full(self, path):
        return self.base_dir + "/" + path

    def _has(self, path):
        return SimDict.backend.has(self._full(path))

    def _read(self, path):
        return SimDict.backend.read(self._full(path))

    def _write(self, path, blob, immutable):
        SimDict.backend.write(self._full(path), blob, immutable)

    def _remove(self, path):
        SimDict.backend.remove(self._full(path))

    def _list(self):
        return SimDict.backend.list(self.base_dir + "/", "." + self.file_type)

    def _stamp(self, path):
        return SimDict.backend.stamp(self._full(path))
