"""A PersiDict on disk: one file per item, written to a temporary name, then renamed or linked."""
import os
import tempfile

from .persi_dict import _BlobDict


class FileDirDict(_BlobDict):

    def __init__(self, base_dir="FileDirDict", file_type="pkl", immutable_items=False,
                 digest_len=8, base_class_for_values=None):
        super().__init__(base_dir=base_dir, file_type=file_type, immutable_items=immutable_items,
                         digest_len=digest_len, base_class_for_values=base_class_for_values)

    def _prepare_base_dir(self, base_dir):
        assert not os.path.isfile(base_dir), "base_dir must be a directory, not a file."
        os.makedirs(base_dir, exist_ok=True)
        return os.path.abspath(base_dir)

    def _full(self, path):
        return os.path.join(self.base_dir, *path.split("/"))

    def _has(self, path):
        return os.path.isfile(self._full(path))

    def _read(self, path):
        full = self._full(path)
        if not os.path.isfile(full):
            raise KeyError(f"File {full} does not exist")
        with open(full, "rb") as f:
            return f.read()

    def _write(self, path, blob, immutable):
        full = self._full(path)
        if immutable:
            assert not os.path.exists(full), "Can't modify an immutable item"
        os.makedirs(os.path.dirname(full), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(full), prefix="_tmp_", suffix=".__tmp__")
        try:
            with os.fdopen(fd, "wb") as f:
                f.write(blob)
            os.replace(tmp, full)
        except BaseException:
            if os.path.exists(tmp):
                os.remove(tmp)
            raise

    def _remove(self, path):
        full = self._full(path)
        if not os.path.isfile(full):
            raise KeyError(f"File {full} does not exist")
        os.remove(full)

    def _list(self):
        suffix, out = "." + self.file_type, []
        for d, _, files in os.walk(self.base_dir):
            rel = os.path.relpath(d, self.base_dir)
            for name in sorted(files):
                if name.endswith(suffix):
                    out.append(name if rel == "." else rel.replace(os.sep, "/") + "/" + name)
        return out

    def _stamp(self, path):
        return os.path.getmtime(self._full(path))
