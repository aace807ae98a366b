"""SafeStrTuple: an immutable, hashable, flat tuple of safe strings (old API: .str_chain)."""
from collections.abc import Hashable, Mapping, Sequence

from .safe_chars import SAFE_CHARS_SET, SAFE_STRING_MAX_LENGTH


def _is_sequence_not_mapping(obj):
    if isinstance(obj, Sequence) and not isinstance(obj, Mapping):
        return True
    if hasattr(obj, "keys") and callable(obj.keys):
        return False
    return all(callable(getattr(obj, m, None))
               for m in ("__getitem__", "__len__", "__iter__"))


class SafeStrTuple(Sequence, Hashable):
    str_chain: tuple

    def __init__(self, *args, **kwargs):
        assert len(kwargs) == 0
        assert len(args) > 0
        out = []
        for a in args:
            if isinstance(a, SafeStrTuple):
                out.extend(a.str_chain)
            elif isinstance(a, str):
                assert len(a) > 0
                assert len(a) < SAFE_STRING_MAX_LENGTH
                assert len(set(a) - SAFE_CHARS_SET) == 0, f"unsafe characters in {a!r}"
                out.append(a)
            elif _is_sequence_not_mapping(a):
                if len(a) > 0:
                    out.extend(SafeStrTuple(*a).str_chain)
            else:
                assert False, f"Invalid argument type: {type(a)}"
        self.str_chain = tuple(out)

    @property
    def strings(self):
        return self.str_chain

    def __getitem__(self, key):
        return self.str_chain[key]

    def __len__(self):
        return len(self.str_chain)

    def __hash__(self):
        return hash(self.str_chain)

    def __repr__(self):
        return f"{type(self).__name__}({self.str_chain})"

    def __eq__(self, other):
        if isinstance(other, SafeStrTuple):
            if type(self).__eq__ != type(other).__eq__:
                return other.__eq__(self)
        else:
            try:
                other = SafeStrTuple(other)
            except Exception:
                return NotImplemented
        return self.str_chain == other.str_chain

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __add__(self, other):
        return SafeStrTuple(*(self.str_chain + SafeStrTuple(other).str_chain))

    def __radd__(self, other):
        return SafeStrTuple(*(SafeStrTuple(other).str_chain + self.str_chain))

    def __contains__(self, item):
        return item in self.str_chain

    def __reversed__(self):
        return SafeStrTuple(*reversed(self.str_chain))
