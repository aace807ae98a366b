"""Stand-in with the API of the old persidict releases (file_type, immutable_items, str_chain,
...) that Pythagoras 0.17.2 is written against and that is not installed here. See /verif/DESIGN.md."""
from .safe_chars import get_safe_chars, replace_unsafe_chars, SAFE_CHARS_SET, SAFE_STRING_MAX_LENGTH
from .safe_str_tuple import SafeStrTuple
from .persi_dict import PersiDict, PersiDictKey
from .file_dir_dict import FileDirDict
