"""URL/filename-safe characters, as in the persidict releases Pythagoras 0.17 was written for."""
import string

SAFE_CHARS_SET = set(string.ascii_letters + string.digits + "()_-~.=")
SAFE_STRING_MAX_LENGTH = 254


def get_safe_chars():
    return SAFE_CHARS_SET.copy()


def replace_unsafe_chars(a_str, replace_with):
    return "".join(c if c in SAFE_CHARS_SET else replace_with for c in a_str)
