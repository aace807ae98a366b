"""Adds/removes a collision-avoiding digest suffix to/from every string of a key."""
import base64
import hashlib

from .safe_str_tuple import SafeStrTuple


def create_digest(s, digest_len):
    if digest_len == 0:
        return ""
    raw = hashlib.md5(s.encode()).digest()
    return "_" + base64.b32encode(raw).decode().lower().rstrip("=")[:digest_len]


def sign_safe_str_tuple(key, digest_len):
    key = SafeStrTuple(key)
    return key if digest_len == 0 else SafeStrTuple(
        *[s if s.endswith(create_digest(s[:-digest_len - 1], digest_len))
          and len(s) > digest_len + 1 else s + create_digest(s, digest_len) for s in key.str_chain])


def unsign_safe_str_tuple(key, digest_len):
    key = SafeStrTuple(key)
    if digest_len == 0:
        return key
    out = []
    for s in key.str_chain:
        if len(s) > digest_len + 1 and s.endswith(create_digest(s[:-digest_len - 1], digest_len)):
            s = s[:-digest_len - 1]
        out.append(s)
    return SafeStrTuple(*out)
