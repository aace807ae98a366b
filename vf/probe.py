"""The module functions under test import as `vprobe` to report that they run, and to
be told what to do. A scenario sets the hooks."""
import sys
import types


def install(**hooks):
    m = sys.modules.get("vprobe")
    if m is None:
        m = types.ModuleType("vprobe")
        sys.modules["vprobe"] = m
    for k, v in hooks.items():
        setattr(m, k, v)
    return m
