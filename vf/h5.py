"""Looking into result files independently of the code under test."""
import h5py
import numpy as np

from .core import Violation


def canon(v):
    if isinstance(v, np.ndarray):
        if v.dtype.kind == "O":
            return ("O", v.shape, tuple(repr(x) for x in v.flat))
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (np.generic,)):
        return (v.dtype.str, (), v.tobytes())
    return repr(v)


def dump(filename, skip=()):
    """{path: (kind, value, attributes)} of everything outside the paths in skip"""
    out = {}

    def visit(name, obj):
        path = "/" + name
        if any(path == s or path.startswith(s.rstrip("/") + "/") for s in skip):
            return
        attrs = {k: canon(v) for k, v in obj.attrs.items()}
        if isinstance(obj, h5py.Dataset):
            out[path] = ("data", canon(obj[()]), attrs)
        else:
            out[path] = ("group", None, attrs)

    with h5py.File(filename, "r") as f:
        out["/"] = ("group", None, {k: canon(v) for k, v in f.attrs.items()})
        f.visititems(visit)
        for name, link in links(f):
            out["link " + name] = link
    return out


def links(f):
    out = []

    def walk(g, prefix):
        for k in g:
            link = g.get(k, getlink=True)
            if isinstance(link, (h5py.SoftLink, h5py.ExternalLink)):
                out.append((prefix + k, repr((type(link).__name__, link.path))))
            elif isinstance(g[k], h5py.Group):
                walk(g[k], prefix + k + "/")

    walk(f, "/")
    return out


def diff(a, b):
    """text with the differences of two dumps, empty if equal"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append(f"{k} added")
        elif k not in b:
            out.append(f"{k} removed")
        elif a[k] != b[k]:
            out.append(f"{k} changed")
    return "; ".join(out[:10])


def read(filename, path):
    """value of a dataset; a missing one is a violation"""
    with h5py.File(filename, "r") as f:
        if path not in f:
            raise Violation(f"{path} is missing in the file")
        obj = f[path]
        if isinstance(obj, h5py.Group):
            raise Violation(f"{path} is a group instead of a value")
        v = obj[()]
    return v.decode() if isinstance(v, bytes) else v


def names(filename, path):
    with h5py.File(filename, "r") as f:
        if path not in f:
            return []
        return sorted(f[path])
