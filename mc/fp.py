"""A deep fingerprint of real objects: everything reachable, with aliasing, so that equal fingerprints mean the same
future behaviour.  Used to merge equal states in explicit-state searches."""
import asyncio
import enum
import io
import types
from datetime import datetime
from fractions import Fraction
from uuid import UUID

ATOMS = (int, float, str, bytes, bool, type(None), UUID, Fraction, datetime, complex)


def fingerprint(*roots, rename=None):
    """A hashable description of the object graph.  ``rename`` maps atoms (e.g. random identifiers) before use."""
    seen = {}
    out = []

    def walk(o):
        if isinstance(o, enum.Enum):
            out.append(("enum", type(o).__name__, o.name))
            return
        if isinstance(o, ATOMS) and type(o) in ATOMS:
            if rename is not None:
                o = rename(o)
            out.append((type(o).__name__, repr(o)))
            return
        if id(o) in seen:
            out.append(("ref", seen[id(o)]))
            return
        seen[id(o)] = len(seen)
        keep.append(o)
        t = type(o)
        name = t.__module__ + "." + t.__qualname__
        if isinstance(o, (list, tuple)):
            out.append(("seq", name, len(o)))
            for x in o:
                walk(x)
            if hasattr(o, "__dict__"):
                walk(o.__dict__)
        elif isinstance(o, dict):
            out.append(("dict", name, len(o)))
            for k, v in o.items():
                walk(k)
                walk(v)
        elif isinstance(o, (set, frozenset)):
            out.append(("set", sorted(map(repr, o))))
        elif isinstance(o, bytearray):
            out.append(("bytearray", bytes(o)))
        elif isinstance(o, memoryview):
            out.append(("memoryview", bytes(o), o.format))
        elif isinstance(o, io.BytesIO):
            out.append(("BytesIO", o.closed or o.getvalue(), o.closed or o.tell()))
        elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type)):
            out.append(("code", getattr(o, "__qualname__", repr(o))))
        elif isinstance(o, types.MethodType):
            out.append(("method", o.__func__.__qualname__))
            walk(o.__self__)
        elif isinstance(o, asyncio.AbstractEventLoop):
            out.append(("loop",))
        elif name.startswith("numpy."):
            import numpy as np
            if isinstance(o, np.ndarray):
                out.append(("ndarray", o.dtype.str, o.shape, o.strides, o.tobytes()))
            else:
                out.append(("numpy", name, repr(o)))
        elif isinstance(o, asyncio.Lock):
            out.append(("lock", o.locked()))
        elif hasattr(o, "__dict__") or hasattr(t, "__slots__"):
            out.append(("obj", name))
            if hasattr(o, "__dict__"):
                walk(object.__getattribute__(o, "__dict__"))
            for c in t.__mro__:
                sl = c.__dict__.get("__slots__", ())
                for s in ((sl,) if isinstance(sl, str) else sl):
                    if s in ("__dict__", "__weakref__"):
                        continue
                    try:
                        v = object.__getattribute__(o, s)
                    except AttributeError:
                        continue
                    out.append(s)
                    walk(v)
        else:
            out.append(("other", name, repr(o)))

    keep = []
    for r in roots:
        walk(r)
    return tuple(out)
