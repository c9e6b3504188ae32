"""Canonical form of the complete concrete object graph of the implementation.

Used only to merge states during exploration, never for a verdict. Every
attribute of every reachable object is included (also attributes a change to the
code may add); only float values (timestamps, which no operation reads back) are
abstracted. Objects are numbered in first-visit order, so aliasing is part of the
form.
"""
import collections
import hashlib
import re
import types
from pathlib import PurePath

_ATOM = (str, int, bool, type(None), bytes)


def canon(obj, out, memo):
    t = type(obj)
    if t in _ATOM:
        out.append(repr(obj))
        return
    if t is float:
        out.append("~")
        return
    oid = id(obj)
    if oid in memo:
        out.append("@%d" % memo[oid][0])
        return
    if isinstance(obj, PurePath):
        out.append("P" + str(obj))
        return
    memo[oid] = (len(memo), obj)
    if t is dict or isinstance(obj, dict):
        out.append("{")
        for k, v in obj.items():
            canon(k, out, memo)
            out.append(":")
            canon(v, out, memo)
            out.append(",")
        out.append("}")
        return
    if isinstance(obj, (list, tuple, collections.deque)):
        out.append("[")
        for v in obj:
            canon(v, out, memo)
            out.append(",")
        out.append("]")
        return
    if isinstance(obj, (set, frozenset)):
        parts = []
        for v in obj:
            sub = []
            canon(v, sub, dict(memo))
            parts.append("".join(sub))
        out.append("S(" + ",".join(sorted(parts)) + ")")
        return
    if isinstance(obj, types.FunctionType):
        out.append("F" + obj.__qualname__)
        for cell in obj.__closure__ or ():
            try:
                canon(cell.cell_contents, out, memo)
            except ValueError:
                out.append("?")
        if obj.__defaults__:
            canon(obj.__defaults__, out, memo)
        return
    if isinstance(obj, types.MethodType):
        out.append("M" + obj.__func__.__qualname__)
        canon(obj.__self__, out, memo)
        return
    if isinstance(obj, (type, types.ModuleType, types.BuiltinFunctionType, re.Pattern)):
        out.append(repr(obj))
        return
    d = getattr(obj, "__dict__", None)
    out.append("<" + t.__name__)
    if d is not None:
        for k in sorted(d):
            out.append(k + "=")
            canon(d[k], out, memo)
            out.append(";")
    for klass in t.__mro__:
        for k in getattr(klass, "__slots__", ()) or ():
            if isinstance(k, str) and hasattr(obj, k) and k not in ("__dict__", "__weakref__"):
                out.append(k + "=")
                canon(getattr(obj, k), out, memo)
    out.append(">")


def digest(*objs):
    out = []
    memo = {}
    for o in objs:
        canon(o, out, memo)
        out.append("#")
    return hashlib.blake2b("".join(out).encode("utf-8", "surrogatepass"), digest_size=16).digest()
