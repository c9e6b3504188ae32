"""Copies worlds inside one process: pickle, extended to local functions and lambdas."""
import io
import pickle
import types

_CODES = {}


def _mkfunc(key, n):
    code, glob, name, qual, kwd = _CODES[key]
    f = types.FunctionType(code, glob, name, None, tuple(types.CellType() for _ in range(n)))
    f.__qualname__ = qual
    f.__kwdefaults__ = kwd
    return f


def _setcells(f, state):
    cells, defaults = state
    for cell, content in zip(f.__closure__ or (), cells):
        if content:
            cell.cell_contents = content[0]
    f.__defaults__ = defaults


class _Pickler(pickle.Pickler):
    def reducer_override(self, obj):
        if type(obj) is types.FunctionType and ("<locals>" in obj.__qualname__ or "<lambda>" in obj.__qualname__):
            key = (id(obj.__code__), obj.__qualname__)
            _CODES[key] = (obj.__code__, obj.__globals__, obj.__name__, obj.__qualname__, obj.__kwdefaults__)
            cells = []
            for c in obj.__closure__ or ():
                try:
                    cells.append((c.cell_contents,))
                except ValueError:
                    cells.append(())
            return (_mkfunc, (key, len(cells)), (cells, obj.__defaults__), None, None, _setcells)
        return NotImplemented


def freeze(obj):
    buf = io.BytesIO()
    _Pickler(buf, -1).dump(obj)
    return buf.getvalue()


thaw = pickle.loads


def clone(obj):
    return thaw(freeze(obj))
