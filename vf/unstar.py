"""
Call a function whose *items parameter is to be a symbolic sequence.

A star call would build a concrete tuple.  `unstar(f)` is the same code object
with the varargs flag cleared, so that the sequence is handed in directly as a
keyword argument; nothing else of the function changes.
"""
import inspect
import types


def unstar(f):
    co = f.__code__
    if not co.co_flags & inspect.CO_VARARGS:
        raise TypeError(f"{f.__qualname__} takes no *args")
    name = co.co_varnames[co.co_argcount + co.co_kwonlyargcount]
    new = co.replace(co_flags=co.co_flags & ~inspect.CO_VARARGS,
                     co_kwonlyargcount=co.co_kwonlyargcount + 1)
    g = types.FunctionType(new, f.__globals__, f.__name__, f.__defaults__,
                           f.__closure__)
    g.__kwdefaults__ = f.__kwdefaults__
    return g, name


class SymSeq:
    """n items, n symbolic; iteration shows `item` at an arbitrary position
    k (0 <= k < n), or the end"""

    def __init__(self, n, shown):
        self.n, self.shown = n, shown
        self.ended = False

    def __len__(self):
        return self.n

    def __iter__(self):
        yield from self.shown
        self.ended = True
