"""Seam for the iteration order of sets: inside pybbn's graph modules, `set` is replaced by a
subclass whose iteration order is a seeded permutation, stable while the set is unchanged."""
import builtins
import zlib

_salt = 0


def reset(salt):
    global _salt
    _salt = salt


class _Meta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.set)


def _fixed(e):
    """Does this hash to the same number in every process?"""
    return type(e) in (int, float, bool) or (type(e) is tuple and all(map(_fixed, e)))


def _text(e):
    if isinstance(e, (int, str, tuple, float)):
        return repr(e)
    return f"<{getattr(e, 'id', e)}>"


class SimSet(set, metaclass=_Meta):
    def _order(self):
        s = _salt
        if s == 0:
            return list(set.__iter__(self))
        if s < 0 and all(map(_fixed, set.__iter__(self))):
            return list(set.__iter__(self))     # hash randomisation does not touch these
        return sorted(set.__iter__(self), key=lambda e: (zlib.crc32(f"{s}:{_text(e)}".encode()), _text(e)))

    def __iter__(self):
        n = len(self)
        for e in self._order():
            if len(self) != n:
                raise RuntimeError("Set changed size during iteration")
            yield e
        if len(self) != n:
            raise RuntimeError("Set changed size during iteration")

    def pop(self):
        for e in self._order():
            self.discard(e)
            return e
        raise KeyError("pop from an empty set")

    def __reduce__(self):
        return (SimSet, (list(set.__iter__(self)),))


def install():
    import pybbn.graph.graph
    import pybbn.graph.jointree
    import pybbn.graph.node
    for m in (pybbn.graph.graph, pybbn.graph.jointree, pybbn.graph.node):
        m.set = SimSet
