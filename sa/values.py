"""Abstract values that are not plain terms, and the layered store."""
from __future__ import annotations
from .terms import T, ite, TRUE, FALSE


class Undecided(Exception):
    """The analysis met something it does not model."""


class FuncV:
    __slots__ = ("node", "mod", "fid", "cls", "defaults", "kwdefaults", "qual", "kind", "name")

    def __init__(self, node, mod, fid, cls, defaults, kwdefaults, qual, kind="func"):
        self.node, self.mod, self.fid, self.cls = node, mod, fid, cls
        self.defaults, self.kwdefaults, self.qual, self.kind = defaults, kwdefaults, qual, kind
        self.name = getattr(node, "name", "<lambda>")


class BoundV:
    __slots__ = ("f", "self")

    def __init__(self, f, self_):
        self.f, self.self = f, self_


class PyF:
    """Callable implemented by the analyser (partial application, transforms)."""
    __slots__ = ("fn", "nargs", "term", "label", "data")

    def __init__(self, fn, nargs=1, term=None, label="pyf", data=None):
        self.fn, self.nargs, self.term, self.label, self.data = fn, nargs, term, label, data


class ClassV:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.bases = []
        self.attrs = {}
        self.fields = []          # [(name, default node|None, annotation)]
        self.is_dataclass = False
        self.is_namedtuple = False
        self.is_enum = False
        self.ann = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def all_fields(self):
        out = {}
        for c in reversed(self.mro()):
            for f in c.fields:
                out[f[0]] = f
        return list(out.values())

    def annotation(self, name):
        for c in self.mro():
            if name in c.ann:
                return c.ann[name], c.mod
        return None, None


class ModV:
    def __init__(self, name):
        self.name = name


class TupV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class RefV:
    __slots__ = ("id", "kind", "cls")

    def __init__(self, id, kind, cls=None):
        self.id, self.kind, self.cls = id, kind, cls


class SeqV:
    """Lazy sequence: known items, or (count term, elem(i))."""
    __slots__ = ("items", "n", "elem", "guard")

    def __init__(self, items=None, n=None, elem=None):
        self.items, self.n, self.elem = items, n, elem
        self.guard = None


class IteV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Missing:
    pass


MISSING = Missing()


class Layer:
    __slots__ = ("parent", "data", "depth", "cache")

    def __init__(self, parent):
        self.parent, self.data = parent, {}
        self.depth = parent.depth + 1 if parent else 0
        self.cache = {}


class St:
    """Store: chain of layers plus path facts."""
    __slots__ = ("top", "facts", "path")

    def __init__(self, top, facts=None, path=TRUE):
        self.top, self.facts, self.path = top, facts if facts is not None else {}, path

    def get(self, key, default=MISSING):
        l = self.top
        if key in l.data:
            return l.data[key]
        p = l.parent
        if p is None:
            return default
        if key in p.cache:
            return p.cache[key]
        q = p
        while q is not None:
            if key in q.data:
                v = q.data[key]
                if q is not p and p.parent is not None and q.parent is not None:
                    p.cache[key] = v
                return v
            q = q.parent
        return default

    def set(self, key, v):
        self.top.data[key] = v

    def freeze(self):
        if self.top.data or self.top.parent is None:
            self.top = Layer(self.top)
        else:
            self.top = Layer(self.top.parent)

    def fork(self):
        self.freeze()
        return St(Layer(self.top.parent), dict(self.facts), self.path)


def ancestor(a, b):
    while a is not b:
        if a.depth >= b.depth:
            a = a.parent
        else:
            b = b.parent
        if a is None or b is None:
            return None
    return a


def changed(layer, anc):
    keys = {}
    l = layer
    while l is not anc and l is not None:
        for k in l.data:
            keys[k] = True
        l = l.parent
    return keys
