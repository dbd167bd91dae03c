"""Kinds: the verifier's static types, each mapped to a z3 sort."""
from __future__ import annotations

import z3

_sort_cache: dict = {}


class Kind:
    key: str

    def sort(self):
        if self.key not in _sort_cache:
            _sort_cache[self.key] = self._mk()
        return _sort_cache[self.key]

    def __eq__(self, o):
        return isinstance(o, Kind) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class _Prim(Kind):
    def __init__(self, key, mk):
        self.key = key
        self._m = mk

    def _mk(self):
        return self._m()


Int = _Prim("Int", z3.IntSort)
Bool = _Prim("Bool", z3.BoolSort)
Str = _Prim("Str", z3.StringSort)
Real = _Prim("Real", z3.RealSort)


class NoneK(Kind):
    key = "None"

    def _mk(self):
        s, _ = z3.EnumSort("NoneT", ["None_"])
        return s


NoneKind = NoneK()


class Opaque(Kind):
    """Uninterpreted sort; `cls` is the real class the values belong to (may be None)."""

    def __init__(self, name, cls=None):
        self.key = f"Op_{name}"
        self.name = name
        self.cls = cls

    def _mk(self):
        return z3.DeclareSort(self.name)


class Seq(Kind):
    def __init__(self, elem: Kind, py: str = "list"):
        self.elem = elem
        self.py = py  # list | tuple  (python-level flavour, not part of the sort)
        self.key = f"Seq<{elem.key}>"

    def _mk(self):
        return z3.SeqSort(self.elem.sort())


class SetK(Kind):
    def __init__(self, elem: Kind):
        self.elem = elem
        self.key = f"Set<{elem.key}>"

    def _mk(self):
        return z3.ArraySort(self.elem.sort(), z3.BoolSort())


class Opt(Kind):
    def __init__(self, k: Kind):
        self.k = k
        self.key = f"Opt<{k.key}>"

    def _mk(self):
        n = _san(self.key)
        d = z3.Datatype(n)
        d.declare("none_" + n)
        d.declare("some_" + n, ("val_" + n, self.k.sort()))
        return d.create()

    def none(self):
        s = self.sort()
        return s.constructor(0)()

    def some(self, t):
        return self.sort().constructor(1)(t)

    def is_none(self, t):
        return self.sort().recognizer(0)(t)

    def val(self, t):
        return self.sort().accessor(1, 0)(t)


class Map(Kind):
    """Finite map: array from key to Opt<value>."""

    def __init__(self, k: Kind, v: Kind):
        self.k, self.v = k, v
        self.opt = Opt(v)
        self.key = f"Map<{k.key},{v.key}>"

    def _mk(self):
        return z3.ArraySort(self.k.sort(), self.opt.sort())

    def empty(self):
        return z3.K(self.k.sort(), self.opt.none())


class Tup(Kind):
    def __init__(self, *ks: Kind):
        self.ks = ks
        self.key = "Tup<" + ",".join(k.key for k in ks) + ">"

    def _mk(self):
        n = _san(self.key)
        d = z3.Datatype(n)
        d.declare("mk_" + n, *[(f"f{i}_{n}", k.sort()) for i, k in enumerate(self.ks)])
        return d.create()

    def make(self, ts):
        return self.sort().constructor(0)(*ts)

    def get(self, t, i):
        return self.sort().accessor(0, i)(t)


class Enum(Kind):
    def __init__(self, cls):
        self.cls = cls
        self.key = f"Enum_{cls.__name__}"
        self.members = list(cls)

    def _mk(self):
        s, vs = z3.EnumSort(self.key, [f"{self.cls.__name__}_{m.name}" for m in self.members])
        self._vals = vs
        _sort_cache[self.key + "#vals"] = vs
        return s

    def const(self, m):
        self.sort()
        return _sort_cache[self.key + "#vals"][self.members.index(m)]


class Rec(Kind):
    """Immutable dataclass, by value."""

    def __init__(self, name, cls, fields):
        self.key = f"Rec_{name}"
        self.name = name
        self.cls = cls
        self.fields = fields  # list[(name, Kind)]

    def _mk(self):
        d = z3.Datatype(self.key)
        d.declare("mk_" + self.key, *[(f"{self.key}_{n}", k.sort()) for n, k in self.fields])
        return d.create()

    def make(self, ts):
        return self.sort().constructor(0)(*ts)

    def get(self, t, name):
        i = [n for n, _ in self.fields].index(name)
        return self.sort().accessor(0, i)(t)

    def fkind(self, name):
        return dict(self.fields)[name]


class Union(Kind):
    """Tagged union of python values of different kinds."""

    def __init__(self, name, *alts: Kind):
        self.key = f"Un_{name}"
        self.name = name
        self.alts = alts

    def _mk(self):
        d = z3.Datatype(self.key)
        for i, k in enumerate(self.alts):
            d.declare(f"in{i}_{self.key}", (f"out{i}_{self.key}", k.sort()))
        return d.create()

    def inj(self, i, t):
        return self.sort().constructor(i)(t)

    def is_alt(self, i, t):
        return self.sort().recognizer(i)(t)

    def out(self, i, t):
        return self.sort().accessor(i, 0)(t)


class Cmd(Kind):
    """Values of a class hierarchy (the repository's Command classes), by value.

    `classes`: dict class -> list[(field, Kind)].  Each value has an integer tag; fields are selectors."""

    def __init__(self, name, base, cls=None, registry=None):
        self.key = f"Hier_{name}"
        self.name = name
        self.base = base
        self.cls = cls  # statically known class or None
        self.registry = registry  # shared dict

    def _mk(self):
        return z3.DeclareSort(self.key)

    def narrowed(self, cls):
        return Cmd(self.name, self.base, cls, self.registry)

    def tagf(self):
        return z3.Function("tag_" + self.key, self.sort(), z3.IntSort())

    def tag(self, cls):
        return self.registry["order"].index(cls)

    def sel(self, cls, field):
        k = self.fkind(cls, field)
        return z3.Function(f"{cls.__name__}.{field}", self.sort(), k.sort()), k

    def fkind(self, cls, field):
        return dict(self.registry["fields"][cls])[field]

    def mk(self, cls):
        ks = [k.sort() for _, k in self.registry["fields"][cls]]
        return z3.Function("mkc_" + cls.__name__, *ks, self.sort())


class GenRef(Kind):
    """Reference to a never-ending generator whose state lives in the world."""

    key = "GenRef"

    def _mk(self):
        return z3.IntSort()


GenRefK = GenRef()


class FnK(Kind):
    """Uninterpreted pure function parameter."""

    def __init__(self, args, ret):
        self.args, self.ret = args, ret
        self.key = "Fn<" + ",".join(a.key for a in args) + "->" + ret.key + ">"


class ObjK(Kind):
    """Heap object of a real class with symbolic attributes (for `self` parameters)."""

    def __init__(self, cls, **attrs):
        self.cls = cls
        self.attrs = attrs
        self.key = f"Obj_{cls.__name__}"


def _san(s):
    out = []
    for ch in s:
        out.append(ch if ch.isalnum() else "_")
    return "".join(out)
