"""Run-time values of the symbolic interpreter.

Immutable symbolic values are `Sym(kind, term)`; plain host values (int, str, bool, None, float, enum members,
classes, functions, modules) stand for themselves; everything mutable is a heap object whose state lives in the
`f` dict ("cells") and is only changed through Run.set so that it can be rolled back."""
from __future__ import annotations

import z3

from . import kinds as K


class NeverEnds(BaseException):
    """The program loops for ever here."""


class Unsupported(Exception):
    pass


class Sym:
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return f"<{self.kind}:{self.t}>"


class BotK(K.Kind):
    key = "Bot"


Bot = BotK()


class SeqV:
    """Immutable sequence value: segments ('i', value) or ('s', Sym of Seq kind)."""

    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if s[0] == "s":
                t = s[1].t
                from .prover import is_empty_seq

                if is_empty_seq(t):
                    continue
            out.append(s)
        self.segs = tuple(out)

    @staticmethod
    def of(items):
        return SeqV([("i", v) for v in items])

    @staticmethod
    def sym(s):
        return SeqV([("s", s)])

    def concrete(self):
        return all(s[0] == "i" for s in self.segs)

    def items(self):
        assert self.concrete()
        return [s[1] for s in self.segs]

    def __add__(self, o):
        return SeqV(self.segs + o.segs)


class Obj:
    oid = -1

    def __init__(self, run):
        self.oid = run.new_oid()
        self.f = {}


class PList(Obj):
    def __init__(self, run, sv):
        super().__init__(run)
        self.f["v"] = sv


class PSet(Obj):
    """f['v']: Sym(SetK) or host list of distinct host values (concrete)."""

    def __init__(self, run, v):
        super().__init__(run)
        self.f["v"] = v


class PDict(Obj):
    """Either concrete (host-keyed dict `d`) or symbolic Map; insertion order is not modelled for Map."""

    def __init__(self, run, v):
        super().__init__(run)
        self.f["v"] = v  # host dict | Sym(Map)


class PObj(Obj):
    def __init__(self, run, cls, attrs=None):
        super().__init__(run)
        self.cls = cls
        self.f.update(attrs or {})


class PExc(Obj):
    def __init__(self, run, cls, args=()):
        super().__init__(run)
        self.cls = cls
        self.f["args"] = args


class PGen(Obj):
    """Generator/iterator. thunk() -> SeqV, forced at first use; then a position in the trace."""

    def __init__(self, run, thunk=None, trace=None, label="gen"):
        super().__init__(run)
        self.thunk = thunk
        self.f["trace"] = trace
        self.f["pos"] = 0
        self.f["rest"] = trace  # unconsumed part
        self.label = label


class PTake(PGen):
    """The first n values of a never-ending iterator, drawn when asked for."""

    def __init__(self, run, thunk, it, n):
        super().__init__(run, thunk, label="islice")
        self.it = it
        self.f["left"] = n


class PIter(Obj):
    """Never-ending iterator: nextf(run) -> value (may change the world)."""

    def __init__(self, run, nextf, label="iter"):
        super().__init__(run)
        self.nextf = nextf
        self.label = label


class PFun(Obj):
    """Closure (nested def or lambda)."""

    def __init__(self, run, node, env, name, defaults=None, kwdefaults=None):
        super().__init__(run)
        self.node, self.env, self.name = node, env, name
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}


class Bound:
    def __init__(self, self_v, fn, name):
        self.self_v, self.fn, self.name = self_v, fn, name


class Builtin:
    """Engine-provided callable."""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class PRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step


class Env(Obj):
    def __init__(self, run, parent, glob):
        super().__init__(run)
        self.parent, self.glob = parent, glob
