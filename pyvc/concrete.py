"""Concrete side of a contract: run the real function and the executable spec on the same arguments."""
from __future__ import annotations

import contextlib
import copy
import dataclasses
import itertools
import pickle
import base64
import random
import signal
import types

import z3

from . import kinds as K
from .contract import Const

ALPHA = ["a", "b", "c", "A", "x1", "1", "0", "-", "_", "__", "/", "\\", "..", ".", "...", ",", ", ", " ", "  ", "\t", "\n", "#", "::", ":", "$", "*", "**", "{", "}", "|", "é", "…", "(", ")", "!", "~", "@"]


def text(rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    return "".join(rng.choice(ALPHA) for _ in range(n))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.pool = [text(rng) for _ in range(3)]
        if rng.random() < 0.4:  # texts a sloppy comparison would take for the same
            a = self.pool[0] or "ab"
            self.pool[:2] = [a, rng.choice([a.upper(), a.swapcase(), a + " ", " " + a, a + a, a[:-1], a[::-1], a + "\n"])]

    def value(self, kind, depth=2):
        r = self.rng
        if isinstance(kind, Const):
            return kind.v
        if hasattr(kind, "concrete"):
            return kind.concrete(self)
        if kind == K.Int:
            return r.choice([-2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 7])
        if kind == K.Bool:
            return r.random() < 0.5
        if kind == K.Str:
            if r.random() < 0.3:
                return r.choice(self.pool)
            if r.random() < 0.2:
                return r.choice(self.pool) + text(r, 1) + r.choice(self.pool)
            return text(r)
        if kind == K.Real:
            return r.choice([0.0, 0.25, 0.5, 0.999, 1.0, 1.0, 1.5, 2.0, 2.5, 3.0, 3.7])
        if kind == K.NoneKind:
            return None
        if isinstance(kind, K.Opt):
            return None if r.random() < 0.35 else self.value(kind.k, depth)
        if isinstance(kind, K.Union):
            return self.value(r.choice(kind.alts), depth)
        if isinstance(kind, K.Seq):
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            xs = [self.value(kind.elem, depth) for _ in range(n)]
            if xs and r.random() < 0.3:
                xs.append(copy.copy(r.choice(xs)))
            return tuple(xs) if kind.py == "tuple" else xs
        if isinstance(kind, K.SetK):
            return {self.value(kind.elem, depth) for _ in range(r.choice([0, 1, 2]))}
        if isinstance(kind, K.Tup):
            return tuple(self.value(k, depth) for k in kind.ks)
        if isinstance(kind, K.Map):
            return {self.value(kind.k, depth): self.value(kind.v, depth) for _ in range(r.choice([0, 0, 1, 2]))}
        if isinstance(kind, K.Enum):
            return r.choice(kind.members)
        if isinstance(kind, K.Rec):
            return kind.cls(**{n: self.value(k, depth) for n, k in kind.fields})
        if isinstance(kind, K.Cmd):
            cls = kind.cls
            order = [c for c in kind.registry["order"] if kind.registry["fields"][c]]
            if cls is None:
                cls = r.choice(order) if depth > 0 else order[0]
            own = {f.name for f in dataclasses.fields(cls)}
            return cls(**{n: self.value(k, depth - 1) for n, k in kind.registry["fields"][cls] if n in own})
        if isinstance(kind, K.ObjK):
            o = object.__new__(kind.cls)
            for a, k in kind.attrs.items():
                object.__setattr__(o, a, self.value(k, depth))
            return o
        raise NotImplementedError(kind)


def from_model(kind, t, model):
    """Python value of a parameter in a counter-model (simple kinds only)."""
    v = model.eval(t, model_completion=True)
    if kind == K.Int:
        return v.as_long()
    if kind == K.Bool:
        return z3.is_true(v)
    if kind == K.Real:
        return float(v.as_fraction())
    if kind == K.Str:
        s = v.as_string()
        import re

        return re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    if isinstance(kind, K.Opt):
        if z3.is_true(model.eval(kind.is_none(v), model_completion=True)):
            return None
        return from_model(kind.k, kind.val(v), model)
    if isinstance(kind, K.Seq):
        n = model.eval(z3.Length(v), model_completion=True).as_long()
        if n > 12:
            raise ValueError("long")
        xs = [from_model(kind.elem, v[i], model) for i in range(n)]
        return tuple(xs) if kind.py == "tuple" else xs
    if isinstance(kind, K.Tup):
        return tuple(from_model(k, kind.get(v, i), model) for i, k in enumerate(kind.ks))
    if isinstance(kind, K.Rec):
        return kind.cls(**{n: from_model(k, kind.get(v, n), model) for n, k in kind.fields})
    if isinstance(kind, K.Union):
        for i, a in enumerate(kind.alts):
            if z3.is_true(model.eval(kind.is_alt(i, v), model_completion=True)):
                return from_model(a, kind.out(i, v), model)
    if isinstance(kind, K.Enum):
        for m in kind.members:
            if z3.is_true(model.eval(v == kind.const(m), model_completion=True)):
                return m
    raise ValueError(kind)


def model_args(c, model):
    out = {}
    for n, k in c.params.items():
        if isinstance(k, Const):
            out[n] = k.v
        elif isinstance(k, K.ObjK):
            o = object.__new__(k.cls)
            for a, kk in k.attrs.items():
                object.__setattr__(o, a, from_model(kk, z3.Const(f"{n}.{a}", kk.sort()), model))
            out[n] = o
        else:
            out[n] = from_model(k, z3.Const(n, k.sort()), model)
    return out


def norm(v, depth=0, limit=400):
    """Comparable form of a result; generators are consumed (bounded)."""
    if isinstance(v, types.GeneratorType) or hasattr(v, "__next__"):
        return ("seq", [norm(x, depth + 1) for x in itertools.islice(v, limit)])
    if isinstance(v, (list, tuple)) or type(v).__name__ in ("dict_keys", "dict_values", "dict_items"):
        return ("seq", [norm(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("map", sorted(((repr(k), norm(x, depth + 1)) for k, x in v.items()), key=lambda p: p[0]))
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(repr(norm(x, depth + 1)) for x in v))
    if isinstance(v, bool):
        return ("num", float(v))
    if isinstance(v, (int, float)):
        return ("num", float(v))
    if hasattr(type(v), "__norm__"):  # stand-ins of the environment: their progress is not the object's own state
        return v.__norm__()
    if isinstance(v, random.Random):
        return ("rng", v.getstate())
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (type(v).__name__, [(f.name, norm(getattr(v, f.name), depth + 1)) for f in dataclasses.fields(v)])
    if hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType, types.ModuleType)) and depth < 6:
        return (type(v).__name__, [(k, norm(x, depth + 1)) for k, x in sorted(v.__dict__.items())])
    return v


def outcome(f, args):
    try:
        return ("return", norm(f(**args)))
    except Exception as e:  # noqa: BLE001
        return ("raise", e)


def deep(args):
    return copy.deepcopy(args)


def check_case(c, args):
    """None if the contract holds on these concrete arguments, else a message.  NotImplemented: outside `requires`."""
    import inspect

    spec = c.spec or c.concrete_spec
    if c.requires is not None:
        names = inspect.signature(c.requires).parameters
        if not c.requires(**{k: args[k] for k in names}):
            return NotImplemented
    before = deep(args)
    spec_args = deep(args)
    pristine = deep(args)
    args = {k: v for k, v in args.items() if k not in c.ghost}
    real_args = {k: (iter(v) if isinstance(c.params[k], K.Seq) and c.params[k].py == "gen" else v) for k, v in before.items() if k in args}
    fn = c.fn
    try:  # the function may have been given another signature: then this contract says nothing about it
        inspect.signature(fn).bind(**real_args)
    except (TypeError, ValueError):
        if not getattr(c, "real_concrete", None):
            return NotImplemented
    source = random.getstate()  # the process-wide source is part of the world: the same for code and spec
    try:
        raw = ("return", c.real_concrete(**real_args) if getattr(c, "real_concrete", None) else fn(**real_args))
    except RecursionError:
        return NotImplemented
    except Exception as e:  # noqa: BLE001
        raw = ("raise", e)
    if raw[0] == "raise" and isinstance(raw[1], AttributeError) and any(isinstance(k, K.ObjK) for k in c.params.values()):
        return NotImplemented  # an attribute the contract's object does not have
    for n, k in c.params.items():  # state kept in other attributes than those the contract describes
        if isinstance(k, K.ObjK) and set(getattr(before[n], "__dict__", ())) - set(getattr(pristine[n], "__dict__", ())) - set(k.attrs):
            return NotImplemented
    if raw[0] == "return":
        try:
            got = ("return", norm(raw[1]))
        except Exception as e:  # noqa: BLE001  (a generator that raises)
            got = ("raise", e)
    else:
        got = raw
    if spec is not None:
        names = inspect.signature(spec).parameters
        random.setstate(source)
        want = outcome(spec, {k: spec_args[k] for k in names})
        if want[0] == "raise" and not isinstance(want[1], Exception):
            want = ("raise", want[1])
        if got[0] != want[0]:
            return f"expected {show(want)}, got {show(got)}"
        if got[0] == "raise":
            if not isinstance(got[1], type(want[1])):
                return f"expected {show(want)}, got {show(got)}"
        elif got[1] != want[1]:
            return f"expected {show(want)}, got {show(got)}"
    for n, f in c.ensures.items():
        if got[0] == "raise":
            if spec is None:
                return f"raised {got[1]!r}"
            continue
        kw = {}
        for x in inspect.signature(f).parameters:
            if x == "result":
                continue
            kw[x] = before[x[4:]] if x.startswith("new_") else pristine[x]
        if not f(result=raw[1], **kw):
            return f"postcondition {n} does not hold; got {show(got)}"
    for n in args:
        if n == "self" and got[0] == "raise" and c.target.endswith(".__init__"):
            continue
        if n in c.loose or isinstance(c.params[n], K.Seq) and c.params[n].py == "gen" or isinstance(c.params[n], Const):
            continue
        ref = spec_args[n] if n in c.frame and spec is not None else pristine[n]
        if n in c.frame and spec is None:
            continue
        if isinstance(c.params[n], K.ObjK):
            if all(norm(getattr(before[n], a, None)) == norm(getattr(ref, a, None)) for a in c.params[n].attrs):
                continue
            return f"state of {n} changed: {show(norm(ref))} -> {show(norm(before[n]))}"
        if norm(before[n]) != norm(ref):
            return f"argument {n} changed: {show(norm(ref))} -> {show(norm(before[n]))}"
    return None


def show(v):
    return repr(v)[:400]


class CaseTimeout(BaseException):
    pass


@contextlib.contextmanager
def time_limit(s):
    def hit(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGVTALRM, hit)
    signal.setitimer(signal.ITIMER_VIRTUAL, s)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def fuzz(c, n, seed, model=None, deadline=None):
    """(message, args) of a failing case or (None, cases run)"""
    import time

    run = 0
    if c.fn is None:
        return None, 0
    if model is not None:
        try:
            args = model_args(c, model)
            m = check_case(c, args)
            if m is not None and m is not NotImplemented:
                return m, args
            run += 1
        except Exception:
            pass
    rng = random.Random(f"{c.target}-{seed}")
    for _ in range(n):
        if deadline and time.time() > deadline:
            break
        try:
            g = Gen(rng)
            args = c.fuzz(g) if c.fuzz else {p: g.value(k) for p, k in {**c.params, **c.ghost}.items()}
        except (NotImplementedError, TypeError, ValueError, AssertionError):
            return None, run
        try:
            with time_limit(2.0):
                m = check_case(c, args)
        except (RecursionError, CaseTimeout, MemoryError):
            continue
        if m is NotImplemented:
            continue
        run += 1
        if m is not None:
            return m, args
    return None, run


def dump(args):
    try:
        return base64.b64encode(pickle.dumps(args)).decode()
    except Exception:
        return None


def load(s):
    return pickle.loads(base64.b64decode(s))
