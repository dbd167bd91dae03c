"""Symbolic interpreter for the repository's Python source (see DESIGN.md for the supported subset).

Paths are explored by replaying decision prefixes; loops over symbolic sequences are summarised as flat-maps or
folds; every side effect goes through Run.set so that loop bodies can be explored and rolled back."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import functools
import importlib
import inspect
import itertools
import textwrap
import types

import z3

from . import kinds as K
from .prover import UN, Prover, eliminate, Registry, concat, free_consts, is_concat, is_empty_seq, is_unit, subst
from .values import (
    Bot, Bound, Builtin, Env, Obj, PDict, PExc, PFun, PGen, PIter, PList, PObj, PRange, PSet, SeqV, Sym,
    Unsupported,
)


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Raised(Exception):
    def __init__(self, exc):
        self.exc = exc


class Budget(Unsupported):
    pass


class Endless(Exception):
    """The generator being evaluated never ends: its first yields, then the given tail (see Tail)."""

    def __init__(self, prefix, tail):
        self.prefix, self.tail = prefix, tail


class _WorldState:
    """Ghost state shared by everything that samples: random generators, never-ending sub-generators."""


# ------------------------------------------------------------------------------------------------ source lookup
_mod_ast: dict = {}


def module_index(mod):
    if mod.__name__ not in _mod_ast:
        src = open(inspect.getsourcefile(mod)).read()
        tree = ast.parse(src)
        idx = {}

        def walk(node, pre):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    idx[pre + ch.name] = ch
                    # property setters share the name; keep all by decorator
                    for d in ch.decorator_list:
                        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                            idx[pre + ch.name + "@" + d.attr] = ch
                            if pre + ch.name + "@get" in idx:
                                idx[pre + ch.name] = idx[pre + ch.name + "@get"]
                        elif isinstance(d, ast.Name) and d.id == "property":
                            idx[pre + ch.name + "@get"] = ch
                    walk(ch, pre + ch.name + ".<locals>.")
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, pre + ch.name + ".")
                else:
                    walk(ch, pre)

        walk(tree, "")
        _mod_ast[mod.__name__] = idx
    return _mod_ast[mod.__name__]


@functools.lru_cache(None)
def fn_node(fn):
    """AST of a host function from source."""
    import sys

    fn = inspect.unwrap(fn)
    mod = sys.modules[fn.__module__]
    idx = module_index(mod)
    cands = [n for q, n in idx.items() if q.split("@")[0] == fn.__qualname__]
    line = fn.__code__.co_firstlineno
    for n in cands:
        first = min([n.lineno] + [d.lineno for d in n.decorator_list])
        if first == line:
            return n
    if cands:
        return cands[0]
    # lambdas and odd cases
    raise Unsupported(f"no source for {fn.__qualname__}")


@functools.lru_cache(None)
def _is_gen_cached(node):
    return _is_gen(node)


def _is_gen(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.GeneratorExp):
            stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


# ------------------------------------------------------------------------------------------------ world
class World:
    """Shared across one verification session: registry of kinds, contracts, combinators."""

    def __init__(self, timeout_ms=6000):
        self.state_of = {}
        self.reg = Registry()
        self.prover = Prover(self.reg, timeout_ms)
        self.cls_kind: dict = {}  # class -> Kind
        self.unions: list = []
        self.contracts: dict = {}  # function object -> Contract
        self.recs: dict = {}  # spec function -> RecSpec
        self.lib: dict = {}  # id(host callable) -> handler(run, args, kwargs)
        self.methods: dict = {}  # (typename, method) -> handler
        self.repo_prefixes = ("dynamicprompts", "contracts", "pyvc_test")
        self.inlined: set = set()
        self.used_contracts: set = set()
        self.assumed: set = set()  # names of library contracts relied upon
        self.max_paths = 400
        self.hier = None
        self.feas_memo: dict = {}

    def map_over_rule(self, k):
        """Select({**a, **b}, x) = b[x] if present else a[x]; {**a, **{}} = a; {**{}, **b} = b."""
        name = "map_over_" + k.key
        if getattr(self, "_mo", None) is None:
            self._mo = set()
        if name in self._mo:
            return
        self._mo.add(name)

        def sel_rule(t):
            m = t.arg(0)
            if z3.is_app(m) and m.decl().name() == name:
                a, b, x = m.arg(0), m.arg(1), t.arg(1)
                return [t == z3.If(k.opt.is_none(z3.Select(b, x)), z3.Select(a, x), z3.Select(b, x))]
            return []

        self.reg.rules.setdefault("#%d" % z3.Z3_OP_SELECT, []).append(sel_rule)
        self.reg.rules.setdefault(name, []).append(
            lambda t: [z3.Implies(t.arg(1) == k.empty(), t == t.arg(0)), z3.Implies(t.arg(0) == k.empty(), t == t.arg(1))])

    def register_rec(self, r):
        from .contract import register_rec

        register_rec(self, r)

    def kind_for_cls(self, cls):
        if cls in self.cls_kind:
            return self.cls_kind[cls]
        if isinstance(cls, type) and issubclass(cls, enum.Enum):
            k = K.Enum(cls)
            self.cls_kind[cls] = k
            return k
        return None


_UF: dict = {}


USED: set = set()  # names of uninterpreted library symbols used since last cleared


def uf(name, *sorts):
    USED.add(name)
    key = (name, tuple(s.name() + str(s) for s in sorts))
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


def mk_str(s):
    return z3.StringVal("".join(c if ord(c) < 128 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


# ------------------------------------------------------------------------------------------------ run
def only_item(b):
    """Unit(e) for a choice between one-element lists."""
    from .prover import is_ite

    def item(t):
        if is_unit(t):
            return t.arg(0)
        if is_ite(t):
            x, y = item(t.arg(1)), item(t.arg(2))
            return None if x is None or y is None else z3.If(t.arg(0), x, y)
        return None

    e = item(b)
    return b if e is None else z3.Unit(e)


class Run:
    def __init__(self, world, prefix=()):
        self.w = world
        self.reg = world.reg
        self.prefix = list(prefix)
        self.taken: list = []
        self.pending: list = []
        self.pc: list = []  # (tag, formula)
        self.log: list = []
        self.oid = itertools.count(1)
        self.next_oid = 0
        self.nfresh = 0
        self.obls: list = []  # (name, hyps, goal)
        self.loop_inv, self.inv_ghost, self.frames, self.replaying = (), {}, [], False
        self.effects: list = []
        self.quiet = 0
        self.depth = 0
        self.contract = None
        self.loop_depth = 0
        self.ghost = {}
        self.nosplit = False
        self.world = PObj(self, _WorldState)

    # --- infrastructure
    def new_oid(self):
        self.next_oid += 1
        return self.next_oid

    def set(self, obj, key, val):
        self.log.append((obj, key, obj.f.get(key, _MISSING)))
        obj.f[key] = val

    def unset(self, obj, key):
        if key in obj.f:
            self.log.append((obj, key, obj.f[key]))
            del obj.f[key]

    def rollback(self, mark):
        while len(self.log) > mark:
            o, k, v = self.log.pop()
            if v is _MISSING:
                o.f.pop(k, None)
            else:
                o.f[k] = v

    def fresh(self, kind, hint="v"):
        self.nfresh += 1
        t = z3.Const(f"{hint}!{self.nfresh}", kind.sort())
        return self.value_of(kind, t)

    def value_of(self, kind, t):
        if kind == K.NoneKind:
            return None
        return Sym(kind, t)

    def hyps(self):
        return [c for _, c in self.pc]

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_false(c):
            raise Infeasible()
        if not z3.is_true(c):
            self.pc.append(("a", c))

    def feasible(self, extra):
        fs = self.hyps() + [extra]
        key = tuple(f.get_id() for f in fs)
        m = self.w.feas_memo
        if key not in m:
            p = self.w.prover
            p._keep = getattr(p, "_keep", [])
            p._keep.extend(fs)
            fs = eliminate(fs)
            facts = p.saturate(fs, rounds=2, fuel=0, light=True)
            r, _ = p.check(fs + facts, timeout=150 if self.loop_inv else 600)
            m[key] = r != z3.unsat
        return m[key]

    def branch(self, c):
        """Decide a symbolic condition on this path (forks)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if ft and ff:
                d = True
                self.pending.append(self.taken + [False])
            elif ft:
                d = True
            elif ff:
                d = False
            else:
                raise Infeasible()
        self.taken.append(d)
        self.pc.append(("b", c if d else z3.Not(c)))
        return d

    def oblige(self, name, goal):
        if self.quiet or name.startswith("loop_") and (self.replaying or len(self.taken) < len(self.prefix)):
            return  # (a path that repeats the decisions of another one: that one states the loop's obligations)
        self.obls.append((name, list(self.hyps()), goal))

    def effect(self, name, *args):
        self.effects.append((name, args))

    def raise_(self, cls, *args):
        raise Raised(PExc(self, cls, args))

    # ------------------------------------------------------------------------------------ exploration
    def explore_sub(self, thunk, limit=256):
        saved = (self.prefix, self.taken, self.pending, self.replaying)
        self.replaying = self.replaying or len(self.taken) < len(self.prefix)
        work, results = [[]], []
        n = 0
        try:
            while work:
                n += 1
                if n > limit:
                    raise Budget("too many paths in loop body")
                self.prefix, self.taken, self.pending = work.pop(), [], []
                mark, pcn, en = len(self.log), len(self.pc), len(self.effects)
                out = None
                try:
                    try:
                        thunk()
                        out = ("normal", None)
                    except Cont:
                        out = ("normal", None)
                    except Brk:
                        out = ("break", None)
                    except Ret as r:
                        out = ("return", r.v)
                    except Raised as r:
                        out = ("raise", r.exc)
                    finals = {}
                    for o, k, _ in self.log[mark:]:
                        finals[(o.oid, k)] = (o, self.frozen(o.f.get(k, _MISSING)))
                    results.append((self.pc[pcn:], out, finals, self.effects[en:]))
                except Infeasible:
                    pass
                finally:
                    work += self.pending
                    self.rollback(mark)
                    del self.pc[pcn:]
                    del self.effects[en:]
        finally:
            self.prefix, self.taken, self.pending, self.replaying = saved
        return results

    def frozen(self, v):
        """The contents of a container as they are now (its cells are about to be rolled back)."""
        if isinstance(v, SeqV) and any(t == "i" and isinstance(x, (PList, PSet, PDict)) for t, x in v.segs):
            return SeqV([(t, self.frozen(x) if t == "i" else x) for t, x in v.segs])
        if isinstance(v, (PList, PSet, PDict)) and any(o is v for o, _k, _ in self.log):
            c = v.f["v"]
            if isinstance(c, SeqV):
                c = SeqV([(t, self.frozen(x) if t == "i" else x) for t, x in c.segs])
            return type(v)(self, c)
        return v

    # ------------------------------------------------------------------------------------ kinds & lifting
    def kind_of(self, v):
        if isinstance(v, Sym):
            return v.kind
        if v is None:
            return K.NoneKind
        if isinstance(v, bool):
            return K.Bool
        if isinstance(v, enum.Enum):
            return self.w.kind_for_cls(type(v))
        if isinstance(v, int):
            return K.Int
        if isinstance(v, float):
            return K.Real
        if isinstance(v, str):
            return K.Str
        if isinstance(v, PList):
            return K.Seq(self.elem_kind(v.f["v"]))
        if isinstance(v, SeqV):
            return K.Seq(self.elem_kind(v), "tuple")
        if isinstance(v, tuple):
            return K.Tup(*[self.kind_of(x) for x in v])
        if isinstance(v, PSet):
            s = v.f["v"]
            if isinstance(s, Sym):
                return s.kind
            k = Bot
            for x in s:
                k = self.join(k, self.kind_of(x))
            return K.SetK(k)
        if isinstance(v, PDict):
            d = v.f["v"]
            if isinstance(d, Sym):
                return d.kind
            kk, kv = Bot, Bot
            for a, b in d.items():
                kk, kv = self.join(kk, self.kind_of(a)), self.join(kv, self.kind_of(b))
            return K.Map(kk, kv) if kk is not Bot else K.Map(K.Str, Bot) if False else _MapBot()
        if isinstance(v, PObj):
            k = self.w.kind_for_cls(v.cls)
            if k is None:
                raise Unsupported(f"no kind for {v.cls.__name__}")
            return k
        if isinstance(v, PGen):
            return K.Seq(self.elem_kind(self.force(v)), "gen")
        if isinstance(v, PRange):
            return K.Seq(K.Int)
        k = self.w.kind_for_cls(type(v))
        if k is not None:
            return k
        raise Unsupported(f"no kind for {type(v).__name__} {v!r}")

    def elem_kind(self, sv):
        k = Bot
        for tag, x in sv.segs:
            k = self.join(k, x.kind.elem if tag == "s" else self.kind_of(x))
        return k

    def join(self, a, b):
        if a == b or b is Bot:
            return a
        if a is Bot:
            return b
        if isinstance(a, _MapBot) and isinstance(b, K.Map):
            return b
        if isinstance(b, _MapBot) and isinstance(a, K.Map):
            return a
        if isinstance(a, K.SetK) and isinstance(b, K.SetK):
            return K.SetK(self.join(a.elem, b.elem))
        if isinstance(a, K.Seq) and isinstance(b, K.Seq):
            try:
                return K.Seq(self.join(a.elem, b.elem), a.py)
            except Unsupported:
                pass
        for u in self.w.unions:
            if self._in_union(a, u) and self._in_union(b, u):
                return u
        if isinstance(a, K.Cmd) and isinstance(b, K.Cmd):
            return a
        if a == K.NoneKind:
            return b if isinstance(b, K.Opt) else K.Opt(b)
        if b == K.NoneKind:
            return a if isinstance(a, K.Opt) else K.Opt(a)
        if isinstance(a, K.Opt) or isinstance(b, K.Opt):
            ka = a.k if isinstance(a, K.Opt) else a
            kb = b.k if isinstance(b, K.Opt) else b
            return K.Opt(self.join(ka, kb))
        if {a.key, b.key} == {"Int", "Real"}:
            return K.Real
        if isinstance(a, K.Seq) and isinstance(b, K.Seq):
            return K.Seq(self.join(a.elem, b.elem), a.py)
        if isinstance(a, K.Tup) and isinstance(b, K.Tup) and len(a.ks) == len(b.ks):
            return K.Tup(*[self.join(x, y) for x, y in zip(a.ks, b.ks)])
        if isinstance(a, K.Tup) and isinstance(b, K.Seq):
            a, b = b, a
        if isinstance(a, K.Seq) and isinstance(b, K.Tup):
            k = a.elem
            for x in b.ks:
                k = self.join(k, x)
            return K.Seq(k, a.py)
        raise Unsupported(f"cannot join kinds {a} and {b}")

    def _in_union(self, k, u):
        if k == u:
            return True
        if isinstance(k, K.Cmd) and any(isinstance(a, K.Cmd) for a in u.alts):
            return True
        return any(k == a or isinstance(k, K.Seq) and isinstance(a, K.Seq) and k.elem is Bot for a in u.alts)

    def lift(self, v, kind):
        """z3 term of `v` at `kind`."""
        if isinstance(v, Sym) and v.kind == kind:
            return v.t
        if isinstance(v, Sym) and isinstance(v.kind, K.Union) and v.kind != kind and not (isinstance(kind, K.Opt) and kind.k == v.kind):
            v = self.narrow(v)
            if isinstance(v, Sym) and v.kind == kind:
                return v.t
        if isinstance(kind, K.Opt):
            if v is None:
                return kind.none()
            if isinstance(v, Sym) and isinstance(v.kind, K.Opt):
                raise Unsupported(f"lift {v.kind} to {kind}")
            return kind.some(self.lift(v, kind.k))
        if isinstance(kind, K.Union):
            if isinstance(v, Sym) and isinstance(v.kind, K.Opt) and K.NoneKind in kind.alts:
                v = self.resolve(v)
            k = self.kind_of(v)
            for i, a in enumerate(kind.alts):
                if a == k:
                    return kind.inj(i, self.lift(v, a))
            for i, a in enumerate(kind.alts):
                try:
                    if isinstance(a, K.Cmd) or isinstance(a, K.Seq) or isinstance(a, K.Map) or a == K.Real:
                        return kind.inj(i, self.lift(v, a))
                except Unsupported:
                    continue
            raise Unsupported(f"lift {k} to {kind}")
        if isinstance(v, Sym) and isinstance(v.kind, (K.Opt, K.Union)):
            return self.lift(self.resolve(v), kind)
        if kind == K.NoneKind and v is None:
            return kind.sort().constructor(0)()
        if kind == K.Bool:
            if isinstance(v, bool):
                return z3.BoolVal(v)
        if kind == K.Int:
            if isinstance(v, int):
                return z3.IntVal(int(v))
            if isinstance(v, Sym) and v.kind == K.Bool:
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if kind == K.Real:
            if isinstance(v, (int, float)):
                return z3.RealVal(repr(float(v)) if isinstance(v, float) else v)
            if isinstance(v, Sym) and v.kind == K.Int:
                return z3.ToReal(v.t)
        if kind == K.Str and isinstance(v, str):
            return mk_str(v)
        if isinstance(kind, K.Enum) and isinstance(v, kind.cls):
            return kind.const(v)
        if isinstance(kind, K.Seq):
            sv = self.as_seq(v)
            if sv is not None:
                return self.seq_term(sv, kind.elem)
        if isinstance(kind, K.Tup):
            if isinstance(v, tuple) and len(v) == len(kind.ks):
                return kind.make([self.lift(x, k) for x, k in zip(v, kind.ks)])
            if isinstance(v, Sym) and isinstance(v.kind, K.Tup) and len(v.kind.ks) == len(kind.ks):
                return kind.make(
                    [
                        self.lift(self.value_of(k0, v.kind.get(v.t, i)), k)
                        for i, (k0, k) in enumerate(zip(v.kind.ks, kind.ks))
                    ],
                )
        if isinstance(kind, K.Rec) and isinstance(v, PObj) and v.cls is kind.cls:
            return kind.make([self.lift(v.f[n], k) for n, k in kind.fields])
        if isinstance(kind, K.Cmd):
            if isinstance(v, Sym) and isinstance(v.kind, K.Cmd):
                return v.t
            if isinstance(v, PObj) and v.cls in kind.registry["fields"]:
                fs = kind.registry["fields"][v.cls]
                return kind.mk(v.cls)(*[self.lift(v.f[n], k) for n, k in fs])
        if isinstance(kind, K.Map) and isinstance(v, PDict):
            d = v.f["v"]
            if isinstance(d, Sym):
                return self.lift(d, kind)
            t = kind.empty()
            for a, b in d.items():
                t = z3.Store(t, self.lift(a, kind.k), kind.opt.some(self.lift(b, kind.v)))
            return t
        if isinstance(kind, K.SetK):
            if isinstance(v, PSet):
                s = v.f["v"]
                if isinstance(s, Sym):
                    return self.lift(s, kind)
                t = z3.K(kind.elem.sort(), z3.BoolVal(False))
                for x in s:
                    t = z3.Store(t, self.lift(x, kind.elem), z3.BoolVal(True))
                return t
        if isinstance(kind, K.Opaque):
            c = self.w.ghost_consts.get(id(v)) if hasattr(self.w, "ghost_consts") else None
            if c is not None:
                return c
            if isinstance(v, (Obj, type, types.FunctionType)) is False and kind.cls is not None and isinstance(v, kind.cls):
                # a host constant object: one opaque constant per identity
                return z3.Const(f"host_{kind.name}_{_host_name(v)}", kind.sort())
            if isinstance(v, PObj) and kind.cls is not None and issubclass(v.cls, kind.cls):
                fs = getattr(kind, "ctor", None)
                if fs is not None:
                    names = fs[0]
                    return fs[1](*[self.lift(v.f[n], k) for n, k in names])
        raise Unsupported(f"lift {type(v).__name__}:{getattr(v, 'kind', getattr(v, 'cls', ''))} to {kind}")

    def seq_term(self, sv, elem):
        parts = []
        for tag, x in sv.segs:
            if tag == "s":
                if x.kind.elem == elem:
                    parts.append(x.t)
                else:  # convert elementwise
                    y = z3.Const(f"!c{next(self.reg.fresh_n)}", x.kind.elem.sort())
                    body = z3.Unit(self.lift(self.value_of(x.kind.elem, y), elem))
                    parts.append(self.reg.mk_fm(x.t, y, body))
            else:
                parts.append(z3.Unit(self.lift(x, elem)))
        if not parts:
            if elem is Bot:
                raise Unsupported("empty sequence of unknown kind")
            return z3.Empty(z3.SeqSort(elem.sort()))
        return concat(*parts)

    def as_seq(self, v):
        """SeqV view of list/tuple/generator values, else None."""
        if isinstance(v, PList):
            return v.f["v"]
        if isinstance(v, SeqV):
            return v
        if isinstance(v, tuple):
            return SeqV.of(v)
        if isinstance(v, PGen):
            return self.force(v)
        if isinstance(v, Sym) and isinstance(v.kind, K.Seq):
            return SeqV.sym(v)
        if isinstance(v, PRange):
            return self.range_seq(v)
        return None

    def range_seq(self, r):
        if all(isinstance(z, int) for z in (r.a, r.b, r.step)):
            return SeqV.of(list(range(r.a, r.b, r.step)))
        if r.step != 1:
            raise Unsupported("symbolic range with step")
        f = uf("py_range", z3.IntSort(), z3.IntSort(), z3.SeqSort(z3.IntSort()))
        t = f(self.lift(r.a, K.Int), self.lift(r.b, K.Int))
        return SeqV.sym(Sym(K.Seq(K.Int), t))

    def force(self, g):
        if g.f["rest"] is None:
            if g.f.get("endless") is not None:
                raise Endless(*g.f["endless"])
            try:
                sv = g.thunk()
            except Endless as e:
                self.set(g, "endless", (e.prefix, e.tail))
                raise
            self.set(g, "rest", sv)
        return g.f["rest"]

    # resolve Opt/Union by forking
    def resolve(self, v):
        while isinstance(v, Sym) and isinstance(v.kind, (K.Opt, K.Union)):
            k = v.kind
            if isinstance(k, K.Opt):
                if self.branch(k.is_none(v.t)):
                    return None
                v = self.value_of(k.k, z3.simplify(k.val(v.t)))
            else:
                for i, a in enumerate(k.alts):
                    if i == len(k.alts) - 1 or self.branch(k.is_alt(i, v.t)):
                        if i == len(k.alts) - 1:
                            self.assume(k.is_alt(i, v.t))
                        v = self.value_of(a, z3.simplify(k.out(i, v.t)))
                        break
        return v

    def narrow(self, v):
        """`v` at the alternative this path has already decided for it (never forks)."""
        while isinstance(v, Sym) and isinstance(v.kind, K.Union):
            k = v.kind
            for i, a in enumerate(k.alts):
                c = z3.simplify(k.is_alt(i, v.t))
                if any(h[1].eq(c) for h in self.pc if z3.is_expr(h[1])):
                    v = self.value_of(a, z3.simplify(k.out(i, v.t)))
                    break
            else:
                return v
        return v

    # ------------------------------------------------------------------------------------ basic operations
    def cardinality(self, d):
        k = d.kind
        name = "card_" + k.key
        empty = k.empty() if isinstance(k, K.Map) else z3.K(k.elem.sort(), z3.BoolVal(False))
        if name not in self.reg.rules:
            card = uf(name, k.sort(), z3.IntSort())

            def facts(t):
                a = t.arg(0)
                out = [t >= 0, (t == 0) == (a == empty)]
                if isinstance(k, K.SetK) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and z3.is_true(a.arg(2)):
                    out.append(t == card(a.arg(0)) + z3.If(z3.Select(a.arg(0), a.arg(1)), 0, 1))
                return out

            self.reg.rules[name] = [facts]
        return Sym(K.Int, uf(name, k.sort(), z3.IntSort())(d.t))

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Sym):
            k = v.kind
            if k == K.Bool:
                return self.branch(v.t)
            if k == K.Int or k == K.Real:
                return self.branch(v.t != 0)
            if k == K.Str or isinstance(k, K.Seq):
                return self.branch(z3.Length(v.t) != 0)
            if isinstance(k, K.Map):
                return self.branch(v.t != k.empty())
            if isinstance(k, K.SetK):
                return self.branch(v.t != z3.K(k.elem.sort(), z3.BoolVal(False)))
            if isinstance(k, K.Enum):
                return True
            if isinstance(k, K.Tup):
                return len(k.ks) > 0
            if isinstance(k, (K.Rec, K.Cmd, K.Opaque)):
                return self.truth_obj(v)
            raise Unsupported(f"truth of {k}")
        if isinstance(v, (PList, SeqV)):
            sv = self.as_seq(v)
            if any(t == "i" for t, _ in sv.segs):
                return True
            if not sv.segs:
                return False
            return self.branch(z3.Not(z3.And(*[z3.Length(x.t) == 0 for _, x in sv.segs])))
        if isinstance(v, PSet):
            s = v.f["v"]
            return self.truth(s) if isinstance(s, Sym) else bool(s)
        if isinstance(v, PDict):
            d = v.f["v"]
            return self.truth(d) if isinstance(d, Sym) else bool(d)
        if isinstance(v, (PObj,)):
            return self.truth_obj(v)
        if isinstance(v, PRange):
            return self.truth(self.binop_lt(v.a, v.b))
        if isinstance(v, (PGen, PIter, PFun, Bound, Builtin, PExc)):
            return True
        return bool(v)

    def binop_lt(self, a, b):
        return self.compare(ast.Lt(), a, b)

    def truth_obj(self, v):
        if isinstance(v, Sym) and isinstance(v.kind, K.Cmd) and v.kind.cls is None:
            order = v.kind.registry["order"]
            sized = [i for i, c in enumerate(order) if hasattr(c, "__bool__") or hasattr(c, "__len__")]
            if not sized or not self.branch(z3.Or(*[v.kind.tagf()(v.t) == i for i in sized])):
                return True
        if isinstance(v, Sym) and isinstance(v.kind, K.Opaque) and "__bool__" in getattr(v.kind, "methods", {}):
            return self.truth(v.kind.methods["__bool__"](self, [v], {}))
        cls = self.class_of(v)
        b = getattr(cls, "__bool__", None)
        if b is not None:
            return self.truth(self.call(b, [v], {}))
        ln = getattr(cls, "__len__", None)
        if ln is not None:
            return self.truth(self.call(ln, [v], {}))
        return True

    def class_of(self, v):
        """Concrete class of an object value; forks on the tag for hierarchy values."""
        if isinstance(v, PObj):
            return v.cls
        if isinstance(v, PExc):
            return v.cls
        if isinstance(v, Sym):
            k = v.kind
            if isinstance(k, K.Cmd):
                if k.cls is not None:
                    return k.cls
                order = k.registry["order"]
                for i, c in enumerate(order):
                    if i == len(order) - 1:
                        self.assume(k.tagf()(v.t) == i)
                        return c
                    if self.branch(k.tagf()(v.t) == i):
                        return c
            if isinstance(k, K.GenRef):
                return types.GeneratorType
            if isinstance(k, (K.Rec, K.Enum, K.Opaque)):
                return k.cls
            return {"Int": int, "Bool": bool, "Str": str, "Real": float}.get(k.key) or (
                {"list": list, "tuple": tuple, "gen": types.GeneratorType}.get(getattr(k, "py", ""), None)
            ) or (tuple if isinstance(k, K.Tup) else dict if isinstance(k, K.Map) else set if isinstance(k, K.SetK) else object)
        if isinstance(v, PList):
            return list
        if isinstance(v, (SeqV, tuple)):
            return tuple
        if isinstance(v, PSet):
            return set
        if isinstance(v, PDict):
            return dict
        if isinstance(v, (PGen, PIter)):
            return types.GeneratorType
        if isinstance(v, (PFun, Bound, Builtin)):
            return types.FunctionType
        if isinstance(v, PRange):
            return range
        return type(v)

    def isinstance_(self, v, classes):
        v = self.resolve(v)
        if isinstance(classes, tuple):
            cs = list(classes)
        elif isinstance(classes, SeqV):
            cs = classes.items()
        else:
            cs = [classes]
        cs = [c for c in cs]
        if isinstance(v, Sym) and isinstance(v.kind, K.Cmd) and v.kind.cls is None:
            k = v.kind
            tags = [i for i, c in enumerate(k.registry["order"]) if any(isinstance(d, type) and issubclass(c, d) for d in cs)]
            n = len(k.registry["order"])
            if len(tags) == n:
                return True
            if not tags:
                return False
            return self.branch(z3.Or(*[k.tagf()(v.t) == i for i in tags]))
        c = self.class_of(v)
        return any(isinstance(d, type) and issubclass(c, d) for d in cs)

    def eq(self, a, b):
        """Equality as host bool or z3 Bool (value semantics)."""
        if a is b and not isinstance(a, float):
            return True
        a_s, b_s = isinstance(a, Sym), isinstance(b, Sym)
        if not a_s and not b_s and not isinstance(a, (Obj, SeqV, PRange, tuple)) and not isinstance(b, (Obj, SeqV, PRange, tuple)):
            try:
                return bool(a == b)
            except Exception:
                raise Unsupported("eq")
        sa, sb = self.as_seq_noforce(a), self.as_seq_noforce(b)
        if sa is not None and sb is not None:
            if sa.concrete() and sb.concrete():
                ia, ib = sa.items(), sb.items()
                if len(ia) != len(ib):
                    return False
                return self.conj([self.eq(x, y) for x, y in zip(ia, ib)])
            ek = self.join(self.elem_kind(sa), self.elem_kind(sb))
            return self.seq_term(sa, ek) == self.seq_term(sb, ek)
        if (sa is None) != (sb is None) and not (a_s or b_s):
            return False
        if isinstance(a, PObj) and isinstance(b, PObj):
            if a.cls is not b.cls:
                return False
            if dataclasses.is_dataclass(a.cls):
                return self.conj([self.eq(a.f[f.name], b.f[f.name]) for f in dataclasses.fields(a.cls)])
            return a is b
        try:
            ka, kb = self.kind_of(a), self.kind_of(b)
        except Unsupported:
            if isinstance(a, Obj) and isinstance(b, Obj):
                return False if type(a) is not type(b) else self._unsup_eq()
            raise
        if ka != kb and not self._comparable(ka, kb):
            return False
        k = self.join(ka, kb)
        if isinstance(k, (_MapBot, K.SetK)) and _has_bot(k):
            return True  # both empty
        return self.lift(a, k) == self.lift(b, k)

    def _unsup_eq(self):
        raise Unsupported("equality of heap objects")

    def as_seq_noforce(self, v):
        if isinstance(v, PGen):
            return self.force(v)
        return self.as_seq(v)

    def _comparable(self, a, b):
        if isinstance(a, K.Cmd) != isinstance(b, K.Cmd) and not isinstance(a, (K.Opt, K.Union)) and not isinstance(b, (K.Opt, K.Union)):
            return False
        num = {"Int", "Real", "Bool"}
        if a.key in num and b.key in num:
            return True
        if isinstance(a, (K.Opt, K.Union)) or isinstance(b, (K.Opt, K.Union)):
            try:
                self.join(a, b)
                return True
            except Unsupported:
                return False
        try:
            self.join(a, b)
            return not (a == K.NoneKind or b == K.NoneKind)
        except Unsupported:
            return False

    @staticmethod
    def conj(cs):
        if any(c is False for c in cs):
            return False
        ts = [c for c in cs if c is not True]
        if not ts:
            return True
        return z3.And(*ts) if len(ts) > 1 else ts[0]

    def mkbool(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return Sym(K.Bool, c)

    def num(self, v):
        """(term, kind) of numeric value."""
        v = self.resolve(v)
        if isinstance(v, bool):
            return z3.IntVal(int(v)), K.Int
        if isinstance(v, int):
            return z3.IntVal(v), K.Int
        if isinstance(v, float):
            return self.lift(v, K.Real), K.Real
        if isinstance(v, Sym) and v.kind in (K.Int, K.Real):
            return v.t, v.kind
        if isinstance(v, Sym) and v.kind == K.Bool:
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), K.Int
        raise Unsupported(f"number expected, got {v!r}")

    def norm(self, kind, t):
        t = z3.simplify(t)
        if kind == K.Int and z3.is_int_value(t):
            return t.as_long()
        if kind == K.Bool:
            return self.mkbool(t)
        if kind == K.Str and z3.is_string_value(t):
            s = t.as_string()
            if "\\u" not in s:
                return s
        return Sym(kind, t)

    def is_str(self, v):
        return isinstance(v, str) or isinstance(v, Sym) and v.kind == K.Str

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Sym) and v.kind == K.Str:
            return self.norm(K.Int, z3.Length(v.t))
        if isinstance(v, Sym) and isinstance(v.kind, K.Tup):
            return len(v.kind.ks)
        sv = None if isinstance(v, PGen) else self.as_seq(v)
        if sv is not None:
            n = 0
            ts = []
            for tag, x in sv.segs:
                if tag == "i":
                    n += 1
                else:
                    ts.append(z3.Length(x.t))
            if not ts:
                return n
            return self.norm(K.Int, z3.Sum(*ts, z3.IntVal(n)))
        if isinstance(v, PDict) and not isinstance(v.f["v"], Sym):
            return len(v.f["v"])
        if isinstance(v, PSet) and not isinstance(v.f["v"], Sym):
            return len(v.f["v"])
        if isinstance(v, (PDict, PSet)):
            return self.cardinality(v.f["v"])
        if isinstance(v, Sym) and isinstance(v.kind, (K.Map, K.SetK)):
            return self.cardinality(v)
        if isinstance(v, (PObj, Sym)):
            return self.call(getattr(self.class_of(v), "__len__"), [v], {})
        if hasattr(v, "__len__"):
            return len(v)
        raise Unsupported(f"len of {v!r}")

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        host = (int, float, str, bool)
        if isinstance(a, host) and isinstance(b, host):
            import operator

            f = {
                ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
                ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv, ast.Pow: operator.pow,
            }.get(type(op))
            if f is None:
                raise Unsupported("binop")
            try:
                return f(a, b)
            except Exception as e:
                self.raise_(type(e))
        if isinstance(op, ast.Add):
            if self.is_str(a) and self.is_str(b):
                return self.norm(K.Str, concat(self.lift(a, K.Str), self.lift(b, K.Str)))
            if isinstance(a, (PList, SeqV, tuple)) or isinstance(a, Sym) and isinstance(a.kind, K.Seq):
                sb = None if isinstance(b, PGen) else self.as_seq(b)
                if sb is None:
                    self.raise_(TypeError)
                r = self.as_seq(a) + sb
                isl = isinstance(a, PList) or isinstance(a, Sym) and a.kind.py == "list"
                if isl:
                    return PList(self, r)
                return tuple(r.items()) if r.concrete() else r
            if isinstance(a, (PObj,)) or isinstance(a, Sym) and isinstance(a.kind, (K.Rec, K.Cmd)):
                add = getattr(self.class_of(a), "__add__", None)
                if add is not None:
                    return self.call(add, [a, b], {})
        if isinstance(op, ast.Mult):
            la, lb = self.as_seq(a) if not isinstance(a, PGen) else None, self.as_seq(b) if not isinstance(b, PGen) else None
            if la is None and lb is not None:
                a, b, la, lb = b, a, lb, la
            if la is not None:
                isl = isinstance(a, PList) or isinstance(a, Sym) and a.kind.py == "list"
                n = self.resolve(b)
                if isinstance(n, int):
                    r = SeqV(la.segs * max(0, n))
                else:
                    # [x]*n  = for _ in range(n): out ++ la
                    ek = self.elem_kind(la)
                    lt = self.seq_term(la, ek)
                    xs = self.range_seq(PRange(0, n)).segs[0][1].t
                    i = z3.Const(f"!i{next(self.reg.fresh_n)}", z3.IntSort())
                    r = SeqV.sym(Sym(K.Seq(ek), self.reg.mk_fm(xs, i, lt)))
                return PList(self, r) if isl else (tuple(r.items()) if r.concrete() else r)
        if isinstance(op, ast.BitOr):
            if isinstance(a, PSet) or isinstance(a, Sym) and isinstance(a.kind, K.SetK):
                return self.set_union(a, b)
            if isinstance(a, PDict) or isinstance(a, Sym) and isinstance(a.kind, K.Map):
                d = self.dict_copy(a)
                self.dict_update(d, b)
                return d
        if isinstance(op, ast.Mod) and self.is_str(a):
            return self.fresh_str("fmt", a, b)
        ta, ka = self.num(a)
        tb, kb = self.num(b)
        k = K.Int if ka == K.Int and kb == K.Int else K.Real
        if k == K.Real:
            ta = z3.ToReal(ta) if ka == K.Int else ta
            tb = z3.ToReal(tb) if kb == K.Int else tb
        if isinstance(op, ast.Add):
            return self.norm(k, ta + tb)
        if isinstance(op, ast.Sub):
            return self.norm(k, ta - tb)
        if isinstance(op, ast.Mult):
            return self.norm(k, ta * tb)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and k == K.Int:
            if self.branch(tb == 0):
                self.raise_(ZeroDivisionError)
            if self.branch(tb > 0):
                return self.norm(k, ta / tb if isinstance(op, ast.FloorDiv) else ta % tb)
            raise Unsupported("division by negative")
        if isinstance(op, ast.Div):
            if self.branch(tb == 0):
                self.raise_(ZeroDivisionError)
            if k == K.Int:
                ta, tb = z3.ToReal(ta), z3.ToReal(tb)
            return self.norm(K.Real, ta / tb)
        raise Unsupported(f"binop {type(op).__name__}")

    def fresh_str(self, name, *vs):
        try:
            ts = [self.lift(v, self.kind_of(v)) for v in vs]
        except Unsupported:
            return self.fresh(K.Str, "txt")
        f = uf("txt_" + name + "_" + "_".join(t.sort().name() for t in ts), *[t.sort() for t in ts], z3.StringSort())
        return Sym(K.Str, f(*ts))

    def set_union(self, a, b):
        ka, kb = self.kind_of(a), self.kind_of(b)
        k = self.join(ka, kb)
        if isinstance(b, PSet) and not isinstance(b.f["v"], Sym):
            t = self.lift(a, k)
            for x in b.f["v"]:
                t = z3.Store(t, self.lift(x, k.elem), z3.BoolVal(True))
            return PSet(self, Sym(k, t))
        return PSet(self, Sym(k, z3.SetUnion(self.lift(a, k), self.lift(b, k))))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return self.neg(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.mkbool(self.eq(a, b))
            return self.neg(r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return self.neg(r) if isinstance(op, ast.NotIn) else r
        a, b = self.resolve(a), self.resolve(b)
        if self.is_str(a) and self.is_str(b):
            ta, tb = self.lift(a, K.Str), self.lift(b, K.Str)
            return self.mkbool({ast.Lt: ta < tb, ast.LtE: ta <= tb, ast.Gt: tb < ta, ast.GtE: tb <= ta}[type(op)])
        ta, ka = self.num(a)
        tb, kb = self.num(b)
        return self.mkbool({ast.Lt: ta < tb, ast.LtE: ta <= tb, ast.Gt: ta > tb, ast.GtE: ta >= tb}[type(op)])

    def neg(self, r):
        return (not r) if isinstance(r, bool) else self.mkbool(z3.Not(r.t))

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if isinstance(x, Sym) and isinstance(x.kind, K.Opt):
                return self.mkbool(x.kind.is_none(x.t))
            if isinstance(x, Sym) and isinstance(x.kind, K.Union):
                if K.NoneKind in x.kind.alts:
                    return self.mkbool(x.kind.is_alt(x.kind.alts.index(K.NoneKind), x.t))
                return False
            return x is None
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, (bool, enum.Enum)) or isinstance(b, (bool, enum.Enum)):
            return self.mkbool(self.eq(a, b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind:
                return self.mkbool(a.t == b.t)
            return False
        return a is b

    def contains(self, x, c):
        c = self.resolve(c)
        if self.is_str(c):
            x = self.resolve(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if not self.is_str(x):
                self.raise_(TypeError)
            return self.mkbool(z3.Contains(self.lift(c, K.Str), self.lift(x, K.Str)))
        if isinstance(c, PDict):
            d = c.f["v"]
            if isinstance(d, Sym):
                return self.mkbool(z3.Not(d.kind.opt.is_none(z3.Select(d.t, self.lift(x, d.kind.k)))))
            return self.disj([self.eq(x, k) for k in d])
        if isinstance(c, Sym) and isinstance(c.kind, K.Map):
            return self.mkbool(z3.Not(c.kind.opt.is_none(z3.Select(c.t, self.lift(x, c.kind.k)))))
        if isinstance(c, PSet):
            d = c.f["v"]
            if isinstance(d, Sym):
                return self.mkbool(z3.Select(d.t, self.lift(x, d.kind.elem)))
            return self.disj([self.eq(x, k) for k in d])
        if isinstance(c, Sym) and isinstance(c.kind, K.SetK):
            return self.mkbool(z3.Select(c.t, self.lift(x, c.kind.elem)))
        if isinstance(c, (set, frozenset, dict)):
            return self.disj([self.eq(x, k) for k in c])
        if isinstance(c, Sym) and "__contains__" in getattr(c.kind, "methods", {}):
            return c.kind.methods["__contains__"](self, [c, x], {})
        sv = self.as_seq(c)
        if sv is None and isinstance(c, (list,)):
            sv = SeqV.of(c)
        if sv is None:
            m = getattr(self.class_of(c), "__contains__", None)
            if m is not None and isinstance(m, types.FunctionType):
                return self.call(m, [c, x], {})
            raise Unsupported(f"in {c!r}")
        cs = []
        for tag, s in sv.segs:
            if tag == "i":
                cs.append(self.eq(x, s))
            else:
                cs.append(z3.Contains(s.t, z3.Unit(self.lift(x, s.kind.elem))))
        return self.disj(cs)

    def disj(self, cs):
        if any(c is True for c in cs):
            return True
        ts = [c for c in cs if c is not False]
        if not ts:
            return False
        return self.mkbool(z3.Or(*ts))

    # ------------------------------------------------------------------------------------ indexing
    def clampi(self, i, n, lo=True):
        """slice bound -> term in [0,n]"""
        t, _ = self.num(i)
        return z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))

    def getitem(self, c, i):
        c = self.resolve(c)
        if isinstance(i, slice):
            return self.getslice(c, i)
        i = self.resolve(i)
        if isinstance(c, Sym) and isinstance(c.kind, K.Opaque) and "__getitem__" in getattr(c.kind, "methods", {}):
            return c.kind.methods["__getitem__"](self, [c, i], {})
        if isinstance(c, PDict) or isinstance(c, Sym) and isinstance(c.kind, K.Map):
            return self.dict_getitem(c, i)
        if isinstance(c, dict):
            for k, v in c.items():
                if self.truth(self.mkbool(self.eq(k, i))):
                    return v
            self.raise_(KeyError)
        if isinstance(c, Sym) and isinstance(c.kind, K.Tup):
            if not isinstance(i, int):
                raise Unsupported("tuple index")
            return self.value_of(c.kind.ks[i], z3.simplify(c.kind.get(c.t, i % len(c.kind.ks))))
        if self.is_str(c):
            if isinstance(c, str) and isinstance(i, int):
                try:
                    return c[i]
                except IndexError:
                    self.raise_(IndexError)
            t = self.lift(c, K.Str)
            n = z3.Length(t)
            it, _ = self.num(i)
            it = z3.simplify(it if self.loop_inv and not self.feasible(it < 0) else z3.If(it < 0, it + n, it))
            if not self.branch(z3.And(it >= 0, it < n)):
                self.raise_(IndexError)
            return self.norm(K.Str, z3.SubString(t, it, 1))
        sv = None if isinstance(c, PGen) else self.as_seq(c)
        if sv is None and isinstance(c, (list, tuple)):
            sv = SeqV.of(c)
        if sv is not None and isinstance(i, int) and i == 0:
            sv = self.uncons(c, sv)
        if sv is not None:
            if sv.concrete() and isinstance(i, int):
                items = sv.items()
                if -len(items) <= i < len(items):
                    return items[i]
                self.raise_(IndexError)
            if isinstance(i, int):  # leading/trailing concrete items
                if i >= 0 and len(sv.segs) > i and all(s[0] == "i" for s in sv.segs[: i + 1]):
                    return sv.segs[i][1]
                if i < 0 and len(sv.segs) >= -i and all(s[0] == "i" for s in sv.segs[i:]):
                    return sv.segs[i][1]
            ek = self.elem_kind(sv)
            if ek is Bot:
                self.raise_(IndexError)
            t = self.seq_term(sv, ek)
            n = z3.Length(t)
            it, _ = self.num(i)
            it = z3.simplify(it if self.loop_inv and not self.feasible(it < 0) else z3.If(it < 0, it + n, it))
            if not self.branch(z3.And(it >= 0, it < n)):
                self.raise_(IndexError)
            return self.value_of(ek, z3.simplify(t[it]))
        gi = getattr(self.class_of(c), "__getitem__", None)
        if gi is not None and isinstance(gi, types.FunctionType):
            return self.call(gi, [c, i], {})
        raise Unsupported(f"getitem {c!r}")

    def uncons(self, c, sv):
        """Write a non-empty symbolic list as head + tail (the head and tail are named once per term)."""
        if self.nosplit or not isinstance(c, PList) or not sv.segs or sv.segs[0][0] != "s":
            return sv
        x = sv.segs[0][1]
        if not (z3.is_const(x.t) and x.t.decl().kind() == UN):
            return sv
        if len(sv.segs) > 1 and not self.truth(self.mkbool(z3.Length(x.t) != 0)):
            return sv
        if len(sv.segs) == 1 and not self.branch(z3.Length(x.t) > 0):
            return sv
        nm = x.t.decl().name()
        h, tl = z3.Const("hd$" + nm, x.kind.elem.sort()), z3.Const("tl$" + nm, x.t.sort())
        fact = x.t == z3.Concat(z3.Unit(h), tl)
        if all(not c0.eq(fact) for _, c0 in self.pc):
            self.pc.append(("a", fact))
        return SeqV([("i", self.value_of(x.kind.elem, h)), ("s", Sym(x.kind, tl)), *sv.segs[1:]])

    def getslice(self, c, s):
        if s.step is not None:
            if s.step == -1 and s.start is None and s.stop is None and not self.is_str(c):
                sv = self.as_seq(c)
                if sv is not None and sv.concrete():
                    r = SeqV.of(list(reversed(sv.items())))
                    return PList(self, r) if not isinstance(c, (tuple, SeqV)) else tuple(r.items())
            raise Unsupported("slice step")
        a, b = self.resolve(s.start), self.resolve(s.stop)
        if isinstance(c, str) and all(x is None or isinstance(x, int) for x in (a, b)):
            return c[a:b]
        if self.is_str(c):
            t = self.lift(c, K.Str)
            n = z3.Length(t)
            ta = z3.IntVal(0) if a is None else self.clampi(a, n)
            tb = n if b is None else self.clampi(b, n)
            return self.norm(K.Str, z3.SubString(t, ta, tb - ta))
        sv = self.as_seq(c)
        if sv is None:
            raise Unsupported("slice")
        if a == 1 and b is None and isinstance(c, PList):
            sv = self.uncons(c, sv)
        isl = isinstance(c, PList) or isinstance(c, Sym) and c.kind.py == "list"

        def wrap(r):
            return PList(self, r) if isl else (tuple(r.items()) if r.concrete() else r)

        if sv.concrete() and all(x is None or isinstance(x, int) for x in (a, b)):
            return wrap(SeqV.of(sv.items()[a:b]))
        segs = sv.segs
        if b is None and isinstance(a, int) and 0 <= a <= len(segs) and all(x[0] == "i" for x in segs[:a]):
            return wrap(SeqV(segs[a:]))
        if a in (None, 0) and isinstance(b, int) and b < 0 and len(segs) >= -b and all(x[0] == "i" for x in segs[b:]):
            return wrap(SeqV(segs[:b]))
        ek = self.elem_kind(sv)
        t = self.seq_term(sv, ek)
        n = z3.Length(t)
        ta = z3.IntVal(0) if a is None else self.clampi(a, n)
        tb = n if b is None else self.clampi(b, n)
        r = z3.simplify(z3.SubSeq(t, ta, tb - ta))
        return wrap(SeqV.sym(Sym(K.Seq(ek), r)))

    # dictionaries
    def dict_getitem(self, c, i, default=None, has_default=False):
        d = c.f["v"] if isinstance(c, PDict) else c
        if isinstance(d, Sym):
            cell = z3.Select(d.t, self.lift(i, d.kind.k))
            if self.branch(d.kind.opt.is_none(cell)):
                if has_default:
                    return default
                self.raise_(KeyError)
            return self.value_of(d.kind.v, z3.simplify(d.kind.opt.val(cell)))
        for k, v in d.items():
            if self.truth(self.mkbool(self.eq(k, i))):
                return v
        if has_default:
            return default
        self.raise_(KeyError)

    def dict_set(self, d, i, v):
        cur = d.f["v"]
        if isinstance(cur, Sym):
            k = cur.kind
            self.set(d, "v", Sym(k, z3.Store(cur.t, self.lift(i, k.k), k.opt.some(self.lift(v, k.v)))))
            return
        if isinstance(i, (str, int, enum.Enum)) and not isinstance(i, Sym) and all(not isinstance(k, Sym) for k in cur):
            new = dict(cur)
            new[i] = v
            self.set(d, "v", new)
            return
        kk, kv = self.kind_of(i), self.kind_of(v)
        for a, b in cur.items():
            kk, kv = self.join(kk, self.kind_of(a)), self.join(kv, self.kind_of(b))
        k = K.Map(kk, kv)
        t = self.lift(d, k)
        self.set(d, "v", Sym(k, z3.Store(t, self.lift(i, kk), k.opt.some(self.lift(v, kv)))))

    def dict_copy(self, c):
        d = c.f["v"] if isinstance(c, PDict) else c
        return PDict(self, d if isinstance(d, Sym) else dict(d))

    def dict_update(self, d, other):
        other = self.resolve(other)
        o = other.f["v"] if isinstance(other, PDict) else other
        if isinstance(o, dict):
            for k, v in o.items():
                self.dict_set(d, k, v)
            return
        if isinstance(o, Sym) and isinstance(o.kind, K.Map):
            k = o.kind
            base = self.lift(d, k)
            x = z3.Const("!k", k.k.sort())
            if self.truth(self.mkbool(base == k.empty())):
                self.set(d, "v", Sym(k, o.t))
                return
            stores, t = [], o.t
            while z3.is_store(t):
                stores.append((t.arg(1), t.arg(2)))
                t = t.arg(0)
            if t.eq(k.empty()):  # {**base, **{a: x, b: y}}
                r = base
                for a, v in reversed(stores):
                    r = z3.Store(r, a, v)
            else:
                f = uf("map_over_" + k.key, k.sort(), k.sort(), k.sort())
                r = f(base, o.t)
                self.w.map_over_rule(k)
            self.set(d, "v", Sym(k, r))
            return
        sv = self.as_seq(other)
        if sv is not None:
            self.loop(sv, lambda p: self.dict_set(d, self.getitem(p, 0), self.getitem(p, 1)))
            return
        raise Unsupported("dict.update")

    # ------------------------------------------------------------------------------------ loops
    def iter_seq(self, v):
        """Consume an iterable completely: SeqV of its (remaining) elements."""
        v = self.resolve(v)
        if isinstance(v, PGen):
            sv = self.force(v)
            self.set(v, "rest", SeqV())
            return sv
        if isinstance(v, PIter) or isinstance(v, Sym) and isinstance(v.kind, K.GenRef):
            raise Unsupported("a never-ending generator is consumed completely")
        sv = self.as_seq(v)
        if sv is not None:
            return sv
        if self.is_str(v):
            if isinstance(v, str):
                return SeqV.of(list(v))
            f = uf("str_chars", z3.StringSort(), z3.SeqSort(z3.StringSort()))
            return SeqV.sym(Sym(K.Seq(K.Str), f(v.t)))
        if isinstance(v, PDict):
            return self.dict_keys(v)
        if isinstance(v, Sym) and isinstance(v.kind, K.Map):
            return self.dict_keys(v)
        if isinstance(v, PSet) and not isinstance(v.f["v"], Sym):
            return SeqV.of(v.f["v"])
        if isinstance(v, Sym) and isinstance(v.kind, K.Tup):
            return SeqV.of([self.getitem(v, i) for i in range(len(v.kind.ks))])
        if isinstance(v, (list, tuple, set, frozenset, range, dict)):
            return SeqV.of(list(v))
        if isinstance(v, (PObj, Sym)):
            it = getattr(self.class_of(v), "__iter__", None)
            if isinstance(it, types.FunctionType):
                return self.iter_seq(self.call(it, [v], {}))
        raise Unsupported(f"iterate {v!r}")

    def dict_keys(self, v):
        d = v.f["v"] if isinstance(v, PDict) else v
        if isinstance(d, dict):
            return SeqV.of(list(d))
        sv = self.dict_items(v)
        tk = sv.segs[0][1].kind.elem
        x = z3.Const("!di", tk.sort())
        return SeqV.sym(Sym(K.Seq(d.kind.k), self.reg.mk_fm(sv.segs[0][1].t, x, z3.Unit(tk.get(x, 0)))))

    def dict_items(self, v):
        d = v.f["v"] if isinstance(v, PDict) else v
        if isinstance(d, dict):
            return SeqV.of([(k, x) for k, x in d.items()])
        tk = K.Tup(d.kind.k, d.kind.v)
        f = uf("items_" + d.kind.key, d.kind.sort(), z3.SeqSort(tk.sort()))
        return SeqV.sym(Sym(K.Seq(tk), f(d.t)))

    def loop(self, sv, body):
        """Run body(x) for each element; Brk propagates as return True (broken)."""
        for tag, s in sv.segs:
            if tag == "i":
                try:
                    body(s)
                except Cont:
                    pass
                except Brk:
                    return True
            else:
                if self.sym_loop(s, body):
                    return True
        return False

    def elem_facts(self, s, x):
        """Facts known about an arbitrary element x of symbolic sequence s."""
        self.assume(z3.Contains(s.t, z3.Unit(x)))
        if z3.is_app(s.t) and s.t.decl().name() == "py_range":
            self.assume(z3.And(s.t.arg(0) <= x, x < s.t.arg(1)))
        if z3.is_app(s.t) and s.t.decl().name().startswith("items_"):  # an item of a dict: the value stored under its key
            tk = s.kind.elem
            self.assume(z3.Select(s.t.arg(0), tk.get(x, 0)) == K.Opt(tk.ks[1]).some(tk.get(x, 1)))
        inv = getattr(self.w, "elem_inv", None)
        if inv:
            for f in inv.get(s.kind.elem.key, ()):
                self.assume(f(x))

    def sym_loop(self, s, body):
        if self.loop_depth > 6:
            raise Unsupported("loop nesting")
        t = s.t
        # push through visible structure
        if is_concat(t):
            for ch in t.children():
                if self.sym_loop(Sym(s.kind, ch), body):
                    return True
            return False
        if is_unit(t):
            try:
                body(self.value_of(s.kind.elem, t.arg(0)))
            except Cont:
                pass
            except Brk:
                return True
            return False
        if is_empty_seq(t):
            return False
        self.loop_depth += 1
        try:
            return self._sym_loop(s, body)
        finally:
            self.loop_depth -= 1

    def _sym_loop(self, s, body):
        base_oid = self.next_oid
        n0 = self.nfresh
        self.nfresh += 1
        x = z3.Const(f"el!{self.nfresh}", s.kind.elem.sort())
        cells: dict = {}  # (oid,key) -> [obj, key, kind, const]
        results = None

        seen = z3.Const(f"seen!{self.nfresh}", s.t.sort()) if self.loop_inv else None

        def havoc_run():
            if seen is not None:
                inits = [self.cell_lift(c[0], c[1], c[0].f.get(c[1]), c[2]) if c[3] is not None else None for c in cells.values()]
            for c in cells.values():
                self.put_cell(c[0], c[1], c[2], c[3])
            self.elem_facts(s, x)
            if seen is not None:
                for fact in self.round_facts(s, x, seen):
                    self.assume(fact)
                if all(i is not None for i in inits):
                    for _f, at in self.invariants_at(s, list(cells.values()), inits):
                        self.assume(at(seen, [c[3] for c in cells.values()], z3.IntVal(0)))
            body(self.value_of(s.kind.elem, x))

        self.quiet += 1
        try:
            for _ in range(8):
                results = self.explore_sub(havoc_run)
                changed = False
                for _, out, finals, _e in results:
                    for ck, (o, v) in finals.items():
                        if o.oid > base_oid or v is _MISSING:
                            continue
                        if ck not in cells and ck[1] not in o.f:
                            continue  # loop-local variable
                        cur = o.f.get(ck[1], _MISSING)
                        if ck not in cells:
                            if v is cur or isinstance(v, SeqV) and isinstance(cur, SeqV) and not v.segs and not cur.segs:
                                continue
                            k = self.cell_kind(o, ck[1], cur)
                            k = self.join(k, self.cell_kind(o, ck[1], v))
                            cells[ck] = [o, ck[1], k, None]
                            changed = True
                        else:
                            k = self.join(cells[ck][2], self.cell_kind(o, ck[1], v))
                            if k != cells[ck][2] or isinstance(cells[ck][2], _MapBot) != isinstance(k, _MapBot):
                                cells[ck][2] = k
                                changed = True
                if not changed:
                    break
                for i, c in enumerate(cells.values()):
                    if c[2] is Bot or _has_bot(c[2]):
                        c[3] = None
                    elif c[3] is None or c[3].sort() != c[2].sort():
                        self.nfresh += 1
                        c[3] = z3.Const(f"st!{self.nfresh}", c[2].sort())
            else:
                raise Unsupported("loop kinds do not stabilise")
        finally:
            self.quiet -= 1
        if not self.quiet:
            results = self.explore_sub(havoc_run)
        # any nondeterminism inside the body?
        allowed = {x.get_id()} | {c[3].get_id() for c in cells.values() if c[3] is not None}

        def check_det(term):
            for c in free_consts(term):
                if c.get_id() in allowed:
                    continue
                nm = c.decl().name()
                if "!" in nm:
                    tail = nm.rsplit("!", 1)[1]
                    if not nm.startswith("!") and tail.isdigit() and int(tail) > n0:
                        raise Unsupported(f"nondeterministic value {nm} inside a loop body")
            return term

        for c in cells.values():
            if c[3] is None:
                raise Unsupported(f"loop state of unknown kind ({c[1]}: {c[2]})")
        states = [c[3] for c in cells.values()]
        clist = list(cells.values())
        for r in results:
            for e in r[3]:
                self.effects.append(("loop:" + e[0], e[1]))
        conds = [z3.And(*[check_det(c) for tg, c in r[0] if tg == "b"]) if any(tg == "b" for tg, _ in r[0]) else z3.BoolVal(True) for r in results]
        if not results:
            # body infeasible: the sequence is empty
            self.assume(z3.Length(s.t) == 0)
            return False
        exits = [i for i, r in enumerate(results) if r[1][0] != "normal"]

        def final_terms(r, i):
            out = []
            for c in clist:
                ck = (c[0].oid, c[1])
                if ck in r[2]:
                    out.append(check_det(self.cell_lift(c[0], c[1], r[2][ck][1], c[2])))
                else:
                    out.append(c[3])
            return out

        finals = [final_terms(r, i) for i, r in enumerate(results)]
        inits = [self.cell_lift(c[0], c[1], c[0].f.get(c[1]), c[2]) for c in clist]

        def merged(j, idxs=None):
            return self.ite_chain([(conds[i], finals[i][j]) for i in (idxs or range(len(results)))])

        st_ids = {z.get_id() for z in states}
        from .prover import contains_any

        if not exits:
            fm_set = {}
            for j, c in enumerate(clist):
                if not isinstance(c[2], K.Seq):
                    continue
                deltas = []
                ok = True
                for i in range(len(results)):
                    d = _suffix(finals[i][j], states[j])
                    if d is None or contains_any(d, st_ids):
                        ok = False
                        break
                    deltas.append((conds[i], d))
                if not ok:
                    continue
                delta = z3.simplify(self.ite_chain(deltas))
                if contains_any(delta, st_ids):
                    continue
                fm_set[j] = delta
            fold_idx = [j for j in range(len(clist)) if j not in fm_set]
            res = {}
            for j, delta in fm_set.items():
                res[j] = concat(inits[j], self.reg.mk_fm(s.t, x, delta))
            if fold_idx:
                outs = [merged(j) for j in fold_idx]
                # fold outs may mention fm states: include them then
                need = [j for j in fm_set if any(contains_any(o, {states[j].get_id()}) for o in outs)]
                idxs = fold_idx + need
                outs = [merged(j) for j in idxs]
                rs = self.reg.mk_fold(s.t, x, [states[j] for j in idxs], outs, [inits[j] for j in idxs])
                for j, r in zip(idxs, rs):
                    if j not in fm_set:
                        res[j] = r
            for j, c in enumerate(clist):
                self.put_cell(c[0], c[1], c[2], z3.simplify(res[j]))
            if self.loop_inv:
                fm_known = {j: (lambda p, d=delta, j=j: concat(inits[j], self.reg.mk_fm(p, x, d))) for j, delta in fm_set.items()}
                self.loop_invariants(s, x, seen, clist, states, inits, finals, [res[j] for j in range(len(clist))], conds, results, known=fm_known)
            return False
        # early exits
        if not clist and not any(contains_any(c, st_ids) for c in conds):
            exit_c = z3.Or(*[conds[i] for i in exits])
            hit = self.reg.mk_fm(s.t, x, z3.If(z3.simplify(exit_c), z3.Unit(x), z3.Empty(z3.SeqSort(x.sort()))))
            if self.branch(z3.Length(hit) == 0):
                return False
            x0 = hit[0]
            x0 = z3.simplify(x0)
            pairs = [(x, x0)]
            self.assume(subst(exit_c, pairs))
            self.assume(z3.Contains(s.t, z3.Unit(x0)))
            for i in exits:
                if i == exits[-1] or self.branch(subst(conds[i], pairs)):
                    if i == exits[-1]:
                        self.assume(subst(conds[i], pairs))
                    return self.do_exit(results[i][1], pairs)
        dn = self.fresh(K.Int, "st").t
        codes = {i: n + 1 for n, i in enumerate(exits)}
        idxs = list(range(len(clist)))
        sts = states + [dn]
        outs = [z3.If(dn != 0, states[j], merged(j)) for j in idxs]
        outs.append(z3.If(dn != 0, dn, self.ite_chain([(conds[i], z3.IntVal(codes.get(i, 0))) for i in range(len(results))])))
        # carried exit values
        carried = []
        for i in exits:
            kind_, v = results[i][1]
            if kind_ == "return" and v is not None:
                k = self.kind_of(v)
                term = check_det(self.lift(v, k))
                if z3.is_true(term) or z3.is_false(term) or z3.is_int_value(term) or z3.is_string_value(term):
                    continue  # the same value whichever round returns it
                c = self.fresh(k, "st").t
                sts.append(c)
                outs.append(z3.If(z3.And(dn == 0, conds[i]), term, c))
                carried.append((i, k, len(sts) - 1))
        ini = inits + [z3.IntVal(0)] + [z3.Const("dflt_" + k.key, k.sort()) for _, k, _ in carried]
        rs = self.reg.mk_fold(s.t, x, sts, outs, ini)
        for j, c in enumerate(clist):
            self.put_cell(c[0], c[1], c[2], rs[j])
        done = rs[len(clist)]
        if self.loop_inv:
            self.loop_invariants(s, x, seen, clist, states, inits, finals, rs[: len(clist)], conds, results, done=(dn, codes, done))
        if self.branch(done == 0):
            return False
        for i in exits:
            if i == exits[-1] or self.branch(done == codes[i]):
                kind_, v = results[i][1]
                for ii, k, p in carried:
                    if ii == i:
                        v = self.value_of(k, rs[p])
                return self.do_exit((kind_, v), [])
        return False

    def member_facts(self, s, x, depth=3):
        """Where an element x of the sequence s comes from, if s is a flat-map (list of formulas)."""
        out = []
        if not z3.is_app(s) or depth == 0:
            return out
        if s.decl().name() == "py_range":
            return [s.arg(0) <= x, x < s.arg(1)]
        from .prover import is_ite

        fm = self.reg.fms.get(s.decl().name())
        if fm is None:
            return out
        args = [s.arg(i) for i in range(1, s.num_args())]

        def unfilter(y):
            b, conds = fm.inst(y, args), []
            while is_ite(b):
                if is_empty_seq(b.arg(2)):
                    conds.append(z3.simplify(b.arg(0)))
                    b = b.arg(1)
                elif is_empty_seq(b.arg(1)):
                    conds.append(z3.simplify(z3.Not(b.arg(0))))
                    b = b.arg(2)
                else:
                    break
            return only_item(b), conds

        y = None
        if x.decl().name().startswith("seq.nth") and x.arg(0).eq(s):
            # lists made from the same elements of one list: their elements at one position come from the same place
            generic = z3.Const("src!of", fm.x.sort())
            b, conds = unfilter(generic)
            if is_unit(b):
                key = ("src", s.arg(0).get_id(), tuple(c.get_id() for c in conds), x.arg(1).get_id())
                self.reg_keep = getattr(self, "reg_keep", {})
                if key not in self.reg_keep:
                    self.nfresh += 1
                    self.reg_keep[key] = (z3.Const(f"src!{self.nfresh}", fm.x.sort()), s, conds, x)
                y = self.reg_keep[key][0]
        if y is None:
            self.nfresh += 1
            y = z3.Const(f"src!{self.nfresh}", fm.x.sort())
        b, conds = unfilter(y)
        out += conds
        if is_unit(b):
            out.append(x == b.arg(0))
        else:
            out.append(z3.Contains(b, z3.Unit(x)))
        out += self.member_facts(s.arg(0), y, depth - 1)
        seen, todo = set(), list(out)
        while todo:  # elements of other flat-maps, taken by index
            t = todo.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            if t.decl().name().startswith("seq.nth") and self.reg.fms.get(t.arg(0).decl().name()) is not None:
                j = t.arg(1)
                while True:  # an index taken from range(0, n) is the position it is taken from
                    i = j.arg(1) if is_ite(j) else j
                    if not (z3.is_app(i) and i.decl().name().startswith("seq.nth") and i.arg(0).decl().name() == "py_range" and z3.is_int_value(i.arg(0).arg(0)) and i.arg(0).arg(0).as_long() == 0):
                        break
                    r, q = i.arg(0), i.arg(1)
                    out.append(z3.Implies(z3.And(q >= 0, q < r.arg(1)), z3.And(j == q, r[q] == q)))
                    j = q
                if not j.eq(t.arg(1)):
                    t = t.decl()(t.arg(0), j)
                fs = self.member_facts(t.arg(0), t, depth - 1)
                if fs:
                    out.append(z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) < z3.Length(t.arg(0))), z3.And(*fs)))
            todo += t.children()
        return out

    def round_facts(self, s, x, p):
        """About a round that handles x after the part p of s."""
        px = concat(p, z3.Unit(x))
        return [z3.PrefixOf(px, s.t), z3.Implies(z3.Length(p) > 0, p[0] == s.t[0]), z3.Implies(z3.Length(p) == 0, x == s.t[0]), *self.member_facts(s.t, x)]

    def invariants_at(self, s, clist, inits):
        """The supplied invariants that speak about this loop: (f, at(p, states, done) -> formula).

        An invariant is f(run, xs, p, ...): p is the part of xs already seen; the other parameters name state changed by the
        loop (local variables, world_<ghost cell>), init_<state>, local variables it does not change, ghost variables, and
        done (0 until an early exit)."""
        labels = []
        for o, key, *_ in clist:
            if isinstance(o, Env):
                labels.append(key)
            elif o is self.world:
                labels.append("world_" + key)
            else:
                labels.append(next((n for e in reversed(self.frames) for n, v in e.f.items() if v is o), None) if key == "v" else None)
        found = []
        for f in self.loop_inv:
            names = list(inspect.signature(f).parameters)[3:]
            if not any(n in labels for n in names):
                continue
            fixed = {}
            for n in names:
                if n in labels or n == "done" or n.startswith("init_") and n[5:] in labels:
                    continue
                v = self.inv_ghost.get(n, self.frames[-1].f.get(n, _MISSING) if self.frames else _MISSING)
                if v is _MISSING:
                    break
                fixed[n] = v
            else:

                def at(p, terms, dn, f=f, names=names, fixed=fixed):
                    b = dict(fixed)
                    for n in names:
                        if n == "done":
                            b[n] = dn
                        elif n in labels:
                            b[n] = terms[labels.index(n)]
                        elif n not in b:
                            b[n] = inits[labels.index(n[5:])]
                    own, self.loop_inv = self.loop_inv, ()
                    try:
                        return f(self, s, Sym(s.kind, p), **b)
                    finally:
                        self.loop_inv = own

                found.append((f, at))
        return found

    def loop_invariants(self, s, x, p, clist, states, inits, finals, res, conds, results, done=None, known=None):
        """The supplied invariants hold before the loop, each round keeps them, hence they hold after it."""
        zero = z3.IntVal(0)
        found = self.invariants_at(s, clist, inits)
        for f, at in found:
            self.oblige(f"loop_start[{f.__name__}]", at(z3.Empty(s.t.sort()), inits, zero))
        n = len(self.pc)
        for i in range(len(results) + (done is not None)):
            if self.quiet or not found:
                break
            try:
                self.elem_facts(s, x)
                for fact in self.round_facts(s, x, p):
                    self.assume(fact)
                if done is not None:
                    self.assume(done[0] != 0 if i == len(results) else done[0] == 0)
                for f, at in found:
                    self.assume(at(p, states, done[0] if done else zero))
                if i < len(results):
                    for _tag, t in results[i][0]:
                        self.assume(t)
                for j, k in (known or {}).items():
                    self.assume(states[j] == k(p))
                for f, at in found:
                    if i < len(results):
                        self.oblige(f"loop_round[{f.__name__}]", at(concat(p, z3.Unit(x)), finals[i], z3.IntVal(done[1].get(i, 0)) if done else zero))
                    else:
                        self.oblige(f"loop_round[{f.__name__}]", at(concat(p, z3.Unit(x)), states, done[0]))
            except Infeasible:
                pass
            del self.pc[n:]
        for f, at in found:
            self.assume(at(s.t, res, done[2] if done else zero))

    def do_exit(self, out, pairs):
        kind, v = out
        if kind == "break":
            return True
        if kind == "return":
            raise Ret(self.subst_value(v, pairs))
        raise Raised(v)

    def subst_value(self, v, pairs):
        if not pairs:
            return v
        if isinstance(v, Sym):
            return Sym(v.kind, z3.simplify(subst(v.t, pairs)))
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, pairs) for x in v)
        if isinstance(v, PList):
            return PList(self, self.subst_seq(v.f["v"], pairs))
        if isinstance(v, SeqV):
            return self.subst_seq(v, pairs)
        if isinstance(v, PObj):
            return PObj(self, v.cls, {k: self.subst_value(x, pairs) for k, x in v.f.items()})
        if isinstance(v, Obj):
            raise Unsupported("exit value")
        return v

    def subst_seq(self, sv, pairs):
        return SeqV([(t, self.subst_value(x, pairs)) for t, x in sv.segs])

    def ite_chain(self, cvs):
        r = cvs[-1][1]
        for c, v in reversed(cvs[:-1]):
            if v.eq(r):
                continue
            r = z3.If(c, v, r)
        return r

    def cell_kind(self, o, key, v):
        if isinstance(o, PList) or isinstance(o, PGen) and key == "rest":
            if v is None:
                raise Unsupported("unforced generator in loop")
            return K.Seq(self.elem_kind(v))
        if isinstance(o, (PSet, PDict)):
            if isinstance(v, Sym):
                return v.kind
            tmp = type(o)(self, v)
            return self.kind_of(tmp)
        return self.kind_of(v)

    def cell_lift(self, o, key, v, kind):
        if isinstance(o, PList) or isinstance(o, PGen) and key == "rest":
            return self.seq_term(v, kind.elem)
        if isinstance(o, (PSet, PDict)) and not isinstance(v, Sym):
            return self.lift(type(o)(self, v), kind)
        return self.lift(v, kind)

    def put_cell(self, o, key, kind, const):
        if const is None:
            return
        if isinstance(o, PList) or isinstance(o, PGen) and key == "rest":
            self.set(o, key, SeqV.sym(Sym(kind, const)))
        elif isinstance(o, (PSet, PDict)):
            self.set(o, key, Sym(kind, const))
        else:
            cur = o.f.get(key)
            if isinstance(kind, K.Seq) and isinstance(cur, (PList, PGen)) or isinstance(kind, K.Seq) and kind.py == "list":
                self.set(o, key, PList(self, SeqV.sym(Sym(kind, const))))
            elif isinstance(kind, K.Map):
                self.set(o, key, PDict(self, Sym(kind, const)))
            elif isinstance(kind, K.SetK):
                self.set(o, key, PSet(self, Sym(kind, const)))
            else:
                self.set(o, key, self.value_of(kind, const))

    # calls are mixed in by interp.Interp


_MISSING = object()


class _MapBot(K.Kind):
    key = "MapBot"


def _has_bot(k):
    if k is Bot or isinstance(k, _MapBot):
        return True
    if isinstance(k, (K.Seq, K.SetK)):
        return _has_bot(k.elem)
    if isinstance(k, K.Opt):
        return _has_bot(k.k)
    if isinstance(k, K.Tup):
        return any(_has_bot(x) for x in k.ks)
    return False


def _suffix(t, s):
    """d such that t = s ++ d, or None."""
    if t.eq(s):
        return z3.Empty(s.sort())
    if is_concat(t) and t.arg(0).eq(s):
        rest = t.children()[1:]
        return rest[0] if len(rest) == 1 else z3.Concat(*rest)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = _suffix(t.arg(1), s), _suffix(t.arg(2), s)
        if a is not None and b is not None:
            return z3.If(t.arg(0), a, b)
    return None


def _host_name(v):
    n = getattr(v, "__name__", None) or type(v).__name__
    return f"{n}_{id(v)}"
