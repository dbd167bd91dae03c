"""Statements, expressions and calls."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import functools
import importlib
import inspect
import logging
import sys
import types

import z3

from . import kinds as K
from .engine import (
    _MISSING, Brk, Budget, Cont, Infeasible, Raised, Ret, Run, Endless, _is_gen_cached, fn_node, mk_str, uf,
)
from .prover import concat, subst
from .values import (
    Bot, Bound, Builtin, Env, Obj, PDict, PExc, PFun, PGen, PList, PObj, PRange, PSet, NeverEnds, PIter, PTake, SeqV, Sym,
    Unsupported,
)


class RecSpec:
    """Spec function treated as an uninterpreted symbol, unfolded on demand."""

    def __init__(self, fn, params, ret, name=None, unfold=True):
        self.fn, self.params, self.ret = fn, params, ret
        self.name = name or fn.__name__
        self.unfold = unfold
        functools.update_wrapper(self, fn)
        self._f = None
        self._tmpl = None

    def __call__(self, *a, **k):  # concrete execution
        return self.fn(*a, **k)

    def decl(self):
        if self._f is None:
            self._f = uf("rec_" + self.name, *[k.sort() for k in self.params], self.ret.sort())
        return self._f


def rec(params, ret, name=None):
    return lambda fn: RecSpec(fn, params, ret, name)


def abstract(params, ret, name=None):
    """Spec-level function with no definition visible to the prover (its concrete body is for replay only)."""
    return lambda fn: RecSpec(fn, params, ret, name, unfold=False)


class Interp(Run):
    # -------------------------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, n, env):
        self.steps = getattr(self, "steps", 0) + 1
        if self.steps > 60000:
            raise Budget("too many steps")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__}")
        return m(n, env)

    def s_Pass(self, n, env):
        pass

    def s_Expr(self, n, env):
        self.eval(n.value, env)

    def s_Return(self, n, env):
        raise Ret(None if n.value is None else self.eval(n.value, env))

    def s_Break(self, n, env):
        raise Brk()

    def s_Continue(self, n, env):
        raise Cont()

    def s_Assign(self, n, env):
        v = self.eval(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, env), env)

    def s_AugAssign(self, n, env):
        cur = self.eval(_load(n.target), env)
        v = self.eval(n.value, env)
        if isinstance(n.op, ast.Add) and isinstance(cur, PList):
            self.set(cur, "v", cur.f["v"] + self.iter_seq(v))
            return
        self.assign(n.target, self.binop(n.op, cur, v), env)

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.unset(env, t.id)
            elif isinstance(t, ast.Subscript):
                c = self.eval(t.value, env)
                if isinstance(c, PList) and not isinstance(t.slice, ast.Slice):
                    self.list_pop(c, self.eval(t.slice, env))
                elif isinstance(c, PDict):
                    k = self.eval(t.slice, env)
                    self.dict_pop(c, k)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_If(self, n, env):
        if self.truth(self.eval(n.test, env)):
            self.block(n.body, env)
        else:
            self.block(n.orelse, env)

    def s_Assert(self, n, env):
        if not self.truth(self.eval(n.test, env)):
            self.raise_(AssertionError)

    def s_Raise(self, n, env):
        if n.exc is None:
            raise Raised(env.f.get("%exc") or self.lookup("%exc", env))
        v = self.eval(n.exc, env)
        if n.cause is not None:
            self.eval(n.cause, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = PExc(self, v)
        if not isinstance(v, PExc):
            raise Unsupported("raise")
        raise Raised(v)

    def s_Import(self, n, env):
        for a in n.names:
            try:
                mod = importlib.import_module(a.name)
            except ImportError:
                self.raise_(ImportError)
            self.set(env, a.asname or a.name.split(".")[0], mod if a.asname else sys.modules[a.name.split(".")[0]])

    def s_ImportFrom(self, n, env):
        try:
            mod = importlib.import_module(n.module)
        except ImportError:
            self.raise_(ImportError)
        for a in n.names:
            self.set(env, a.asname or a.name, getattr(mod, a.name))

    def s_FunctionDef(self, n, env):
        defaults = [self.eval(d, env) for d in n.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        self.set(env, n.name, PFun(self, n, env, n.name, defaults, kwd))

    def s_Global(self, n, env):
        pass

    def s_Nonlocal(self, n, env):
        self.set(env, "%nonlocal", (*env.f.get("%nonlocal", ()), *n.names))

    def s_With(self, n, env):
        for item in n.items:
            v = self.eval(item.context_expr, env)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        self.block(n.body, env)

    def s_Try(self, n, env):
        try:
            try:
                self.block(n.body, env)
            except Raised as r:
                for h in n.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ht = self.eval(h.type, env)
                        hts = ht if isinstance(ht, tuple) else (ht,)
                        ok = any(issubclass(r.exc.cls, c) for c in hts)
                    if ok:
                        if h.name:
                            self.set(env, h.name, r.exc)
                        self.set(env, "%exc", r.exc)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(n.orelse, env)
        finally:
            if n.finalbody:
                self.block(n.finalbody, env)

    def s_For(self, n, env):
        it = self.eval(n.iter, env)
        it = self.resolve(it)
        if self.endless(it):
            return self.endless_for(n, it, env)

        def body(x):
            self.assign(n.target, x, env)
            self.block(n.body, env)

        broken = self.loop(self.iter_seq(it), body)
        if not broken:
            self.block(n.orelse, env)

    def endless(self, it):
        if isinstance(it, PTake):
            return False
        if isinstance(it, PGen) and it.f["rest"] is None and it.thunk is not None:
            if it.f.get("endless") is not None:
                return True
            try:
                self.force(it)
            except Endless:
                return True
        return isinstance(it, PIter) or isinstance(it, Sym) and isinstance(it.kind, K.GenRef)

    def endless_for(self, n, it, env):
        if self.gen_depth(env) is None:
            raise Unsupported("for over a never-ending generator outside a generator function")

        def step():
            self.assign(n.target, self.next_(it), env)
            self.block(n.body, env)

        raise Endless(SeqV(), Tail(self, step, env))

    def gen_depth(self, env):
        return env.f.get("%out")

    def s_While(self, n, env):
        if isinstance(n.test, ast.Constant) and n.test.value and self.gen_depth(env) is not None:
            raise Endless(SeqV(), Tail(self, lambda: self.block(n.body, env), env))
        for _ in range(40):
            c = self.eval(n.test, env)
            c = c if not isinstance(c, Sym) else c
            before = len(self.taken)
            t = self.truth(c)
            if len(self.taken) != before:
                raise Unsupported("while with a symbolic condition")
            if not t:
                self.block(n.orelse, env)
                return
            try:
                self.block(n.body, env)
            except Cont:
                pass
            except Brk:
                return
        raise Unsupported("while does not terminate concretely")

    def s_Match(self, n, env):
        subj = self.eval(n.subject, env)
        for case in n.cases:
            if self.match_pat(case.pattern, subj, env) and (case.guard is None or self.truth(self.eval(case.guard, env))):
                self.block(case.body, env)
                return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.mkbool(self.eq(v, self.eval(p.value, env))))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.set(env, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, self.eval(p.cls, env))
        raise Unsupported("match pattern")

    # -------------------------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.f.get("%nonlocal", ()):
                e = env.parent
                while e is not None and t.id not in e.f:
                    e = e.parent
            self.set(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if isinstance(v, Sym) and isinstance(v.kind, K.Tup):
                items = [self.getitem(v, i) for i in range(len(v.kind.ks))]
            else:
                sv = self.iter_seq(v)
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    return self.unpack_star(t.elts, sv, env)
                if not sv.concrete():
                    ek = self.elem_kind(sv)
                    term = self.seq_term(sv, ek)
                    if not self.branch(z3.Length(term) == len(t.elts)):
                        self.raise_(ValueError)
                    items = [self.value_of(ek, z3.simplify(term[i])) for i in range(len(t.elts))]
                else:
                    items = sv.items()
            if len(items) != len(t.elts):
                self.raise_(ValueError)
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            c = self.resolve(self.eval(t.value, env))
            if isinstance(t.slice, ast.Slice):
                if isinstance(c, PList) and t.slice.lower is None and t.slice.upper is None:
                    self.set(c, "v", self.iter_seq(v))
                    return
                raise Unsupported("slice assignment")
            i = self.eval(t.slice, env)
            self.setitem(c, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack_star(self, elts, sv, env):
        k = [isinstance(e, ast.Starred) for e in elts].index(True)
        before, after = elts[:k], elts[k + 1 :]
        lst = PList(self, sv)
        if self.truth(self.compare(ast.Lt(), self.length(lst), len(before) + len(after))):
            self.raise_(ValueError)
        for i, e in enumerate(before):
            self.assign(e, self.getitem(lst, i), env)
        for i, e in enumerate(after):
            self.assign(e, self.getitem(lst, i - len(after)), env)
        mid = self.getslice(lst, slice(len(before), -len(after) if after else None))
        self.assign(elts[k].value, mid, env)

    def setitem(self, c, i, v):
        if isinstance(c, PDict):
            self.dict_set(c, i, v)
        elif isinstance(c, PList):
            sv = c.f["v"]
            i = self.resolve(i)
            if sv.concrete() and isinstance(i, int):
                items = sv.items()
                if not -len(items) <= i < len(items):
                    self.raise_(IndexError)
                items[i] = v
                self.set(c, "v", SeqV.of(items))
                return
            ek = self.join(self.elem_kind(sv), self.kind_of(v))
            t = self.seq_term(sv, ek)
            n = z3.Length(t)
            it, _ = self.num(i)
            it = z3.simplify(z3.If(it < 0, it + n, it) if not self.loop_inv or self.feasible(it < 0) else it)
            if not self.branch(z3.And(it >= 0, it < n)):
                self.raise_(IndexError)
            if self.loop_inv:
                nt = self.list_set(t, it, self.lift(v, ek))
                self.set(c, "v", SeqV.sym(Sym(K.Seq(ek), nt)))
                return
            nt = concat(z3.SubSeq(t, z3.IntVal(0), it), z3.Unit(self.lift(v, ek)), z3.SubSeq(t, it + 1, n - it - 1))
            self.set(c, "v", SeqV.sym(Sym(K.Seq(ek), nt)))
        else:
            raise Unsupported(f"setitem on {c!r}")

    def list_set(self, t, i, v):
        """The list t with v at position i (which exists), described by its length and by what it has at i and at the ghost positions."""
        name = "list_set_" + v.sort().name().replace(" ", "_")
        ks = [g.t for g in self.inv_ghost.values() if isinstance(g, Sym) and g.kind is K.Int]
        if name not in self.reg.rules:

            def facts(u):
                s, j, e = u.arg(0), u.arg(1), u.arg(2)
                inside = z3.And(j >= 0, j < z3.Length(s))
                return [z3.Length(u) == z3.Length(s), z3.Implies(inside, u[j] == e), *(z3.Implies(z3.And(inside, k != j), u[k] == s[k]) for k in ks)]

            self.reg.rules[name] = [facts]
        return uf(name, t.sort(), z3.IntSort(), v.sort(), t.sort())(t, i, v)

    def setattr_(self, o, name, v):
        if isinstance(o, PObj):
            d = inspect.getattr_static(o.cls, name, None)
            if isinstance(d, property):
                if d.fset is None:
                    self.raise_(AttributeError)
                self.call(d.fset, [o, v], {})
                return
            if dataclasses.is_dataclass(o.cls) and o.cls.__dataclass_params__.frozen:
                self.raise_(dataclasses.FrozenInstanceError)
            if getattr(o, "partial", None) is not None and name not in o.partial:
                raise Unsupported(f"the contract does not describe attribute {name} of {o.cls.__name__}")
            self.set(o, name, v)
            return
        if isinstance(o, type):
            self.effect("classattr", o, name)
            raise Unsupported("class attribute assignment")
        if isinstance(o, Sym):
            raise Unsupported(f"attribute assignment on {o.kind}")
        raise Unsupported("attribute assignment")

    # -------------------------------------------------------------------------------- expressions
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.f:
                return e.f[name]
            e = e.parent
        g = env.glob
        if name in g:
            v = g[name]
            if self.w.state_of and id(v) in self.w.state_of:  # process-wide state a contract describes
                return self.w.state_of[id(v)](self)
            return v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Unsupported(f"name {name} is not bound")

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Tuple(self, n, env):
        sv = self.star_items(n.elts, env)
        return tuple(sv.items()) if sv.concrete() else sv

    def e_List(self, n, env):
        return PList(self, self.star_items(n.elts, env))

    def star_items(self, elts, env):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.iter_seq(self.eval(e.value, env)).segs)
            else:
                segs.append(("i", self.eval(e, env)))
        return SeqV(segs)

    def e_Set(self, n, env):
        s = PSet(self, [])
        for e in n.elts:
            self.set_add(s, self.eval(e, env))
        return s

    def set_add(self, s, v):
        cur = s.f["v"]
        if isinstance(cur, Sym):
            k = cur.kind
            self.set(s, "v", Sym(k, z3.Store(cur.t, self.lift(v, k.elem), z3.BoolVal(True))))
            return
        host = (str, int, float, enum.Enum)
        if isinstance(v, host) and all(isinstance(x, host) for x in cur):
            if v not in cur:
                self.set(s, "v", [*cur, v])
            return
        k = self.kind_of(v)
        for x in cur:
            k = self.join(k, self.kind_of(x))
        sk = K.SetK(k)
        t = z3.K(k.sort(), z3.BoolVal(False))
        for x in [*cur, v]:
            t = z3.Store(t, self.lift(x, k), z3.BoolVal(True))
        self.set(s, "v", Sym(sk, t))

    def e_Dict(self, n, env):
        d = PDict(self, {})
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.eval(v, env))
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            v = self.resolve(v)
            if isinstance(v, Sym) and v.kind == K.Bool:
                return self.neg(v)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            v = self.resolve(v)
            if isinstance(v, (int, float)):
                return -v
            t, k = self.num(v)
            return self.norm(k, -t)
        raise Unsupported("unary op")

    def e_BoolOp(self, n, env):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not (isinstance(v, Sym) and v.kind == K.Bool) else False
            if isinstance(n.op, ast.Or) and t:
                if isinstance(v, Sym) and v.kind == K.Bool:
                    return True
                return self.resolve(v)
        return v

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if i == len(n.ops) - 1 and res is True:
                return c
            if not self.truth(c):
                return False
            left = right
            if i == len(n.ops) - 1:
                return True
        return res

    def e_Attribute(self, n, env):
        return self.getattr_(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        c = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            f = lambda e: None if e is None else self.eval(e, env)  # noqa: E731
            return self.getitem(c, slice(f(s.lower), f(s.upper), f(s.step)))
        if isinstance(c, type) or c.__class__.__module__ == "typing":
            return c
        return self.getitem(c, self.eval(n.slice, env))

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, env)
                    if v.conversion == 114:
                        parts.append(self.fresh_str("repr", x))
                    elif v.format_spec is not None:
                        parts.append(self.fresh_str("fmtspec", x))
                    else:
                        parts.append(self.to_str(x))
                except Unsupported:
                    parts.append(self.fresh(K.Str, "txt"))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.norm(K.Str, concat(*[self.lift(p, K.Str) for p in parts]))

    def to_str(self, v):
        v = self.resolve(v)
        if self.is_str(v):
            return v
        if isinstance(v, (int, float, bool)) or v is None:
            return str(v)
        if isinstance(v, PObj) or isinstance(v, Sym) and isinstance(v.kind, (K.Rec, K.Cmd)):
            c = self.class_of(v)
            s = getattr(c, "__str__", None)
            if isinstance(s, types.FunctionType) and self.is_repo(s):
                return self.call(s, [v], {})
        if isinstance(v, Sym) and "__str__" in getattr(v.kind, "methods", {}):
            return v.kind.methods["__str__"](self, [v], {})
        return self.fresh_str("str", v)

    def e_Lambda(self, n, env):
        return PFun(self, n, env, "<lambda>", [self.eval(d, env) for d in n.args.defaults])

    def e_Starred(self, n, env):
        raise Unsupported("starred")

    # comprehensions
    def comp(self, gens, env, emit, first=None):
        cenv = Env(self, env, env.glob)

        def run(i, first_it):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            it = first_it if first_it is not None else self.eval(g.iter, cenv if i else env)
            it = self.resolve(it)
            if self.endless(it):
                self.raise_(NeverEnds)

            def body(x):
                self.assign(g.target, x, cenv)
                for c in g.ifs:
                    if not self.truth(self.eval(c, cenv)):
                        return
                run(i + 1, None)

            self.loop(self.iter_seq(it), body)

        run(0, first)

    def e_ListComp(self, n, env):
        out = PList(self, SeqV())
        self.comp(n.generators, env, lambda e: self.append(out, self.eval(n.elt, e)))
        return out

    def append(self, lst, v):
        self.set(lst, "v", lst.f["v"] + SeqV.of([self.narrow(v)]))

    def e_SetComp(self, n, env):
        out = PSet(self, [])
        self.comp(n.generators, env, lambda e: self.set_add(out, self.eval(n.elt, e)))
        return out

    def e_DictComp(self, n, env):
        out = PDict(self, {})
        self.comp(n.generators, env, lambda e: self.dict_set(out, self.eval(n.key, e), self.eval(n.value, e)))
        return out

    def e_GeneratorExp(self, n, env):
        it = self.eval(n.generators[0].iter, env)
        it = self.resolve(it)
        if self.endless(it) and len(n.generators) == 1 and not n.generators[0].ifs:
            def nextf(run):
                e = Env(self, env, env.glob)
                self.assign(n.generators[0].target, self.next_(it), e)
                return self.eval(n.elt, e)

            return PIter(self, nextf, "genexpr")

        def thunk():
            out = PList(self, SeqV())
            self.comp(n.generators, env, lambda e: self.append(out, self.eval(n.elt, e)), first=it)
            return out.f["v"]

        return PGen(self, thunk, label="genexpr")

    def e_Yield(self, n, env):
        v = None if n.value is None else self.narrow(self.eval(n.value, env))
        out = self.gen_out(env)
        self.append(out, v)
        return None

    def e_YieldFrom(self, n, env):
        v = self.resolve(self.eval(n.value, env))
        if not isinstance(v, PGen) and self.endless(v):
            raise Endless(SeqV(), Tail(self, None, None, v))
        sv = self.iter_seq(v)
        out = self.gen_out(env)
        self.set(out, "v", out.f["v"] + sv)
        return None

    def gen_out(self, env):
        e = env
        while e is not None:
            if "%out" in e.f:
                return e.f["%out"]
            e = e.parent
        raise Unsupported("yield outside generator")

    # -------------------------------------------------------------------------------- attributes
    def getattr_raw(self, v, name):
        """Field of an object value, without forking on its class."""
        return v.f[name] if isinstance(v, PObj) else self.getattr_(v, name)

    def getattr_(self, v, name):
        if isinstance(v, Sym):
            v = self.resolve(v)
        if v is None:
            self.raise_(AttributeError)
        if isinstance(v, PObj):
            d = inspect.getattr_static(v.cls, name, _MISSING)
            if isinstance(d, property):
                return self.call(d.fget, [v], {})
            if name in v.f:
                return v.f[name]
            if d is _MISSING and getattr(v, "partial", None) is not None:
                raise Unsupported(f"attribute {name} of {v.cls.__name__}, unknown to the contract")
            return self.class_attr(v, v.cls, name, d)
        if isinstance(v, PExc):
            if name == "args":
                return v.f["args"]
            return self.fresh(K.Str, "excattr")
        if isinstance(v, Sym):
            k = v.kind
            if isinstance(k, K.Rec):
                if name in dict(k.fields):
                    return self.value_of(k.fkind(name), z3.simplify(k.get(v.t, name)))
                return self.class_attr(v, k.cls, name, inspect.getattr_static(k.cls, name, _MISSING))
            if isinstance(k, K.Cmd):
                common = k.registry.get("common", {})
                if name in common:
                    if k.cls is not None or True:
                        kk = common[name]
                        f = uf("Cmd." + name, k.sort(), kk.sort())
                        return self.value_of(kk, f(v.t))
                cls = self.class_of(v)
                if name in dict(k.registry["fields"][cls]):
                    f, kk = k.sel(cls, name)
                    return self.value_of(kk, f(v.t))
                return self.class_attr(v, cls, name, inspect.getattr_static(cls, name, _MISSING))
            if isinstance(k, K.Enum):
                if name == "value":
                    out = None
                    for m in k.members:
                        if m is k.members[-1] or self.branch(v.t == k.const(m)):
                            if m is k.members[-1]:
                                self.assume(v.t == k.const(m))
                            return m.value
                if name == "name":
                    return self.fresh_str("enumname", v)
                return self.class_attr(v, k.cls, name, inspect.getattr_static(k.cls, name, _MISSING))
            if isinstance(k, K.Opaque):
                fs = getattr(k, "fields", {})
                if name in fs:
                    f = uf(f"{k.name}.{name}", k.sort(), fs[name].sort())
                    return self.value_of(fs[name], f(v.t))
                ms = getattr(k, "methods", {})
                if name in ms:
                    return Bound(v, Builtin(ms[name], name), name)
                if k.cls is not None:
                    return self.class_attr(v, k.cls, name, inspect.getattr_static(k.cls, name, _MISSING))
                raise Unsupported(f"attribute {name} of {k}")
        tn = self.type_name(v)
        if tn is not None and (tn, name) in self.w.methods:
            h = self.w.methods[(tn, name)]
            return Bound(v, Builtin(h, f"{tn}.{name}"), name)
        if tn is not None:
            if not hasattr({"str": str, "list": list, "tuple": tuple, "dict": dict, "set": set, "gen": types.GeneratorType}[tn], name):
                self.raise_(AttributeError)
            raise Unsupported(f"method {tn}.{name}")
        if isinstance(v, (Obj, Bound, Builtin, PRange)):
            if isinstance(v, PFun) and name == "__name__":
                return v.name
            raise Unsupported(f"attribute {name} of {type(v).__name__}")
        try:
            r = getattr(v, name)
        except AttributeError:
            self.raise_(AttributeError)
        return r

    def type_name(self, v):
        if self.is_str(v):
            return "str"
        if isinstance(v, PList) or isinstance(v, Sym) and isinstance(v.kind, K.Seq) and v.kind.py == "list":
            return "list"
        if isinstance(v, (tuple, SeqV)) or isinstance(v, Sym) and isinstance(v.kind, (K.Seq, K.Tup)):
            return "tuple"
        if isinstance(v, PDict) or isinstance(v, Sym) and isinstance(v.kind, K.Map):
            return "dict"
        if isinstance(v, PSet) or isinstance(v, Sym) and isinstance(v.kind, K.SetK):
            return "set"
        if isinstance(v, (PGen, PIter)):
            return "gen"
        return None

    def class_attr(self, v, cls, name, d):
        if name == "__class__":
            return cls
        if d is _MISSING:
            self.raise_(AttributeError)
        if isinstance(d, property):
            return self.call(d.fget, [v], {})
        if isinstance(d, functools.cached_property):
            return self.call(d.func, [v], {})
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return Bound(cls, d.__func__, name)
        if isinstance(d, types.FunctionType):
            return Bound(v, d, name)
        if callable(d) and not isinstance(d, type):
            return Bound(v, d, name)
        return d

    # -------------------------------------------------------------------------------- calls
    def e_Call(self, n, env):
        # super().__init__ and friends
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return _Super(self.lookup("self", env) if "self" in env.f else None)
        fv = self.eval(n.func, env)
        if _is_logging(fv):
            for a in n.args:
                try:
                    self.eval(a.value if isinstance(a, ast.Starred) else a, env)
                except Unsupported:
                    pass
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.iter_seq(self.eval(a.value, env))
                if not sv.concrete():
                    args.append(_StarSeq(sv))
                else:
                    args.extend(sv.items())
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                dv = d.f["v"] if isinstance(d, PDict) else d
                if isinstance(dv, dict):
                    kwargs.update(dv)
                elif isinstance(dv, Sym):
                    kwargs["**"] = dv
                else:
                    raise Unsupported("** of symbolic mapping")
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(fv, args, kwargs)

    def is_repo(self, fn):
        m = getattr(inspect.unwrap(fn), "__module__", "") or ""
        return m.split(".")[0] in self.w.repo_prefixes

    def call(self, f, args, kwargs):
        self.depth += 1
        try:
            if self.depth > 60:
                raise Unsupported("call depth")
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Sym):
            f = self.resolve(f)
        if isinstance(f, Sym) and isinstance(f.kind, K.Opaque) and "__call__" in getattr(f.kind, "methods", {}):
            return f.kind.methods["__call__"](self, [f, *args], kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            return self._call(f.fn, [f.self_v, *args], kwargs)
        if isinstance(f, PFun):
            rc = getattr(self.contract, "rec_closure", None) if self.contract is not None else None
            if rc is not None and _self_recursive(f.node, f.name):
                return self.closure_contract(rc, f, args, kwargs)
            return self.call_node(f.node, f.env, f.env.glob, args, kwargs, f.defaults, f.kwdefaults, f.name)
        if isinstance(f, RecSpec):
            return self.call_rec(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self._call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        h = self.w.lib.get(id(f))
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, types.MethodType):
            h = self.w.lib.get(id(f.__func__))
            if h is not None:
                return h(self, [f.__self__, *args], kwargs)
            if isinstance(f.__func__, types.FunctionType):
                return self._call(f.__func__, [f.__self__, *args], kwargs)
        if isinstance(f, types.FunctionType) or hasattr(f, "__wrapped__"):
            g = inspect.unwrap(f)
            c = self.w.contracts.get(g)
            if c is not None and c.usable_at_call:
                r = c.call(self, args, kwargs)
                if r is not NotImplemented:
                    self.w.used_contracts.add(c.name)
                    return r
            if self.is_repo(g):
                return self.inline(g, args, kwargs)
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)}")
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        m = _method_key(f)
        if m is not None and m in self.w.methods:
            return self.w.methods[m](self, [f.__self__, *args], kwargs)
        if isinstance(f, _Super):
            raise Unsupported("super()")
        raise Unsupported(f"call of {f!r}")

    def closure_contract(self, rc, f, args, kwargs):
        """A self-recursive nested function is verified against a contract (for all arguments, recursive calls by the
        contract) and used through it."""
        kinds, spec = rc
        names = [a.arg for a in f.node.args.args]
        if kwargs or len(args) != len(names) or len(kinds) != len(names):
            raise Unsupported("call of a recursive nested function")
        done = self.ghost.setdefault("closures", set())
        if id(f.node) not in done:
            done.add(id(f.node))
            from .contract import make_param

            obls = []

            def attempt():
                ps = [make_param(self, k, f"clo_{n}") for n, k in zip(names, kinds)]
                ps2 = [make_param(self, k, f"clo_{n}") for n, k in zip(names, kinds)]
                got = self.call_node(f.node, f.env, f.env.glob, ps, {}, f.defaults, f.kwdefaults, f.name)
                got = PList(self, self.iter_seq(got)) if isinstance(got, PGen) else got
                want = spec(self, f, ps2)
                e = self.eq(got, want)
                obls.append((f"nested function {f.name}", list(self.hyps()), z3.BoolVal(e) if isinstance(e, bool) else e))

            q, self.quiet = self.quiet, 0
            try:
                for _pc, out, _f, _e in self.explore_sub(attempt):
                    if out[0] != "normal":
                        raise Unsupported("nested function raises")
            finally:
                self.quiet = q
            self.obls.extend(obls)
        r = spec(self, f, list(args))
        return r

    def inline(self, g, args, kwargs):
        self.w.inlined.add(f"{g.__module__}:{g.__qualname__}")
        node = fn_node(g)
        defaults = list(g.__defaults__ or ())
        return self.call_node(node, None, g.__globals__, args, kwargs, defaults, dict(g.__kwdefaults__ or {}), g.__qualname__)

    def bind_params(self, a, args, kwargs, defaults, kwdefaults, env):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        symkw = kwargs.pop("**", None)
        if any(isinstance(x, _StarSeq) for x in args):
            if len(args) == 1 and a.vararg and not pos:
                env.f[a.vararg.arg] = args[0].sv
                args = []
            else:
                raise Unsupported("star call")
        if len(args) > len(pos):
            if not a.vararg:
                self.raise_(TypeError)
            env.f[a.vararg.arg] = tuple(args[len(pos) :])
            args = args[: len(pos)]
        elif a.vararg and a.vararg.arg not in env.f:
            env.f[a.vararg.arg] = ()
        for nme, v in zip(pos, args):
            if nme in kwargs:
                self.raise_(TypeError)
            env.f[nme] = v
        nd = len(defaults)
        for i, nme in enumerate(pos):
            if nme in env.f:
                continue
            if nme in kwargs:
                env.f[nme] = kwargs.pop(nme)
            elif i >= len(pos) - nd:
                env.f[nme] = defaults[i - (len(pos) - nd)]
            else:
                self.raise_(TypeError)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env.f[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                env.f[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError)
        if a.kwarg:
            env.f[a.kwarg.arg] = PDict(self, symkw if symkw is not None and not kwargs else kwargs)
        elif kwargs:
            self.raise_(TypeError)

    def call_node(self, node, cenv, glob, args, kwargs, defaults, kwdefaults, name):
        env = Env(self, cenv, glob)
        self.frames.append(env)
        try:
            self.bind_params(node.args, args, kwargs, defaults, kwdefaults, env)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_gen_cached(node):
                return self.make_gen(node, env, name)
            return self.run_body(node, env)
        finally:
            self.frames.pop()

    def make_gen(self, node, env, name):
        def thunk():
            out = PList(self, SeqV())
            self.set(env, "%out", out)
            try:
                self.block(node.body, env)
            except Ret:
                pass
            except Endless as e:
                if e.tail.env is env:
                    e.tail.out = out
                raise Endless(out.f["v"] + e.prefix, e.tail)
            except Raised as r:
                if issubclass(r.exc.cls, StopIteration):
                    raise Raised(PExc(self, RuntimeError))
                raise
            return out.f["v"]

        return PGen(self, thunk, label=name)

    def run_body(self, node, env):
        try:
            self.block(node.body, env)
        except Ret as r:
            return r.v
        return None

    def call_class(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return PExc(self, cls, tuple(args))
        if cls.__module__.split(".")[0] not in self.w.repo_prefixes:
            raise Unsupported(f"construct {cls.__name__}")
        c = self.w.contracts.get(cls)
        if c is not None:
            r = c.call(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if issubclass(cls, enum.Enum):
            raise Unsupported("enum lookup")
        o = PObj(self, cls)
        if dataclasses.is_dataclass(cls) and "__init__" not in _src_methods(cls):
            self.dc_init(o, cls, args, kwargs)
        else:
            init = getattr(cls, "__init__", None)
            if isinstance(init, types.FunctionType):
                self.call(init, [o, *args], kwargs)
        return o

    def dc_init(self, o, cls, args, kwargs):
        kwargs = dict(kwargs)
        fs = [f for f in dataclasses.fields(cls) if f.init]
        if len(args) > len(fs):
            self.raise_(TypeError)
        for f, v in zip(fs, args):
            o.f[f.name] = self.narrow(v)
        for f in fs[len(args) :]:
            if f.name in kwargs:
                o.f[f.name] = self.narrow(kwargs.pop(f.name))
            elif f.default is not dataclasses.MISSING:
                o.f[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                o.f[f.name] = self.call(f.default_factory, [], {})
            else:
                self.raise_(TypeError)
        if kwargs:
            self.raise_(TypeError)
        pi = getattr(cls, "__post_init__", None)
        if pi is not None:
            self.call(pi, [o], {})

    def dc_replace(self, o, changes):
        o = self.resolve(o)
        cls = self.class_of(o)
        vals = {}
        for f in dataclasses.fields(cls):
            vals[f.name] = changes[f.name] if f.name in changes else self.getattr_(o, f.name)
        n = PObj(self, cls)
        self.dc_init(n, cls, [], vals)
        return n

    # recursive spec symbols
    def call_rec(self, r, args, kwargs):
        if kwargs:
            names = list(inspect.signature(r.fn).parameters)
            args = list(args) + [kwargs[n] for n in names[len(args) :]]
        ts = [self.lift(self.plain(a), k) for a, k in zip(args, r.params)]
        t = r.decl()(*ts)
        if r.unfold and r.decl().name() not in self.reg.recs:
            self.w.register_rec(r)
        return self.value_of(r.ret, t)

    def plain(self, v):
        return v

    # lists
    def list_pop(self, lst, i=-1):
        sv = lst.f["v"]
        i = self.resolve(i)
        if sv.concrete() and isinstance(i, int):
            items = sv.items()
            if not -len(items) <= i < len(items):
                self.raise_(IndexError)
            x = items.pop(i)
            self.set(lst, "v", SeqV.of(items))
            return x
        if i == -1 and sv.segs and sv.segs[-1][0] == "i":
            self.set(lst, "v", SeqV(sv.segs[:-1]))
            return sv.segs[-1][1]
        if i == 0 and sv.segs and sv.segs[0][0] == "i":
            self.set(lst, "v", SeqV(sv.segs[1:]))
            return sv.segs[0][1]
        ek = self.elem_kind(sv)
        t = self.seq_term(sv, ek)
        n = z3.Length(t)
        it, _ = self.num(i)
        it = z3.simplify(z3.If(it < 0, it + n, it))
        if not self.branch(z3.And(it >= 0, it < n)):
            self.raise_(IndexError)
        pre, post = z3.SubSeq(t, z3.IntVal(0), it), z3.SubSeq(t, it + 1, n - it - 1)
        x = t[it]
        self.set(lst, "v", SeqV.sym(Sym(K.Seq(ek), concat(pre, post))))
        return self.value_of(ek, x)

    def dict_pop(self, d, k):
        cur = d.f["v"]
        if isinstance(cur, Sym):
            kt = self.lift(k, cur.kind.k)
            cell = z3.Select(cur.t, kt)
            if self.branch(cur.kind.opt.is_none(cell)):
                self.raise_(KeyError)
            self.set(d, "v", Sym(cur.kind, z3.Store(cur.t, kt, cur.kind.opt.none())))
            return self.value_of(cur.kind.v, cur.kind.opt.val(cell))
        for kk in cur:
            if self.truth(self.mkbool(self.eq(kk, k))):
                new = dict(cur)
                v = new.pop(kk)
                self.set(d, "v", new)
                return v
        self.raise_(KeyError)

    # iterators
    def next_(self, g, default=_MISSING):
        g = self.resolve(g)
        if isinstance(g, Sym) and isinstance(g.kind, K.GenRef):
            return self.w.gen_next(self, g)
        if isinstance(g, PIter):
            return g.nextf(self)
        if not isinstance(g, PGen):
            self.raise_(TypeError)
        if isinstance(g, PTake) and g.f["rest"] is None:
            left = self.lift(g.f["left"], K.Int)
            if self.branch(left > 0):
                self.set(g, "left", Sym(K.Int, z3.simplify(left - 1)))
                return self.next_(g.it)
            if default is not _MISSING:
                return default
            self.raise_(StopIteration)
        try:
            sv = self.force(g)
        except Endless as e:
            ys = e.prefix
            if not ys.segs:
                st, ys = e.tail.step()
                if st != "normal" or not ys.segs:
                    raise Unsupported("round of a never-ending generator without a yield")
            if ys.segs[0][0] != "i":
                raise Unsupported("symbolic yields of a never-ending generator")
            self.set(g, "endless", (SeqV(ys.segs[1:]), e.tail))
            return ys.segs[0][1]
        segs = list(sv.segs)
        while segs:
            tag, x = segs[0]
            if tag == "i":
                self.set(g, "rest", SeqV(segs[1:]))
                return x
            if self.branch(z3.Length(x.t) == 0):
                segs = segs[1:]
                continue
            head = z3.simplify(x.t[0])
            tail = z3.simplify(z3.SubSeq(x.t, z3.IntVal(1), z3.Length(x.t) - 1))
            self.set(g, "rest", SeqV([("s", Sym(x.kind, tail)), *segs[1:]]))
            return self.value_of(x.kind.elem, head)
        self.set(g, "rest", SeqV())
        if default is not _MISSING:
            return default
        self.raise_(StopIteration)

    def iter_(self, v):
        v = self.resolve(v)
        if isinstance(v, (PGen, PIter)) or isinstance(v, Sym) and isinstance(v.kind, K.GenRef):
            return v
        sv = self.iter_seq(v)
        g = PGen(self, None, trace=sv)
        return g


class Tail:
    """What a never-ending generator does after its first yields: step() again and again, or draw from `it`."""

    def __init__(self, run, step, env, it=None):
        self.run, self.stepf, self.env, self.it = run, step, env, it
        self.out = None

    def step(self):
        """One round: (status, yields)"""
        run = self.run
        if self.it is not None:
            return "normal", SeqV.of([run.next_(self.it)])
        out = PList(run, SeqV())
        run.set(self.env, "%out", out)
        try:
            self.stepf()
        except Cont:
            pass
        except (Brk, Ret):
            return "stop", out.f["v"]
        except Endless:
            raise Unsupported("a never-ending generator inside a never-ending loop")
        except Raised as r:
            if issubclass(r.exc.cls, StopIteration):
                raise Raised(PExc(run, RuntimeError))
            raise
        return "normal", out.f["v"]


class _StarSeq:
    def __init__(self, sv):
        self.sv = sv


class _Super:
    def __init__(self, o):
        self.o = o


def _load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def _is_logging(f):
    if isinstance(f, types.MethodType) and isinstance(f.__self__, logging.Logger):
        return True
    import warnings

    return f is warnings.warn


def _method_key(f):
    s = getattr(f, "__self__", None)
    n = getattr(f, "__name__", None)
    if s is None or n is None:
        return None
    for c in type(s).__mro__:
        return (type(s).__name__, n)


@functools.lru_cache(None)
def _self_recursive(node, name):
    if isinstance(node, ast.Lambda):
        return False
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name for b in node.body for x in ast.walk(b))


@functools.lru_cache(None)
def _src_methods(cls):
    import sys

    from .engine import module_index

    try:
        idx = module_index(sys.modules[cls.__module__])
    except Exception:
        return frozenset()
    pre = cls.__qualname__ + "."
    return frozenset(q[len(pre) :] for q in idx if q.startswith(pre))
