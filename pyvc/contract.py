"""Contracts on real functions and their verification."""
from __future__ import annotations

import ast
import copy
import importlib
import inspect
import itertools
import random
import re
import sys
import time
import traceback

import z3

from . import kinds as K
from .engine import Endless, Infeasible, Raised, Ret, World, fn_node, uf
from .interp import Interp, RecSpec, Tail
from .prover import UN, REC, fold_seq, Prover, Registry, free_consts, subst, subterms
from .values import (
    Bot, Bound, Builtin, Env, Obj, PDict, PExc, PFun, PGen, PList, PObj, PRange, PSet, PIter, SeqV, Sym, Unsupported,
)


def resolve_target(path):
    mod, _, qual = path.partition(":")
    m = importlib.import_module(mod)
    o = m
    cls = None
    for part in qual.split("."):
        if inspect.isclass(o):
            cls = o
            o = inspect.getattr_static(o, part)
        else:
            o = getattr(o, part)
    if isinstance(o, (classmethod, staticmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    if hasattr(o, "func") and type(o).__name__ == "cached_property":
        o = o.func
    return inspect.unwrap(o), cls


class Contract:
    """`spec(**params)`: the value (or exception class) the function must produce, as an executable spec function;
    `ensures`: {name: fn(result, **params)} further postconditions; `requires(**params)`."""

    def __init__(self, target, params, *, props, spec=None, requires=None, ensures=None, result=None, frame=(),
                 fuzz=None, call=None, at_call=True, internal=False, note="", stream=False, setup=None, compare=None, real=None,
                 n_fuzz=300, final=None, timeout=None, world=None, budget=60, rec_closure=None, prepare=None, lemma=False, bounded=False, ghost=None, loose=(), invariants=(), concrete_spec=None):
        self.invariants, self.concrete_spec = invariants, concrete_spec
        self.loose = loose  # arguments whose state afterwards is left open
        self.ghost = ghost or {}  # universally quantified: seen by requires, ensures and spec, not passed to the function
        self.lemma, self.bounded = lemma, bounded
        self.prepare = prepare
        self.world, self.budget, self.rec_closure = world, budget, rec_closure
        self.target, self.params, self.props = target, params, props
        self.spec, self.requires, self.ensures, self.result = spec, requires, ensures or {}, result
        self.frame, self.fuzz, self.call_fn = frame, fuzz, call
        self.usable_at_call = at_call
        self.internal, self.note, self.stream, self.setup = internal, note, stream, setup
        self.compare, self.real = compare, real
        self.n_fuzz = n_fuzz
        self.final = final or {}
        self.timeout = timeout
        self.name = target.split(":")[1]
        self.fn = self.cls = None
        self.missing = None
        try:
            self.fn, self.cls = resolve_target(target)
        except Exception as e:
            self.missing = f"{type(e).__name__}: {e}"

    def bind(self, run, args, kwargs):
        node = fn_node(self.fn)
        env = Env(run, None, self.fn.__globals__)
        run.bind_params(node.args, args, kwargs, list(self.fn.__defaults__ or ()), dict(self.fn.__kwdefaults__ or {}), env)
        return {n: env.f[n] for n in env.f}

    def call(self, run, args, kwargs):
        """Use of the contract at a call site."""
        b = self.bind(run, args, kwargs)
        if self.requires is not None and not self.ghost:  # with ghost variables: a module invariant, kept by each function of the module
            v = run.call(self.requires, [], {k: b[k] for k in inspect.signature(self.requires).parameters})
            run.oblige(f"requires of {self.name}", run.lift(v, K.Bool))
        if self.call_fn is not None:
            return self.call_fn(run, b)
        if self.spec is not None:
            names = inspect.signature(self.spec).parameters
            r = run.call(self.spec, [], {k: b[k] for k in names})
            if isinstance(r, PExc):
                raise Raised(r)
            return r
        if self.result is not None and self.ensures:
            r = run.fresh(self.result, "res_" + self.name)
            for f in self.ensures.values():
                names = [n for n in inspect.signature(f).parameters if n != "result"]
                v = run.call(f, [], {"result": r, **{k: b[k] for k in names}})
                run.assume(run.lift(v, K.Bool))
            return r
        return NotImplemented


def raises(cls):
    """In a spec: the function raises this."""
    raise cls


# ------------------------------------------------------------------------------------------------ parameters
def make_param(run, kind, name):
    if isinstance(kind, K.ObjK):
        o = PObj(run, kind.cls)
        o.partial = set(kind.attrs)  # other attributes exist, but nothing is known of them
        for a, k in kind.attrs.items():
            o.f[a] = make_param(run, k, f"{name}.{a}")
        return o
    if isinstance(kind, Const):
        return kind.v
    if callable(kind) and not isinstance(kind, K.Kind):
        return kind(run, name)
    t = z3.Const(name, kind.sort())
    if isinstance(kind, K.Seq) and kind.py == "list":
        return PList(run, SeqV.sym(Sym(kind, t)))
    if isinstance(kind, K.Seq) and kind.py == "gen":
        return PGen(run, trace=SeqV.sym(Sym(kind, t)))
    if isinstance(kind, K.Map):
        return PDict(run, Sym(kind, t))
    if isinstance(kind, K.SetK):
        return PSet(run, Sym(kind, t))
    return run.value_of(kind, t)


class Const:
    def __init__(self, v):
        self.v = v


class Made:
    """A parameter built by hand: make(run, name) symbolically, concrete(Gen) for execution."""

    def __init__(self, make, concrete):
        self.make, self.concrete = make, concrete

    def __call__(self, run, name):
        return self.make(run, name)


def clone(run, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Obj):
        if v.oid in memo:
            return memo[v.oid]
        if isinstance(v, (PFun, Env)):
            return v
        n = copy.copy(v)
        n.oid = run.new_oid()
        memo[v.oid] = n
        n.f = {k: clone(run, x, memo) for k, x in v.f.items()}
        return n
    if isinstance(v, tuple):
        return tuple(clone(run, x, memo) for x in v)
    return v


def value_eq(run, a, b):
    return run.eq(a, b)


# ------------------------------------------------------------------------------------------------ verification
class Outcome:
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


def settle(run, r):
    """Evaluate a returned generator: finite (trace) or never-ending (first yields + tail)."""
    if isinstance(r, PGen):
        try:
            return Outcome("return", PGen(run, trace=run.iter_seq(r)))
        except Endless as e:
            return Outcome("stream", (e.prefix, e.tail))
    if run.endless(r):
        return Outcome("stream", (SeqV(), Tail(run, None, None, r)))
    return Outcome("return", r)


def run_real(run, f, args):
    """Execute the function body on the parameters: return / raise."""
    try:
        r = run.inline(f, [], args) if not hasattr(f, "call_real") else f.call_real(run, args)
        return settle(run, r)
    except Raised as e:
        return Outcome("raise", e.exc)


def run_spec(run, f, args):
    try:
        names = inspect.signature(f).parameters
        r = run.call(f, [], {k: args[k] for k in names})
        if isinstance(r, PExc):
            return Outcome("raise", r)
        return settle(run, r)
    except Raised as e:
        return Outcome("raise", e.exc)


# ------------------------------------------------------------------------------------------------ never-ending generators
def world_snap(run):
    return dict(run.world.f)


def world_put(run, snap):
    for k in list(run.world.f):
        if k not in snap:
            run.unset(run.world, k)
    for k, v in snap.items():
        run.set(run.world, k, v)


def world_eq(run, a, b):
    return run.conj([run.eq(a[k], b[k]) for k in a])


def bterm(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def step_outcome(tail):
    try:
        st, ys = tail.step()
        return st, ys, None
    except Raised as e:
        return "raise", None, e.exc


def compare_streams(run, got, want, w_code, w_spec, obls):
    """Relational proof that two never-ending generators yield the same values whatever the random source and the
    sub-generators do: equal first yields, equal first rounds, and equal rounds from any equal world, where a round
    of either changes nothing but the world (the invariant of the loop)."""
    (p1, t1), (p2, t2) = got, want
    obls.append(("first_yields", run.hyps(), bterm(run.eq(p1, p2))))
    obls.append(("world_before_loop", run.hyps(), bterm(world_eq(run, w_code, w_spec))))

    def rounds(label, start1, start2):
        world_put(run, start1)
        o1 = step_outcome(t1)
        e1 = world_snap(run)
        world_put(run, start2)
        o2 = step_outcome(t2)
        e2 = world_snap(run)
        if o1[0] != o2[0]:
            obls.append((f"{label}_outcome", run.hyps(), z3.BoolVal(False)))
            return None
        if o1[0] == "raise":
            ok = o1[2].cls is o2[2].cls
            obls.append((f"{label}_raises", run.hyps(), z3.BoolVal(ok)))
            return None
        obls.append((f"{label}_yields", run.hyps(), bterm(run.eq(o1[1], o2[1]))))
        obls.append((f"{label}_world", run.hyps(), bterm(world_eq(run, e1, e2))))
        return o1[0], e1, e2

    envs = [t.env for t in (t1, t2) if t.env is not None]
    before = [set(e.f) for e in envs]
    r = rounds("round0", w_code, w_spec)
    if r is None or r[0] == "stop":
        return
    # generic round: any world; names first bound by a round are unbound again (a later round using last round's
    # value would be noticed), the others must keep their value (loop_invariant below)
    hav = {}
    for k, v in world_snap(run).items():
        kind = run.kind_of(v)
        run.nfresh += 1
        hav[k] = Sym(kind, z3.Const(f"world_{k}!{run.nfresh}", kind.sort()))
    for e, names in zip(envs, before):
        for k in list(e.f):
            if k not in names and not k.startswith("%"):
                run.unset(e, k)
    mark = len(run.log)
    base = run.next_oid
    r = rounds("round", hav, hav)
    touched = {}
    for o, k, old in run.log[mark:]:
        touched.setdefault((o.oid, k), (o, k, old))
    for (oid, k), (o, kk, old) in touched.items():
        if o is run.world or isinstance(k, str) and k.startswith("%") or oid > base:
            continue
        from .engine import _MISSING

        new = o.f.get(kk, _MISSING)
        if isinstance(o, Env) and old is _MISSING:
            continue
        if old is _MISSING or new is _MISSING:
            raise Unsupported("loop-carried state of a never-ending generator")
        if new is not old:
            obls.append(("loop_invariant", run.hyps(), bterm(run.eq(old, new))))


def prove_parts(prover, hyps, goal, timeout):
    """Prove a conjunction one conjunct after the other, without reasoning about whole lists where that is enough."""
    hyps, todo = list(hyps), [z3.simplify(goal)]
    while todo:
        g = todo.pop(0)
        if z3.is_and(g):
            todo = g.children() + todo
            continue
        st, d = prover.prove(hyps, g, depth=0, timeout=timeout)
        if st != "proved":
            st, d = prover.prove(hyps, g, timeout=timeout)
        if st != "proved":
            return st, d
        hyps.append(g)
    return "proved", None


def verify(world, c, max_paths=300, deadline=None):
    """[(obligation name, status, detail)]"""
    obls = []
    world.prover.deadline = deadline
    if c.prepare is not None:
        c.prepare(world)
    work = [[]]
    npaths = 0
    returned = False
    if c.bounded:
        return [(c.name, "bounded", "no proof attempted: concrete cases only")], None
    if c.missing:
        return [(c.name, "unsupported", f"target not found: {c.missing}")], None
    try:
        while work:
            npaths += 1
            if npaths > max_paths or deadline and time.time() > deadline:
                raise Unsupported("too many paths" if npaths > max_paths else "out of time")
            run = Interp(world, work.pop())
            run.contract = c
            try:
                path_obls, ret = one_path(run, c)
                obls += path_obls
                returned = returned or ret
            except Infeasible:
                obls += [o for o in run.obls if o[0].startswith("loop_")]  # an invariant may be what rules the path out
            finally:
                work += run.pending
    except Unsupported as e:
        return [(c.name, "unsupported", str(e)[:300])], None
    except z3.Z3Exception as e:
        return [(c.name, "unsupported", "z3: " + str(e)[:200])], None
    except RecursionError:
        return [(c.name, "unsupported", "recursion")], None
    # discharge
    out = {}
    model = None
    n_refute = 0
    if not obls:
        return [(c.name, "unsupported", "no obligations generated")], None
    for name, hyps, goal in obls:
        st, d = prove_parts(world.prover, hyps, goal, c.timeout) if name.startswith("loop_") else world.prover.prove(hyps, goal, timeout=c.timeout)
        if model is None and st == "failed":
            model = d
        cur = out.get(name)
        if st == "proved":
            if cur is None:
                out[name] = ("proved", 1, None)
            elif cur[0] == "proved":
                out[name] = ("proved", cur[1] + 1, None)
        else:
            believable = not name.startswith(("requires of", "nested", "world", "loop_")) and not name.endswith("_world")
            if not c.internal and believable and (cur is None or cur[0] != "refuted"):
                new = getattr(c, "only_code", set()) - getattr(c, "spec_syms", set())
                cex = None
                if not new and n_refute < 6:
                    n_refute += 1
                    try:
                        cex = world.prover.refute(hyps, goal, deadline=min(deadline or time.time() + 20, time.time() + 20))
                    except (z3.Z3Exception, Unsupported, RecursionError) as e:
                        cex = None
                if cex is not None:
                    st = "refuted"
                    d = cex
                elif st == "failed":
                    st = "unknown"
            elif st == "failed":
                st = "unknown"
            detail = f"{st}: {str(d)[:1200] if st == 'refuted' else ''} under {[str(h)[:160] for h in hyps][-6:]} goal {str(goal)[:400]}"
            if cur is None or cur[0] == "proved" or st == "refuted":
                out[name] = (st, 1, detail)
    if any(n.startswith("loop_") and o[0] != "proved" for n, o in out.items()):  # without its invariants nothing is refuted
        out = {n: ("unknown", *o[1:]) if o[0] == "refuted" else o for n, o in out.items()}
    # vacuity: some path with satisfiable hypotheses must exist
    feas = any(world.prover.check(h, timeout=2000)[0] == z3.sat for _, h, _ in obls[:6])
    res = [(f"{c.name}.{n}", st, f"{k} paths" if st == "proved" else d) for n, (st, k, d) in out.items()]
    if not feas and not any(world.prover.check(h, timeout=2000)[0] != z3.unsat for _, h, _ in obls):
        res.append((f"{c.name}.vacuity", "unsupported", "no satisfiable path"))
    return res, model


def one_path(run, c):
    if c.world is not None:
        c.world(run)
    args = {n: make_param(run, k, n) for n, k in c.params.items()}
    ghost = {n: make_param(run, k, n) for n, k in c.ghost.items()}
    if c.setup:
        c.setup(run, args)
    if c.requires is not None:
        names = inspect.signature(c.requires).parameters
        allv = {**args, **ghost}
        if not run.truth(run.call(c.requires, [], {k: allv[k] for k in names})):
            raise Infeasible()
    memo = {}
    old = {n: clone(run, v, memo) for n, v in {**args, **ghost}.items()}
    memo2 = {}
    pristine = {n: clone(run, v, memo2) for n, v in {**args, **ghost}.items()}
    w0 = world_snap(run)
    from . import engine as E

    E.USED.clear()
    run.loop_inv, run.frames, run.inv_ghost = c.invariants, [], dict(ghost)
    got = run_real(run, c.real or c.fn, args)
    run.loop_inv = ()
    w1 = world_snap(run)
    obls = list(run.obls)
    run.obls = [o for o in obls if o[0].startswith("loop_")]
    if c.spec is not None:
        run.contract = None
        world_put(run, w0)
        used = {n for n in E.USED if not re.search(r"\.(\d+|raises|world)$", n) and not n.startswith("tag_")}
        E.USED.clear()
        want = run_spec(run, c.spec, old)
        w2 = world_snap(run)
        c.only_code = getattr(c, "only_code", set()) | used
        c.spec_syms = getattr(c, "spec_syms", set()) | set(E.USED)
        if got.kind == "stream" and want.kind == "stream":
            compare_streams(run, got.v, want.v, w1, w2, obls)
            return obls + [o for o in run.obls if not o[0].startswith("loop_")], False
        if got.kind == "return" and want.kind == "return" and w1:
            obls.append(("world", run.hyps(), bterm(world_eq(run, w1, w2))))
        if got.kind != want.kind:
            obls.append(("outcome", run.hyps(), z3.BoolVal(False)))
            return obls, False
        if got.kind == "raise":
            ok = got.v.cls is want.v.cls or issubclass(got.v.cls, want.v.cls)
            obls.append(("raises", run.hyps(), z3.BoolVal(ok)))
        else:
            e = (c.compare or value_eq)(run, got.v, want.v)
            obls.append(("result", run.hyps(), z3.BoolVal(e) if isinstance(e, bool) else e))
    if got.kind == "return" or c.ensures and c.spec is None:
        for n, f in c.ensures.items():
            if got.kind == "raise":
                obls.append((n, run.hyps(), z3.BoolVal(False)))
                continue
            names = [x for x in inspect.signature(f).parameters if x != "result"]
            src = {**pristine}
            kw = {}
            for x in names:
                if x.startswith("new_"):
                    kw[x] = args[x[4:]]
                else:
                    kw[x] = src[x]
            v = run.call(f, [], {"result": got.v, **kw})
            obls.append((n, run.hyps(), run.lift(v, K.Bool)))
    # frame: arguments not listed in `frame` (mutable by the function) are unchanged; the others agree with the spec
    for n in args:
        if n == "self" and got.kind == "raise" and c.target.endswith(".__init__"):
            continue  # nobody gets to see an object whose constructor failed
        if isinstance(args[n], Obj) and not isinstance(args[n], (PGen, PFun)) and n not in c.loose:
            ref = old[n] if n in c.frame and c.spec is not None else pristine[n]
            if n in c.frame and c.spec is None:
                continue
            e = deep_eq(run, args[n], ref)
            if e is not True:
                obls.append((f"frame[{n}]", run.hyps(), z3.BoolVal(e) if isinstance(e, bool) else e))
            else:
                obls.append((f"frame[{n}]", run.hyps(), z3.BoolVal(True)))
    obls += [o for o in run.obls if not o[0].startswith("loop_")]
    return obls, got.kind == "return"


def deep_eq(run, a, b, seen=None):
    seen = set() if seen is None else seen
    if isinstance(a, Obj) and isinstance(b, Obj):
        if (a.oid, b.oid) in seen or a is b:
            return True
        seen.add((a.oid, b.oid))
        if isinstance(a, PObj):
            cs = []
            for k in set(a.f) | set(b.f):
                if getattr(a, "partial", None) is not None and k not in a.partial:
                    continue
                if k not in a.f or k not in b.f:
                    return False
                cs.append(deep_eq(run, a.f[k], b.f[k], seen))
            return run.conj(cs)
        if isinstance(a, (PGen, PFun, PIter)):
            return True
        if isinstance(a, PDict):
            va, vb = a.f["v"], b.f["v"]
            if isinstance(va, dict) and isinstance(vb, dict):
                if list(va) != list(vb):
                    return False
                return run.conj([deep_eq(run, va[k], vb[k], seen) for k in va])
        return run.eq(a, b)
    return run.eq(a, b)


# ------------------------------------------------------------------------------------------------ recursive specs
def register_rec(world, r: RecSpec):
    """Compute the one-step unfolding of a spec function as a term over formal constants."""
    if r.decl().name() in world.reg.recs:
        return
    world.reg.recs[r.decl().name()] = None
    formals = [z3.Const(f"rf_{r.name}_{i}", k.sort()) for i, k in enumerate(r.params)]
    cases = []
    work = [[]]
    n = 0
    err = None
    while work:
        n += 1
        if n > 60:
            err = "too many paths"
            break
        run = Interp(world, work.pop())
        run.nosplit = True
        try:
            names = list(inspect.signature(r.fn).parameters)
            args = {}
            for nm, k, t in zip(names, r.params, formals):
                v = run.value_of(k, t)
                if isinstance(k, K.Seq) and k.py == "list":
                    v = PList(run, SeqV.sym(Sym(k, t)))
                args[nm] = v
            v = run.inline(r.fn, [], args)
            if isinstance(v, PGen):
                v = PList(run, run.iter_seq(v))
            cases.append((z3.And(*[cc for tg, cc in run.pc if tg == "b"]) if any(tg == "b" for tg, _ in run.pc) else z3.BoolVal(True), run.lift(v, r.ret)))
        except Infeasible:
            pass
        work += run.pending
    if err or not cases:
        raise Unsupported(f"spec function {r.name}: {err or 'no case'}")
    body = cases[-1][1]
    for cnd, v in reversed(cases[:-1]):
        body = z3.If(cnd, v, body)

    def unfold(actuals):
        return fold_seq(subst(body, list(zip(formals, actuals))))

    world.reg.recs[r.decl().name()] = REC(r.name, r.decl(), unfold)
