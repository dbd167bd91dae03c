"""Kinds of the repository's values and the world the contracts are verified in."""
from __future__ import annotations

import z3
from dynamicprompts.commands import (
    Command, LiteralCommand, SequenceCommand, VariantCommand, VariantOption, WildcardCommand, WrapCommand,
)
from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.sampling_result import SamplingResult
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.values import WildcardValues

from pyvc import kinds as K
from pyvc import lib
from pyvc.engine import World, uf
from pyvc.kinds import Bool, Int, Map, Opaque, Opt, Real, Rec, Seq, SetK, Str, Tup, Union

Method = K.Enum(SamplingMethod)
_reg = {"order": [], "fields": {}, "common": {}}
Cmd = K.Cmd("Command", Command, None, _reg)
Option = Rec("VariantOption", VariantOption, [("value", Cmd), ("weight", Real)])
CmdOrStr = Union("CmdOrStr", Cmd, Str)
SR = Rec("SamplingResult", SamplingResult, [("text", Str)])
Item = Rec("WildcardItem", WildcardItem, [("content", Str), ("weight", Real)])
Entry = Union("Entry", Str, Item)
Values = Rec("WildcardValues", WildcardValues, [("items", Seq(Entry, "tuple"))])
OptMethod = _M = Opt(Method)
_fields = {
    LiteralCommand: [("literal", Str), ("sampling_method", _M)],
    SequenceCommand: [("tokens", Seq(Cmd)), ("separator", Str), ("sampling_method", _M)],
    VariantCommand: [("variants", Seq(Option)), ("min_bound", Int), ("max_bound", Int), ("separator", Str), ("sampling_method", _M)],
    WildcardCommand: [("wildcard", CmdOrStr), ("sampling_method", _M), ("variables", Map(Str, Cmd))],
    WrapCommand: [("wrapper", Cmd), ("inner", Cmd), ("sampling_method", _M)],
    VariableAssignmentCommand: [("name", Str), ("value", Cmd), ("overwrite", Bool), ("immediate", Bool), ("sampling_method", _M)],
    VariableAccessCommand: [("name", Str), ("default", Opt(Cmd)), ("sampling_method", _M)],
    Command: [],  # any other command class
}
for _c, _f in _fields.items():
    _reg["order"].append(_c)
    _reg["fields"][_c] = _f
_reg["common"]["sampling_method"] = _M


def cmd(cls):
    return Cmd.narrowed(cls)


def new_world(timeout_ms=6000):
    w = World(timeout_ms)
    lib.install(w)
    for c in _fields:
        w.cls_kind[c] = Cmd
    w.cls_kind[VariantOption] = Option
    w.cls_kind[SamplingResult] = SR
    w.cls_kind[WildcardItem] = Item
    w.cls_kind[WildcardValues] = Values
    w.cls_kind[SamplingMethod] = Method
    w.unions += [Entry, CmdOrStr]
    for i, (c, fs) in enumerate(_fields.items()):
        if c is Command:
            continue

        def rule(t, i=i, c=c, fs=fs):
            out = [Cmd.tagf()(t) == i]
            for j, (n, k) in enumerate(fs):
                if n in _reg["common"]:
                    out.append(uf("Cmd." + n, Cmd.sort(), k.sort())(t) == t.arg(j))
                else:
                    out.append(Cmd.sel(c, n)[0](t) == t.arg(j))
            return out

        w.reg.rules.setdefault("mkc_" + c.__name__, []).append(rule)
    install_sampling(w)
    _bool_handlers(w)
    return w


# ------------------------------------------------------------------------------------------------ sampling contexts
import random as _random  # noqa: E402

from dynamicprompts.parser.config import ParserConfig  # noqa: E402
from dynamicprompts.samplers.base import Sampler  # noqa: E402
from dynamicprompts.sampling_context import SamplingContext  # noqa: E402
from dynamicprompts.wildcards.wildcard_manager import WildcardManager  # noqa: E402

from pyvc.interp import abstract  # noqa: E402
from pyvc.values import PGen, PList, SeqV, Sym, Unsupported  # noqa: E402
from pyvc.engine import Raised  # noqa: E402


class RawK(K.Kind):
    def __init__(self, key, mk):
        self.key, self._m = key, mk

    def _mk(self):
        return self._m()


SamplerK = Opaque("Sampler", Sampler)
WM = Opaque("WildcardManager", WildcardManager)
Cfg = Opaque("ParserConfig", ParserConfig)
Rand = Opaque("Random", _random.Random)
RState = Opaque("RandomState")
GState = Opaque("GeneratorState")
RNG = RawK("RngHeap", lambda: z3.ArraySort(Rand.sort(), RState.sort()))
GHEAP = RawK("GenHeap", lambda: z3.ArraySort(z3.IntSort(), GState.sort()))
Ctx = Rec("SamplingContext", SamplingContext, [
    ("default_sampling_method", Method), ("wildcard_manager", WM), ("samplers", Map(Method, SamplerK)), ("ignore_whitespace", Bool),
    ("parser_config", Cfg), ("rand", Rand), ("variables", Map(Str, Cmd)), ("unknown_variable_value", Opt(CmdOrStr)),
    ("_variables_being_sampled", SetK(Str)),
])


def _wm_get_values(run, a, k):
    name = run.lift(a[1] if len(a) > 1 else k["wildcard"], Str)
    wm = run.lift(a[0], WM)
    run.w.assumed.add("WildcardManager.get_values does not raise on names that are valid (own contracts: C09, C10, C11)")
    return Sym(Values, uf("WM.get_values", WM.sort(), z3.StringSort(), Values.sort())(wm, name))


WM.fields = {"_wildcard_wrap": Str}
WM.methods = {"get_values": _wm_get_values}


def world(run):
    """Ghost state: the state of every random source and of every never-ending sub-generator."""
    run.world.f["rng"] = Sym(RNG, z3.Const("world_rng", RNG.sort()))
    run.world.f["gens"] = Sym(GHEAP, z3.Const("world_gens", GHEAP.sort()))
    run.world.f["ngens"] = Sym(Int, z3.Int("world_ngens"))


def effective(ctx, command):
    """The sampling method `command` is sampled with in `ctx`."""
    m = command.sampling_method
    if m is None:
        return ctx.default_sampling_method
    if ctx.default_sampling_method is not SamplingMethod.COMBINATORIAL and m is SamplingMethod.COMBINATORIAL:
        return ctx.default_sampling_method
    return m


@abstract([Ctx, Cmd], Seq(SR), "OUT")
def outputs(ctx, command):
    """Everything combinatorial sampling of `command` yields in `ctx`, in order."""
    return list(ctx.generator_from_command(command))


def new_gen(run, *key):
    """Allocate a never-ending generator described by `key` (terms)."""
    ref = run.world.f["ngens"]
    init = uf("gen_init_" + "_".join(t.sort().name() for t in key), *[t.sort() for t in key], GState.sort())(*key)
    n = run.lift(ref, Int)
    run.set(run.world, "gens", Sym(GHEAP, z3.Store(run.lift(run.world.f["gens"], GHEAP), n, init)))
    run.set(run.world, "ngens", Sym(Int, z3.simplify(n + 1)))
    return Sym(K.GenRefK, n)


def gen_next(run, g):
    """One value from a never-ending generator: any function of its state and the random sources."""
    gens, rng = run.lift(run.world.f["gens"], GHEAP), run.lift(run.world.f["rng"], RNG)
    gs = z3.Select(gens, g.t)
    run.w.assumed.add("a never-ending sub-generator has a next value (its state and the random sources determine it)")
    v = uf("gen_value", GState.sort(), RNG.sort(), SR.sort())(gs, rng)
    run.set(run.world, "gens", Sym(GHEAP, z3.Store(gens, g.t, uf("gen_step", GState.sort(), RNG.sort(), GState.sort())(gs, rng))))
    run.set(run.world, "rng", Sym(RNG, uf("gen_rng", GState.sort(), RNG.sort(), RNG.sort())(gs, rng)))
    return Sym(SR, v)


def gen_of(run, ctx, command):
    """context.generator_from_command(command), by its contract: a finite generator yielding OUT(context, command) when
    the effective method is combinatorial, a never-ending generator otherwise."""
    ct, t = run.lift(ctx, Ctx), run.lift(command, Cmd)
    own = run.lift(run.getattr_raw(command, "sampling_method"), _M)
    comb = Method.const(SamplingMethod.COMBINATORIAL)
    if not run.branch(z3.And(Ctx.get(ct, "default_sampling_method") == comb, z3.Or(_M.is_none(own), _M.val(own) == comb))):
        return new_gen(run, ct, t)
    out = outputs.decl()(ct, t)
    return PGen(run, trace=SeqV.sym(Sym(Seq(SR), out)))


def prompts_of(run, b):
    """context.sample_prompts(prompt, n), by its contract: the first n values of a finite sequence determined by context
    and prompt, or of a never-ending generator (none for the empty text)."""
    p = b["prompt"]
    if isinstance(p, Sym) and isinstance(p.kind, Opt):
        p = run.resolve(p)
    ct, p = run.lift(b["self"], Ctx), run.lift(p, CmdOrStr)
    n = b.get("num_prompts")
    text = CmdOrStr.is_alt(1, p)
    if run.branch(z3.And(text, CmdOrStr.out(1, p) == "")):
        return PList(run, SeqV())
    cfg = Ctx.get(ct, "parser_config")
    c = z3.If(text, uf("PARSE", z3.StringSort(), Cfg.sort(), Cmd.sort())(CmdOrStr.out(1, p), cfg), CmdOrStr.out(0, p))
    c = z3.simplify(c)
    own = uf("Cmd.sampling_method", Cmd.sort(), _M.sort())(c)
    comb = Method.const(SamplingMethod.COMBINATORIAL)
    if run.branch(z3.And(Ctx.get(ct, "default_sampling_method") == comb, z3.Or(_M.is_none(own), _M.val(own) == comb))):
        out = uf("PROMPTS", Ctx.sort(), Cmd.sort(), Seq(SR).sort())(ct, c)
        g = PGen(run, trace=SeqV.sym(Sym(Seq(SR), out)))
    else:
        g = new_gen(run, ct, c, Ctx.get(ct, "ignore_whitespace"))
    if n is None or isinstance(n, Sym) and isinstance(n.kind, Opt) and run.branch(n.kind.is_none(n.t)):
        return g
    import itertools

    r = run.call(itertools.islice, [g, n], {})
    if isinstance(g, PGen):  # a known finite sequence
        run.force(r)
    return r


def _rng_state(run, rand):
    return z3.Select(run.lift(run.world.f["rng"], RNG), run.lift(rand, Rand))


def _rng_step(run, rand, st):
    r = run.lift(run.world.f["rng"], RNG)
    run.set(run.world, "rng", Sym(RNG, z3.Store(r, run.lift(rand, Rand), st)))


def _randint(run, a, k):
    rand, lo, hi = a[0], *[run.lift(x, Int) for x in (list(a[1:]) + [k[n] for n in ("a", "b") if n in k])]
    run.w.assumed.add("random.Random.randint(a, b): a value in a..b determined by the state; ValueError if b < a")
    if run.branch(hi < lo):
        run.raise_(ValueError)
    s = _rng_state(run, rand)
    v = uf("randint", RState.sort(), z3.IntSort(), z3.IntSort(), z3.IntSort())(s, lo, hi)
    _rng_step(run, rand, uf("randint_state", RState.sort(), z3.IntSort(), z3.IntSort(), RState.sort())(s, lo, hi))
    return Sym(Int, v)


def _population(run, p):
    """(length term, element at index)"""
    p = run.resolve(p)
    n = run.lift(run.call(len, [p], {}), Int)
    return n, lambda i: run.getitem(p, Sym(Int, i))


def _choice(run, a, k):
    rand, seq = a[0], (a[1] if len(a) > 1 else k["seq"])
    run.w.assumed.add("random.Random.choice(xs): an element of xs at a position determined by the state and len(xs); IndexError if empty")
    n, at = _population(run, seq)
    if run.branch(n == 0):
        run.raise_(IndexError)
    s = _rng_state(run, rand)
    i = uf("choice", RState.sort(), z3.IntSort(), z3.IntSort())(s, n)
    _rng_step(run, rand, uf("choice_state", RState.sort(), z3.IntSort(), RState.sort())(s, n))
    return at(i)


def _choices(run, a, k):
    rand, pop = a[0], (a[1] if len(a) > 1 else k["population"])
    kk = k.get("k", 1)
    if kk != 1:
        return _choices_k(run, rand, pop, kk, a, k)
    w, cum = (a[2] if len(a) > 2 else k.get("weights")), k.get("cum_weights")
    run.w.assumed.add("random.Random.choices(xs, weights/cum_weights, k=1): an element at a position determined by the state and the (cumulative) weights; IndexError if empty, ValueError if the lengths differ or the total is not positive; never a position of weight zero")
    n, at = _population(run, pop)
    s = _rng_state(run, rand)
    if w is None and cum is None:
        if run.branch(n == 0):
            run.raise_(IndexError)
        i = uf("choices_plain", RState.sort(), z3.IntSort(), z3.IntSort())(s, n)
    else:
        which, ws = ("weights", w) if w is not None else ("cum", cum)
        wt = run.lift(ws, Seq(Real))
        if run.branch(z3.Length(wt) != n):
            run.raise_(ValueError)
        if run.branch(n == 0):
            run.raise_(IndexError)
        total = uf("total_" + which, Seq(Real).sort(), z3.RealSort())(wt)
        if run.branch(total <= 0):
            run.raise_(ValueError)
        i = uf("choices_" + which, RState.sort(), Seq(Real).sort(), z3.IntSort())(s, wt)
    _rng_step(run, rand, uf("choices_state", RState.sort(), RState.sort())(s))
    return PList(run, SeqV.of([at(i)]))


def _choices_k(run, rand, pop, kk, a, k):
    if len(a) > 2 or k.get("weights") is not None or k.get("cum_weights") is not None:
        raise Unsupported("weighted choices with k != 1")
    run.w.assumed.add("random.Random.choices(xs, k=k): k elements of xs (none if k is negative); IndexError if xs is empty and k is positive")
    n, _at = _population(run, pop)
    kt = run.lift(kk, Int)
    if run.branch(z3.And(n == 0, kt > 0)):
        run.raise_(IndexError)
    s = _rng_state(run, rand)
    kind = Seq(run.elem_kind(run.as_seq(pop)))
    xs = run.lift(pop, kind)
    idx = uf("choices_many", RState.sort(), z3.IntSort(), z3.IntSort(), Seq(Int).sort())(s, n, kt)
    i = z3.Const("!ci", z3.IntSort())
    _rng_step(run, rand, uf("choices_many_state", RState.sort(), z3.IntSort(), RState.sort())(s, kt))
    return PList(run, SeqV.sym(Sym(kind, run.reg.mk_fm(idx, i, z3.Unit(xs[i])))))


def _shuffle(run, a, k):
    rand, xs = a[0], a[1]
    if not xs.f["v"].segs:
        return None
    kind = Seq(run.elem_kind(xs.f["v"]))
    t = run.lift(xs, kind)
    run.w.assumed.add("random.Random.shuffle(xs): a reordering of xs determined by the state")
    s = _rng_state(run, rand)
    out = uf("shuffle_" + kind.key, RState.sort(), kind.sort(), kind.sort())(s, t)
    run.assume(z3.Length(out) == z3.Length(t))
    run.set(xs, "v", SeqV.sym(Sym(kind, out)))
    _rng_step(run, rand, uf("shuffle_state", RState.sort(), z3.IntSort(), RState.sort())(s, z3.Length(t)))
    return None


def _seed(run, a, k):
    x = a[1] if len(a) > 1 else k.get("a")
    if x is None:
        raise Unsupported("seed from the system")
    kk = run.kind_of(x)
    run.w.assumed.add("random.Random.seed(x): the state is a function of x")
    _rng_step(run, a[0], uf("seed_" + kk.key, kk.sort(), RState.sort())(run.lift(x, kk)))
    return None


Rand.methods = dict(randint=_randint, choice=_choice, choices=_choices, shuffle=_shuffle, seed=_seed)


GLOBAL = z3.Const("process_wide_random", Rand.sort())  # the random module's own source


def is_perm(a, b):
    """`a` is a reordering of `b`."""
    from collections import Counter

    return Counter(a) == Counter(b)


def _perm(run, a, k):
    kind = Seq(Entry)
    x, y = run.lift(a[0], kind), run.lift(a[1], kind)
    if x.eq(y):
        return True
    return run.mkbool(z3.Or(x == y, uf("perm_" + kind.key, kind.sort(), kind.sort(), z3.BoolSort())(x, y)))


def _uniform(run, a, k):
    ts = [run.lift(x, Real) for x in a[1:]]
    run.w.assumed.add("random.Random.uniform(a, b): a number determined by the state")
    s = _rng_state(run, a[0])
    v = uf("uniform", RState.sort(), z3.RealSort(), z3.RealSort(), z3.RealSort())(s, *ts)
    _rng_step(run, a[0], uf("uniform_state", RState.sort(), RState.sort())(s))
    return Sym(Real, v)


Rand.methods["uniform"] = _uniform


def module_random(w):
    """random.shuffle and friends: the same on the process-wide source."""
    for n, h in Rand.methods.items():
        f = getattr(_random, n)

        def hh(run, a, k, h=h):
            return h(run, [Sym(Rand, GLOBAL), *a], k)

        w.lib[id(f)] = hh
        w.keep.append(f)
    w.lib[id(is_perm)] = _perm
    ks = Seq(Entry)
    w.reg.rules.setdefault("shuffle_" + ks.key, []).append(
        lambda t: [uf("perm_" + ks.key, ks.sort(), ks.sort(), z3.BoolSort())(t, t.arg(1)), z3.Length(t) == z3.Length(t.arg(1))],
    )


def picks(run, name, values, rand):
    """Never-ending iterator: each value is determined by `values` and the state of the random source at that moment."""
    vt = run.lift(values, Values)

    def nextf(run):
        s = _rng_state(run, rand)
        v = uf(name, Values.sort(), RState.sort(), z3.StringSort())(vt, s)
        _rng_step(run, rand, uf(name + "_state", Values.sort(), RState.sort(), RState.sort())(vt, s))
        return Sym(Str, v)

    from pyvc.values import PIter

    return PIter(run, nextf, name)


def rng_rules(w):
    R = w.reg.rules
    R["randint"] = [lambda t: [z3.Implies(t.arg(1) <= t.arg(2), z3.And(t.arg(1) <= t, t <= t.arg(2)))]]
    for n in ("choice", "choices_plain"):
        R[n] = [lambda t: [z3.Implies(0 < t.arg(1), z3.And(0 <= t, t < t.arg(1)))]]
    R["choices_many"] = [lambda t: [z3.Length(t) == z3.If(t.arg(2) < 0, 0, t.arg(2))]]
    inside = lambda t: z3.Implies(0 < z3.Length(t.arg(1)), z3.And(0 <= t, t < z3.Length(t.arg(1))))
    total = lambda t, n: uf("total_" + n, Seq(Real).sort(), z3.RealSort())(t.arg(1))
    R["choices_cum"] = [lambda t: [inside(t)]]
    R["choices_weights"] = [lambda t: [inside(t), z3.Implies(z3.And(0 < z3.Length(t.arg(1)), total(t, "weights") > 0), t.arg(1)[t] > 0)]]


def install_sampling(w):
    rng_rules(w)
    module_random(w)
    w.cls_kind[SamplingContext] = Ctx
    w.gen_next = gen_next

    def parse_h(run, a, k):
        s = a[0] if a else k["prompt"]
        cfg = a[1] if len(a) > 1 else k.get("parser_config")
        run.w.assumed.add("parse: a function of the text and the parser configuration (own contracts: C16)")
        from dynamicprompts.parser.config import default_parser_config

        t = run.lift(default_parser_config if cfg is None else cfg, Cfg)
        return Sym(Cmd, uf("PARSE", z3.StringSort(), Cfg.sort(), Cmd.sort())(run.lift(s, Str), t))

    from dynamicprompts.parser import parse as P

    def alnum(t):  # proved of parse() itself: c_parser
        return [z3.Implies(uf("str_isalnum", z3.StringSort(), z3.BoolSort())(t.arg(0)), t == Cmd.mk(LiteralCommand)(t.arg(0), _M.none()))]

    w.reg.rules.setdefault("PARSE", []).append(alnum)
    w.lib[id(P.parse)] = parse_h
    w.keep.append(P.parse)


# ------------------------------------------------------------------------------------------------ abstract calls
def fun_call(name, params, ret, raises=None, world=False, facts=None):
    """Use of a contract at a call site, abstractly: the result (and the new world, and whether it raises) is some
    function of the arguments (and the world).  The contract's own verification shows which."""

    def call(run, b):
        ts = [run.lift(b[p], k) for p, k in params.items()]
        cells = sorted(run.world.f) if world else []
        for c in cells:
            ts.append(run.lift(run.world.f[c], run.kind_of(run.world.f[c])))
        sorts = [t.sort() for t in ts]
        if raises is not None:
            if run.branch(uf(f"{name}.raises", *sorts, z3.BoolSort())(*ts)):
                from pyvc.values import PExc

                raise Raised(PExc(run, raises, ()))
        rets = ret if isinstance(ret, tuple) else (ret,)
        out = []
        for i, k in enumerate(rets):
            t = uf(f"{name}.{i}", *sorts, k.sort())(*ts)
            if isinstance(k, Seq) and k.py == "list":
                out.append(PList(run, SeqV.sym(Sym(k, t))))
            elif isinstance(k, Seq) and k.py == "gen":
                out.append(PGen(run, trace=SeqV.sym(Sym(k, t))))
            else:
                out.append(run.value_of(k, t))
        if facts is not None:
            for f in facts(*ts, *[run.lift(o, k) for o, k in zip(out, rets)]):
                run.assume(f)
        for c in cells:
            k = run.kind_of(run.world.f[c])
            run.set(run.world, c, Sym(k, uf(f"{name}.{c}", *sorts, k.sort())(*ts)))
        return tuple(out) if isinstance(ret, tuple) else out[0]

    return call


def with_call(w, fn, call):
    """In this world, use the contract of `fn` at call sites through `call` (an abstraction of its spec)."""
    import copy

    c = w.contracts.get(fn)
    if c is not None:
        c = copy.copy(c)
        c.call_fn = call
        w.contracts[fn] = c


# ------------------------------------------------------------------------------------------------ predicates that do not fork
def conj(*xs):
    return all(xs)


def disj(*xs):
    return any(xs)


def not_(x):
    return not x


def agrees(mapping, key, value):
    """`mapping` has nothing under `key`, or exactly `value`."""
    return key not in mapping or mapping[key] == value


def none_or(x, value):
    return x is None or x == value


def _bool_handlers(w):
    def h_conj(run, a, k):
        return run.mkbool(z3.And(*[run.lift(x, Bool) for x in a]))

    def h_disj(run, a, k):
        return run.mkbool(z3.Or(*[run.lift(x, Bool) for x in a]))

    def h_agrees(run, a, k):
        m = a[0].f["v"] if not isinstance(a[0], Sym) else a[0]
        if not isinstance(m, Sym):
            raise Unsupported("agrees on a concrete dict")
        kd = m.kind
        o = z3.Select(m.t, run.lift(a[1], kd.k))
        return run.mkbool(z3.Or(kd.opt.is_none(o), kd.opt.val(o) == run.lift(a[2], kd.v)))

    def h_none_or(run, a, k):
        x = a[0]
        if x is None:
            return True
        if isinstance(x, Sym) and isinstance(x.kind, Opt):
            return run.mkbool(z3.Or(x.kind.is_none(x.t), x.kind.val(x.t) == run.lift(a[1], x.kind.k)))
        return run.mkbool(run.eq(x, a[1]))

    def h_not(run, a, k):
        return run.mkbool(z3.Not(run.lift(a[0], Bool)))

    for f, h in ((not_, h_not), (conj, h_conj), (disj, h_disj), (agrees, h_agrees), (none_or, h_none_or)):
        w.lib[id(f)] = h
