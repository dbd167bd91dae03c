"""Dispatch over the kinds of command, results, and the cyclical sampler's stepping."""
from __future__ import annotations

import dataclasses
from itertools import cycle

from dynamicprompts.commands import LiteralCommand, SequenceCommand, VariantCommand, WildcardCommand, WrapCommand
from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.samplers.base import Sampler
from dynamicprompts.samplers.command_collection import CommandCollection
from dynamicprompts.samplers.cycle import CyclicalSampler
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.sampling_result import SamplingResult
from dynamicprompts.types import to_result_gen
from pyvc.contract import Const, Contract
from pyvc.kinds import ObjK
from pyvc.values import PGen, PIter, PList, SeqV, Sym, Unsupported

from dynamicprompts.samplers import cycle as CYCLE_MODULE
from dynamicprompts.utils import next_sampler_next_value

from .c_combinatorial import bounds_inv, combos, first_text, s_fallback, s_wildcard_to_variant
from .c_context import GenV
from .c_text import s_split_wrapper
from .model import *  # noqa

AnySampler = Opaque("AnySampler", Sampler)


def _handler(name):
    def h(run, a, k):
        c = a[1] if len(a) > 1 else k["command"]
        x = a[2] if len(a) > 2 else k["context"]
        return Sym(GenV, uf("DISPATCH" + name, AnySampler.sort(), Cmd.sort(), Ctx.sort(), GenV.sort())(run.lift(a[0], AnySampler), run.lift(c, Cmd), run.lift(x, Ctx)))

    return h


AnySampler.methods = {n: _handler(n) for n in ("_get_literal", "_get_sequence", "_get_variant", "_get_wildcard", "_get_variable", "_get_wrap")}

# each kind of command and the one method that samples it
TABLE = [
    (WrapCommand, "_get_wrap"), (VariableAccessCommand, "_get_variable"), (WildcardCommand, "_get_wildcard"),
    (VariantCommand, "_get_variant"), (SequenceCommand, "_get_sequence"), (LiteralCommand, "_get_literal"),
]


def s_dispatch(self, command, context):
    if isinstance(command, WrapCommand):
        return self._get_wrap(command, context)
    if isinstance(command, VariableAccessCommand):
        return self._get_variable(command, context)
    if isinstance(command, WildcardCommand):
        return self._get_wildcard(command, context)
    if isinstance(command, VariantCommand):
        return self._get_variant(command, context)
    if isinstance(command, SequenceCommand):
        return self._get_sequence(command, context)
    if isinstance(command, LiteralCommand):
        return self._get_literal(command, context)
    raise NotImplementedError


def x_wrapper(self, inner):
    return self.as_wrapper()(inner)


def s_wrapper(self, inner):
    left, right = s_split_wrapper(self.text)
    return SamplingResult(text=left + inner.text + right)


def s_whitespace(self):
    return SamplingResult(text=" ".join(self.text.split()))


def s_replaced(self, new_text):
    return SamplingResult(text=new_text)


def s_str(self):
    return self.text


# ------------------------------------------------------------------------------------------------ cyclical stepping
CYC = RawK("CyclePositions", lambda: z3.ArraySort(z3.IntSort(), z3.IntSort()))


def cyc_world(run):
    world(run)
    run.world.f["cyc"] = Sym(CYC, z3.Const("world_cyc", CYC.sort()))
    run.world.f["ncyc"] = Sym(Int, z3.Int("world_ncyc"))


def _cycle(run, a, k):
    """itertools.cycle(xs): never-ending; keeps its position in the ghost world."""
    if run.endless(a[0]):
        raise Unsupported("cycle of a never-ending iterator")
    xs = PList(run, run.iter_seq(a[0]))
    n = run.lift(run.call(len, [xs], {}), Int)
    if run.branch(n == 0):
        return PGen(run, trace=SeqV())
    me = run.lift(run.world.f["ncyc"], Int)
    run.w.assumed.add("itertools.cycle(xs): element number (i mod len(xs)) at its i-th step")
    run.set(run.world, "cyc", Sym(CYC, z3.Store(run.lift(run.world.f["cyc"], CYC), me, z3.IntVal(0))))
    run.set(run.world, "ncyc", Sym(Int, z3.simplify(me + 1)))

    def nextf(run):
        heap = run.lift(run.world.f["cyc"], CYC)
        i = z3.Select(heap, me)
        run.set(run.world, "cyc", Sym(CYC, z3.Store(heap, me, i + 1)))
        return run.getitem(xs, Sym(Int, i % n))

    return PIter(run, nextf, "cycle")


def prep_cycle(w):
    w.lib[id(cycle)] = _cycle


def s_next_value(samplers):
    """Value number i is the next value of sampler number (i mod count)."""
    for s in cycle(samplers):
        yield next(s)


def s_results(values):
    for v in values:
        if isinstance(v, SamplingResult):
            yield v
        else:
            yield SamplingResult(text=v)


def s_strings(values):
    for v in values:
        if isinstance(v, SamplingResult):
            yield v.text
        else:
            yield v


ResOrStr = Union("ResultOrText", SR, Str)


def prep_results(w):
    w.unions.append(ResOrStr)


def results_call(run, b):
    v = run.resolve(b["values"])
    if isinstance(v, Sym) and isinstance(v.kind, K.GenRef):
        run.w.assumed.add("to_result_gen of a never-ending generator of results: the same values, one by one (its contract covers finite inputs)")
        return v
    return run.call(s_results, [v], {})


def s_cyclic_wildcard(self, command, context):
    """One never-ending stream per value (a value of weight w counts int(w) times), stepped through in turn."""
    values = context.wildcard_manager.get_values(first_text(context, command.wildcard))
    inner = dataclasses.replace(context, variables={**context.variables, **command.variables}, default_sampling_method=SamplingMethod.CYCLICAL)
    if len(values) == 0:
        yield from s_fallback(command, inner)
        return
    streams = [inner.sample_prompts(v) for v in values.iterate_string_values_weighted()]
    for s in cycle(streams):
        yield next(s)


def cyc_prompts(run, b):
    """sample_prompts of a wildcard value in cyclical surroundings: a never-ending stream (the value is not empty)."""
    n = b.get("num_prompts")
    if n is None:
        run.w.assumed.add("cyclical wildcards: no value of the wildcard is the empty text")
        ct, p = run.lift(b["self"], Ctx), run.lift(b["prompt"], Str)
        return new_gen(run, ct, uf("PARSE", z3.StringSort(), Cfg.sort(), Cmd.sort())(p, Ctx.get(ct, "parser_config")), Ctx.get(ct, "ignore_whitespace"))
    return prompts_of(run, b)


def prep_cyclic_wildcard(w):
    prep_cycle(w)
    with_call(w, SamplingContext.sample_prompts, cyc_prompts)


def r_cyclic_variant(command, sampling_context):
    return bounds_inv(command) and sampling_context.default_sampling_method is not SamplingMethod.COMBINATORIAL


def r_cyclic(context):
    return context.default_sampling_method is not SamplingMethod.COMBINATORIAL


# A stream of samples is seen as the sequence of what it gives; stepping through several streams in turn is a function
# of those sequences (what their stepping does to shared sources is dropped here, see `next_sampler_next_value` itself).
Streams = Seq(Seq(SR))


class _Turns:
    def __init__(self, sv):
        self.sv = sv


def prep_cyclic_variant(w):
    CY = CYCLE_MODULE
    if not hasattr(CY, "_get_combination_samples"):
        raise Unsupported("no _get_combination_samples")
    with_call(w, SamplingResult.joined.__func__, fun_call("JOINED", dict(results=Seq(SR), separator=Str), SR))

    def samples(run, a, k):
        run.w.assumed.add("_get_combination_samples(options, context): a stream of one list of results per step, determined by the options and the context (bounded search only)")
        ts = [run.lift(a[0], Seq(Cmd)), run.lift(a[1], Ctx)]
        return PGen(run, trace=SeqV.sym(Sym(Seq(Seq(SR)), uf("SAMPLES", *[t.sort() for t in ts], Seq(Seq(SR)).sort())(*ts))))

    def rows(run, x):
        if isinstance(x, _Turns):
            return x.sv
        return run.iter_seq(x)

    def turns(run, a, k):
        return _Turns(rows(run, run.resolve(a[0])))

    def in_turn(run, a, k):
        run.w.assumed.add("next_sampler_next_value(cycle(streams)) is next_sampler_next_value(streams): value number i is the next value of stream number (i mod count) (own contract)")
        sv = rows(run, run.resolve(a[0]))
        t = run.seq_term(sv, Seq(SR))
        return PGen(run, trace=SeqV.sym(Sym(Seq(SR), uf("IN_TURN", Streams.sort(), Seq(SR).sort())(t))))

    w.lib[id(CY._get_combination_samples)] = samples
    w.lib[id(next_sampler_next_value)] = in_turn
    w.lib[id(cycle)] = turns
    w.keep += [CY._get_combination_samples, next_sampler_next_value]


def s_cyclic_variant(self, command, sampling_context):
    options = [o.value for o in command.variants]
    if len(options) == 0:
        return
    if len(options) == 1 and isinstance(options[0], WildcardCommand):
        w = options[0]
        v = s_wildcard_to_variant(w, sampling_context, command.min_bound, command.max_bound, command.separator)
        yield from self._get_variant(v, dataclasses.replace(sampling_context, variables={**sampling_context.variables, **w.variables}))
        return
    streams = [
        [SamplingResult.joined(parts, separator=command.separator) for parts in CYCLE_MODULE._get_combination_samples(combo, sampling_context)]
        for k in range(min(command.min_bound, len(options)), min(command.max_bound, len(options)) + 1) for combo in combos(k, options)
    ]
    yield from next_sampler_next_value(streams)


# ------------------------------------------------------------------------------------------------ parts filled in
COLLECTION = ObjK(CommandCollection, _commands=Seq(Cmd), _generators=Seq(K.GenRefK), _values=Seq(Opt(SR)))


def r_get_value(self):
    return conj(len(self._commands) == len(self._generators), len(self._commands) == len(self._values))


def s_get_value(self, command):
    if command not in self._commands:
        raise ValueError
    i = self._commands.index(command)
    v = self._values[i]
    self._values[i] = next(self._generators[i])
    return v


P = "dynamicprompts."
CONTRACTS = [
    Contract(P + "samplers.cycle:CyclicalSampler._get_variant", dict(self=Opaque("CyclicalSampler", CyclicalSampler), command=cmd(VariantCommand), sampling_context=Ctx), requires=r_cyclic_variant, spec=s_cyclic_variant,
             props=["C06", "C13"], world=world, prepare=prep_cyclic_variant, call=fun_call("CYCLIC_VARIANT", dict(command=Cmd, sampling_context=Ctx), Seq(SR, "gen")), n_fuzz=0),
    Contract(P + "samplers.base:Sampler.generator_from_command", dict(self=AnySampler, command=Cmd, context=Ctx), spec=s_dispatch, props=["C08"], at_call=False),
    Contract(P + "sampling_result:SamplingResult.as_wrapper", dict(self=SR, inner=SR), spec=s_wrapper, real=x_wrapper, props=["C14"], at_call=False),
    Contract(P + "sampling_result:SamplingResult.whitespace_squashed", dict(self=SR), spec=s_whitespace, props=["C15"], at_call=False),
    Contract(P + "sampling_result:SamplingResult.text_replaced", dict(self=SR, new_text=Str), spec=s_replaced, props=["C14"], at_call=False),
    Contract(P + "sampling_result:SamplingResult.__str__", dict(self=SR), spec=s_str, props=["C02", "C03"], at_call=False),
    Contract(P + "utils:next_sampler_next_value", dict(samplers=Seq(K.GenRefK)), spec=s_next_value, props=["C06"], world=cyc_world, prepare=prep_cycle, at_call=False),
    Contract(P + "types:to_string_gen", dict(values=Seq(ResOrStr)), spec=s_strings, props=["C06"], prepare=prep_results, at_call=False),
    Contract(P + "types:to_result_gen", dict(values=Seq(ResOrStr)), spec=s_results, props=["C06"], prepare=prep_results, call=results_call),
    Contract(P + "samplers.cycle:CyclicalSampler._get_wildcard", dict(self=Opaque("CyclicalSampler", CyclicalSampler), command=cmd(WildcardCommand), context=Ctx), requires=r_cyclic, spec=s_cyclic_wildcard,
             props=["C06", "C13", "C10"], world=cyc_world, prepare=prep_cyclic_wildcard, at_call=False),
    Contract(P + "samplers.command_collection:CommandCollection.get_value", dict(self=COLLECTION, command=Cmd), requires=r_get_value, spec=s_get_value, internal=True, props=["C08"], world=world, frame=("self",), at_call=False),
]
