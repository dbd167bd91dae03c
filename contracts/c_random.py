"""Random sampler: how many, which, in what order; one value at a time from the random source."""
from __future__ import annotations

import dataclasses

from dynamicprompts.commands import Command, LiteralCommand, SequenceCommand, VariantCommand, VariantOption, WildcardCommand, WrapCommand
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.samplers.base import Sampler
from dynamicprompts.samplers.random import RandomSampler
from dynamicprompts.sampling_result import SamplingResult
from dynamicprompts.utils import choose_without_replacement

from pyvc.contract import Const, Contract
from pyvc.values import PIter, Sym

from .c_combinatorial import s_fallback, s_wildcard_to_variant, first_text
from .c_text import s_joined, s_split_wrapper
from .model import *  # noqa

RandK = Opaque("RandomSampler", RandomSampler)


def s_choose(values, weights, num_choices, rand):
    """num_choices draws from what is left, each removing the position it drew."""
    if num_choices > len(values):
        raise ValueError
    if num_choices == 1 and len(values) == 1:
        return values
    left, left_w = list(values), list(weights)
    out = []
    for _ in range(num_choices):
        i = rand.choices(range(len(left)), weights=left_w, k=1)[0]
        out.append(left[i])
        left = left[:i] + left[i + 1:]
        left_w = left_w[:i] + left_w[i + 1:]
    return out


def r_choose(values, weights):
    return len(weights) == len(values) and len(values) > 0


def s_rotate_all(generators):
    return [next(g) for g in generators]


def s_rotate_and_join(generators, separator):
    return SamplingResult.joined([next(g) for g in generators], separator=separator)


def s_num_choices(self, command, context):
    return context.rand.randint(command.min_bound, command.max_bound)


def s_variant_choices(self, values, weights, num_choices, rand):
    return choose_without_replacement(values, weights=weights, num_choices=num_choices, rand=rand)


def s_variant(self, command, context):
    n = len(command.variants)
    if n == 0:
        return
    first = command.variants[0].value
    if n == 1 and isinstance(first, WildcardCommand):
        v = s_wildcard_to_variant(first, context, command.min_bound, command.max_bound, command.separator)
        yield from self._get_variant(v, dataclasses.replace(context, variables={**context.variables, **first.variables}))
        return
    if n == 1 and command.min_bound > 0:
        yield from context.generator_from_command(first)
        return
    lo, hi = min(command.min_bound, n), min(command.max_bound, n)
    values = [o.value for o in command.variants]
    weights = [o.weight for o in command.variants]
    while True:
        k = context.rand.randint(lo, hi)
        picked = choose_without_replacement(values, weights=weights, num_choices=k, rand=context.rand)
        gens = [context.generator_from_command(c) for c in picked]
        if len(gens) == 0:
            yield SamplingResult(text="")
        else:
            yield SamplingResult.joined([next(g) for g in gens], separator=command.separator)


def s_wildcard(self, command, context):
    values = context.wildcard_manager.get_values(first_text(context, command.wildcard))
    inner = dataclasses.replace(context, variables={**context.variables, **command.variables})
    if len(values) == 0:
        yield from s_fallback(command, inner)
        return
    picks_ = values.get_weighted_random_generator(inner.rand)
    while True:
        for r in inner.sample_prompts(next(picks_), 1):
            yield r


def s_wrap(self, command, context):
    wrappers = context.generator_from_command(command.wrapper)
    inners = context.generator_from_command(command.inner)
    while True:
        left, right = s_split_wrapper(next(wrappers).text)
        yield SamplingResult(text=left + next(inners).text + right)


def s_base_sequence(self, command, context):
    tokens, ctx = context.process_variable_assignments(command.tokens)
    gens = [ctx.generator_from_command(c) for c in tokens]
    while True:
        yield SamplingResult.joined([next(g) for g in gens], separator=command.separator)


def s_base_literal(self, command, context):
    while True:
        yield SamplingResult(text=command.literal)


def s_weighted(self, rng):
    """Uniform over the texts when all weights agree, else in proportion to the weights; one draw per value."""
    while True:
        if self.has_varied_weights:
            yield rng.choices(self.string_values, cum_weights=self.cum_weight_values, k=1)[0]
        else:
            yield rng.choice(self.string_values)


def s_choice_generator(self, context, values):
    return values.get_weighted_random_generator(context.rand)


def random_context(context):
    return context.default_sampling_method is not SamplingMethod.COMBINATORIAL


def r_variant(command, context):
    return random_context(context) and command.min_bound >= 0 and command.min_bound <= command.max_bound


def weights_cmd(w):
    with_call(w, SamplingResult.joined.__func__, fun_call("JOINED", dict(results=Seq(SR), separator=Str), SR))


def rand_variant_call(run, b):
    return new_gen(run, run.lift(b["context"], Ctx), run.lift(b["command"], Cmd))


def choose_facts(values, weights, n, *r):
    out = r[-1]
    return [z3.Length(out) == n]


R = "dynamicprompts.samplers.random:RandomSampler."
B = "dynamicprompts.samplers.base:Sampler."
U = "dynamicprompts.utils:"
RND = ["C04", "C05", "C13"]
CONTRACTS = [
    Contract(U + "choose_without_replacement", dict(values=Seq(Cmd), weights=Seq(Real), num_choices=Int, rand=Rand), requires=r_choose, spec=s_choose, props=["C04"], world=world,
             call=fun_call("CHOOSE", dict(values=Seq(Cmd), weights=Seq(Real), num_choices=Int, rand=Rand), Seq(Cmd), raises=ValueError, world=True, facts=choose_facts)),
    Contract(U + "rotate_all", dict(generators=Seq(K.GenRefK)), spec=s_rotate_all, props=["C04", "C05"], world=world, internal=True),
    Contract(U + "rotate_and_join", dict(generators=Seq(K.GenRefK), separator=Str), spec=s_rotate_and_join, props=["C04", "C05"], world=world, internal=True),
    Contract(R + "_get_variant_num_choices", dict(self=RandK, command=cmd(VariantCommand), context=Ctx), spec=s_num_choices, props=["C04"], world=world, internal=True),
    Contract(R + "_get_variant_choices", dict(self=RandK, values=Seq(Cmd), weights=Seq(Real), num_choices=Int, rand=Rand), requires=r_choose, spec=s_variant_choices, props=["C04"], world=world, internal=True),
    Contract(R + "_get_wildcard_choice_generator", dict(self=RandK, context=Ctx, values=Values), spec=s_choice_generator, props=["C13"], world=world, internal=True),
    Contract("dynamicprompts.wildcards.values:WildcardValues.get_weighted_random_generator", dict(self=Values, rng=Rand), spec=s_weighted, props=["C13", "C05"], world=world,
             call=lambda run, b: picks(run, "PICK", b["self"], b["rng"])),
    Contract(R + "_get_variant", dict(self=RandK, command=cmd(VariantCommand), context=Ctx), requires=r_variant, spec=s_variant, props=["C04", "C05"], world=world,
             call=rand_variant_call, prepare=weights_cmd),
    Contract(R + "_get_wildcard", dict(self=RandK, command=cmd(WildcardCommand), context=Ctx), requires=random_context, spec=s_wildcard, props=["C10", "C13", "C05", "C07"], world=world),
    Contract(R + "_get_wrap", dict(self=RandK, command=cmd(WrapCommand), context=Ctx), requires=random_context, spec=s_wrap, props=["C14"], world=world),
    Contract(B + "_get_sequence", dict(self=SamplerK, command=cmd(SequenceCommand), context=Ctx), requires=random_context, spec=s_base_sequence, props=["C04", "C06", "C07"], world=world, prepare=weights_cmd),
    Contract(B + "_get_literal", dict(self=SamplerK, command=cmd(LiteralCommand), context=Ctx), spec=s_base_literal, props=["C04", "C06"], world=world),
]
